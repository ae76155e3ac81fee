// uses: sheap
// The stages of a suffix sorter around the two induction passes, over the whole working array f (n cells and the spare ones).
// ---- scanning the text from the right
/// c1 is the character after i, c tells its type
#[verifier::opaque]
pub open spec fn scn(s: Seq<int>, i: int, c: int, c1: int) -> bool { -1 <= i <= s.len() - 2 && s.len() >= 1 && c1 == s[i + 1] && (c == 0 || c == 1) && (c == 1) == ss(s, i + 1) }
pub proof fn lem_scan0(s: Seq<int>)
    requires s.len() >= 1
    ensures scn(s, s.len() - 2, 0, s[s.len() - 1]), ixl(s, s.len() as int) == lml(s, 0).len(), nxl(s, s.len() as int) == s.len()
{ reveal(scn); lem_lml_step(s, 0); }
pub proof fn lem_scan(s: Seq<int>, i: int, c: int, c1: int)
    requires scn(s, i, c, c1), 0 <= i
    ensures c == 0 || c == 1, c1 == s[i + 1], i + 2 <= s.len(), scn(s, i - 1, if s[i] < c1 + c { 1int } else { 0 }, s[i]), lm(s, i + 1) == (!(s[i] < c1 + c) && c != 0),
        lm(s, i + 1) ==> ixl(s, i + 1) + 1 == ixl(s, i + 2) && 0 <= ixl(s, i + 1) < lml(s, 0).len() && lml(s, 0)[ixl(s, i + 1)] == i + 1 && nxl(s, i + 1) == i + 1, !lm(s, i + 1) ==> ixl(s, i + 1) == ixl(s, i + 2) && nxl(s, i + 1) == nxl(s, i + 2),
        0 <= ixl(s, i + 1) <= lml(s, 0).len()
{ reveal(scn); lem_lml_step(s, i + 1); if lm(s, i + 1) { lem_lml_at(s, i + 1); } lem_lml_tail(s, i + 1); }
pub proof fn lem_scan_end(s: Seq<int>)
    requires s.len() >= 1
    ensures ixl(s, 1) == 0
{ lem_lml_step(s, 0); }
/// placing the LMS positions of the text
pub proof fn lem_placel(s: Seq<int>, i: int, a: Seq<int>, b: Seq<int>)
    requires pq(s, lml(s, 0), ixl(s, i + 2), 0, a, b), 0 <= i, i + 1 < s.len(), lm(s, i + 1)
    ensures 0 <= s[i + 1] < b.len(), 1 <= b[s[i + 1]] <= s.len(), pq(s, lml(s, 0), ixl(s, i + 1), 0, a.update(b[s[i + 1]] - 1, i + 1), b.update(s[i + 1], b[s[i + 1]] - 1))
{ lem_lml_at(s, i + 1); lem_pq_step(s, lml(s, 0), ixl(s, i + 1), 0, a, b); }
// ---- compaction
/// the first j > p with a character other than p's decides whether p is an LMS position
pub proof fn lem_runj(s: Seq<int>, p: int, j: int)
    requires 0 < p < j <= s.len(), forall|x: int| p < x < j ==> #[trigger] s[x] == s[p], j == s.len() || s[j] != s[p]
    ensures lm(s, p) == (s[p - 1] > s[p] && j < s.len() && s[p] < s[j])
{ lem_runss(s, p, p, j); }
proof fn lem_runss(s: Seq<int>, p: int, x: int, j: int)
    requires 0 < p <= x < j <= s.len(), forall|x: int| p < x < j ==> #[trigger] s[x] == s[p], j == s.len() || s[j] != s[p]
    ensures ss(s, x) == (j < s.len() && s[p] < s[j]), s[x] == s[p]
    decreases j - x
{ if x + 1 < j { lem_runss(s, p, x + 1, j); } }
pub proof fn lem_nolm(s: Seq<int>, p: int)
    requires 0 <= p < s.len(), p == 0 || s[p - 1] <= s[p]
    ensures !lm(s, p)
{ }
#[verifier::opaque]
pub open spec fn cmpd(s: Seq<int>, a: Seq<int>, f: Seq<int>, i: int, m: int) -> bool {
    &&& a.len() == s.len() && f.len() >= s.len() && 0 <= m <= i <= s.len() && lf(s, a, i).len() == m
    &&& forall|x: int| 0 <= x < m ==> #[trigger] f[x] == lf(s, a, i)[x]
    &&& forall|x: int| i <= x < s.len() ==> #[trigger] f[x] == a[x]
}
pub proof fn lem_cmpd0(s: Seq<int>, a: Seq<int>, f: Seq<int>)
    requires a.len() == s.len(), f.len() >= s.len(), a == f.subrange(0, s.len() as int)
    ensures cmpd(s, a, f, 0, 0)
{ reveal(cmpd); assert(lf(s, a, 0).len() == 0); assert forall|x: int| 0 <= x < s.len() implies #[trigger] f[x] == a[x] by { } }
pub proof fn lem_cmpd(s: Seq<int>, a: Seq<int>, f: Seq<int>, i: int, m: int)
    requires cmpd(s, a, f, i, m), i < s.len()
    ensures f[i] == a[i], 0 <= m <= i, lm(s, a[i]) ==> cmpd(s, a, f.update(m, a[i]), i + 1, m + 1), !lm(s, a[i]) ==> cmpd(s, a, f, i + 1, m)
{
    reveal(cmpd); reveal_with_fuel(lf, 2);
    if lm(s, a[i]) { let g = f.update(m, a[i]); assert forall|x: int| 0 <= x < m + 1 implies #[trigger] g[x] == lf(s, a, i + 1)[x] by { if x < m { assert(f[x] == lf(s, a, i)[x]); } } }
}
/// the sorted LMS positions stand in front
#[verifier::opaque]
pub open spec fn front(f: Seq<int>, l: Seq<int>) -> bool { f.len() >= l.len() && forall|x: int| 0 <= x < l.len() ==> #[trigger] f[x] == l[x] }
pub proof fn lem_cmpd_end(s: Seq<int>, a: Seq<int>, f: Seq<int>, m: int)
    requires cmpd(s, a, f, s.len() as int, m), srt(gq(s, lml(s, 0)), a), s.len() >= 1
    ensures front(f, lf(s, a, s.len() as int)), lf(s, a, s.len() as int).len() == m, 2 * m <= s.len() - 1, m == lml(s, 0).len(), all_lms(s, lf(s, a, s.len() as int)), ltsort(gq(s, lml(s, 0)), lf(s, a, s.len() as int)), ig_ok(gq(s, lml(s, 0))), gq(s, lml(s, 0)).s == s
{ reveal(cmpd); reveal(front); lem_all_text(s); lem_gq(s, lml(s, 0)); lem_lf_all(gq(s, lml(s, 0)), a); lem_lml_len(s, 0); }
pub proof fn lem_front_put(f: Seq<int>, l: Seq<int>, i: int, v: int)
    requires front(f, l), i >= l.len()
    ensures front(f.update(i, v), l)
{ reveal(front); }
pub proof fn lem_front_at(f: Seq<int>, l: Seq<int>, x: int)
    requires front(f, l), 0 <= x < l.len()
    ensures f[x] == l[x], x < f.len()
{ reveal(front); }
// ---- lengths and names, kept behind the list: half a position finds its cell
pub open spec fn cel(m: int, p: int) -> int { m + p / 2 }
/// cells of the LMS positions from i on hold val(p), the others 0
pub open spec fn lat(s: Seq<int>, m: int, i: int, w: int) -> bool { exists|p: int| i <= p < s.len() && #[trigger] lm(s, p) && cel(m, p) == w }
#[verifier::opaque]
pub open spec fn lens(s: Seq<int>, m: int, f: Seq<int>, i: int) -> bool {
    &&& f.len() >= s.len() && 0 <= 2 * m <= s.len() - 1 && 1 <= i
    &&& forall|p: int| i <= p < s.len() && #[trigger] lm(s, p) ==> f[cel(m, p)] == nxl(s, p + 1) - p
    &&& forall|w: int| m <= w < s.len() && #[trigger] f[w] != 0 ==> lat(s, m, i, w)
}
pub proof fn lem_cel(s: Seq<int>, m: int, p: int)
    requires lm(s, p), p < s.len(), 0 <= 2 * m <= s.len() - 1
    ensures 0 < p < s.len() - 1, m <= cel(m, p) < s.len(), cel(m, p) == m + p / 2
{ }
pub proof fn lem_cel_two(s: Seq<int>, m: int, p: int, r: int)
    requires lm(s, p), lm(s, r), p < r
    ensures cel(m, p) < cel(m, r)
{ }
pub proof fn lem_lens0(s: Seq<int>, m: int, f: Seq<int>)
    requires f.len() >= s.len(), 0 <= 2 * m <= s.len() - 1, forall|w: int| m <= w < s.len() ==> #[trigger] f[w] == 0
    ensures lens(s, m, f, s.len() as int)
{ reveal(lens); }
pub proof fn lem_lens(s: Seq<int>, m: int, f: Seq<int>, i: int)
    requires lens(s, m, f, i + 1), 1 <= i < s.len()
    ensures lm(s, i) ==> m <= cel(m, i) < s.len() && lens(s, m, f.update(cel(m, i), nxl(s, i + 1) - i), i), !lm(s, i) ==> lens(s, m, f, i)
{
    reveal(lens);
    if lm(s, i) {
        let g = f.update(cel(m, i), nxl(s, i + 1) - i); lem_cel(s, m, i);
        assert forall|p: int| i <= p < s.len() && #[trigger] lm(s, p) implies g[cel(m, p)] == nxl(s, p + 1) - p by { if p > i { lem_cel_two(s, m, i, p); lem_cel(s, m, p); } }
        assert forall|w: int| m <= w < s.len() && #[trigger] g[w] != 0 implies lat(s, m, i, w) by { if w != cel(m, i) { assert(f[w] != 0); let p = choose|p: int| i + 1 <= p < s.len() && #[trigger] lm(s, p) && cel(m, p) == w; assert(lm(s, p)); } }
    } else {
        assert forall|w: int| m <= w < s.len() && #[trigger] f[w] != 0 implies lat(s, m, i, w) by { let p = choose|p: int| i + 1 <= p < s.len() && #[trigger] lm(s, p) && cel(m, p) == w; assert(lm(s, p)); }
    }
}
/// names given to the first i positions of the list
#[verifier::opaque]
pub open spec fn names(s: Seq<int>, l: Seq<int>, f: Seq<int>, i: int) -> bool {
    let m = l.len() as int;
    &&& all_lms(s, l) && f.len() >= s.len() && 0 <= 2 * m <= s.len() - 1 && front(f, l) && 0 <= i <= m
    &&& forall|x: int| 0 <= x < i ==> f[cel(m, #[trigger] l[x])] == nmv(s, l, x + 1)
    &&& forall|x: int| i <= x < m ==> f[cel(m, #[trigger] l[x])] == nxl(s, l[x] + 1) - l[x]
    &&& forall|w: int| m <= w < s.len() && #[trigger] f[w] != 0 ==> lat(s, m, 1, w)
}
pub proof fn lem_names0(s: Seq<int>, l: Seq<int>, f: Seq<int>)
    requires all_lms(s, l), front(f, l), lens(s, l.len() as int, f, 1)
    ensures names(s, l, f, 0)
{
    reveal(lens); reveal(names); let m = l.len() as int;
    assert forall|x: int| 0 <= x < m implies f[cel(m, #[trigger] l[x])] == nxl(s, l[x] + 1) - l[x] by { reveal(all_lms); assert(lm(s, l[x])); }
}
/// the current position, its cell, its length
pub proof fn lem_names_at(s: Seq<int>, l: Seq<int>, f: Seq<int>, i: int)
    requires names(s, l, f, i), 0 <= i < l.len()
    ensures f[i] == l[i], 0 < l[i] < s.len() - 1, lm(s, l[i]), l.len() <= cel(l.len() as int, l[i]) < s.len(), f[cel(l.len() as int, l[i])] == nxl(s, l[i] + 1) - l[i], 1 <= nxl(s, l[i] + 1) - l[i], nxl(s, l[i] + 1) <= s.len()
{ reveal(names); lem_front_at(f, l, i); assert(0 < l[i] < s.len() - 1 && lm(s, l[i])) by { reveal(all_lms); } lem_cel(s, l.len() as int, l[i]); lem_nxl(s, l[i] + 1); }
pub proof fn lem_names(s: Seq<int>, l: Seq<int>, f: Seq<int>, i: int)
    requires names(s, l, f, i), 0 <= i < l.len()
    ensures names(s, l, f.update(cel(l.len() as int, l[i]), nmv(s, l, i + 1)), i + 1)
{
    lem_names_at(s, l, f, i); reveal(names); let m = l.len() as int; let g = f.update(cel(m, l[i]), nmv(s, l, i + 1)); lem_front_put(f, l, cel(m, l[i]), nmv(s, l, i + 1));
    assert forall|x: int| 0 <= x < m && x != i implies cel(m, #[trigger] l[x]) != cel(m, l[i]) && 0 <= cel(m, l[x]) < f.len() by { reveal(all_lms); assert(l[x] != l[i]); assert(lm(s, l[x]) && lm(s, l[i])); lem_cel(s, m, l[x]); if l[x] < l[i] { lem_cel_two(s, m, l[x], l[i]); } else { lem_cel_two(s, m, l[i], l[x]); } }
    assert forall|w: int| m <= w < s.len() && #[trigger] g[w] != 0 implies lat(s, m, 1, w) by { if w == cel(m, l[i]) { assert(lm(s, l[i])); } else { assert(f[w] != 0); } }
}
/// the last different piece: that of position q
#[verifier::opaque]
pub open spec fn lastp(s: Seq<int>, l: Seq<int>, i: int, q: int, qlen: int) -> bool {
    if i == 0 { qlen == 0 } else { 0 < i <= l.len() && 0 <= q < s.len() && qlen == nxl(s, q + 1) - q && 1 <= qlen && nxl(s, q + 1) <= s.len() && pce(s, q) == pce(s, l[i - 1]) }
}
pub proof fn lem_lastp0(s: Seq<int>, l: Seq<int>, q: int) ensures lastp(s, l, 0, q, 0), nmv(s, l, 0) == 0 { reveal(lastp); lem_nmv(s, l, 0); }
pub proof fn lem_lastp(s: Seq<int>, l: Seq<int>, i: int, q: int, qlen: int)
    requires lastp(s, l, i, q, qlen), 0 <= i
    ensures 0 <= qlen <= s.len(), qlen > 0 ==> 0 <= q && q + qlen <= s.len()
{ reveal(lastp); }
/// d: whether the piece of l[i] differs from that of q
pub proof fn lem_name(s: Seq<int>, l: Seq<int>, f: Seq<int>, i: int, q: int, qlen: int, j: int)
    requires names(s, l, f, i), 0 <= i < l.len(), lastp(s, l, i, q, qlen), nxl(s, l[i] + 1) - l[i] == qlen ==> 0 <= j <= qlen && (forall|x: int| 0 <= x < j ==> s[l[i] + x] == #[trigger] s[q + x]) && (j < qlen ==> s[l[i] + j] != s[q + j])
    ensures ({ let d = !(nxl(s, l[i] + 1) - l[i] == qlen && j == qlen); nmv(s, l, i + 1) == nmv(s, l, i) + (if d { 1int } else { 0 }) && lastp(s, l, i + 1, if d { l[i] } else { q }, nxl(s, l[i] + 1) - l[i]) }), 0 <= nmv(s, l, i) <= i
{
    lem_names_at(s, l, f, i); lem_nmv(s, l, i + 1); lem_nmv(s, l, i); reveal(lastp); let p = l[i];
    if i > 0 {
        if nxl(s, p + 1) - p == qlen {
            if j == qlen { assert forall|x: int| 0 <= x < qlen implies pce(s, p)[x] == pce(s, q)[x] by { assert(s[p + x] == s[q + x]); } assert(pce(s, p) =~= pce(s, q)); }
            else { assert(pce(s, p)[j] == s[p + j] && pce(s, q)[j] == s[q + j]); }
        } else { assert(pce(s, p).len() != pce(s, q).len()); }
    }
}
// ---- the reduced string
/// the list's text order: cell of the t-th LMS position
pub open spec fn celt(s: Seq<int>, t: int) -> int { cel(lml(s, 0).len() as int, lml(s, 0)[t]) }
pub proof fn lem_celt(s: Seq<int>, t: int)
    requires s.len() >= 1, 0 <= t < lml(s, 0).len()
    ensures lml(s, 0).len() <= celt(s, t) < s.len(), t + 1 < lml(s, 0).len() ==> celt(s, t) < celt(s, t + 1), 2 * lml(s, 0).len() <= s.len() - 1, celt(s, t) <= s.len() - lml(s, 0).len() + t, lml(s, 0)[t] <= s.len() - 2 - 2 * (lml(s, 0).len() - 1 - t)
    decreases lml(s, 0).len() - t
{
    lem_lml_len(s, 0); lem_lml(s, 0); let q = lml(s, 0); lem_lml_next(s, t);
    if t + 1 < q.len() { lem_lml_next(s, t + 1); lem_celt(s, t + 1); assert(q[t] < q[t + 1]); assert(lm(s, q[t]) && lm(s, q[t + 1])); lem_cel_two(s, q.len() as int, q[t], q[t + 1]); }
}
pub proof fn lem_celt_mono(s: Seq<int>, t: int, u: int)
    requires s.len() >= 1, 0 <= t < u < lml(s, 0).len()
    ensures celt(s, t) < celt(s, u)
    decreases u - t
{ lem_celt(s, t); if t + 1 < u { lem_celt_mono(s, t + 1, u); } }
/// the last m cells
pub open spec fn fe(f: Seq<int>, m: int, t: int) -> int { f[f.len() - m + t] }
/// from the right: cells above i are read, their values stored at the end, entries above j; o is the array of names
#[verifier::opaque]
pub open spec fn redd(s: Seq<int>, l: Seq<int>, o: Seq<int>, f: Seq<int>, i: int, j: int) -> bool {
    let m = l.len() as int; let e = f.len() - m;
    &&& names(s, l, o, m) && m == lml(s, 0).len() && f.len() == o.len() && m - 1 <= i < s.len() && -1 <= j < m
    &&& forall|t: int| j < t < m ==> #[trigger] celt(s, t) > i
    &&& forall|t: int| j < t < m ==> #[trigger] fe(f, m, t) == red(s, l)[t]
    &&& forall|t: int| 0 <= t <= j ==> #[trigger] celt(s, t) <= i
    &&& forall|w: int| 0 <= w <= i ==> #[trigger] f[w] == o[w]
}
pub proof fn lem_redd0(s: Seq<int>, l: Seq<int>, o: Seq<int>)
    requires names(s, l, o, l.len() as int)
    ensures redd(s, l, o, o, s.len() - 1, l.len() - 1), l.len() == lml(s, 0).len()
{
    reveal(redd); reveal(names); assert(l.len() == lml(s, 0).len() && s.len() >= 1) by { reveal(all_lms); }
    assert forall|t: int| 0 <= t <= l.len() - 1 implies #[trigger] celt(s, t) <= s.len() - 1 by { lem_celt(s, t); }
}
/// what an unread or read cell holds
proof fn lem_redd_cell(s: Seq<int>, l: Seq<int>, o: Seq<int>, t: int)
    requires names(s, l, o, l.len() as int), 0 <= t < lml(s, 0).len()
    ensures o[celt(s, t)] == red(s, l)[t] + 1, 1 <= o[celt(s, t)] <= l.len(), l.len() == lml(s, 0).len(), s.len() >= 1
{
    reveal(names); assert(s.len() >= 1 && all_lms(s, l)) by { reveal(all_lms); } assert(l.len() == lml(s, 0).len()) by { reveal(all_lms); }
    lem_lml_next(s, t); let p = lml(s, 0)[t]; lem_list(s, l, p); let x = posq(l, p); assert(l[x] == p); assert(o[cel(l.len() as int, l[x])] == nmv(s, l, x + 1)); lem_nmv(s, l, x + 1);
}
proof fn lem_redd_at(s: Seq<int>, l: Seq<int>, o: Seq<int>, i: int) -> (t: int)
    requires names(s, l, o, l.len() as int), l.len() <= i < s.len(), o[i] != 0
    ensures 0 <= t < lml(s, 0).len(), celt(s, t) == i
{
    reveal(names); assert(s.len() >= 1 && all_lms(s, l) && l.len() == lml(s, 0).len()) by { reveal(all_lms); }
    assert(lat(s, l.len() as int, 1, i)); let p = choose|p: int| 1 <= p < s.len() && #[trigger] lm(s, p) && cel(l.len() as int, p) == i;
    lem_lml_at(s, p); ixl(s, p)
}
pub proof fn lem_redd(s: Seq<int>, l: Seq<int>, o: Seq<int>, f: Seq<int>, i: int, j: int)
    requires redd(s, l, o, f, i, j), l.len() <= i
    ensures i < s.len() <= f.len(), -1 <= j < l.len(), f[i] != 0 ==> j >= 0 && i <= f.len() - l.len() + j < f.len() && 1 <= f[i] <= l.len() && redd(s, l, o, f.update(f.len() - l.len() + j, f[i] - 1), i - 1, j - 1), f[i] == 0 ==> redd(s, l, o, f, i - 1, j)
{
    reveal(redd); let m = l.len() as int; let e = f.len() - m;
    assert(f[i] == o[i]); assert(s.len() >= 1 && s.len() <= o.len()) by { reveal(names); reveal(all_lms); }
    if f[i] != 0 {
        let t = lem_redd_at(s, l, o, i); assert(celt(s, t) == i);
        if t > j { assert(fe(f, m, t) == red(s, l)[t]); assert(celt(s, t) > i); }
        if t < j { lem_celt_mono(s, t, j); assert(celt(s, j) <= i); }
        assert(t == j); lem_celt(s, j); lem_redd_cell(s, l, o, j);
        let g = f.update(e + j, f[i] - 1);
        assert forall|t: int| j - 1 < t < m implies #[trigger] fe(g, m, t) == red(s, l)[t] by { if t > j { assert(fe(f, m, t) == red(s, l)[t]); } }
        assert forall|t: int| 0 <= t <= j - 1 implies #[trigger] celt(s, t) <= i - 1 by { lem_celt_mono(s, t, j); }
        assert forall|w: int| 0 <= w <= i - 1 implies #[trigger] g[w] == o[w] by { assert(f[w] == o[w]); }
    } else {
        assert forall|t: int| 0 <= t <= j implies #[trigger] celt(s, t) <= i - 1 by { assert(celt(s, t) <= i); if celt(s, t) == i { lem_redd_cell(s, l, o, t); } }
    }
}
/// everything is read: the reduced string stands at the end
pub proof fn lem_redd_end(s: Seq<int>, l: Seq<int>, o: Seq<int>, f: Seq<int>, j: int)
    requires redd(s, l, o, f, l.len() - 1, j)
    ensures f.len() >= s.len() && 2 * l.len() <= s.len() - 1, f.subrange(f.len() - l.len(), f.len() as int) == red(s, l), chars(red(s, l), nmv(s, l, l.len() as int)), red(s, l).len() == l.len()
{
    reveal(redd); reveal(names); let m = l.len() as int; let e = f.len() - m;
    assert(s.len() >= 1 && all_lms(s, l)) by { reveal(all_lms); }
    if j >= 0 { lem_celt(s, j); assert(celt(s, j) <= m - 1); }
    assert forall|t: int| 0 <= t < m implies f.subrange(e, f.len() as int)[t] == red(s, l)[t] by { assert(fe(f, m, t) == red(s, l)[t]); }
    assert(f.subrange(e, f.len() as int) =~= red(s, l));
    assert forall|x: int| 0 <= x < red(s, l).len() implies 0 <= #[trigger] red(s, l)[x] < nmv(s, l, m) by { lem_lml_next(s, x); let p = lml(s, 0)[x]; lem_list(s, l, p); let y = posq(l, p); lem_nmv(s, l, y + 1); lem_nmv_mono(s, l, y + 1, m); }
}
// ---- after the recursive call
/// entries from t on of the list of positions are back; the sorted list of the reduced string stands in front
#[verifier::opaque]
pub open spec fn refl(s: Seq<int>, a: Seq<int>, f: Seq<int>, t: int) -> bool {
    let m = lml(s, 0).len() as int; let e = f.len() - m;
    &&& a.len() == m && 2 * m <= s.len() - 1 && f.len() >= s.len() && 0 <= t <= m && front(f, a)
    &&& forall|x: int| t <= x < m ==> #[trigger] fe(f, m, x) == lml(s, 0)[x]
}
pub proof fn lem_refl0(s: Seq<int>, a: Seq<int>, f: Seq<int>)
    requires a.len() == lml(s, 0).len(), 2 * a.len() <= s.len() - 1, f.len() >= s.len(), f.subrange(0, a.len() as int) == a
    ensures refl(s, a, f, lml(s, 0).len() as int)
{ reveal(refl); reveal(front); assert forall|x: int| 0 <= x < a.len() implies #[trigger] f[x] == a[x] by { assert(f.subrange(0, a.len() as int)[x] == a[x]); } }
pub proof fn lem_refl(s: Seq<int>, a: Seq<int>, f: Seq<int>, i: int)
    requires refl(s, a, f, ixl(s, i + 2)), 0 <= i, i + 1 < s.len(), lm(s, i + 1)
    ensures 0 <= ixl(s, i + 1) < a.len(), 0 <= f.len() - a.len() + ixl(s, i + 1) < f.len(), refl(s, a, f.update(f.len() - a.len() + ixl(s, i + 1), i + 1), ixl(s, i + 1))
{
    reveal(refl); lem_lml_at(s, i + 1); let m = a.len() as int; let e = f.len() - m; let t = ixl(s, i + 1); let g = f.update(e + t, i + 1);
    lem_front_put(f, a, e + t, i + 1);
    assert forall|x: int| t <= x < m implies #[trigger] fe(g, m, x) == lml(s, 0)[x] by { if x > t { assert(fe(f, m, x) == lml(s, 0)[x]); } }
}
/// the first i entries are turned into positions of the text
#[verifier::opaque]
pub open spec fn mapd(s: Seq<int>, a: Seq<int>, f: Seq<int>, i: int) -> bool {
    let m = lml(s, 0).len() as int; let e = f.len() - m;
    &&& a.len() == m && 2 * m <= s.len() - 1 && f.len() >= s.len() && 0 <= i <= m && (forall|x: int| 0 <= x < m ==> 0 <= #[trigger] a[x] < m)
    &&& forall|x: int| 0 <= x < i ==> #[trigger] f[x] == lml(s, 0)[a[x]]
    &&& forall|x: int| i <= x < m ==> #[trigger] f[x] == a[x]
    &&& forall|x: int| 0 <= x < m ==> #[trigger] fe(f, m, x) == lml(s, 0)[x]
}
pub proof fn lem_mapd0(s: Seq<int>, r: Seq<int>, a: Seq<int>, f: Seq<int>)
    requires refl(s, a, f, 0), is_sa(r, a), r.len() == a.len()
    ensures mapd(s, a, f, 0)
{ reveal(refl); reveal(front); reveal(mapd); }
pub proof fn lem_mapd(s: Seq<int>, a: Seq<int>, f: Seq<int>, i: int)
    requires mapd(s, a, f, i), i < a.len(), s.len() >= 1
    ensures 0 <= i < f.len(), 0 <= f[i] < a.len(), 0 <= f.len() - a.len(), f.len() - a.len() + f[i] < f.len(), 0 <= f[f.len() - a.len() + f[i]] < s.len(), mapd(s, a, f.update(i, f[f.len() - a.len() + f[i]]), i + 1), a.len() == lml(s, 0).len()
{
    reveal(mapd); let m = a.len() as int; let e = f.len() - m; assert(f[i] == a[i]); assert(fe(f, m, a[i]) == lml(s, 0)[a[i]]); lem_lml(s, 0);
    let g = f.update(i, f[e + f[i]]);
    assert forall|x: int| 0 <= x < i + 1 implies #[trigger] g[x] == lml(s, 0)[a[x]] by { if x < i { assert(f[x] == lml(s, 0)[a[x]]); } }
    assert forall|x: int| 0 <= x < m implies #[trigger] fe(g, m, x) == lml(s, 0)[x] by { assert(fe(f, m, x) == lml(s, 0)[x]); }
}
/// the list in suffix order
#[verifier::opaque]
pub open spec fn lsorted(s: Seq<int>, l: Seq<int>) -> bool { all_lms(s, l) && ilsort(s, l) && 2 * l.len() <= s.len() - 1 }
pub open spec fn mapl(s: Seq<int>, a: Seq<int>) -> Seq<int> { Seq::new(a.len(), |i: int| lml(s, 0)[a[i]]) }
pub proof fn lem_mapd_end(s: Seq<int>, l: Seq<int>, a: Seq<int>, f: Seq<int>)
    requires mapd(s, a, f, a.len() as int), ltsort(gq(s, lml(s, 0)), l), all_lms(s, l), is_sa(red(s, l), a)
    ensures front(f, mapl(s, a)), lsorted(s, mapl(s, a)), mapl(s, a).len() == l.len()
{
    reveal(mapd); reveal(front); reveal(lsorted); let q = lml(s, 0); let g = gq(s, q); assert(s.len() >= 1) by { reveal(all_lms); }
    lem_all_text(s); lem_gq(s, q); lem_red(g, l, a);
    assert(mapl(s, a) =~= Seq::new(a.len(), |i: int| lml(g.s, 0)[a[i]]));
}
pub proof fn lem_alldiff(s: Seq<int>, l: Seq<int>, f: Seq<int>)
    requires names(s, l, f, l.len() as int), nmv(s, l, l.len() as int) >= l.len(), ltsort(gq(s, lml(s, 0)), l)
    ensures front(f, l), lsorted(s, l)
{ reveal(names); reveal(lsorted); assert(s.len() >= 1) by { reveal(all_lms); } lem_all_text(s); lem_gq(s, lml(s, 0)); lem_unique(gq(s, lml(s, 0)), l); }
// ---- the last placement
/// entries of l below x are unread
#[verifier::opaque]
pub open spec fn pl3(s: Seq<int>, l: Seq<int>, x: int, a: Seq<int>, b: Seq<int>) -> bool { lsorted(s, l) && pq(s, l, x, x, a, b) && (forall|y: int| 0 <= y < x ==> #[trigger] a[y] == l[y]) && a.len() == s.len() && 0 <= x <= l.len() }
pub proof fn lem_pl30(s: Seq<int>, l: Seq<int>, a: Seq<int>, b: Seq<int>)
    requires lsorted(s, l), front(a, l), chars(s, b.len() as int), a.len() == s.len(), forall|c: int| 0 <= c < b.len() ==> #[trigger] b[c] == bks(s, c + 1), forall|w: int| l.len() <= w < a.len() ==> #[trigger] a[w] == 0
    ensures pl3(s, l, l.len() as int, a, b)
{ reveal(pl3); reveal(front); reveal(lsorted); lem_pq_start3(s, l, a, b); }
proof fn lem_pq_start3(s: Seq<int>, q: Seq<int>, a: Seq<int>, b: Seq<int>)
    requires all_lms(s, q), chars(s, b.len() as int), a.len() == s.len(), forall|c: int| 0 <= c < b.len() ==> #[trigger] b[c] == bks(s, c + 1), forall|w: int| q.len() <= w < a.len() ==> #[trigger] a[w] == 0
    ensures pq(s, q, q.len() as int, q.len() as int, a, b)
{ lem_pq_start(s, q, q.len() as int, a, b); }
pub proof fn lem_pl3(s: Seq<int>, l: Seq<int>, i: int, a: Seq<int>, b: Seq<int>)
    requires pl3(s, l, i + 1, a, b), 0 <= i
    ensures ({ let j = a[i]; let r = b[s[j]] - 1; j == l[i] && 0 < j < s.len() && 0 <= s[j] < b.len() && 0 <= r < s.len() && 0 <= i < s.len() && pl3(s, l, i, a.update(i, 0).update(r, j), b.update(s[j], r)) })
{
    reveal(pl3); assert(all_lms(s, l) && ilsort(s, l) && l.len() <= s.len()) by { reveal(lsorted); }
    lem_il_chars(s, l);
    assert forall|y: int| i < y < l.len() implies #[trigger] kq(s, l, y) > i by { lem_kq_up(s, l, y); }
    lem_pq_lower(s, l, i, a, b); let a2 = a.update(i, 0); lem_pq_step(s, l, i, i, a2, b); lem_kq_up(s, l, i);
    let r = kq(s, l, i); let a3 = a2.update(r, l[i]);
    assert forall|y: int| 0 <= y < i implies #[trigger] a3[y] == l[y] by { assert(a[y] == l[y]); }
}
pub proof fn lem_pl3_end(s: Seq<int>, l: Seq<int>, a: Seq<int>, b: Seq<int>)
    requires pl3(s, l, 0, a, b)
    ensures laid(gq(s, l), a), gq(s, l).s == s
{ reveal(pl3); lem_pq_done(s, l, a, b); }
pub proof fn lem_pl3_sa(s: Seq<int>, l: Seq<int>, a: Seq<int>)
    requires lsorted(s, l), srt(gq(s, l), a)
    ensures is_sa(s, a)
{ reveal(lsorted); lem_final(s, l, a); }
pub proof fn lem_pl1_end(s: Seq<int>, a: Seq<int>, b: Seq<int>)
    requires pq(s, lml(s, 0), 0, 0, a, b)
    ensures laid(gq(s, lml(s, 0)), a), gq(s, lml(s, 0)).s == s
{ lem_pq_done(s, lml(s, 0), a, b); }

pub proof fn lem_front_cut(f: Seq<int>, l: Seq<int>, n: int)
    requires front(f, l), l.len() <= n <= f.len()
    ensures front(f.subrange(0, n), l)
{ reveal(front); let g = f.subrange(0, n); assert forall|x: int| 0 <= x < l.len() implies #[trigger] g[x] == l[x] by { assert(f[x] == l[x]); } }
pub proof fn lem_srt_at(s: Seq<int>, a: Seq<int>, i: int)
    requires srt(gq(s, lml(s, 0)), a), gq(s, lml(s, 0)).s == s, 0 <= i < a.len()
    ensures 0 <= a[i] < s.len()
{ reveal(srt); }
pub proof fn lem_shr1(x: int) requires 0 <= x ensures x / (pow2(1) as int) == x / 2, 0 <= x / 2 { lemma2_to64(); }
