// uses: splace
// What the sorted orders mean: names of the pieces, the reduced string, the suffix array.
pub open spec fn ties(s: Seq<int>, i: int, j: int) -> bool decreases s.len() - i {
    &&& 0 <= i < s.len() && 0 <= j < s.len() && s[i] == s[j] && ss(s, i) == ss(s, j)
    &&& if lm(s, i + 1) && lm(s, j + 1) { i + 1 < s.len() && j + 1 < s.len() && s[i + 1] == s[j + 1] } else { ties(s, i + 1, j + 1) }
}
proof fn lem_ilift(s: Seq<int>, x: int, y: int, m: int)
    requires 0 <= m, 0 <= x, 0 <= y, x + m <= s.len(), y + m <= s.len(), forall|l: int| 0 <= l < m ==> s[x + l] == #[trigger] s[y + l], ilt(s, x + m, y + m)
    ensures ilt(s, x, y)
{
    let k = choose|k: int| #[trigger] ilt_at(s, x + m, y + m, k);
    assert forall|l: int| 0 <= l < k + m implies s[x + l] == #[trigger] s[y + l] by { if l >= m { assert(s[x + m + (l - m)] == s[y + m + (l - m)]); } }
    assert(ilt_at(s, x, y, k + m));
}
proof fn lem_ilift1(s: Seq<int>, x: int, y: int)
    requires 0 <= x < s.len(), 0 <= y < s.len(), s[x] == s[y], ilt(s, x + 1, y + 1)
    ensures ilt(s, x, y)
{ assert forall|l: int| 0 <= l < 1 implies s[x + l] == #[trigger] s[y + l] by { assert(l == 0); } lem_ilift(s, x, y, 1); }
proof fn lem_il_s(s: Seq<int>, x: int, y: int)
    requires 0 <= x < s.len(), 0 <= y < s.len(), s[x] == s[y], !ss(s, x), ss(s, y)
    ensures ilt(s, x, y)
    decreases s.len() - x
{
    let n = s.len() as int;
    if x + 1 == n || s[x + 1] < s[y + 1] { assert(ilt_at(s, x, y, 1)) by { assert forall|l: int| 0 <= l < 1 implies s[x + l] == #[trigger] s[y + l] by { assert(l == 0); } } }
    else { lem_il_s(s, x + 1, y + 1); lem_ilift1(s, x, y); }
}
/// the order is that of the suffixes, up to ties decided by the keys
pub proof fn lem_lt_sound(g: Ig, i: int, j: int)
    requires ig_ok(g), 0 <= i <= g.s.len(), 0 <= j <= g.s.len(), lt(g, i, j)
    ensures ilt(g.s, i, j) || ties(g.s, i, j) && g.key[nxl(g.s, i + 1)] < g.key[nxl(g.s, j + 1)]
    decreases g.s.len() - i
{
    let s = g.s; let n = s.len() as int;
    if i >= n { assert(ilt_at(s, i, j, 0)); }
    else if s[i] != s[j] { assert(ilt_at(s, i, j, 0)); }
    else if ss(s, i) != ss(s, j) { lem_il_s(s, i, j); }
    else {
        let a = i + 1; let b = j + 1;
        if lmk(g, a) && lmk(g, b) {
            assert(nxl(s, a) == a && nxl(s, b) == b);
            if a >= n { assert(ilt_at(s, a, b, 0)); lem_ilift1(s, i, j); }
            else if b >= n { }
            else if s[a] != s[b] { if s[b] < s[a] { assert(g.key[b] < g.key[a]); } assert(ilt_at(s, a, b, 0)); lem_ilift1(s, i, j); }
        } else {
            lem_lt_sound(g, a, b);
            if ilt(s, a, b) { lem_ilift1(s, i, j); }
            else { assert(lm(s, a) == lm(s, b)); }
        }
    }
}
/// tied positions: the same piece
pub proof fn lem_ties(s: Seq<int>, i: int, j: int)
    requires ties(s, i, j)
    ensures nxl(s, i + 1) - i == nxl(s, j + 1) - j, nxl(s, i + 1) < s.len(), nxl(s, j + 1) < s.len(), forall|l: int| 0 <= l <= nxl(s, i + 1) - i ==> s[i + l] == #[trigger] s[j + l]
    decreases s.len() - i
{
    let a = i + 1; let b = j + 1;
    if lm(s, a) && lm(s, b) { assert forall|l: int| 0 <= l <= 1 implies s[i + l] == #[trigger] s[j + l] by { assert(l == 0 || l == 1); } }
    else {
        reveal_with_fuel(ties, 2); lem_ties(s, a, b); assert(ss(s, a) == ss(s, b)); assert(ss(s, a - 1) == ss(s, b - 1)); assert(lm(s, a) == lm(s, b));
        assert forall|l: int| 0 <= l <= nxl(s, i + 1) - i implies s[i + l] == #[trigger] s[j + l] by { if l > 0 { assert(s[a + (l - 1)] == s[b + (l - 1)]); } }
    }
}
/// between tied positions there are only tied ones
pub proof fn lem_ties_mid(g: Ig, p: int, r: int, q: int)
    requires ig_ok(g), ties(g.s, p, q), 0 <= r <= g.s.len(), lt(g, p, r), lt(g, r, q)
    ensures ties(g.s, p, r)
    decreases g.s.len() - p
{
    let s = g.s; let n = s.len() as int; let a = p + 1; let b = r + 1; let c = q + 1;
    reveal_with_fuel(ties, 2);
    assert(r < n && s[r] == s[p] && ss(s, r) == ss(s, p));
    assert(ss(s, a - 1) == ss(s, p) && ss(s, b - 1) == ss(s, r) && ss(s, c - 1) == ss(s, q));
    if lmk(g, a) && lmk(g, c) {
        assert(g.key[a] >= 0);
        assert(!ss(s, p));
        assert(lmk(g, b) == ss(s, b));
        if !lmk(g, b) { reveal_with_fuel(lt, 2); assert(lt(g, a, b)); assert(lt(g, b, c)); assert(s[b] <= s[c]); assert(s[a] < s[b]); }
        if lmk(g, b) { assert(g.key[b] > 0); assert(b < n); if s[b] < s[a] { assert(g.key[b] < g.key[a]); } if s[c] < s[b] { assert(g.key[c] < g.key[b]); } }
    } else {
        assert(ties(s, a, c)); assert(ss(s, a) == ss(s, c)); assert(lm(s, a) == lm(s, c));
        lem_ties_mid(g, a, b, c);
        assert(ties(s, a, b)); assert(ss(s, a) == ss(s, b)); assert(lm(s, a) == lm(s, b));
    }
}
// ---- the LMS positions in sorted order
pub open spec fn lf(s: Seq<int>, a: Seq<int>, i: int) -> Seq<int> decreases i { if i <= 0 { seq![] } else if lm(s, a[i - 1]) { lf(s, a, i - 1).push(a[i - 1]) } else { lf(s, a, i - 1) } }
pub open spec fn ltsort(g: Ig, l: Seq<int>) -> bool { forall|x: int, y: int| 0 <= x < y < l.len() ==> lt(g, #[trigger] l[x], #[trigger] l[y]) }
pub proof fn lem_lf(g: Ig, a: Seq<int>, i: int)
    requires srt(g, a), 0 <= i <= a.len()
    ensures lf(g.s, a, i).len() <= i, ltsort(g, lf(g.s, a, i)), forall|x: int| 0 <= x < lf(g.s, a, i).len() ==> 0 < #[trigger] lf(g.s, a, i)[x] < g.s.len() - 1 && lm(g.s, lf(g.s, a, i)[x]) && inpre(a, i, lf(g.s, a, i)[x]),
        forall|w: int| #![trigger a[w]] 0 <= w < i && lm(g.s, a[w]) ==> exists|x: int| 0 <= x < lf(g.s, a, i).len() && #[trigger] lf(g.s, a, i)[x] == a[w]
    decreases i
{
    reveal(srt); let s = g.s;
    if i > 0 {
        lem_lf(g, a, i - 1); let f = lf(s, a, i - 1); let h = lf(s, a, i);
        let y = a[i - 1];
        if lm(s, y) {
            assert(y < s.len() - 1);
            assert forall|x: int| 0 <= x < h.len() implies 0 < #[trigger] h[x] < s.len() - 1 && lm(s, h[x]) && inpre(a, i, h[x]) by { if x < f.len() { assert(h[x] == f[x]); let w = choose|w: int| 0 <= w < i - 1 && #[trigger] a[w] == f[x]; assert(a[w] == h[x]); } else { assert(a[i - 1] == h[x]); } }
            assert forall|x: int, z: int| 0 <= x < z < h.len() implies lt(g, #[trigger] h[x], #[trigger] h[z]) by { assert(h[x] == f[x]); if z < f.len() { assert(h[z] == f[z]); } else { let w = choose|w: int| 0 <= w < i - 1 && #[trigger] a[w] == f[x]; assert(lt(g, a[w], a[i - 1])); } }
            assert forall|w: int| #![trigger a[w]] 0 <= w < i && lm(s, a[w]) implies exists|x: int| 0 <= x < h.len() && #[trigger] h[x] == a[w] by { if w < i - 1 { let x = choose|x: int| 0 <= x < f.len() && #[trigger] f[x] == a[w]; assert(h[x] == a[w]); } else { assert(h[h.len() - 1] == a[w]); } }
        } else {
            assert forall|x: int| 0 <= x < h.len() implies inpre(a, i, #[trigger] h[x]) by { let w = choose|w: int| 0 <= w < i - 1 && #[trigger] a[w] == f[x]; assert(a[w] == h[x]); }
        }
    }
}
pub open spec fn inpre(a: Seq<int>, i: int, v: int) -> bool { exists|w: int| 0 <= w < i && #[trigger] a[w] == v }
/// different members of another list: no longer than it
proof fn lem_len_le(a: Seq<int>, b: Seq<int>)
    requires forall|x: int, y: int| 0 <= x < y < a.len() ==> #[trigger] a[x] != #[trigger] a[y], forall|x: int| 0 <= x < a.len() ==> inpre(b, b.len() as int, #[trigger] a[x])
    ensures a.len() <= b.len()
{
    let m = Seq::new(a.len(), |x: int| posq(b, a[x]));
    assert forall|x: int| 0 <= x < m.len() implies 0 <= #[trigger] m[x] < b.len() && yes()(m[x]) && b[m[x]] == a[x] by { assert(inpre(b, b.len() as int, a[x])); }
    assert forall|x: int, y: int| 0 <= x < y < m.len() implies #[trigger] m[x] != #[trigger] m[y] by { assert(a[x] != a[y]); }
    lem_cnt_seq(yes(), b.len() as int, m); lem_cnt_yes(b.len() as int);
}
pub proof fn lem_lf_all(g: Ig, a: Seq<int>)
    requires srt(g, a)
    ensures all_lms(g.s, lf(g.s, a, a.len() as int)), ltsort(g, lf(g.s, a, a.len() as int)), lf(g.s, a, a.len() as int).len() == lml(g.s, 0).len()
{
    let s = g.s; let n = s.len() as int; reveal(srt); lem_lf(g, a, n); let l = lf(s, a, n); let q = lml(s, 0);
    assert forall|x: int, y: int| 0 <= x < y < n implies #[trigger] a[x] != #[trigger] a[y] by { lem_olt_irr(g, a[x]); }
    assert forall|j: int| #![trigger lm(s, j)] 0 <= j < n && lm(s, j) implies exists|x: int| 0 <= x < l.len() && #[trigger] l[x] == j by { lem_cnt_yes(n); let w = lem_cnt_full(yes(), n, a, j); assert(lm(s, a[w])); }
    assert forall|x: int, y: int| 0 <= x < y < l.len() implies #[trigger] l[x] != #[trigger] l[y] by { lem_olt_irr(g, l[x]); }
    lem_lml(s, 0);
    assert forall|x: int| 0 <= x < l.len() implies inpre(q, q.len() as int, #[trigger] l[x]) by { lem_lml_at(s, l[x]); assert(q[ixl(s, l[x])] == l[x]); }
    assert forall|x: int| 0 <= x < q.len() implies inpre(l, l.len() as int, #[trigger] q[x]) by { assert(lm(s, q[x])); let y = choose|y: int| 0 <= y < l.len() && #[trigger] l[y] == q[x]; assert(l[y] == q[x]); }
    lem_len_le(l, q); lem_len_le(q, l);
    reveal(all_lms);
}
// ---- names
pub open spec fn pce(s: Seq<int>, p: int) -> Seq<int> { s.subrange(p, nxl(s, p + 1)) }
#[verifier::opaque]
pub open spec fn nmv(s: Seq<int>, l: Seq<int>, i: int) -> int decreases i { if i <= 0 { 0 } else { nmv(s, l, i - 1) + (if i == 1 || pce(s, l[i - 2]) != pce(s, l[i - 1]) { 1int } else { 0 }) } }
pub proof fn lem_nmv(s: Seq<int>, l: Seq<int>, i: int)
    ensures i >= 1 ==> nmv(s, l, i) == nmv(s, l, i - 1) + (if i == 1 || pce(s, l[i - 2]) != pce(s, l[i - 1]) { 1int } else { 0 }), i <= 0 ==> nmv(s, l, i) == 0, i >= 0 ==> 0 <= nmv(s, l, i) <= i, i >= 1 ==> nmv(s, l, i) >= 1
    decreases i
{ reveal_with_fuel(nmv, 2); if i > 0 { lem_nmv(s, l, i - 1); } }
pub proof fn lem_nmv_mono(s: Seq<int>, l: Seq<int>, i: int, j: int)
    requires 0 <= i <= j
    ensures nmv(s, l, i) <= nmv(s, l, j) <= nmv(s, l, i) + j - i
    decreases j
{ if i < j { lem_nmv_mono(s, l, i, j - 1); lem_nmv(s, l, j); } }
/// equal names: equal pieces
proof fn lem_nm_eq(s: Seq<int>, l: Seq<int>, x: int, y: int)
    requires 0 <= x <= y < l.len(), nmv(s, l, x + 1) == nmv(s, l, y + 1)
    ensures pce(s, l[x]) == pce(s, l[y])
    decreases y
{ if x < y { lem_nmv(s, l, y + 1); lem_nmv_mono(s, l, x + 1, y); lem_nm_eq(s, l, x, y - 1); } }
/// tied positions get one name
proof fn lem_nm_tie(g: Ig, l: Seq<int>, x: int, y: int)
    requires ig_ok(g), ltsort(g, l), all_lms(g.s, l), 0 <= x <= y < l.len(), x < y ==> ties(g.s, l[x], l[y])
    ensures nmv(g.s, l, x + 1) == nmv(g.s, l, y + 1)
    decreases y
{
    if x < y {
        let s = g.s; reveal(all_lms);
        if x < y - 1 { assert(lt(g, l[x], l[y - 1]) && lt(g, l[y - 1], l[y])); lem_ties_mid(g, l[x], l[y - 1], l[y]); }
        lem_nm_tie(g, l, x, y - 1);
        lem_ties(s, l[x], l[y]); if x < y - 1 { lem_ties(s, l[x], l[y - 1]); }
        lem_nmv(s, l, y + 1);
        let p = l[y - 1]; let q = l[y]; let d = nxl(s, l[x] + 1) - l[x];
        assert(nxl(s, p + 1) - p == d && nxl(s, q + 1) - q == d);
        lem_nxl(s, p + 1); lem_nxl(s, q + 1);
        assert(pce(s, p) =~= pce(s, q)) by { assert forall|i: int| 0 <= i < d implies pce(s, p)[i] == pce(s, q)[i] by { assert(s[l[x] + i] == s[q + i]); if x < y - 1 { assert(s[l[x] + i] == s[p + i]); } } }
    }
}
pub proof fn lem_nm_lt(g: Ig, l: Seq<int>, x: int, y: int)
    requires ig_ok(g), ltsort(g, l), all_lms(g.s, l), 0 <= x < l.len(), 0 <= y < l.len(), nmv(g.s, l, x + 1) < nmv(g.s, l, y + 1)
    ensures ilt(g.s, l[x], l[y])
{
    reveal(all_lms);
    if x >= y { lem_nmv_mono(g.s, l, y + 1, x + 1); }
    assert(lt(g, l[x], l[y]));
    lem_lt_sound(g, l[x], l[y]);
    if !ilt(g.s, l[x], l[y]) { lem_nm_tie(g, l, x, y); }
}
pub open spec fn ilsort(s: Seq<int>, l: Seq<int>) -> bool { forall|x: int, y: int| 0 <= x < y < l.len() ==> ilt(s, #[trigger] l[x], #[trigger] l[y]) }
/// all names different: the list is in suffix order
pub proof fn lem_unique(g: Ig, l: Seq<int>)
    requires ig_ok(g), ltsort(g, l), all_lms(g.s, l), nmv(g.s, l, l.len() as int) >= l.len()
    ensures ilsort(g.s, l)
{
    assert forall|x: int, y: int| 0 <= x < y < l.len() implies ilt(g.s, #[trigger] l[x], #[trigger] l[y]) by {
        lem_nmv_mono(g.s, l, y + 1, l.len() as int); lem_nmv_mono(g.s, l, 0, x + 1); lem_nmv(g.s, l, 0);
        lem_nm_lt(g, l, x, y);
    }
}
/// the reduced string: names of the pieces in text order
pub open spec fn red(s: Seq<int>, l: Seq<int>) -> Seq<int> { Seq::new(l.len(), |t: int| nmv(s, l, posq(l, lml(s, 0)[t]) + 1) - 1) }
proof fn lem_red_at(g: Ig, l: Seq<int>, a: int, b: int, k: int)
    requires ig_ok(g), ltsort(g, l), all_lms(g.s, l), 0 <= a < l.len(), 0 <= b < l.len(), ilt_at(red(g.s, l), a, b, k)
    ensures ilt(g.s, lml(g.s, 0)[a], lml(g.s, 0)[b])
    decreases k
{
    let s = g.s; let q = lml(s, 0); let r = red(s, l); let n = s.len() as int;
    assert(l.len() == q.len() && n >= 1) by { reveal(all_lms); }
    lem_lml_next(s, a); lem_lml_next(s, b);
    lem_list(s, l, q[a]); lem_list(s, l, q[b]);
    let x = posq(l, q[a]); let y = posq(l, q[b]);
    if k == 0 { lem_nm_lt(g, l, x, y); }
    else {
        assert(r[a + 0] == r[b + 0]);
        if x <= y { lem_nm_eq(s, l, x, y); } else { lem_nm_eq(s, l, y, x); }
        lem_lml(s, 0); lem_nxl(s, q[a] + 1); lem_nxl(s, q[b] + 1);
        assert(0 <= q[a] && 0 <= q[b]); assert(q[a] <= nxl(s, q[a] + 1) <= n); assert(q[b] <= nxl(s, q[b] + 1) <= n);
        let d = nxl(s, q[a] + 1) - q[a]; let pa = pce(s, q[a]); let pb = pce(s, q[b]);
        assert(l[x] == q[a] && l[y] == q[b]); assert(pa == pb);
        assert(pce(s, q[a]).len() == d && pce(s, q[b]).len() == nxl(s, q[b] + 1) - q[b]) by { lem_nxl(s, q[a] + 1); lem_nxl(s, q[b] + 1); }
        assert forall|i: int| 0 <= i < d implies s[q[a] + i] == #[trigger] s[q[b] + i] by { assert(pa[i] == s[q[a] + i]); assert(pb[i] == s[q[b] + i]); }
        assert(b + 1 < q.len());
        if a + 1 < q.len() {
            assert(ilt_at(r, a + 1, b + 1, k - 1)) by { assert forall|i: int| 0 <= i < k - 1 implies r[a + 1 + i] == #[trigger] r[b + 1 + i] by { assert(r[a + (i + 1)] == r[b + (i + 1)]); } }
            lem_red_at(g, l, a + 1, b + 1, k - 1);
        } else { lem_lml_next(s, b + 1); assert(ilt_at(s, n, q[b + 1], 0)); }
        lem_ilift(s, q[a], q[b], d);
    }
}
/// the suffix array of the reduced string gives the order of the LMS suffixes
pub proof fn lem_red(g: Ig, l: Seq<int>, a: Seq<int>)
    requires ig_ok(g), ltsort(g, l), all_lms(g.s, l), is_sa(red(g.s, l), a)
    ensures all_lms(g.s, Seq::new(a.len(), |i: int| lml(g.s, 0)[a[i]])), ilsort(g.s, Seq::new(a.len(), |i: int| lml(g.s, 0)[a[i]]))
{
    let s = g.s; let q = lml(s, 0); let r = red(s, l); let b = Seq::new(a.len(), |i: int| q[a[i]]);
    reveal(all_lms); lem_lml(s, 0);
    assert(q.len() == l.len());
    assert forall|x: int, y: int| 0 <= x < y < b.len() implies ilt(s, #[trigger] b[x], #[trigger] b[y]) by { assert(ilt(r, a[x], a[y])); let k = choose|k: int| #[trigger] ilt_at(r, a[x], a[y], k); lem_red_at(g, l, a[x], a[y], k); }
    assert forall|x: int, y: int| 0 <= x < y < a.len() implies #[trigger] a[x] != #[trigger] a[y] by { assert(ilt(r, a[x], a[y])); lem_ilt_irr(r, a[x]); }
    assert forall|x: int| 0 <= x < b.len() implies 0 < #[trigger] b[x] < s.len() - 1 && lm(s, b[x]) by { lem_lml_next(s, a[x]); }
    assert forall|x: int, y: int| 0 <= x < y < b.len() implies #[trigger] b[x] != #[trigger] b[y] by { assert(a[x] != a[y]); if a[x] < a[y] { assert(q[a[x]] < q[a[y]]); } else { assert(q[a[y]] < q[a[x]]); } }
    assert forall|j: int| #![trigger lm(s, j)] 0 <= j < s.len() && lm(s, j) implies exists|x: int| 0 <= x < b.len() && #[trigger] b[x] == j by {
        lem_lml_at(s, j); lem_cnt_yes(a.len() as int); let w = lem_cnt_full(yes(), a.len() as int, a, ixl(s, j)); assert(b[w] == j); }
}
pub proof fn lem_ilt_irr(s: Seq<int>, x: int)
    ensures !ilt(s, x, x)
{ if ilt(s, x, x) { let k = choose|k: int| #[trigger] ilt_at(s, x, x, k); } }
proof fn lem_ilt_char(s: Seq<int>, x: int, y: int)
    requires ilt(s, x, y), 0 <= x < s.len(), 0 <= y < s.len()
    ensures s[x] <= s[y]
{ let k = choose|k: int| #[trigger] ilt_at(s, x, y, k); if k > 0 { assert(s[x + 0] == s[y + 0]); } }
pub proof fn lem_il_chars(s: Seq<int>, l: Seq<int>)
    requires all_lms(s, l), ilsort(s, l)
    ensures forall|i: int, j: int| 0 <= i < j < l.len() ==> s[#[trigger] l[i]] <= s[#[trigger] l[j]]
{ reveal(all_lms); assert forall|i: int, j: int| 0 <= i < j < l.len() implies s[#[trigger] l[i]] <= s[#[trigger] l[j]] by { lem_ilt_char(s, l[i], l[j]); } }
/// the order given by the sorted LMS suffixes is that of all suffixes
pub proof fn lem_final(s: Seq<int>, l: Seq<int>, a: Seq<int>)
    requires all_lms(s, l), ilsort(s, l), srt(gq(s, l), a)
    ensures is_sa(s, a)
{
    lem_gq(s, l); let g = gq(s, l); reveal(srt); lem_il_chars(s, l);
    assert forall|x: int, y: int| 0 <= x < y < a.len() implies ilt(s, #[trigger] a[x], #[trigger] a[y]) by {
        let i = a[x]; let j = a[y];
        assert(lt(g, i, j)); lem_lt_sound(g, i, j);
        if !ilt(s, i, j) {
            lem_ties(s, i, j); let p = nxl(s, i + 1); let q = nxl(s, j + 1);
            lem_nxl(s, i + 1); lem_nxl(s, j + 1);
            lem_list(s, l, p); lem_list(s, l, q); let u = posq(l, p); let v = posq(l, q);
            if v < u { lem_kq_two(s, l, v, u); }
            assert(ilt(s, p, q));
            assert forall|t: int| 0 <= t < p - i implies s[i + t] == #[trigger] s[j + t] by { }
            lem_ilift(s, i, j, p - i);
        }
    }
}
