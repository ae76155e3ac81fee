// uses: spass
// The LMS positions of an integer string in text order; their placement at the ends of the buckets.
#[verifier::opaque]
pub open spec fn lml(s: Seq<int>, i: int) -> Seq<int> decreases s.len() - i { if i >= s.len() { seq![] } else if lm(s, i) { seq![i] + lml(s, i + 1) } else { lml(s, i + 1) } }
pub open spec fn nxl(s: Seq<int>, i: int) -> int decreases s.len() - i { if i >= s.len() { s.len() as int } else if lm(s, i) { i } else { nxl(s, i + 1) } }
pub open spec fn ixl(s: Seq<int>, i: int) -> int { lml(s, 0).len() - lml(s, i).len() }
pub proof fn lem_lml_step(s: Seq<int>, i: int)
    requires 0 <= i < s.len()
    ensures lm(s, i) ==> lml(s, i) == seq![i] + lml(s, i + 1) && lml(s, i).len() == lml(s, i + 1).len() + 1 && lml(s, i)[0] == i, !lm(s, i) ==> lml(s, i) == lml(s, i + 1), lml(s, s.len() as int).len() == 0
{ reveal_with_fuel(lml, 2); }
pub proof fn lem_lml_len(s: Seq<int>, i: int)
    requires 0 <= i <= s.len(), s.len() >= 1
    ensures 2 * lml(s, i).len() <= s.len() - i, i < s.len() && !lm(s, i) ==> 2 * lml(s, i).len() <= s.len() - i - 1
    decreases s.len() - i
{
    if i < s.len() { lem_lml_step(s, i); lem_lml_len(s, i + 1); if lm(s, i) { assert(i + 1 < s.len()); assert(!lm(s, i + 1)); } }
    else { lem_lml_step(s, 0); assert(lml(s, i).len() == 0); }
}
/// members: LMS positions from i on, increasing, all of them
pub proof fn lem_lml(s: Seq<int>, i: int)
    requires 0 <= i <= s.len(), s.len() >= 1
    ensures forall|x: int| 0 <= x < lml(s, i).len() ==> i <= #[trigger] lml(s, i)[x] < s.len() && lm(s, lml(s, i)[x]), forall|x: int, y: int| 0 <= x < y < lml(s, i).len() ==> #[trigger] lml(s, i)[x] < #[trigger] lml(s, i)[y],
    decreases s.len() - i
{
    lem_lml_step(s, 0);
    if i < s.len() {
        lem_lml_step(s, i); lem_lml(s, i + 1);
        if lm(s, i) {
            let l = lml(s, i); let t = lml(s, i + 1);
            assert forall|x: int| 0 <= x < l.len() implies i <= #[trigger] l[x] < s.len() && lm(s, l[x]) by { if x > 0 { assert(l[x] == t[x - 1]); } }
            assert forall|x: int, y: int| 0 <= x < y < l.len() implies #[trigger] l[x] < #[trigger] l[y] by { assert(l[y] == t[y - 1]); if x > 0 { assert(l[x] == t[x - 1]); } }
        }
    }
}
/// the list from i on is the end of the whole list
pub proof fn lem_lml_tail(s: Seq<int>, i: int)
    requires 0 <= i <= s.len(), s.len() >= 1
    ensures 0 <= ixl(s, i) <= lml(s, 0).len(), forall|y: int| 0 <= y < lml(s, i).len() ==> #[trigger] lml(s, i)[y] == lml(s, 0)[ixl(s, i) + y]
    decreases i
{
    if i > 0 {
        lem_lml_tail(s, i - 1); lem_lml_step(s, i - 1);
        let l = lml(s, i - 1); let t = lml(s, i);
        if lm(s, i - 1) { assert forall|y: int| 0 <= y < t.len() implies #[trigger] t[y] == lml(s, 0)[ixl(s, i) + y] by { assert(l[y + 1] == t[y]); } }
    }
}
pub proof fn lem_lml_at(s: Seq<int>, p: int)
    requires 0 <= p < s.len(), lm(s, p)
    ensures 0 <= ixl(s, p) < lml(s, 0).len(), lml(s, 0)[ixl(s, p)] == p, ixl(s, p + 1) == ixl(s, p) + 1
{ lem_lml_tail(s, p); lem_lml_step(s, p); assert(lml(s, p)[0] == p); }
pub proof fn lem_nxl(s: Seq<int>, i: int)
    requires 0 <= i <= s.len(), s.len() >= 1
    ensures i <= nxl(s, i) <= s.len(), lm(s, nxl(s, i)), forall|x: int| i <= x < nxl(s, i) ==> !#[trigger] lm(s, x), ixl(s, nxl(s, i)) == ixl(s, i)
    decreases s.len() - i
{ if i < s.len() { lem_lml_step(s, i); if !lm(s, i) { lem_nxl(s, i + 1); } } }
/// the successor in the list
pub proof fn lem_lml_next(s: Seq<int>, t: int)
    requires 0 <= t < lml(s, 0).len(), s.len() >= 1
    ensures lm(s, lml(s, 0)[t]), 0 < lml(s, 0)[t] < s.len() - 1, ixl(s, lml(s, 0)[t]) == t, nxl(s, lml(s, 0)[t] + 1) == (if t + 1 < lml(s, 0).len() { lml(s, 0)[t + 1] } else { s.len() as int })
{
    lem_lml(s, 0); let l = lml(s, 0); let p = l[t]; lem_lml_at(s, p);
    assert(ixl(s, p) == t) by { if ixl(s, p) < t { assert(l[ixl(s, p)] < l[t]); } if ixl(s, p) > t { assert(l[t] < l[ixl(s, p)]); } }
    lem_nxl(s, p + 1); let q = nxl(s, p + 1);
    if q < s.len() { lem_lml_at(s, q); } else { lem_lml_step(s, 0); }
}
// ---- placement
/// q lists the LMS positions
#[verifier::opaque]
pub open spec fn all_lms(s: Seq<int>, q: Seq<int>) -> bool {
    &&& s.len() >= 1 && forall|x: int| 0 <= x < q.len() ==> 0 < #[trigger] q[x] < s.len() - 1 && lm(s, q[x])
    &&& forall|x: int, y: int| 0 <= x < y < q.len() ==> #[trigger] q[x] != #[trigger] q[y]
    &&& q.len() == lml(s, 0).len()
    &&& forall|j: int| #![trigger lm(s, j)] 0 <= j < s.len() && lm(s, j) ==> exists|x: int| 0 <= x < q.len() && #[trigger] q[x] == j
}
pub proof fn lem_all_text(s: Seq<int>)
    requires s.len() >= 1
    ensures all_lms(s, lml(s, 0))
{
    lem_lml(s, 0); let q = lml(s, 0); reveal(all_lms);
    assert forall|j: int| #![trigger lm(s, j)] 0 <= j < s.len() && lm(s, j) implies exists|x: int| 0 <= x < q.len() && #[trigger] q[x] == j by { lem_lml_at(s, j); assert(q[ixl(s, j)] == j); }
}
#[verifier::opaque]
pub open spec fn nq(s: Seq<int>, q: Seq<int>, c: int, x: int) -> int decreases q.len() - x { if x >= q.len() { 0 } else { nq(s, q, c, x + 1) + (if s[q[x]] == c { 1int } else { 0 }) } }
pub open spec fn posq(q: Seq<int>, j: int) -> int { choose|x: int| 0 <= x < q.len() && #[trigger] q[x] == j }
pub open spec fn kq(s: Seq<int>, q: Seq<int>, x: int) -> int { bks(s, s[q[x]] + 1) - nq(s, q, s[q[x]], x) }
/// the order of the LMS positions given by their list, as cells
#[verifier::opaque]
pub open spec fn gq(s: Seq<int>, q: Seq<int>) -> Ig { Ig { s: s, key: Seq::new((s.len() + 1) as nat, |j: int| if j >= s.len() { -1 } else { kq(s, q, posq(q, j)) }) } }
proof fn lem_nq_mono(s: Seq<int>, q: Seq<int>, c: int, x: int, y: int)
    requires 0 <= x <= y <= q.len()
    ensures 0 <= nq(s, q, c, y) <= nq(s, q, c, x), x < y && s[q[x]] == c ==> nq(s, q, c, y) < nq(s, q, c, x)
    decreases q.len() - x
{ reveal_with_fuel(nq, 2); if x < y { lem_nq_mono(s, q, c, x + 1, y); } else if x < q.len() { lem_nq_mono(s, q, c, x + 1, x + 1); } }
pub open spec fn f_lmc(s: Seq<int>, c: int) -> spec_fn(int) -> bool { |x: int| lm(s, x) && s[x] == c }
pub open spec fn fq(s: Seq<int>, q: Seq<int>, c: int, x: int) -> Seq<int> decreases q.len() - x { if x >= q.len() { seq![] } else if s[q[x]] == c { fq(s, q, c, x + 1).push(q[x]) } else { fq(s, q, c, x + 1) } }
proof fn lem_fq(s: Seq<int>, q: Seq<int>, c: int, x: int)
    requires all_lms(s, q), 0 <= x <= q.len()
    ensures fq(s, q, c, x).len() == nq(s, q, c, x), forall|i: int| 0 <= i < fq(s, q, c, x).len() ==> lm(s, #[trigger] fq(s, q, c, x)[i]) && s[fq(s, q, c, x)[i]] == c && 0 <= fq(s, q, c, x)[i] < s.len() && exists|y: int| x <= y < q.len() && #[trigger] q[y] == fq(s, q, c, x)[i],
        forall|i: int, j: int| 0 <= i < j < fq(s, q, c, x).len() ==> #[trigger] fq(s, q, c, x)[i] != #[trigger] fq(s, q, c, x)[j]
    decreases q.len() - x
{
    reveal(all_lms); reveal_with_fuel(nq, 2);
    if x < q.len() {
        lem_fq(s, q, c, x + 1); let f = fq(s, q, c, x + 1); let h = fq(s, q, c, x);
        if s[q[x]] == c {
            assert forall|i: int| 0 <= i < h.len() implies lm(s, #[trigger] h[i]) && s[h[i]] == c && 0 <= h[i] < s.len() && exists|y: int| x <= y < q.len() && #[trigger] q[y] == h[i] by {
                if i < f.len() { assert(h[i] == f[i]); let y = choose|y: int| x + 1 <= y < q.len() && #[trigger] q[y] == f[i]; assert(q[y] == h[i]); } else { assert(q[x] == h[i]); } }
            assert forall|i: int, j: int| 0 <= i < j < h.len() implies #[trigger] h[i] != #[trigger] h[j] by {
                assert(h[i] == f[i]); if j < f.len() { assert(h[j] == f[j]); } else { let y = choose|y: int| x + 1 <= y < q.len() && #[trigger] q[y] == f[i]; assert(q[x] != q[y]); } }
        } else {
            assert(h == f);
            assert forall|i: int| #![trigger h[i]] 0 <= i < h.len() implies lm(s, h[i]) && exists|y: int| x <= y < q.len() && #[trigger] q[y] == h[i] by { let y = choose|y: int| x + 1 <= y < q.len() && #[trigger] q[y] == f[i]; assert(q[y] == h[i]); }
        }
    }
}
/// the LMS positions of a character fit into the S part of its bucket
pub proof fn lem_nq_fit(s: Seq<int>, q: Seq<int>, c: int)
    requires all_lms(s, q)
    ensures nq(s, q, c, 0) <= bks(s, c + 1) - bkl(s, c)
{
    reveal(bks); reveal(bkl); let n = s.len() as int;
    lem_fq(s, q, c, 0);
    assert forall|i: int| 0 <= i < fq(s, q, c, 0).len() implies 0 <= #[trigger] fq(s, q, c, 0)[i] < n && f_lmc(s, c)(fq(s, q, c, 0)[i]) by { }
    lem_cnt_seq(f_lmc(s, c), n, fq(s, q, c, 0));
    let h = |x: int| f_cl(s, c)(x) || f_lmc(s, c)(x);
    lem_cnt_sum(f_cl(s, c), f_lmc(s, c), h, n);
    lem_cnt_le(h, f_c(s, c + 1), n);
}
pub proof fn lem_kq(s: Seq<int>, q: Seq<int>, x: int)
    requires all_lms(s, q), 0 <= x < q.len()
    ensures bkl(s, s[q[x]]) <= kq(s, q, x) < bks(s, s[q[x]] + 1), 0 <= kq(s, q, x) < s.len(), nq(s, q, s[q[x]], x) == nq(s, q, s[q[x]], x + 1) + 1
{
    let c = s[q[x]]; lem_nq_fit(s, q, c); lem_nq_mono(s, q, c, 0, x); lem_nq_mono(s, q, c, x, x + 1); lem_bk_mono(s, c, c + 1);
    reveal_with_fuel(nq, 2);
}
pub proof fn lem_kq_two(s: Seq<int>, q: Seq<int>, x: int, y: int)
    requires all_lms(s, q), 0 <= x < y < q.len()
    ensures kq(s, q, x) != kq(s, q, y), s[q[x]] <= s[q[y]] ==> kq(s, q, x) < kq(s, q, y), s[q[y]] < s[q[x]] ==> kq(s, q, y) < kq(s, q, x)
{
    lem_kq(s, q, x); lem_kq(s, q, y); let c = s[q[x]]; let d = s[q[y]];
    if c == d { lem_nq_mono(s, q, c, x, y); }
    else { lem_bk_mono(s, c, c + 1); lem_bk_mono(s, d, d + 1); if c + 1 < d { lem_bk_mono(s, c + 1, d); } if d + 1 < c { lem_bk_mono(s, d + 1, c); } }
}
pub proof fn lem_posq(s: Seq<int>, q: Seq<int>, x: int)
    requires all_lms(s, q), 0 <= x < q.len()
    ensures posq(q, q[x]) == x
{ reveal(all_lms); let y = posq(q, q[x]); assert(q[y] == q[x]); if x < y { assert(q[x] != q[y]); } if y < x { assert(q[y] != q[x]); } }
pub proof fn lem_gq(s: Seq<int>, q: Seq<int>)
    requires all_lms(s, q)
    ensures pl_ok(gq(s, q)), gq(s, q).s == s, forall|x: int| 0 <= x < q.len() ==> gq(s, q).key[#[trigger] q[x]] == kq(s, q, x)
{
    reveal(gq); let g = gq(s, q); let n = s.len() as int;
    assert(n >= 1) by { reveal(all_lms); }
    assert forall|x: int| 0 <= x < q.len() implies g.key[#[trigger] q[x]] == kq(s, q, x) by { lem_posq(s, q, x); reveal(all_lms); }
    assert forall|j: int| #![trigger lmk(g, j)] 0 <= j < n && lmk(g, j) implies bkl(s, s[j]) <= g.key[j] < bks(s, s[j] + 1) && g.key[j] >= 0 by { lem_list(s, q, j); lem_kq(s, q, posq(q, j)); }
    assert forall|i: int, j: int| #![trigger lmk(g, i), lmk(g, j)] 0 <= i < n && 0 <= j < n && lmk(g, i) && lmk(g, j) && i != j implies g.key[i] != g.key[j] && (s[i] < s[j] ==> g.key[i] < g.key[j]) by {
        lem_list(s, q, i); lem_list(s, q, j); let x = posq(q, i); let y = posq(q, j); if x < y { lem_kq_two(s, q, x, y); } else { lem_kq_two(s, q, y, x); } }
}
pub proof fn lem_list(s: Seq<int>, q: Seq<int>, j: int)
    requires all_lms(s, q), 0 <= j < s.len(), lm(s, j)
    ensures 0 <= posq(q, j) < q.len(), q[posq(q, j)] == j
{ reveal(all_lms); }
/// the list from x on is placed; below lo the array is somebody else's
#[verifier::opaque]
pub open spec fn pq(s: Seq<int>, q: Seq<int>, x: int, lo: int, a: Seq<int>, b: Seq<int>) -> bool {
    &&& all_lms(s, q) && chars(s, b.len() as int) && 0 <= x <= q.len() && a.len() == s.len()
    &&& forall|c: int| 0 <= c < b.len() ==> #[trigger] b[c] == bks(s, c + 1) - nq(s, q, c, x)
    &&& forall|y: int| #![trigger q[y]] x <= y < q.len() ==> a[kq(s, q, y)] == q[y]
    &&& forall|w: int| lo <= w < a.len() && #[trigger] a[w] != 0 ==> kqx(s, q, x, w)
}
pub open spec fn kqx(s: Seq<int>, q: Seq<int>, x: int, w: int) -> bool { exists|y: int| x <= y < q.len() && kq(s, q, y) == w && #[trigger] q[y] == q[y] }
pub proof fn lem_pq_start(s: Seq<int>, q: Seq<int>, lo: int, a: Seq<int>, b: Seq<int>)
    requires all_lms(s, q), chars(s, b.len() as int), a.len() == s.len(), forall|c: int| 0 <= c < b.len() ==> #[trigger] b[c] == bks(s, c + 1), forall|w: int| lo <= w < a.len() ==> #[trigger] a[w] == 0
    ensures pq(s, q, q.len() as int, lo, a, b)
{ reveal(pq); reveal_with_fuel(nq, 2); }
pub proof fn lem_pq_step(s: Seq<int>, q: Seq<int>, x: int, lo: int, a: Seq<int>, b: Seq<int>)
    requires pq(s, q, x + 1, lo, a, b), 0 <= x < q.len()
    ensures 0 <= s[q[x]] < b.len(), b[s[q[x]]] - 1 == kq(s, q, x), 0 <= kq(s, q, x) < s.len(), 0 < q[x] < s.len(), pq(s, q, x, lo, a.update(kq(s, q, x), q[x]), b.update(s[q[x]], b[s[q[x]]] - 1))
{
    reveal(pq); lem_kq(s, q, x);
    assert(0 < q[x] < s.len()) by { reveal(all_lms); }
    let c = s[q[x]]; let a2 = a.update(kq(s, q, x), q[x]); let b2 = b.update(c, b[c] - 1);
    assert(b[c] == bks(s, c + 1) - nq(s, q, c, x + 1));
    assert forall|d: int| 0 <= d < b2.len() implies #[trigger] b2[d] == bks(s, d + 1) - nq(s, q, d, x) by { reveal_with_fuel(nq, 2); assert(b[d] == bks(s, d + 1) - nq(s, q, d, x + 1)); }
    assert forall|y: int| #![trigger q[y]] x <= y < q.len() implies a2[kq(s, q, y)] == q[y] by { lem_kq(s, q, y); if y > x { lem_kq_two(s, q, x, y); } }
    assert forall|w: int| lo <= w < a2.len() && #[trigger] a2[w] != 0 implies kqx(s, q, x, w) by {
        if w == kq(s, q, x) { assert(q[x] == q[x]); } else { assert(a[w] != 0); let y = choose|y: int| x + 1 <= y < q.len() && kq(s, q, y) == w && #[trigger] q[y] == q[y]; assert(q[y] == q[y]); } }
}
/// the cell below the end of the unread list becomes free
pub proof fn lem_pq_lower(s: Seq<int>, q: Seq<int>, x: int, a: Seq<int>, b: Seq<int>)
    requires pq(s, q, x + 1, x + 1, a, b), 0 <= x < a.len(), forall|y: int| x < y < q.len() ==> #[trigger] kq(s, q, y) > x
    ensures pq(s, q, x + 1, x, a.update(x, 0), b)
{
    reveal(pq); let a2 = a.update(x, 0);
    assert forall|y: int| #![trigger q[y]] x + 1 <= y < q.len() implies a2[kq(s, q, y)] == q[y] by { assert(kq(s, q, y) > x); lem_kq(s, q, y); }
    assert forall|w: int| x <= w < a2.len() && #[trigger] a2[w] != 0 implies kqx(s, q, x + 1, w) by { assert(a[w] != 0); }
}
/// a list in the order of the characters is placed no lower than it stands
pub proof fn lem_kq_up(s: Seq<int>, q: Seq<int>, x: int)
    requires all_lms(s, q), 0 <= x < q.len(), forall|i: int, j: int| 0 <= i < j < q.len() ==> s[#[trigger] q[i]] <= s[#[trigger] q[j]]
    ensures kq(s, q, x) >= x
    decreases x
{ lem_kq(s, q, x); if x > 0 { lem_kq_up(s, q, x - 1); lem_kq_two(s, q, x - 1, x); } }
pub proof fn lem_pq_done(s: Seq<int>, q: Seq<int>, a: Seq<int>, b: Seq<int>)
    requires pq(s, q, 0, 0, a, b)
    ensures pl_ok(gq(s, q)), gq(s, q).s == s, laid(gq(s, q), a)
{
    reveal(pq); lem_gq(s, q); let g = gq(s, q);
    reveal(laid);
    assert forall|j: int| #![trigger lmk(g, j)] 0 <= j < s.len() && lmk(g, j) implies a[g.key[j]] == j by { lem_list(s, q, j); let x = posq(q, j); assert(q[x] == j); }
    assert forall|w: int| 0 <= w < a.len() && #[trigger] a[w] != 0 implies kcell(g, w) by { let y = choose|y: int| 0 <= y < q.len() && kq(s, q, y) == w && #[trigger] q[y] == q[y]; assert(0 < q[y] < s.len() && lm(s, q[y])) by { reveal(all_lms); } assert(kc(g, q[y], w)); }
}
/// the array before the passes
#[verifier::opaque]
pub open spec fn laid(g: Ig, a: Seq<int>) -> bool {
    &&& pl_ok(g) && a.len() == g.s.len()
    &&& forall|j: int| #![trigger lmk(g, j)] 0 <= j < g.s.len() && lmk(g, j) ==> a[g.key[j]] == j
    &&& forall|x: int| 0 <= x < a.len() && #[trigger] a[x] != 0 ==> kcell(g, x)
}
pub proof fn lem_laid1(g: Ig, a: Seq<int>, e: Seq<int>)
    requires laid(g, a), chars(g.s, e.len() as int), forall|c: int| 0 <= c < e.len() ==> #[trigger] e[c] == bks(g.s, c)
    ensures w1(g, 0, -1, a, e), c1(g, g.s.len() - 1) == -1, isl(g, g.s.len() - 1), pl_ok(g)
{ reveal(laid); lem_wstart1(g, a, e); }
