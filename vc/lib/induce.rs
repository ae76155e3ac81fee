// uses: ranks compose
// The two passes of the induction as steps over plain values: what is in the queues, the output, the bucket fronts.
/// text, sorted S* positions, the buffer of copies, and where the copy of the start and the offsets begin
pub struct Ic { pub t: Seq<u8>, pub xs: Seq<int>, pub b: Seq<u8>, pub lp: int, pub lo: int, pub w: int }
/// contents of the queues, output, bucket fronts, end-of-bucket cursors, rank of the whole text
pub struct Ist { pub v: Seq<Seq<u64>>, pub b: Seq<u8>, pub m2: Seq<u64>, pub c2: Seq<u64>, pub last: int }
pub open spec fn ic_ok(g: Ic) -> bool { 1 <= g.t.len() < 0x10_0000_0000_0000 && lms_sorted(g.t, g.xs) && 1 <= g.w <= 63 && g.b.len() < 0x4000_0000_0000_0000 && g.lo >= -1 }
pub open spec fn sp(g: Ic, k: int, v: int, x: int) -> bool { spell(g.t, g.b, g.lp, g.lo, k, x, g.lo + v) && x < nxt(g.t, k + 1) && 0 <= v < pow2(g.w as nat) }
/// a copy of the text ends (before its S* end) at offset v with position x
pub open spec fn inner(g: Ic, v: int, x: int) -> bool { exists|k: int| #[trigger] sp(g, k, v, x) }
pub open spec fn atend(g: Ic, v: int, x: int) -> bool { placed(g.t, g.b, g.lp, g.lo, v, x) && 0 <= v < pow2(g.w as nat) }
proof fn lem_cmp(t: Seq<u8>, x: int)
    requires 1 <= x < t.len()
    ensures t[x - 1] < t[x] ==> is_s(t, x - 1), t[x - 1] > t[x] ==> !is_s(t, x - 1), t[x - 1] == t[x] ==> is_s(t, x - 1) == is_s(t, x)
{ }
proof fn lem_255(t: Seq<u8>, x: int)
    requires 0 <= x < t.len(), t[x] == 255
    ensures !is_s(t, x)
    decreases t.len() - x
{ if x < t.len() - 1 && t[x + 1] == 255 { lem_255(t, x + 1); } }
pub proof fn lem_adr_l(g: Ic, v: int, x: int)
    requires ic_ok(g), inner(g, v, x), 0 <= x < g.t.len(), !is_s(g.t, x)
    ensures 0 < v < pow2(g.w as nat), 0 <= g.lo + v < g.b.len(), g.lo + v == g.lp <==> x == 0,
        x >= 1 ==> 0 <= g.lo + v - 2 && g.b[g.lo + v - 1] == g.t[x - 1] && (g.t[x - 1] >= g.t[x] <==> !is_s(g.t, x - 1)),
        x >= 1 && !is_s(g.t, x - 1) ==> inner(g, v - 1, x - 1) && (x >= 2 ==> g.b[g.lo + v - 2] == g.t[x - 2])
{
    let k = choose|k: int| #[trigger] sp(g, k, v, x); let a = g.lo + v;
    assert(spell(g.t, g.b, g.lp, g.lo, k, x, a));
    if x >= 1 {
        assert(x > k);
        assert(g.b[a - 1] == g.t.push(0)[x - (a - (a - 1))]);
        lem_cmp(g.t, x);
        if !is_s(g.t, x - 1) {
            assert(spell(g.t, g.b, g.lp, g.lo, k, x - 1, g.lo + (v - 1)));
            assert(sp(g, k, v - 1, x - 1));
            if x >= 2 { assert(x - 2 >= k); assert(g.b[a - 2] == g.t.push(0)[x - (a - (a - 2))]); }
        }
    }
}
/// the S* position x
pub proof fn lem_adr_lms(g: Ic, v: int, x: int)
    requires ic_ok(g), atend(g, v, x), lms(g.t, x)
    ensures 1 < v < pow2(g.w as nat), 0 <= g.lo + v < g.b.len(), 0 <= g.lo + v - 2, g.lo + v != g.lp, x < g.t.len() ==> g.b[g.lo + v] == g.t[x], g.b[g.lo + v - 1] == g.t[x - 1], inner(g, v - 1, x - 1),
        x >= 2 ==> g.b[g.lo + v - 2] == g.t[x - 2], x < g.t.len() ==> g.t[x - 1] > g.t[x], !is_s(g.t, x - 1)
{
    let k = choose|k: int| k < x && x == nxt(g.t, k + 1) && #[trigger] spell(g.t, g.b, g.lp, g.lo, k, x, g.lo + v); let a = g.lo + v;
    assert(spell(g.t, g.b, g.lp, g.lo, k, x, a));
    assert(g.b[a] == g.t.push(0)[x - (a - a)]);
    assert(g.b[a - 1] == g.t.push(0)[x - (a - (a - 1))]);
    assert(spell(g.t, g.b, g.lp, g.lo, k, x - 1, g.lo + (v - 1)));
    assert(sp(g, k, v - 1, x - 1));
    if x >= 2 { assert(x - 2 >= k); assert(g.b[a - 2] == g.t.push(0)[x - (a - (a - 2))]); }
    if x < g.t.len() { lem_cmp(g.t, x); }
}
/// in the second pass: x is S, or L behind an S
pub proof fn lem_adr_s(g: Ic, v: int, x: int)
    requires ic_ok(g), inner(g, v, x), 0 <= x < g.t.len(), is_s(g.t, x) || x >= 1 && is_s(g.t, x - 1)
    ensures 0 < v < pow2(g.w as nat), 0 <= g.lo + v < g.b.len(), 0 <= g.lo + v - 1, g.b[g.lo + v - 1] <= g.t[x] <==> x >= 1 && is_s(g.t, x - 1),
        x >= 1 && is_s(g.t, x - 1) ==> inner(g, v - 1, x - 1) && g.b[g.lo + v - 1] == g.t[x - 1] && 0 <= g.lo + v - 2 && (g.lo + v - 1 == g.lp <==> x == 1),
        x >= 2 && is_s(g.t, x - 1) ==> (g.b[g.lo + v - 2] <= g.t[x - 1] <==> !lms(g.t, x - 1)) && (!lms(g.t, x - 1) ==> g.b[g.lo + v - 2] == g.t[x - 2])
{
    let k = choose|k: int| #[trigger] sp(g, k, v, x); let a = g.lo + v;
    assert(spell(g.t, g.b, g.lp, g.lo, k, x, a));
    if x >= 1 { lem_cmp(g.t, x); }
    if x == 0 {
        assert(k == 0 && a == g.lp);
        if g.t[0] == 255 { lem_255(g.t, 0); }
    } else if x == k {
        assert(lms(g.t, x));
        assert(g.b[a - 1] > g.t[x]);
    } else {
        assert(g.b[a - 1] == g.t.push(0)[x - (a - (a - 1))]);
        assert(spell(g.t, g.b, g.lp, g.lo, k, x - 1, g.lo + (v - 1)));
        assert(sp(g, k, v - 1, x - 1));
        if x >= 2 && is_s(g.t, x - 1) {
            lem_cmp(g.t, x - 1);
            if x - 1 > k { assert(g.b[a - 2] == g.t.push(0)[x - (a - (a - 2))]); } 
        }
    }
}
// ---- lists of offsets
pub open spec fn cl(r: int, lo: int, hi: int) -> int { if r < lo { lo } else if r > hi { hi } else { r } }
/// ranks lo .. hi ascending
pub open spec fn ls_up(g: Ic, q: Seq<u64>, lo: int, hi: int) -> bool { q.len() == hi - lo && forall|j: int| 0 <= j < q.len() ==> inner(g, #[trigger] q[j] as int, od(g.t, lo + j)) }
/// ranks hi, hi - 1, .., lo + 1
pub open spec fn ls_dn(g: Ic, q: Seq<u64>, hi: int, lo: int) -> bool { q.len() == hi - lo && forall|j: int| 0 <= j < q.len() ==> inner(g, #[trigger] q[j] as int, od(g.t, hi - j)) }
/// S* suffixes lo .. hi
pub open spec fn ls_lms(g: Ic, q: Seq<u64>, lo: int, hi: int) -> bool { q.len() == hi - lo && forall|j: int| 0 <= j < q.len() ==> atend(g, #[trigger] q[j] as int, g.xs[lo + j]) }
pub open spec fn seed(t: Seq<u8>, x: int) -> bool { 1 <= x < t.len() && !is_s(t, x) && is_s(t, x - 1) }
/// ranks of lo .. hi with a seed, descending
pub open spec fn sds(t: Seq<u8>, lo: int, hi: int) -> Seq<int> decreases hi - lo {
    if hi <= lo { Seq::empty() } else if seed(t, od(t, hi - 1)) { seq![hi - 1] + sds(t, lo, hi - 1) } else { sds(t, lo, hi - 1) }
}
pub open spec fn ls_sd(g: Ic, q: Seq<u64>, lo: int, hi: int) -> bool { q.len() == sds(g.t, lo, hi).len() && forall|j: int| 0 <= j < q.len() ==> inner(g, #[trigger] q[j] as int, od(g.t, sds(g.t, lo, hi)[j])) }
pub open spec fn tl(q: Seq<u64>) -> Seq<u64> { q.subrange(1, q.len() as int) }
proof fn lem_up_tail(g: Ic, q: Seq<u64>, lo: int, hi: int)
    requires ls_up(g, q, lo, hi), lo < hi
    ensures ls_up(g, tl(q), lo + 1, hi), inner(g, q[0] as int, od(g.t, lo))
{ assert forall|j: int| 0 <= j < tl(q).len() implies inner(g, #[trigger] tl(q)[j] as int, od(g.t, lo + 1 + j)) by { assert(tl(q)[j] == q[j + 1]); assert(lo + 1 + j == lo + (j + 1)); } assert(od(g.t, lo + 0) == od(g.t, lo)); }
proof fn lem_up_push(g: Ic, q: Seq<u64>, lo: int, hi: int, v: u64)
    requires ls_up(g, q, lo, hi), inner(g, v as int, od(g.t, hi))
    ensures ls_up(g, q.push(v), lo, hi + 1)
{ assert forall|j: int| 0 <= j < q.push(v).len() implies inner(g, #[trigger] q.push(v)[j] as int, od(g.t, lo + j)) by { if j < q.len() { assert(q.push(v)[j] == q[j]); } } }
proof fn lem_dn_tail(g: Ic, q: Seq<u64>, hi: int, lo: int)
    requires ls_dn(g, q, hi, lo), lo < hi
    ensures ls_dn(g, tl(q), hi - 1, lo), inner(g, q[0] as int, od(g.t, hi))
{ assert forall|j: int| 0 <= j < tl(q).len() implies inner(g, #[trigger] tl(q)[j] as int, od(g.t, hi - 1 - j)) by { assert(tl(q)[j] == q[j + 1]); assert(hi - 1 - j == hi - (j + 1)); } assert(od(g.t, hi - 0) == od(g.t, hi)); }
proof fn lem_dn_push(g: Ic, q: Seq<u64>, hi: int, lo: int, v: u64)
    requires ls_dn(g, q, hi, lo), inner(g, v as int, od(g.t, lo))
    ensures ls_dn(g, q.push(v), hi, lo - 1)
{ assert forall|j: int| 0 <= j < q.push(v).len() implies inner(g, #[trigger] q.push(v)[j] as int, od(g.t, hi - j)) by { if j < q.len() { assert(q.push(v)[j] == q[j]); } } }
proof fn lem_lms_tail(g: Ic, q: Seq<u64>, lo: int, hi: int)
    requires ls_lms(g, q, lo, hi), lo < hi
    ensures ls_lms(g, tl(q), lo + 1, hi), atend(g, q[0] as int, g.xs[lo])
{ assert forall|j: int| 0 <= j < tl(q).len() implies atend(g, #[trigger] tl(q)[j] as int, g.xs[lo + 1 + j]) by { assert(tl(q)[j] == q[j + 1]); assert(lo + 1 + j == lo + (j + 1)); } }
proof fn lem_sd_next(g: Ic, q: Seq<u64>, lo: int, hi: int, v: u64)
    requires ls_sd(g, q, lo, hi), lo <= hi
    ensures !seed(g.t, od(g.t, hi)) ==> ls_sd(g, q, lo, hi + 1), seed(g.t, od(g.t, hi)) && inner(g, v as int, od(g.t, hi)) ==> ls_sd(g, seq![v] + q, lo, hi + 1)
{
    let p = seq![v] + q;
    assert(hi + 1 - 1 == hi);
    if seed(g.t, od(g.t, hi)) && inner(g, v as int, od(g.t, hi)) {
        let z = sds(g.t, lo, hi + 1);
        assert(z == seq![hi] + sds(g.t, lo, hi));
        assert forall|j: int| 0 <= j < p.len() implies inner(g, #[trigger] p[j] as int, od(g.t, z[j])) by { if j > 0 { assert(p[j] == q[j - 1]); assert(z[j] == sds(g.t, lo, hi)[j - 1]); } }
    }
}
/// the first seed
proof fn lem_sds_head(t: Seq<u8>, lo: int, hi: int) -> (r: int)
    ensures sds(t, lo, hi).len() == 0 ==> r == lo, sds(t, lo, hi).len() > 0 ==> lo <= r < hi && seed(t, od(t, r)) && sds(t, lo, hi) == seq![r] + sds(t, lo, r) && sds(t, lo, hi)[0] == r,
        forall|j: int| #![trigger od(t, j)] (if sds(t, lo, hi).len() == 0 { lo <= j } else { r < j }) && j < hi ==> !seed(t, od(t, j))
    decreases hi - lo
{ if hi <= lo { lo } else if seed(t, od(t, hi - 1)) { hi - 1 } else { lem_sds_head(t, lo, hi - 1) } }
proof fn lem_sd_tail(g: Ic, q: Seq<u64>, lo: int, hi: int, r: int)
    requires ls_sd(g, q, lo, hi), sds(g.t, lo, hi) == seq![r] + sds(g.t, lo, r)
    ensures ls_sd(g, tl(q), lo, r), q.len() > 0, inner(g, q[0] as int, od(g.t, r))
{
    assert(sds(g.t, lo, hi)[0] == r);
    assert forall|j: int| 0 <= j < tl(q).len() implies inner(g, #[trigger] tl(q)[j] as int, od(g.t, sds(g.t, lo, r)[j])) by { assert(tl(q)[j] == q[j + 1]); assert(sds(g.t, lo, hi)[j + 1] == sds(g.t, lo, r)[j]); }
}
// ---- first pass: all suffixes of rank below r have been seen
pub open spec fn pA(g: Ic, r: int, m2: Seq<u64>, b: Seq<u8>, x: int) -> bool {
    0 <= x < g.t.len() && !is_s(g.t, x) ==> (rank(g.t, x + 1) < r <==> rank(g.t, x) < m2[bk(g.t, x)]) && (rank(g.t, x) < m2[bk(g.t, x)] && x >= 1 ==> b[rank(g.t, x)] == g.t[x - 1])
}
pub open spec fn pC(g: Ic, r: int, c2: Seq<u64>, b: Seq<u8>, i: int) -> bool {
    0 <= i < g.xs.len() ==> (rank(g.t, g.xs[i]) < r <==> stp(g.t, g.xs, i) < c2[bk(g.t, g.xs[i])]) && (stp(g.t, g.xs, i) < c2[bk(g.t, g.xs[i])] ==> b[stp(g.t, g.xs, i)] == g.t[g.xs[i] - 1])
}
pub open spec fn pN(g: Ic, m2: Seq<u64>, c2: Seq<u64>, b: int) -> bool {
    bs(g.t, b) <= m2[b] <= bsl(g.t, b) && bsl(g.t, b) <= c2[b] <= bsl(g.t, b) + lst(g.t, g.xs, b + 1) - lst(g.t, g.xs, b)
}
pub open spec fn pE(g: Ic, r: int, v: Seq<Seq<u64>>, m2: Seq<u64>, c2: Seq<u64>, b: int) -> bool {
    0 <= b < 258 ==> pN(g, m2, c2, b) && ls_up(g, v[258 + b], cl(r, bs(g.t, b), bsl(g.t, b)), m2[b] as int)
        && ls_lms(g, v[516 + b], lst(g.t, g.xs, b) + c2[b] - bsl(g.t, b), lst(g.t, g.xs, b + 1)) && ls_sd(g, v[b], bs(g.t, b), cl(r, bs(g.t, b), bsl(g.t, b)))
}
pub open spec fn ist_len(g: Ic, s: Ist) -> bool { s.v.len() == 774 && s.b.len() == g.t.len() + 1 && s.m2.len() == 258 && s.c2.len() == 258 }
#[verifier::opaque]
pub open spec fn p1(g: Ic, r: int, s: Ist) -> bool {
    &&& ic_ok(g) && ist_len(g, s) && 0 <= r <= g.t.len() + 1
    &&& forall|x: int| #[trigger] pA(g, r, s.m2, s.b, x)
    &&& forall|i: int| #[trigger] pC(g, r, s.c2, s.b, i)
    &&& forall|b: int| #[trigger] pE(g, r, s.v, s.m2, s.c2, b)
    &&& !is_s(g.t, 0) && rank(g.t, 0) < r ==> s.last == rank(g.t, 0)
    &&& r >= 1 ==> s.b[0] == g.t[g.t.len() - 1]
}
pub proof fn lem_apart_b(t: Seq<u8>, b: int, c: int)
    requires b < c
    ensures bs(t, b) <= bsl(t, b) <= bs(t, b + 1) <= bs(t, c) <= bsl(t, c) <= bs(t, c + 1) <= t.len() + 1, 0 <= bs(t, b)
{ lem_bs_mono(t, b, b + 1); if b + 1 < c { lem_bs_mono(t, b + 1, c); } lem_bs_mono(t, c, c + 1); }
/// the L suffix in front of the next suffix seen goes to its bucket's front
proof fn lem_A_step(g: Ic, r: int, m2: Seq<u64>, b: Seq<u8>, x: int, val: u8)
    requires ic_ok(g), forall|x: int| #[trigger] pA(g, r, m2, b, x), 1 <= x <= g.t.len(), rank(g.t, x) == r, !is_s(g.t, x - 1), x >= 2 ==> val == g.t[x - 2], bs(g.t, bk(g.t, x - 1)) <= m2[bk(g.t, x - 1)], m2.len() == 258, b.len() == g.t.len() + 1
    ensures ({ let c = bk(g.t, x - 1); &&& rank(g.t, x - 1) == m2[c] && m2[c] < bsl(g.t, c) && m2[c] <= g.t.len() && forall|y: int| #[trigger] pA(g, r + 1, m2.update(c, (m2[c] + 1) as u64), b.update(m2[c] as int, val), y) })
{
    let t = g.t; let y = x - 1; let c = bk(t, y); let mm = m2[c] as int;
    lem_posn(t, y); lem_bs_mono(t, c, c + 1);
    assert(pA(g, r, m2, b, y));
    if mm < rank(t, y) {
        lem_at_rank(t, mm, c);
        let z = od(t, mm);
        assert(pA(g, r, m2, b, z));
        lem_succ(t, z, y);
        assert(false);
    }
    let m3 = m2.update(c, (mm + 1) as u64); let b3 = b.update(mm, val);
    assert forall|z: int| #[trigger] pA(g, r + 1, m3, b3, z) by {
        assert(pA(g, r, m2, b, z));
        if 0 <= z < t.len() && !is_s(t, z) {
            lem_rank_lt(t, z + 1, x); lem_rank_lt(t, z, y); lem_rank(t, z);
        }
    }
}
/// nothing in between counts
proof fn lem_A_skip(g: Ic, r: int, q: int, m2: Seq<u64>, b: Seq<u8>)
    requires forall|x: int| #[trigger] pA(g, r, m2, b, x), r <= q, forall|x: int| 1 <= x <= g.t.len() && r <= #[trigger] rank(g.t, x) < q ==> is_s(g.t, x - 1)
    ensures forall|x: int| #[trigger] pA(g, q, m2, b, x)
{ assert forall|x: int| #[trigger] pA(g, q, m2, b, x) by { assert(pA(g, r, m2, b, x)); if 0 <= x < g.t.len() && !is_s(g.t, x) { assert(x + 1 - 1 == x); if r <= rank(g.t, x + 1) < q { } } } }
proof fn lem_A_other(g: Ic, r: int, m2: Seq<u64>, b: Seq<u8>, c: int, k: int, val: u8)
    requires forall|x: int| #[trigger] pA(g, r, m2, b, x), bsl(g.t, c) <= k < bs(g.t, c + 1), b.len() == g.t.len() + 1
    ensures forall|x: int| #[trigger] pA(g, r, m2, b.update(k, val), x)
{ assert forall|x: int| #[trigger] pA(g, r, m2, b.update(k, val), x) by { assert(pA(g, r, m2, b, x)); if 0 <= x < g.t.len() { lem_posn(g.t, x); lem_in_s(g.t, x, c, k); } } }
/// an L suffix is not in the S part of any bucket
proof fn lem_in_s(t: Seq<u8>, x: int, c: int, k: int)
    requires 0 <= x <= t.len(), bsl(t, c) <= k < bs(t, c + 1)
    ensures !is_s(t, x) ==> rank(t, x) != k
{ lem_posn(t, x); lem_bs_mono(t, c, c + 1); if rank(t, x) == k { lem_at_rank(t, k, c); lem_od_rank(t, x); } }
proof fn lem_stp_in(g: Ic, i: int, c: int, k: int)
    requires ic_ok(g), 0 <= i < g.xs.len(), bs(g.t, c) <= k < bsl(g.t, c)
    ensures stp(g.t, g.xs, i) != k
{
    lem_stp(g.t, g.xs, i); let e = bk(g.t, g.xs[i]);
    if e < c { lem_apart_b(g.t, e, c); } if e > c { lem_apart_b(g.t, c, e); }
}
proof fn lem_stp_inj(g: Ic, i: int, j: int)
    requires ic_ok(g), 0 <= i < g.xs.len(), 0 <= j < g.xs.len(), stp(g.t, g.xs, i) == stp(g.t, g.xs, j)
    ensures i == j
{
    lem_stp(g.t, g.xs, i); lem_stp(g.t, g.xs, j); let e = bk(g.t, g.xs[i]); let f = bk(g.t, g.xs[j]);
    if e < f { lem_apart_b(g.t, e, f); } if e > f { lem_apart_b(g.t, f, e); }
}
proof fn lem_C_other(g: Ic, r: int, c2: Seq<u64>, b: Seq<u8>, c: int, k: int, val: u8)
    requires ic_ok(g), forall|i: int| #[trigger] pC(g, r, c2, b, i), bs(g.t, c) <= k < bsl(g.t, c), b.len() == g.t.len() + 1
    ensures forall|i: int| #[trigger] pC(g, r, c2, b.update(k, val), i)
{ assert forall|i: int| #[trigger] pC(g, r, c2, b.update(k, val), i) by { assert(pC(g, r, c2, b, i)); if 0 <= i < g.xs.len() { lem_stp_in(g, i, c, k); lem_stp_rank(g, i); } } }
proof fn lem_stp_rank(g: Ic, i: int)
    requires ic_ok(g), 0 <= i < g.xs.len()
    ensures 0 <= stp(g.t, g.xs, i) <= g.t.len(), 0 <= bk(g.t, g.xs[i]) <= 256, lms(g.t, g.xs[i])
{ lem_stp(g.t, g.xs, i); assert(lms(g.t, g.xs[i])); lem_rank(g.t, g.xs[i]); lem_apart_b(g.t, bk(g.t, g.xs[i]), bk(g.t, g.xs[i]) + 1); }
proof fn lem_C_skip(g: Ic, r: int, q: int, c2: Seq<u64>, b: Seq<u8>)
    requires forall|i: int| #[trigger] pC(g, r, c2, b, i), r <= q, ic_ok(g), forall|x: int| 1 <= x <= g.t.len() && r <= #[trigger] rank(g.t, x) < q ==> !lms(g.t, x)
    ensures forall|i: int| #[trigger] pC(g, q, c2, b, i)
{ assert forall|i: int| #[trigger] pC(g, q, c2, b, i) by { assert(pC(g, r, c2, b, i)); if 0 <= i < g.xs.len() { lem_stp_rank(g, i); } } }
proof fn lem_C_step(g: Ic, r: int, c2: Seq<u64>, b: Seq<u8>, j: int)
    requires ic_ok(g), forall|i: int| #[trigger] pC(g, r, c2, b, i), 0 <= j < g.xs.len(), rank(g.t, g.xs[j]) == r, c2[bk(g.t, g.xs[j])] == stp(g.t, g.xs, j), c2.len() == 258, b.len() == g.t.len() + 1
    ensures ({ let c = bk(g.t, g.xs[j]); forall|i: int| #[trigger] pC(g, r + 1, c2.update(c, (c2[c] + 1) as u64), b.update(c2[c] as int, g.t[g.xs[j] - 1]), i) })
{
    let c = bk(g.t, g.xs[j]);
    lem_stp_rank(g, j);
    assert forall|i: int| #[trigger] pC(g, r + 1, c2.update(c, (c2[c] + 1) as u64), b.update(c2[c] as int, g.t[g.xs[j] - 1]), i) by {
        assert(pC(g, r, c2, b, i));
        if 0 <= i < g.xs.len() {
            lem_stp_rank(g, i); lem_xs_rank(g.t, g.xs, i, j); lem_xs_rank(g.t, g.xs, j, i);
            let e = bk(g.t, g.xs[i]); let k3 = c2.update(c, (c2[c] + 1) as u64); let b3 = b.update(c2[c] as int, g.t[g.xs[j] - 1]);
            if stp(g.t, g.xs, i) == stp(g.t, g.xs, j) { lem_stp_inj(g, i, j); }
            if e == c { assert(stp(g.t, g.xs, i) - stp(g.t, g.xs, j) == i - j); assert(k3[e] == stp(g.t, g.xs, j) + 1); assert(rank(g.t, g.xs[i]) < r + 1 <==> i <= j); } else { assert(k3[e] == c2[e]); assert(i != j); }
            assert(rank(g.t, g.xs[i]) < r + 1 <==> stp(g.t, g.xs, i) < k3[e]);
            if i == j { assert(b3[stp(g.t, g.xs, i)] == g.t[g.xs[i] - 1]); } else if stp(g.t, g.xs, i) < k3[e] { assert(stp(g.t, g.xs, i) < c2[e]); assert(b3[stp(g.t, g.xs, i)] == b[stp(g.t, g.xs, i)]);}
        }
    }
}
// ---- what one round does
pub open spec fn pop(v: Seq<Seq<u64>>, i: int) -> Seq<Seq<u64>> { v.update(i, tl(v[i])) }
pub open spec fn psh(v: Seq<Seq<u64>>, i: int, x: u64) -> Seq<Seq<u64>> { v.update(i, v[i].push(x)) }
pub open spec fn psh_l(v: Seq<Seq<u64>>, i: int, x: u64) -> Seq<Seq<u64>> { v.update(i, seq![x] + v[i]) }
pub open spec fn inc(m: Seq<u64>, c: int) -> Seq<u64> { m.update(c, (m[c] + 1) as u64) }
pub open spec fn dec(m: Seq<u64>, c: int) -> Seq<u64> { m.update(c, (m[c] - 1) as u64) }
proof fn lem_cl(t: Seq<u8>, r: int, c: int, b: int)
    requires bs(t, c) <= r < bsl(t, c)
    ensures b != c ==> cl(r + 1, bs(t, b), bsl(t, b)) == cl(r, bs(t, b), bsl(t, b))
{ if b < c { lem_apart_b(t, b, c); } if b > c { lem_apart_b(t, c, b); } }
proof fn lem_cl_s(t: Seq<u8>, r: int, q: int, c: int, b: int)
    requires bsl(t, c) <= r <= q <= bs(t, c + 1)
    ensures cl(q, bs(t, b), bsl(t, b)) == cl(r, bs(t, b), bsl(t, b))
{ lem_bs_mono(t, b, b + 1); if b < c { lem_apart_b(t, b, c); } if b > c { lem_apart_b(t, c, b); } }
/// the first queue of bucket c loses its front
proof fn lem_E_pop(g: Ic, r: int, v: Seq<Seq<u64>>, m2: Seq<u64>, c2: Seq<u64>, c: int, b: int)
    requires v.len() == 774, pE(g, r, v, m2, c2, b), 0 <= c < 258, bs(g.t, c) <= r < bsl(g.t, c), b == c ==> r < m2[c], b == c ==> !seed(g.t, od(g.t, r))
    ensures pE(g, r + 1, pop(v, 258 + c), m2, c2, b)
{
    lem_cl(g.t, r, c, b);
    if b == c { lem_up_tail(g, v[258 + c], r, m2[c] as int); lem_sd_next(g, v[c], bs(g.t, c), r, 0); }
}
proof fn lem_E_seed(g: Ic, r: int, v: Seq<Seq<u64>>, m2: Seq<u64>, c2: Seq<u64>, c: int, x: u64, b: int)
    requires v.len() == 774, pE(g, r, v, m2, c2, b), 0 <= c < 258, bs(g.t, c) <= r < bsl(g.t, c), b == c ==> r < m2[c], seed(g.t, od(g.t, r)), inner(g, x as int, od(g.t, r))
    ensures pE(g, r + 1, psh_l(pop(v, 258 + c), c, x), m2, c2, b)
{
    lem_cl(g.t, r, c, b);
    if b == c { lem_up_tail(g, v[258 + c], r, m2[c] as int); lem_sd_next(g, v[c], bs(g.t, c), r, x); }
}
/// a suffix joins bucket d's first queue
proof fn lem_E_push(g: Ic, r: int, v: Seq<Seq<u64>>, m2: Seq<u64>, c2: Seq<u64>, d: int, x: u64, b: int)
    requires v.len() == 774, m2.len() == 258, pE(g, r, v, m2, c2, b), 0 <= d < 258, m2[d] < bsl(g.t, d), inner(g, x as int, od(g.t, m2[d] as int)), bsl(g.t, d) < 0x20_0000_0000_0000
    ensures pE(g, r, psh(v, 258 + d, x), inc(m2, d), c2, b)
{
    if b == d { lem_up_push(g, v[258 + d], cl(r, bs(g.t, d), bsl(g.t, d)), m2[d] as int, x); }
}
/// the S* queue of bucket c loses its front
proof fn lem_E_lms(g: Ic, r: int, q: int, v: Seq<Seq<u64>>, m2: Seq<u64>, c2: Seq<u64>, c: int, b: int)
    requires ic_ok(g), v.len() == 774, c2.len() == 258, pE(g, r, v, m2, c2, b), 0 <= c < 258, bsl(g.t, c) <= r <= q <= bs(g.t, c + 1), b == c ==> v[516 + c].len() > 0
    ensures pE(g, q, pop(v, 516 + c), m2, inc(c2, c), b)
{
    lem_cl_s(g.t, r, q, c, b);
    if b == c { lem_lst_mono(g.t, g.xs, c, c + 1); lem_lst_mono(g.t, g.xs, c + 1, 258); lem_lms_tail(g, v[516 + c], lst(g.t, g.xs, c) + c2[c] - bsl(g.t, c), lst(g.t, g.xs, c + 1)); lem_xs_few(g); lem_bs_mono(g.t, c, c + 1); }
}
proof fn lem_xs_few(g: Ic)
    requires ic_ok(g)
    ensures 1 <= g.xs.len() <= g.t.len() + 1
{ lem_num(g.t, 3, 0, 0); }
/// front of the first queue of bucket c
pub proof fn lem_head1(g: Ic, r: int, s: Ist, c: int) -> (x: int)
    requires p1(g, r, s), 0 <= c < 258, bs(g.t, c) <= r <= bsl(g.t, c), s.v[258 + c].len() > 0
    ensures ist_len(g, s), r < bsl(g.t, c), x == od(g.t, r), rank(g.t, x) == r, bk(g.t, x) == c, 1 <= c <= 256, 0 <= x < g.t.len(), !is_s(g.t, x), inner(g, s.v[258 + c][0] as int, x), r < s.m2[c],
        x >= 1 && !is_s(g.t, x - 1) ==> bs(g.t, bk(g.t, x - 1)) <= s.m2[bk(g.t, x - 1)] == rank(g.t, x - 1) && s.m2[bk(g.t, x - 1)] < bsl(g.t, bk(g.t, x - 1)),
        ({ let v = s.v[258 + c][0] as int; &&& 0 < v < pow2(g.w as nat) && 0 <= g.lo + v < g.b.len() && (g.lo + v == g.lp <==> x == 0)
            && (x >= 1 ==> 0 <= g.lo + v - 2 && g.b[g.lo + v - 1] == g.t[x - 1] && (g.t[x - 1] >= g.t[x] <==> !is_s(g.t, x - 1)))
            && (x >= 1 && !is_s(g.t, x - 1) ==> inner(g, v - 1, x - 1) && (x >= 2 ==> g.b[g.lo + v - 2] == g.t[x - 2])) })
{
    reveal(p1);
    assert(pE(g, r, s.v, s.m2, s.c2, c));
    lem_up_tail(g, s.v[258 + c], r, s.m2[c] as int);
    lem_bs_mono(g.t, c, c + 1);
    lem_at_rank(g.t, r, c);
    let x = od(g.t, r); 
    lem_adr_l(g, s.v[258 + c][0] as int, x);
    if x >= 1 && !is_s(g.t, x - 1) { assert(pE(g, r, s.v, s.m2, s.c2, bk(g.t, x - 1))); lem_A_step(g, r, s.m2, s.b, x, g.t[if x >= 2 { x - 2 } else { 0 }]); }
    x
}
proof fn lem_no_lms(g: Ic, r: int, c: int, q: int)
    requires ic_ok(g), bs(g.t, c) <= r <= q <= bsl(g.t, c)
    ensures forall|x: int| 1 <= x <= g.t.len() && r <= #[trigger] rank(g.t, x) < q ==> !lms(g.t, x)
{ assert forall|x: int| 1 <= x <= g.t.len() && r <= #[trigger] rank(g.t, x) < q implies !lms(g.t, x) by { lem_bs_mono(g.t, c, c + 1); lem_at_rank(g.t, rank(g.t, x), c); lem_od_rank(g.t, x); } }
proof fn lem_one(g: Ic, r: int, y: int)
    requires ic_ok(g), 0 <= y <= g.t.len(), rank(g.t, y) == r
    ensures forall|x: int| 0 <= x <= g.t.len() && r <= #[trigger] rank(g.t, x) < r + 1 ==> x == y
{ assert forall|x: int| 0 <= x <= g.t.len() && r <= #[trigger] rank(g.t, x) < r + 1 implies x == y by { lem_rank_lt(g.t, x, y); } }
pub proof fn lem_step1_last(g: Ic, r: int, s: Ist, c: int, s2: Ist)
    requires p1(g, r, s), 0 <= c < 258, bs(g.t, c) <= r <= bsl(g.t, c), s.v[258 + c].len() > 0, od(g.t, r) == 0, s2 == (Ist { v: pop(s.v, 258 + c), last: r, ..s })
    ensures p1(g, r + 1, s2)
{
    let x = lem_head1(g, r, s, c);
    reveal(p1);
    lem_bs_mono(g.t, c, c + 1);
    lem_one(g, r, x); lem_no_lms(g, r, c, r + 1);
    lem_A_skip(g, r, r + 1, s.m2, s.b);
    lem_C_skip(g, r, r + 1, s.c2, s.b);
    assert forall|b: int| #[trigger] pE(g, r + 1, s2.v, s.m2, s.c2, b) by { assert(pE(g, r, s.v, s.m2, s.c2, b)); lem_E_pop(g, r, s.v, s.m2, s.c2, c, b); }
    lem_first(g);
    assert(pC(g, r, s.c2, s.b, 0));
}
/// bucket 0 holds the end alone
proof fn lem_first(g: Ic)
    requires ic_ok(g)
    ensures forall|x: int| 0 <= x < g.t.len() ==> #[trigger] rank(g.t, x) >= 1, rank(g.t, g.t.len() as int) == 0, bs(g.t, 0) == 0, bs(g.t, 1) == 1, bsl(g.t, 0) == 0, g.xs[0] == g.t.len(), g.xs.len() >= 1
{ lem_bs_ends(g.t); lem_lst_ends(g.t, g.xs); assert forall|x: int| 0 <= x < g.t.len() implies #[trigger] rank(g.t, x) >= 1 by { lem_rank_lt(g.t, g.t.len() as int, x); lem_rank(g.t, x); } }
pub proof fn lem_step1_seed(g: Ic, r: int, s: Ist, c: int, s2: Ist)
    requires p1(g, r, s), 0 <= c < 258, bs(g.t, c) <= r <= bsl(g.t, c), s.v[258 + c].len() > 0, od(g.t, r) >= 1, is_s(g.t, od(g.t, r) - 1), s2 == (Ist { v: psh_l(pop(s.v, 258 + c), c, s.v[258 + c][0]), ..s })
    ensures p1(g, r + 1, s2)
{
    let x = lem_head1(g, r, s, c);
    reveal(p1);
    lem_bs_mono(g.t, c, c + 1);
    lem_one(g, r, x); lem_no_lms(g, r, c, r + 1);
    lem_A_skip(g, r, r + 1, s.m2, s.b);
    lem_C_skip(g, r, r + 1, s.c2, s.b);
    assert forall|b: int| #[trigger] pE(g, r + 1, s2.v, s.m2, s.c2, b) by { assert(pE(g, r, s.v, s.m2, s.c2, b)); lem_E_seed(g, r, s.v, s.m2, s.c2, c, s.v[258 + c][0], b); }
    lem_first(g);
    if rank(g.t, 0) == r { lem_rank_lt(g.t, 0, x); }
}
pub proof fn lem_step1_l(g: Ic, r: int, s: Ist, c: int, d: int, y: u64, val: u8, s2: Ist)
    requires p1(g, r, s), 0 <= c < 258, bs(g.t, c) <= r <= bsl(g.t, c), s.v[258 + c].len() > 0, od(g.t, r) >= 1, !is_s(g.t, od(g.t, r) - 1), d == bk(g.t, od(g.t, r) - 1), y == s.v[258 + c][0] - 1, od(g.t, r) >= 2 ==> val == g.t[od(g.t, r) - 2],
        s2 == (Ist { v: psh(pop(s.v, 258 + c), 258 + d, y), m2: inc(s.m2, d), b: s.b.update(s.m2[d] as int, val), ..s })
    ensures p1(g, r + 1, s2)
{
    let x = lem_head1(g, r, s, c);
    reveal(p1);
    lem_bs_mono(g.t, c, c + 1); lem_bs_mono(g.t, d, d + 1);
    lem_no_lms(g, r, c, r + 1);
    lem_C_skip(g, r, r + 1, s.c2, s.b);
    lem_C_other(g, r + 1, s.c2, s.b, d, s.m2[d] as int, val);
    lem_od_rank(g.t, x - 1);
    assert forall|b: int| #[trigger] pE(g, r + 1, s2.v, s2.m2, s.c2, b) by {
        assert(pE(g, r, s.v, s.m2, s.c2, b)); lem_E_pop(g, r, s.v, s.m2, s.c2, c, b);
        lem_E_push(g, r + 1, pop(s.v, 258 + c), s.m2, s.c2, d, y, b); }
    assert forall|z: int| #[trigger] pA(g, r + 1, s2.m2, s2.b, z) by { assert(pE(g, r, s.v, s.m2, s.c2, d)); lem_A_step(g, r, s.m2, s.b, x, val); }
    lem_first(g);
    if rank(g.t, 0) == r { lem_rank_lt(g.t, 0, x); }
}
pub proof fn lem_exit1(g: Ic, r: int, s: Ist, c: int)
    requires p1(g, r, s), 0 <= c < 258, bs(g.t, c) <= r <= bsl(g.t, c), s.v[258 + c].len() == 0
    ensures r == bsl(g.t, c)
{
    reveal(p1);
    lem_bs_mono(g.t, c, c + 1);
    assert(pE(g, r, s.v, s.m2, s.c2, c));
    if r < bsl(g.t, c) {
        lem_at_rank(g.t, r, c); let z = od(g.t, r);
        assert(pA(g, r, s.m2, s.b, z));
        lem_type(g.t, z);
    }
}
/// the S* suffixes of bucket c that were not seen are not below the front one
proof fn lem_gap(g: Ic, r: int, s: Ist, c: int, q: int)
    requires p1(g, r, s), 0 <= c < 258, bsl(g.t, c) <= r <= q <= bs(g.t, c + 1),
        ({ let i = lst(g.t, g.xs, c) + s.c2[c] - bsl(g.t, c); if i < lst(g.t, g.xs, c + 1) { q <= rank(g.t, g.xs[i]) } else { true } })
    ensures p1(g, q, s)
{
    reveal(p1);
    let i = lst(g.t, g.xs, c) + s.c2[c] - bsl(g.t, c);
    lem_lst_mono(g.t, g.xs, c, c + 1); lem_bs_mono(g.t, c, c + 1);
    assert(pE(g, r, s.v, s.m2, s.c2, c));
    assert forall|x: int| 0 <= x <= g.t.len() && r <= #[trigger] rank(g.t, x) < q implies !lms(g.t, x) && is_s(g.t, x) && bk(g.t, x) == c by {
        lem_at_rank(g.t, rank(g.t, x), c); lem_od_rank(g.t, x);
        if lms(g.t, x) {
            let j = lem_listed_at(g.t, g.xs, x);
            lem_lst(g.t, g.xs, j, c); lem_lst(g.t, g.xs, j, c + 1);
            assert(pC(g, r, s.c2, s.b, j));
            if i < lst(g.t, g.xs, c + 1) { lem_xs_rank(g.t, g.xs, j, i); lem_xs_rank(g.t, g.xs, i, j); lem_lst_mono(g.t, g.xs, c + 1, 258);}
            assert(stp(g.t, g.xs, j) >= s.c2[c]);
        }
    }
    assert forall|x: int| 1 <= x <= g.t.len() && r <= #[trigger] rank(g.t, x) < q implies is_s(g.t, x - 1) by { assert(!lms(g.t, x)); }
    lem_A_skip(g, r, q, s.m2, s.b);
    lem_C_skip(g, r, q, s.c2, s.b);
    assert forall|b: int| #[trigger] pE(g, q, s.v, s.m2, s.c2, b) by { assert(pE(g, r, s.v, s.m2, s.c2, b)); lem_cl_s(g.t, r, q, c, b); }
    if !is_s(g.t, 0) && r <= rank(g.t, 0) < q { }
    lem_lms0(g, r, q, s);
}
/// the end comes first
proof fn lem_lms0(g: Ic, r: int, q: int, s: Ist)
    requires ic_ok(g), r <= q, forall|x: int| 0 <= x <= g.t.len() && r <= #[trigger] rank(g.t, x) < q ==> !lms(g.t, x), 0 <= r
    ensures q >= 1 ==> r >= 1
{ lem_first(g); lem_lst_ends(g.t, g.xs); assert(lms(g.t, g.xs[0])); assert(rank(g.t, g.t.len() as int) == 0); }
pub proof fn lem_exit2(g: Ic, r: int, s: Ist, c: int)
    requires p1(g, r, s), 0 <= c < 258, bsl(g.t, c) <= r <= bs(g.t, c + 1), s.v[516 + c].len() == 0
    ensures p1(g, bs(g.t, c + 1), s)
{
    assert(pE(g, r, s.v, s.m2, s.c2, c)) by { reveal(p1); }
    lem_gap(g, r, s, c, bs(g.t, c + 1));
}
/// front of the S* queue of bucket c
pub proof fn lem_head2(g: Ic, r: int, s: Ist, c: int) -> (x: int)
    requires p1(g, r, s), 0 <= c < 258, bsl(g.t, c) <= r <= bs(g.t, c + 1), s.v[516 + c].len() > 0
    ensures ist_len(g, s), lms(g.t, x), bk(g.t, x) == c, r <= rank(g.t, x) < bs(g.t, c + 1), 1 <= x <= g.t.len(), !is_s(g.t, x - 1), p1(g, rank(g.t, x), s),
        ({ let i = lst(g.t, g.xs, c) + s.c2[c] - bsl(g.t, c); 0 <= i < g.xs.len() && g.xs[i] == x && stp(g.t, g.xs, i) == s.c2[c] && bsl(g.t, c) <= s.c2[c] < bs(g.t, c + 1) }),
        bs(g.t, bk(g.t, x - 1)) <= s.m2[bk(g.t, x - 1)] == rank(g.t, x - 1), s.m2[bk(g.t, x - 1)] < bsl(g.t, bk(g.t, x - 1)),
        ({ let v = s.v[516 + c][0] as int; &&& 1 < v < pow2(g.w as nat) && 0 <= g.lo + v < g.b.len() && 0 <= g.lo + v - 2 && g.lo + v != g.lp
            && g.b[g.lo + v - 1] == g.t[x - 1] && (x < g.t.len() ==> g.t[x - 1] > g.t[x]) && inner(g, v - 1, x - 1) && (x >= 2 ==> g.b[g.lo + v - 2] == g.t[x - 2]) })
{
    assert(pE(g, r, s.v, s.m2, s.c2, c) && ic_ok(g) && ist_len(g, s)) by { reveal(p1); }
    let i = lst(g.t, g.xs, c) + s.c2[c] - bsl(g.t, c); 
    lem_lst_mono(g.t, g.xs, c, c + 1); lem_lst_mono(g.t, g.xs, c + 1, 258); lem_lst_mono(g.t, g.xs, 0, c); lem_bs_mono(g.t, c, c + 1);
    lem_lms_tail(g, s.v[516 + c], i, lst(g.t, g.xs, c + 1));
    let x = g.xs[i];
    assert(lms(g.t, x));
    lem_lst(g.t, g.xs, i, c); lem_lst(g.t, g.xs, i, c + 1); lem_stp(g.t, g.xs, i); 
    assert(pC(g, r, s.c2, s.b, i)) by { reveal(p1); }
    lem_posn(g.t, x);
    lem_gap(g, r, s, c, rank(g.t, x));
    lem_adr_lms(g, s.v[516 + c][0] as int, x);
    let d = bk(g.t, x - 1);
    assert(pE(g, r, s.v, s.m2, s.c2, d) && forall|z: int| #[trigger] pA(g, rank(g.t, x), s.m2, s.b, z)) by { reveal(p1); }
    lem_A_step(g, rank(g.t, x), s.m2, s.b, x, g.t[if x >= 2 { x - 2 } else { 0 }]);
    x
}
pub proof fn lem_step2(g: Ic, r: int, s: Ist, c: int, x: int, d: int, y: u64, val: u8, s2: Ist)
    requires p1(g, r, s), 0 <= c < 258, bsl(g.t, c) <= r <= bs(g.t, c + 1), s.v[516 + c].len() > 0, x == g.xs[lst(g.t, g.xs, c) + s.c2[c] - bsl(g.t, c)], d == bk(g.t, x - 1), y == s.v[516 + c][0] - 1, x >= 2 ==> val == g.t[x - 2],
        s2 == (Ist { v: psh(pop(s.v, 516 + c), 258 + d, y), m2: inc(s.m2, d), b: s.b.update(s.m2[d] as int, val).update(s.c2[c] as int, g.t[x - 1]), c2: inc(s.c2, c), ..s })
    ensures p1(g, rank(g.t, x) + 1, s2)
{
    let x0 = lem_head2(g, r, s, c); let q = rank(g.t, x); let i = lst(g.t, g.xs, c) + s.c2[c] - bsl(g.t, c);
    reveal(p1);
    lem_bs_mono(g.t, c, c + 1); lem_bs_mono(g.t, d, d + 1); lem_od_rank(g.t, x - 1);
    let b1 = s.b.update(s.m2[d] as int, val);
    assert(pE(g, r, s.v, s.m2, s.c2, d));
    lem_A_step(g, q, s.m2, s.b, x, val);
    lem_A_other(g, q + 1, s2.m2, b1, c, s.c2[c] as int, g.t[x - 1]);
    lem_C_other(g, q, s.c2, s.b, d, s.m2[d] as int, val);
    lem_C_step(g, q, s.c2, b1, i);
    assert forall|b: int| #[trigger] pE(g, q + 1, s2.v, s2.m2, s2.c2, b) by {
        assert(pE(g, r, s.v, s.m2, s.c2, b)); lem_E_lms(g, r, q + 1, s.v, s.m2, s.c2, c, b);
        lem_E_push(g, q + 1, pop(s.v, 516 + c), s.m2, s2.c2, d, y, b); }
    lem_first(g); lem_lst_ends(g.t, g.xs);
    lem_rank_lt(g.t, 0, x); lem_rank(g.t, x);
    if c > 0 { lem_apart_b(g.t, 0, c); if q == 0 { lem_rank_lt(g.t, x, g.t.len() as int); } } else { lem_rank_lt(g.t, x, g.t.len() as int); }
}
/// before the first pass
pub proof fn lem_start1(g: Ic, s: Ist)
    requires ic_ok(g), ist_len(g, s), forall|b: int| 0 <= b < 258 ==> #[trigger] s.m2[b] == bs(g.t, b), forall|b: int| 0 <= b < 258 ==> #[trigger] s.c2[b] == bsl(g.t, b),
        forall|b: int| 0 <= b < 258 ==> (#[trigger] s.v[b]).len() == 0, forall|b: int| 258 <= b < 516 ==> (#[trigger] s.v[b]).len() == 0, forall|b: int| 516 <= b < 774 ==> ls_lms(g, #[trigger] s.v[b], lst(g.t, g.xs, b - 516), lst(g.t, g.xs, b - 515))
    ensures p1(g, 0, s)
{
    reveal(p1);
    assert forall|b: int| #[trigger] pE(g, 0, s.v, s.m2, s.c2, b) by { if 0 <= b < 258 { lem_bs_mono(g.t, b, b + 1); lem_lst_mono(g.t, g.xs, b, b + 1); assert(s.v[b].len() == 0 && s.v[258 + b].len() == 0); assert(ls_lms(g, s.v[516 + b], lst(g.t, g.xs, 516 + b - 516), lst(g.t, g.xs, 516 + b - 515))); } }
    assert forall|x: int| #[trigger] pA(g, 0, s.m2, s.b, x) by { if 0 <= x < g.t.len() { lem_posn(g.t, x); lem_rank(g.t, x + 1); } }
    assert forall|i: int| #[trigger] pC(g, 0, s.c2, s.b, i) by { if 0 <= i < g.xs.len() { lem_stp(g.t, g.xs, i); lem_stp_rank(g, i); lem_rank(g.t, g.xs[i]); } }
    if !is_s(g.t, 0) { lem_rank(g.t, 0); }
}
// ---- second pass: all suffixes of rank r and above have been seen
pub open spec fn qA(g: Ic, r: int, m2: Seq<u64>, b: Seq<u8>, x: int) -> bool {
    0 <= x < g.t.len() ==> (is_s(g.t, x) ==> (rank(g.t, x + 1) >= r <==> rank(g.t, x) > m2[bk(g.t, x)])) && (x >= 1 && (!is_s(g.t, x) || rank(g.t, x) > m2[bk(g.t, x)]) ==> b[rank(g.t, x)] == g.t[x - 1])
}
pub open spec fn qC(g: Ic, m2: Seq<u64>, c2: Seq<u64>, b: Seq<u8>, i: int) -> bool {
    1 <= i < g.xs.len() ==> (rank(g.t, g.xs[i]) <= m2[bk(g.t, g.xs[i])] <==> stp(g.t, g.xs, i) < c2[bk(g.t, g.xs[i])]) && (stp(g.t, g.xs, i) < c2[bk(g.t, g.xs[i])] ==> b[stp(g.t, g.xs, i)] == g.t[g.xs[i] - 1])
}
pub open spec fn qE(g: Ic, r: int, v: Seq<Seq<u64>>, m2: Seq<u64>, c2: Seq<u64>, b: int) -> bool {
    0 <= b < 258 ==> bsl(g.t, b) - 1 <= m2[b] <= bs(g.t, b + 1) - 1 && c2[b] <= bsl(g.t, b) + lst(g.t, g.xs, b + 1) - lst(g.t, g.xs, b)
        && ls_dn(g, v[258 + b], cl(r, bsl(g.t, b), bs(g.t, b + 1)) - 1, m2[b] as int) && ls_sd(g, v[b], bs(g.t, b), cl(r, bs(g.t, b), bsl(g.t, b)))
}
#[verifier::opaque]
pub open spec fn p2(g: Ic, r: int, s: Ist) -> bool {
    &&& ic_ok(g) && ist_len(g, s) && 1 <= r <= g.t.len() + 1
    &&& forall|x: int| #[trigger] qA(g, r, s.m2, s.b, x)
    &&& forall|i: int| #[trigger] qC(g, s.m2, s.c2, s.b, i)
    &&& forall|b: int| #[trigger] qE(g, r, s.v, s.m2, s.c2, b)
    &&& !is_s(g.t, 0) || rank(g.t, 0) > s.m2[bk(g.t, 0)] ==> s.last == rank(g.t, 0)
    &&& s.b[0] == g.t[g.t.len() - 1]
}
pub open spec fn max1(r: int) -> int { if r < 1 { 1 } else { r } }
pub open spec fn loc2(g: Ic, r: int, c: int, tt: int) -> bool { if tt == 1 { max1(bsl(g.t, c)) <= r <= bs(g.t, c + 1) } else { max1(bs(g.t, c)) <= r <= max1(bsl(g.t, c)) } }
pub proof fn lem_start2(g: Ic, s: Ist, s2: Ist)
    requires p1(g, g.t.len() as int + 1, s), ist_len(g, s2), s2.b == s.b, s2.c2 == s.c2, s2.last == s.last, forall|b: int| 0 <= b < 258 ==> #[trigger] s2.m2[b] == bs(g.t, b + 1) - 1,
        forall|b: int| 0 <= b < 258 ==> #[trigger] s2.v[b] == s.v[b], forall|b: int| 258 <= b < 516 ==> (#[trigger] s2.v[b]).len() == 0
    ensures p2(g, g.t.len() as int + 1, s2)
{
    reveal(p1); reveal(p2);
    let n = g.t.len() as int;
    assert forall|x: int| #[trigger] qA(g, n + 1, s2.m2, s2.b, x) by { if 0 <= x < n { assert(pA(g, n + 1, s.m2, s.b, x)); lem_posn(g.t, x); lem_rank(g.t, x + 1); } }
    assert forall|i: int| #[trigger] qC(g, s2.m2, s2.c2, s2.b, i) by { if 1 <= i < g.xs.len() { assert(pC(g, n + 1, s.c2, s.b, i)); lem_stp(g.t, g.xs, i); lem_stp_rank(g, i); lem_posn(g.t, g.xs[i]); lem_rank(g.t, g.xs[i]); } }
    assert forall|b: int| #[trigger] qE(g, n + 1, s2.v, s2.m2, s2.c2, b) by { if 0 <= b < 258 { assert(pE(g, n + 1, s.v, s.m2, s.c2, b)); lem_bs_mono(g.t, b, b + 1); assert(s2.v[258 + b].len() == 0); assert(s2.v[b] == s.v[b]); } }
    lem_posn(g.t, 0); lem_rank(g.t, 0);
}
/// the S suffix in front of the next suffix seen goes to its bucket's back
proof fn lem_qnext(g: Ic, r: int, m2: Seq<u64>, b: Seq<u8>, x: int)
    requires ic_ok(g), forall|x: int| #[trigger] qA(g, r, m2, b, x), 1 <= x <= g.t.len(), rank(g.t, x) + 1 == r, is_s(g.t, x - 1), m2[bk(g.t, x - 1)] <= bs(g.t, bk(g.t, x - 1) + 1) - 1
    ensures rank(g.t, x - 1) == m2[bk(g.t, x - 1)], bsl(g.t, bk(g.t, x - 1)) <= m2[bk(g.t, x - 1)], 1 <= m2[bk(g.t, x - 1)] <= g.t.len()
{
    let t = g.t; let y = x - 1; let c = bk(t, y); let mm = m2[c] as int;
    lem_posn(t, y); lem_first(g); lem_rank(t, y);
    assert(qA(g, r, m2, b, y));
    if rank(t, y) < mm {
        lem_at_rank(t, mm, c);
        let z = od(t, mm);
        assert(qA(g, r, m2, b, z));
        lem_succ(t, y, z);
        assert(false);
    }
}
proof fn lem_qA_step(g: Ic, r: int, m2: Seq<u64>, b: Seq<u8>, x: int, b2: Seq<u8>)
    requires ic_ok(g), forall|x: int| #[trigger] qA(g, r + 1, m2, b, x), 1 <= x <= g.t.len(), rank(g.t, x) == r, is_s(g.t, x - 1), m2[bk(g.t, x - 1)] == rank(g.t, x - 1), m2.len() == 258, b.len() == g.t.len() + 1, m2[bk(g.t, x - 1)] >= 1,
        if x >= 2 { b2 == b.update(m2[bk(g.t, x - 1)] as int, g.t[x - 2]) } else { b2 == b }
    ensures forall|y: int| #[trigger] qA(g, r, dec(m2, bk(g.t, x - 1)), b2, y)
{
    let t = g.t; let y = x - 1; let c = bk(t, y); let mm = m2[c] as int; let m3 = dec(m2, c);
    assert forall|z: int| #[trigger] qA(g, r, m3, b2, z) by {
        assert(qA(g, r + 1, m2, b, z));
        if 0 <= z < t.len() { lem_rank_lt(t, z + 1, x); lem_rank_lt(t, z, y); lem_rank(t, z); }
    }
}
proof fn lem_qA_skip(g: Ic, r: int, q: int, m2: Seq<u64>, b: Seq<u8>)
    requires forall|x: int| #[trigger] qA(g, r, m2, b, x), q <= r, forall|x: int| 1 <= x <= g.t.len() && q <= #[trigger] rank(g.t, x) < r ==> !is_s(g.t, x - 1)
    ensures forall|x: int| #[trigger] qA(g, q, m2, b, x)
{ assert forall|x: int| #[trigger] qA(g, q, m2, b, x) by { assert(qA(g, r, m2, b, x)); if 0 <= x < g.t.len() { assert(x + 1 - 1 == x); if q <= rank(g.t, x + 1) < r { } } } }
/// a suffix that is not S* (j < 0) or S* suffix j goes to the back of bucket d
proof fn lem_qC_step(g: Ic, m2: Seq<u64>, c2: Seq<u64>, b: Seq<u8>, y: int, b2: Seq<u8>, c3: Seq<u64>)
    requires ic_ok(g), forall|i: int| #[trigger] qC(g, m2, c2, b, i), 0 <= y < g.t.len(), is_s(g.t, y), rank(g.t, y) == m2[bk(g.t, y)], m2.len() == 258, c2.len() == 258, b.len() == g.t.len() + 1, m2[bk(g.t, y)] >= 1,
        c2[bk(g.t, y)] <= bsl(g.t, bk(g.t, y)) + lst(g.t, g.xs, bk(g.t, y) + 1) - lst(g.t, g.xs, bk(g.t, y)),
        if y >= 1 { b2 == b.update(m2[bk(g.t, y)] as int, g.t[y - 1]) } else { b2 == b }, c3 == (if lms(g.t, y) { dec(c2, bk(g.t, y)) } else { c2 })
    ensures forall|i: int| #[trigger] qC(g, dec(m2, bk(g.t, y)), c3, b2, i), lms(g.t, y) ==> c2[bk(g.t, y)] >= 1 && b[c2[bk(g.t, y)] - 1] == g.t[y - 1] && c2[bk(g.t, y)] <= g.t.len() + 1
{
    let t = g.t; let d = bk(t, y); let mm = m2[d] as int; let m3 = dec(m2, d);
    let k = if lms(t, y) { lem_qC_last(g, m2, c2, b, y) } else { -1 };
    assert forall|i: int| #[trigger] qC(g, m3, c3, b2, i) by {
        assert(qC(g, m2, c2, b, i));
        if 1 <= i < g.xs.len() {
            let e = bk(t, g.xs[i]); let st = stp(t, g.xs, i);
            lem_stp(t, g.xs, i); lem_stp_rank(g, i); lem_rank_lt(t, g.xs[i], y); lem_posn(t, y);
            if lms(t, y) { 
                if e == d && st == c2[d] - 1 { lem_stp_inj(g, i, k); } 
                lem_xs_rank(t, g.xs, i, k);
            }
            if e == d { if st < c3[d] { assert(rank(t, g.xs[i]) < mm); } }
            else { if e < d { lem_apart_b(t, e, d); } else { lem_apart_b(t, d, e); } }
        }
    }
}
/// the S* suffix at the back of what is left of its bucket is the last one waiting
proof fn lem_qC_last(g: Ic, m2: Seq<u64>, c2: Seq<u64>, b: Seq<u8>, y: int) -> (k: int)
    requires ic_ok(g), forall|i: int| #[trigger] qC(g, m2, c2, b, i), 0 <= y < g.t.len(), lms(g.t, y), rank(g.t, y) == m2[bk(g.t, y)],
        c2[bk(g.t, y)] <= bsl(g.t, bk(g.t, y)) + lst(g.t, g.xs, bk(g.t, y) + 1) - lst(g.t, g.xs, bk(g.t, y))
    ensures 1 <= k < g.xs.len(), g.xs[k] == y, stp(g.t, g.xs, k) == c2[bk(g.t, y)] - 1, b[c2[bk(g.t, y)] - 1] == g.t[y - 1], 1 <= c2[bk(g.t, y)] <= g.t.len() + 1
{
    let d = bk(g.t, y);
    let k = lem_listed_at(g.t, g.xs, y);
    lem_lst_ends(g.t, g.xs);
    assert(k >= 1);
    assert(qC(g, m2, c2, b, k));
    lem_stp(g.t, g.xs, k); lem_stp_rank(g, k);
    if k + 1 < lst(g.t, g.xs, d + 1) {
        lem_lst_mono(g.t, g.xs, d + 1, 258);
        lem_lst(g.t, g.xs, k + 1, d + 1); lem_lst(g.t, g.xs, k + 1, d); 
        assert(bk(g.t, g.xs[k + 1]) == d);
        assert(qC(g, m2, c2, b, k + 1));
        lem_xs_rank(g.t, g.xs, k, k + 1);
    }
    k
}
proof fn lem_qE_push(g: Ic, r: int, v: Seq<Seq<u64>>, m2: Seq<u64>, c2: Seq<u64>, c3: Seq<u64>, d: int, x: u64, b: int)
    requires v.len() == 774, m2.len() == 258, c2.len() == 258, qE(g, r, v, m2, c2, b), 0 <= d < 258, 1 <= m2[d], bsl(g.t, d) <= m2[d], inner(g, x as int, od(g.t, m2[d] as int)), c3 == c2 || c3 == dec(c2, d) && c2[d] >= 1
    ensures qE(g, r, psh(v, 258 + d, x), dec(m2, d), c3, b)
{ if b == d { lem_dn_push(g, v[258 + d], cl(r, bsl(g.t, d), bs(g.t, d + 1)) - 1, m2[d] as int, x); } }
proof fn lem_qE_pop(g: Ic, r: int, v: Seq<Seq<u64>>, m2: Seq<u64>, c2: Seq<u64>, c: int, b: int)
    requires ic_ok(g), v.len() == 774, qE(g, r + 1, v, m2, c2, b), 0 <= c < 258, bsl(g.t, c) <= r, r + 1 <= bs(g.t, c + 1), b == c ==> m2[c] < r
    ensures qE(g, r, pop(v, 258 + c), m2, c2, b)
{
    lem_bs_mono(g.t, b, b + 1); lem_cl_s(g.t, r, r + 1, c, b);
    if b < c { lem_apart_b(g.t, b, c); } if b > c { lem_apart_b(g.t, c, b); }
    if b == c { lem_dn_tail(g, v[258 + c], r, m2[c] as int); }
}
proof fn lem_qE_sd(g: Ic, r: int, q: int, v: Seq<Seq<u64>>, m2: Seq<u64>, c2: Seq<u64>, c: int, b: int)
    requires ic_ok(g), v.len() == 774, qE(g, r, v, m2, c2, b), 0 <= c < 258, bs(g.t, c) <= q <= r <= bsl(g.t, c)
    ensures b != c ==> qE(g, q, v, m2, c2, b) && qE(g, q, pop(v, c), m2, c2, b), 
        b == c && sds(g.t, bs(g.t, c), r) == sds(g.t, bs(g.t, c), q) ==> qE(g, q, v, m2, c2, b),
        b == c && sds(g.t, bs(g.t, c), r) == seq![q] + sds(g.t, bs(g.t, c), q) ==> qE(g, q, pop(v, c), m2, c2, b)
{
    lem_bs_mono(g.t, b, b + 1);
    if b < c { lem_apart_b(g.t, b, c); } if b > c { lem_apart_b(g.t, c, b); }
    if b == c && sds(g.t, bs(g.t, c), r) == seq![q] + sds(g.t, bs(g.t, c), q) { lem_sd_tail(g, v[c], bs(g.t, c), r, q); }
}
/// no seeds of bucket c in between
proof fn lem_gap2(g: Ic, r: int, s: Ist, c: int, q: int)
    requires p2(g, r, s), 0 <= c < 258, bs(g.t, c) <= q <= r <= bsl(g.t, c), 1 <= q, sds(g.t, bs(g.t, c), r) == sds(g.t, bs(g.t, c), q), forall|j: int| q <= j < r ==> !seed(g.t, #[trigger] od(g.t, j))
    ensures p2(g, q, s)
{
    reveal(p2);
    lem_bs_mono(g.t, c, c + 1);
    assert forall|x: int| 1 <= x <= g.t.len() && q <= #[trigger] rank(g.t, x) < r implies !is_s(g.t, x - 1) by { lem_at_rank(g.t, rank(g.t, x), c); lem_od_rank(g.t, x); }
    lem_qA_skip(g, r, q, s.m2, s.b);
    assert forall|b: int| #[trigger] qE(g, q, s.v, s.m2, s.c2, b) by { assert(qE(g, r, s.v, s.m2, s.c2, b)); lem_qE_sd(g, r, q, s.v, s.m2, s.c2, c, b); }
}
proof fn lem_sds_none(t: Seq<u8>, lo: int, hi: int, q: int)
    requires lo <= q <= hi, forall|j: int| q <= j < hi ==> !seed(t, #[trigger] od(t, j))
    ensures sds(t, lo, hi) == sds(t, lo, q)
    decreases hi - lo
{ if q < hi { lem_sds_none(t, lo, hi - 1, q); assert(!seed(t, od(t, hi - 1))); } }
/// front of the queue of bucket c with the S suffixes (1) or the seeds (0)
pub proof fn lem_h2(g: Ic, r: int, s: Ist, c: int, tt: int) -> (x: int)
    requires p2(g, r, s), 0 <= c < 258, tt == 0 || tt == 1, loc2(g, r, c, tt), s.v[258 * tt + c].len() > 0
    ensures ist_len(g, s), 1 <= c <= 256, 0 <= x < g.t.len(), bk(g.t, x) == c, p2(g, rank(g.t, x) + 1, s), loc2(g, rank(g.t, x), c, tt), is_s(g.t, x) || x >= 1 && is_s(g.t, x - 1), 1 <= rank(g.t, x) < r,
        x >= 1 && is_s(g.t, x - 1) ==> ({ let d = bk(g.t, x - 1); rank(g.t, x - 1) == s.m2[d] && bsl(g.t, d) <= s.m2[d] && 1 <= s.m2[d] <= g.t.len() && 1 <= d <= 256 && (lms(g.t, x - 1) ==> 1 <= s.c2[d] <= g.t.len() + 1 && s.b[s.c2[d] - 1] == g.t[x - 2]) }),
        forall|b: int| #[trigger] qE(g, rank(g.t, x), pop(s.v, 258 * tt + c), s.m2, s.c2, b),
        ({ let v = s.v[258 * tt + c][0] as int; &&& inner(g, v, x) && 0 < v < pow2(g.w as nat) && 0 <= g.lo + v < g.b.len() && 0 <= g.lo + v - 1 && (g.b[g.lo + v - 1] <= g.t[x] <==> x >= 1 && is_s(g.t, x - 1))
            && (x >= 1 && is_s(g.t, x - 1) ==> inner(g, v - 1, x - 1) && g.b[g.lo + v - 1] == g.t[x - 1] && 0 <= g.lo + v - 2 && (g.lo + v - 1 == g.lp <==> x == 1))
            && (x >= 2 && is_s(g.t, x - 1) ==> (g.b[g.lo + v - 2] <= g.t[x - 1] <==> !lms(g.t, x - 1)) && (!lms(g.t, x - 1) ==> g.b[g.lo + v - 2] == g.t[x - 2])) })
{
    let x = if tt == 1 { lem_h2s(g, r, s, c) } else { lem_h2l(g, r, s, c) };
    lem_adr_s(g, s.v[258 * tt + c][0] as int, x);
    if x >= 1 && is_s(g.t, x - 1) {
        reveal(p2);
        assert(qE(g, rank(g.t, x) + 1, s.v, s.m2, s.c2, bk(g.t, x - 1)));
        lem_qnext(g, rank(g.t, x) + 1, s.m2, s.b, x);
        lem_qC_step(g, s.m2, s.c2, s.b, x - 1, if x >= 2 { s.b.update(s.m2[bk(g.t, x - 1)] as int, g.t[x - 2]) } else { s.b }, if lms(g.t, x - 1) { dec(s.c2, bk(g.t, x - 1)) } else { s.c2 });
    }
    x
}
proof fn lem_h2s(g: Ic, r: int, s: Ist, c: int) -> (x: int)
    requires p2(g, r, s), 0 <= c < 258, loc2(g, r, c, 1), s.v[258 + c].len() > 0
    ensures ic_ok(g), ist_len(g, s), 1 <= c <= 256, 0 <= x < g.t.len(), bk(g.t, x) == c, p2(g, rank(g.t, x) + 1, s), loc2(g, rank(g.t, x), c, 1), is_s(g.t, x), inner(g, s.v[258 + c][0] as int, x), 1 <= rank(g.t, x) < r, forall|b: int| #[trigger] qE(g, rank(g.t, x), pop(s.v, 258 + c), s.m2, s.c2, b)
{
    reveal(p2);
    assert(qE(g, r, s.v, s.m2, s.c2, c));
    lem_first(g);
    lem_bs_mono(g.t, c, c + 1);
    lem_dn_tail(g, s.v[258 + c], r - 1, s.m2[c] as int);
    lem_at_rank(g.t, r - 1, c);
    let x = od(g.t, r - 1);
    assert(x != g.t.len());
    if c >= 1 { lem_apart_b(g.t, 0, c); }
    assert forall|b: int| #[trigger] qE(g, r - 1, pop(s.v, 258 + c), s.m2, s.c2, b) by { assert(qE(g, r, s.v, s.m2, s.c2, b)); lem_qE_pop(g, r - 1, s.v, s.m2, s.c2, c, b); }
    x
}
proof fn lem_h2l(g: Ic, r: int, s: Ist, c: int) -> (x: int)
    requires p2(g, r, s), 0 <= c < 258, loc2(g, r, c, 0), s.v[c].len() > 0
    ensures ic_ok(g), ist_len(g, s), 1 <= c <= 256, 0 <= x < g.t.len(), bk(g.t, x) == c, p2(g, rank(g.t, x) + 1, s), loc2(g, rank(g.t, x), c, 0), seed(g.t, x), inner(g, s.v[c][0] as int, x), 1 <= rank(g.t, x) < r, forall|b: int| #[trigger] qE(g, rank(g.t, x), pop(s.v, c), s.m2, s.c2, b)
{
    assert(qE(g, r, s.v, s.m2, s.c2, c) && ic_ok(g) && ist_len(g, s)) by { reveal(p2); }
    lem_first(g);
    if c >= 1 { lem_apart_b(g.t, 0, c); }
    lem_bs_mono(g.t, c, c + 1);
    let lo = bs(g.t, c); let hi = cl(r, lo, bsl(g.t, c));
    let q = lem_sds_head(g.t, lo, hi);
    assert(c >= 1 && hi == r);
    lem_sd_tail(g, s.v[c], lo, r, q);
    let x = od(g.t, q);
    lem_at_rank(g.t, q, c);
    assert(q + 1 - 1 == q);
    assert(sds(g.t, lo, q + 1) == seq![q] + sds(g.t, lo, q));
    lem_gap2(g, r, s, c, q + 1);
    assert forall|b: int| #[trigger] qE(g, q, pop(s.v, c), s.m2, s.c2, b) by { reveal(p2); assert(qE(g, r, s.v, s.m2, s.c2, b)); lem_qE_sd(g, r, q, s.v, s.m2, s.c2, c, b); }
    x
}
pub proof fn lem_s2_none(g: Ic, r: int, s: Ist, c: int, tt: int, x: int, s2: Ist)
    requires p2(g, rank(g.t, x) + 1, s), 0 <= x < g.t.len(), x == 0 || !is_s(g.t, x - 1), 1 <= rank(g.t, x), forall|b: int| #[trigger] qE(g, rank(g.t, x), pop(s.v, 258 * tt + c), s.m2, s.c2, b), 0 <= c < 258, 0 <= tt <= 1,
        s2 == (Ist { v: pop(s.v, 258 * tt + c), ..s })
    ensures p2(g, rank(g.t, x), s2)
{
    reveal(p2);
    lem_one(g, rank(g.t, x), x);
    lem_qA_skip(g, rank(g.t, x) + 1, rank(g.t, x), s.m2, s.b);
}
/// the S suffix in front: last for the start of the text, otherwise its byte is written
pub proof fn lem_s2_s(g: Ic, r: int, s: Ist, c: int, tt: int, x: int, d: int, y: u64, s2: Ist)
    requires p2(g, rank(g.t, x) + 1, s), 1 <= x < g.t.len(), is_s(g.t, x - 1), d == bk(g.t, x - 1), 1 <= rank(g.t, x), forall|b: int| #[trigger] qE(g, rank(g.t, x), pop(s.v, 258 * tt + c), s.m2, s.c2, b), 0 <= c < 258, 0 <= tt <= 1,
        inner(g, y as int, x - 1),
        s2 == (Ist { v: psh(pop(s.v, 258 * tt + c), 258 + d, y), m2: dec(s.m2, d), c2: if lms(g.t, x - 1) { dec(s.c2, d) } else { s.c2 }, b: if x >= 2 { s.b.update(s.m2[d] as int, g.t[x - 2]) } else { s.b }, last: if x == 1 { s.m2[d] as int } else { s.last } })
    ensures p2(g, rank(g.t, x), s2)
{
    reveal(p2);
    let q = rank(g.t, x);
    assert(qE(g, q + 1, s.v, s.m2, s.c2, d));
    lem_qnext(g, q + 1, s.m2, s.b, x);
    lem_qA_step(g, q, s.m2, s.b, x, s2.b);
    lem_qC_step(g, s.m2, s.c2, s.b, x - 1, s2.b, s2.c2);
    lem_od_rank(g.t, x - 1);
    assert forall|b: int| #[trigger] qE(g, q, s2.v, s2.m2, s2.c2, b) by { assert(qE(g, q, pop(s.v, 258 * tt + c), s.m2, s.c2, b)); lem_qE_push(g, q, pop(s.v, 258 * tt + c), s.m2, s.c2, s2.c2, d, y, b); }
    lem_rank_lt(g.t, 0, x - 1);
}
pub proof fn lem_x2(g: Ic, r: int, s: Ist, c: int, tt: int)
    requires p2(g, r, s), 0 <= c < 258, tt == 0 || tt == 1, loc2(g, r, c, tt), s.v[258 * tt + c].len() == 0
    ensures tt == 1 ==> r == max1(bsl(g.t, c)), tt == 0 ==> p2(g, max1(bs(g.t, c)), s)
{
    assert(qE(g, r, s.v, s.m2, s.c2, c) && ic_ok(g)) by { reveal(p2); }
    lem_first(g); lem_bs_mono(g.t, c, c + 1); if c >= 1 { lem_apart_b(g.t, 0, c); }
    if tt == 1 && r > max1(bsl(g.t, c)) {
        let q = r - 1;
        lem_at_rank(g.t, q, c); let z = od(g.t, q);
        reveal(p2);
        assert(qA(g, r, s.m2, s.b, z));
        lem_type(g.t, z); lem_rank(g.t, z);
    }
    if tt == 0 && c >= 1 {
        let q = lem_sds_head(g.t, bs(g.t, c), r);
        lem_sds_none(g.t, bs(g.t, c), r, bs(g.t, c));
        lem_gap2(g, r, s, c, bs(g.t, c));
    }
}
pub proof fn lem_done2(g: Ic, s: Ist)
    requires p2(g, 1, s)
    ensures is_bwt(g.t, s.last, s.b)
{
    reveal(p2);
    lem_first(g);
    assert forall|i: int| 1 <= i <= g.t.len() implies s.b[#[trigger] rank(g.t, i)] == g.t[i - 1] by {
        if i < g.t.len() { assert(qA(g, 1, s.m2, s.b, i)); if i + 1 == g.t.len() { } else { assert(rank(g.t, i + 1) >= 1); } } }
    assert(qA(g, 1, s.m2, s.b, 0));
    if is_s(g.t, 0) { if 1 < g.t.len() { assert(rank(g.t, 1int) >= 1); } }
}
