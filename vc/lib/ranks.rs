// uses: order isa
// Ranks of suffixes: a bijection, split into buckets by the first byte, L before S, with the S* suffixes in their order.
// ---- the order
pub proof fn lem_slt_irr(t: Seq<u8>, x: int)
    ensures !slt(t, x, x)
{ if slt(t, x, x) { let k = choose|k: int| #[trigger] slt_at(t, x, x, k); assert(slt_at(t, x, x, k)); } }
pub proof fn lem_slt_total(t: Seq<u8>, x: int, y: int)
    requires 0 <= x <= t.len(), 0 <= y <= t.len(), x != y
    ensures slt(t, x, y) || slt(t, y, x)
    decreases t.len() - x
{
    if x == t.len() { assert(slt_at(t, x, y, 0)); }
    else if y == t.len() { assert(slt_at(t, y, x, 0)); }
    else if t[x] < t[y] { assert(slt_at(t, x, y, 0)); }
    else if t[y] < t[x] { assert(slt_at(t, y, x, 0)); }
    else {
        lem_slt_total(t, x + 1, y + 1);
        if slt(t, x + 1, y + 1) { lem_lift(t, x, y, 1); } else { lem_lift(t, y, x, 1); }
    }
}
pub proof fn lem_slt_trans(t: Seq<u8>, x: int, y: int, z: int)
    requires slt(t, x, y), slt(t, y, z), 0 <= x, 0 <= y, 0 <= z
    ensures slt(t, x, z)
{
    let k = choose|k: int| #[trigger] slt_at(t, x, y, k); let l = choose|k: int| #[trigger] slt_at(t, y, z, k);
    let m = if k < l { k } else { l };
    assert forall|e: int| 0 <= e < m implies t[x + e] == #[trigger] t[z + e] by { assert(t[x + e] == t[y + e]); assert(t[y + e] == t[z + e]); }
    if k < l { assert(t[y + k] == t[z + k]); } else if l < k { assert(t[x + l] == t[y + l]); }
    assert(slt_at(t, x, z, m));
}
proof fn lem_below_lt(t: Seq<u8>, x: int, y: int, k: int)
    requires slt(t, x, y), 0 <= x, 0 <= y
    ensures below(t, x, k) + (if k > x { 1int } else { 0 }) <= below(t, y, k)
    decreases k
{
    if k > 0 {
        lem_below_lt(t, x, y, k - 1);
        if k - 1 == x { lem_slt_irr(t, x); }
        else if slt(t, k - 1, x) { lem_slt_trans(t, k - 1, x, y); }
    }
}
/// ranks decide the order
pub proof fn lem_rank_lt(t: Seq<u8>, x: int, y: int)
    requires 0 <= x <= t.len(), 0 <= y <= t.len()
    ensures slt(t, x, y) <==> rank(t, x) < rank(t, y), rank(t, x) == rank(t, y) <==> x == y
{
    if slt(t, x, y) { lem_below_lt(t, x, y, t.len() as int + 1); }
    if slt(t, y, x) { lem_below_lt(t, y, x, t.len() as int + 1); }
    if x != y { lem_slt_total(t, x, y); }
}
/// the suffix of a rank
pub open spec fn od(t: Seq<u8>, r: int) -> int { choose|x: int| 0 <= x <= t.len() && #[trigger] rank(t, x) == r }
pub proof fn lem_od(t: Seq<u8>, r: int)
    requires 0 <= r <= t.len()
    ensures 0 <= od(t, r) <= t.len(), rank(t, od(t, r)) == r
{
    let n = t.len() as int; let s = Seq::new((n + 1) as nat, |x: int| rank(t, x));
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < n + 1 && yes()(s[i]) by { lem_rank(t, i); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i] != #[trigger] s[j] by { lem_rank_lt(t, i, j); }
    lem_cnt_yes(n + 1);
    let x = lem_cnt_full(yes(), n + 1, s, r);
    assert(rank(t, x) == r);
}
pub proof fn lem_od_rank(t: Seq<u8>, x: int)
    requires 0 <= x <= t.len()
    ensures od(t, rank(t, x)) == x, 0 <= rank(t, x) <= t.len()
{ lem_rank(t, x); lem_od(t, rank(t, x)); lem_rank_lt(t, x, od(t, rank(t, x))); }
/// equal first bytes: the rests decide
pub proof fn lem_succ(t: Seq<u8>, x: int, y: int)
    requires 0 <= x < t.len(), 0 <= y < t.len(), t[x] == t[y]
    ensures rank(t, x) < rank(t, y) <==> rank(t, x + 1) < rank(t, y + 1)
{
    lem_rank_lt(t, x, y); lem_rank_lt(t, x + 1, y + 1); lem_rank_lt(t, y + 1, x + 1); lem_rank_lt(t, y, x);
    if slt(t, x + 1, y + 1) { lem_lift(t, x, y, 1); }
    else if x != y { lem_slt_total(t, x + 1, y + 1); lem_lift(t, y, x, 1); }
}
pub proof fn lem_type(t: Seq<u8>, x: int)
    requires 0 <= x < t.len()
    ensures is_s(t, x) <==> rank(t, x) < rank(t, x + 1), !is_s(t, x) <==> rank(t, x + 1) < rank(t, x)
{ lem_is_s(t, x); lem_rank_lt(t, x, x + 1); }
// ---- buckets
pub open spec fn bk(t: Seq<u8>, x: int) -> int { if x >= t.len() { 0 } else { t[x] + 1 } }
pub open spec fn f_lt(t: Seq<u8>, b: int) -> spec_fn(int) -> bool { |x: int| bk(t, x) < b }
pub open spec fn f_eq(t: Seq<u8>, b: int) -> spec_fn(int) -> bool { |x: int| bk(t, x) == b }
pub open spec fn f_l(t: Seq<u8>, b: int) -> spec_fn(int) -> bool { |x: int| bk(t, x) == b && !is_s(t, x) }
pub open spec fn f_ltl(t: Seq<u8>, b: int) -> spec_fn(int) -> bool { |x: int| bk(t, x) < b || bk(t, x) == b && !is_s(t, x) }
pub open spec fn f_be(t: Seq<u8>, i: int) -> spec_fn(int) -> bool { |x: int| slt(t, x, i) }
/// first rank of bucket b; first rank of its S part
#[verifier::opaque]
pub open spec fn bs(t: Seq<u8>, b: int) -> int { cnt(f_lt(t, b), t.len() as int + 1) }
#[verifier::opaque]
pub open spec fn bsl(t: Seq<u8>, b: int) -> int { cnt(f_ltl(t, b), t.len() as int + 1) }
proof fn lem_below_cnt(t: Seq<u8>, i: int, k: int)
    ensures below(t, i, k) == cnt(f_be(t, i), k)
    decreases k
{ if k > 0 { lem_below_cnt(t, i, k - 1); } }
proof fn lem_bk_lt(t: Seq<u8>, x: int, y: int)
    requires 0 <= x <= t.len(), 0 <= y <= t.len(), bk(t, x) < bk(t, y)
    ensures slt(t, x, y)
{ assert(slt_at(t, x, y, 0)); }
proof fn lem_bk_eq(t: Seq<u8>, x: int, y: int)
    requires 0 <= x <= t.len(), 0 <= y <= t.len(), bk(t, x) == bk(t, y), !is_s(t, x), is_s(t, y)
    ensures slt(t, x, y)
{ lem_l_before_s(t, x, y); }
/// where a suffix is
pub proof fn lem_posn(t: Seq<u8>, x: int)
    requires 0 <= x <= t.len()
    ensures bs(t, bk(t, x)) <= rank(t, x) < bs(t, bk(t, x) + 1), !is_s(t, x) <==> rank(t, x) < bsl(t, bk(t, x)), bs(t, bk(t, x)) <= bsl(t, bk(t, x)) <= bs(t, bk(t, x) + 1)
{
    reveal(bs); reveal(bsl);
    let n = t.len() as int + 1; let b = bk(t, x);
    lem_below_cnt(t, x, n);
    lem_slt_irr(t, x);
    lem_cnt_le(f_lt(t, b), f_ltl(t, b), n); lem_cnt_le(f_ltl(t, b), f_lt(t, b + 1), n);
    assert forall|y: int| 0 <= y < n && #[trigger] f_lt(t, b)(y) implies f_be(t, x)(y) by { lem_bk_lt(t, y, x); }
    lem_cnt_le(f_lt(t, b), f_be(t, x), n);
    assert forall|y: int| 0 <= y < n && #[trigger] f_be(t, x)(y) implies f_lt(t, b + 1)(y) by { if bk(t, y) > b { lem_bk_lt(t, x, y); lem_slt_trans(t, x, y, x); } }
    lem_cnt_lt(f_be(t, x), f_lt(t, b + 1), n, x);
    if is_s(t, x) {
        assert forall|y: int| 0 <= y < n && #[trigger] f_ltl(t, b)(y) implies f_be(t, x)(y) by { if bk(t, y) < b { lem_bk_lt(t, y, x); } else { lem_bk_eq(t, y, x); } }
        lem_cnt_le(f_ltl(t, b), f_be(t, x), n);
    } else {
        assert forall|y: int| 0 <= y < n && #[trigger] f_be(t, x)(y) implies f_ltl(t, b)(y) by {
            if bk(t, y) > b { lem_bk_lt(t, x, y); lem_slt_trans(t, x, y, x); } else if bk(t, y) == b && is_s(t, y) { lem_bk_eq(t, x, y); lem_slt_trans(t, x, y, x); } }
        lem_cnt_lt(f_be(t, x), f_ltl(t, b), n, x);
    }
}
pub proof fn lem_bs_mono(t: Seq<u8>, a: int, b: int)
    requires a < b
    ensures 0 <= bs(t, a) <= bsl(t, a) <= bs(t, b), bs(t, b) <= t.len() + 1
{ 
    reveal(bs); reveal(bsl); let n = t.len() as int + 1;
    lem_cnt_le(f_lt(t, a), f_ltl(t, a), n); lem_cnt_le(f_ltl(t, a), f_lt(t, b), n); lem_cnt_all(f_lt(t, b), n);
}
/// what is there
pub proof fn lem_at_rank(t: Seq<u8>, r: int, b: int)
    requires bs(t, b) <= r < bs(t, b + 1)
    ensures 0 <= r <= t.len(), 0 <= od(t, r) <= t.len(), bk(t, od(t, r)) == b, rank(t, od(t, r)) == r, !is_s(t, od(t, r)) <==> r < bsl(t, b)
{
    lem_bs_mono(t, b, b + 1); lem_od(t, r);
    let x = od(t, r); let c = bk(t, x);
    lem_posn(t, x);
    if c < b { lem_bs_mono(t, c, c + 1); if c + 1 < b { lem_bs_mono(t, c + 1, b); } }
    if c > b { if b + 1 < c { lem_bs_mono(t, b + 1, c); } }
}
// ---- from the counters
pub open spec fn f_hit(t: Seq<u8>, k: int, c: int) -> spec_fn(int) -> bool { |j: int| j < t.len() && hit(t, k, c, j) }
proof fn lem_num_cnt(t: Seq<u8>, k: int, c: int, i: int)
    requires 0 <= i <= t.len()
    ensures num(t, k, c, i) + cnt(f_hit(t, k, c), i) == cnt(f_hit(t, k, c), t.len() as int)
    decreases t.len() - i
{ if i < t.len() { lem_num_cnt(t, k, c, i + 1); } }
pub proof fn lem_num_all(t: Seq<u8>, k: int, c: int)
    ensures num(t, k, c, 0) == cnt(f_hit(t, k, c), t.len() as int + 1), num(t, k, c, 0) == cnt(f_hit(t, k, c), t.len() as int)
{ lem_num_cnt(t, k, c, 0); }
pub proof fn lem_bs_step(t: Seq<u8>, b: int)
    requires 1 <= b <= 256
    ensures bs(t, b + 1) == bs(t, b) + num(t, 0, b - 1, 0), bsl(t, b) == bs(t, b) + num(t, 1, b - 1, 0)
{
    reveal(bs); reveal(bsl); let n = t.len() as int + 1;
    lem_num_all(t, 0, b - 1); lem_num_all(t, 1, b - 1);
    lem_cnt_sum(f_lt(t, b), f_hit(t, 0, b - 1), f_lt(t, b + 1), n);
    lem_cnt_sum(f_lt(t, b), f_hit(t, 1, b - 1), f_ltl(t, b), n);
}
pub proof fn lem_bs_ends(t: Seq<u8>)
    ensures bs(t, 0) == 0, bs(t, 1) == 1, bsl(t, 0) == 0, bs(t, 257) == t.len() + 1, bs(t, 258) == t.len() + 1, bsl(t, 257) == t.len() + 1, rank(t, t.len() as int) == 0, od(t, 0) == t.len()
{
    reveal(bs); reveal(bsl); let n = t.len() as int + 1;
    lem_cnt_none(f_lt(t, 0), n); lem_cnt_none(f_ltl(t, 0), n);
    lem_cnt_none(f_lt(t, 1), n - 1);
    lem_cnt_le(yes(), f_lt(t, 257), n); lem_cnt_le(yes(), f_lt(t, 258), n); lem_cnt_le(yes(), f_ltl(t, 257), n); lem_cnt_yes(n);
    lem_cnt_all(f_lt(t, 257), n); lem_cnt_all(f_lt(t, 258), n); lem_cnt_all(f_ltl(t, 257), n);
    lem_posn(t, n - 1); lem_od_rank(t, n - 1);
}
// ---- the S* suffixes
pub open spec fn f_xs(t: Seq<u8>, xs: Seq<int>, b: int) -> spec_fn(int) -> bool { |i: int| 0 <= i < xs.len() && bk(t, xs[i]) < b }
/// first S* suffix of bucket b
#[verifier::opaque]
pub open spec fn lst(t: Seq<u8>, xs: Seq<int>, b: int) -> int { cnt(f_xs(t, xs, b), xs.len() as int) }
pub proof fn lem_xs_rank(t: Seq<u8>, xs: Seq<int>, i: int, j: int)
    requires lms_sorted(t, xs), 0 <= i < xs.len(), 0 <= j < xs.len()
    ensures i < j <==> rank(t, xs[i]) < rank(t, xs[j]), 0 < xs[i] <= t.len(), 0 < xs[j] <= t.len()
{
    assert(lms(t, xs[i]) && lms(t, xs[j]));
    lem_rank_lt(t, xs[i], xs[j]); lem_rank_lt(t, xs[j], xs[i]);
    if i < j { assert(slt(t, xs[i], xs[j])); } else if j < i { assert(slt(t, xs[j], xs[i])); }
}
pub proof fn lem_lst(t: Seq<u8>, xs: Seq<int>, i: int, b: int)
    requires lms_sorted(t, xs), 0 <= i < xs.len()
    ensures bk(t, xs[i]) < b <==> i < lst(t, xs, b)
{
    reveal(lst);
    let f = f_xs(t, xs, b);
    assert forall|i: int, j: int| 0 <= i < j < xs.len() && #[trigger] f(j) implies #[trigger] f(i) by {
        lem_xs_rank(t, xs, i, j);
        if bk(t, xs[i]) > bk(t, xs[j]) { lem_bk_lt(t, xs[j], xs[i]); lem_rank_lt(t, xs[j], xs[i]); } }
    lem_cnt_down(f, xs.len() as int, i);
}
pub proof fn lem_lst_mono(t: Seq<u8>, xs: Seq<int>, a: int, b: int)
    requires a <= b
    ensures 0 <= lst(t, xs, a) <= lst(t, xs, b) <= xs.len()
{ reveal(lst); lem_cnt_le(f_xs(t, xs, a), f_xs(t, xs, b), xs.len() as int); lem_cnt_all(f_xs(t, xs, b), xs.len() as int); }
/// every S* position is listed, the end first
pub proof fn lem_listed_at(t: Seq<u8>, xs: Seq<int>, y: int) -> (i: int)
    requires lms_sorted(t, xs), lms(t, y), t.len() >= 1
    ensures 0 <= i < xs.len(), xs[i] == y
{
    let n = t.len() as int; let f = |j: int| lms(t, j);
    lem_num_all(t, 3, 0);
    lem_cnt_le(f, f_hit(t, 3, 0), n); lem_cnt_le(f_hit(t, 3, 0), f, n);
    assert(lms(t, n)) by { assert(!is_s(t, n - 1)); }
    assert(cnt(f, n + 1) == cnt(f, n) + 1);
    assert forall|i: int| 0 <= i < xs.len() implies 0 <= #[trigger] xs[i] < n + 1 && f(xs[i]) by { assert(lms(t, xs[i])); }
    assert forall|i: int, j: int| 0 <= i < j < xs.len() implies #[trigger] xs[i] != #[trigger] xs[j] by { lem_xs_rank(t, xs, i, j); }
    lem_cnt_full(f, n + 1, xs, y)
}
pub proof fn lem_lst_ends(t: Seq<u8>, xs: Seq<int>)
    requires lms_sorted(t, xs), t.len() >= 1
    ensures lst(t, xs, 0) == 0, lst(t, xs, 1) == 1, lst(t, xs, 257) == xs.len(), lst(t, xs, 258) == xs.len(), xs.len() >= 1, xs[0] == t.len(), forall|i: int| 1 <= i < xs.len() ==> 0 < #[trigger] xs[i] < t.len()
{
    let n = t.len() as int; let m = xs.len() as int;
    assert(lms(t, n)) by { assert(!is_s(t, n - 1)); }
    let i = lem_listed_at(t, xs, n);
    lem_xs_rank(t, xs, 0, i); lem_bs_ends(t);
    lem_rank(t, xs[0]);
    assert(i == 0);
    assert forall|i: int| 1 <= i < xs.len() implies 0 < #[trigger] xs[i] < t.len() by { lem_xs_rank(t, xs, 0, i); lem_rank_lt(t, n, xs[i]); }
    lem_lst_mono(t, xs, 0, 258); lem_lst_mono(t, xs, 1, 258); lem_lst_mono(t, xs, 257, 258);
    lem_lst(t, xs, 0, 0); lem_lst(t, xs, 0, 1); if m > 1 { lem_lst(t, xs, 1, 1); assert(0 < xs[1] < n); }
    lem_lst(t, xs, m - 1, 257); lem_lst(t, xs, m - 1, 258);
}
/// where S* suffix number i stays until its turn comes; never beyond its rank
pub open spec fn stp(t: Seq<u8>, xs: Seq<int>, i: int) -> int { bsl(t, bk(t, xs[i])) + i - lst(t, xs, bk(t, xs[i])) }
pub proof fn lem_stp(t: Seq<u8>, xs: Seq<int>, i: int)
    requires lms_sorted(t, xs), 0 <= i < xs.len()
    ensures bsl(t, bk(t, xs[i])) <= stp(t, xs, i) <= rank(t, xs[i]) < bs(t, bk(t, xs[i]) + 1), lst(t, xs, bk(t, xs[i])) <= i < lst(t, xs, bk(t, xs[i]) + 1)
    decreases i
{
    let x = xs[i]; let b = bk(t, x);
    assert(lms(t, x));
    lem_posn(t, x); lem_lst(t, xs, i, b); lem_lst(t, xs, i, b + 1); 
    if i > lst(t, xs, b) { lem_lst_mono(t, xs, b, b); lem_lst(t, xs, i - 1, b); lem_lst(t, xs, i - 1, b + 1); lem_stp(t, xs, i - 1); lem_xs_rank(t, xs, i - 1, i); assert(bk(t, xs[i - 1]) == b); }
}
