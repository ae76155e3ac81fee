// uses: isa
// The order in which induced sorting puts the positions of an integer string, for any given order of the LMS positions.
/// S type: the suffix is smaller than its successor; the end is S, the last position L
pub open spec fn ss(s: Seq<int>, i: int) -> bool decreases s.len() - i {
    if i >= s.len() { true } else if i == s.len() - 1 { false } else { s[i] < s[i + 1] || s[i] == s[i + 1] && ss(s, i + 1) }
}
pub open spec fn lm(s: Seq<int>, i: int) -> bool { 0 < i <= s.len() && ss(s, i) && !ss(s, i - 1) }
pub ghost struct Ig { pub s: Seq<int>, pub key: Seq<int> }
pub open spec fn lmk(g: Ig, i: int) -> bool { lm(g.s, i) }
/// keys of the LMS positions: different, in the order of the characters, the end first
pub open spec fn ig_ok(g: Ig) -> bool {
    &&& g.s.len() >= 1 && g.key.len() == g.s.len() + 1 && g.key[g.s.len() as int] == -1
    &&& forall|i: int| #![trigger lmk(g, i)] 0 <= i < g.s.len() && lmk(g, i) ==> g.key[i] >= 0
    &&& forall|i: int, j: int| #![trigger lmk(g, i), lmk(g, j)] 0 <= i < g.s.len() && 0 <= j < g.s.len() && lmk(g, i) && lmk(g, j) && g.s[i] < g.s[j] ==> g.key[i] < g.key[j]
    &&& forall|i: int, j: int| #![trigger lmk(g, i), lmk(g, j)] 0 <= i < g.s.len() && 0 <= j < g.s.len() && lmk(g, i) && lmk(g, j) && i != j ==> g.key[i] != g.key[j]
}
pub open spec fn lt(g: Ig, i: int, j: int) -> bool decreases g.s.len() - i {
    if i >= g.s.len() { j < g.s.len() } else if j >= g.s.len() { false }
    else if g.s[i] != g.s[j] { g.s[i] < g.s[j] } else if ss(g.s, i) != ss(g.s, j) { ss(g.s, j) }
    else if lmk(g, i + 1) && lmk(g, j + 1) { g.key[i + 1] < g.key[j + 1] } else { lt(g, i + 1, j + 1) }
}
/// comparison of two successors
pub open spec fn et(g: Ig, a: int, b: int) -> bool { if lmk(g, a) && lmk(g, b) { g.key[a] < g.key[b] } else { lt(g, a, b) } }
pub proof fn lem_olt_irr(g: Ig, i: int)
    requires 0 <= i <= g.s.len()
    ensures !lt(g, i, i)
    decreases g.s.len() - i
{ if i < g.s.len() { lem_olt_irr(g, i + 1); } }
pub proof fn lem_olt_total(g: Ig, i: int, j: int)
    requires ig_ok(g), 0 <= i <= g.s.len(), 0 <= j <= g.s.len(), i != j
    ensures lt(g, i, j) || lt(g, j, i)
    decreases g.s.len() - i
{
    let n = g.s.len() as int;
    if i < n && j < n { lem_olt_total(g, i + 1, j + 1); assert(lmk(g, i + 1) == lm(g.s, i + 1)); if lmk(g, i + 1) && lmk(g, j + 1) { if i + 1 < n && j + 1 < n { assert(g.key[i + 1] != g.key[j + 1]); } } }
}
/// what the comparison of two positions says about their characters
proof fn lem_lt_char(g: Ig, a: int, b: int)
    requires ig_ok(g), 0 <= a <= g.s.len(), 0 <= b <= g.s.len(), et(g, a, b) || lt(g, a, b)
    ensures b < g.s.len(), a < g.s.len() ==> g.s[a] <= g.s[b]
{
    let n = g.s.len() as int;
    if lmk(g, a) && lmk(g, b) && !lt(g, a, b) { if b < n && a < n { if g.s[b] < g.s[a] { assert(g.key[b] < g.key[a]); } } else if b >= n && a < n { assert(g.key[a] >= 0); } }
}
pub proof fn lem_olt_trans(g: Ig, x: int, y: int, z: int)
    requires ig_ok(g), 0 <= x <= g.s.len(), 0 <= y <= g.s.len(), 0 <= z <= g.s.len(), lt(g, x, y), lt(g, y, z)
    ensures lt(g, x, z)
    decreases g.s.len() - x
{
    let n = g.s.len() as int;
    if x < n && y < n && z < n && g.s[x] == g.s[y] && g.s[y] == g.s[z] && ss(g.s, x) == ss(g.s, y) && ss(g.s, y) == ss(g.s, z) {
        let a = x + 1; let b = y + 1; let c = z + 1;
        assert(et(g, a, b) && et(g, b, c));
        lem_lt_char(g, a, b); lem_lt_char(g, b, c);
        if ss(g.s, x) { assert(!lmk(g, a) && !lmk(g, b) && !lmk(g, c)); lem_olt_trans(g, a, b, c); }
        else {
            // each of a, b, c is an LMS position or of type L
            assert(lmk(g, a) == ss(g.s, a)); assert(lmk(g, b) == ss(g.s, b)); assert(lmk(g, c) == ss(g.s, c));
            if !(lmk(g, a) && lmk(g, b)) && !(lmk(g, b) && lmk(g, c)) { lem_olt_trans(g, a, b, c); if lmk(g, a) && lmk(g, c) { if a < n { assert(g.s[a] < g.s[c]); assert(g.key[a] < g.key[c]); } else { assert(g.key[c] >= 0); } } }
            assert(et(g, a, c));
        }
        assert(lt(g, x, z));
    }
}
// ---- ranks
pub open spec fn f_bl(g: Ig, i: int) -> spec_fn(int) -> bool { |j: int| lt(g, j, i) }
#[verifier::opaque]
pub open spec fn rk(g: Ig, i: int) -> int { cnt(f_bl(g, i), g.s.len() as int) }
pub proof fn lem_rk(g: Ig, i: int)
    requires ig_ok(g), 0 <= i < g.s.len()
    ensures 0 <= rk(g, i) < g.s.len()
{
    reveal(rk); let n = g.s.len() as int;
    lem_olt_irr(g, i); lem_cnt_lt(f_bl(g, i), yes(), n, i); lem_cnt_yes(n);
}
proof fn lem_rk_one(g: Ig, i: int, j: int)
    requires ig_ok(g), 0 <= i < g.s.len(), 0 <= j < g.s.len(), lt(g, i, j)
    ensures rk(g, i) < rk(g, j)
{
    reveal(rk); let n = g.s.len() as int; lem_olt_irr(g, i);
    assert forall|x: int| 0 <= x < n && #[trigger] f_bl(g, i)(x) implies f_bl(g, j)(x) by { lem_olt_trans(g, x, i, j); }
    lem_cnt_lt(f_bl(g, i), f_bl(g, j), n, i);
}
pub proof fn lem_rk_lt(g: Ig, i: int, j: int)
    requires ig_ok(g), 0 <= i < g.s.len(), 0 <= j < g.s.len()
    ensures lt(g, i, j) <==> rk(g, i) < rk(g, j), rk(g, i) == rk(g, j) <==> i == j
{
    if i != j { lem_olt_total(g, i, j); if lt(g, i, j) { lem_rk_one(g, i, j); } if lt(g, j, i) { lem_rk_one(g, j, i); } } else { lem_olt_irr(g, i); }
}
/// the position of a rank
#[verifier::opaque]
pub open spec fn atr(g: Ig, r: int) -> int { choose|x: int| 0 <= x < g.s.len() && #[trigger] rk(g, x) == r }
pub proof fn lem_at(g: Ig, r: int)
    requires ig_ok(g), 0 <= r < g.s.len()
    ensures 0 <= atr(g, r) < g.s.len(), rk(g, atr(g, r)) == r
{
    reveal(atr);
    let n = g.s.len() as int; let q = Seq::new(n as nat, |x: int| rk(g, x));
    assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < n && yes()(q[i]) by { lem_rk(g, i); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] q[i] != #[trigger] q[j] by { lem_rk_lt(g, i, j); }
    lem_cnt_yes(n);
    let x = lem_cnt_full(yes(), n, q, r);
    assert(rk(g, x) == r);
}
pub proof fn lem_at_rk(g: Ig, x: int)
    requires ig_ok(g), 0 <= x < g.s.len()
    ensures atr(g, rk(g, x)) == x
{ lem_rk(g, x); lem_at(g, rk(g, x)); lem_rk_lt(g, x, atr(g, rk(g, x))); }
// ---- buckets
pub open spec fn f_c(s: Seq<int>, c: int) -> spec_fn(int) -> bool { |x: int| s[x] < c }
pub open spec fn f_cl(s: Seq<int>, c: int) -> spec_fn(int) -> bool { |x: int| s[x] < c || s[x] == c && !ss(s, x) }
/// start of the bucket of a character, and of its S part
#[verifier::opaque]
pub open spec fn bks(s: Seq<int>, c: int) -> int { cnt(f_c(s, c), s.len() as int) }
#[verifier::opaque]
pub open spec fn bkl(s: Seq<int>, c: int) -> int { cnt(f_cl(s, c), s.len() as int) }
pub proof fn lem_bk_mono(s: Seq<int>, a: int, b: int)
    requires a < b
    ensures 0 <= bks(s, a) <= bkl(s, a) <= bks(s, b) <= s.len()
{
    reveal(bks); reveal(bkl); let n = s.len() as int;
    lem_cnt_le(f_c(s, a), f_cl(s, a), n); lem_cnt_le(f_cl(s, a), f_c(s, b), n); lem_cnt_all(f_c(s, b), n);
}
pub proof fn lem_rk_in(g: Ig, x: int)
    requires ig_ok(g), 0 <= x < g.s.len()
    ensures bks(g.s, g.s[x]) <= rk(g, x) < bks(g.s, g.s[x] + 1), !ss(g.s, x) <==> rk(g, x) < bkl(g.s, g.s[x]), bks(g.s, g.s[x]) <= bkl(g.s, g.s[x]) <= bks(g.s, g.s[x] + 1), 0 <= rk(g, x) < g.s.len()
{
    let s = g.s; let n = s.len() as int; let b = s[x];
    lem_bk_mono(s, b, b + 1); lem_rk(g, x); lem_olt_irr(g, x);
    reveal(bks); reveal(bkl); reveal(rk);
    assert forall|y: int| 0 <= y < n && #[trigger] f_c(s, b)(y) implies f_bl(g, x)(y) by { }
    lem_cnt_le(f_c(s, b), f_bl(g, x), n);
    assert forall|y: int| 0 <= y < n && #[trigger] f_bl(g, x)(y) implies f_c(s, b + 1)(y) by { }
    lem_cnt_lt(f_bl(g, x), f_c(s, b + 1), n, x);
    if ss(s, x) {
        assert forall|y: int| 0 <= y < n && #[trigger] f_cl(s, b)(y) implies f_bl(g, x)(y) by { }
        lem_cnt_le(f_cl(s, b), f_bl(g, x), n);
    } else {
        assert forall|y: int| 0 <= y < n && #[trigger] f_bl(g, x)(y) implies f_cl(s, b)(y) by { }
        lem_cnt_lt(f_bl(g, x), f_cl(s, b), n, x);
    }
}
/// what a cell of a bucket is for
pub proof fn lem_at_in(g: Ig, r: int, b: int)
    requires ig_ok(g), bks(g.s, b) <= r < bks(g.s, b + 1)
    ensures 0 <= r < g.s.len(), 0 <= atr(g, r) < g.s.len(), g.s[atr(g, r)] == b, rk(g, atr(g, r)) == r, !ss(g.s, atr(g, r)) <==> r < bkl(g.s, b)
{
    lem_bk_mono(g.s, b, b + 1); lem_at(g, r);
    let x = atr(g, r); let c = g.s[x];
    lem_rk_in(g, x);
    if c < b { lem_bk_mono(g.s, c, c + 1); if c + 1 < b { lem_bk_mono(g.s, c + 1, b); } }
    if c > b { if b + 1 < c { lem_bk_mono(g.s, b + 1, c); } }
}
/// equal characters and types: the successors decide
pub proof fn lem_rk_succ(g: Ig, x: int, y: int)
    requires ig_ok(g), 0 <= x < g.s.len(), 0 <= y < g.s.len(), g.s[x] == g.s[y], ss(g.s, x) == ss(g.s, y)
    ensures rk(g, x) < rk(g, y) <==> et(g, x + 1, y + 1)
{ lem_rk_lt(g, x, y); }
