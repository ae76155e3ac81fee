// Big-endian byte fields of the substring table.
#[verifier::opaque]
pub open spec fn p8(k: int) -> int {
    if k <= 0 { 1 } else if k == 1 { 0x100 } else if k == 2 { 0x1_0000 } else if k == 3 { 0x100_0000 } else if k == 4 { 0x1_0000_0000 }
    else if k == 5 { 0x100_0000_0000 } else if k == 6 { 0x1_0000_0000_0000 } else if k == 7 { 0x100_0000_0000_0000 } else { 0x1_0000_0000_0000_0000 }
}
/// least number of bytes of a positive number
#[verifier::opaque]
pub open spec fn bl(x: int) -> int {
    if x < 0x100 { 1 } else if x < 0x1_0000 { 2 } else if x < 0x100_0000 { 3 } else if x < 0x1_0000_0000 { 4 }
    else if x < 0x100_0000_0000 { 5 } else if x < 0x1_0000_0000_0000 { 6 } else if x < 0x100_0000_0000_0000 { 7 } else { 8 }
}
/// number shifted left until c of its 8 bytes remain in use / its lowest i bytes at the top of the register
#[verifier::opaque]
pub open spec fn rg_norm(x: int, c: int) -> int { x * p8(8 - c) }
#[verifier::opaque]
pub open spec fn rg_top(x: int, i: int) -> int { (x % p8(i)) * p8(8 - i) }
#[verifier::opaque]
pub open spec fn p8div(x: int, i: int) -> int { x / p8(i) }
#[verifier::opaque]
pub open spec fn p8mod(x: int, i: int) -> int { x % p8(i) }
pub open spec fn be(s: Seq<u8>, i: int, k: int) -> int decreases k { if k <= 0 { 0 } else { be(s, i, k - 1) * 256 + s[i + k - 1] } }
/// only positions lo..hi may differ
pub open spec fn same_out(s: Seq<u8>, t: Seq<u8>, lo: int, hi: int) -> bool {
    s.len() == t.len() && forall|j: int| 0 <= j < s.len() && (j < lo || j >= hi) ==> #[trigger] t[j] == s[j]
}
pub proof fn lem_be_same(s: Seq<u8>, t: Seq<u8>, i: int, k: int)
    requires forall|j: int| i <= j < i + k ==> #[trigger] s[j] == t[j]
    ensures be(s, i, k) == be(t, i, k)
    decreases k
{ if k > 0 { lem_be_same(s, t, i, k - 1); assert(s[i + k - 1] == t[i + k - 1]); } }
pub proof fn lem_be_bound(s: Seq<u8>, i: int, k: int)
    requires 0 <= k <= 8
    ensures 0 <= be(s, i, k) < p8(k), k < 8 ==> be(s, i, k) < 0x100_0000_0000_0000
    decreases k
{ reveal(p8); if k > 0 { lem_be_bound(s, i, k - 1); } }
pub proof fn lem_be_pre(s: Seq<u8>, i: int, k: int)
    requires 0 <= k < 8
    ensures be(s, i, k + 1) == s[i] * p8(k) + be(s, i + 1, k)
    decreases k
{
    reveal(p8);
    if k > 0 {
        lem_be_pre(s, i, k - 1);
        assert(p8(k) == p8(k - 1) * 256);
        assert(s[i] * p8(k) == (s[i] * p8(k - 1)) * 256) by (nonlinear_arith) requires p8(k) == p8(k - 1) * 256;
    } else { assert(be(s, i, 1) == be(s, i, 0) * 256 + s[i + 1 - 1]); }
}
pub proof fn lem_top8()
    ensures forall|x: u64, y: u64| y == 0xff00_0000_0000_0000 ==> #[trigger] (x & y) == (x / 0x100_0000_0000_0000) * 0x100_0000_0000_0000,
        forall|x: u64, s: u64| s == 56 ==> #[trigger] (x >> s) == x / 0x100_0000_0000_0000,
{
    assert forall|x: u64, y: u64| y == 0xff00_0000_0000_0000 implies #[trigger] (x & y) == (x / 0x100_0000_0000_0000) * 0x100_0000_0000_0000 by {
        assert(x & 0xff00_0000_0000_0000 == mul(x / 0x100_0000_0000_0000, 0x100_0000_0000_0000)) by (bit_vector);
    }
    assert forall|x: u64, s: u64| s == 56 implies #[trigger] (x >> s) == x / 0x100_0000_0000_0000 by { assert(x >> 56u64 == x / 0x100_0000_0000_0000) by (bit_vector); }
}
pub proof fn lem_byte()
    ensures forall|x: u64, s: u64| s == 8 ==> #[trigger] (x << s) as int == (x as int % 0x100_0000_0000_0000) * 0x100,
        forall|x: u64, s: u64| s == 8 ==> #[trigger] (x >> s) == x / 0x100,
        forall|x: u64, y: u64| y == 0xff ==> #[trigger] (x & y) == x % 0x100,
        forall|x: u64, y: u64| x % 0x100 == 0 && y < 0x100 ==> #[trigger] (x | y) as int == x as int + y as int,
        forall|x: u64, y: u64| #[trigger] (x | y) == (y | x),
{
    assert forall|x: u64, s: u64| s == 8 implies #[trigger] (x << s) as int == (x as int % 0x100_0000_0000_0000) * 0x100 by {
        assert((x << 8) == mul((x % 0x100_0000_0000_0000) as u64, 0x100)) by (bit_vector); }
    assert forall|x: u64, s: u64| s == 8 implies #[trigger] (x >> s) == x / 0x100 by { assert(x >> 8u64 == x / 0x100) by (bit_vector); }
    assert forall|x: u64, y: u64| y == 0xff implies #[trigger] (x & y) == x % 0x100 by { assert(x & 0xff == x % 0x100) by (bit_vector); }
    assert forall|x: u64, y: u64| x % 0x100 == 0 && y < 0x100 implies #[trigger] (x | y) as int == x as int + y as int by {
        assert((x | y) == add(x, y)) by (bit_vector) requires x % 0x100 == 0, y < 0x100; }
    assert forall|x: u64, y: u64| #[trigger] (x | y) == (y | x) by { assert((x | y) == (y | x)) by (bit_vector); }
}
pub proof fn lem_dm(x: int, p: int)
    requires 0 <= x, 0 < p
    ensures x / (p * 256) == (x / p) / 256, x % (p * 256) == ((x / p) % 256) * p + x % p, 0 <= x % p < p, 0 <= x / p
{
    vstd::arithmetic::div_mod::lemma_div_denominator(x, p, 256);
    vstd::arithmetic::div_mod::lemma_mod_breakdown(x, p, 256);
    vstd::arithmetic::div_mod::lemma_mod_pos_bound(x, p);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, p);
    assert(p * ((x / p) % 256) == ((x / p) % 256) * p) by (nonlinear_arith);
}
/// taking bytes off the top of a 64-bit register
pub proof fn lem_shift_top(x: int, i: int, l: int)
    requires 0 <= x < 0x1_0000_0000_0000_0000, 1 <= i <= 8, l == rg_top(x, i)
    ensures l / 0x100_0000_0000_0000 == p8div(x, i - 1) % 256, (l % 0x100_0000_0000_0000) * 256 == rg_top(x, i - 1),
        p8div(x, i - 1) == p8div(x, i) * 256 + p8div(x, i - 1) % 256
{
    reveal(p8); reveal(rg_top); reveal(p8div);
    let q = p8(i - 1); let d = (x / q) % 256; let r = x % q; let f = p8(8 - i);
    assert(p8(i) == q * 256 && q * f == 0x100_0000_0000_0000 && p8(9 - i) == f * 256 && f > 0 && q > 0);
    lem_dm(x, q);
    assert(l == d * 0x100_0000_0000_0000 + r * f) by (nonlinear_arith) requires l == (d * q + r) * f, q * f == 0x100_0000_0000_0000;
    assert(0 <= r * f < 0x100_0000_0000_0000) by (nonlinear_arith) requires 0 <= r < q, f > 0, q * f == 0x100_0000_0000_0000;
    assert(r * (f * 256) == (r * f) * 256) by (nonlinear_arith);
}
pub proof fn lem_shift_low(x: int, c: int)
    requires 0 <= x < 0x1_0000_0000_0000_0000, 0 <= c < 8
    ensures p8mod(x, c + 1) == (p8div(x, c) % 256) * p8(c) + p8mod(x, c), p8div(x, c) / 256 == p8div(x, c + 1)
{
    reveal(p8); reveal(p8div); reveal(p8mod);
    assert(p8(c + 1) == p8(c) * 256 && p8(c) > 0);
    lem_dm(x, p8(c));
}
pub proof fn lem_p8_0(x: int)
    requires 0 <= x < 0x1_0000_0000_0000_0000
    ensures p8div(x, 0) == x, p8mod(x, 0) == 0, p8mod(x, 8) == x, rg_norm(x, 8) == x
{ reveal(p8); reveal(p8div); reveal(p8mod); reveal(rg_norm); assert(p8(0) == 1 && p8(8) == 0x1_0000_0000_0000_0000); assert(p8(8 - 8) == 1); }
/// normalising to the top byte
pub proof fn lem_norm(x: int, c: int)
    requires 0 < x < 0x1_0000_0000_0000_0000, 1 <= c <= 8, rg_norm(x, c) < 0x1_0000_0000_0000_0000
    ensures rg_norm(x, c) < 0x100_0000_0000_0000 ==> c > 1 && rg_norm(x, c - 1) == rg_norm(x, c) * 256 && rg_norm(x, c - 1) < 0x1_0000_0000_0000_0000,
        rg_norm(x, c) >= 0x100_0000_0000_0000 ==> bl(x) == c && rg_top(x, c) == rg_norm(x, c),
        p8div(x, bl(x)) == 0, 1 <= bl(x) <= 8, x < p8(bl(x)), p8mod(x, bl(x)) == x,
{
    reveal(p8); reveal(bl); reveal(rg_norm); reveal(rg_top); reveal(p8div); reveal(p8mod);
    if c == 1 { } else if c == 2 { } else if c == 3 { } else if c == 4 { } else if c == 5 { } else if c == 6 { } else if c == 7 { } else { }
}
/// a name that fits its field survives; the announced number of bytes is the least that holds the length
pub proof fn lem_name_fits(x: int, k: int)
    requires 0 <= x < p8(k), 0 <= k <= 8
    ensures p8mod(x, k) == x
{ reveal(p8); reveal(p8mod); }
pub proof fn lem_bl_minimal(x: int, k: int)
    requires 0 < x < 0x1_0000_0000_0000_0000, 1 <= k <= 8
    ensures x < p8(k) <==> bl(x) <= k
{ reveal(p8); reveal(bl); }
