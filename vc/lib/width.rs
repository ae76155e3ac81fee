// uses: bytes
// Bit lengths.
pub proof fn lem_bitlen(x: nat, k: nat)
    ensures x < pow2(k) <==> bitlen(x) <= k, bitlen(x) >= 0, x > 0 ==> bitlen(x) >= 1
    decreases k
{
    lemma2_to64();
    if k == 0 { if x > 0 { lem_bitlen_pos(x); } }
    else {
        lem_bitlen((x / 2) as nat, (k - 1) as nat);
        lemma_pow2_unfold(k);
        if x == 0 { lemma_pow2_pos(k); }
    }
}
proof fn lem_bitlen_pos(x: nat)
    ensures bitlen(x) >= 0, x > 0 ==> bitlen(x) >= 1
    decreases x
{ if x > 0 { lem_bitlen_pos((x / 2) as nat); } }
/// for every positive 64-bit number: between 1 and 64 bits, and the least number of bits that holds it
pub proof fn lem_bitlen64(x: nat)
    requires 0 < x < 0x1_0000_0000_0000_0000
    ensures 1 <= bitlen(x) <= 64, x < pow2(bitlen(x) as nat), x >= pow2((bitlen(x) - 1) as nat)
{
    lemma2_to64(); lemma2_to64_rest();
    lem_bitlen(x, 64);
    lem_bitlen(x, bitlen(x) as nat);
    lem_bitlen(x, (bitlen(x) - 1) as nat);
}
/// bytes that hold a number
pub open spec fn bytes_of(bits: int) -> int { bits / 8 + (if bits % 8 != 0 { 1int } else { 0 }) }
pub proof fn lem_bytes_of(x: nat)
    requires 0 < x < 0x1_0000_0000_0000_0000
    ensures 1 <= bytes_of(bitlen(x)) <= 8, x < p8(bytes_of(bitlen(x))), bytes_of(bitlen(x)) == bl(x as int)
{
    lem_bitlen64(x);
    lemma2_to64(); lemma2_to64_rest();
    reveal(p8); reveal(bl);
    lem_bitlen(x, 8); lem_bitlen(x, 16); lem_bitlen(x, 24); lem_bitlen(x, 32); lem_bitlen(x, 40); lem_bitlen(x, 48); lem_bitlen(x, 56);
    assert(pow2(8) == 0x100 && pow2(16) == 0x1_0000 && pow2(24) == 0x100_0000 && pow2(32) == 0x1_0000_0000 && pow2(40) == 0x100_0000_0000 && pow2(48) == 0x1_0000_0000_0000 && pow2(56) == 0x100_0000_0000_0000);
}
