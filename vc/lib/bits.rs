// bit-level facts used by several proofs, each proved by bit blasting and stated for every operand
pub proof fn lem_and_low32()
    ensures forall|x: u64, y: u64| y == 0xffff_ffff ==> #[trigger] (x & y) == x % 0x1_0000_0000
{
    assert forall|x: u64, y: u64| y == 0xffff_ffff implies #[trigger] (x & y) == x % 0x1_0000_0000 by {
        assert(x & 0xffff_ffff == x % 0x1_0000_0000) by (bit_vector);
    }
}
pub proof fn lem_shl32()
    ensures forall|x: u64, s: u64| s == 32 ==> #[trigger] (x << s) as int == (x as int % 0x1_0000_0000) * 0x1_0000_0000
{
    assert forall|x: u64, s: u64| s == 32 implies #[trigger] (x << s) as int == (x as int % 0x1_0000_0000) * 0x1_0000_0000 by {
        assert((x << 32) == mul((x % 0x1_0000_0000) as u64, 0x1_0000_0000)) by (bit_vector);
    }
}
pub proof fn lem_shl48()
    ensures forall|x: u64, s: u64| s == 48 ==> #[trigger] (x << s) as int == (x as int % 0x1_0000) * 0x1_0000_0000_0000
{
    assert forall|x: u64, s: u64| s == 48 implies #[trigger] (x << s) as int == (x as int % 0x1_0000) * 0x1_0000_0000_0000 by {
        assert((x << 48) == mul((x % 0x1_0000) as u64, 0x1_0000_0000_0000)) by (bit_vector);
    }
}
pub proof fn lem_or_add32()
    ensures forall|x: u64, y: u64| x % 0x1_0000_0000 == 0 && y < 0x1_0000_0000 ==> #[trigger] (x | y) as int == x as int + y as int
{
    assert forall|x: u64, y: u64| x % 0x1_0000_0000 == 0 && y < 0x1_0000_0000 implies #[trigger] (x | y) as int == x as int + y as int by {
        assert((x | y) == add(x, y)) by (bit_vector) requires x % 0x1_0000_0000 == 0, y < 0x1_0000_0000;
    }
}
pub proof fn lem_or_add48()
    ensures forall|x: u64, y: u64| x % 0x1_0000_0000_0000 == 0 && y < 0x1_0000_0000_0000 ==> #[trigger] (x | y) as int == x as int + y as int
{
    assert forall|x: u64, y: u64| x % 0x1_0000_0000_0000 == 0 && y < 0x1_0000_0000_0000 implies #[trigger] (x | y) as int == x as int + y as int by {
        assert((x | y) == add(x, y)) by (bit_vector) requires x % 0x1_0000_0000_0000 == 0, y < 0x1_0000_0000_0000;
    }
}
pub proof fn lem_or_comm()
    ensures forall|x: u64, y: u64| #[trigger] (x | y) == (y | x)
{
    assert forall|x: u64, y: u64| #[trigger] (x | y) == (y | x) by { assert((x | y) == (y | x)) by (bit_vector); }
}
pub proof fn lem_pow2()
    ensures pow2(8) == 0x100, pow2(16) == 0x1_0000, pow2(24) == 0x100_0000, pow2(32) == 0x1_0000_0000, pow2(40) == 0x100_0000_0000,
        pow2(48) == 0x1_0000_0000_0000, pow2(56) == 0x100_0000_0000_0000,
{ lemma2_to64(); lemma2_to64_rest(); }
