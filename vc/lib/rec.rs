// uses: bytes
// A record: [k][length, k bytes][guard byte][string][name].  Offsets relative to the record's position.
pub open spec fn r_len(s: Seq<u8>, q: int) -> int { be(s, q + 1, s[q] as int) }
pub open spec fn r_str(s: Seq<u8>, q: int) -> int { 2 + s[q] }
pub open spec fn r_name(s: Seq<u8>, q: int) -> int { 2 + s[q] + r_len(s, q) }
/// a complete record with nb name bytes lies inside the object
pub open spec fn rec_in(m: MemV, p: PtrV, nb: int) -> bool {
    let s = u8s(m, p.o);
    &&& m.h.contains_key(p.o) && m.h[p.o] is U8 && 0 <= p.i < s.len()
    &&& 1 <= s[p.i] <= 8 && p.i + 1 + s[p.i] <= s.len()
    &&& p.i + r_name(s, p.i) + nb <= s.len() && r_len(s, p.i) < 0x4000_0000_0000_0000
}
