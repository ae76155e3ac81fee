// uses: table
// The Burrows-Wheeler transform, defined from the order of the suffixes.
/// suffix i precedes suffix j; the end of the string precedes every byte
pub open spec fn slt(t: Seq<u8>, i: int, j: int) -> bool { exists|k: int| #[trigger] slt_at(t, i, j, k) }
pub open spec fn slt_at(t: Seq<u8>, i: int, j: int, k: int) -> bool {
    &&& 0 <= k && i + k <= t.len() && j + k < t.len() && (forall|l: int| 0 <= l < k ==> t[i + l] == #[trigger] t[j + l])
    &&& i + k == t.len() || t[i + k] < t[j + k]
}
/// how many of the suffixes 0..k precede suffix i
pub open spec fn below(t: Seq<u8>, i: int, k: int) -> int decreases k { if k <= 0 { 0 } else { below(t, i, k - 1) + (if slt(t, k - 1, i) { 1int } else { 0 }) } }
pub open spec fn rank(t: Seq<u8>, i: int) -> int { below(t, i, t.len() as int + 1) }
/// b is the transform of t and last the rank of the whole string
pub open spec fn is_bwt(t: Seq<u8>, last: int, b: Seq<u8>) -> bool {
    &&& b.len() == t.len() + 1 && last == rank(t, 0)
    &&& forall|i: int| 1 <= i <= t.len() ==> b[#[trigger] rank(t, i)] == t[i - 1]
}
pub proof fn lem_below(t: Seq<u8>, i: int, k: int)
    requires 0 <= i, 0 <= k
    ensures 0 <= below(t, i, k) <= k, i < k ==> below(t, i, k) <= k - 1
    decreases k
{ if k > 0 { lem_below(t, i, k - 1); if i == k - 1 { assert(!slt(t, i, i)); } } }
/// the rank of a suffix is a position of the transform
pub proof fn lem_rank(t: Seq<u8>, i: int)
    requires 0 <= i <= t.len()
    ensures 0 <= rank(t, i) <= t.len()
{ lem_below(t, i, t.len() as int + 1); }

/// the output file
pub open spec fn be8(x: int) -> Seq<u8> { Seq::new(8, |j: int| (p8div(x, 7 - j) % 256) as u8) }
pub open spec fn bwt_out(last: int, b: Seq<u8>) -> Seq<u8> { be8(last) + b.subrange(0, last) + b.subrange(last + 1, b.len() as int) }
pub open spec fn is_out(t: Seq<u8>, out: Seq<u8>) -> bool { exists|last: int, b: Seq<u8>| is_bwt(t, last, b) && out == #[trigger] bwt_out(last, b) }
/// result object of the in-memory transform
pub open spec fn res_ok(m: MemV, r: PtrV, t: Seq<u8>) -> bool {
    let s = o_BWT_result(m, r.o);
    &&& live(m, r, 0) && is_BWT_result(m, r) && live(m, s.BWT, 2) && m.h[s.BWT.o] is U8 && s.BWT.o != r.o
    &&& is_bwt(t, s.last as int, u8s(m, s.BWT.o))
}
pub open spec fn text_at(m: MemV, p: PtrV, n: int) -> bool { str_in(m, p, n + 1) && u8s(m, p.o)[p.i + n] == 0 }
/// effect of the in-memory transform: a result, the buffer released if asked for, nothing else
pub open spec fn transformed(a: MemV, b: MemV, r: PtrV, p: PtrV, n: int, fr: bool) -> bool {
    let w = o_BWT_result(b, r.o).BWT;
    &&& res_ok(b, r, str_at(a, p, n)) && r.o >= a.nx && w.o >= a.nx
    &&& b.h =~= (if fr { a.h.remove(p.o) } else { a.h }).insert(r.o, b.h[r.o]).insert(w.o, b.h[w.o])
    &&& b.k =~= (if fr { a.k.remove(p.o) } else { a.k }).insert(r.o, 0).insert(w.o, 2)
    &&& a.nx <= b.nx && b.io == a.io
}
/// bytes of a 64-bit number taken out by mask and shift
pub proof fn lem_be8(x: u64)
    ensures ((x & 0xff00_0000_0000_0000) >> 56) == be8(x as int)[0], ((x & 0x00ff_0000_0000_0000) >> 48) == be8(x as int)[1], ((x & 0x0000_ff00_0000_0000) >> 40) == be8(x as int)[2], ((x & 0xff_0000_0000) >> 32) == be8(x as int)[3], ((x & 0xff00_0000) >> 24) == be8(x as int)[4], ((x & 0xff_0000) >> 16) == be8(x as int)[5], ((x & 0xff00) >> 8) == be8(x as int)[6], (x & 0xff) == be8(x as int)[7],
        forall|x: u64, y: u64| #[trigger] (x & y) == (y & x),
{
    assert forall|x: u64, y: u64| #[trigger] (x & y) == (y & x) by { assert((x & y) == (y & x)) by (bit_vector); }
    reveal(p8); reveal(p8div);
    assert(((x & 0xff00_0000_0000_0000) >> 56) == x / 0x100_0000_0000_0000 % 256) by (bit_vector);
    assert(((x & 0x00ff_0000_0000_0000) >> 48) == x / 0x1_0000_0000_0000 % 256) by (bit_vector);
    assert(((x & 0x0000_ff00_0000_0000) >> 40) == x / 0x100_0000_0000 % 256) by (bit_vector);
    assert(((x & 0xff_0000_0000) >> 32) == x / 0x1_0000_0000 % 256) by (bit_vector);
    assert(((x & 0xff00_0000) >> 24) == x / 0x100_0000 % 256) by (bit_vector);
    assert(((x & 0xff_0000) >> 16) == x / 0x1_0000 % 256) by (bit_vector);
    assert(((x & 0xff00) >> 8) == x / 0x100 % 256) by (bit_vector);
    assert((x & 0xff) == x % 256) by (bit_vector);
}
