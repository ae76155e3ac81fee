// uses: bits


/// a 40-bit signed integer kept as (low 32 bits, high 8 bits)
pub open spec fn in40(v: int) -> bool { -0x8000000000 <= v < 0x8000000000 }
pub open spec fn sp40_ok(m: MemV, L: PtrV, U: PtrV, i: int) -> bool {
    &&& m.h.contains_key(L.o) && m.h[L.o] is U32 && 0 <= L.i + i < u32s(m, L.o).len()
    &&& m.h.contains_key(U.o) && m.h[U.o] is U8 && 0 <= U.i + i < u8s(m, U.o).len()
}
pub open spec fn sp40(m: MemV, L: PtrV, U: PtrV, i: int) -> int {
    sg8(u8s(m, U.o)[U.i + i] as int) * 0x1_0000_0000 + u32s(m, L.o)[L.i + i]
}
/// exactly one cell of each stream changes
#[verifier::opaque]
pub open spec fn sp40_set(m: MemV, L: PtrV, U: PtrV, i: int, v: int) -> MemV {
    let a = put(m, U.o, Obj::U8(u8s(m, U.o).update(U.i + i, ((v / 0x1_0000_0000) % 0x100) as u8)));
    put(a, L.o, Obj::U32(u32s(a, L.o).update(L.i + i, (v % 0x1_0000_0000) as u32)))
}
/// the property: the stored value is read back, no other index changes, nothing else changes
pub proof fn lem_sp40(m: MemV, L: PtrV, U: PtrV, i: int, v: int)
    requires sp40_ok(m, L, U, i), in40(v)
    ensures ({
        let n = sp40_set(m, L, U, i, v);
        &&& sp40_ok(n, L, U, i) && sp40(n, L, U, i) == v
        &&& forall|j: int| #[trigger] sp40_ok(m, L, U, j) ==> sp40_ok(n, L, U, j) && (j != i ==> sp40(n, L, U, j) == sp40(m, L, U, j))
        &&& forall|o: int| o != L.o && o != U.o ==> (#[trigger] n.h[o] == m.h[o] && n.h.contains_key(o) == m.h.contains_key(o))
    })
{
    reveal(sp40_set);
}

/// a 48-bit signed integer kept as (low 32 bits, high 16 bits)
pub open spec fn in48(v: int) -> bool { -0x800000000000 <= v < 0x800000000000 }
pub open spec fn sp48_ok(m: MemV, L: PtrV, U: PtrV, i: int) -> bool {
    &&& m.h.contains_key(L.o) && m.h[L.o] is U32 && 0 <= L.i + i < u32s(m, L.o).len()
    &&& m.h.contains_key(U.o) && m.h[U.o] is U16 && 0 <= U.i + i < u16s(m, U.o).len()
}
pub open spec fn sp48(m: MemV, L: PtrV, U: PtrV, i: int) -> int {
    sg16(u16s(m, U.o)[U.i + i] as int) * 0x1_0000_0000 + u32s(m, L.o)[L.i + i]
}
/// exactly one cell of each stream changes
#[verifier::opaque]
pub open spec fn sp48_set(m: MemV, L: PtrV, U: PtrV, i: int, v: int) -> MemV {
    let a = put(m, U.o, Obj::U16(u16s(m, U.o).update(U.i + i, ((v / 0x1_0000_0000) % 0x10000) as u16)));
    put(a, L.o, Obj::U32(u32s(a, L.o).update(L.i + i, (v % 0x1_0000_0000) as u32)))
}
/// the property: the stored value is read back, no other index changes, nothing else changes
pub proof fn lem_sp48(m: MemV, L: PtrV, U: PtrV, i: int, v: int)
    requires sp48_ok(m, L, U, i), in48(v)
    ensures ({
        let n = sp48_set(m, L, U, i, v);
        &&& sp48_ok(n, L, U, i) && sp48(n, L, U, i) == v
        &&& forall|j: int| #[trigger] sp48_ok(m, L, U, j) ==> sp48_ok(n, L, U, j) && (j != i ==> sp48(n, L, U, j) == sp48(m, L, U, j))
        &&& forall|o: int| o != L.o && o != U.o ==> (#[trigger] n.h[o] == m.h[o] && n.h.contains_key(o) == m.h.contains_key(o))
    })
{
    reveal(sp48_set);
}

pub open spec fn in56(v: int) -> bool { -0x80000000000000 <= v < 0x80000000000000 }
pub open spec fn sp56_ok(m: MemV, L: PtrV, M: PtrV, U: PtrV, i: int) -> bool {
    &&& m.h.contains_key(L.o) && m.h[L.o] is U32 && 0 <= L.i + i < u32s(m, L.o).len()
    &&& m.h.contains_key(M.o) && m.h[M.o] is U16 && 0 <= M.i + i < u16s(m, M.o).len()
    &&& m.h.contains_key(U.o) && m.h[U.o] is U8 && 0 <= U.i + i < u8s(m, U.o).len()
}
pub open spec fn sp56(m: MemV, L: PtrV, M: PtrV, U: PtrV, i: int) -> int {
    sg8(u8s(m, U.o)[U.i + i] as int) * 0x1_0000_0000_0000 + u16s(m, M.o)[M.i + i] * 0x1_0000_0000 + u32s(m, L.o)[L.i + i]
}
#[verifier::opaque]
pub open spec fn sp56_set(m: MemV, L: PtrV, M: PtrV, U: PtrV, i: int, v: int) -> MemV {
    let a = put(m, U.o, Obj::U8(u8s(m, U.o).update(U.i + i, ((v / 0x1_0000_0000_0000) % 0x100) as u8)));
    let b = put(a, M.o, Obj::U16(u16s(a, M.o).update(M.i + i, ((v / 0x1_0000_0000) % 0x1_0000) as u16)));
    put(b, L.o, Obj::U32(u32s(b, L.o).update(L.i + i, (v % 0x1_0000_0000) as u32)))
}
pub proof fn lem_sp56(m: MemV, L: PtrV, M: PtrV, U: PtrV, i: int, v: int)
    requires sp56_ok(m, L, M, U, i), in56(v)
    ensures ({
        let n = sp56_set(m, L, M, U, i, v);
        &&& sp56_ok(n, L, M, U, i) && sp56(n, L, M, U, i) == v
        &&& forall|j: int| #[trigger] sp56_ok(m, L, M, U, j) ==> sp56_ok(n, L, M, U, j) && (j != i ==> sp56(n, L, M, U, j) == sp56(m, L, M, U, j))
        &&& forall|o: int| o != L.o && o != M.o && o != U.o ==> (#[trigger] n.h[o] == m.h[o] && n.h.contains_key(o) == m.h.contains_key(o))
    })
{
    reveal(sp56_set);
}
