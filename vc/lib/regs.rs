// uses: packed split isa
// Arrays of numbers in the five layouts; the packed string.
/// the objects are the same ones, and only those in s may have changed
pub open spec fn only(a: MemV, b: MemV, s: Set<int>) -> bool {
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] b.h.contains_key(o) == a.h.contains_key(o) && (!s.contains(o) && b.h.contains_key(o) ==> b.h[o] == a.h[o])
    &&& b.k =~= a.k
    &&& forall|o: int| #![trigger b.own[o]] #![trigger b.ser[o]] 0 < o < a.nx ==> b.own[o] == a.own[o] && b.ser[o] == a.ser[o]
    &&& forall|o: int| #![trigger b.gs[o]] 0 < o < a.nx ==> b.gs[o] == a.gs[o]
    &&& forall|o: int| #![trigger b.gc[o]] 0 < o < a.nx ==> b.gc[o] == a.gc[o]
    &&& a.nx <= b.nx && a.io == b.io
}
/// the shortened string as the sorters see it
pub open spec fn pstr(m: MemV, p: PtrV, cs: int, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| pget(u64s(m, p.o), cs, i + 1) as int) }
pub open spec fn sv32(m: MemV, s: PtrV, i: int) -> int { sg32(u32s(m, s.o)[s.i + i] as int) }
pub open spec fn sv64(m: MemV, s: PtrV, i: int) -> int { sg64(u64s(m, s.o)[s.i + i] as int) }
pub open spec fn str_ok(m: MemV, p: PtrV, cs: int, n: int, k: int, w: int) -> bool {
    &&& p.i == 0 && m.h.contains_key(p.o) && m.h[p.o] is U64 && 1 <= cs < w && 1 <= n < pow2((w - 1) as nat) - 1 && 1 <= k <= n + 1
    &&& cs * (n + 1) <= 64 * u64s(m, p.o).len() && cs * (n + 1) < 0x8000_0000_0000_0000
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] pstr(m, p, cs, n)[i] < k
}
// ---- arrays of positions in the five layouts
pub open spec fn vok(w: int, m: MemV, s: Seq<PtrV>, n: int) -> bool {
    if w == 32 { s.len() == 1 && live(m, s[0], 2) && m.h[s[0].o] is U32 && n <= u32s(m, s[0].o).len() }
    else if w == 64 { s.len() == 1 && live(m, s[0], 2) && m.h[s[0].o] is U64 && n <= u64s(m, s[0].o).len() }
    else if w == 40 { s.len() == 2 && live(m, s[0], 2) && m.h[s[0].o] is U32 && n <= u32s(m, s[0].o).len() && live(m, s[1], 2) && m.h[s[1].o] is U8 && n <= u8s(m, s[1].o).len() }
    else if w == 48 { s.len() == 2 && live(m, s[0], 2) && m.h[s[0].o] is U32 && n <= u32s(m, s[0].o).len() && live(m, s[1], 2) && m.h[s[1].o] is U16 && n <= u16s(m, s[1].o).len() }
    else { s.len() == 3 && live(m, s[0], 2) && m.h[s[0].o] is U32 && n <= u32s(m, s[0].o).len() && live(m, s[1], 2) && m.h[s[1].o] is U16 && n <= u16s(m, s[1].o).len() && live(m, s[2], 2) && m.h[s[2].o] is U8 && n <= u8s(m, s[2].o).len() }
}
/// element i
pub open spec fn vw(w: int, m: MemV, s: Seq<PtrV>, i: int) -> int {
    if w == 32 { sv32(m, s[0], i) } else if w == 64 { sv64(m, s[0], i) } else if w == 40 { sp40(m, s[0], s[1], i) } else if w == 48 { sp48(m, s[0], s[1], i) } else { sp56(m, s[0], s[1], s[2], i) }
}
pub open spec fn vobjs(w: int, s: Seq<PtrV>) -> Set<int> { if w == 32 || w == 64 { set![s[0].o] } else if w == 56 { set![s[0].o, s[1].o, s[2].o] } else { set![s[0].o, s[1].o] } }
pub open spec fn vseq(w: int, m: MemV, s: Seq<PtrV>, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| vw(w, m, s, i)) }
pub open spec fn fits_in(w: int, v: int) -> bool { if w == 32 { -0x8000_0000 <= v < 0x8000_0000 } else if w == 64 { -0x8000_0000_0000_0000 <= v < 0x8000_0000_0000_0000 } else if w == 40 { in40(v) } else if w == 48 { in48(v) } else { in56(v) } }
pub open spec fn vset(w: int, m: MemV, s: Seq<PtrV>, i: int, v: int) -> MemV {
    if w == 32 { put(m, s[0].o, Obj::U32(u32s(m, s[0].o).update(s[0].i + i, un32(v) as u32))) } else if w == 64 { put(m, s[0].o, Obj::U64(u64s(m, s[0].o).update(s[0].i + i, un64(v) as u64))) }
    else if w == 40 { sp40_set(m, s[0], s[1], i, v) } else if w == 48 { sp48_set(m, s[0], s[1], i, v) } else { sp56_set(m, s[0], s[1], s[2], i, v) }
}
pub proof fn lem_vset(w: int, a: MemV, b: MemV, s: Seq<PtrV>, n: int, i: int, v: int)
    requires w == 32 || w == 40 || w == 48 || w == 56 || w == 64, vok(w, a, s, n), 0 <= i < n, b == vset(w, a, s, i, v), fits_in(w, v)
    ensures vok(w, b, s, n), only(a, b, vobjs(w, s)), vw(w, b, s, i) == v, forall|j: int| 0 <= j < n && j != i ==> #[trigger] vw(w, b, s, j) == vw(w, a, s, j)
{
    reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); 
    if w == 40 { lem_sp40(a, s[0], s[1], i, v); assert forall|j: int| 0 <= j < n && j != i implies #[trigger] vw(w, b, s, j) == vw(w, a, s, j) by { assert(sp40_ok(a, s[0], s[1], j)); } }
    else if w == 48 { lem_sp48(a, s[0], s[1], i, v); assert forall|j: int| 0 <= j < n && j != i implies #[trigger] vw(w, b, s, j) == vw(w, a, s, j) by { assert(sp48_ok(a, s[0], s[1], j)); } }
    else if w == 56 { lem_sp56(a, s[0], s[1], s[2], i, v); assert forall|j: int| 0 <= j < n && j != i implies #[trigger] vw(w, b, s, j) == vw(w, a, s, j) by { assert(sp56_ok(a, s[0], s[1], s[2], j)); } }
    assert(b.k =~= a.k);
}
pub proof fn lem_only_trans(a: MemV, b: MemV, c: MemV, s: Set<int>)
    requires only(a, b, s), only(b, c, s)
    ensures only(a, c, s)
{ }
