// uses: decomp packed width
// The shortened string: the names of the S* substrings in text order.
/// every stored string has a name between 1 and u
pub open spec fn names_in(m: MemV, h: PtrV, u: int) -> bool { forall|x: Seq<u8>| holds(ht_tb(m, h), x) ==> 1 <= #[trigger] namef(ht_tb(m, h), x) <= u }
/// place of the S* substring that starts at i
pub open spec fn place(t: Seq<u8>, i: int) -> int { 1 + num(t, 3, 0, 0) - num(t, 3, 0, i) }
pub open spec fn entry(m: MemV, r: PtrV, tb: Tb, t: Seq<u8>, i: int) -> bool { pa_get(m, r, place(t, i)) == namef(tb, lsub(t, i)) }
pub open spec fn entries(m: MemV, r: PtrV, tb: Tb, t: Seq<u8>, i: int) -> bool {
    forall|k: int| i <= k < t.len() && lms(t, k) ==> #[trigger] entry(m, r, tb, t, k)
}
pub open spec fn short_of(m: MemV, r: PtrV, tb: Tb, t: Seq<u8>) -> bool {
    &&& live(m, r, 1) && pa_ok(m, r) && pa_len(m, r) == num(t, 3, 0, 0) + 2 && pa_w(m, r) == bitlen((dst(t, 0) + 1) as nat)
    &&& pa_get(m, r, 0) == dst(t, 0) + 1 && pa_get(m, r, num(t, 3, 0, 0) + 1) == 0 && entries(m, r, tb, t, 0)
}
pub open spec fn shortened(a: MemV, b: MemV, r: PtrV, tb: Tb, t: Seq<u8>) -> bool {
    short_of(b, r, tb, t) && r.o >= a.nx && pa_arr(b, r) >= a.nx && grown(a, b, set![r.o, pa_arr(b, r)])
}
pub proof fn lem_num_le(t: Seq<u8>, i: int, k: int)
    requires 0 <= i <= k <= t.len()
    ensures 0 <= num(t, 3, 0, k) <= num(t, 3, 0, i), i < k && lms(t, i) ==> num(t, 3, 0, k) < num(t, 3, 0, i), k < t.len() && lms(t, k) ==> num(t, 3, 0, k) >= 1
    decreases k - i
{ lem_num(t, 3, 0, k); if k < t.len() { lem_num(t, 3, 0, k + 1); } if i < k { lem_num_le(t, i + 1, k); } }
/// the places are those between the first and the last entry, in text order
pub proof fn lem_place(t: Seq<u8>, i: int)
    requires 0 <= i < t.len(), lms(t, i)
    ensures 1 <= place(t, i) <= num(t, 3, 0, 0)
{ lem_num_le(t, 0, i); }
/// an entry is written below all earlier ones
pub proof fn lem_entry(a: MemV, b: MemV, r: PtrV, tb: Tb, t: Seq<u8>, i: int, j: int)
    requires 0 <= i <= t.len(), entries(a, r, tb, t, i), j == num(t, 3, 0, 0) - num(t, 3, 0, i),
        o_PackedArray(a, r.o) == o_PackedArray(b, r.o), pa_len(a, r) == num(t, 3, 0, 0) + 2,
        forall|k: int| 0 <= k < pa_len(a, r) && k != j ==> #[trigger] pa_get(b, r, k) == pa_get(a, r, k),
    ensures entries(b, r, tb, t, i)
{
    assert forall|k: int| i <= k < t.len() && lms(t, k) implies #[trigger] entry(b, r, tb, t, k) by {
        lem_num_le(t, i, k); lem_num_le(t, 0, k); assert(entry(a, r, tb, t, k)); }
}
