// uses: table cont bwt
// Decomposition of a string into S* substrings.
/// suffix i is smaller than its successor (the end of the string counts as an S suffix, the last character as L)
pub open spec fn is_s(t: Seq<u8>, i: int) -> bool decreases t.len() - i {
    if i >= t.len() { true } else if i == t.len() - 1 { false } else { t[i] < t[i + 1] || (t[i] == t[i + 1] && is_s(t, i + 1)) }
}
/// the recursive definition is the comparison of a suffix with its successor
pub proof fn lem_is_s(t: Seq<u8>, i: int)
    requires 0 <= i < t.len()
    ensures is_s(t, i) == slt(t, i, i + 1)
    decreases t.len() - i
{
    if i == t.len() - 1 {
        if slt(t, i, i + 1) { let k = choose|k: int| #[trigger] slt_at(t, i, i + 1, k); assert(slt_at(t, i, i + 1, k)); }
    } else {
        lem_is_s(t, i + 1);
        if t[i] < t[i + 1] { assert(slt_at(t, i, i + 1, 0)); }
        else if t[i] > t[i + 1] { if slt(t, i, i + 1) { let k = choose|k: int| #[trigger] slt_at(t, i, i + 1, k); if k > 0 { assert(t[i + 0] == t[i + 1 + 0]); } } }
        else if slt(t, i + 1, i + 2) {
            let k = choose|k: int| #[trigger] slt_at(t, i + 1, i + 2, k);
            assert forall|l: int| 0 <= l < k + 1 implies t[i + l] == #[trigger] t[i + 1 + l] by { if l > 0 { assert(t[i + 1 + (l - 1)] == t[i + 2 + (l - 1)]); } }
            assert(slt_at(t, i, i + 1, k + 1));
        } else if slt(t, i, i + 1) {
            let k = choose|k: int| #[trigger] slt_at(t, i, i + 1, k);
            assert(k > 0);
            assert forall|l: int| 0 <= l < k - 1 implies t[i + 1 + l] == #[trigger] t[i + 2 + l] by { assert(t[i + (l + 1)] == t[i + 1 + (l + 1)]); }
            assert(slt_at(t, i + 1, i + 2, k - 1));
        }
    }
}
/// leftmost S position of a run
pub open spec fn lms(t: Seq<u8>, i: int) -> bool { 0 < i <= t.len() && is_s(t, i) && !is_s(t, i - 1) }
/// what is counted: occurrences of c (0), L-type ones (1), S* ones (2), S* positions (3)
pub open spec fn hit(t: Seq<u8>, k: int, c: int, j: int) -> bool {
    if k == 0 { t[j] == c } else if k == 1 { t[j] == c && !is_s(t, j) } else if k == 2 { t[j] == c && lms(t, j) } else { lms(t, j) }
}
/// how many positions j >= i of the string are counted
pub open spec fn num(t: Seq<u8>, k: int, c: int, i: int) -> int decreases t.len() - i {
    if i >= t.len() { 0 } else { num(t, k, c, i + 1) + (if hit(t, k, c, i) { 1int } else { 0 }) }
}
pub proof fn lem_num(t: Seq<u8>, k: int, c: int, i: int)
    requires 0 <= i <= t.len()
    ensures 0 <= num(t, k, c, i) <= t.len() - i
    decreases t.len() - i
{ if i < t.len() { lem_num(t, k, c, i + 1); } }
/// first S* position at or after i
pub open spec fn nxt(t: Seq<u8>, i: int) -> int decreases t.len() - i { if i >= t.len() { t.len() as int } else if lms(t, i) { i } else { nxt(t, i + 1) } }
pub proof fn lem_nxt(t: Seq<u8>, i: int)
    requires 0 <= i <= t.len()
    ensures i <= nxt(t, i) <= t.len()
    decreases t.len() - i
{ if i < t.len() && !lms(t, i) { lem_nxt(t, i + 1); } }
/// the S* substring that starts at k; the end of the string is written as a zero byte
pub open spec fn lsub(t: Seq<u8>, k: int) -> Seq<u8> { t.push(0).subrange(k, nxt(t, k + 1) + 1) }
/// x is one of the S* substrings that start at or after i
pub open spec fn occ(t: Seq<u8>, x: Seq<u8>, i: int) -> bool decreases t.len() - i { i < t.len() && ((lms(t, i) && lsub(t, i) == x) || occ(t, x, i + 1)) }
pub proof fn lem_occ(t: Seq<u8>, x: Seq<u8>, i: int)
    requires 0 <= i
    ensures occ(t, x, i) <==> exists|k: int| i <= k < t.len() && lms(t, k) && #[trigger] lsub(t, k) == x
    decreases t.len() - i
{ if i < t.len() { lem_occ(t, x, i + 1); } }
/// number of distinct S* substrings that start at or after i
pub open spec fn dst(t: Seq<u8>, i: int) -> int decreases t.len() - i {
    if i >= t.len() { 0 } else { dst(t, i + 1) + (if lms(t, i) && !occ(t, lsub(t, i), i + 1) { 1int } else { 0 }) }
}
pub proof fn lem_dst(t: Seq<u8>, i: int)
    requires 0 <= i <= t.len()
    ensures 0 <= dst(t, i) <= num(t, 3, 0, i) <= t.len() - i
    decreases t.len() - i
{ if i < t.len() { lem_dst(t, i + 1); lem_num(t, 3, 0, i); } }
/// statistics of the positions >= i (of the S* positions >= j)
pub open spec fn stats(c: ContainerV, t: Seq<u8>, i: int, j: int) -> bool {
    &&& cn_len(c) && c.n == t.len() && c.num_of_substrings == num(t, 3, 0, j) && c.num_of_unique_substrings == dst(t, j)
    &&& c.M[0] == 1 && c.C[0] == 1 && c.NL[0] == 0 && c.M[257] == 0 && c.C[257] == 0 && c.NL[257] == 0
    &&& forall|b: int| 1 <= b <= 256 ==> #[trigger] c.M[b] == num(t, 0, b - 1, i)
    &&& forall|b: int| 1 <= b <= 256 ==> #[trigger] c.NL[b] == num(t, 1, b - 1, i)
    &&& forall|b: int| 1 <= b <= 256 ==> #[trigger] c.C[b] == num(t, 2, b - 1, j)
    &&& forall|b: int| 0 <= b < 258 ==> #[trigger] c.M2[b] == 0
    &&& forall|b: int| 0 <= b < 258 ==> #[trigger] c.M3[b] == 0
    &&& forall|b: int| 0 <= b < 258 ==> #[trigger] c.C2[b] == 0
}
/// every object that existed before is unchanged; of the new ones only those in s are left
pub open spec fn grown(a: MemV, b: MemV, s: Set<int>) -> bool {
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] 0 < o < a.nx ==> b.h.contains_key(o) == a.h.contains_key(o) && b.h[o] == a.h[o]
    &&& forall|o: int| #![trigger b.h.contains_key(o)] o >= a.nx && b.h.contains_key(o) ==> s.contains(o)
    &&& forall|o: int| #![trigger b.k[o]] #![trigger b.k.contains_key(o)] 0 < o < a.nx ==> b.k.contains_key(o) == a.k.contains_key(o) && b.k[o] == a.k[o]
    &&& forall|o: int| #![trigger b.own[o]] #![trigger b.ser[o]] 0 < o < a.nx ==> b.own[o] == a.own[o] && b.ser[o] == a.ser[o]
    &&& forall|o: int| #![trigger b.gs[o]] 0 < o < a.nx ==> b.gs[o] == a.gs[o]
    &&& forall|o: int| #![trigger b.gc[o]] 0 < o < a.nx ==> b.gc[o] == a.gc[o]
    &&& a.nx <= b.nx && a.io == b.io
}
/// a container and the table it owns
pub open spec fn cn_ok(b: MemV, p: PtrV) -> bool {
    let h = o_Container(b, p.o).hashtable; let v = o_HashTable(b, h.o);
    &&& is_Container(b, p) && live(b, p, 1) && h.o != p.o && ht_ok(b, h) && live(b, h, 1) && !ht_fp(b, h).contains(p.o)
    &&& v.buf.o != h.o && v.buf.o != v.rest.o && v.buf.o != v.head.o
}
/// the container at p owns a table; nothing it owns existed in state a; of what did not exist in a, only that is left
pub open spec fn cn_own(a: MemV, b: MemV, p: PtrV) -> bool {
    let h = o_Container(b, p.o).hashtable; let v = o_HashTable(b, h.o);
    &&& cn_ok(b, p) && p.o >= a.nx && h.o >= a.nx && v.rest.o >= a.nx && v.head.o >= a.nx && (v.buf == NUL() || v.buf.o >= a.nx)
    &&& grown(a, b, ht_fp(b, h).insert(p.o))
}
/// the table holds the S* substrings that start at or after i
pub open spec fn tb_subs(m: MemV, h: PtrV, t: Seq<u8>, i: int) -> bool {
    &&& forall|x: Seq<u8>| #[trigger] holds(ht_tb(m, h), x) <==> occ(t, x, i)
    &&& nrec(m.gc[h.o], m.gc[h.o].len() as int) == dst(t, i)
    &&& t.len() / 2 + 1 < p8(ht_tb(m, h).nb)
}
pub open spec fn decomposed(a: MemV, b: MemV, c: PtrV, t: Seq<u8>) -> bool {
    let x = o_Container(b, c.o);
    &&& cn_own(a, b, c) && stats(x, t, 0, 0) && x.head_string_end == nxt(t, 0) && tb_subs(b, x.hashtable, t, 0)
    &&& o_HashTable(b, x.hashtable.o).bufsize <= 602 * t.len()
}
/// one more position counted
pub proof fn lem_count(c: ContainerV, d: ContainerV, t: Seq<u8>, i: int, j: int)
    requires stats(c, t, i + 1, i + 2), 0 <= i, i + 1 < t.len(),
        cn_len(d), d.n == c.n, d.M2 == c.M2, d.M3 == c.M3, d.C2 == c.C2,
        d.M == c.M.update(t[i] + 1, (c.M[t[i] + 1] + 1) as u64),
        d.NL == (if is_s(t, i) { c.NL } else { c.NL.update(t[i] + 1, (c.NL[t[i] + 1] + 1) as u64) }),
        d.C == (if lms(t, i + 1) { c.C.update(t[i + 1] + 1, (c.C[t[i + 1] + 1] + 1) as u64) } else { c.C }),
        d.num_of_substrings == (if lms(t, i + 1) { c.num_of_substrings + 1 } else { c.num_of_substrings as int }),
        d.num_of_unique_substrings == (if lms(t, i + 1) && !occ(t, lsub(t, i + 1), i + 2) { c.num_of_unique_substrings + 1 } else { c.num_of_unique_substrings as int }),
        t.len() < 0x1_0000_0000_0000_0000,
    ensures stats(d, t, i, i + 1)
{
    lem_num(t, 0, t[i] as int, i + 1); lem_num(t, 1, t[i] as int, i + 1); lem_num(t, 2, t[i + 1] as int, i + 2);
    assert forall|b: int| 1 <= b <= 256 implies #[trigger] d.M[b] == num(t, 0, b - 1, i) by { assert(c.M[b] == num(t, 0, b - 1, i + 1)); }
    assert forall|b: int| 1 <= b <= 256 implies #[trigger] d.NL[b] == num(t, 1, b - 1, i) by { assert(c.NL[b] == num(t, 1, b - 1, i + 1)); }
    assert forall|b: int| 1 <= b <= 256 implies #[trigger] d.C[b] == num(t, 2, b - 1, i + 1) by { assert(c.C[b] == num(t, 2, b - 1, i + 2)); }
}
