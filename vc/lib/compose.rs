// uses: order naming split regs
// The parts put together: from the sorted shortened string to the records where the induction starts.
/// the text and the sorted S* positions of a transform in progress (ghost, kept with the container)
pub open spec fn gtext(m: MemV, c: PtrV) -> Seq<u8> { Seq::new(m.gc[c.o][0].len(), |i: int| m.gc[c.o][0][i] as u8) }
pub open spec fn gpos(m: MemV, c: PtrV) -> Seq<int> { m.gc[c.o][1] }
pub open spec fn gdata(t: Seq<u8>, xs: Seq<int>) -> Seq<Seq<int>> { seq![ints(t), xs] }
pub open spec fn ints(t: Seq<u8>) -> Seq<int> { Seq::new(t.len(), |i: int| t[i] as int) }
/// a copy of the text from the S* position k (or the start) to position x ends at a in the buffer b;
/// in front of it there is a greater byte, and only the copy that starts at the start of the text starts at lp
pub open spec fn spell(t: Seq<u8>, b: Seq<u8>, lp: int, lo: int, k: int, x: int, a: int) -> bool {
    &&& 0 <= k <= x <= nxt(t, k + 1) && k < t.len() && (k == 0 || lms(t, k)) && lo < a - (x - k) - 1 && 0 <= a - (x - k) - 1 && a < b.len()
    &&& forall|e: int| a - (x - k) <= e <= a ==> #[trigger] b[e] == t.push(0)[x - (a - e)]
    &&& if k == 0 { a - x == lp && b[lp - 1] == (t[0] + 1) % 256 } else { a < lp && b[a - (x - k) - 1] > t[k] }
}
/// the copy that ends in the S* position x
pub open spec fn placed(t: Seq<u8>, b: Seq<u8>, lp: int, lo: int, a: int, x: int) -> bool {
    exists|k: int| k < x && x == nxt(t, k + 1) && #[trigger] spell(t, b, lp, lo, k, x, lo + a)
}
/// what the induction starts from
pub open spec fn induce_ready(m: MemV, c: PtrV, a: Seq<int>) -> bool {
    let x = o_Container(m, c.o); let t = gtext(m, c); let xs = gpos(m, c); let bo = x.bwp_base.o;
    &&& is_Container(m, c) && 1 <= t.len() < 0x10_0000_0000_0000 && stats(x, t, 0, 0)
    &&& m.h.contains_key(bo) && m.h[bo] is U8 && u8s(m, bo).len() < 0x4000_0000_0000_0000 && bo != c.o && x.lastptr.o == bo && -1 <= x.bwp_base.i && 1 <= x.bwp_width <= 63
    &&& lms_sorted(t, xs) && a.len() == xs.len()
    &&& forall|i: int| 1 <= i < a.len() ==> placed(t, u8s(m, bo), x.lastptr.i, x.bwp_base.i, #[trigger] a[i], xs[i]) && 0 <= a[i] < pow2(x.bwp_width as nat)
    &&& placed(t, u8s(m, bo), x.lastptr.i, x.bwp_base.i, a[0], xs[0]) && 0 <= a[0] < pow2(x.bwp_width as nat)
}
/// what the induction does: a result, the array released, three columns of the container used up, nothing else
pub open spec fn induced(a: MemV, b: MemV, c: PtrV, r: PtrV, s: Set<int>) -> bool {
    let w = o_BWT_result(b, r.o).BWT; let x = o_Container(a, c.o); let y = o_Container(b, c.o);
    &&& res_ok(b, r, gtext(a, c)) && r.o >= a.nx && w.o >= a.nx
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] 0 < o < a.nx ==> b.h.contains_key(o) == (a.h.contains_key(o) && !s.contains(o)) && (a.h.contains_key(o) && !s.contains(o) && o != c.o ==> b.h[o] == a.h[o])
    &&& forall|o: int| #![trigger b.k[o]] 0 < o < a.nx && a.h.contains_key(o) && !s.contains(o) ==> b.k[o] == a.k[o]
    &&& forall|o: int| #![trigger b.h.contains_key(o)] o >= a.nx && b.h.contains_key(o) ==> o == r.o || o == w.o
    &&& is_Container(b, c) && y == (ContainerV { M2: y.M2, M3: y.M3, C2: y.C2, ..x })
    &&& forall|o: int| #![trigger b.gc[o]] 0 < o < a.nx && a.h.contains_key(o) && !s.contains(o) ==> b.gc[o] == a.gc[o]
    &&& a.nx <= b.nx && a.io == b.io
}
// ---- the suffix sorters
// ---- from the tables to the start of the induction
pub open spec fn rdy(m: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>) -> bool {
    let x = o_Container(m, c.o);
    &&& 1 <= t.len() < 0x10_0000_0000_0000 && cn_ok(m, c) && stats(x, t, 0, 0) && named(m, x.hashtable, ls, t) && spans(m, c, ls) && short_of(m, r, ht_tb(m, x.hashtable), t)
}
#[verifier::opaque]
pub open spec fn rdyo(m: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>) -> bool { rdy(m, c, ls, r, t) }
/// after the three passes
pub open spec fn ready(a: MemV, m: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>) -> bool {
    let h = o_Container(m, c.o).hashtable; let v = o_HashTable(m, h.o);
    &&& rdy(m, c, ls, r, t) && grown(a, m, ht_fp(m, h).insert(c.o).insert(ls.o).insert(r.o).insert(pa_arr(m, r)))
    &&& c.o >= a.nx && h.o >= a.nx && v.rest.o >= a.nx && v.head.o >= a.nx && v.buf.o >= a.nx && ls.o >= a.nx && r.o >= a.nx && pa_arr(m, r) >= a.nx
}
pub proof fn lem_ready(m0: MemV, m1: MemV, m2: MemV, m3: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>)
    requires wf(m0), wf(m1), wf(m2), wf(m3), 1 <= t.len() < 0x10_0000_0000_0000, decomposed(m0, m1, c, t), sorted_post(m1, m2, c, ls, t), shortened(m2, m3, r, ht_tb(m2, o_Container(m2, c.o).hashtable), t),
    ensures ready(m0, m3, c, ls, r, t)
{
    let h = o_Container(m1, c.o).hashtable; let v = o_HashTable(m1, h.o);
    assert(o_Container(m2, c.o).hashtable == h);
    assert(o_HashTable(m2, h.o).rest == v.rest);
    let w = o_HashTable(m2, h.o);
    assert(w.buf.o == v.buf.o || w.buf.o >= m1.nx);
    assert(m3.h.contains_key(c.o) && m3.h[c.o] == m2.h[c.o]);
    assert(m3.h.contains_key(h.o) && m3.h[h.o] == m2.h[h.o]);
    assert(m3.h[w.rest.o] == m2.h[w.rest.o] && m3.h.contains_key(w.rest.o));
    assert(m3.h[w.head.o] == m2.h[w.head.o] && m3.h.contains_key(w.head.o));
    assert(m3.h[w.buf.o] == m2.h[w.buf.o] && m3.h.contains_key(w.buf.o));
    assert(m3.h[ls.o] == m2.h[ls.o] && m3.h.contains_key(ls.o));
    assert(ht_tb(m3, h) == ht_tb(m2, h));
}
/// name of the entry in front of entry s of the shortened string, and the last byte of its record's string
pub open spec fn slot(m: MemV, c: PtrV, t: Seq<u8>, s: int) -> int {
    if s == 0 { dst(t, 0) + 1 } else { namef(ht_tb(m, o_Container(m, c.o).hashtable), lsub(t, lpos(t, s - 1))) }
}
pub open spec fn aend(m: MemV, c: PtrV, ls: PtrV, v: int) -> int {
    let s = ht_tb(m, o_Container(m, c.o).hashtable).s; let q = ps(m, ls.o)[v].i;
    q + r_str(s, q) + r_len(s, q) - 1 - o_Container(m, c.o).bwp_base.i
}
pub open spec fn rec_here(m: MemV, q: PtrV) -> bool {
    m.h.contains_key(q.o) && m.h[q.o] is U8 && 0 <= q.i < u8s(m, q.o).len() && 1 <= u8s(m, q.o)[q.i] <= 8 && q.i + 1 + u8s(m, q.o)[q.i] <= u8s(m, q.o).len()
}
/// record v holds the text from k to x, behind the byte g
pub open spec fn rec_for(m: MemV, c: PtrV, ls: PtrV, t: Seq<u8>, v: int, k: int, x: int) -> bool {
    let h = o_Container(m, c.o).hashtable; let tb = ht_tb(m, h); let q = ps(m, ls.o)[v];
    &&& 1 <= v <= dst(t, 0) + 1 && q.o == o_HashTable(m, h.o).buf.o && rec_here(m, q) && q.i + r_name(tb.s, q.i) <= tb.s.len()
    &&& rstr(tb.s, q.i) == t.push(0).subrange(k, x + 1) && r_len(tb.s, q.i) == x + 1 - k
}
pub open spec fn guard(m: MemV, c: PtrV, ls: PtrV, v: int) -> int { let s = ht_tb(m, o_Container(m, c.o).hashtable).s; let q = ps(m, ls.o)[v].i; s[q + 1 + s[q]] as int }
/// the leading part
proof fn lem_slot_head(m: MemV, c: PtrV, ls: PtrV, t: Seq<u8>)
    requires named(m, o_Container(m, c.o).hashtable, ls, t), t.len() >= 1
    ensures rec_for(m, c, ls, t, dst(t, 0) + 1, 0, nxt(t, 0)), guard(m, c, ls, dst(t, 0) + 1) == (t[0] + 1) % 256, nxt(t, 1) == nxt(t, 0)
{
    lem_nxt(t, 0); lem_dst(t, 0);
    let h = o_Container(m, c.o).hashtable; let tb = ht_tb(m, h); let u = dst(t, 0); let q = ps(m, ls.o)[u + 1];
    assert(rec_in(m, q, tb.nb));
    assert(head_str(t) == t.push(0).subrange(0, nxt(t, 0) + 1));
    lem_be_bound(tb.s, q.i + 1, tb.s[q.i] as int);
    assert(rstr(tb.s, q.i).len() == nxt(t, 0) + 1);
    assert(!lms(t, 0));
}
/// a substring
proof fn lem_slot_sub(m: MemV, c: PtrV, ls: PtrV, t: Seq<u8>, k: int)
    requires named(m, o_Container(m, c.o).hashtable, ls, t), 0 <= k < t.len(), lms(t, k)
    ensures ({ let v = namef(ht_tb(m, o_Container(m, c.o).hashtable), lsub(t, k)); rec_for(m, c, ls, t, v, k, nxt(t, k + 1)) && guard(m, c, ls, v) > t[k] && v <= dst(t, 0) })
{
    let h = o_Container(m, c.o).hashtable; let tb = ht_tb(m, h); let ss = ps(m, ls.o); let u = dst(t, 0); let x = lsub(t, k);
    lem_lsub(t, k); lem_occ(t, x, 0);
    assert(occ(t, x, 0));
    assert(holds(tb, x));
    let i = choose|i: int| 1 <= i <= u && #[trigger] strk(tb, ss, i) == x;
    assert(named_at(tb, ss, i));
    assert(elem(tb, ss, o_HashTable(m, h.o).buf.o, i));
    assert(x == t.push(0).subrange(k, nxt(t, k + 1) + 1));
    let q = ss[i];
    assert(rec_ok(tb.s, tb.nb, q.i));
    assert(rstr(tb.s, q.i).len() == x.len());
    assert(guard(m, c, ls, i) > t[k]);
}
proof fn lem_slot_rec(m: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>, s: int)
    requires rdy(m, c, ls, r, t), 0 <= s <= num(t, 3, 0, 0)
    ensures ({ let v = slot(m, c, t, s); let k = if s == 0 { 0 } else { lpos(t, s - 1) };
        &&& rec_for(m, c, ls, t, v, k, lpos(t, s)) && guard(m, c, ls, v) == (if s == 0 { (t[0] + 1) % 256 } else { guard(m, c, ls, v) }) && (s > 0 ==> guard(m, c, ls, v) > t[k])
        &&& pa_get(m, r, s) == v && (s > 0 ==> v <= dst(t, 0) && lms(t, k)) && 0 <= k < lpos(t, s) <= t.len() && nxt(t, k + 1) == lpos(t, s) })
{
    lem_lpos(t, s);
    if s == 0 { lem_slot_head(m, c, ls, t); }
    else {
        let k = lpos(t, s - 1);
        lem_lpos(t, s - 1);
        lem_slot_sub(m, c, ls, t, k);
        assert(entry(m, r, ht_tb(m, o_Container(m, c.o).hashtable), t, k));
    }
}
pub proof fn lem_slot(m: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>, s: int)
    requires rdy(m, c, ls, r, t), 0 <= s <= num(t, 3, 0, 0)
    ensures ({ let x = o_Container(m, c.o); let tb = ht_tb(m, x.hashtable); let v = slot(m, c, t, s); let q = ps(m, ls.o)[v]; let a = aend(m, c, ls, v);
        &&& 1 <= v <= dst(t, 0) + 1 && q.o == o_HashTable(m, x.hashtable.o).buf.o && rec_here(m, q) && pa_get(m, r, s) == v && 1 <= r_len(tb.s, q.i) < 0x4000_0000_0000_0000 && q.i + r_name(tb.s, q.i) <= tb.s.len()
        &&& placed(t, tb.s, x.lastptr.i, x.bwp_base.i, a, lpos(t, s)) && x.bwp_base.o == q.o
        &&& 0 <= a < pow2(x.bwp_width as nat) && a <= x.sa_max_value && x.sa_max_value < 0x4000_0000_0000_0000 && x.lastptr.o == q.o && -1 <= x.bwp_base.i })
{
    let x = o_Container(m, c.o); let h = x.hashtable; let tb = ht_tb(m, h); let ss = ps(m, ls.o); let u = dst(t, 0); let v = slot(m, c, t, s); let q = ss[v].i; let y = lpos(t, s);
    let k = if s == 0 { 0 } else { lpos(t, s - 1) };
    lem_slot_rec(m, c, ls, r, t, s);
    lem_dst(t, 0); lem_bounds(m, c, ls, r, t);
    let a = aend(m, c, ls, v);
    assert(x.min_ptr.i <= ss[v].i <= x.max_ptr.i);
    assert(ss[v].i + r_name(tb.s, ss[v].i) <= ss[0].i);
    assert forall|e: int| x.bwp_base.i + a - (y - k) <= e <= x.bwp_base.i + a implies #[trigger] tb.s[e] == t.push(0)[y - (x.bwp_base.i + a - e)] by {
        let j = e - (q + r_str(tb.s, q));
        assert(rstr(tb.s, q)[j] == t.push(0).subrange(k, y + 1)[j]);
    }
    if s > 0 { assert(ss[v].i + r_name(tb.s, ss[v].i) <= ss[u + 1].i); }
    assert(spell(t, tb.s, x.lastptr.i, x.bwp_base.i, k, y, x.bwp_base.i + a));
}
pub proof fn lem_bounds(m: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>)
    requires rdy(m, c, ls, r, t)
    ensures ({ let x = o_Container(m, c.o); let tb = ht_tb(m, x.hashtable); let ss = ps(m, ls.o);
        &&& 0 <= x.min_ptr.i <= x.max_ptr.i && x.max_ptr == ss[0] && x.max_ptr.i - x.min_ptr.i + 2 < pow2(x.bwp_width as nat) && 1 <= x.bwp_width <= 63 && tb.s.len() < 0x4000_0000_0000_0000
        &&& x.sa_max_value >= x.max_ptr.i - x.min_ptr.i + 1 && 1 <= x.sa_max_value < 0x4000_0000_0000_0000 && ss.len() == dst(t, 0) + 2 && dst(t, 0) >= 0 && x.bwp_base.o == o_HashTable(m, x.hashtable.o).buf.o && x.lastptr.o == x.bwp_base.o })
{
    let x = o_Container(m, c.o); let h = x.hashtable; let tb = ht_tb(m, h); let ss = ps(m, ls.o); let u = dst(t, 0);
    lem_dst(t, 0);
    let i = choose|i: int| 0 <= i < u + 2 && #[trigger] ss[i] == x.max_ptr; let j = choose|j: int| 0 <= j < u + 2 && #[trigger] ss[j] == x.min_ptr;
    assert(x.min_ptr.i <= ss[0].i <= x.max_ptr.i);
    assert(0 <= ss[0].i);
    assert(rec_in(m, ss[0], tb.nb) && rec_in(m, ss[u + 1], tb.nb));
    if 1 <= i { assert(0 <= ss[i].i && ss[i].i + r_name(tb.s, ss[i].i) <= ss[0].i); lem_rec_pos(m, c, ls, r, t, i); }
    assert(0 <= ss[j].i);
    if 1 <= j && j <= u { assert(elem(tb, ss, o_HashTable(m, h.o).buf.o, j)); }
    let d = (x.max_ptr.i - x.min_ptr.i + 2) as nat;
    lem_bitlen(d, 63); lemma2_to64_rest(); lemma2_to64();
    lem_bitlen(d, bitlen(d) as nat);
}
proof fn lem_rec_pos(m: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>, i: int)
    requires rdy(m, c, ls, r, t), 1 <= i <= dst(t, 0) + 1
    ensures ({ let s = ht_tb(m, o_Container(m, c.o).hashtable).s; let q = ps(m, ls.o)[i].i; r_name(s, q) >= 1 })
{
    let tb = ht_tb(m, o_Container(m, c.o).hashtable); let ss = ps(m, ls.o);
    if i <= dst(t, 0) { assert(named_at(tb, ss, i)); assert(rec_ok(tb.s, tb.nb, ss[i].i)); }
    else { lem_be_bound(tb.s, ss[i].i + 1, tb.s[ss[i].i] as int); }
}
// ---- what the sorter is given and what follows from its result
pub open spec fn rdy_fp(m: MemV, c: PtrV, ls: PtrV, r: PtrV) -> Set<int> { ht_fp(m, o_Container(m, c.o).hashtable).insert(c.o).insert(ls.o).insert(r.o).insert(pa_arr(m, r)) }
pub open spec fn same_on(a: MemV, b: MemV, s: Set<int>) -> bool {
    forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] #![trigger b.k[o]] #![trigger b.gc[o]] s.contains(o) ==> b.h.contains_key(o) == a.h.contains_key(o) && b.h[o] == a.h[o] && b.k[o] == a.k[o] && b.gc[o] == a.gc[o]
}
pub open spec fn same_hk(a: MemV, b: MemV, s: Set<int>) -> bool {
    forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] #![trigger b.k[o]] s.contains(o) ==> b.h.contains_key(o) == a.h.contains_key(o) && b.h[o] == a.h[o] && b.k[o] == a.k[o]
}
pub proof fn lem_rdy_same(a: MemV, b: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>)
    requires rdy(a, c, ls, r, t), same_on(a, b, rdy_fp(a, c, ls, r))
    ensures rdy(b, c, ls, r, t), rdy_fp(a, c, ls, r) == rdy_fp(b, c, ls, r)
{
    let h = o_Container(a, c.o).hashtable; let v = o_HashTable(a, h.o);
    assert(b.h[c.o] == a.h[c.o]); assert(b.h[h.o] == a.h[h.o]); assert(b.h[v.buf.o] == a.h[v.buf.o]); assert(b.h[v.rest.o] == a.h[v.rest.o]); assert(b.h[v.head.o] == a.h[v.head.o]);
    assert(b.h[ls.o] == a.h[ls.o]); assert(b.h[r.o] == a.h[r.o]); assert(b.h[pa_arr(a, r)] == a.h[pa_arr(a, r)]);
    assert(b.gc[h.o] == a.gc[h.o]);
    assert(ht_tb(a, h) == ht_tb(b, h));
    assert forall|k: int| 0 <= k < t.len() && lms(t, k) implies #[trigger] entry(b, r, ht_tb(b, h), t, k) by { assert(entry(a, r, ht_tb(a, h), t, k)); }
}
/// the numbers fit the chosen width
pub proof fn lem_sais_pre(m: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>, w: int, bits: int)
    requires rdy(m, c, ls, r, t), w == 32 || w == 40 || w == 48 || w == 56 || w == 64, 
        ({ let x = o_Container(m, c.o); let u = num(t, 3, 0, 0) + 2; bits == bitlen((if u > x.sa_max_value { u } else { x.sa_max_value as int }) as nat) && bits < w })
    ensures str_ok(m, o_PackedArray(m, r.o).arr, pa_w(m, r), num(t, 3, 0, 0) + 1, dst(t, 0) + 2, w), num(t, 3, 0, 0) + 2 < pow2((w - 1) as nat), o_Container(m, c.o).sa_max_value < pow2((w - 1) as nat),
        short_str(t, ht_tb(m, o_Container(m, c.o).hashtable), pstr(m, o_PackedArray(m, r.o).arr, pa_w(m, r), num(t, 3, 0, 0) + 1))
{
    let x = o_Container(m, c.o); let u = num(t, 3, 0, 0); let mx = if u + 2 > x.sa_max_value { u + 2 } else { x.sa_max_value as int };
    lem_num(t, 3, 0, 0); lem_dst(t, 0); lem_names_in(m, x.hashtable, ls, t);
    lem_bitlen(mx as nat, (w - 1) as nat);
    lem_bitlen(mx as nat, bitlen(mx as nat) as nat);
    lem_bitlen((dst(t, 0) + 1) as nat, bitlen(mx as nat) as nat);
    lem_short_str(m, c, ls, r, t);
    let p = o_PackedArray(m, r.o).arr; let cs = pa_w(m, r);
    let s = pstr(m, p, cs, u + 1); let tb = ht_tb(m, x.hashtable);
    assert forall|i: int| 0 <= i < u + 1 implies 0 <= #[trigger] s[i] < dst(t, 0) + 2 by {
        if i < u { assert(s[i] == namef(tb, lsub(t, lpos(t, i)))); lem_lpos(t, i); lem_occ(t, lsub(t, lpos(t, i)), 0); assert(holds(tb, lsub(t, lpos(t, i)))); } }
    let len = pa_len(m, r);
    assert(cs * (u + 2) == cs * len) by (nonlinear_arith) requires len == u + 2;
}
proof fn lem_short_str(m: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>)
    requires rdy(m, c, ls, r, t)
    ensures short_str(t, ht_tb(m, o_Container(m, c.o).hashtable), pstr(m, o_PackedArray(m, r.o).arr, pa_w(m, r), num(t, 3, 0, 0) + 1))
{
    let u = num(t, 3, 0, 0); let tb = ht_tb(m, o_Container(m, c.o).hashtable); let s = pstr(m, o_PackedArray(m, r.o).arr, pa_w(m, r), u + 1);
    lem_num(t, 3, 0, 0);
    assert forall|j: int| 0 <= j < u implies #[trigger] s[j] == namef(tb, lsub(t, lpos(t, j))) by {
        lem_lpos(t, j); assert(entry(m, r, tb, t, lpos(t, j))); assert(pa_get(m, r, j + 1) == s[j]); }
    assert(pa_get(m, r, u + 1) == s[u]);
}
pub open spec fn lpositions(t: Seq<u8>, a: Seq<int>) -> Seq<int> { Seq::new(a.len(), |i: int| lpos(t, a[i])) }
pub proof fn lem_sais_post(m: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>, a: Seq<int>)
    requires rdy(m, c, ls, r, t), is_sa(pstr(m, o_PackedArray(m, r.o).arr, pa_w(m, r), num(t, 3, 0, 0) + 1), a)
    ensures lms_sorted(t, lpositions(t, a)), a.len() == num(t, 3, 0, 0) + 1, forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] <= num(t, 3, 0, 0)
{
    let h = o_Container(m, c.o).hashtable; let tb = ht_tb(m, h);
    lem_short_str(m, c, ls, r, t); lem_num(t, 3, 0, 0);
    lem_name_order(t, tb, ps(m, ls.o), o_HashTable(m, h.o).buf.o);
    let s = pstr(m, o_PackedArray(m, r.o).arr, pa_w(m, r), num(t, 3, 0, 0) + 1);
    lem_lms_sorted(t, tb, s, a);
    assert(lpositions(t, a) =~= Seq::new(a.len(), |i: int| lpos(t, a[i])));
}
/// the induction can start
pub proof fn lem_start(m: MemV, b: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>, sa: Seq<int>, a: Seq<int>)
    requires rdy(m, c, ls, r, t), same_hk(m, b, ht_fp(m, o_Container(m, c.o).hashtable).insert(c.o)), b.gc[c.o] == gdata(t, lpositions(t, sa)), b.gc[o_Container(m, c.o).hashtable.o] == m.gc[o_Container(m, c.o).hashtable.o], lms_sorted(t, lpositions(t, sa)), a.len() == sa.len(), 
        forall|i: int| 0 <= i < sa.len() ==> 0 <= #[trigger] sa[i] <= num(t, 3, 0, 0),
        forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == aend(m, c, ls, slot(m, c, t, sa[i])),
    ensures induce_ready(b, c, a), cn_ok(b, c), gtext(b, c) == t
{
    let x = o_Container(m, c.o); let h = x.hashtable; let v = o_HashTable(m, h.o); let bo = v.buf.o;
    assert(b.h[c.o] == m.h[c.o]); assert(b.h[h.o] == m.h[h.o]); assert(b.h[v.buf.o] == m.h[v.buf.o]); assert(b.h[v.rest.o] == m.h[v.rest.o]); assert(b.h[v.head.o] == m.h[v.head.o]);
    assert(gtext(b, c) =~= t);
    assert(ht_tb(b, h) == ht_tb(m, h));
    lem_bounds(m, c, ls, r, t);
    lem_num(t, 3, 0, 0);
    let xs = lpositions(t, sa);
    assert(gpos(b, c) == xs);
    assert forall|i: int| 0 <= i < a.len() implies placed(t, u8s(b, bo), x.lastptr.i, x.bwp_base.i, #[trigger] a[i], xs[i]) && 0 <= a[i] < pow2(x.bwp_width as nat) by {
        assert(0 <= sa[i] <= num(t, 3, 0, 0)); lem_slot(m, c, ls, r, t, sa[i]); }
    assert(0 < a.len()); let a0 = a[0];
}

pub open spec fn apart(s: Set<int>, u: Set<int>) -> bool { forall|o: int| #![trigger s.contains(o)] #![trigger u.contains(o)] s.contains(o) ==> !u.contains(o) }
/// what one round of the second loop meets
pub proof fn lem_round(a: MemV, m: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>, o: Set<int>, s: int)
    requires rdyo(a, c, ls, r, t), wf(a), apart(rdy_fp(a, c, ls, r), o), forall|x: int| #[trigger] rdy_fp(a, c, ls, r).contains(x) ==> 0 < x < a.nx, only(a, m, o), 0 <= s <= num(t, 3, 0, 0)
    ensures is_Container(m, c), o_Container(m, c.o) == o_Container(a, c.o), o_Container(m, c.o).num_of_substrings == num(t, 3, 0, 0), pa_ok(m, r), live(m, r, 1), pa_arr(m, r) == pa_arr(a, r), live(m, ls, 0), m.h[ls.o] is P, 
        ({ let x = o_Container(m, c.o); let v = slot(a, c, t, s); let q = ps(m, ls.o)[v]; let e = aend(a, c, ls, v); let b = u8s(m, q.o);
        &&& 1 <= v <= dst(t, 0) + 1 && rec_here(m, q) && pa_get(m, r, s) == v && 1 <= r_len(b, q.i) < 0x4000_0000_0000_0000 && q.i + r_name(b, q.i) <= b.len()
        &&& 0 <= e <= x.sa_max_value && x.sa_max_value < 0x4000_0000_0000_0000 && x.bwp_base.o == q.o && ps(m, ls.o).len() == dst(t, 0) + 2 && pa_len(m, r) == num(t, 3, 0, 0) + 2
        &&& e == q.i + r_str(b, q.i) + r_len(b, q.i) - 1 - x.bwp_base.i && b.len() < 0x4000_0000_0000_0000 && x.bwp_base.i >= -1 })
{
    reveal(rdyo);
    let fp = rdy_fp(a, c, ls, r);
    assert forall|x: int| fp.contains(x) implies m.h.contains_key(x) == a.h.contains_key(x) && m.h[x] == a.h[x] && m.k[x] == a.k[x] && m.gc[x] == a.gc[x] by { }
    lem_rdy_same(a, m, c, ls, r, t);
    lem_slot(m, c, ls, r, t, s); lem_bounds(m, c, ls, r, t);
    let h = o_Container(a, c.o).hashtable;
    assert(fp.contains(c.o) && fp.contains(h.o) && fp.contains(o_HashTable(a, h.o).buf.o) && fp.contains(ls.o));
    assert(fp.contains(o_HashTable(a, h.o).head.o) && fp.contains(o_HashTable(a, h.o).rest.o));
    assert(m.h[c.o] == a.h[c.o] && m.h[h.o] == a.h[h.o] && m.gc[h.o] == a.gc[h.o] && m.h[o_HashTable(a, h.o).buf.o] == a.h[o_HashTable(a, h.o).buf.o] && m.h[ls.o] == a.h[ls.o]);
    assert(m.h[o_HashTable(a, h.o).head.o] == a.h[o_HashTable(a, h.o).head.o] && m.h[o_HashTable(a, h.o).rest.o] == a.h[o_HashTable(a, h.o).rest.o]);
    assert(ht_tb(m, h) == ht_tb(a, h));
}
/// new objects s, otherwise as before
pub open spec fn alloced(a: MemV, b: MemV, s: Set<int>) -> bool {
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] b.h.contains_key(o) == (a.h.contains_key(o) || s.contains(o)) && (!s.contains(o) ==> b.h[o] == a.h[o])
    &&& forall|o: int| #![trigger b.k[o]] !s.contains(o) ==> b.k[o] == a.k[o]
    &&& forall|o: int| #[trigger] s.contains(o) ==> a.nx <= o < b.nx
    &&& b.gc == a.gc && a.nx <= b.nx && a.io == b.io
}
pub open spec fn freed(m: MemV, p: int, f: bool) -> MemV { if f { rm(m, p) } else { m } }
/// the result is there, of what was made on the way only the container and its table are left
pub open spec fn nearly(a: MemV, m: MemV, c: PtrV, t: Seq<u8>, tp: int, fr: bool, r: PtrV) -> bool {
    let h = o_Container(m, c.o).hashtable; let v = o_HashTable(m, h.o); let w = o_BWT_result(m, r.o).BWT;
    &&& cn_ok(m, c) && c.o >= a.nx && h.o >= a.nx && v.rest.o >= a.nx && v.head.o >= a.nx && v.buf.o >= a.nx && v.buf != NUL()
    &&& res_ok(m, r, t) && r.o >= a.nx && w.o >= a.nx && !ht_fp(m, h).insert(c.o).contains(r.o) && !ht_fp(m, h).insert(c.o).contains(w.o)
    &&& forall|o: int| #![trigger m.h.contains_key(o)] 0 < o < a.nx ==> m.h.contains_key(o) == (a.h.contains_key(o) && !(fr && o == tp))
    &&& forall|o: int| #![trigger m.h[o]] #![trigger m.k[o]] 0 < o < a.nx && m.h.contains_key(o) ==> m.h[o] == a.h[o] && m.k[o] == a.k[o]
    &&& forall|o: int| #![trigger m.h.contains_key(o)] o >= a.nx && m.h.contains_key(o) ==> o == r.o || o == w.o || ht_fp(m, h).insert(c.o).contains(o)
    &&& a.nx <= m.nx && m.io == a.io
}
pub proof fn lem_nearly(m0: MemV, m3: MemV, mr: MemV, m7: MemV, m9: MemV, mi: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>, tp: int, fr: bool, ret: PtrV, s: Set<int>)
    requires wf(m0), wf(m3), wf(mr), wf(m7), wf(m9), wf(mi), ready(m0, m3, c, ls, r, t), 0 < tp < m0.nx, alloced(freed(m3, tp, fr), mr, s), only(mr, m7, s),
        m9.h == m7.h.remove(ls.o).remove(pa_arr(m3, r)).remove(r.o), m9.k == m7.k.remove(ls.o).remove(pa_arr(m3, r)).remove(r.o), m9.io == m7.io, m9.nx == m7.nx, m9.gc[o_Container(m3, c.o).hashtable.o] == m3.gc[o_Container(m3, c.o).hashtable.o],
        gtext(m9, c) == t, cn_ok(m9, c), induced(m9, mi, c, ret, s)
    ensures nearly(m0, mi, c, t, tp, fr, ret)
{
    let h = o_Container(m3, c.o).hashtable; let v = o_HashTable(m3, h.o); let w = o_BWT_result(mi, ret.o).BWT;
    let fp = rdy_fp(m3, c, ls, r);
    lem_apart(m3, c, ls, r, t);
    assert(freed(m3, tp, fr).nx == m3.nx);
    assert(fp.contains(c.o) && fp.contains(h.o) && fp.contains(v.rest.o) && fp.contains(v.head.o) && fp.contains(v.buf.o));
    assert forall|o: int| #[trigger] fp.contains(o) implies m3.h.contains_key(o) && 0 < o < m3.nx && !s.contains(o) && o != tp && mr.h[o] == m3.h[o] && m7.h[o] == m3.h[o] && mr.k[o] == m3.k[o] && m7.k[o] == m3.k[o] by { }
    assert(m9.h[c.o] == m3.h[c.o] && m9.h[h.o] == m3.h[h.o] && m9.h[v.rest.o] == m3.h[v.rest.o] && m9.h[v.head.o] == m3.h[v.head.o] && m9.h[v.buf.o] == m3.h[v.buf.o]);
    assert(mi.h[h.o] == m9.h[h.o] && mi.h[v.rest.o] == m9.h[v.rest.o] && mi.h[v.head.o] == m9.h[v.head.o] && mi.h[v.buf.o] == m9.h[v.buf.o]);
    assert(mi.gc[h.o] == m9.gc[h.o]);
    assert(ht_tb(mi, h) == ht_tb(m9, h));
    assert(cn_ok(mi, c));
}
/// the objects of the tables are different ones
pub proof fn lem_apart(m: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>)
    requires rdy(m, c, ls, r, t), wf(m)
    ensures ({ let h = o_Container(m, c.o).hashtable; let fp = ht_fp(m, h).insert(c.o);
        &&& !fp.contains(ls.o) && !fp.contains(r.o) && !fp.contains(pa_arr(m, r)) && ls.o != r.o && ls.o != pa_arr(m, r) && r.o != pa_arr(m, r)
        &&& forall|o: int| #[trigger] rdy_fp(m, c, ls, r).contains(o) ==> m.h.contains_key(o) && 0 < o < m.nx })
{ }
pub proof fn lem_transformed(a: MemV, m: MemV, b: MemV, c: PtrV, t: Seq<u8>, p: PtrV, n: int, fr: bool, r: PtrV)
    requires wf(a), wf(m), wf(b), nearly(a, m, c, t, p.o, fr, r), t == str_at(a, p, n), b.io == m.io, m.nx <= b.nx, fr ==> a.h.contains_key(p.o) && p.o > 0,
        ({ let h = o_Container(m, c.o).hashtable; let v = o_HashTable(m, h.o); b.h =~= m.h.remove(v.rest.o).remove(v.head.o).remove(v.buf.o).remove(h.o).remove(c.o) }),
        forall|o: int| #![trigger b.k[o]] b.h.contains_key(o) ==> b.k[o] == m.k[o]
    ensures transformed(a, b, r, p, n, fr)
{
    let w = o_BWT_result(m, r.o).BWT; let h = o_Container(m, c.o).hashtable; let v = o_HashTable(m, h.o); let fp = ht_fp(m, h).insert(c.o);
    assert(fp.contains(c.o) && fp.contains(h.o) && fp.contains(v.rest.o) && fp.contains(v.head.o) && fp.contains(v.buf.o));
    assert(b.h[r.o] == m.h[r.o] && b.h[w.o] == m.h[w.o]);
    let e = (if fr { a.h.remove(p.o) } else { a.h }).insert(r.o, b.h[r.o]).insert(w.o, b.h[w.o]);
    assert forall|o: int| b.h.contains_key(o) == e.contains_key(o) by { if b.h.contains_key(o) { assert(m.h.contains_key(o)); } assert(wf(a)); }
    assert forall|o: int| b.h.contains_key(o) implies b.h[o] == e[o] by { assert(m.h.contains_key(o)); }
    assert(b.h =~= e);
    let f = (if fr { a.k.remove(p.o) } else { a.k }).insert(r.o, 0).insert(w.o, 2);
    assert forall|o: int| b.k.contains_key(o) == f.contains_key(o) by { assert(b.k.contains_key(o) == b.h.contains_key(o)); assert(a.k.contains_key(o) == a.h.contains_key(o)); assert(b.h.contains_key(o) == e.contains_key(o)); }
    assert forall|o: int| b.k.contains_key(o) implies b.k[o] == f[o] by { assert(b.h.contains_key(o)); assert(m.h.contains_key(o)); assert(b.k[o] == m.k[o]); }
    assert(b.k =~= f);
}
/// the tables are made, the text may be gone
#[verifier::opaque]
pub open spec fn entered(m0: MemV, m3: MemV, m4: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>, tp: int, fr: bool) -> bool {
    &&& wf(m0) && wf(m3) && wf(m4) && ready(m0, m3, c, ls, r, t) && 0 < tp < m0.nx && m4 == freed(m3, tp, fr)
}
pub proof fn lem_entered(m0: MemV, m3: MemV, m4: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>, tp: int, fr: bool)
    requires wf(m0), wf(m3), wf(m4), ready(m0, m3, c, ls, r, t), 0 < tp < m0.nx, m4 == freed(m3, tp, fr)
    ensures entered(m0, m3, m4, c, ls, r, t, tp, fr), is_Container(m4, c), is_PackedArray(m4, r), r.o < m4.nx, c.o < m4.nx, o_Container(m4, c.o).num_of_substrings == num(t, 3, 0, 0), 0 <= num(t, 3, 0, 0) < 0x10_0000_0000_0000, o_Container(m4, c.o).num_of_unique_substrings == dst(t, 0), 0 <= dst(t, 0) <= num(t, 3, 0, 0), 1 <= o_Container(m4, c.o).sa_max_value < 0x4000_0000_0000_0000
{
    reveal(entered);
    let fp = rdy_fp(m3, c, ls, r);
    lem_apart(m3, c, ls, r, t);
    assert(fp.contains(c.o) && fp.contains(r.o)); 
    assert(m4.h[c.o] == m3.h[c.o] && m4.h[r.o] == m3.h[r.o]);
    lem_bounds(m3, c, ls, r, t); lem_num(t, 3, 0, 0); lem_dst(t, 0);
}
/// a width is chosen and room for the positions is there
pub proof fn lem_enter(m0: MemV, m3: MemV, m4: MemV, mr: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>, tp: int, fr: bool, ob: Set<int>, w: int, bits: int)
    requires entered(m0, m3, m4, c, ls, r, t, tp, fr), wf(mr), alloced(m4, mr, ob), w == 32 || w == 40 || w == 48 || w == 56 || w == 64, 
        ({ let x = o_Container(m4, c.o); let u = num(t, 3, 0, 0) + 2; bits == bitlen((if u > x.sa_max_value { u } else { x.sa_max_value as int }) as nat) && bits < w })
    ensures rdyo(mr, c, ls, r, t), apart(rdy_fp(mr, c, ls, r), ob), forall|x: int| #[trigger] rdy_fp(mr, c, ls, r).contains(x) ==> 0 < x < mr.nx, is_Container(mr, c), o_Container(mr, c.o) == o_Container(m4, c.o), !ob.contains(c.o),
        str_ok(mr, o_PackedArray(mr, r.o).arr, pa_w(mr, r), num(t, 3, 0, 0) + 1, dst(t, 0) + 2, w), pa_ok(mr, r), !ob.contains(o_PackedArray(mr, r.o).arr.o), num(t, 3, 0, 0) + 2 < pow2((w - 1) as nat), o_Container(mr, c.o).sa_max_value < pow2((w - 1) as nat),
{
    reveal(entered); reveal(rdyo);
    let fp = rdy_fp(m3, c, ls, r);
    lem_apart(m3, c, ls, r, t);
    assert(fp.contains(c.o));
    assert(m4.h[c.o] == m3.h[c.o]);
    assert forall|o: int| #[trigger] fp.contains(o) implies m3.h.contains_key(o) && !ob.contains(o) && mr.h.contains_key(o) && mr.h[o] == m3.h[o] && mr.k[o] == m3.k[o] && mr.gc[o] == m3.gc[o] by { assert(m4.h[o] == m3.h[o] && m4.k[o] == m3.k[o] && m4.h.contains_key(o)); }
    assert(same_on(m3, mr, fp));
    lem_rdy_same(m3, mr, c, ls, r, t);
    lem_sais_pre(mr, c, ls, r, t, w, bits);
    lem_apart(mr, c, ls, r, t);
}
/// the induction can start, and afterwards only the container and its table are left
pub open spec fn laid_off(m: MemV, b: MemV, c: PtrV, ls: PtrV, rp: PtrV, ar: int) -> bool { b.h == m.h.remove(ls.o).remove(ar).remove(rp.o) && b.k == m.k.remove(ls.o).remove(ar).remove(rp.o) && b.io == m.io && b.nx == m.nx && forall|o: int| o != c.o ==> #[trigger] b.gc[o] == m.gc[o] }
pub proof fn lem_leave(mr: MemV, m7: MemV, m9: MemV, w: int, sv: Seq<PtrV>, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>, ob: Set<int>, sa: Seq<int>)
    requires wf(mr), rdyo(mr, c, ls, r, t), apart(rdy_fp(mr, c, ls, r), ob), forall|x: int| #[trigger] rdy_fp(mr, c, ls, r).contains(x) ==> 0 < x < mr.nx, only(mr, m7, ob), laid_off(m7, m9, c, ls, r, pa_arr(mr, r)), m9.gc[c.o] == gdata(t, lpositions(t, sa)), w == 32 || w == 40 || w == 48 || w == 56 || w == 64, ob == vobjs(w, sv), vok(w, m7, sv, num(t, 3, 0, 0) + 1),
        lms_sorted(t, lpositions(t, sa)), sa.len() == num(t, 3, 0, 0) + 1, forall|i: int| 0 <= i < sa.len() ==> 0 <= #[trigger] sa[i] <= num(t, 3, 0, 0), forall|j: int| 0 <= j < sa.len() ==> #[trigger] vw(w, m7, sv, j) == aend(mr, c, ls, slot(mr, c, t, sa[j]))
    ensures induce_ready(m9, c, vseq(w, m9, sv, num(t, 3, 0, 0) + 1)), cn_ok(m9, c), gtext(m9, c) == t, vok(w, m9, sv, num(t, 3, 0, 0) + 1), !ob.contains(c.o), !ob.contains(o_Container(m9, c.o).bwp_base.o), o_Container(m9, c.o) == o_Container(mr, c.o), gpos(m9, c) == lpositions(t, sa)
{
    reveal(rdyo);
    let h = o_Container(mr, c.o).hashtable; let fp = rdy_fp(mr, c, ls, r); let N = num(t, 3, 0, 0) + 1; let a7 = vseq(w, m7, sv, N);
    lem_apart(mr, c, ls, r, t); lem_num(t, 3, 0, 0);
    assert forall|o: int| ht_fp(mr, h).insert(c.o).contains(o) implies #[trigger] fp.contains(o) by { }
    assert(fp.contains(ls.o) && fp.contains(r.o) && fp.contains(pa_arr(mr, r)) && fp.contains(c.o) && fp.contains(h.o));
    assert(same_hk(mr, m9, ht_fp(mr, h).insert(c.o)));
    assert(vok(w, m9, sv, N)) by { if w == 40 || w == 48 { assert(ob.contains(sv[0].o) && ob.contains(sv[1].o)); } else if w == 56 { assert(ob.contains(sv[0].o) && ob.contains(sv[1].o) && ob.contains(sv[2].o)); } else { assert(ob.contains(sv[0].o)); } }
    assert forall|j: int| 0 <= j < N implies vw(w, m9, sv, j) == #[trigger] vw(w, m7, sv, j) by { if w == 40 || w == 48 { assert(ob.contains(sv[0].o) && ob.contains(sv[1].o)); } else if w == 56 { assert(ob.contains(sv[0].o) && ob.contains(sv[1].o) && ob.contains(sv[2].o)); } else { assert(ob.contains(sv[0].o)); } }
    assert(vseq(w, m9, sv, N) =~= a7);
    lem_start(mr, m9, c, ls, r, t, sa, a7);
    assert(o_Container(m9, c.o).bwp_base.o == o_HashTable(mr, h.o).buf.o) by { lem_bounds(mr, c, ls, r, t); }
    assert(fp.contains(o_HashTable(mr, h.o).buf.o));
}
#[verifier::opaque]
pub open spec fn left(a: MemV, m: MemV, c: PtrV, t: Seq<u8>, tp: int, fr: bool, r: PtrV) -> bool { nearly(a, m, c, t, tp, fr, r) }
pub proof fn lem_left(m0: MemV, m3: MemV, m4: MemV, mr: MemV, m7: MemV, m9: MemV, mi: MemV, c: PtrV, ls: PtrV, r: PtrV, t: Seq<u8>, tp: int, fr: bool, ret: PtrV, s: Set<int>)
    requires entered(m0, m3, m4, c, ls, r, t, tp, fr), wf(mr), wf(m7), wf(m9), wf(mi), alloced(m4, mr, s), only(mr, m7, s), laid_off(m7, m9, c, ls, r, pa_arr(mr, r)), gtext(m9, c) == t, cn_ok(m9, c), induced(m9, mi, c, ret, s)
    ensures left(m0, mi, c, t, tp, fr, ret)
{
    reveal(entered); reveal(left);
    lem_apart(m3, c, ls, r, t);
    let h = o_Container(m3, c.o).hashtable;
    let fp = rdy_fp(m3, c, ls, r);
    assert(fp.contains(r.o) && fp.contains(h.o) && fp.contains(c.o) && c.o != h.o);
    assert(m4.h[r.o] == m3.h[r.o] && mr.h[r.o] == m3.h[r.o]);
    lem_nearly(m0, m3, mr, m7, m9, mi, c, ls, r, t, tp, fr, ret, s);
}
pub proof fn lem_left_cn(a: MemV, m: MemV, c: PtrV, t: Seq<u8>, tp: int, fr: bool, r: PtrV)
    requires left(a, m, c, t, tp, fr, r)
    ensures cn_ok(m, c), o_HashTable(m, o_Container(m, c.o).hashtable.o).buf != NUL()
{ reveal(left); }
