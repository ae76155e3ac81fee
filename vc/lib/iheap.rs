// uses: induce queue
// The objects of an induction: an array of queue pointers, the queues that are live, the output; nothing else is new.
pub struct Ih { pub m0: MemV, pub c: PtrV, pub q: PtrV, pub s: Set<int>, pub bw: int, pub w: int, pub a: ISet<int> }
pub open spec fn slo(m: MemV, q: PtrV, i: int) -> PtrV { ps(m, q.o)[i] }
pub open spec fn hslot(g: Ih, m: MemV, i: int) -> bool {
    let p = slo(m, g.q, i); q_ok(m, p) && q_w(m, p) == g.w && m.k[p.o] == 1 && m.own[p.o] == 0 && p.o >= g.m0.nx
}
pub open spec fn hne(g: Ih, m: MemV, i: int, j: int) -> bool { slo(m, g.q, i).o != slo(m, g.q, j).o }
pub open spec fn hmine(g: Ih, m: MemV, o: int, i: int) -> bool { g.a.contains(i) && (o == slo(m, g.q, i).o || m.own[o] == slo(m, g.q, i).o) }
#[verifier::opaque]
pub open spec fn hold(g: Ih, m: MemV) -> bool {
    &&& forall|o: int| #![trigger m.h[o]] #![trigger m.h.contains_key(o)] 0 < o < g.m0.nx ==> m.h.contains_key(o) == (g.m0.h.contains_key(o) && !g.s.contains(o)) && (g.m0.h.contains_key(o) && !g.s.contains(o) && o != g.c.o ==> m.h[o] == g.m0.h[o])
    &&& forall|o: int| #![trigger m.k[o]] 0 < o < g.m0.nx && g.m0.h.contains_key(o) && !g.s.contains(o) ==> m.k[o] == g.m0.k[o]
    &&& forall|o: int| #![trigger m.gc[o]] 0 < o < g.m0.nx && g.m0.h.contains_key(o) && !g.s.contains(o) ==> m.gc[o] == g.m0.gc[o]
    &&& forall|o: int| #![trigger m.own[o]] 0 < o < g.m0.nx && g.m0.h.contains_key(o) && !g.s.contains(o) ==> m.own[o] < g.m0.nx
}
#[verifier::opaque]
pub open spec fn hcens(g: Ih, m: MemV) -> bool {
    forall|o: int| #![trigger m.h.contains_key(o)] o >= g.m0.nx && m.h.contains_key(o) ==> o == g.q.o || o == g.bw || exists|i: int| #[trigger] hmine(g, m, o, i)
}
pub open spec fn hcont(g: Ih, m: MemV) -> bool {
    let x = o_Container(g.m0, g.c.o); let y = o_Container(m, g.c.o);
    is_Container(m, g.c) && 0 < g.c.o < g.m0.nx && !g.s.contains(g.c.o) && is_Container(g.m0, g.c) && y == (ContainerV { M2: y.M2, M3: y.M3, C2: y.C2, ..x }) && y.M2.len() == 258 && y.M3.len() == 258 && y.C2.len() == 258
}
#[verifier::opaque]
pub open spec fn hp(g: Ih, m: MemV) -> bool {
    &&& wf(g.m0) && g.m0.nx <= m.nx && m.io == g.m0.io && hold(g, m) && hcens(g, m) && hcont(g, m)
    &&& live(m, g.q, 3) && m.h[g.q.o] is P && ps(m, g.q.o).len() == 774 && g.q.o >= g.m0.nx && m.own[g.q.o] == 0
    &&& g.bw != 0 ==> g.bw >= g.m0.nx && m.h.contains_key(g.bw) && m.h[g.bw] is U8 && m.k[g.bw] == 2 && m.own[g.bw] == 0
    &&& forall|i: int| #[trigger] g.a.contains(i) ==> 0 <= i < 774
    &&& forall|i: int| g.a.contains(i) ==> #[trigger] hslot(g, m, i)
    &&& forall|i: int, j: int| g.a.contains(i) && g.a.contains(j) && i != j ==> #[trigger] hne(g, m, i, j)
}
/// what the live queues hold
pub open spec fn hv(g: Ih, m: MemV) -> Seq<Seq<u64>> { Seq::new(774, |i: int| if g.a.contains(i) { q_seq(m, slo(m, g.q, i)) } else { Seq::empty() }) }
pub open spec fn hst(g: Ih, m: MemV, last: int) -> Ist { Ist { v: hv(g, m), b: u8s(m, g.bw), m2: o_Container(m, g.c.o).M2, c2: o_Container(m, g.c.o).C2, last: last } }
/// a queue whose objects are as before
pub open spec fn q_kept(a: MemV, b: MemV, r: PtrV) -> bool {
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] a.h.contains_key(o) && (o == r.o || a.own[o] == r.o) ==> b.h.contains_key(o) && b.h[o] == a.h[o] && b.k[o] == a.k[o] && b.own[o] == a.own[o] && b.ser[o] == a.ser[o]
    &&& forall|o: int| #![trigger b.own[o]] b.h.contains_key(o) && b.own[o] == r.o ==> a.h.contains_key(o) && a.own[o] == r.o
    &&& b.gs[r.o] == a.gs[r.o]
}
pub proof fn lem_q_kept(a: MemV, b: MemV, r: PtrV)
    requires q_ok(a, r), q_kept(a, b, r)
    ensures q_ok(b, r), q_seq(b, r) == q_seq(a, r), q_w(b, r) == q_w(a, r)
{
    let n = q_bs(a, r).len();
    assert(a.h.contains_key(r.o) && b.h[r.o] == a.h[r.o]);
    assert(q_bs(b, r) == q_bs(a, r));
    if n > 0 { assert(blk_ok(a, r, q_bs(a, r)[0], 0)); assert(b.h[q_bs(a, r)[0].o] == a.h[q_bs(a, r)[0].o]); }
    assert(n > 0 ==> q_b0(b, r) == q_b0(a, r));
    assert forall|i: int| 0 <= i < n implies #[trigger] blk_ok(b, r, q_bs(b, r)[i], i) && blk_same(a, b, r, i, i) by {
        let p = q_bs(a, r)[i];
        assert(blk_ok(a, r, p, i));
        assert(b.h[p.o] == a.h[p.o]);
        assert(b.h[q_b(a, r, i).o] == a.h[q_b(a, r, i).o]);
        assert(b.h[pa_arr(a, q_b(a, r, i))] == a.h[pa_arr(a, q_b(a, r, i))]);
    }
    assert(q_closed(b, r)) by {
        assert forall|o: int| #![trigger b.own[o]] b.h.contains_key(o) && b.own[o] == r.o implies ({
            let i = b.ser[o] - q_b0(b, r); 0 <= i < q_bs(b, r).len() && q_place(b, r, o, i) }) by {
            assert(a.h.contains_key(o) && a.own[o] == r.o);
            assert(b.h[o] == a.h[o]);
            let i = a.ser[o] - q_b0(a, r);
            assert(q_place(a, r, o, i));
            assert(blk_ok(b, r, q_bs(b, r)[i], i));
        }
    }
    assert forall|j: int| 0 <= j < q_n(a, r) implies #[trigger] q_seq(b, r)[j] == q_seq(a, r)[j] by {
        let t = o_Queue(a, r.o).s_ofs + j; let i = t / 1024;
        assert(blk_ok(b, r, q_bs(b, r)[i], i));
        lem_at_same(a, b, r, i, i, t % 1024);
    }
    assert(q_seq(b, r) =~= q_seq(a, r));
}
/// old objects are kept
proof fn lem_hold(g: Ih, m: MemV, h: Ih, m2: MemV)
    requires hold(g, m), h.m0 == g.m0, h.s == g.s, h.c == g.c,
        forall|o: int| #![trigger m2.h[o]] #![trigger m2.h.contains_key(o)] m.h.contains_key(o) && 0 < o < g.m0.nx ==> m2.h.contains_key(o) && (o != g.c.o ==> m2.h[o] == m.h[o]) && m2.k[o] == m.k[o] && m2.own[o] == m.own[o] && m2.gc[o] == m.gc[o],
        forall|o: int| #![trigger m2.h.contains_key(o)] m2.h.contains_key(o) && !m.h.contains_key(o) ==> o >= g.m0.nx
    ensures hold(h, m2)
{
    reveal(hold);
    assert forall|o: int| #![trigger m2.k[o]] 0 < o < g.m0.nx && g.m0.h.contains_key(o) && !g.s.contains(o) implies m2.k[o] == g.m0.k[o] by { assert(m.h.contains_key(o)); assert(m2.h.contains_key(o)); assert(m.k[o] == g.m0.k[o]); }
    assert forall|o: int| #![trigger m2.gc[o]] 0 < o < g.m0.nx && g.m0.h.contains_key(o) && !g.s.contains(o) implies m2.gc[o] == g.m0.gc[o] by { assert(m.h.contains_key(o)); assert(m2.h.contains_key(o)); assert(m.gc[o] == g.m0.gc[o]); }
    assert forall|o: int| #![trigger m2.own[o]] 0 < o < g.m0.nx && g.m0.h.contains_key(o) && !g.s.contains(o) implies m2.own[o] < g.m0.nx by { assert(m.h.contains_key(o)); assert(m2.h.contains_key(o)); assert(m.own[o] < g.m0.nx); }
    assert forall|o: int| #![trigger m2.h[o]] #![trigger m2.h.contains_key(o)] 0 < o < g.m0.nx implies m2.h.contains_key(o) == (g.m0.h.contains_key(o) && !g.s.contains(o)) && (g.m0.h.contains_key(o) && !g.s.contains(o) && o != g.c.o ==> m2.h[o] == g.m0.h[o]) by { assert(m.h.contains_key(o) == (g.m0.h.contains_key(o) && !g.s.contains(o))); if m.h.contains_key(o) { assert(m.h[o] == m.h[o]); } }
}
/// one queue was operated on
pub proof fn lem_hq(g: Ih, m: MemV, m2: MemV, i: int)
    requires hp(g, m), wf(m), wf(m2), g.a.contains(i), ({ let q = slo(m, g.q, i); q_ok(m2, q) && q_w(m2, q) == g.w && q_frame(m, m2, q) })
    ensures hp(g, m2), hv(g, m2) == hv(g, m).update(i, q_seq(m2, slo(m, g.q, i))), o_Container(m2, g.c.o) == o_Container(m, g.c.o), g.bw != 0 ==> u8s(m2, g.bw) == u8s(m, g.bw), ps(m2, g.q.o) == ps(m, g.q.o), forall|o: int| #![trigger m2.h[o]] 0 < o < g.m0.nx && !g.s.contains(o) && g.m0.h.contains_key(o) ==> m2.h[o] == m.h[o] && m2.h.contains_key(o)
{
    reveal(hp); reveal(hold); reveal(hcens);
    let q = slo(m, g.q, i);
    assert(hslot(g, m, i));
    assert forall|o: int| #![trigger m2.h[o]] #![trigger m2.h.contains_key(o)] 0 < o < g.m0.nx && m.h.contains_key(o) implies m2.h.contains_key(o) && m2.h[o] == m.h[o] && m2.k[o] == m.k[o] && m2.own[o] == m.own[o] && m2.gc[o] == m.gc[o] by { assert(m.own[o] < g.m0.nx); }
    assert(m.h.contains_key(g.q.o)); assert(m2.h[g.q.o] == m.h[g.q.o] && m2.own[g.q.o] == m.own[g.q.o]);
    assert forall|j: int| #[trigger] g.a.contains(j) implies hslot(g, m2, j) && (j != i ==> q_seq(m2, slo(m2, g.q, j)) == q_seq(m, slo(m, g.q, j))) by {
        assert(hslot(g, m, j)); let r = slo(m, g.q, j);
        assert(m2.own[r.o] == m.own[r.o]);
        if j != i { assert(hne(g, m, i, j)); assert(m2.h[r.o] == m.h[r.o]); lem_q_other(m, m2, q, r); }
    }
    assert forall|j: int, k: int| g.a.contains(j) && g.a.contains(k) && j != k implies #[trigger] hne(g, m2, j, k) by { assert(hne(g, m, j, k)); }
    assert forall|o: int| #![trigger m2.h.contains_key(o)] o >= g.m0.nx && m2.h.contains_key(o) implies o == g.q.o || o == g.bw || exists|i: int| #[trigger] hmine(g, m2, o, i) by {
        if m.h.contains_key(o) {
            if o != g.q.o && o != g.bw { let k = choose|k: int| #[trigger] hmine(g, m, o, k); assert(hmine(g, m, o, k)); assert(m2.own[o] == m.own[o]); assert(hmine(g, m2, o, k)); }
        } else { assert(m2.own[o] == q.o); assert(hmine(g, m2, o, i)); }
    }
    assert(m2.h[g.c.o] == m.h[g.c.o]);
    if g.bw != 0 { assert(m2.h[g.bw] == m.h[g.bw] && m2.own[g.bw] == m.own[g.bw]); }
    lem_hold(g, m, g, m2);
    assert(hcens(g, m2));
    assert(hcont(g, m2));
    assert(live(m2, g.q, 3));
    assert(m2.own[g.q.o] == 0);
    assert(g.bw != 0 ==> m2.h.contains_key(g.bw) && m2.k[g.bw] == 2);
    assert(hp(g, m2));
    assert(hv(g, m2) =~= hv(g, m).update(i, q_seq(m2, q)));
}
/// the container's columns or the output changed
pub proof fn lem_hcb(g: Ih, m: MemV, m2: MemV)
    requires hp(g, m), wf(m), m2 == (MemV { h: m2.h, ..m }), m2.h =~= (if g.bw != 0 { m.h.insert(g.c.o, m2.h[g.c.o]).insert(g.bw, m2.h[g.bw]) } else { m.h.insert(g.c.o, m2.h[g.c.o]) }), hcont(g, m2), g.bw != 0 ==> m2.h[g.bw] is U8
    ensures hp(g, m2), hv(g, m2) == hv(g, m), ps(m2, g.q.o) == ps(m, g.q.o), forall|o: int| #![trigger m2.h[o]] 0 < o < g.m0.nx && o != g.c.o ==> m2.h[o] == m.h[o] && m2.h.contains_key(o) == m.h.contains_key(o)
{
    reveal(hp); reveal(hold); reveal(hcens);
    assert(m2.h[g.q.o] == m.h[g.q.o]);
    assert(m.own[g.c.o] < g.m0.nx) by { assert(m.h.contains_key(g.c.o)); assert(g.m0.h.contains_key(g.c.o)); }
    assert forall|j: int| #[trigger] g.a.contains(j) implies hslot(g, m2, j) && q_seq(m2, slo(m2, g.q, j)) == q_seq(m, slo(m, g.q, j)) by {
        assert(hslot(g, m, j)); let r = slo(m, g.q, j);
        assert(q_kept(m, m2, r));
        lem_q_kept(m, m2, r);
    }
    assert forall|j: int, k: int| g.a.contains(j) && g.a.contains(k) && j != k implies #[trigger] hne(g, m2, j, k) by { assert(hne(g, m, j, k)); }
    assert forall|o: int| #![trigger m2.h.contains_key(o)] o >= g.m0.nx && m2.h.contains_key(o) implies o == g.q.o || o == g.bw || exists|i: int| #[trigger] hmine(g, m2, o, i) by {
        if o != g.q.o && o != g.bw { assert(m.h.contains_key(o)); let k = choose|k: int| #[trigger] hmine(g, m, o, k); assert(hmine(g, m, o, k)); assert(hmine(g, m2, o, k)); }
    }
    assert(hv(g, m2) =~= hv(g, m));
}
/// a new queue in an empty slot
pub proof fn lem_hnew(g: Ih, m: MemV, m1: MemV, m2: MemV, m3: MemV, i: int)
    requires hp(g, m), wf(m), wf(m1), wf(m2), !g.a.contains(i), 0 <= i < 774, ({ let o = m.nx; let p = PtrV { o: o, i: 0 };
        &&& exists|x: QueueV| m1 == #[trigger] alc(m, o, Obj::Queue(x), 1)
        &&& q_ok(m2, p) && q_w(m2, p) == g.w && q_seq(m2, p).len() == 0 && q_frame(m1, m2, p)
        &&& m3 == put(m2, g.q.o, Obj::P(ps(m2, g.q.o).update(i, p))) })
    ensures hp(Ih { a: g.a.insert(i), ..g }, m3), hv(Ih { a: g.a.insert(i), ..g }, m3) == hv(g, m), o_Container(m3, g.c.o) == o_Container(m, g.c.o), g.bw != 0 ==> u8s(m3, g.bw) == u8s(m, g.bw)
{
    reveal(hp); reveal(hold); reveal(hcens);
    let p = PtrV { o: m.nx, i: 0 }; let h = Ih { a: g.a.insert(i), ..g };
    let x = choose|x: QueueV| m1 == #[trigger] alc(m, m.nx, Obj::Queue(x), 1);
    assert(m1.own[p.o] == 0);
    assert forall|o: int| #![trigger m2.h[o]] #![trigger m2.h.contains_key(o)] m.h.contains_key(o) implies m2.h.contains_key(o) && m2.h[o] == m.h[o] && m2.k[o] == m.k[o] && m2.own[o] == m.own[o] && m2.ser[o] == m.ser[o] && m2.gc[o] == m.gc[o] && m2.gs[o] == m.gs[o] by { assert(m.own[o] < m.nx); assert(m1.h.contains_key(o) && m1.own[o] == m.own[o]); }
    assert(m2.h[g.q.o] == m.h[g.q.o]);
    assert(m2.own[g.q.o] == m.own[g.q.o]);
    assert forall|o: int| #![trigger m2.h.contains_key(o)] m2.h.contains_key(o) && !m.h.contains_key(o) implies o >= m.nx && (o == p.o || m2.own[o] == p.o) by { if !m1.h.contains_key(o) { assert(m2.own[o] == p.o); } }
    assert(m2.own[p.o] == 0) by { assert(m1.h.contains_key(p.o)); }
    assert(slo(m3, g.q, i) == p);
    assert(q_kept(m2, m3, p));
    lem_q_kept(m2, m3, p);
    assert(m1.h.contains_key(p.o));
    assert(hslot(h, m3, i));
    assert(q_seq(m3, p) =~= Seq::<u64>::empty());
    assert forall|j: int| #[trigger] g.a.contains(j) implies hslot(h, m3, j) && q_seq(m3, slo(m3, g.q, j)) == q_seq(m, slo(m, g.q, j)) by {
        assert(hslot(g, m, j)); let r = slo(m, g.q, j);
        assert(slo(m3, g.q, j) == r);
        assert(r.o < m.nx);
        assert(m2.h[r.o] == m.h[r.o]);
        assert(q_kept(m, m3, r)) by {
            assert forall|o: int| #![trigger m3.own[o]] m3.h.contains_key(o) && m3.own[o] == r.o implies m.h.contains_key(o) && m.own[o] == r.o by { if !m.h.contains_key(o) { assert(m2.h.contains_key(o)); assert(o == p.o || m2.own[o] == p.o); } else { assert(m2.h[o] == m.h[o]); } }
        }
        lem_q_kept(m, m3, r);
    }
    assert forall|j: int, k: int| h.a.contains(j) && h.a.contains(k) && j != k implies #[trigger] hne(h, m3, j, k) by {
        if g.a.contains(j) { assert(hslot(g, m, j)); } if g.a.contains(k) { assert(hslot(g, m, k)); }
        if g.a.contains(j) && g.a.contains(k) { assert(hne(g, m, j, k)); } }
    assert forall|o: int| #![trigger m3.h.contains_key(o)] o >= g.m0.nx && m3.h.contains_key(o) implies o == g.q.o || o == g.bw || exists|i: int| #[trigger] hmine(h, m3, o, i) by {
        assert(m2.h.contains_key(o));
        if m.h.contains_key(o) {
            if o != g.q.o && o != g.bw { let k = choose|k: int| #[trigger] hmine(g, m, o, k); assert(hmine(g, m, o, k)); assert(m2.h[o] == m.h[o]); assert(hmine(h, m3, o, k)); }
        } else { assert(hmine(h, m3, o, i)); }
    }
    assert(m2.h[g.c.o] == m.h[g.c.o]);
    if g.bw != 0 { assert(m2.h[g.bw] == m.h[g.bw]); }
    lem_hold(g, m, h, m3);
    assert(hcens(h, m3));
    assert(hcont(h, m3));
    assert(live(m3, g.q, 3));
    assert(m3.own[g.q.o] == 0);
    assert(g.bw != 0 ==> m3.h.contains_key(g.bw) && m3.k[g.bw] == 2);
    assert(hp(h, m3));
    assert(hv(h, m3) =~= hv(g, m));
}

/// the queue of a slot is released
pub proof fn lem_hdel(g: Ih, m: MemV, m1: MemV, m2: MemV, i: int)
    requires hp(g, m), wf(m), g.a.contains(i), ({ let q = slo(m, g.q, i);
        &&& m1 == (MemV { h: m1.h, k: m1.k, ..m })
        &&& forall|o: int| #![trigger m1.h[o]] #![trigger m1.h.contains_key(o)] m1.h.contains_key(o) == (m.h.contains_key(o) && m.own[o] != q.o)
        &&& forall|o: int| #![trigger m1.h[o]] #![trigger m1.h.contains_key(o)] m1.h.contains_key(o) ==> m1.h[o] == m.h[o] && m1.k[o] == m.k[o]
        &&& m2 == rm(m1, q.o) })
    ensures hp(Ih { a: g.a.remove(i), ..g }, m2), hv(Ih { a: g.a.remove(i), ..g }, m2) == hv(g, m).update(i, Seq::empty()), o_Container(m2, g.c.o) == o_Container(m, g.c.o), g.bw != 0 ==> u8s(m2, g.bw) == u8s(m, g.bw), ps(m2, g.q.o) == ps(m, g.q.o)
{
    reveal(hp); reveal(hcens);
    let q = slo(m, g.q, i); let h = Ih { a: g.a.remove(i), ..g };
    assert(hslot(g, m, i));
    assert forall|o: int| #![trigger m2.h[o]] #![trigger m2.h.contains_key(o)] m.h.contains_key(o) && m.own[o] != q.o && o != q.o implies m2.h.contains_key(o) && m2.h[o] == m.h[o] && m2.k[o] == m.k[o] by { assert(m1.h.contains_key(o)); }
    assert forall|o: int| #![trigger m2.h.contains_key(o)] m2.h.contains_key(o) implies m.h.contains_key(o) && m.own[o] != q.o && o != q.o by { assert(m1.h.contains_key(o)); }
    assert forall|o: int| #![trigger m2.h[o]] #![trigger m2.h.contains_key(o)] m.h.contains_key(o) && 0 < o < g.m0.nx implies m.own[o] != q.o && m2.h.contains_key(o) && m2.k[o] == m.k[o] by { reveal(hold); assert(m.own[o] < g.m0.nx); assert(m1.h.contains_key(o)); }
    assert(m.h.contains_key(g.q.o)); assert(m2.h[g.q.o] == m.h[g.q.o]);
    assert(m2.h[g.c.o] == m.h[g.c.o]) by { assert(m.h.contains_key(g.c.o)); }
    if g.bw != 0 { assert(m2.h[g.bw] == m.h[g.bw]); }
    assert forall|j: int| #[trigger] h.a.contains(j) implies hslot(h, m2, j) && q_seq(m2, slo(m2, g.q, j)) == q_seq(m, slo(m, g.q, j)) by {
        assert(hslot(g, m, j)); let r = slo(m, g.q, j); assert(hne(g, m, i, j));
        assert(m2.h[r.o] == m.h[r.o]);
        assert(q_kept(m, m2, r));
        lem_q_kept(m, m2, r);
    }
    assert forall|j: int, k: int| h.a.contains(j) && h.a.contains(k) && j != k implies #[trigger] hne(h, m2, j, k) by { assert(hne(g, m, j, k)); }
    assert forall|o: int| #![trigger m2.h.contains_key(o)] o >= g.m0.nx && m2.h.contains_key(o) implies o == g.q.o || o == g.bw || exists|i: int| #[trigger] hmine(h, m2, o, i) by {
        assert(m.h.contains_key(o));
        if o != g.q.o && o != g.bw { let k = choose|k: int| #[trigger] hmine(g, m, o, k); assert(hmine(g, m, o, k)); assert(hmine(h, m2, o, k)); }
    }
    lem_hold(g, m, h, m2);
    assert(hv(h, m2) =~= hv(g, m).update(i, Seq::empty()));
}
/// the array of sorted positions is released and the output comes
pub proof fn lem_hfree(g: Ih, m: MemV, m2: MemV, s: Set<int>)
    requires hp(g, m), wf(m), g.s == Set::<int>::empty(), g.bw == 0, !s.contains(g.c.o), forall|o: int| s.contains(o) ==> 0 < o < g.m0.nx,
        m2 == (MemV { h: m2.h, k: m2.k, ..m }), forall|o: int| #![trigger m2.h[o]] #![trigger m2.h.contains_key(o)] m2.h.contains_key(o) == (m.h.contains_key(o) && !s.contains(o)) && (!s.contains(o) ==> m2.h[o] == m.h[o] && m2.k[o] == m.k[o])
    ensures hp(Ih { s: s, ..g }, m2), hv(Ih { s: s, ..g }, m2) == hv(g, m), o_Container(m2, g.c.o) == o_Container(m, g.c.o), ps(m2, g.q.o) == ps(m, g.q.o)
{
    reveal(hp); reveal(hcens); 
    let h = Ih { s: s, ..g };
    assert(m2.h[g.q.o] == m.h[g.q.o]); assert(m2.h[g.c.o] == m.h[g.c.o]);
    assert forall|j: int| #[trigger] h.a.contains(j) implies hslot(h, m2, j) && q_seq(m2, slo(m2, g.q, j)) == q_seq(m, slo(m, g.q, j)) by {
        assert(g.a.contains(j)); assert(hslot(g, m, j)); let r = slo(m, g.q, j);
        assert(m2.h[r.o] == m.h[r.o]);
        assert(q_kept(m, m2, r)) by {
            assert forall|o: int| #![trigger m2.h[o]] #![trigger m2.h.contains_key(o)] m.h.contains_key(o) && (o == r.o || m.own[o] == r.o) implies m2.h.contains_key(o) && m2.h[o] == m.h[o] && m2.k[o] == m.k[o] by { if o < g.m0.nx { reveal(hold); assert(m.own[o] < g.m0.nx); } }
        }
        lem_q_kept(m, m2, r);
    }
    assert forall|j: int, k: int| h.a.contains(j) && h.a.contains(k) && j != k implies #[trigger] hne(h, m2, j, k) by { assert(hne(g, m, j, k)); }
    assert forall|o: int| #![trigger m2.h.contains_key(o)] o >= g.m0.nx && m2.h.contains_key(o) implies o == g.q.o || o == g.bw || exists|i: int| #[trigger] hmine(h, m2, o, i) by {
        assert(m.h.contains_key(o));
        if o != g.q.o { let k = choose|k: int| #[trigger] hmine(g, m, o, k); assert(hmine(g, m, o, k)); assert(hmine(h, m2, o, k)); }
    }
    assert(hold(h, m2)) by {
        reveal(hold);
        assert forall|o: int| #![trigger m2.k[o]] 0 < o < g.m0.nx && g.m0.h.contains_key(o) && !s.contains(o) implies m2.k[o] == g.m0.k[o] by { assert(m.h.contains_key(o)); assert(m2.h.contains_key(o)); assert(m.k[o] == g.m0.k[o]); }
    }
    assert(hv(h, m2) =~= hv(g, m));
}
pub proof fn lem_hout(g: Ih, m: MemV, m2: MemV, b: Seq<u8>)
    requires hp(g, m), wf(m), g.bw == 0, m2 == alc(m, m.nx, Obj::U8(b), 2)
    ensures hp(Ih { bw: m.nx, ..g }, m2), hv(Ih { bw: m.nx, ..g }, m2) == hv(g, m), o_Container(m2, g.c.o) == o_Container(m, g.c.o), ps(m2, g.q.o) == ps(m, g.q.o), u8s(m2, m.nx) == b
{
    reveal(hp); reveal(hcens); 
    let h = Ih { bw: m.nx, ..g };
    assert(m2.h[g.q.o] == m.h[g.q.o]); assert(m2.h[g.c.o] == m.h[g.c.o]);
    assert(m.nx != 0);
    assert forall|j: int| #[trigger] h.a.contains(j) implies hslot(h, m2, j) && q_seq(m2, slo(m2, g.q, j)) == q_seq(m, slo(m, g.q, j)) by {
        assert(g.a.contains(j)); assert(hslot(g, m, j)); let r = slo(m, g.q, j);
        assert(q_kept(m, m2, r));
        lem_q_kept(m, m2, r);
    }
    assert forall|j: int, k: int| h.a.contains(j) && h.a.contains(k) && j != k implies #[trigger] hne(h, m2, j, k) by { assert(hne(g, m, j, k)); }
    assert forall|o: int| #![trigger m2.h.contains_key(o)] o >= g.m0.nx && m2.h.contains_key(o) implies o == g.q.o || o == h.bw || exists|i: int| #[trigger] hmine(h, m2, o, i) by {
        if o != m.nx { assert(m.h.contains_key(o));
        if o != g.q.o { let k = choose|k: int| #[trigger] hmine(g, m, o, k); assert(hmine(g, m, o, k)); assert(hmine(h, m2, o, k)); } }
    }
    lem_hold(g, m, h, m2);
    assert(hv(h, m2) =~= hv(g, m));
}
/// the array of queue pointers
pub proof fn lem_hbegin(m0: MemV, m: MemV, c: PtrV, x: Seq<PtrV>, w: int)
    requires wf(m0), m == alc(m0, m0.nx, Obj::P(x), 3), x.len() == 774, is_Container(m0, c), cn_len(o_Container(m0, c.o))
    ensures ({ let g = Ih { m0: m0, c: c, q: PtrV { o: m0.nx, i: 0 }, s: Set::empty(), bw: 0, w: w, a: ISet::empty() }; hp(g, m) && hv(g, m) =~= Seq::new(774, |i: int| Seq::empty()) })
{
    reveal(hp); reveal(hcens); reveal(hold);
}
/// everything is released, only the result is left
pub proof fn lem_hend(g: Ih, m: MemV, m1: MemV, m2: MemV, r: PtrV, x: BWT_resultV, t: Seq<u8>)
    requires hp(g, m), wf(m), g.a =~= ISet::<int>::empty(), g.bw != 0, t == gtext(g.m0, g.c), is_bwt(t, x.last as int, u8s(m, g.bw)), x.BWT == (PtrV { o: g.bw, i: 0 }), r == (PtrV { o: m.nx, i: 0 }), m1 == alc(m, m.nx, Obj::BWT_result(x), 0), m2 == rm(m1, g.q.o)
    ensures induced(g.m0, m2, g.c, r, g.s)
{
    reveal(hp); reveal(hcens); reveal(hold);
    assert(m.h.contains_key(g.q.o) && m.h.contains_key(g.bw) && m.h[g.q.o] is P && m.h[g.bw] is U8);
    assert(m2.h[g.bw] == m.h[g.bw]); assert(m2.h[g.c.o] == m.h[g.c.o]);
    assert forall|o: int| #![trigger m2.h.contains_key(o)] o >= g.m0.nx && m2.h.contains_key(o) implies o == r.o || o == g.bw by {
        if o != r.o { assert(m.h.contains_key(o)); if o != g.bw { let k = choose|k: int| #[trigger] hmine(g, m, o, k); assert(hmine(g, m, o, k)); } } }
    assert forall|o: int| #![trigger m2.k[o]] 0 < o < g.m0.nx && g.m0.h.contains_key(o) && !g.s.contains(o) implies m2.k[o] == g.m0.k[o] by { assert(m.k[o] == g.m0.k[o]); }
}
