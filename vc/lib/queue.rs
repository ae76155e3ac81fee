// uses: packed
// Block queue.  m.gs[q] lists its blocks (ghost); every object of a queue carries the queue's tag and its block's serial number.
pub open spec fn q_bs(m: MemV, q: PtrV) -> Seq<PtrV> { m.gs[q.o] }
pub open spec fn q_b0(m: MemV, q: PtrV) -> int { m.ser[q_bs(m, q)[0].o] }
pub open spec fn q_b(m: MemV, q: PtrV, i: int) -> PtrV { o_qblock(m, q_bs(m, q)[i].o).b }
pub open spec fn tag(m: MemV, o: int, q: int, s: int) -> bool { m.own[o] == q && m.ser[o] == s }
pub open spec fn blk_ok(m: MemV, q: PtrV, p: PtrV, i: int) -> bool {
    let x = o_qblock(m, p.o);
    &&& is_qblock(m, p) && m.k[p.o] == 0 && p.o != 0
    &&& live(m, x.b, 1) && pa_ok(m, x.b) && pa_len(m, x.b) == 1024 && pa_w(m, x.b) == o_Queue(m, q.o).w && x.b.o != 0
    &&& tag(m, p.o, q.o, q_b0(m, q) + i) && tag(m, x.b.o, q.o, q_b0(m, q) + i) && tag(m, pa_arr(m, x.b), q.o, q_b0(m, q) + i)
    &&& x.next == (if i + 1 < q_bs(m, q).len() { q_bs(m, q)[i + 1] } else { NUL() })
}
/// no object outside the block list carries the queue's tag: nothing is leaked
pub open spec fn q_closed(m: MemV, q: PtrV) -> bool {
    forall|o: int| #![trigger m.own[o]] m.h.contains_key(o) && m.own[o] == q.o ==> ({
        let i = m.ser[o] - q_b0(m, q);
        0 <= i < q_bs(m, q).len() && (o == q_bs(m, q)[i].o || o == q_b(m, q, i).o || o == pa_arr(m, q_b(m, q, i)))
    })
}
/// as q_ok, but the first or last block may still (or already) be empty
pub open spec fn q_gen(m: MemV, q: PtrV) -> bool {
    let x = o_Queue(m, q.o); let bs = q_bs(m, q);
    &&& is_Queue(m, q) && 1 <= x.w <= 64 && m.own[q.o] != q.o
    &&& if bs.len() == 0 { x.sb == NUL() && x.eb == NUL() && x.s_ofs == 0 && x.e_ofs == 1023 && x.n == 0 }
        else { x.sb == bs[0] && x.eb == bs[bs.len() - 1] && 0 <= x.s_ofs <= 1024 && -1 <= x.e_ofs <= 1023
            && x.n == (bs.len() - 1) * 1024 + x.e_ofs + 1 - x.s_ofs }
    &&& forall|i: int| 0 <= i < bs.len() ==> #[trigger] blk_ok(m, q, bs[i], i)
    &&& q_closed(m, q)
}
pub open spec fn q_ok(m: MemV, q: PtrV) -> bool {
    q_gen(m, q) && (q_bs(m, q).len() > 0 ==> o_Queue(m, q.o).s_ofs <= 1023 && o_Queue(m, q.o).e_ofs >= 0)
}
pub open spec fn q_n(m: MemV, q: PtrV) -> int { o_Queue(m, q.o).n as int }
pub open spec fn q_w(m: MemV, q: PtrV) -> int { o_Queue(m, q.o).w as int }
pub open spec fn q_at(m: MemV, q: PtrV, t: int) -> u64 { pa_get(m, q_b(m, q, t / 1024), t % 1024) }
/// the mathematical sequence held by the queue
pub open spec fn q_seq(m: MemV, q: PtrV) -> Seq<u64> { Seq::new(q_n(m, q) as nat, |j: int| q_at(m, q, o_Queue(m, q.o).s_ofs + j)) }
/// only the queue object, objects tagged with it and fresh objects (tagged with it) may change
pub open spec fn q_frame(a: MemV, b: MemV, q: PtrV) -> bool {
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] a.h.contains_key(o) && o != q.o && a.own[o] != q.o ==> b.h.contains_key(o) && b.h[o] == a.h[o] && b.k[o] == a.k[o]
    &&& forall|o: int| #![trigger b.own[o]] a.h.contains_key(o) && a.own[o] != q.o ==> b.own[o] == a.own[o] && b.ser[o] == a.ser[o]
    &&& forall|o: int| #![trigger b.own[o]] a.h.contains_key(o) && a.own[o] == q.o ==> b.own[o] == q.o
    &&& forall|o: int| #![trigger b.h.contains_key(o)] #![trigger b.own[o]] b.h.contains_key(o) && !a.h.contains_key(o) ==> b.own[o] == q.o && o >= a.nx
    &&& (forall|o: int| #![trigger b.gc[o]] a.h.contains_key(o) ==> b.gc[o] == a.gc[o]) && forall|o: int| #![trigger b.gs[o]] a.h.contains_key(o) && o != q.o ==> b.gs[o] == a.gs[o]
    &&& b.k[q.o] == a.k[q.o] && a.nx <= b.nx && a.io == b.io
}

/// block i of queue q in state a is block j of the same queue in state b, contents included
pub open spec fn blk_same(a: MemV, b: MemV, q: PtrV, i: int, j: int) -> bool {
    &&& q_b(b, q, j) == q_b(a, q, i)
    &&& q_bs(b, q)[j] == q_bs(a, q)[i]
    &&& b.h[q_b(a, q, i).o] == a.h[q_b(a, q, i).o]
    &&& b.h[pa_arr(a, q_b(a, q, i))] == a.h[pa_arr(a, q_b(a, q, i))]
}
pub proof fn lem_at_same(a: MemV, b: MemV, q: PtrV, i: int, j: int, s: int)
    requires blk_same(a, b, q, i, j), 0 <= s < 1024
    ensures q_at(b, q, 1024 * j + s) == q_at(a, q, 1024 * i + s)
{
    assert((1024 * j + s) / 1024 == j && (1024 * j + s) % 1024 == s);
    assert((1024 * i + s) / 1024 == i && (1024 * i + s) % 1024 == s);
}
/// where a tagged object sits
pub open spec fn q_place(m: MemV, q: PtrV, o: int, i: int) -> bool {
    o == q_bs(m, q)[i].o || o == q_b(m, q, i).o || o == pa_arr(m, q_b(m, q, i))
}
/// operating on one queue changes no other
pub proof fn lem_q_other(a: MemV, b: MemV, q: PtrV, r: PtrV)
    requires q_ok(a, q), q_ok(a, r), q_frame(a, b, q), q.o != r.o, wf(a)
    ensures q_ok(b, r), q_seq(b, r) == q_seq(a, r)
{
    if a.own[r.o] == q.o {
        let i = a.ser[r.o] - q_b0(a, q);
        assert(blk_ok(a, q, q_bs(a, q)[i], i));
    }
    let n = q_bs(a, r).len();
    assert(b.h[r.o] == a.h[r.o]);
    assert(q_bs(b, r) == q_bs(a, r)) by { assert(a.h.contains_key(r.o)); }
    if n > 0 { assert(blk_ok(a, r, q_bs(a, r)[0], 0)); assert(b.own[q_bs(a, r)[0].o] == a.own[q_bs(a, r)[0].o]); }
    assert(n > 0 ==> q_b0(b, r) == q_b0(a, r));
    assert forall|i: int| 0 <= i < n implies #[trigger] blk_ok(b, r, q_bs(b, r)[i], i) && blk_same(a, b, r, i, i) by {
        let p = q_bs(a, r)[i];
        assert(blk_ok(a, r, p, i));
        assert(b.h[p.o] == a.h[p.o]);
        assert(b.h[q_b(a, r, i).o] == a.h[q_b(a, r, i).o]);
        assert(b.h[pa_arr(a, q_b(a, r, i))] == a.h[pa_arr(a, q_b(a, r, i))]);
        assert(b.own[p.o] == a.own[p.o] && b.own[q_b(a, r, i).o] == a.own[q_b(a, r, i).o] && b.own[pa_arr(a, q_b(a, r, i))] == a.own[pa_arr(a, q_b(a, r, i))]);
    }
    assert(q_closed(b, r)) by {
        assert forall|o: int| #![trigger b.own[o]] b.h.contains_key(o) && b.own[o] == r.o implies ({
            let i = b.ser[o] - q_b0(b, r); 0 <= i < q_bs(b, r).len() && q_place(b, r, o, i) }) by {
            if !a.h.contains_key(o) { assert(b.own[o] == q.o); }
            assert(a.own[o] == r.o);
            let i = a.ser[o] - q_b0(a, r);
            assert(q_place(a, r, o, i));
            assert(blk_ok(b, r, q_bs(b, r)[i], i));
        }
    }
    assert forall|j: int| 0 <= j < q_n(a, r) implies #[trigger] q_seq(b, r)[j] == q_seq(a, r)[j] by {
        let t = o_Queue(a, r.o).s_ofs + j; let i = t / 1024;
        assert(blk_ok(b, r, q_bs(b, r)[i], i));
        lem_at_same(a, b, r, i, i, t % 1024);
    }
    assert(q_seq(b, r) =~= q_seq(a, r));
}

/// what storing element s of block i does
pub open spec fn stored(a: MemV, b: MemV, q: PtrV, i: int, s: int, x: u64) -> bool {
    let arr = pa_arr(a, q_b(a, q, i)); let y = o_Queue(b, q.o); let z = o_Queue(a, q.o);
    &&& b == put(put(a, arr, Obj::U64(u64s(b, arr))), q.o, Obj::Queue(y))
    &&& y.w == z.w && y.sb == z.sb && y.eb == z.eb
    &&& u64s(b, arr).len() == u64s(a, arr).len()
    &&& pget(u64s(b, arr), y.w as int, s) == x
    &&& forall|j: int| 0 <= j < 1024 && j != s ==> #[trigger] pget(u64s(b, arr), y.w as int, j) == pget(u64s(a, arr), y.w as int, j)
}
proof fn lem_store_blk(a: MemV, b: MemV, q: PtrV, i: int, s: int, x: u64, j: int)
    requires q_gen(a, q), wf(a), 0 <= i < q_bs(a, q).len(), 0 <= j < q_bs(a, q).len(), 0 <= s < 1024, stored(a, b, q, i, s, x)
    ensures blk_ok(b, q, q_bs(b, q)[j], j), j != i ==> blk_same(a, b, q, j, j), q_b(b, q, j) == q_b(a, q, j), b.h[q_b(a, q, j).o] == a.h[q_b(a, q, j).o],
        q_bs(b, q) == q_bs(a, q), q_b0(b, q) == q_b0(a, q)
{
    let arr = pa_arr(a, q_b(a, q, i));
    assert(blk_ok(a, q, q_bs(a, q)[i], i));
    assert(blk_ok(a, q, q_bs(a, q)[j], j));
    assert(blk_ok(a, q, q_bs(a, q)[0], 0));
    let p = q_bs(a, q)[j];
    assert(b.h[p.o] == a.h[p.o]);
    let c = q_b(a, q, j);
    assert(b.h[c.o] == a.h[c.o]);
    if j != i { assert(pa_arr(a, c) != arr); assert(b.h[pa_arr(a, c)] == a.h[pa_arr(a, c)]); }
}
/// one element of block i is stored and the queue's own fields change
pub proof fn lem_q_store(a: MemV, b: MemV, q: PtrV, i: int, s: int, x: u64)
    requires q_gen(a, q), wf(a), 0 <= i < q_bs(a, q).len(), 0 <= s < 1024, stored(a, b, q, i, s, x)
    ensures forall|j: int| 0 <= j < q_bs(a, q).len() ==> #[trigger] blk_ok(b, q, q_bs(b, q)[j], j), q_closed(b, q), q_frame(a, b, q), q_bs(b, q) == q_bs(a, q),
        is_Queue(b, q), b.own[q.o] != q.o, q_at(b, q, 1024 * i + s) == x,
        forall|t: int| 0 <= t < 1024 * q_bs(a, q).len() && t != 1024 * i + s ==> #[trigger] q_at(b, q, t) == q_at(a, q, t),
{
    let arr = pa_arr(a, q_b(a, q, i));
    assert(blk_ok(a, q, q_bs(a, q)[i], i));
    lem_store_blk(a, b, q, i, s, x, i);
    assert forall|j: int| 0 <= j < q_bs(a, q).len() implies #[trigger] blk_ok(b, q, q_bs(b, q)[j], j) by { lem_store_blk(a, b, q, i, s, x, j); }
    assert forall|t: int| 0 <= t < 1024 * q_bs(a, q).len() && t != 1024 * i + s implies #[trigger] q_at(b, q, t) == q_at(a, q, t) by {
        let j = t / 1024;
        lem_store_blk(a, b, q, i, s, x, j);
        assert(t == 1024 * j + t % 1024);
        if j != i { lem_at_same(a, b, q, j, j, t % 1024); }
    }
    assert((1024 * i + s) / 1024 == i && (1024 * i + s) % 1024 == s);
    assert(q_closed(b, q)) by {
        assert forall|o: int| #![trigger b.own[o]] b.h.contains_key(o) && b.own[o] == q.o implies ({
            let j = b.ser[o] - q_b0(b, q); 0 <= j < q_bs(b, q).len() && q_place(b, q, o, j) }) by {
            assert(a.h.contains_key(o) && a.own[o] == q.o);
            let j = a.ser[o] - q_b0(a, q);
            assert(q_place(a, q, o, j));
            lem_store_blk(a, b, q, i, s, x, j);
        }
    }
}
pub open spec fn blk_link(a: MemV, b: MemV, q: PtrV, d: int, p: PtrV, i: int) -> bool {
    let bs0 = q_bs(a, q); let u = bs0[i];
    is_qblock(b, u) && o_qblock(b, u.o).b == o_qblock(a, u.o).b
           && o_qblock(b, u.o).next == (if i + 1 < bs0.len() { bs0[i + 1] } else if d == 0 { p } else { NUL() })
}
/// a fresh block P is linked at the back (d = 0) or at the front (d = 1)
pub open spec fn relinked(a: MemV, b: MemV, q: PtrV, d: int, p: PtrV) -> bool {
    let bs0 = q_bs(a, q); let bs1 = q_bs(b, q); let x = o_Queue(a, q.o); let y = o_Queue(b, q.o); let c = o_qblock(b, p.o).b; let ar = pa_arr(b, c);
    &&& bs1 == (if d == 0 { bs0.push(p) } else { seq![p] + bs0 })
    &&& is_Queue(b, q) && y.w == x.w && y.n == x.n && b.own[q.o] == a.own[q.o] && b.k[q.o] == a.k[q.o]
    &&& p.o >= a.nx && c.o >= a.nx && ar >= a.nx && a.nx <= b.nx && a.io == b.io
    &&& is_qblock(b, p) && b.k[p.o] == 0 && live(b, c, 1) && pa_ok(b, c) && pa_len(b, c) == 1024 && pa_w(b, c) == x.w
    &&& ({ let s = if bs0.len() == 0 { 0 } else if d == 0 { q_b0(a, q) + bs0.len() } else { q_b0(a, q) - 1 };
           tag(b, p.o, q.o, s) && tag(b, c.o, q.o, s) && tag(b, ar, q.o, s) })
    &&& o_qblock(b, p.o).next == (if d == 0 || bs0.len() == 0 { NUL() } else { bs0[0] })
    &&& forall|o: int| #![trigger b.h.contains_key(o)] b.h.contains_key(o) && !a.h.contains_key(o) ==> o == p.o || o == c.o || o == ar
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] a.h.contains_key(o) && o != q.o && a.own[o] != q.o ==> b.h.contains_key(o) && b.h[o] == a.h[o]
    &&& forall|o: int| #![trigger b.own[o]] #![trigger b.h[o]] #![trigger b.h.contains_key(o)] a.h.contains_key(o) ==> b.own[o] == a.own[o] && b.ser[o] == a.ser[o] && b.k[o] == a.k[o]
    &&& (forall|o: int| #![trigger b.gc[o]] a.h.contains_key(o) ==> b.gc[o] == a.gc[o]) && forall|o: int| #![trigger b.gs[o]] a.h.contains_key(o) && o != q.o ==> b.gs[o] == a.gs[o]
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] a.h.contains_key(o) && !(a.h[o] is qblock) && o != q.o ==> b.h.contains_key(o) && b.h[o] == a.h[o]
    &&& forall|i: int| 0 <= i < bs0.len() ==> #[trigger] blk_link(a, b, q, d, p, i)
}

proof fn lem_relink_blk(a: MemV, b: MemV, q: PtrV, d: int, p: PtrV, i: int)
    requires q_ok(a, q), wf(a), relinked(a, b, q, d, p), d == 0 || d == 1, 0 <= i < q_bs(a, q).len()
    ensures blk_ok(b, q, q_bs(b, q)[i + d], i + d), blk_same(a, b, q, i, i + d), q_b0(b, q) == q_b0(a, q) - d, q_bs(b, q).len() == q_bs(a, q).len() + 1
{
    let bs0 = q_bs(a, q); let bs1 = q_bs(b, q);
    assert(blk_ok(a, q, bs0[0], 0));
    assert(b.own[bs0[0].o] == a.own[bs0[0].o]);
    let u = bs0[i];
    assert(bs1[i + d] == u);
    assert(blk_ok(a, q, u, i));
    assert(blk_link(a, b, q, d, p, i));
    let c = q_b(a, q, i);
    assert(b.h[c.o] == a.h[c.o]);
    assert(b.h[pa_arr(a, c)] == a.h[pa_arr(a, c)]);
    assert(b.own[u.o] == a.own[u.o] && b.own[c.o] == a.own[c.o] && b.own[pa_arr(a, c)] == a.own[pa_arr(a, c)]);
    if i + 1 < bs0.len() { assert(bs1[i + 1 + d] == bs0[i + 1]); }
}
pub proof fn lem_q_relink(a: MemV, b: MemV, q: PtrV, d: int, p: PtrV)
    requires q_ok(a, q), wf(a), relinked(a, b, q, d, p), d == 0 || d == 1
    ensures forall|j: int| 0 <= j < q_bs(b, q).len() ==> #[trigger] blk_ok(b, q, q_bs(b, q)[j], j), q_closed(b, q), q_frame(a, b, q),
        forall|t: int| #![trigger q_at(b, q, t + 1024 * d)] 0 <= t < 1024 * q_bs(a, q).len() ==> q_at(b, q, t + 1024 * d) == q_at(a, q, t),
        q_bs(b, q).len() == q_bs(a, q).len() + 1, q_bs(b, q)[if d == 0 { q_bs(a, q).len() as int } else { 0 }] == p,
{
    let bs0 = q_bs(a, q); let bs1 = q_bs(b, q); let n = bs0.len();
    let f = if d == 0 { n as int } else { 0 };
    assert(bs1[f] == p);
    if n > 0 { lem_relink_blk(a, b, q, d, p, 0); assert(bs1[0] == (if d == 0 { bs0[0] } else { p })); }
    assert(blk_ok(b, q, p, f)) by { if d == 1 && n > 0 { assert(bs1[1] == bs0[0]); } }
    assert forall|j: int| 0 <= j < bs1.len() implies #[trigger] blk_ok(b, q, bs1[j], j) by {
        if j != f { lem_relink_blk(a, b, q, d, p, j - d); }
    }
    assert forall|t: int| #![trigger q_at(b, q, t + 1024 * d)] 0 <= t < 1024 * n implies q_at(b, q, t + 1024 * d) == q_at(a, q, t) by {
        let i = t / 1024;
        lem_relink_blk(a, b, q, d, p, i);
        lem_at_same(a, b, q, i, i + d, t % 1024);
        assert(t + 1024 * d == 1024 * (i + d) + t % 1024);
        assert(t == 1024 * i + t % 1024);
    }
    assert(q_closed(b, q)) by {
        assert forall|o: int| #![trigger b.own[o]] b.h.contains_key(o) && b.own[o] == q.o implies ({
            let i = b.ser[o] - q_b0(b, q); 0 <= i < bs1.len() && q_place(b, q, o, i) }) by {
            if a.h.contains_key(o) {
                assert(a.own[o] == q.o);
                let i = a.ser[o] - q_b0(a, q);
                assert(q_place(a, q, o, i));
                lem_relink_blk(a, b, q, d, p, i);
            }
        }
    }
}
/// the first block is unlinked and released
pub open spec fn dropped(a: MemV, b: MemV, q: PtrV) -> bool {
    let bs0 = q_bs(a, q); let bs1 = q_bs(b, q); let x = o_Queue(a, q.o); let y = o_Queue(b, q.o);
    &&& bs0.len() > 0 && bs1 == bs0.subrange(1, bs0.len() as int)
    &&& is_Queue(b, q) && y.w == x.w && b.own == a.own && b.ser == a.ser && a.nx <= b.nx && a.io == b.io
    &&& (forall|o: int| #![trigger b.gc[o]] a.h.contains_key(o) ==> b.gc[o] == a.gc[o]) && forall|o: int| #![trigger b.gs[o]] a.h.contains_key(o) && o != q.o ==> b.gs[o] == a.gs[o]
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] b.h.contains_key(o) == (a.h.contains_key(o) && !q_place(a, q, o, 0))
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] b.h.contains_key(o) ==> b.k[o] == a.k[o]
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] b.h.contains_key(o) && o != q.o && (a.own[o] != q.o || !(a.h[o] is qblock)) ==> b.h[o] == a.h[o]
    &&& forall|i: int| 1 <= i < bs0.len() ==> #[trigger] blk_keep(a, b, q, i)
}
pub open spec fn blk_keep(a: MemV, b: MemV, q: PtrV, i: int) -> bool {
    let u = q_bs(a, q)[i];
    is_qblock(b, u) && o_qblock(b, u.o).b == o_qblock(a, u.o).b && o_qblock(b, u.o).next == o_qblock(a, u.o).next
}
proof fn lem_drop_blk(a: MemV, b: MemV, q: PtrV, i: int)
    requires q_ok(a, q), wf(a), dropped(a, b, q), 1 <= i < q_bs(a, q).len()
    ensures blk_ok(b, q, q_bs(b, q)[i - 1], i - 1), blk_same(a, b, q, i, i - 1), q_b0(b, q) == q_b0(a, q) + 1, q_bs(b, q).len() == q_bs(a, q).len() - 1
{
    let bs0 = q_bs(a, q); let bs1 = q_bs(b, q);
    assert(blk_ok(a, q, bs0[0], 0));
    assert(blk_ok(a, q, bs0[1], 1));
    assert(bs1[0] == bs0[1]);
    let u = bs0[i];
    assert(bs1[i - 1] == u);
    assert(blk_ok(a, q, u, i));
    assert(blk_keep(a, b, q, i));
    let c = q_b(a, q, i);
    assert(b.h[c.o] == a.h[c.o]);
    assert(b.h[pa_arr(a, c)] == a.h[pa_arr(a, c)]);
    if i + 1 < bs0.len() { assert(bs1[i] == bs0[i + 1]); }
}
pub proof fn lem_q_drop(a: MemV, b: MemV, q: PtrV)
    requires q_ok(a, q), wf(a), dropped(a, b, q)
    ensures forall|j: int| 0 <= j < q_bs(b, q).len() ==> #[trigger] blk_ok(b, q, q_bs(b, q)[j], j), q_closed(b, q), q_frame(a, b, q),
        forall|t: int| #![trigger q_at(b, q, t)] 0 <= t < 1024 * q_bs(b, q).len() ==> q_at(b, q, t) == q_at(a, q, t + 1024),
        q_bs(b, q).len() == q_bs(a, q).len() - 1,
{
    let bs0 = q_bs(a, q); let bs1 = q_bs(b, q); let n = bs1.len();
    assert(blk_ok(a, q, bs0[0], 0));
    assert forall|j: int| 0 <= j < n implies #[trigger] blk_ok(b, q, bs1[j], j) by { lem_drop_blk(a, b, q, j + 1); }
    assert forall|t: int| #![trigger q_at(b, q, t)] 0 <= t < 1024 * n implies q_at(b, q, t) == q_at(a, q, t + 1024) by {
        let i = t / 1024;
        lem_drop_blk(a, b, q, i + 1);
        lem_at_same(a, b, q, i + 1, i, t % 1024);
        assert(t == 1024 * i + t % 1024);
        assert(t + 1024 == 1024 * (i + 1) + t % 1024);
    }
    assert(q_closed(b, q)) by {
        assert forall|o: int| #![trigger b.own[o]] b.h.contains_key(o) && b.own[o] == q.o implies ({
            let i = b.ser[o] - q_b0(b, q); 0 <= i < bs1.len() && q_place(b, q, o, i) }) by {
            let i = a.ser[o] - q_b0(a, q);
            assert(q_place(a, q, o, i));
            lem_drop_blk(a, b, q, i);
        }
    }
}
/// only the queue's own offsets and count change
pub proof fn lem_q_adv(a: MemV, b: MemV, q: PtrV)
    requires q_gen(a, q), wf(a), b == put(a, q.o, b.h[q.o]), b.h[q.o] is Queue, ({ let y = o_Queue(b, q.o); let z = o_Queue(a, q.o); y.w == z.w && y.sb == z.sb && y.eb == z.eb })
    ensures forall|j: int| 0 <= j < q_bs(a, q).len() ==> #[trigger] blk_ok(b, q, q_bs(b, q)[j], j), q_closed(b, q), q_frame(a, b, q), q_bs(b, q) == q_bs(a, q),
        forall|t: int| #![trigger q_at(b, q, t)] 0 <= t < 1024 * q_bs(a, q).len() ==> q_at(b, q, t) == q_at(a, q, t),
{
    assert forall|j: int| 0 <= j < q_bs(a, q).len() implies #[trigger] blk_ok(b, q, q_bs(b, q)[j], j) by { assert(blk_ok(a, q, q_bs(a, q)[j], j)); }
    assert forall|t: int| #![trigger q_at(b, q, t)] 0 <= t < 1024 * q_bs(a, q).len() implies q_at(b, q, t) == q_at(a, q, t) by { assert(blk_ok(a, q, q_bs(a, q)[t / 1024], t / 1024)); }
    assert(q_closed(b, q)) by {
        assert forall|o: int| #![trigger b.own[o]] b.h.contains_key(o) && b.own[o] == q.o implies ({
            let i = b.ser[o] - q_b0(b, q); 0 <= i < q_bs(b, q).len() && q_place(b, q, o, i) }) by {
            let i = a.ser[o] - q_b0(a, q);
            assert(q_place(a, q, o, i));
            assert(blk_ok(a, q, q_bs(a, q)[i], i));
        }
    }
}
/// the first i blocks have been released
pub open spec fn q_gone(a: MemV, b: MemV, q: PtrV, i: int) -> bool {
    &&& b == MemV { h: b.h, k: b.k, ..a }
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] b.h.contains_key(o) == (a.h.contains_key(o) && !(a.own[o] == q.o && a.ser[o] - q_b0(a, q) < i))
    &&& forall|o: int| #![trigger b.k.contains_key(o)] b.k.contains_key(o) == b.h.contains_key(o)
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] b.h.contains_key(o) ==> b.h[o] == a.h[o] && b.k[o] == a.k[o]
}
pub proof fn lem_q_gone(a: MemV, b: MemV, c: MemV, q: PtrV, i: int)
    requires q_ok(a, q), 0 <= i < q_bs(a, q).len(), q_gone(a, b, q, i),
        ({ let p = q_bs(a, q)[i]; let x = q_b(a, q, i); let arr = pa_arr(a, x); c == rm(rm(rm(b, arr), x.o), p.o) })
    ensures q_gone(a, c, q, i + 1)
{
    assert(blk_ok(a, q, q_bs(a, q)[i], i));
    assert forall|o: int| #![trigger c.h[o]] #![trigger c.h.contains_key(o)] c.h.contains_key(o) == (a.h.contains_key(o) && !(a.own[o] == q.o && a.ser[o] - q_b0(a, q) < i + 1)) by {
        if a.h.contains_key(o) && a.own[o] == q.o && a.ser[o] - q_b0(a, q) == i { assert(q_place(a, q, o, i)); }
        assert(b.h.contains_key(o) == (a.h.contains_key(o) && !(a.own[o] == q.o && a.ser[o] - q_b0(a, q) < i)));
    }
}
