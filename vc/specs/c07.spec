@fn Queue::ctor
@params w
@uses queue
@requires
  is_Queue(M0, this_@), 1 <= w <= 64, forall|o: int| #![trigger M0.own[o]] M0.h.contains_key(o) ==> M0.own[o] != this_@.o
@ensures
  q_ok(M1, this_@), q_w(M1, this_@) == w, q_seq(M1, this_@) == Seq::<u64>::empty(), q_frame(M0, M1, this_@),
@at entry
set_gs(mem, Ghost(this_@.o), Ghost(Seq::empty()));
@at exit
proof { assert(q_seq(MM, this_@) =~= Seq::<u64>::empty()); }

@fn Queue::is_empty
@uses queue
@requires q_ok(M0, this_@)
@ensures ret == (q_seq(M0, this_@).len() == 0)

@fn Queue::enqueue
@params x
@uses queue
@requires
  q_ok(M0, this_@), fits(x, q_w(M0, this_@)), q_n(M0, this_@) < 0x4000_0000_0000_0000
@ensures
  q_ok(M1, this_@), q_w(M1, this_@) == q_w(M0, this_@), q_seq(M1, this_@) == q_seq(M0, this_@).push(x), q_frame(M0, M1, this_@),
@at entry
let ghost bs0 = q_bs(mem@, this_@); let ghost sn = if bs0.len() == 0 { 0 } else { q_b0(mem@, this_@) + bs0.len() };
proof { assert(bs0.len() > 0 ==> blk_ok(M0, this_@, bs0[bs0.len() - 1], bs0.len() - 1)); }
@at after call new_PackedArray 1
let ghost arr_ = pa_arr(mem@, RES@);
proof { mem_wf(*mem); }
set_own(mem, Ghost(qb@.o), Ghost(this_@.o), Ghost(sn));
set_own(mem, Ghost(RES@.o), Ghost(this_@.o), Ghost(sn));
set_own(mem, Ghost(arr_), Ghost(this_@.o), Ghost(sn));
set_gs(mem, Ghost(this_@.o), Ghost(bs0.push(qb@)));
@at if 1 then end
proof {
    let a = M0; let b = MM; let q = this_@; let d = 0int; let p = qb@;
    let bs0 = q_bs(a, q); let bs1 = q_bs(b, q); let x = o_Queue(a, q.o); let y = o_Queue(b, q.o); let c = o_qblock(b, p.o).b; let ar = pa_arr(b, c);
    assert(bs1 == bs0.push(p));
    assert(is_Queue(b, q) && y.w == x.w && y.n == x.n && b.own[q.o] == a.own[q.o] && b.k[q.o] == a.k[q.o]);
    assert(p.o >= a.nx && c.o >= a.nx && ar >= a.nx && a.nx <= b.nx && a.io == b.io);
    assert(is_qblock(b, p) && b.k[p.o] == 0 && live(b, c, 1) && pa_ok(b, c) && pa_len(b, c) == 1024 && pa_w(b, c) == x.w);
    assert(({ let s = if bs0.len() == 0 { 0 } else if d == 0 { q_b0(a, q) + bs0.len() } else { q_b0(a, q) - 1 };
           tag(b, p.o, q.o, s) && tag(b, c.o, q.o, s) && tag(b, ar, q.o, s) }));
    assert(o_qblock(b, p.o).next == (if d == 0 || bs0.len() == 0 { NUL() } else { bs0[0] }));
    assert(forall|o: int| #![trigger b.h.contains_key(o)] b.h.contains_key(o) && !a.h.contains_key(o) ==> o == p.o || o == c.o || o == ar);
    assert(forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] a.h.contains_key(o) && o != q.o && a.own[o] != q.o ==> b.h.contains_key(o) && b.h[o] == a.h[o]);
    assert(forall|o: int| #![trigger b.own[o]] #![trigger b.h[o]] #![trigger b.h.contains_key(o)] a.h.contains_key(o) ==> b.own[o] == a.own[o] && b.ser[o] == a.ser[o] && b.k[o] == a.k[o]);
    assert(forall|o: int| #![trigger b.gs[o]] a.h.contains_key(o) && o != q.o ==> b.gs[o] == a.gs[o]);
    assert(forall|o: int| #![trigger b.gc[o]] a.h.contains_key(o) ==> b.gc[o] == a.gc[o]);
    assert(forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] a.h.contains_key(o) && !(a.h[o] is qblock) && o != q.o ==> b.h.contains_key(o) && b.h[o] == a.h[o]);
    assert forall|i: int| 0 <= i < bs0.len() implies #[trigger] blk_link(a, b, q, 0, p, i) by { assert(blk_ok(a, q, bs0[i], i)); }
  assert(relinked(M0, MM, this_@, 0, qb@));
  lem_q_relink(M0, MM, this_@, 0, qb@);
}
@at if 1 post
let ghost m1 = mem@;
proof {
  mem_wf(*mem);
  assert(q_gen(m1, this_@)); assert(o_Queue(m1, this_@.o).e_ofs < 1023);
  let k = q_bs(m1, this_@).len() - 1;
  assert(blk_ok(m1, this_@, q_bs(m1, this_@)[k], k));
}
@at after call set_value 1
let ghost m2 = mem@;
@at exit
proof {
  let k = q_bs(m1, this_@).len() - 1; let s = o_Queue(m1, this_@.o).e_ofs + 1; let arr = pa_arr(m1, q_b(m1, this_@, k));
  assert(MM =~= put(put(m1, arr, Obj::U64(u64s(MM, arr))), this_@.o, MM.h[this_@.o]));
  let y = o_Queue(MM, this_@.o); let z = o_Queue(m1, this_@.o);
  assert(MM == put(put(m1, arr, Obj::U64(u64s(MM, arr))), this_@.o, Obj::Queue(y)));
  assert(y.w == z.w && y.sb == z.sb && y.eb == z.eb);
  assert(u64s(MM, arr).len() == u64s(m1, arr).len());
  assert(pget(u64s(MM, arr), y.w as int, s) == x);
  assert forall|j: int| 0 <= j < 1024 && j != s implies #[trigger] pget(u64s(MM, arr), y.w as int, j) == pget(u64s(m1, arr), y.w as int, j) by { let g = pa_get(m2, q_b(m1, this_@, k), j); }
  lem_q_store(m1, MM, this_@, k, s, x);
  let n = q_n(M0, this_@); let so = o_Queue(MM, this_@.o).s_ofs;
  assert forall|j: int| 0 <= j < n implies #[trigger] q_seq(MM, this_@)[j] == q_seq(M0, this_@)[j] by {
    assert(q_at(MM, this_@, so + j) == q_at(m1, this_@, so + j));
    assert(q_at(m1, this_@, so + j + 1024 * 0) == q_at(M0, this_@, so + j));
  }
  assert(q_seq(MM, this_@) =~= q_seq(M0, this_@).push(x));
}

@fn Queue::enqueue_l
@params x
@uses queue
@requires
  q_ok(M0, this_@), fits(x, q_w(M0, this_@)), q_n(M0, this_@) < 0x4000_0000_0000_0000
@ensures
  q_ok(M1, this_@), q_w(M1, this_@) == q_w(M0, this_@), q_seq(M1, this_@) == seq![x] + q_seq(M0, this_@), q_frame(M0, M1, this_@),
@at entry
let ghost bs0 = q_bs(mem@, this_@); let ghost sn = if bs0.len() == 0 { 0 } else { q_b0(mem@, this_@) - 1 };
proof { assert(bs0.len() > 0 ==> blk_ok(M0, this_@, bs0[0], 0)); }
@at after call new_PackedArray 1
let ghost arr_ = pa_arr(mem@, RES@);
proof { mem_wf(*mem); }
set_own(mem, Ghost(qb@.o), Ghost(this_@.o), Ghost(sn));
set_own(mem, Ghost(RES@.o), Ghost(this_@.o), Ghost(sn));
set_own(mem, Ghost(arr_), Ghost(this_@.o), Ghost(sn));
set_gs(mem, Ghost(this_@.o), Ghost(if bs0.len() == 0 { bs0.push(qb@) } else { seq![qb@] + bs0 }));
@at if 1 then end
proof {
    let a = M0; let b = MM; let q = this_@; let d = 1int; let p = qb@;
    let bs0 = q_bs(a, q); let bs1 = q_bs(b, q); let x = o_Queue(a, q.o); let y = o_Queue(b, q.o); let c = o_qblock(b, p.o).b; let ar = pa_arr(b, c);
    if bs0.len() == 0 { assert(bs0.push(p) =~= seq![p] + bs0); }
    assert(bs1 == seq![p] + bs0);
    assert(is_Queue(b, q) && y.w == x.w && y.n == x.n && b.own[q.o] == a.own[q.o] && b.k[q.o] == a.k[q.o]);
    assert(p.o >= a.nx && c.o >= a.nx && ar >= a.nx && a.nx <= b.nx && a.io == b.io);
    assert(is_qblock(b, p) && b.k[p.o] == 0 && live(b, c, 1) && pa_ok(b, c) && pa_len(b, c) == 1024 && pa_w(b, c) == x.w);
    assert(({ let s = if bs0.len() == 0 { 0 } else if d == 0 { q_b0(a, q) + bs0.len() } else { q_b0(a, q) - 1 };
           tag(b, p.o, q.o, s) && tag(b, c.o, q.o, s) && tag(b, ar, q.o, s) }));
    assert(o_qblock(b, p.o).next == (if d == 0 || bs0.len() == 0 { NUL() } else { bs0[0] }));
    assert(forall|o: int| #![trigger b.h.contains_key(o)] b.h.contains_key(o) && !a.h.contains_key(o) ==> o == p.o || o == c.o || o == ar);
    assert(forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] a.h.contains_key(o) && o != q.o && a.own[o] != q.o ==> b.h.contains_key(o) && b.h[o] == a.h[o]);
    assert(forall|o: int| #![trigger b.own[o]] #![trigger b.h[o]] #![trigger b.h.contains_key(o)] a.h.contains_key(o) ==> b.own[o] == a.own[o] && b.ser[o] == a.ser[o] && b.k[o] == a.k[o]);
    assert(forall|o: int| #![trigger b.gs[o]] a.h.contains_key(o) && o != q.o ==> b.gs[o] == a.gs[o]);
    assert(forall|o: int| #![trigger b.gc[o]] a.h.contains_key(o) ==> b.gc[o] == a.gc[o]);
    assert(forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] a.h.contains_key(o) && !(a.h[o] is qblock) && o != q.o ==> b.h.contains_key(o) && b.h[o] == a.h[o]);
    assert forall|i: int| 0 <= i < bs0.len() implies #[trigger] blk_link(a, b, q, 1, p, i) by { assert(blk_ok(a, q, bs0[i], i)); }
  assert(relinked(M0, MM, this_@, 1, qb@));
  lem_q_relink(M0, MM, this_@, 1, qb@);
}
@at if 1 post
let ghost m1 = mem@;
proof {
  mem_wf(*mem);
  assert(q_gen(m1, this_@)); assert(o_Queue(m1, this_@.o).s_ofs > 0);
  let k = 0int;
  assert(blk_ok(m1, this_@, q_bs(m1, this_@)[k], k));
}
@at after call set_value 1
let ghost m2 = mem@;
@at exit
proof {
  let k = 0int; let s = o_Queue(m1, this_@.o).s_ofs - 1; let arr = pa_arr(m1, q_b(m1, this_@, k));
  assert(MM =~= put(put(m1, arr, Obj::U64(u64s(MM, arr))), this_@.o, MM.h[this_@.o]));
  let y = o_Queue(MM, this_@.o); let z = o_Queue(m1, this_@.o);
  assert(MM == put(put(m1, arr, Obj::U64(u64s(MM, arr))), this_@.o, Obj::Queue(y)));
  assert(y.w == z.w && y.sb == z.sb && y.eb == z.eb);
  assert(u64s(MM, arr).len() == u64s(m1, arr).len());
  assert(pget(u64s(MM, arr), y.w as int, s) == x);
  assert forall|j: int| 0 <= j < 1024 && j != s implies #[trigger] pget(u64s(MM, arr), y.w as int, j) == pget(u64s(m1, arr), y.w as int, j) by { let g = pa_get(m2, q_b(m1, this_@, k), j); }
  lem_q_store(m1, MM, this_@, k, s, x);
  let n = q_n(M0, this_@); let so = o_Queue(M0, this_@.o).s_ofs; let d = q_bs(m1, this_@).len() - bs0.len();
  assert forall|j: int| 0 <= j < n implies #[trigger] q_seq(MM, this_@)[j + 1] == q_seq(M0, this_@)[j] by {
    assert(q_at(MM, this_@, so + j + 1024 * d) == q_at(m1, this_@, so + j + 1024 * d));
    assert(q_at(m1, this_@, so + j + 1024 * d) == q_at(M0, this_@, so + j));
  }
  assert forall|j: int| 0 <= j < n + 1 implies #[trigger] q_seq(MM, this_@)[j] == (seq![x] + q_seq(M0, this_@))[j] by {
    if j > 0 { assert(q_seq(MM, this_@)[(j - 1) + 1] == q_seq(M0, this_@)[j - 1]); }
  }
  assert(q_seq(MM, this_@) =~= seq![x] + q_seq(M0, this_@));
}

@fn Queue::dequeue
@uses queue
@requires
  q_ok(M0, this_@), q_seq(M0, this_@).len() > 0
@ensures
  q_ok(M1, this_@), q_w(M1, this_@) == q_w(M0, this_@), q_frame(M0, M1, this_@),
  ret as int == sg64(q_seq(M0, this_@)[0] as int), q_seq(M1, this_@) == q_seq(M0, this_@).subrange(1, q_seq(M0, this_@).len() as int),
@at entry
let ghost bs0 = q_bs(mem@, this_@);
proof { assert(blk_ok(M0, this_@, bs0[0], 0)); if bs0.len() > 1 { assert(blk_ok(M0, this_@, bs0[1], 1)); } }
@at if 1 then
set_gs(mem, Ghost(this_@.o), Ghost(bs0.subrange(1, bs0.len() as int)));
@at exit
proof {
  let a = M0; let b = MM; let q = this_@;
  if o_Queue(a, q.o).s_ofs == 1023 {
    assert forall|i: int| 1 <= i < bs0.len() implies #[trigger] blk_keep(a, b, q, i) by { assert(blk_ok(a, q, bs0[i], i)); }
    assert(dropped(a, b, q));
    lem_q_drop(a, b, q);
  } else {
    assert(b =~= put(a, q.o, b.h[q.o]));
    lem_q_adv(a, b, q);
  }
  assert(q_seq(b, q) =~= q_seq(a, q).subrange(1, q_seq(a, q).len() as int));
}

@fn Queue::dtor
@uses queue
@requires
  q_ok(M0, this_@)
@ensures
  q_gone(M0, M1, this_@, q_bs(M0, this_@).len() as int),
  forall|o: int| #![trigger M1.h[o]] #![trigger M1.h.contains_key(o)] M1.h.contains_key(o) == (M0.h.contains_key(o) && M0.own[o] != this_@.o),
@at entry
let ghost mut i_ = 0int; let ghost bs = q_bs(mem@, this_@);
proof { assert(bs.len() > 0 ==> blk_ok(M0, this_@, bs[0], 0)); assert(!M0.h.contains_key(0)); }
@loop 1
@invariant
  0 <= i_ <= bs.len(), bs == q_bs(M0, this_@), q_gone(M0, MM, this_@, i_), qb@ == (if i_ < bs.len() { bs[i_] } else { NUL() }),
  i_ < bs.len() ==> blk_ok(M0, this_@, bs[i_], i_), q_ok(M0, this_@), wf(M0)
@decreases bs.len() - i_
@at loop 1 begin
let ghost mb = mem@;
proof { assert(blk_ok(M0, this_@, bs[i_], i_)); if i_ + 1 < bs.len() { assert(blk_ok(M0, this_@, bs[i_ + 1], i_ + 1)); } }
@at loop 1 end
proof { lem_q_gone(M0, mb, MM, this_@, i_); i_ = i_ + 1; }
@at exit
proof {
  assert forall|o: int| #![trigger MM.h[o]] #![trigger MM.h.contains_key(o)] MM.h.contains_key(o) == (M0.h.contains_key(o) && M0.own[o] != this_@.o) by {
    if M0.h.contains_key(o) && M0.own[o] == this_@.o { let j = M0.ser[o] - q_b0(M0, this_@); assert(0 <= j < bs.len()); }
  }
}
