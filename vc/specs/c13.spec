@foreach W KD PT SV : 32 1 SA seq![SA@] | 64 1 SA seq![SA@] | 40 2 SA_L~SA_U seq![SA_L@,~SA_U@] | 48 2 SA_L~SA_U seq![SA_L@,~SA_U@] | 56 3 SA_L~SA_M~SA_U seq![SA_L@,~SA_M@,~SA_U@]
@fn induce_bwt_$Wbit
@params $PT container
@uses compose iglue split
@requires
  vok($W, M0, $SV, o_Container(M0, container@.o).num_of_substrings + 1), induce_ready(M0, container@, vseq($W, M0, $SV, o_Container(M0, container@.o).num_of_substrings + 1)),
  !vobjs($W, $SV).contains(container@.o), !vobjs($W, $SV).contains(o_Container(M0, container@.o).bwp_base.o)
@ensures
  induced(M0, M1, container@, ret@, vobjs($W, $SV))
@at entry
proof { mem_wf(*mem); }
@at loop 1 before
let ghost mq = mem@; let ghost sv = $SV; let ghost k0 = o_Container(M0, container@.o); let ghost ns = k0.num_of_substrings + 1; let ghost sa = vseq($W, M0, sv, ns); let ghost ob = vobjs($W, sv);
let ghost gq = ig0(M0, container@, Q@); let ghost gf = ga(gq, slots(0, 258, 258, 516, 516, 774)); let ghost b0 = u8s(mq, 0);
proof {
  mem_wf(*mem); lem_rdx(M0, container@, Q@, sa); lem_rdx_x(gq); lem_rdx_g(gq, gf);
  let x = choose|x: Seq<PtrV>| x.len() == 774 && mq == alc(M0, M0.nx, Obj::P(x), 3);
  lem_hbegin(M0, mq, container@, x, gq.w); lem_keep_of(gq, mq);
  assert(hv(gq, mq) =~= nov()); assert(gq.a =~= slots(0, 0, 258, 258, 516, 516));
  assert(keep(ga(gq, slots(0, 0, 258, 258, 516, 516)), mq, nov(), k0, b0));
}
@loop 1
@isolate
@invariant
  0 <= i <= 258, gq == ig0(M0, container@, Q@), bwp_w == gq.w, 1 <= bwp_w <= 63, keep(ga(gq, slots(0, i as int, 258, 258 + i, 516, 516 + i)), MM, nov(), k0, b0),
@decreases 258 - i
@at loop 1 begin
let ghost e0 = mem@; let ghost h0 = ga(gq, slots(0, i as int, 258, 258 + i, 516, 516 + i)); let ghost h1 = ga(gq, slots(0, i as int, 258, 258 + i, 516, 517 + i)); let ghost h2 = ga(gq, slots(0, i as int, 258, 259 + i, 516, 517 + i)); let ghost h3 = ga(gq, slots(0, i + 1, 258, 259 + i, 516, 517 + i));
proof { mem_wf(*mem); lem_keep(h0, e0, nov(), k0, b0); }

@at before call alloc_Queue 1
let ghost e0a = mem@;
@at before call new_Queue 1
let ghost e0b = mem@;
proof { mem_wf(*mem); }
@at after call new_Queue 1
let ghost e0c = mem@;
proof { mem_wf(*mem); lem_new_mid(h0, e0a, e0b, e0c); }
@at before call alloc_Queue 2
let ghost e1a = mem@;
proof { mem_wf(*mem); lem_keep_new(h0, h1, e0a, e0b, e0c, e1a, 516 + i, nov(), k0, b0); lem_keep(h1, e1a, nov(), k0, b0); }
@at before call new_Queue 2
let ghost e1b = mem@;
proof { mem_wf(*mem); }
@at after call new_Queue 2
let ghost e1c = mem@;
proof { mem_wf(*mem); lem_new_mid(h1, e1a, e1b, e1c); }
@at before call alloc_Queue 3
let ghost e2a = mem@;
proof { mem_wf(*mem); lem_keep_new(h1, h2, e1a, e1b, e1c, e2a, 258 + i, nov(), k0, b0); lem_keep(h2, e2a, nov(), k0, b0); }
@at before call new_Queue 3
let ghost e2b = mem@;
proof { mem_wf(*mem); }
@at after call new_Queue 3
let ghost e2c = mem@;
proof { mem_wf(*mem); lem_new_mid(h2, e2a, e2b, e2c); }
@at loop 1 end
proof { lem_keep_new(h2, h3, e2a, e2b, e2c, mem@, i as int, nov(), k0, b0); }
@at loop 1 post
proof {
  mem_wf(*mem);
  assert(ga(gq, slots(0, i as int, 258, 258 + i, 516, 516 + i)) == gf);
  lem_fill0(gf, mem@, b0); lem_keep(gf, mem@, nov(), k0, b0); lem_hopen(gf, mem@);
}
@loop 2
@isolate
@invariant
  -1 <= i < ns, ns <= 0x20_0000_0000_0000, ns == icx(gf).xs.len(), filled(gf, MM, i + 1), rdx(gf), gf == ga(ig0(M0, container@, Q@), slots(0, 258, 258, 516, 516, 774)), bwp_base@ == o_Container(M0, container@.o).bwp_base,
  wf(M0), sv == $SV, vok($W, M0, sv, ns), sa == vseq($W, M0, sv, ns), !vobjs($W, sv).contains(container@.o), forall|j: int| 0 <= j < sa.len() ==> #[trigger] at_i(gf, sa, j),
@decreases i + 1
@at loop 2 begin
let ghost e0 = mem@; let ghost v = sa[i as int];
proof {
  mem_wf(*mem); lemma2_to64_rest();
  assert(at_i(gf, sa, i as int)); lem_fill_pre(gf, e0, i as int, v); lem_hvec(gf, e0, $W, sv, ns);
  assert(vw($W, e0, sv, i as int) == v);
}
@at loop 2 end
proof { mem_wf(*mem); lem_fill_step(gf, e0, mem@, i as int, v as u64); }
@at loop 2 after
let ghost m2 = mem@; let ghost gs = Ih { s: ob, ..gf };
proof { mem_wf(*mem); lem_filled(gf, m2); lem_hvec(gf, m2, $W, sv, ns); lem_rdx_g(gf, gs); lem_rdx_x(gs); }
@at after call delete_arr $KD
let ghost m3 = mem@; let ghost vv = hv(gf, m2);
proof {
  mem_wf(*mem);
  assert forall|o: int| ob.contains(o) implies 0 < o < M0.nx by { assert(M0.h.contains_key(o)); }
  lem_hfree(gf, m2, m3, ob); lem_hopen(gs, m3);
}
@at after call new_arr 1
let ghost m4 = mem@; let ghost g1 = Ih { bw: m3.nx, ..gs };
proof {
  mem_wf(*mem);
  let b = choose|s: Seq<u8>| s.len() == t_7 && m4 == alc(m3, m3.nx, Obj::U8(s), 2);
  lem_hout(gs, m3, m4, b); lem_rdx_g(gs, g1); lem_hopen(g1, m4); lem_bs1(g1); lem_front0(g1, m4);
}
@loop 3
@isolate
@invariant
  0 <= i <= 258, fronts(g1, MM, i as int, vv), cc == bs(icx(g1).t, i as int), container@ == g1.c,
@decreases 258 - i
@at loop 3 begin
let ghost e0 = mem@; let ghost x = cc as u64;
proof { mem_wf(*mem); lem_front_x(g1, e0, i as int, vv); }
@at loop 3 end
proof { lem_front(g1, e0, mem@, i as int, vv, x); }
@at loop 3 after
proof { lem_back0(g1, mem@, vv); }
@loop 4
@isolate
@invariant
  0 <= i <= 258, backs(g1, MM, i as int, vv), container@ == g1.c,
@decreases 258 - i
@at loop 4 begin
let ghost e0 = mem@;
proof { mem_wf(*mem); lem_back_x(g1, e0, i as int, vv); }
@at loop 4 end
proof { lem_back(g1, e0, mem@, i as int, vv, bsl(icx(g1).t, i as int) as u64); }
@at loop 4 after
let ghost b0_ = mem@; let ghost mut X0 = 0int;
proof {
  mem_wf(*mem); lem_ph1_0(g1, b0_, vv, 0); lem_ph1_x(g1, b0_, 0, 0, 0); lem_qslot(g1, b0_, 516); X0 = lem_front1(g1, b0_, 0, 0, 0, 2);
}
let ghost Y0 = q_seq(b0_, slo(b0_, Q@, 516))[0]; let ghost E0 = 258 + bk(icx(g1).t, X0 - 1); let ghost w1 = pop(hv(g1, b0_), 516); let ghost kk = o_Container(b0_, container@.o);
@at after call dequeue 1
let ghost b1_ = mem@;
proof { mem_wf(*mem); lem_pop1(g1, b0_, b1_, 0, 0, 0, 2, X0, E0); }
@at before call enqueue 1
let ghost b2_ = mem@; let ghost bb = u8s(b2_, g1.bw);
proof { mem_wf(*mem); lem_put_b(g1, b1_, b2_, w1, kk, u8s(b0_, g1.bw), bb, E0, 0, 0, 2, X0, Y0 as int); }
@at after call enqueue 1
let ghost b3_ = mem@;
proof { mem_wf(*mem); lem_push1(g1, b2_, b3_, w1, kk, bb, E0, 0, 0, 2, X0, Y0 as int); }
@at loop 5 before
proof {
  mem_wf(*mem); lem_ph1_0(g1, b0_, vv, last as int);
  let r2 = lem_end_2(g1, b0_, b3_, mem@, 0, last as int, 0, X0, (Y0 - 1) as u64, t_18, bb, u8s(mem@, g1.bw));
  lem_bs1(g1);
}
@loop 5
@isolate
@invariant
  1 <= c <= 258, ph1(g1, MM, bs(icx(g1).t, c as int), last as int), container@ == g1.c, Q@ == g1.q, BWT@ == (PtrV { o: g1.bw, i: 0 }), bwp_base@ == o_Container(g1.m0, g1.c.o).bwp_base,
@decreases 258 - c
@at loop 5 begin
proof { lem_ph1_x(g1, mem@, bs(icx(g1).t, c as int), last as int, c as int); lem_cum(g1, c as int); }
@loop 6
@isolate
@invariant
  1 <= t <= 3, 1 <= c <= 257, t == 1 ==> ph1(g1, MM, bs(icx(g1).t, c as int), last as int), t == 2 ==> ph1(g1, MM, bsl(icx(g1).t, c as int), last as int), t == 3 ==> ph1(g1, MM, bs(icx(g1).t, c + 1), last as int), container@ == g1.c, Q@ == g1.q, BWT@ == (PtrV { o: g1.bw, i: 0 }), bwp_base@ == o_Container(g1.m0, g1.c.o).bwp_base,
@decreases 3 - t
@at loop 6 begin
let ghost mut R = if t == 1 { bs(icx(g1).t, c as int) } else { bsl(icx(g1).t, c as int) };
proof { mem_wf(*mem); lem_ph1_x(g1, mem@, R, last as int, c as int); lem_cum(g1, c as int); }
@loop 7
@isolate
@invariant
  1 <= t <= 2, 1 <= c <= 257, ph1(g1, MM, R, last as int), loc1(g1, R, c as int, t as int), container@ == g1.c, Q@ == g1.q, BWT@ == (PtrV { o: g1.bw, i: 0 }), bwp_base@ == o_Container(g1.m0, g1.c.o).bwp_base,
  qsl(g1, MM, 258 * t + c), t == 1 ==> m == R, t == 2 ==> 0 <= m && m + hv(g1, MM)[516 + c].len() <= 0x40_0000_0000_0000, bs(icx(g1).t, c + 1) <= 0x20_0000_0000_0000, 0 <= bs(icx(g1).t, c as int) <= bsl(icx(g1).t, c as int) <= bs(icx(g1).t, c + 1),
@decreases bs(icx(g1).t, c + 1) - R
@at loop 7 begin
let ghost e0 = mem@; let ghost R0 = R; let ghost l0 = last as int; let ghost S0 = 258 * t + c; let ghost mut X = 0int; let ghost mut e2 = mem@;
proof { mem_wf(*mem); lem_ph1_x(g1, e0, R, l0, c as int); lem_qslot(g1, e0, S0); X = lem_front1(g1, e0, R, l0, c as int, t as int); }
let ghost Y = q_seq(e0, slo(e0, Q@, S0))[0]; let ghost E = if X >= 1 && !is_s(icx(g1).t, X - 1) { 258 + bk(icx(g1).t, X - 1) } else { c as int }; let ghost w1 = pop(hv(g1, e0), S0); let ghost kk = o_Container(e0, container@.o); let ghost bb = u8s(e0, g1.bw);
@at after call dequeue 2
let ghost e1 = mem@;
proof { mem_wf(*mem); lem_pop1(g1, e0, e1, R, l0, c as int, t as int, X, E); }
@at after call enqueue 2
proof { mem_wf(*mem); e2 = mem@; lem_push1(g1, e1, e2, w1, kk, bb, E, R, c as int, t as int, X, Y as int); }
@at after call enqueue_l 2
proof { mem_wf(*mem); e2 = mem@; lem_push1(g1, e1, e2, w1, kk, bb, E, R, c as int, t as int, X, Y as int); lem_end_seed(g1, e0, e1, e2, R, l0, c as int, X, Y); R = R + 1; }
@at if 3 then end
proof { lem_end_last(g1, e0, mem@, R, l0, c as int, X); R = R + 1; }
@at if 5 then end
proof { mem_wf(*mem); let r2 = lem_end_2(g1, e0, e2, mem@, R, l0, c as int, X, (Y - 1) as u64, t_32, bb, u8s(mem@, g1.bw)); R = r2; }
@at if 5 else
proof { mem_wf(*mem); lem_end_l(g1, e0, e2, mem@, R, l0, c as int, X, (Y - 1) as u64, t_32); R = R + 1; }
@part if 4 then
  MM == e1, wf(e0), wf(e1), ph1(g1, e0, R0, l0), loc1(g1, R0, c as int, t as int), R == R0, l0 == last, 1 <= t <= 2, 1 <= c <= 257, S0 == 258 * t + c, hv(g1, e0)[S0].len() > 0, container@ == g1.c, Q@ == g1.q, BWT@ == (PtrV { o: g1.bw, i: 0 }), bwp_base@ == o_Container(g1.m0, g1.c.o).bwp_base,
  X >= 1, !is_s(icx(g1).t, X - 1), E == 258 + bk(icx(g1).t, X - 1), c1 == icx(g1).t[X - 1], q@ == pi(bwp_base@, Y as int), t == 1 ==> X == od(icx(g1).t, R0), t == 2 ==> X == icx(g1).xs[lst(icx(g1).t, icx(g1).xs, c as int) + kk.C2[c as int] - bsl(icx(g1).t, c as int)], Y == hv(g1, e0)[S0][0],
  w1 == pop(hv(g1, e0), S0), kk == o_Container(e0, g1.c.o), bb == u8s(e0, g1.bw), bb.len() == icx(g1).t.len() + 1, icx(g1).t.len() < 0x10_0000_0000_0000, rdx(g1), g1.bw != 0, g1.a == slots(0, 258, 258, 516, 516, 774),
  keep(g1, e1, w1, kk, bb), at_front(g1, e1, R0, c as int, t as int, X, Y as int), o_Container(e1, g1.c.o) == kk, qsl(g1, e1, E), q_w(e1, slo(e1, g1.q, E)) == g1.w, q_n(e1, slo(e1, g1.q, E)) < 0x4000_0000_0000_0000,
@part_end if 4 then
  wf(MM), ph1(g1, MM, R, l0), loc1(g1, R, c as int, t as int), R > R0, t == 1 ==> R == R0 + 1, t == 2 ==> hv(g1, MM)[516 + c].len() == hv(g1, e0)[516 + c].len() - 1 && R <= bs(icx(g1).t, c + 1)
@at loop 7 end
proof { mem_wf(*mem); lem_ph1_x(g1, mem@, R, last as int, c as int); }
@at loop 6 end
proof { assert(q_seq(mem@, slo(mem@, Q@, 258 * t + c)).len() == 0); lem_exit_t(g1, mem@, R, last as int, c as int, t as int);
  assert(t == 1 ==> ph1(g1, mem@, bsl(icx(g1).t, c as int), last as int)); assert(t == 2 ==> ph1(g1, mem@, bs(icx(g1).t, c + 1), last as int)); }
@at loop 8 before
let ghost z0 = mem@; let ghost l1 = last; let ghost v1 = hv(g1, z0); let ghost k1 = o_Container(z0, container@.o); let ghost b1 = u8s(z0, g1.bw); let ghost n1 = icx(g1).t.len() as int + 1;
proof {
  mem_wf(*mem); lem_rdx_x(g1); lem_bs1(g1); lem_ph1_end(g1, z0, last as int);
  assert(cut(v1, g1.a) =~= v1); assert(ga(g1, g1.a) == g1);
}
@loop 8
@isolate
@invariant
  0 <= c <= 258, keep(ga(g1, slots(0, 258, 258 + c, 516, 516 + c, 774)), MM, cut(v1, slots(0, 258, 258 + c, 516, 516 + c, 774)), k1, b1), container@ == g1.c, Q@ == g1.q,
@decreases 258 - c
@at loop 8 begin
let ghost e0 = mem@; let ghost h0 = ga(g1, slots(0, 258, 258 + c, 516, 516 + c, 774)); let ghost h1 = ga(g1, slots(0, 258, 258 + c, 516, 517 + c, 774)); let ghost h2 = ga(g1, slots(0, 258, 259 + c, 516, 517 + c, 774));
let ghost mut e1 = mem@; let ghost mut e3 = mem@;
proof { mem_wf(*mem); lem_keep(h0, e0, cut(v1, h0.a), k1, b1); lem_qslot(h0, e0, 516 + c); }
@at after call dtor_Queue 1
proof { e1 = mem@; lem_del_mid(h0, e0, e1, 516 + c); }
@at after call delete_Queue 1
let ghost e2 = mem@;
proof { mem_wf(*mem); lem_keep_del(h0, h1, e0, e1, e2, 516 + c, cut(v1, h0.a), cut(v1, h1.a), k1, b1); lem_keep(h1, e2, cut(v1, h1.a), k1, b1); lem_qslot(h1, e2, 258 + c); }
@at after call dtor_Queue 2
proof { e3 = mem@; lem_del_mid(h1, e2, e3, 258 + c); }
@at after call delete_Queue 2
proof { mem_wf(*mem); lem_keep_del(h1, h2, e2, e3, mem@, 258 + c, cut(v1, h1.a), cut(v1, h2.a), k1, b1); }
@at loop 8 after
let ghost v2 = cut(v1, slots(0, 258, 516, 516, 774, 774));
proof {
  assert(slots(0, 258, 516, 516, 774, 774) =~= slots(0, 258, 258, 258, 774, 774));
  assert(v2 == cut(v1, slots(0, 258, 258 + c, 516, 516 + c, 774)));
}
@loop 9
@isolate
@invariant
  0 <= c <= 258, keep(ga(g1, slots(0, 258, 258, 258 + c, 774, 774)), MM, v2, k1, b1), container@ == g1.c, Q@ == g1.q, bwp_w == g1.w, 1 <= bwp_w <= 63,
@decreases 258 - c
@at loop 9 begin
let ghost e0 = mem@; let ghost h0 = ga(g1, slots(0, 258, 258, 258 + c, 774, 774)); let ghost h1 = ga(g1, slots(0, 258, 258, 259 + c, 774, 774));
proof { mem_wf(*mem); lem_keep(h0, e0, v2, k1, b1); }
@at before call new_Queue 4
let ghost e1 = mem@;
proof { mem_wf(*mem); }
@at after call new_Queue 4
let ghost e2 = mem@;
proof { mem_wf(*mem); lem_new_mid(h0, e0, e1, e2); }
@at loop 9 end
proof { lem_keep_new(h0, h1, e0, e1, e2, mem@, 258 + c, v2, k1, b1); }
@at loop 9 after
let ghost z1 = mem@; let ghost g2 = ga(g1, slots(0, 258, 258, 516, 774, 774));
proof { mem_wf(*mem); lem_keep(g2, z1, v2, k1, b1); lem_rdx_g(g1, g2); lem_hopen(g2, z1); }
@at loop 10 before
proof { lem_tail0(g2, z1, mem@, v2, k1, b1); }
@loop 10
@isolate
@invariant
  1 <= c <= 258, tails(g2, MM, c as int, v2, k1, b1), container@ == g2.c,
@decreases 258 - c
@at loop 10 begin
let ghost e0 = mem@;
proof { mem_wf(*mem); lem_tail_x(g2, e0, c as int, v2, k1, b1); }
@at loop 10 end
proof { lem_tailc(g2, e0, mem@, c as int, v2, k1, b1, (bs(icx(g2).t, c + 1) - 1) as u64); }
@at loop 11 before
proof { lem_ph2_0(g2, mem@, v2, k1, b1, v1, last as int); }
@loop 11
@isolate
@invariant
  -1 <= c <= 257, ph2(g2, MM, max1(bs(icx(g2).t, c + 1)), last as int), container@ == g2.c, Q@ == g2.q, BWT@ == (PtrV { o: g2.bw, i: 0 }), bwp_base@ == o_Container(g2.m0, g2.c.o).bwp_base,
@decreases c + 1
@loop 12
@isolate
@invariant
  -1 <= t <= 1, 0 <= c <= 257, t == 1 ==> ph2(g2, MM, max1(bs(icx(g2).t, c + 1)), last as int), t == 0 ==> ph2(g2, MM, max1(bsl(icx(g2).t, c as int)), last as int), t == -1 ==> ph2(g2, MM, max1(bs(icx(g2).t, c as int)), last as int), container@ == g2.c, Q@ == g2.q, BWT@ == (PtrV { o: g2.bw, i: 0 }), bwp_base@ == o_Container(g2.m0, g2.c.o).bwp_base,
@decreases t + 1
@at loop 12 begin
let ghost mut R = if t == 1 { max1(bs(icx(g2).t, c + 1)) } else { max1(bsl(icx(g2).t, c as int)) };
proof { mem_wf(*mem); lem_ph2_x(g2, mem@, R, last as int, c as int); lem_loc2(g2, c as int); }
@loop 13
@isolate
@invariant
  0 <= t <= 1, 0 <= c <= 257, ph2(g2, MM, R, last as int), loc2(icx(g2), R, c as int, t as int), container@ == g2.c, Q@ == g2.q, BWT@ == (PtrV { o: g2.bw, i: 0 }), bwp_base@ == o_Container(g2.m0, g2.c.o).bwp_base,
  qsl(g2, MM, 258 * t + c),
@decreases R
@at loop 13 begin
let ghost e0 = mem@; let ghost l0 = last as int; let ghost S0 = 258 * t + c; let ghost mut X = 0int; let ghost mut e2 = mem@;
proof { mem_wf(*mem); lem_ph2_x(g2, e0, R, l0, c as int); lem_qslot(g2, e0, S0); X = lem_back2(g2, e0, R, l0, c as int, t as int); R = rank(icx(g2).t, X); }
let ghost Y = q_seq(e0, slo(e0, Q@, S0))[0]; let ghost E = if X >= 1 && is_s(icx(g2).t, X - 1) { 258 + bk(icx(g2).t, X - 1) } else { c as int }; let ghost w1 = pop(hv(g2, e0), S0); let ghost kk = o_Container(e0, container@.o); let ghost bb = u8s(e0, g2.bw);
@at after call dequeue 3
let ghost e1 = mem@;
proof { mem_wf(*mem); lem_pop2(g2, e0, e1, R + 1, l0, c as int, t as int, X, E); }
@at after call enqueue 3
proof { mem_wf(*mem); e2 = mem@; lem_push2(g2, e1, e2, w1, kk, bb, E, c as int, t as int, X, Y as int); }
@at if 6 then end
proof { lem_end2_s(g2, e0, e2, mem@, l0, c as int, t as int, X, (Y - 1) as u64, u8s(mem@, g2.bw), last as int); }
@at if 6 else end
proof { lem_end2_none(g2, e0, mem@, l0, c as int, t as int, X, Y as int); }
@at loop 13 end
proof { mem_wf(*mem); lem_ph2_x(g2, mem@, R, last as int, c as int); }
@at loop 12 end
proof { assert(q_seq(mem@, slo(mem@, Q@, 258 * t + c)).len() == 0); lem_exit_t2(g2, mem@, R, last as int, c as int, t as int); }
@at loop 14 before
let ghost z3 = mem@; let ghost v3 = hv(g2, z3); let ghost k3 = o_Container(z3, container@.o); let ghost b3 = u8s(z3, g2.bw);
proof {
  mem_wf(*mem); lem_bs1(g2); lem_ph2_end(g2, z3, last as int);
  assert(cut(v3, g2.a) =~= v3); assert(ga(g2, g2.a) == g2);
}
@loop 14
@isolate
@invariant
  0 <= i <= 258, keep(ga(g2, slots(i as int, 258, 258 + i, 516, 774, 774)), MM, cut(v3, slots(i as int, 258, 258 + i, 516, 774, 774)), k3, b3), container@ == g2.c, Q@ == g2.q,
@decreases 258 - i
@at loop 14 begin
let ghost e0 = mem@; let ghost h0 = ga(g2, slots(i as int, 258, 258 + i, 516, 774, 774)); let ghost h1 = ga(g2, slots(i as int, 258, 259 + i, 516, 774, 774)); let ghost h2 = ga(g2, slots(i + 1, 258, 259 + i, 516, 774, 774));
let ghost mut e1 = mem@; let ghost mut e3 = mem@;
proof { mem_wf(*mem); lem_keep(h0, e0, cut(v3, h0.a), k3, b3); lem_qslot(h0, e0, 258 + i); }
@at after call dtor_Queue 3
proof { e1 = mem@; lem_del_mid(h0, e0, e1, 258 + i); }
@at after call delete_Queue 3
let ghost e2 = mem@;
proof { mem_wf(*mem); lem_keep_del(h0, h1, e0, e1, e2, 258 + i, cut(v3, h0.a), cut(v3, h1.a), k3, b3); lem_keep(h1, e2, cut(v3, h1.a), k3, b3); lem_qslot(h1, e2, i as int); }
@at after call dtor_Queue 4
proof { e3 = mem@; lem_del_mid(h1, e2, e3, i as int); }
@at after call delete_Queue 4
proof { mem_wf(*mem); lem_keep_del(h1, h2, e2, e3, mem@, i as int, cut(v3, h1.a), cut(v3, h2.a), k3, b3); }
@at loop 14 post
proof { assert(slots(i as int, 258, 258 + i, 516, 774, 774) =~= ISet::<int>::empty()); }
@at loop 14 after
let ghost z4 = mem@; let ghost g4 = ga(g2, ISet::empty());
proof { mem_wf(*mem); lem_keep(g4, z4, cut(v3, g4.a), k3, b3); lem_hopen(g4, z4); }
@at after call malloc 1
let ghost z5 = mem@;
proof { mem_wf(*mem); assert(z5.h.contains_key(z4.nx)); }
@at exit
proof {
  let r = PtrV { o: z4.nx, i: 0 }; let x = o_BWT_result(mem@, z4.nx); let m1 = alc(z4, z4.nx, Obj::BWT_result(x), 0);
  assert(mem@ =~= m1);
  lem_hend(g4, z4, mem@, rm(mem@, Q@.o), r, x, gtext(M0, container@));
}
@end
