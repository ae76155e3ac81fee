@fn bwt_is
@attr #[verifier::rlimit(60)]
@params T n free_T
@uses compose sbridge
@requires
  1 <= n < 0x10_0000_0000_0000, text_at(M0, T@, n as int), free_T ==> live(M0, T@, 0)
@ensures
  transformed(M0, M1, ret@, T@, n as int, free_T)
@at entry
let ghost t = str_at(M0, T@, n as int);
proof { mem_wf(*mem); lem_num(t, 3, 0, 0); lem_dst(t, 0); }
@at after call extract_LMS_strings 1
let ghost m1 = mem@;
proof { mem_wf(*mem); }
@at after call sort_LMS_strings 1
let ghost m2 = mem@;
proof { mem_wf(*mem); assert(o_Container(m1, container@.o).n == n); assert(str_at(m1, T@, n as int) == t); }
@at after call create_shortened_string 1
let ghost m3 = mem@; let ghost cp = container@; let ghost ls = S@; let ghost rp = RES@; let ghost tp = T_0@.o;
proof { mem_wf(*mem); assert(str_at(m2, T@, n as int) == t); lem_ready(M0, m1, m2, m3, container@, S@, RES@, t); lem_apart(m3, cp, ls, rp, t); lem_bounds(m3, cp, ls, rp, t); lem_bitlen(num(t, 3, 0, 0) as nat, 63); assert(rdy_fp(m3, cp, ls, rp).contains(cp.o)); }
@at if 2 post
let ghost m4 = mem@;
proof { mem_wf(*mem); assert(0 < tp < M0.nx); assert(mem@ == freed(m3, tp, free_T)); lem_entered(M0, m3, mem@, cp, ls, rp, t, tp, free_T); lemma2_to64_rest(); lemma2_to64(); lem_bitlen(max_value as nat, 62); }
@rest if 2 post
  MM == m4, entered(M0, m3, m4, cp, ls, rp, t, tp, free_T), bitlen(max_value as nat) <= 62, is_Container(m4, cp), is_PackedArray(m4, rp), rp.o < m4.nx, cp.o < m4.nx, container@ == cp, S@ == ls, T1@ == rp, T_0@.o == tp, 0 <= num(t, 3, 0, 0) < 0x10_0000_0000_0000, 0 <= dst(t, 0) <= num(t, 3, 0, 0), t == str_at(M0, T_0@, n as int), wf(M0), free_T ==> M0.h.contains_key(tp) && tp > 0,
  ({ let x = o_Container(MM, cp.o); &&& x.num_of_substrings == num(t, 3, 0, 0) && x.num_of_unique_substrings == dst(t, 0) && 1 <= x.sa_max_value < 0x4000_0000_0000_0000 && total_substring_count == num(t, 3, 0, 0) + 2 && max_value == (if total_substring_count > x.sa_max_value { total_substring_count } else { x.sa_max_value }) }),
@foreach W K : 32 3 | 40 4 | 48 5 | 56 6 | 64 7
@part if $K then
  bits == bitlen(max_value as nat), bits < $W, T1_length == num(t, 3, 0, 0) + 1, k == dst(t, 0) + 2,
  MM == m4, entered(M0, m3, m4, cp, ls, rp, t, tp, free_T), is_Container(m4, cp), is_PackedArray(m4, rp), rp.o < m4.nx, cp.o < m4.nx, container@ == cp, S@ == ls, T1@ == rp, 0 <= num(t, 3, 0, 0) < 0x10_0000_0000_0000, 0 <= dst(t, 0) <= num(t, 3, 0, 0),
  ({ let x = o_Container(m4, cp.o); &&& x.num_of_substrings == num(t, 3, 0, 0) && x.num_of_unique_substrings == dst(t, 0) && 1 <= x.sa_max_value < 0x4000_0000_0000_0000 && total_substring_count == num(t, 3, 0, 0) + 2 && max_value == (if total_substring_count > x.sa_max_value { total_substring_count } else { x.sa_max_value }) }),
@part_end if $K then
  left(M0, MM, cp, t, tp, free_T, BWT@)
@end
@foreach W SV A B : 32 seq![SA_32bit@] 1 2 | 40 seq![SA_u32bit@,~SA_8bit@] 3 4 | 48 seq![SA_u32bit@,~SA_16bit@] 5 6 | 56 seq![SA_u32bit@,~SA_u16bit@,~SA_8bit@] 7 8 | 64 seq![SA_64bit@] 9 10
@at before call sais_$Wbit 1
let ghost mr = mem@; let ghost N = num(t, 3, 0, 0) + 1; let ghost sv = $SV; let ghost ob = vobjs($W, sv); let ghost fp = rdy_fp(mr, cp, ls, rp);
proof {
  mem_wf(*mem); lemma2_to64_rest(); lemma2_to64();
  lem_enter(M0, m3, m4, mr, cp, ls, rp, t, tp, free_T, ob, $W, bits as int);
  lem_sais_in(mr, o_PackedArray(mr, rp.o).arr, sv, $W, pa_w(mr, rp), N, dst(t, 0) + 2);
  assert(fp.contains(rp.o) && fp.contains(pa_arr(mr, rp)) && fp.contains(cp.o));
}
@at after call sais_$Wbit 1
let ghost sa = vseq($W, mem@, sv, N);
proof { lem_sais_out(mr, mem@, $W, sv, N); reveal(rdyo); lem_sais_post(mr, cp, ls, rp, t, sa); }
@loop $A
@isolate
@invariant
  0 <= i <= N, N == num(t, 3, 0, 0) + 1, N + 1 < pow2(($W - 1) as nat), 1 <= N < 0x20_0000_0000_0000, is_Container(mr, cp), o_Container(mr, cp.o).num_of_substrings + 1 == N, container@ == cp, !ob.contains(cp.o), ob == vobjs($W, sv), sv == $SV, 
  pow2(31) == 0x8000_0000, pow2(39) == 0x80_0000_0000, pow2(47) == 0x8000_0000_0000, pow2(55) == 0x80_0000_0000_0000, pow2(63) == 0x8000_0000_0000_0000,
  only(mr, MM, ob), vok($W, MM, sv, N), sa.len() == N, forall|j: int| 0 <= j < N ==> 0 <= #[trigger] sa[j] < N,
  forall|j: int| 0 <= j < N ==> #[trigger] vw($W, MM, sv, j) == (if j < i { sa[j] + 1 } else { sa[j] })
@decreases N - i
@at loop $A begin
let ghost mb = mem@;
proof { assert(mb.h[cp.o] == mr.h[cp.o] && mb.h.contains_key(cp.o)); assert(vw($W, mb, sv, i as int) == sa[i as int]); }
@at loop $A end
proof { assert(mem@.h =~= vset($W, mb, sv, i as int, sa[i as int] + 1).h); lem_vset($W, mb, mem@, sv, N, i as int, sa[i as int] + 1); lem_only_trans(mr, mb, mem@, ob); }
@end
@foreach W SV A B : 32 seq![SA_32bit@] 1 2 | 40 seq![SA_u32bit@,~SA_8bit@] 3 4 | 48 seq![SA_u32bit@,~SA_16bit@] 5 6 | 56 seq![SA_u32bit@,~SA_u16bit@,~SA_8bit@] 7 8 | 64 seq![SA_64bit@] 9 10
@loop $B
@isolate
@invariant
  0 <= i <= N, N == num(t, 3, 0, 0) + 1, N + 1 < pow2(($W - 1) as nat), 1 <= N < 0x20_0000_0000_0000, rdyo(mr, cp, ls, rp, t), is_Container(mr, cp), o_Container(mr, cp.o).num_of_substrings + 1 == N, !ob.contains(cp.o), container@ == cp, S@ == ls, T1@ == rp, wf(mr), fp == rdy_fp(mr, cp, ls, rp), apart(fp, ob), ob == vobjs($W, sv), sv == $SV, 
  forall|x: int| #[trigger] rdy_fp(mr, cp, ls, rp).contains(x) ==> 0 < x < mr.nx, o_Container(mr, cp.o).sa_max_value < pow2(($W - 1) as nat),
  pow2(31) == 0x8000_0000, pow2(39) == 0x80_0000_0000, pow2(47) == 0x8000_0000_0000, pow2(55) == 0x80_0000_0000_0000, pow2(63) == 0x8000_0000_0000_0000,
  only(mr, MM, ob), vok($W, MM, sv, N), sa.len() == N, forall|j: int| 0 <= j < N ==> 0 <= #[trigger] sa[j] < N,
  forall|j: int| i <= j < N ==> #[trigger] vw($W, MM, sv, j) == sa[j] + 1,
  forall|j: int| 0 <= j < i ==> #[trigger] vw($W, MM, sv, j) == aend(mr, cp, ls, slot(mr, cp, t, sa[j]))
@decreases N - i
@at loop $B begin
let ghost mb = mem@; let ghost e = aend(mr, cp, ls, slot(mr, cp, t, sa[i as int]));
proof { assert(vw($W, mb, sv, i as int) == sa[i as int] + 1); lem_round(mr, mb, cp, ls, rp, t, ob, sa[i as int]); }
@at loop $B end
proof { assert(mem@.h =~= vset($W, mb, sv, i as int, e).h); lem_vset($W, mb, mem@, sv, N, i as int, e); lem_only_trans(mr, mb, mem@, ob); }
@at loop $B after
let ghost m7 = mem@; let ghost ar = pa_arr(mr, rp);
proof {
  mem_wf(*mem);
  lem_round(mr, m7, cp, ls, rp, t, ob, 0);
  assert(fp.contains(ls.o) && fp.contains(rp.o) && fp.contains(pa_arr(mr, rp)) && fp.contains(cp.o));
}
@at before call induce_bwt_$Wbit 1
let ghost m8 = mem@;
set_gc(mem, Ghost(cp.o), Ghost(gdata(t, lpositions(t, sa))));
let ghost m9 = mem@;
proof {
  mem_wf(*mem);
  assert(m9.h =~= m7.h.remove(ls.o).remove(ar).remove(rp.o) && m9.k =~= m7.k.remove(ls.o).remove(ar).remove(rp.o));
  assert(laid_off(m7, m9, cp, ls, rp, ar));
  lem_leave(mr, m7, m9, $W, sv, cp, ls, rp, t, ob, sa);
}
@at after call induce_bwt_$Wbit 1
proof {
  mem_wf(*mem);
  lem_left(M0, m3, m4, mr, m7, m9, mem@, cp, ls, rp, t, tp, free_T, RES@, ob);
}
@end
@at if 3 post
let ghost mx = mem@;
proof { mem_wf(*mem); lem_left_cn(M0, mx, cp, t, tp, free_T, BWT@); assert(free_T ==> M0.h.contains_key(tp) && tp > 0); }
@rest if 3 post
  MM == mx, left(M0, mx, cp, t, tp, free_T, BWT@), container@ == cp, T_0@.o == tp, t == str_at(M0, T_0@, n as int), wf(M0), wf(mx), free_T ==> M0.h.contains_key(tp) && tp > 0, cn_ok(mx, cp), o_HashTable(mx, o_Container(mx, cp.o).hashtable.o).buf != NUL(),
@at exit
proof { reveal(left); mem_wf(*mem); assert(mx.io == mem@.io && mx.nx <= mem@.nx); assert(forall|o: int| #![trigger mem@.k[o]] mem@.h.contains_key(o) ==> mem@.k[o] == mx.k[o]); lem_transformed(M0, mx, mem@, cp, t, T_0@, n as int, free_T, BWT@); }
