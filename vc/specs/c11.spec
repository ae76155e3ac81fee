@fn create_shortened_string
@params T n container
@uses short
@requires
  1 <= n < 0x10_0000_0000_0000, text_at(M0, T@, n as int), cn_ok(M0, container@),
  o_Container(M0, container@.o).num_of_substrings == num(str_at(M0, T@, n as int), 3, 0, 0), o_Container(M0, container@.o).num_of_unique_substrings == dst(str_at(M0, T@, n as int), 0),
  tb_subs(M0, o_Container(M0, container@.o).hashtable, str_at(M0, T@, n as int), 0), names_in(M0, o_Container(M0, container@.o).hashtable, dst(str_at(M0, T@, n as int), 0)),
@ensures
  shortened(M0, M1, ret@, ht_tb(M0, o_Container(M0, container@.o).hashtable), str_at(M0, T@, n as int)),
@at entry
let ghost t = str_at(M0, T@, n as int); let ghost c = o_Container(M0, container@.o); let ghost h = c.hashtable; let ghost tb = ht_tb(M0, h); let ghost S = num(t, 3, 0, 0);
proof { lem_num(t, 3, 0, 0); lem_dst(t, 0); lem_bitlen64((dst(t, 0) + 1) as nat); 
  lem_bitlen((dst(t, 0) + 1) as nat, 53); lemma2_to64_rest();
  assert forall|i: int| 0 <= i < n implies #[trigger] t[i] == u8s(M0, T@.o)[T@.i + i] by { } }
@at before call new_PackedArray 1
proof { assert(total_substring_count * bits < 0x8000_0000_0000_0000) by (nonlinear_arith) requires total_substring_count <= 0x20_0000_0000_0000, bits <= 64; }
@at loop 1 pre
proof { assert(!is_s(t, n - 1)); assert(!lms(t, n - 1) || n == 1); }
@loop 1
@isolate
@invariant_except_break
  0 <= i <= n - 1, entries(MM, T1@, tb, t, i + 1),
  q == nxt(t, i + 1), i + 1 <= q <= n, previous_type == (if is_s(t, i as int) { 0int } else { 1 }), j == S - num(t, 3, 0, i + 1),
@invariant
  t == str_at(M0, T@, n as int), 1 <= n < 0x10_0000_0000_0000, text_at(M0, T@, n as int), 0 < T@.o < M0.nx, cn_ok(M0, container@), 0 < container@.o < M0.nx, 
  c == o_Container(M0, container@.o), h == c.hashtable, tb == ht_tb(M0, h), S == num(t, 3, 0, 0), tb_subs(M0, h, t, 0), names_in(M0, h, dst(t, 0)),
  total_substring_count == S + 2, 0 <= dst(t, 0) <= S <= n, wf(M0), fits((dst(t, 0) + 1) as u64, bitlen((dst(t, 0) + 1) as nat)),
  live(MM, T1@, 1), pa_ok(MM, T1@), T1@.o >= M0.nx, pa_arr(MM, T1@) >= M0.nx, pa_arr(MM, T1@) != T1@.o, pa_len(MM, T1@) == S + 2, pa_w(MM, T1@) == bitlen((dst(t, 0) + 1) as nat), grown(M0, MM, set![T1@.o, pa_arr(MM, T1@)]),
  pa_get(MM, T1@, S + 1) == 0, max_name == dst(t, 0) + 1
@ensures
  entries(MM, T1@, tb, t, 0)
@decreases i
@at loop 1 begin
let ghost mb = mem@;
proof { assert(t[i as int] == u8s(M0, T@.o)[T@.i + i]); assert(t[i + 1] == u8s(M0, T@.o)[T@.i + i + 1]);
  lem_nxt(t, i + 2); if i + 3 <= n { lem_nxt(t, i + 3); } lem_num_le(t, 0, i + 1); lem_num_le(t, 0, i + 2); lem_num(t, 3, 0, i + 2);
}
@at before call find_name 1
proof { let x = str_at(MM, pi(T@, p as int), q - p + 1); assert(x =~= lsub(t, i + 1));  assert(lms(t, i + 1)); lem_occ(t, x, 0); lem_occ(t, x, i + 1); assert(occ(t, x, i + 1)); assert(holds(tb, x)); 
  assert(ht_tb(MM, h) == tb); assert(1 <= namef(tb, x) <= dst(t, 0)); 
  lem_bitlen(namef(tb, x) as nat, bitlen((dst(t, 0) + 1) as nat) as nat); }
@at after call set_value 2
proof { lem_entry(mb, MM, T1@, tb, t, i + 2, j as int); assert(place(t, i + 1) == j); assert(entry(MM, T1@, tb, t, i + 1)); assert(entries(MM, T1@, tb, t, i + 1)); }
@at before call set_value 3
let ghost ml = mem@;
@at exit
proof { lem_entry(ml, MM, T1@, tb, t, 0, 0); }
