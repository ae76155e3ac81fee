@fn extract_LMS_strings
@params T n
@uses decomp
@requires
  1 <= n < 0x10_0000_0000_0000, text_at(M0, T@, n as int)
@ensures
  decomposed(M0, M1, ret@, str_at(M0, T@, n as int))
@at entry
let ghost t = str_at(M0, T@, n as int);
@at loop 1 pre
proof { 
  assert(t.len() == n);
  assert(!is_s(t, n - 1)); 
  let c = o_Container(MM, container@.o);
  assert(t[n - 1] == u8s(M0, T@.o)[T@.i + n - 1]);
  assert forall|b: int| 1 <= b <= 256 implies #[trigger] c.M[b] == num(t, 0, b - 1, n - 1) by { assert(num(t, 0, b - 1, n as int) == 0); }
  assert forall|b: int| 1 <= b <= 256 implies #[trigger] c.NL[b] == num(t, 1, b - 1, n - 1) by { assert(num(t, 1, b - 1, n as int) == 0); }
  assert forall|b: int| 1 <= b <= 256 implies #[trigger] c.C[b] == num(t, 2, b - 1, n as int) by { }
}
@loop 1
@isolate
@invariant
  -1 <= i <= n - 2, t == str_at(M0, T@, n as int), 1 <= n < 0x10_0000_0000_0000, text_at(M0, T@, n as int), 0 < T@.o < M0.nx,
  cn_own(M0, MM, container@), stats(o_Container(MM, container@.o), t, i + 1, i + 2), tb_subs(MM, o_Container(MM, container@.o).hashtable, t, i + 2),
  q == nxt(t, i + 2), i + 2 <= q <= n, p == q, previous_type == (if is_s(t, i + 1) { 0int } else { 1 }),
  o_HashTable(MM, o_Container(MM, container@.o).hashtable.o).bufsize <= 602 * (n - q)
@decreases i + 1
@at loop 1 begin
let ghost mb = mem@; let ghost cb = o_Container(mem@, container@.o);
proof { mem_wf(*mem); lem_num(t, 3, 0, i + 2); lem_dst(t, i + 2); lem_nxt(t, i + 2); if i + 3 <= n { lem_nxt(t, i + 3); }
  lem_num(t, 0, t[i as int] as int, i + 1); lem_num(t, 1, t[i as int] as int, i + 1); lem_num(t, 2, t[i + 1] as int, i + 2);
  assert(t[i as int] == u8s(M0, T@.o)[T@.i + i]); assert(t[i + 1] == u8s(M0, T@.o)[T@.i + i + 1]); }
@at before call insert_string 1
let ghost mi = mem@;
proof { let x = str_at(mi, pi(T@, p as int), q - p + 1); assert(x =~= lsub(t, i + 1)); 
  assert(lms(t, i + 1)); }
@at loop 1 end
proof { lem_count(cb, o_Container(MM, container@.o), t, i as int, i + 1); }
@at exit
proof { assert(!lms(t, 0)); }
