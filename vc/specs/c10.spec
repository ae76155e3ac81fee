@fn sort_LMS_strings::lambda
@params p1 p2
@uses naming
@requires
  is_Container(M0, container@), is_HashTable(M0, o_Container(M0, container@.o).hashtable), rec_in(M0, p1@, 0), rec_in(M0, p2@, 0)
@ensures
  ret == lms_lt(rstr(u8s(M0, p1@.o), p1@.i), rstr(u8s(M0, p2@.o), p2@.i))
@at entry
let ghost x = rstr(u8s(M0, p1@.o), p1@.i); let ghost y = rstr(u8s(M0, p2@.o), p2@.i); let ghost mut k_ = 0int;
@loop 1
@invariant_except_break
  l1 + k_ == x.len(), l2 + k_ == y.len(), 0 <= k_, forall|l: int| 0 <= l < k_ ==> x[l] == #[trigger] y[l], 
  p1@ == pi(p1_0@, r_str(u8s(M0, p1_0@.o), p1_0@.i) + k_), p2@ == pi(p2_0@, r_str(u8s(M0, p2_0@.o), p2_0@.i) + k_)
@invariant
  rec_in(M0, p1_0@, 0), rec_in(M0, p2_0@, 0), x == rstr(u8s(M0, p1_0@.o), p1_0@.i), y == rstr(u8s(M0, p2_0@.o), p2_0@.i), x.len() < 0x4000_0000_0000_0000
@ensures
  l1 + k_ == x.len(), l2 + k_ == y.len(), 0 <= k_, forall|l: int| 0 <= l < k_ ==> x[l] == #[trigger] y[l],
  l1 > 0 && l2 > 0 ==> c1 == x[k_] && c2 == y[k_] && c1 != c2
@decreases l1
@at loop 1 end
proof { k_ = k_ + 1; }
@at loop 1 post
proof { lem_lt_at(x, y, k_); }
@fn sort_LMS_strings
@params T container
@uses naming
@requires
  ({ let c = o_Container(M0, container@.o); let h = c.hashtable; let n = c.n as int; let t = str_at(M0, T@, n);
    &&& 1 <= n < 0x10_0000_0000_0000 && text_at(M0, T@, n) && cn_ok(M0, container@) && T@.o != o_HashTable(M0, h.o).buf.o
    &&& c.num_of_unique_substrings == dst(t, 0) && c.head_string_end == nxt(t, 0) && tb_subs(M0, h, t, 0) && o_HashTable(M0, h.o).bufsize <= 602 * n })
@ensures
  sorted_post(M0, M1, container@, ret@, str_at(M0, T@, o_Container(M0, container@.o).n as int))
@at entry
let ghost c0 = o_Container(M0, container@.o); let ghost h = c0.hashtable; let ghost n = c0.n as int; let ghost t = str_at(M0, T@, n); let ghost v0 = o_HashTable(M0, h.o); let ghost L = v0.bufsize as int;
let ghost u = dst(t, 0); let ghost nb = v0.NAME_BYTES as int;
proof { mem_wf(*mem); lem_nxt(t, 0); lem_dst(t, 0); lem_half(t, 0); assert(1 <= bl(nxt(t, 0) + 1) <= 8) by { reveal(bl); } }
@at loop 1 before
let ghost m1 = mem@; let ghost bo = o_HashTable(m1, h.o).buf.o; let ghost tb = ht_tb(m1, h);
proof { 
  assert(core(tb, L).s =~= ht_tb(M0, h).s);
  lem_core(tb, L);
  lem_tail(ht_tb(M0, h), tb);
  assert(roomed(M0, m1, container@, s@, bo, t, T@));
}
@loop 1
@isolate
@invariant
  0 <= i <= v0.HTSIZE, v0.HTSIZE == tb.ch.len(), roomed(M0, m1, container@, s@, bo, t, T@), c0 == o_Container(M0, container@.o), h == c0.hashtable, v0 == o_HashTable(M0, h.o), u == dst(t, 0), 0 <= u < 0x10_0000_0000_0000, tb == ht_tb(m1, h), wf(m1),
  MM =~= put(m1, s@.o, Obj::P(ps(MM, s@.o))), ps(MM, s@.o).len() == u + 2, 
  i <= tb.ch.len(), j == 1 + nrec(tb.ch, i as int), collected(ps(MM, s@.o), bo, tb.ch, i as int, 0)
@decreases v0.HTSIZE - i
@at loop 1 begin
let ghost mut j_ = 0int; let ghost c = tb.ch[i as int]; let ghost mi = mem@;
proof { assert(chain(tb, i as int)); if c.len() > 0 { assert(at(tb, i as int, 0)); } lem_nrec_le(tb.ch, i as int, tb.ch.len() as int); }
@loop 2
@invariant
  walk(tb, i as int, j_, p as int), j == 1 + nrec(tb.ch, i as int) + j_, 
  MM =~= put(m1, s@.o, Obj::P(ps(MM, s@.o))), ps(MM, s@.o).len() == u + 2, collected(ps(MM, s@.o), bo, tb.ch, i as int, j_)
@ensures
  j_ == c.len()
@decreases todo(tb, i as int, j_, p as int)
@at loop 2 begin
let ghost sb = ps(mem@, s@.o);
proof { lem_walk(tb, i as int, j_, p as int); assert(ht_tb(MM, h) == tb); lem_nrec_le(tb.ch, i as int, tb.ch.len() as int); }
@at loop 2 end
proof { lem_collect(sb, ps(mem@, s@.o), bo, tb.ch, i as int, j_); j_ = j_ + 1; }
@at loop 1 end
proof { assert(nrec(tb.ch, i + 1) == nrec(tb.ch, i as int) + c.len()); 
  assert(collected(ps(MM, s@.o), bo, tb.ch, i + 1, 0)) by { assert forall|g: int, k: int| 0 <= g < tb.ch.len() && 0 <= k < tb.ch[g].len() && (g < i + 1 || (g == i + 1 && k < 0)) implies #[trigger] put_at(ps(MM, s@.o), bo, tb.ch, g, k) by { } } }
@at loop 1 after
let ghost m2 = mem@; let ghost s2 = ps(m2, s@.o); let ghost bs = u8s(m2, bo);
@rest loop 1 after
  roomed(M0, m1, container@, s@, bo, t, T@), wf(m1), wf(M0), c0 == o_Container(M0, container@.o), h == c0.hashtable, v0 == o_HashTable(M0, h.o), u == dst(t, 0), nb == v0.NAME_BYTES, L == v0.bufsize, n == t.len(), n == c0.n, t == str_at(M0, T@, n), 1 <= n < 0x10_0000_0000_0000, 0 <= u <= n / 2,
  c0.num_of_unique_substrings == u, c0.head_string_end == nxt(t, 0), 0 <= L <= 602 * n, 1 <= nb <= 8, text_at(M0, T@, n), t == str_at(M0, T@, n), pos == L, tb == ht_tb(m1, h), 1 <= bl(nxt(t, 0) + 1) <= 8, 0 <= nxt(t, 0) <= n,
  MM == m2, m2 == put(m1, s@.o, Obj::P(s2)), s2 == ps(m2, s@.o), s2.len() == u + 2, bs == u8s(m2, bo), j == 1 + u, collected(s2, bo, tb.ch, tb.ch.len() as int, 0)
@at before call sort 1
proof { assert(m == u); assert(pi(pi(s@, 1), m as int) == pi(s@, 1 + u)); }
let ghost sort_order = |x: PtrV, y: PtrV| lms_lt(rstr(bs, x.i), rstr(bs, y.i));
proof { 
  lem_listed(tb, s2, bo, u);
  assert forall|x: PtrV| in_range(m2, pi(s@, 1), pi(s@, 1 + u), x) implies rec_in(m2, x, 0) && x.o == bo by {
     let k = choose|k: int| 1 <= k < 1 + u && #[trigger] ps(m2, s@.o)[k] == x; assert(elem(tb, s2, bo, k)); lem_rec_in(m1, h, strk(tb, s2, k)); }
  assert forall|x: PtrV| in_range(m2, pi(s@, 1), pi(s@, 1 + u), x) implies !#[trigger] sort_order(x, x) by { lem_lt_irr(rstr(bs, x.i)); }
  assert forall|x: PtrV, y: PtrV, z: PtrV| in_range(m2, pi(s@, 1), pi(s@, 1 + u), x) && in_range(m2, pi(s@, 1), pi(s@, 1 + u), y) && in_range(m2, pi(s@, 1), pi(s@, 1 + u), z) && #[trigger] sort_order(x, y) && #[trigger] sort_order(y, z) implies sort_order(x, z) by {
    lem_lt_trans(rstr(bs, x.i), rstr(bs, y.i), rstr(bs, z.i)); }
  assert forall|x: PtrV, y: PtrV, z: PtrV| in_range(m2, pi(s@, 1), pi(s@, 1 + u), x) && in_range(m2, pi(s@, 1), pi(s@, 1 + u), y) && in_range(m2, pi(s@, 1), pi(s@, 1 + u), z) && !#[trigger] sort_order(x, y) && !#[trigger] sort_order(y, z) implies !sort_order(x, z) by {
    lem_lt_ntrans(rstr(bs, x.i), rstr(bs, y.i), rstr(bs, z.i)); }
  assert forall|w: MemV, x: PtrV| #[trigger] sorting(m2, w, pi(s@, 1)) && #[trigger] in_range(m2, pi(s@, 1), pi(s@, 1 + u), x) implies is_Container(w, container@) && is_HashTable(w, o_Container(w, container@.o).hashtable) && rec_in(w, x, 0) && u8s(w, x.o) == bs by {
    assert(is_Container(m2, container@) && container@.o != s@.o && o_Container(m2, container@.o) == c0); assert(is_Container(w, container@)); assert(o_Container(w, container@.o) == c0); assert(h.o != s@.o && is_HashTable(m2, h)); assert(rec_in(m2, x, 0)); assert(x.o == bo && bo != s@.o); }
}
@at after call sort 1
let ghost m3 = mem@; let ghost s3 = ps(m3, s@.o); let ghost xs = str_list(tb, s3, u);
proof {
  let (pp, qq) = choose|pp: Seq<int>, qq: Seq<int>| #[trigger] is_perm(pp, qq, u) && (forall|k: int| 1 <= k < 1 + u ==> #[trigger] s3[k] == s2[1 + pp[k - 1]]);
  lem_sorted(tb, s2, s3, bo, u, pp, qq);
  lem_str_list(t, tb, s3, bo, u);
  assert(m3 =~= put(m1, s@.o, Obj::P(s3)));
  assert(ht_tb(m3, h) == tb);
}
@rest after call sort 1
  roomed(M0, m1, container@, s@, bo, t, T@), wf(m1), wf(M0), c0 == o_Container(M0, container@.o), h == c0.hashtable, v0 == o_HashTable(M0, h.o), u == dst(t, 0), nb == v0.NAME_BYTES, L == v0.bufsize, n == t.len(), n == c0.n, t == str_at(M0, T@, n), 1 <= n < 0x10_0000_0000_0000, 0 <= u <= n / 2,
  c0.num_of_unique_substrings == u, c0.head_string_end == nxt(t, 0), 0 <= L <= 602 * n, 1 <= nb <= 8, text_at(M0, T@, n), t == str_at(M0, T@, n), pos == L, tb == ht_tb(m1, h), 1 <= bl(nxt(t, 0) + 1) <= 8, 0 <= nxt(t, 0) <= n,
  m == u, MM == m3, m3 == put(m1, s@.o, Obj::P(s3)), s3 == ps(m3, s@.o), s3.len() == u + 2, sorted_list(t, xs), naming(tb, s3, bo, xs, 0), tb == ht_tb(m3, h), ht_ok(m3, h)
@loop 3
@isolate
@invariant
  1 <= i <= u + 1, m == u, roomed(M0, m1, container@, s@, bo, t, T@), c0 == o_Container(M0, container@.o), h == c0.hashtable, v0 == o_HashTable(M0, h.o), u == dst(t, 0), wf(m1), L == v0.bufsize, nb == v0.NAME_BYTES, u <= t.len() / 2,
  m3 == put(m1, s@.o, Obj::P(s3)), s3.len() == u + 2, sorted_list(t, xs), wf(M0),
  MM =~= put(m3, bo, Obj::U8(u8s(MM, bo))), ht_ok(MM, h), core_ok(ht_tb(MM, h), L), naming(ht_tb(MM, h), s3, bo, xs, i - 1),
  forall|y: Seq<u8>| #![trigger holds(ht_tb(MM, h), y)] holds(ht_tb(MM, h), y) <==> occ(t, y, 0)
@decreases u + 1 - i
@at loop 3 begin
let ghost mb = mem@; let ghost x = xs[i - 1];
proof { assert(place_at(ht_tb(mb, h), s3, bo, xs, i as int)); lem_rec_in(mb, h, x); lem_name_fits(i as int, nb); reveal(p8); }
@at loop 3 end
proof { lem_set_name(mb, MM, h, q@, x, i as int); lem_core_named(ht_tb(mb, h), ht_tb(MM, h), L, x, i as int); lem_naming(ht_tb(mb, h), ht_tb(MM, h), s3, bo, xs, t, i as int); }
@at loop 3 after
let ghost m4 = mem@; let ghost b4 = u8s(m4, bo); let ghost t4 = ht_tb(m4, h); let ghost k_ = bl(nxt(t, 0) + 1); let ghost hl = nxt(t, 0) + 1; let ghost q2 = L + 2 + k_ + hl + nb;
@rest loop 3 after
  roomed(M0, m1, container@, s@, bo, t, T@), wf(m1), wf(M0), c0 == o_Container(M0, container@.o), h == c0.hashtable, v0 == o_HashTable(M0, h.o), u == dst(t, 0), nb == v0.NAME_BYTES, L == v0.bufsize, n == t.len(), n == c0.n, t == str_at(M0, T@, n), 1 <= n < 0x10_0000_0000_0000, 0 <= u <= n / 2,
  c0.num_of_unique_substrings == u, c0.head_string_end == nxt(t, 0), 0 <= L <= 602 * n, 1 <= nb <= 8, text_at(M0, T@, n), t == str_at(M0, T@, n), pos == L, tb == ht_tb(m1, h), 1 <= bl(nxt(t, 0) + 1) <= 8, 0 <= nxt(t, 0) <= n,
  m == u, MM == m4, m3 == put(m1, s@.o, Obj::P(s3)), m4 == put(m3, bo, Obj::U8(b4)), b4 == u8s(m4, bo), s3 == ps(m3, s@.o), s3.len() == u + 2, sorted_list(t, xs), t4 == ht_tb(m4, h), ht_ok(m4, h), naming(t4, s3, bo, xs, u), core_ok(t4, L), forall|y: Seq<u8>| #![trigger holds(t4, y)] holds(t4, y) <==> occ(t, y, 0), 
  k_ == bl(nxt(t, 0) + 1), hl == nxt(t, 0) + 1, q2 == L + 2 + k_ + hl + nb
@at after call set_length 1
let ghost ba = u8s(mem@, bo);
@at after call set_name 2
let ghost bb = u8s(mem@, bo);
proof { lem_be_same(ba, bb, L + 1, k_); lem_name_fits(u + 1, nb); }
@at loop 4 before
let ghost m5 = mem@; let ghost b5 = u8s(m5, bo);
proof { assert(same_out(bb, b5, L + 1 + k_, L + 2 + k_)); lem_be_same(bb, b5, L + 1, k_); lem_be_same(bb, b5, L + 2 + k_ + hl, nb); assert(head_part(b5, L, t, nb, u + 1, 0)); assert(same_out(b4, b5, L, b4.len() as int)); 
  assert(T@.o != bo); assert(u8s(m5, T@.o).subrange(T@.i, T@.i + t.len() as int + 1) =~= t.push(0)); assert(o_Container(m5, container@.o).head_string_end + 1 == hl); }
@loop 4
@isolate
@invariant
  0 <= i <= hl, hl == nxt(t, 0) + 1, hl <= t.len() + 1, k_ == bl(hl), 1 <= k_ <= 8, q2 == L + 2 + k_ + hl + nb, q2 + 4 + nb <= b4.len(), 0 <= L, 1 <= nb <= 8, T@.o != bo, t.len() >= 1,
  str_in(m5, T@, t.len() as int + 1), u8s(m5, T@.o).subrange(T@.i, T@.i + t.len() as int + 1) == t.push(0), o_Container(m5, container@.o).head_string_end + 1 == hl, is_Container(m5, container@), container@.o != bo,
  m5.h.contains_key(bo), m5.h[bo] is U8,
  MM =~= put(m5, bo, Obj::U8(u8s(MM, bo))), same_out(b4, u8s(MM, bo), L, b4.len() as int), r@ == (PtrV { o: bo, i: L + 2 + k_ + i }), head_part(u8s(MM, bo), L, t, nb, u + 1, i as int)
@decreases hl - i
@at loop 4 begin
let ghost sb = u8s(mem@, bo);
proof { assert(t.push(0)[i as int] == u8s(m5, T@.o)[T@.i + i]); }
@at loop 4 end
proof { let w = u8s(mem@, bo); lem_head_keep(sb, w, L, t, nb, u + 1, i as int, L + 2 + k_ + i, L + 2 + k_ + i + 1); }
@at before call set_length 2
let ghost bc = u8s(mem@, bo);
proof { assert(bl(1) == 1) by { reveal(bl); } }
@at after call set_length 2
let ghost bd = u8s(mem@, bo); 
proof { }
@at loop 5 before
proof { lem_be_same(bd, u8s(mem@, bo), q2 + 1, 1); }
let ghost m6 = mem@; let ghost b6 = u8s(m6, bo);
@loop 5
@isolate
@invariant
  0 <= i <= nb, 1 <= nb <= 8, q2 + 4 + nb <= b4.len(), 0 <= L <= q2, m6.h.contains_key(bo), m6.h[bo] is U8, is_Container(m6, container@), container@.o != bo, h.o != bo, is_HashTable(m6, h), o_Container(m6, container@.o).hashtable == h, o_HashTable(m6, h.o).NAME_BYTES == nb,
  MM =~= put(m6, bo, Obj::U8(u8s(MM, bo))), same_out(b6, u8s(MM, bo), q2 + 4, b4.len() as int), b6.len() == b4.len(), r@ == (PtrV { o: bo, i: q2 + 4 + i }), end_part(u8s(MM, bo), q2, i as int), end_part(b6, q2, 0)
@decreases nb - i
@at loop 5 begin
let ghost sb = u8s(mem@, bo);
@at loop 5 end
proof { let w = u8s(mem@, bo); lem_be_same(sb, w, q2 + 4, i as int); lem_be_same(sb, w, q2 + 1, 1); assert(q2 + 4 + (i + 1) - 1 == q2 + 4 + i); }
@at loop 5 after
let ghost m7 = mem@; let ghost c7 = o_Container(m7, container@.o); let ghost s7 = ps(m7, s@.o); let ghost b7 = u8s(m7, bo); let ghost t7 = ht_tb(m7, h);
proof {
  lem_head_keep(bc, b7, L, t, nb, u + 1, hl, q2, b7.len() as int);
  assert(s7 =~= s3.update(u + 1, PtrV { o: bo, i: L }).update(0, PtrV { o: bo, i: q2 }));
  assert(m7 =~= put(put(put(m1, s@.o, Obj::P(s7)), bo, Obj::U8(b7)), container@.o, Obj::Container(c7)));
  assert(same_out(b4, b7, L, b4.len() as int));
  assert(finished(t, t4, t7, s3, s7, bo, xs, L, q2));
}
@rest loop 5 after
  roomed(M0, m1, container@, s@, bo, t, T@), wf(m1), wf(M0), c0 == o_Container(M0, container@.o), h == c0.hashtable, v0 == o_HashTable(M0, h.o), u == dst(t, 0), nb == v0.NAME_BYTES, L == v0.bufsize, n == t.len(), n == c0.n, t == str_at(M0, T@, n), 1 <= n < 0x10_0000_0000_0000, 0 <= u <= n / 2,
  c0.num_of_unique_substrings == u, c0.head_string_end == nxt(t, 0), 0 <= nxt(t, 0) <= n, 0 <= L <= 602 * n, 1 <= nb <= 8,
  MM == m7, m7 == put(put(put(m1, s@.o, Obj::P(s7)), bo, Obj::U8(b7)), container@.o, Obj::Container(c7)), c7 == (ContainerV { lastptr: PtrV { o: bo, i: L + 2 + bl(nxt(t, 0) + 1) }, ..c0 }), s7 == ps(m7, s@.o), b7 == u8s(m7, bo), 
  t7 == ht_tb(m7, h), finished(t, t4, t7, s3, s7, bo, xs, L, q2), b7.len() < 0x4000_0000_0000_0000, b7.len() == u8s(m1, bo).len()
@at loop 6 before
proof {
  lem_finished(t, t4, t7, s3, s7, bo, xs, L, q2);
  assert forall|k: int| 0 <= k < u + 2 implies (#[trigger] s7[k]).o == bo by { if 1 <= k && k <= u { assert(rec_ok(t7.s, t7.nb, s7[k].i)); } }
}
@loop 6
@isolate
@invariant
  1 <= i <= u + 2, 0 <= u < 0x10_0000_0000_0000, is_Container(m7, container@), c7 == o_Container(m7, container@.o), c7.num_of_unique_substrings == u, m7.h.contains_key(s@.o), m7.h[s@.o] is P, s7 == ps(m7, s@.o), s7.len() == u + 2, s@.o != container@.o, s@.i == 0,
  forall|k: int| 0 <= k < u + 2 ==> (#[trigger] s7[k]).o == bo,
  MM =~= put(m7, container@.o, Obj::Container(o_Container(MM, container@.o))), o_Container(MM, container@.o) == (ContainerV { min_ptr: o_Container(MM, container@.o).min_ptr, max_ptr: o_Container(MM, container@.o).max_ptr, ..c7 }), 
  bounds(o_Container(MM, container@.o), s7, i as int), o_Container(MM, container@.o).min_ptr.o == bo, o_Container(MM, container@.o).max_ptr.o == bo
@decreases u + 2 - i
@at loop 6 after
let ghost m8 = mem@; let ghost c8 = o_Container(m8, container@.o);
proof {
  lem_nxt(t, 0);
  lem_finished(t, t4, t7, s3, s7, bo, xs, L, q2);
  assert(bl(nxt(t, 0) + 1) <= 8) by { reveal(bl); }
  assert(c8.min_ptr.i <= s7[0].i <= c8.max_ptr.i);
  assert forall|i: int| 0 <= i < u + 2 implies 0 <= (#[trigger] s7[i]).i < b7.len() && s7[i].o == bo && 1 <= b7[s7[i].i] <= 8 && s7[i].i + r_name(b7, s7[i].i) <= b7.len() && r_len(b7, s7[i].i) >= 1 && rec_in(m8, s7[i], 0) by { if 1 <= i && i <= u { assert(rec_ok(t7.s, t7.nb, s7[i].i)); } }
  let ia = choose|i: int| 0 <= i < u + 2 && #[trigger] s7[i] == c8.min_ptr; let ib = choose|i: int| 0 <= i < u + 2 && #[trigger] s7[i] == c8.max_ptr;
  assert(rec_in(m8, c8.max_ptr, 0) && 0 <= c8.min_ptr.i < b7.len() && 0 <= c8.max_ptr.i < b7.len() && c8.max_ptr.i + r_name(b7, c8.max_ptr.i) <= b7.len()) by { assert(s7[ia].o == bo && s7[ib].o == bo); }
}
@rest loop 6 after
  roomed(M0, m1, container@, s@, bo, t, T@), wf(m1), wf(M0), c0 == o_Container(M0, container@.o), h == c0.hashtable, u == dst(t, 0), L == v0.bufsize, n == t.len(), n == c0.n, t == str_at(M0, T@, n), 1 <= n < 0x10_0000_0000_0000, 0 <= u <= n / 2, m7 == put(put(put(m1, s@.o, Obj::P(s7)), bo, Obj::U8(b7)), container@.o, Obj::Container(c7)),
  c0.num_of_unique_substrings == u, c7 == (ContainerV { lastptr: PtrV { o: bo, i: L + 2 + bl(nxt(t, 0) + 1) }, ..c0 }), s7 == ps(m7, s@.o), b7 == u8s(m7, bo), 
  t7 == ht_tb(m7, h), finished(t, t4, t7, s3, s7, bo, xs, L, q2), b7.len() < 0x4000_0000_0000_0000, b7.len() == u8s(m1, bo).len(), 
  MM == m8, c8 == o_Container(m8, container@.o), m8 == put(m7, container@.o, Obj::Container(c8)), c8 == (ContainerV { min_ptr: c8.min_ptr, max_ptr: c8.max_ptr, ..c7 }), bounds(c8, s7, u + 2), c8.min_ptr.o == bo, c8.max_ptr.o == bo, rec_in(m8, c8.max_ptr, 0), 0 <= c8.min_ptr.i <= c8.max_ptr.i, c8.max_ptr.i < b7.len()
@at exit
let ghost ce = o_Container(mem@, container@.o);
proof {
  assert(mem@ =~= put(put(put(m1, s@.o, Obj::P(s7)), bo, Obj::U8(b7)), container@.o, Obj::Container(ce)));
  assert(ht_tb(mem@, h) == t7 && t7 == (Tb { s: b7, ..t4 }));
  lem_sorted_post(M0, m1, mem@, container@, s@, bo, t, T@, t4, s3, s7, b7, ce, xs, L, q2);
}
