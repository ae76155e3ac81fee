@fn HashTable::hash_function
@params m p
@uses table
@requires
  is_HashTable(M0, this_@), o_HashTable(M0, this_@.o).HTSIZE > 0, str_in(M0, p@, m as int)
@ensures
  ret == hashf(str_at(M0, p@, m as int), o_HashTable(M0, this_@.o).HTSIZE as int), ret < o_HashTable(M0, this_@.o).HTSIZE
@loop 1
@invariant
  i <= m, x as int == hrec(str_at(M0, p_0@, m as int), i as int), p@ == pi(p_0@, i as int), str_in(M0, p_0@, m as int)
@decreases m - i

@fn HashTable::find_name
@params m p
@uses table
@throws
@requires
  ht_ok(M0, this_@), str_in(M0, p@, m as int), m < 0x2000_0000_0000_0000
@ensures
  holds(ht_tb(M0, this_@), str_at(M0, p@, m as int)) ==> ret is Ok && ret->Ok_0 == namef(ht_tb(M0, this_@), str_at(M0, p@, m as int)),
  !holds(ht_tb(M0, this_@), str_at(M0, p@, m as int)) ==> ret is Err && ret->Err_0.is_std(),
@at entry
let ghost tb = ht_tb(mem@, this_@); let ghost x = str_at(mem@, p@, m as int); let ghost hh = hashf(x, tb.ch.len() as int); let ghost c = tb.ch[hh];
let ghost mut j_ = 0int;
proof { lem_hashf(x, tb.ch.len() as int); assert(chain(tb, hh)); if c.len() > 0 { assert(at(tb, hh, 0)); } }
@loop 1
@invariant
  walk(tb, hh, j_, q as int), forall|i: int| 0 <= i < j_ ==> rstr(tb.s, #[trigger] c[i]) != x
@ensures
  j_ == c.len(), forall|i: int| 0 <= i < c.len() ==> rstr(tb.s, #[trigger] c[i]) != x
@decreases todo(tb, hh, j_, q as int)
@at loop 1 begin
proof { lem_walk(tb, hh, j_, q as int); }
@at loop 1 continue
proof { if l != 2 { assert(rstr(tb.s, c[j_]).len() != m); j_ = j_ + 1; } }
@loop 2
@invariant
  i <= m, forall|k: int| 0 <= k < i ==> x[k] == #[trigger] rstr(tb.s, c[j_])[k]
@ensures
  i == m || x[i as int] != rstr(tb.s, c[j_])[i as int]
@decreases m - i
@at if 5 then
proof { assert(x =~= rstr(tb.s, c[j_])); assert(has_at(tb, x, j_)); lem_uniq(tb, x, j_); }
@at loop 1 end
proof { assert(x[i as int] != rstr(tb.s, c[j_])[i as int]); j_ = j_ + 1; }
@at throw
proof { if holds(tb, x) { let k = choose|k: int| #[trigger] has_at(tb, x, k); assert(has_at(tb, x, k)); assert(rstr(tb.s, c[k]) == x); } }

@fn HashTable::insert_string
@attr #[verifier::rlimit(150)]
@params m p
@uses table
@requires
  ht_ok(M0, this_@), str_in(M0, p@, m as int), 3 <= m < 0x1000_0000_0000_0000, p@.o != o_HashTable(M0, this_@.o).buf.o,
  o_HashTable(M0, this_@.o).bufsize + m + 600 < 0x4000_0000_0000_0000,
@ensures
  ht_ok(M1, this_@), frame(M0, M1, ht_fp(M0, this_@).insert(M0.nx)),
  ret == (if holds(ht_tb(M0, this_@), str_at(M0, p@, m as int)) { 0int } else { 1 }),
  ht_after(M0, M1, this_@, str_at(M0, p@, m as int)), o_HashTable(M1, this_@.o).bufsize <= o_HashTable(M0, this_@.o).bufsize + m + 600,
  ht_heap(M0, M1, this_@), o_HashTable(M1, this_@.o).NAME_BYTES == o_HashTable(M0, this_@.o).NAME_BYTES,
  nrec(M1.gc[this_@.o], M1.gc[this_@.o].len() as int) == nrec(M0.gc[this_@.o], M0.gc[this_@.o].len() as int) + ret,
@at entry
let ghost tb = ht_tb(mem@, this_@); let ghost x = str_at(mem@, p@, m as int); let ghost hh = hashf(x, tb.ch.len() as int); let ghost c = tb.ch[hh];
let ghost mut j_ = 0int; let ghost H0 = o_HashTable(mem@, this_@.o);
proof { lem_hashf(x, tb.ch.len() as int); assert(chain(tb, hh)); if c.len() > 0 { assert(at(tb, hh, 0)); } }
@loop 1
@invariant
  walk(tb, hh, j_, q as int), forall|i: int| 0 <= i < j_ ==> rstr(tb.s, #[trigger] c[i]) != x,
  MM =~= coll(M0, this_@, o_HashTable(MM, this_@.o).collisions)
@ensures
  j_ == c.len(), forall|i: int| 0 <= i < c.len() ==> rstr(tb.s, #[trigger] c[i]) != x, c.len() > 0 ==> pp == q && r@ == pi(H0.buf, q as int)
@decreases todo(tb, hh, j_, q as int)
@at loop 1 begin
let ghost mb = mem@;
proof { lem_walk(tb, hh, j_, q as int); }
@at loop 1 continue
proof { if l != 2 { assert(rstr(tb.s, c[j_]).len() != m); j_ = j_ + 1; } }
@loop 2
@invariant
  i <= m, forall|k: int| 0 <= k < i ==> x[k] == #[trigger] rstr(tb.s, c[j_])[k]
@ensures
  i == m || x[i as int] != rstr(tb.s, c[j_])[i as int]
@decreases m - i
@at if 5 then
proof { assert(x =~= rstr(tb.s, c[j_])); assert(has_at(tb, x, j_)); lem_uniq(tb, x, j_); }
@at loop 1 end
proof { assert(x[i as int] != rstr(tb.s, c[j_])[i as int]); j_ = j_ + 1; }
@at loop 1 post
let ghost ml = mem@;
proof { 
  lem_walk(tb, hh, j_, q as int);
  if holds(tb, x) { let k = choose|k: int| #[trigger] has_at(tb, x, k); assert(has_at(tb, x, k)); assert(rstr(tb.s, c[k]) == x); }
}
@at if 6 post
let ghost qn = r@.i; let ghost bo = r@.o; let ghost mj = mem@; let ghost s1 = u8s(mem@, r@.o); let ghost rest1 = u64s(mem@, H0.rest.o)[hh] as int; let ghost k_ = bl(m as int);
proof {
  assert(r@ == pi(o_HashTable(mj, this_@.o).buf, qn));
  assert(prepared(tb.s, s1, tb, hh, qn, space_required as int, rest1));
  assert(u64s(mj, H0.rest.o) =~= tb.rest.update(hh, rest1 as u64));
  assert(u64s(mj, H0.head.o) =~= (if c.len() == 0 { tb.head.update(hh, qn as u64) } else { tb.head }));
  let V = o_HashTable(mj, this_@.o);
  assert(1 <= k_ <= 8) by { reveal(bl); }
  assert(ht_shape(mj, this_@));
  assert(frame(M0, mj, ht_fp(M0, this_@).insert(M0.nx)));
  assert(mj.gc == M0.gc);
  assert(V.buf == (PtrV { o: bo, i: 0 }) && V.buf != NUL());
  assert(V.rest == H0.rest && V.head == H0.head && V.NAME_BYTES == H0.NAME_BYTES && V.HTSIZE == H0.HTSIZE);
  assert(V.buf == H0.buf || bo == M0.nx);
  assert(V.bufsize <= H0.bufsize + x.len() + 600 && bo != this_@.o && bo != H0.rest.o && bo != H0.head.o);
  assert(tb_ok(tb) && 0 <= hh < tb.ch.len());
  assert(M0.nx > 0 && (H0.buf == NUL() || (H0.buf.o < M0.nx && H0.buf.o > 0)) && this_@.o < M0.nx && H0.rest.o < M0.nx && H0.head.o < M0.nx);
  assert(mj.io == M0.io);
  assert(0 <= rest1 < 0x8000_0000_0000_0000 && qn < 0x8000_0000_0000_0000);
  assert(roomy(M0, mj, this_@, x, qn, bo, rest1));
}
@rest if 6 post
  MM == mj, r@ == (PtrV { o: bo, i: qn }), roomy(M0, mj, this_@, x, qn, bo, rest1), s1 == u8s(mj, bo), rest1 == u64s(mj, H0.rest.o)[hh], space_required == 2 + k_ + m + tb.nb,
  1 <= k_ <= 8, 
  k_ == length_bytes, k_ == bl(m as int),
  tb == ht_tb(M0, this_@),
  H0 == o_HashTable(M0, this_@.o), hh == hashf(x, tb.ch.len() as int),
  h == hh, c == tb.ch[hh],
  str_in(mj, p@, m as int), x == str_at(M0, p@, m as int), x == str_at(mj, p@, m as int), 3 <= m < 0x1000_0000_0000_0000, p@.o != bo, !holds(tb, x),
@at after call set_length 1
let ghost s2 = u8s(mem@, bo);
@at loop 3 pre
proof {
  let t = u8s(MM, bo);
  assert(t =~= s2.update(qn + 1 + k_, ((x[0] + 1) % 256) as u8));
  lem_be_same(s2, t, qn + 1, k_);
  assert(MM =~= put(mj, bo, Obj::U8(t)));
}
@loop 3
@invariant
  i <= m, MM =~= put(mj, bo, Obj::U8(u8s(MM, bo))), same_out(s1, u8s(MM, bo), qn, qn + space_required + 12),
  r@ == (PtrV { o: bo, i: qn + 2 + k_ + i }), u8s(MM, bo)[qn] == k_, be(u8s(MM, bo), qn + 1, k_) == m, u8s(MM, bo)[qn + 1 + k_] == (x[0] + 1) % 256,
  forall|e: int| 0 <= e < i ==> u8s(MM, bo)[qn + 2 + k_ + e] == #[trigger] x[e]
@decreases m - i
@at loop 3 begin
let ghost sb = u8s(mem@, bo);
@at loop 3 inc
proof { lem_be_same(sb, u8s(MM, bo), qn + 1, k_); }
@loop 4
@invariant
  i <= 12, MM =~= put(mj, bo, Obj::U8(u8s(MM, bo))), same_out(s1, u8s(MM, bo), qn, qn + space_required + 12),
  r@ == (PtrV { o: bo, i: qn + space_required + i }), u8s(MM, bo)[qn] == k_, be(u8s(MM, bo), qn + 1, k_) == m, u8s(MM, bo)[qn + 1 + k_] == (x[0] + 1) % 256,
  forall|e: int| 0 <= e < m ==> u8s(MM, bo)[qn + 2 + k_ + e] == #[trigger] x[e],
  i > 0 ==> u8s(MM, bo)[qn + space_required] == 0
@decreases 12 - i
@at loop 4 begin
let ghost sb = u8s(mem@, bo);
@at loop 4 inc
proof { lem_be_same(sb, u8s(MM, bo), qn + 1, k_); }
@at exit 2
let ghost s4 = u8s(mem@, bo);
set_gc(mem, Ghost(this_@.o), Ghost(tb.ch.update(hh, c.push(qn))));
proof {
  let u = ht_tb(MM, this_@);
  assert(u.s == s4);
  assert(u.rest =~= tb.rest.update(hh, (rest1 - space_required) as u64));
  lem_written(tb, s1, s4, hh, qn, x, u, rest1);
  lem_added(tb, u, hh, qn, x);
  lem_nrec(tb.ch, hh, qn, tb.ch.len() as int);
}

@fn HashTable::ctor
@params hash_table_size n
@uses table width
@requires
  is_HashTable(M0, this_@), hash_table_size >= 1
@ensures
  ht_ok(M1, this_@), forall|x: Seq<u8>| !#[trigger] holds(ht_tb(M1, this_@), x),
  o_HashTable(M1, this_@.o).HTSIZE == hash_table_size, o_HashTable(M1, this_@.o).bufsize == 0, o_HashTable(M1, this_@.o).buf == NUL(),
  o_HashTable(M1, this_@.o).rest == (PtrV { o: M0.nx, i: 0 }), o_HashTable(M1, this_@.o).head == (PtrV { o: M0.nx + 1, i: 0 }), M1.nx == M0.nx + 2,
  frame(M0, M1, set![this_@.o, M0.nx, M0.nx + 1]), this_@.o < M0.nx, M1.k[this_@.o] == M0.k[this_@.o],
  o_HashTable(M1, this_@.o).NAME_BYTES == bytes_of(bitlen((n / 2 + 1) as nat)), n / 2 + 1 < p8(o_HashTable(M1, this_@.o).NAME_BYTES as int),
  nrec(M1.gc[this_@.o], hash_table_size as int) == 0,
@at exit
set_gc(mem, Ghost(this_@.o), Ghost(Seq::new(hash_table_size as nat, |h: int| Seq::<int>::empty())));
proof {
  lem_bytes_of((n / 2 + 1) as nat);
  let t = ht_tb(MM, this_@);
  assert(t.ch.len() == hash_table_size);
  assert forall|h: int| 0 <= h < t.ch.len() implies #[trigger] chain(t, h) by { }
  assert(tb_ok(t));
  assert forall|x: Seq<u8>| !#[trigger] holds(t, x) by { lem_hashf(x, t.ch.len() as int); }
  lem_nrec0(MM.gc[this_@.o], hash_table_size as int);
}

@fn HashTable::dtor
@uses table
@requires ht_ok(M0, this_@)
@ensures
  ({ let t = o_HashTable(M0, this_@.o); let d = rm(rm(M0, t.rest.o), t.head.o); M1 == put(if t.buf == NUL() { d } else { rm(d, t.buf.o) }, this_@.o, Obj::HashTable(o_HashTable(M1, this_@.o))) }),
