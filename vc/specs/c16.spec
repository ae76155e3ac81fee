@fn HashTable::calculate_lenlen
@params m
@uses bytes
@requires m > 0
@ensures ret == bl(m as int)
@at entry
proof { lem_top8(); lem_byte(); lem_p8_0(m as int); lem_norm(m as int, 8); }
@loop 1
@invariant
  1 <= bytes <= 8, m as int == rg_norm(m_0 as int, bytes as int), value as int == m / 0x100_0000_0000_0000, m_0 > 0,
@decreases bytes
@at loop 1 begin
proof { lem_norm(m_0 as int, bytes as int); }
@at loop 1 post
proof { lem_norm(m_0 as int, bytes as int); }

@fn HashTable::set_length
@params p length
@uses bytes
@requires
  M0.h.contains_key(p@.o), M0.h[p@.o] is U8, 0 <= p@.i, length > 0, p@.i + 1 + bl(length as int) <= u8s(M0, p@.o).len()
@ensures
  M1 == put(M0, p@.o, Obj::U8(u8s(M1, p@.o))), same_out(u8s(M0, p@.o), u8s(M1, p@.o), p@.i, p@.i + 1 + bl(length as int)),
  u8s(M1, p@.o)[p@.i] == bl(length as int), be(u8s(M1, p@.o), p@.i + 1, bl(length as int)) == length,
@at entry
proof { lem_top8(); lem_byte(); lem_p8_0(length as int); lem_norm(length as int, 8); }
@loop 1
@invariant
  MM =~= put(M0, p_0@.o, Obj::U8(u8s(MM, p_0@.o))), same_out(u8s(M0, p_0@.o), u8s(MM, p_0@.o), p_0@.i, p_0@.i + 1),
  1 <= u8s(MM, p_0@.o)[p_0@.i] <= 8, length as int == rg_norm(length_0 as int, u8s(MM, p_0@.o)[p_0@.i] as int), value as int == length / 0x100_0000_0000_0000,
@decreases u8s(MM, p_0@.o)[p_0@.i]
@at loop 1 begin
proof { lem_norm(length_0 as int, u8s(MM, p_0@.o)[p_0@.i] as int); }
@at loop 1 post
proof { lem_norm(length_0 as int, u8s(MM, p_0@.o)[p_0@.i] as int); }
@loop 2
@invariant
  MM =~= put(M0, p_0@.o, Obj::U8(u8s(MM, p_0@.o))), 0 <= i <= bl(length_0 as int),
  p@ == pi(p_0@, 1 + bl(length_0 as int) - i), u8s(MM, p_0@.o)[p_0@.i] == bl(length_0 as int),
  same_out(u8s(M0, p_0@.o), u8s(MM, p_0@.o), p_0@.i, p@.i),
  length as int == rg_top(length_0 as int, i as int), be(u8s(MM, p_0@.o), p_0@.i + 1, bl(length_0 as int) - i) == p8div(length_0 as int, i as int),
@decreases i
@at loop 2 begin
let ghost s_ = u8s(MM, p_0@.o); let ghost i_ = i;
proof { lem_shift_top(length_0 as int, i as int, length as int); }
@at loop 2 inc
proof { let k = bl(length_0 as int) - i_; lem_be_same(s_, u8s(MM, p_0@.o), p_0@.i + 1, k); assert(p_0@.i + 1 + (k + 1) - 1 == p_0@.i + 1 + k); }

@fn HashTable::get_length
@params p
@uses bytes
@requires
  M0.h.contains_key(p@.o), M0.h[p@.o] is U8, 0 <= p@.i < u8s(M0, p@.o).len(), u8s(M0, p@.o)[p@.i] <= 8, p@.i + 1 + u8s(M0, p@.o)[p@.i] <= u8s(M0, p@.o).len()
@ensures
  ret == be(u8s(M0, p@.o), p@.i + 1, u8s(M0, p@.o)[p@.i] as int)
@at entry
proof { lem_byte(); assert(be(u8s(M0, p@.o), p@.i + 1, 0) == 0); assert(be(u8s(M0, p@.o), p@.i + 1, 1) == be(u8s(M0, p@.o), p@.i + 1, 0) * 256 + u8s(M0, p@.o)[p@.i + 1 + 1 - 1]); }
@loop 1
@invariant
  1 <= i <= bytes, p@ == pi(p_0@, 1 + i), length as int == be(u8s(M0, p_0@.o), p_0@.i + 1, i as int)
@decreases bytes - i
@at loop 1 begin
proof { lem_be_bound(u8s(M0, p_0@.o), p_0@.i + 1, i as int); assert(p_0@.i + 1 + (i + 1) - 1 == p_0@.i + 1 + i); }

@fn HashTable::set_pointer
@params p pointer
@uses bytes
@requires
  M0.h.contains_key(p@.o), M0.h[p@.o] is U8, 0 <= p@.i, p@.i + 10 <= u8s(M0, p@.o).len()
@ensures
  M1 == put(M0, p@.o, Obj::U8(u8s(M1, p@.o))), same_out(u8s(M0, p@.o), u8s(M1, p@.o), p@.i, p@.i + 10),
  u8s(M1, p@.o)[p@.i] == 1, u8s(M1, p@.o)[p@.i + 1] == 2, be(u8s(M1, p@.o), p@.i + 1, 1) == 2, be(u8s(M1, p@.o), p@.i + 2, 8) == pointer,
@at entry
proof { lem_byte(); lem_p8_0(pointer as int); }
@loop 1
@invariant
  MM =~= put(M0, p_0@.o, Obj::U8(u8s(MM, p_0@.o))), same_out(u8s(M0, p_0@.o), u8s(MM, p_0@.o), p_0@.i, p_0@.i + 10),
  0 <= count <= 8, p@ == pi(p_0@, 9 - count), u8s(MM, p_0@.o)[p_0@.i] == 1, u8s(MM, p_0@.o)[p_0@.i + 1] == 2,
  pointer as int == p8div(pointer_0 as int, count as int), be(u8s(MM, p_0@.o), p_0@.i + 10 - count, count as int) == p8mod(pointer_0 as int, count as int),
@decreases 8 - count
@at loop 1 begin
let ghost s_ = u8s(MM, p_0@.o); let ghost c_ = count;
proof { lem_shift_low(pointer_0 as int, count as int); }
@at loop 1 inc
proof { let t = u8s(MM, p_0@.o); lem_be_same(s_, t, p_0@.i + 10 - c_, c_ as int); lem_be_pre(t, p_0@.i + 9 - c_, c_ as int); }
@at exit
proof { let t = u8s(MM, p_0@.o); assert(be(t, p_0@.i + 1, 0) == 0); assert(be(t, p_0@.i + 1, 1) == be(t, p_0@.i + 1, 0) * 256 + t[p_0@.i + 1 + 1 - 1]); }

@fn HashTable::get_pointer
@params p
@uses bytes
@requires
  M0.h.contains_key(p@.o), M0.h[p@.o] is U8, 0 <= p@.i, p@.i + 10 <= u8s(M0, p@.o).len()
@ensures
  ret == be(u8s(M0, p@.o), p@.i + 2, 8)
@at entry
proof { lem_byte(); }
@loop 1
@invariant
  0 <= i <= 8, p@ == pi(p_0@, 2 + i), x as int == be(u8s(M0, p_0@.o), p_0@.i + 2, i as int)
@decreases 8 - i
@at loop 1 begin
proof { lem_be_bound(u8s(M0, p_0@.o), p_0@.i + 2, i as int); assert(p_0@.i + 2 + (i + 1) - 1 == p_0@.i + 2 + i); }

@fn HashTable::get_lenlen
@params p
@requires
  M0.h.contains_key(p@.o), M0.h[p@.o] is U8, 0 <= p@.i < u8s(M0, p@.o).len()
@ensures
  ret == u8s(M0, p@.o)[p@.i]
@fn HashTable::get_first_character_pointer
@params p
@requires
  M0.h.contains_key(p@.o), M0.h[p@.o] is U8, 0 <= p@.i < u8s(M0, p@.o).len()
@ensures
  ret@ == pi(p@, 2 + u8s(M0, p@.o)[p@.i])
@fn HashTable::string_info_length
@params p length
@requires
  M0.h.contains_key(p@.o), M0.h[p@.o] is U8, 0 <= p@.i < u8s(M0, p@.o).len(), is_HashTable(M0, this_@), length < 0x8000_0000_0000_0000
@ensures
  ret == 2 + u8s(M0, p@.o)[p@.i] + length + o_HashTable(M0, this_@.o).NAME_BYTES

@fn HashTable::get_name
@params p
@uses bytes rec
@requires
  is_HashTable(M0, this_@), o_HashTable(M0, this_@.o).NAME_BYTES <= 8, rec_in(M0, p@, o_HashTable(M0, this_@.o).NAME_BYTES as int)
@ensures
  ret == be(u8s(M0, p@.o), p@.i + r_name(u8s(M0, p@.o), p@.i), o_HashTable(M0, this_@.o).NAME_BYTES as int)
@at entry
proof { lem_byte(); }
@loop 1
@invariant
  0 <= i <= o_HashTable(M0, this_@.o).NAME_BYTES, p@ == pi(p_0@, r_name(u8s(M0, p_0@.o), p_0@.i) + i),
  name as int == be(u8s(M0, p_0@.o), p_0@.i + r_name(u8s(M0, p_0@.o), p_0@.i), i as int)
@decreases o_HashTable(M0, this_@.o).NAME_BYTES - i
@at loop 1 begin
proof { let b = p_0@.i + r_name(u8s(M0, p_0@.o), p_0@.i); lem_be_bound(u8s(M0, p_0@.o), b, i as int); assert(b + (i + 1) - 1 == b + i); }

@fn HashTable::set_name
@params p name
@uses bytes rec
@requires
  is_HashTable(M0, this_@), o_HashTable(M0, this_@.o).NAME_BYTES <= 8, rec_in(M0, p@, o_HashTable(M0, this_@.o).NAME_BYTES as int)
@ensures
  M1 == put(M0, p@.o, Obj::U8(u8s(M1, p@.o))),
  ({ let k = o_HashTable(M0, this_@.o).NAME_BYTES as int; let a = p@.i + r_name(u8s(M0, p@.o), p@.i);
     same_out(u8s(M0, p@.o), u8s(M1, p@.o), a, a + k) && be(u8s(M1, p@.o), a, k) == p8mod(name as int, k) }),
@at entry
proof { lem_byte(); lem_p8_0(name as int); }
@loop 1
@invariant
  MM =~= put(M0, p_0@.o, Obj::U8(u8s(MM, p_0@.o))),
  0 <= i <= o_HashTable(M0, this_@.o).NAME_BYTES,
  ({ let k = o_HashTable(M0, this_@.o).NAME_BYTES as int; let a = p_0@.i + r_name(u8s(M0, p_0@.o), p_0@.i);
     same_out(u8s(M0, p_0@.o), u8s(MM, p_0@.o), a, a + k) && be(u8s(MM, p_0@.o), a + k - i, i as int) == p8mod(name_0 as int, i as int)
     && p@ == pi(p_0@, a - p_0@.i + k - 1 - i) }), name as int == p8div(name_0 as int, i as int),
@decreases o_HashTable(M0, this_@.o).NAME_BYTES - i
@at loop 1 begin
let ghost s_ = u8s(MM, p_0@.o); let ghost i_ = i;
proof { lem_shift_low(name_0 as int, i as int); }
@at loop 1 inc
proof { let t = u8s(MM, p_0@.o); let k = o_HashTable(M0, this_@.o).NAME_BYTES as int; let e = p_0@.i + r_name(u8s(M0, p_0@.o), p_0@.i) + k;
  lem_be_same(s_, t, e - i_, i_ as int); lem_be_pre(t, e - i_ - 1, i_ as int); }
