@fn PackedArray::ctor
@params length integer_bits
@uses packed
@requires
  is_PackedArray(M0, this_@), 1 <= integer_bits <= 64, length * integer_bits < 0x8000_0000_0000_0000
@ensures
  pa_ok(M1, this_@), pa_len(M1, this_@) == length, pa_w(M1, this_@) == integer_bits,
  pa_arr(M1, this_@) == M0.nx, frame(M0, M1, set![this_@.o, M0.nx]), M1.k[this_@.o] == M0.k[this_@.o],
@at exit
proof {
  let a = o_PackedArray(MM, this_@.o);
  assert(is_PackedArray(MM, this_@));
  assert(a.length == length && a.integer_bits == integer_bits);
  assert(a.arr.o == M0.nx && live(MM, a.arr, 0) && MM.h[a.arr.o] is U64);
  let b = integer_bits * length;
  assert(b == length * integer_bits) by (nonlinear_arith) requires b == integer_bits * length;
  assert(0 <= b) by (nonlinear_arith) requires b == integer_bits * length;
  assert(arr_length == b / 64 + 1);
  assert(u64s(MM, a.arr.o).len() == arr_length);
}
@fn PackedArray::dtor
@uses packed
@requires pa_ok(M0, this_@)
@ensures M1 == rm(M0, pa_arr(M0, this_@))
@fn PackedArray::get_length
@uses packed
@requires is_PackedArray(M0, this_@)
@ensures ret == pa_len(M0, this_@)
@fn PackedArray::get_integer_bits
@uses packed
@requires is_PackedArray(M0, this_@)
@ensures ret == pa_w(M0, this_@)
@fn PackedArray::get_raw_arr_pointer
@uses packed
@requires is_PackedArray(M0, this_@)
@ensures ret@ == o_PackedArray(M0, this_@.o).arr
@fn PackedArray::set_value
@params index value
@uses packed
@requires
  pa_ok(M0, this_@), index < pa_len(M0, this_@), fits(value, pa_w(M0, this_@))
@ensures
  pa_ok(M1, this_@), M1 == put(M0, pa_arr(M0, this_@), Obj::U64(u64s(M1, pa_arr(M0, this_@)))),
  u64s(M1, pa_arr(M0, this_@)).len() == u64s(M0, pa_arr(M0, this_@)).len(),
  pa_get(M1, this_@, index as int) == value,
  forall|j: int| 0 <= j < pa_len(M0, this_@) && j != index ==> #[trigger] pa_get(M1, this_@, j) == pa_get(M0, this_@, j),
@at entry
proof { lem_not_masks(); lem_idx(pa_w(M0, this_@), index as int, pa_len(M0, this_@)); lem_fits(value, pa_w(M0, this_@) as u64); }
@at exit
proof {
    let s = u64s(M0, pa_arr(M0, this_@)); let t = u64s(MM, pa_arr(M0, this_@)); let w = pa_w(M0, this_@);
    assert(MM.h =~= put(M0, pa_arr(M0, this_@), Obj::U64(t)).h);
    if (w * index) % 64 + w <= 64 {
        let o = ((w * index) % 64) as u64;
        lem_pset1(s, t, w, index as int, value, 0xffff_ffff_ffff_ffffu64 >> o, if o + w == 64 { 0 } else { 0xffff_ffff_ffff_ffffu64 >> sub(64, sub(64, add(o, w as u64))) });
    } else { lem_pset2(s, t, w, index as int, value); }
    assert forall|j: int| 0 <= j < pa_len(M0, this_@) && j != index implies #[trigger] pa_get(MM, this_@, j) == pa_get(M0, this_@, j) by {
        lem_idx(w, j, pa_len(M0, this_@)); lem_pset_other(s, t, w, index as int, value, j);
    }
}
@fn PackedArray::get_value
@params index
@uses packed
@requires
  pa_ok(M0, this_@), index < pa_len(M0, this_@)
@ensures
  ret == pa_get(M0, this_@, index as int)
@at entry
proof { lem_not_masks(); lem_idx(pa_w(M0, this_@), index as int, pa_len(M0, this_@)); }
@foreach W : 32 | 40 | 48 | 56 | 64
@fn sais$Wbit__get2
@params B i d
@uses packed
@requires
  g2_ok(M0, B@, d as int, i as int)
@ensures
  ret as int == g2v(M0, B@, d as int, i as int)
@at entry
proof { reveal(g2_ok); reveal(g2v); lem_not_masks(); assert(0 <= d * i) by (nonlinear_arith) requires d >= 1, i >= 0; }
@end
