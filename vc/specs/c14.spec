@foreach B : 40 | 48
@fn set_$Bbit_value
@params L U index value
@uses split
@requires
  sp$B_ok(M0, L@, U@, index as int), in$B(value as int)
@ensures
  M1 == sp$B_set(M0, L@, U@, index as int, value as int)
@at entry
proof { lem_and_low32(); lem_pow2(); }
@at exit
proof { reveal(sp$B_set); assert(MM.h =~= sp$B_set(M0, L@, U@, index as int, value as int).h); }
@fn get_$Bbit_value
@params L U index
@uses split
@requires
  sp$B_ok(M0, L@, U@, index as int)
@ensures
  ret as int == sp$B(M0, L@, U@, index as int), in$B(ret as int)
@at entry
proof { lem_shl32(); lem_or_add32(); lem_or_comm(); lem_pow2(); }
@end
@fn set_56bit_value
@params L M U index value
@uses split
@requires
  sp56_ok(M0, L@, M@, U@, index as int), in56(value as int)
@ensures
  M1 == sp56_set(M0, L@, M@, U@, index as int, value as int)
@at entry
proof { lem_and_low32(); lem_pow2(); }
@at exit
proof { reveal(sp56_set); assert(MM.h =~= sp56_set(M0, L@, M@, U@, index as int, value as int).h); }
@fn get_56bit_value
@params L M U index
@uses split
@requires
  sp56_ok(M0, L@, M@, U@, index as int)
@ensures
  ret as int == sp56(M0, L@, M@, U@, index as int), in56(ret as int)
@at entry
proof { lem_shl32(); lem_shl48(); lem_or_add32(); lem_or_add48(); lem_or_comm(); lem_pow2(); }
