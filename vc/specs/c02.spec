@fn bwt_string
@params T n free_T
@uses bwt
@throws
@requires
  T@ != NUL() && n >= 1 ==> n < 0x10_0000_0000_0000 && text_at(M0, T@, n as int) && (free_T ==> live(M0, T@, 0))
@ensures
  T@ == NUL() || n == 0 ==> ret is Err && ret->Err_0.is_std() && M1 == M0,
  T@ != NUL() && n >= 1 ==> ret is Ok && transformed(M0, M1, ret->Ok_0@, T@, n as int, free_T),

@fn bwt_file
@params input_filename output_filename
@uses bwt
@throws
@requires
  M0.io.files.contains_key(path_of(input_filename@)) ==> M0.io.files[path_of(input_filename@)].len() < 0x10_0000_0000_0000
@ensures
  ret is Err ==> ret->Err_0.is_std(),
  ret is Ok ==> M0.io.files.contains_key(path_of(input_filename@)) && M0.io.files[path_of(input_filename@)].len() >= 1,
  ret is Ok ==> exists|x: Seq<u8>| is_out(M0.io.files[path_of(input_filename@)], x) && M1.io.files == M0.io.files.insert(path_of(output_filename@), x),
  M1.io.files == M0.io.files || (M0.io.files[path_of(input_filename@)].len() >= 1 && M1.io.rd[path_of(input_filename@)] >= M0.io.rd[path_of(input_filename@)] + M0.io.files[path_of(input_filename@)].len()
     && exists|x: Seq<u8>| M1.io.files == M0.io.files.insert(path_of(output_filename@), x)),
  M1.h =~= M0.h, M1.k =~= M0.k, M1.io.st =~= M0.io.st,
@at before call bwt_string 1
let ghost mt = mem@; let ghost tx = M0.io.files[path_of(input_filename@)];
proof { assert(u8s(mt, T@.o).subrange(0, n as int) =~= tx); }
@at after call bwt_string 1
let ghost mb = mem@; let ghost W = o_BWT_result(mb, RES@.o).BWT; let ghost txt = M0.io.files[path_of(input_filename@)];
proof { mem_wf(*mem); lem_rank(txt, 0); lem_be8(o_BWT_result(mb, RES@.o).last); 
  assert(txt.len() == n);
}
@at before call delete_arr 2
let ghost rk = u8s(mem@, rank@.o);
proof { assert(rk =~= be8(o_BWT_result(mb, B@.o).last as int)); }
@at exit
proof {
  let out_ = path_of(output_filename@); let w = u8s(mb, W.o); let la = o_BWT_result(mb, B@.o).last as int; let x = MM.io.files[out_];
  assert(MM.io.files =~= M0.io.files.insert(out_, x));
  assert(x =~= bwt_out(la, w));
  assert(is_out(tx, x));
}
@at throw
proof { assert(MM.io.files == M0.io.files || MM.io.files =~= M0.io.files.insert(path_of(output_filename@), MM.io.files[path_of(output_filename@)])); }
