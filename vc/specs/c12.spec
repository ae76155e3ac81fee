@foreach W PR TV CV BV SV : 32 T~C~n~k~cs tvw(T@,~4) seq![C@] seq![B@] seq![SA@] | 64 T~C~n~k~cs tvw(T@,~8) seq![C@] seq![B@] seq![SA@]
@fn sais$Wbit__get_counts
@params $PR
@uses sheap
@requires
  txok($W, M0, T@, $TV, cs as int, n as int, k as int), rok($W, M0, $CV, k as int), tsep($W, T@, $TV, cs as int, n as int, $CV, k as int)
@ensures
  frc(M0, M1, cells($CV, k as int)), vseq($W, M1, $CV, k as int) == cntv(txs($W, M0, T@, $TV, cs as int, n as int), k as int, n as int)
@at entry
let ghost tv = $TV; let ghost cv = $CV; let ghost s = txs($W, M0, T@, tv, cs as int, n as int); let ghost z = cells(cv, k as int);
proof { lem_frc_refl(M0, z); lem_tlen($W, M0, T@, tv, cs as int, n as int, k as int); }
@loop 1
@isolate
@invariant
  0 <= i <= k, k < mxw($W), cv == $CV, z == cells(cv, k as int), rok($W, MM, cv, k as int), frc(M0, MM, z), forall|j: int| 0 <= j < i ==> #[trigger] vseq($W, MM, cv, k as int)[j] == 0
@decreases k - i
@at loop 1 begin
let ghost mb = mem@;
proof { lem_racc($W, mb, cv, k as int); }
@at loop 1 end
proof { reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); assert(mem@.h =~= vset($W, mb, cv, i as int, 0).h); lem_put($W, mb, mem@, cv, k as int, i as int, 0); lem_frc_trans(M0, mb, mem@, z, z, z); }
@at loop 2 pre
proof { lem_tkeep($W, M0, mem@, cv, k as int, T@, tv, cs as int, n as int, k as int); lem_cntv0(s, k as int, vseq($W, mem@, cv, k as int)); }
@loop 2
@isolate
@invariant
  0 <= i <= n, cv == $CV, tv == $TV, z == cells(cv, k as int), rok($W, MM, cv, k as int), frc(M0, MM, z), s.len() == n, n < mxw($W) - 1, k <= n + 1,
  txok($W, MM, T@, tv, cs as int, n as int, k as int), txs($W, MM, T@, tv, cs as int, n as int) == s, tsep($W, T@, tv, cs as int, n as int, cv, k as int),
  vseq($W, MM, cv, k as int) == cntv(s, k as int, i as int)
@decreases n - i
@at loop 2 begin
let ghost mb = mem@; let ghost x = s[i as int]; let ghost v = cntv(s, k as int, i as int)[x];
proof { lem_racc($W, mb, cv, k as int); lem_text($W, mb, T@, tv, cs as int, n as int, k as int, i as int); lem_cntv(s, k as int, i as int); assert(vseq($W, mb, cv, k as int)[x] == vw($W, mb, cv, x)); }
@at loop 2 end
proof { assert(mem@.h =~= vset($W, mb, cv, x, v + 1).h); lem_put($W, mb, mem@, cv, k as int, x, v + 1); lem_frc_trans(M0, mb, mem@, z, z, z); lem_tkeep($W, mb, mem@, cv, k as int, T@, tv, cs as int, n as int, k as int); }
@end
@foreach W PR TV CV BV SV : 40 T~TA_L~TA_U~C_L~C_U~n~k~cs seq![TA_L@,~TA_U@] seq![C_L@,~C_U@] seq![B_L@,~B_U@] seq![SA_L@,~SA_U@] | 48 T~TA_L~TA_U~C_L~C_U~n~k~cs seq![TA_L@,~TA_U@] seq![C_L@,~C_U@] seq![B_L@,~B_U@] seq![SA_L@,~SA_U@] | 56 T~TA_L~TA_M~TA_U~C_L~C_M~C_U~n~k~cs seq![TA_L@,~TA_M@,~TA_U@] seq![C_L@,~C_M@,~C_U@] seq![B_L@,~B_M@,~B_U@] seq![SA_L@,~SA_M@,~SA_U@]
@fn sais$Wbit__get_counts
@params $PR
@uses sheap
@requires
  txok($W, M0, T@, $TV, cs as int, n as int, k as int), rok($W, M0, $CV, k as int), tsep($W, T@, $TV, cs as int, n as int, $CV, k as int)
@ensures
  frc(M0, M1, cells($CV, k as int)), vseq($W, M1, $CV, k as int) == cntv(txs($W, M0, T@, $TV, cs as int, n as int), k as int, n as int)
@at entry
let ghost tv = $TV; let ghost cv = $CV; let ghost s = txs($W, M0, T@, tv, cs as int, n as int); let ghost z = cells(cv, k as int);
proof { lem_frc_refl(M0, z); lem_tlen($W, M0, T@, tv, cs as int, n as int, k as int); }
@loop 1
@isolate
@invariant
  0 <= i <= k, k < mxw($W), cv == $CV, z == cells(cv, k as int), rok($W, MM, cv, k as int), frc(M0, MM, z), forall|j: int| 0 <= j < i ==> #[trigger] vseq($W, MM, cv, k as int)[j] == 0
@decreases k - i
@at loop 1 begin
let ghost mb = mem@;
proof { lem_racc($W, mb, cv, k as int); }
@at loop 1 end
proof { reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); assert(mem@.h =~= vset($W, mb, cv, i as int, 0).h); lem_put($W, mb, mem@, cv, k as int, i as int, 0); lem_frc_trans(M0, mb, mem@, z, z, z); }
@at loop 2 pre
proof { lem_tkeep($W, M0, mem@, cv, k as int, T@, tv, cs as int, n as int, k as int); lem_cntv0(s, k as int, vseq($W, mem@, cv, k as int)); }
@loop 2
@isolate
@invariant
  0 <= i <= n, cv == $CV, tv == $TV, z == cells(cv, k as int), rok($W, MM, cv, k as int), frc(M0, MM, z), s.len() == n, n < mxw($W) - 1, k <= n + 1,
  txok($W, MM, T@, tv, cs as int, n as int, k as int), txs($W, MM, T@, tv, cs as int, n as int) == s, tsep($W, T@, tv, cs as int, n as int, cv, k as int),
  vseq($W, MM, cv, k as int) == cntv(s, k as int, i as int)
@decreases n - i
@at loop 2 begin
let ghost mb = mem@; let ghost x = s[i as int]; let ghost v = cntv(s, k as int, i as int)[x];
proof { lem_racc($W, mb, cv, k as int); lem_text($W, mb, T@, tv, cs as int, n as int, k as int, i as int); lem_cntv(s, k as int, i as int); assert(vseq($W, mb, cv, k as int)[x] == vw($W, mb, cv, x)); }
@at loop 2 end
proof { assert(mem@.h =~= vset($W, mb, cv, x, v + 1).h); lem_put($W, mb, mem@, cv, k as int, x, v + 1); lem_frc_trans(M0, mb, mem@, z, z, z); lem_tkeep($W, mb, mem@, cv, k as int, T@, tv, cs as int, n as int, k as int); }
@end
@foreach W PR TV CV BV SV : 32 C~B~k~end tvw(T@,~4) seq![C@] seq![B@] seq![SA@] | 64 C~B~k~end tvw(T@,~8) seq![C@] seq![B@] seq![SA@]
@fn sais$Wbit__get_buckets
@params $PR
@uses sheap
@requires
  okw($W), k < mxw($W), rok($W, M0, $CV, k as int), rok($W, M0, $BV, k as int), $CV == $BV || rsep($BV, k as int, $CV, k as int), cok($W, vseq($W, M0, $CV, k as int))
@ensures
  frc(M0, M1, cells($BV, k as int)), vseq($W, M1, $BV, k as int) == bkt(vseq($W, M0, $CV, k as int), end)
@at entry
let ghost cv = $CV; let ghost bv = $BV; let ghost z = cells(bv, k as int); let ghost v = vseq($W, M0, cv, k as int);
proof { lem_frc_refl(M0, z); lem_psum(v, 0); lem_bkt(v, end); assert(0 < k ==> v.len() == k); if k > 0 { lem_cok($W, v, 0); } }
@loop 1
@isolate
@invariant
  0 <= i <= k, k < mxw($W), cv == $CV, bv == $BV, z == cells(bv, k as int), rok($W, MM, bv, k as int), rok($W, MM, cv, k as int), frc(M0, MM, z), v.len() == k, cok($W, v), sum == psum(v, i as int), cv == bv || rsep(bv, k as int, cv, k as int),
  forall|j: int| 0 <= j < i ==> #[trigger] vseq($W, MM, bv, k as int)[j] == psum(v, j + 1), forall|j: int| i <= j < k ==> #[trigger] vseq($W, MM, cv, k as int)[j] == v[j]
@decreases k - i
@at loop 1 begin
let ghost mb = mem@; let ghost x = psum(v, i + 1);
proof { lem_racc($W, mb, cv, k as int); lem_racc($W, mb, bv, k as int); lem_cok($W, v, i as int); assert(vseq($W, mb, cv, k as int)[i as int] == vw($W, mb, cv, i as int)); }
@at loop 1 end
proof { assert(mem@.h =~= vset($W, mb, bv, i as int, x).h); lem_put($W, mb, mem@, bv, k as int, i as int, x); lem_frc_trans(M0, mb, mem@, z, z, z); if cv != bv { lem_rkeep($W, mb, mem@, bv, k as int, cv, k as int); } }
@at loop 1 post
proof { assert(vseq($W, mem@, bv, k as int) =~= bkt(v, end)); }
@loop 2
@isolate
@invariant
  0 <= i <= k, k < mxw($W), cv == $CV, bv == $BV, z == cells(bv, k as int), rok($W, MM, bv, k as int), rok($W, MM, cv, k as int), frc(M0, MM, z), v.len() == k, cok($W, v), sum == psum(v, i as int), cv == bv || rsep(bv, k as int, cv, k as int),
  forall|j: int| 0 <= j < i ==> #[trigger] vseq($W, MM, bv, k as int)[j] == psum(v, j), forall|j: int| i <= j < k ==> #[trigger] vseq($W, MM, cv, k as int)[j] == v[j]
@decreases k - i
@at loop 2 begin
let ghost mb = mem@; let ghost x = psum(v, i as int);
proof { lem_racc($W, mb, cv, k as int); lem_racc($W, mb, bv, k as int); lem_cok($W, v, i as int); assert(vseq($W, mb, cv, k as int)[i as int] == vw($W, mb, cv, i as int)); }
@at loop 2 end
proof { assert(mem@.h =~= vset($W, mb, bv, i as int, x).h); lem_put($W, mb, mem@, bv, k as int, i as int, x); lem_frc_trans(M0, mb, mem@, z, z, z); if cv != bv { lem_rkeep($W, mb, mem@, bv, k as int, cv, k as int); } }
@at loop 2 post
proof { assert(vseq($W, mem@, bv, k as int) =~= bkt(v, end)); }
@end
@foreach W PR TV CV BV SV : 40 C_L~C_U~B_L~B_U~k~end seq![TA_L@,~TA_U@] seq![C_L@,~C_U@] seq![B_L@,~B_U@] seq![SA_L@,~SA_U@] | 48 C_L~C_U~B_L~B_U~k~end seq![TA_L@,~TA_U@] seq![C_L@,~C_U@] seq![B_L@,~B_U@] seq![SA_L@,~SA_U@] | 56 C_L~C_M~C_U~B_L~B_M~B_U~k~end seq![TA_L@,~TA_M@,~TA_U@] seq![C_L@,~C_M@,~C_U@] seq![B_L@,~B_M@,~B_U@] seq![SA_L@,~SA_M@,~SA_U@]
@fn sais$Wbit__get_buckets
@params $PR
@uses sheap
@requires
  okw($W), k < mxw($W), rok($W, M0, $CV, k as int), rok($W, M0, $BV, k as int), $CV == $BV || rsep($BV, k as int, $CV, k as int), cok($W, vseq($W, M0, $CV, k as int))
@ensures
  frc(M0, M1, cells($BV, k as int)), vseq($W, M1, $BV, k as int) == bkt(vseq($W, M0, $CV, k as int), end)
@at entry
let ghost cv = $CV; let ghost bv = $BV; let ghost z = cells(bv, k as int); let ghost v = vseq($W, M0, cv, k as int);
proof { lem_frc_refl(M0, z); lem_psum(v, 0); lem_bkt(v, end); assert(0 < k ==> v.len() == k); if k > 0 { lem_cok($W, v, 0); } }
@loop 1
@isolate
@invariant
  0 <= i <= k, k < mxw($W), cv == $CV, bv == $BV, z == cells(bv, k as int), rok($W, MM, bv, k as int), rok($W, MM, cv, k as int), frc(M0, MM, z), v.len() == k, cok($W, v), sum == psum(v, i as int), cv == bv || rsep(bv, k as int, cv, k as int),
  forall|j: int| 0 <= j < i ==> #[trigger] vseq($W, MM, bv, k as int)[j] == psum(v, j + 1), forall|j: int| i <= j < k ==> #[trigger] vseq($W, MM, cv, k as int)[j] == v[j]
@decreases k - i
@at loop 1 begin
let ghost mb = mem@; let ghost x = psum(v, i + 1);
proof { lem_racc($W, mb, cv, k as int); lem_racc($W, mb, bv, k as int); lem_cok($W, v, i as int); assert(vseq($W, mb, cv, k as int)[i as int] == vw($W, mb, cv, i as int)); }
@at loop 1 end
proof { assert(mem@.h =~= vset($W, mb, bv, i as int, x).h); lem_put($W, mb, mem@, bv, k as int, i as int, x); lem_frc_trans(M0, mb, mem@, z, z, z); if cv != bv { lem_rkeep($W, mb, mem@, bv, k as int, cv, k as int); } }
@at loop 1 post
proof { assert(vseq($W, mem@, bv, k as int) =~= bkt(v, end)); }
@loop 2
@isolate
@invariant
  0 <= i <= k, k < mxw($W), cv == $CV, bv == $BV, z == cells(bv, k as int), rok($W, MM, bv, k as int), rok($W, MM, cv, k as int), frc(M0, MM, z), v.len() == k, cok($W, v), sum == psum(v, i as int), cv == bv || rsep(bv, k as int, cv, k as int),
  forall|j: int| 0 <= j < i ==> #[trigger] vseq($W, MM, bv, k as int)[j] == psum(v, j), forall|j: int| i <= j < k ==> #[trigger] vseq($W, MM, cv, k as int)[j] == v[j]
@decreases k - i
@at loop 2 begin
let ghost mb = mem@; let ghost x = psum(v, i as int);
proof { lem_racc($W, mb, cv, k as int); lem_racc($W, mb, bv, k as int); lem_cok($W, v, i as int); assert(vseq($W, mb, cv, k as int)[i as int] == vw($W, mb, cv, i as int)); }
@at loop 2 end
proof { assert(mem@.h =~= vset($W, mb, bv, i as int, x).h); lem_put($W, mb, mem@, bv, k as int, i as int, x); lem_frc_trans(M0, mb, mem@, z, z, z); if cv != bv { lem_rkeep($W, mb, mem@, bv, k as int, cv, k as int); } }
@at loop 2 post
proof { assert(vseq($W, mem@, bv, k as int) =~= bkt(v, end)); }
@end
@foreach W PR TV CV BV SV : 32 T~SA~C~B~n~k~cs tvw(T@,~4) seq![C@] seq![B@] seq![SA@] | 64 T~SA~C~B~n~k~cs tvw(T@,~8) seq![C@] seq![B@] seq![SA@]
@fn sais$Wbit__induce_SA
@params $PR
@uses sheap
@ghost g : Ig
@requires
  geo(M0, (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), g.s), laid(g, gsa(M0, (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }))), $CV != $BV ==> vseq($W, M0, $CV, k as int) == cntv(g.s, k as int, n as int)
@ensures
  frc(M0, M1, zz((Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }))), geo(M1, (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), g.s), srt(g, gsa(M1, (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV })))
@at entry
let ghost tv = $TV; let ghost cv = $CV; let ghost bv = $BV; let ghost sv = $SV; let ghost s = g.s;
let ghost gx = (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }); let ghost mut e = gb(M0, gx); let ghost mut mL = M0; let ghost mut aL = gb(M0, gx); let ghost mut mk = M0;
proof { lem_geo_get(M0, gx, s); lem_frc_refl(M0, zz(gx)); }
@at after call get_counts 1
proof { lem_geo_fb(M0, mem@, gx, s); }
@at if 1 post
proof { mk = mem@; lem_gc(mk, gx); lem_geo_get(mk, gx, s); lem_cok_cntv($W, s, k as int); }
@at after call get_buckets 1
let ghost m2 = mem@;
proof { lem_geo_fb(mk, m2, gx, s); lem_frc_trans(M0, mk, m2, zz(gx), zz(gx), zz(gx)); lem_gb(m2, gx, 0); lem_bkt_bks(s, k as int, false); e = gb(m2, gx);
  assert(e.len() == k); assert(gsa(m2, gx) == gsa(M0, gx)); lem_geo_get(m2, gx, s);
  lem_laid1(g, gsa(m2, gx), e); lem_geo_chr(m2, gx, s, n - 1); if n > 1 { lem_geo_chr(m2, gx, s, n - 2); } lem_turn1(g, 0, -1, gsa(m2, gx), e, n - 1); }
@rest after call get_buckets 1
  MM == m2, sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, e.len() == k, frc(M0, MM, zz(gx)), geo(MM, gx, s), e == gb(MM, gx), w1(g, 0, -1, gsa(MM, gx), e), turn1(g, n - 1, -1, e), cf($W, m2, T@, tv, cs as int, n - 1, s[n - 1]), n > 1 ==> cf($W, m2, T@, tv, cs as int, n - 2, s[n - 2]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@at after assign j 2
proof { lem_geo_get(m2, gx, s); lem_gb(m2, gx, s[n - 1]); }
@at loop 1 before
proof { let r = rk(g, n - 1); lem_bex0(m2, gx, s[n - 1]); lem_setoff($W, m2, sv, r, enc1(g, n - 1)); assert(mem@ == vset($W, m2, off(sv, r), 0, enc1(g, n - 1))); lem_gput1(M0, m2, mem@, gx, g, 0, -1, e, n - 1); e = e.update(s[n - 1], e[s[n - 1]] + 1); }
@loop 1
@isolate
@invariant
  0 <= i <= n, w1(g, i as int, i as int, gsa(MM, gx), e), sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp(seq![b@], sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@decreases n - i
@at loop 1 begin
let ghost mb = mem@; let ghost a = gsa(mb, gx); let ghost c1o = c1 as int; let ghost mut jj = 0int;
proof { lem_geo_psa(mb, gx, s); jj = lem_whead1(g, i as int, a, e); lem_wflip1(g, i as int, a, e); lem_we1(g, i as int, i as int, a, e, c1o); lem_gsa(mb, gx, i as int); }
@at if 2 then
let ghost m1 = mem@;
proof { assert(m1 == vset($W, mb, sv, i as int, tld(a[i as int]))); lem_geo_sa(M0, mb, m1, gx, s, i as int, tld(a[i as int])); lem_bex_eq(mb, m1, gx, e, c1o); lem_geo_get(m1, gx, s); lem_geo_chr(m1, gx, s, jj); lem_turn1(g, i + 1, i as int, gsa(m1, gx), e, jj); }
@part if 2 then
  MM == m1, w1(g, i + 1, i as int, gsa(MM, gx), e), j == jj + 1, jj >= 0, turn1(g, jj, i as int, e), cf($W, m1, T@, tv, cs as int, jj, s[jj]), c1o == c1, 0 <= e[c1o] <= n, 0 <= i < n, sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp(seq![b@], sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@part_end if 2 then
  w1(g, i + 1, i + 1, gsa(MM, gx), e), sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp(seq![b@], sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@at after assign c0 2
proof { assert(c0 == s[jj]); }
@at if 3 then
proof { lem_geo_pb(m1, gx, s); }
@part if 3 then
  MM == m1, sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp(seq![b@], sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int), c1o == c1, 0 <= e[c1o] <= n, c0 == s[jj], 0 <= s[jj] < k, 0 <= e[s[jj]] <= n, bv.len() == npl($W), pok($W, MM, bv, k as int, 0), bv.len() > 1 ==> pok($W, MM, bv, k as int, 1), bv.len() > 2 ==> pok($W, MM, bv, k as int, 2)
@part_end if 3 then
  sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp(seq![b@], sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int), gsa(MM, gx) == gsa(m1, gx), c1 == s[jj]
@at after assign c1 3
let ghost m2 = mem@;
proof { assert(m2 == vset($W, m1, bv, c1o, e[c1o])); lem_bex_b(M0, m1, m2, gx, s, e, c1o, s[jj]); lem_geo_pb(m2, gx, s); }
@at if 3 post
let ghost m3 = mem@;
proof { lem_geo_psa(m3, gx, s); if jj > 0 { lem_geo_chr(m3, gx, s, jj - 1); } }
@at if 2 then end
proof { let r = rk(g, jj); lem_setoff($W, m3, sv, r, enc1(g, jj)); assert(mem@ == vset($W, m3, off(sv, r), 0, enc1(g, jj))); lem_gput1(M0, m3, mem@, gx, g, i + 1, i as int, e, jj); e = e.update(s[jj], e[s[jj]] + 1); }
@at loop 1 end
proof { if a[i as int] <= 0 { assert(mem@ == vset($W, mb, sv, i as int, tld(a[i as int]))); lem_geo_sa(M0, mb, mem@, gx, s, i as int, tld(a[i as int])); lem_bex_eq(mb, mem@, gx, e, c1o); lem_wskip1(g, i + 1, i as int, gsa(mem@, gx), e); } }
@at loop 1 after
proof { mL = mem@; aL = gsa(mL, gx); }
@rest loop 1 after
  MM == mL, aL == gsa(MM, gx), sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, e.len() == k, frc(M0, MM, zz(gx)), geo(MM, gx, s), w1(g, n as int, n as int, aL, e), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@at if 4 then
proof { lem_geo_get(mL, gx, s); }
@at after call get_counts 2
proof { lem_geo_fb(mL, mem@, gx, s); lem_frc_trans(M0, mL, mem@, zz(gx), zz(gx), zz(gx)); }
@at if 4 post
proof { mk = mem@; lem_gc(mk, gx); lem_geo_get(mk, gx, s); lem_cok_cntv($W, s, k as int); }
@at after call get_buckets 2
let ghost m2 = mem@;
proof { lem_geo_fb(mk, m2, gx, s); lem_frc_trans(M0, mk, m2, zz(gx), zz(gx), zz(gx)); lem_gb(m2, gx, 0); lem_bkt_bks(s, k as int, true);
  assert(gsa(m2, gx) == aL); lem_wstart2(g, aL, e, gb(m2, gx)); e = gb(m2, gx); lem_geo_get(m2, gx, s); lem_we2(g, n as int, n as int, aL, e, 0); lem_gb(m2, gx, 0); }
@rest after call get_buckets 2
  MM == m2, sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, e.len() == k, frc(M0, MM, zz(gx)), geo(MM, gx, s), w2(g, n as int, n as int, gsa(MM, gx), e), e == gb(MM, gx), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@at after assign c1 4
proof { lem_bex0(m2, gx, 0); lem_we2(g, n as int, n as int, gsa(m2, gx), e, 0); lem_geo_get(m2, gx, s); lem_gb(m2, gx, 0); }
@loop 2
@isolate
@invariant
  -1 <= i < n, w2(g, i + 1, i + 1, gsa(MM, gx), e), sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp(seq![b@], sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@decreases i + 1
@at loop 2 begin
let ghost mb = mem@; let ghost a = gsa(mb, gx); let ghost c1o = c1 as int; let ghost mut jj = 0int;
proof { lem_geo_psa(mb, gx, s); jj = lem_whead2(g, i as int, a, e); lem_we2(g, i + 1, i + 1, a, e, c1o); lem_gsa(mb, gx, i as int); }
@at if 5 then
proof { lem_geo_chr(mb, gx, s, jj); lem_turn2(g, i as int, i as int, a, e, jj); }
@part if 5 then
  MM == mb, w2(g, i as int, i + 1, gsa(MM, gx), e), j == jj + 1, jj >= 0, turn2(g, jj, i as int, e), cf($W, mb, T@, tv, cs as int, jj, s[jj]), c1o == c1, 0 <= e[c1o] <= n, 0 <= i < n, sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp(seq![b@], sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@part_end if 5 then
  w2(g, i as int, i as int, gsa(MM, gx), e), sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp(seq![b@], sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@at after assign c0 3
proof { assert(c0 == s[jj]); }
@at if 6 then
proof { lem_geo_pb(mb, gx, s); }
@part if 6 then
  MM == mb, sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp(seq![b@], sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int), c1o == c1, 0 <= e[c1o] <= n, c0 == s[jj], 0 <= s[jj] < k, 0 <= e[s[jj]] <= n, bv.len() == npl($W), pok($W, MM, bv, k as int, 0), bv.len() > 1 ==> pok($W, MM, bv, k as int, 1), bv.len() > 2 ==> pok($W, MM, bv, k as int, 2)
@part_end if 6 then
  sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp(seq![b@], sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int), gsa(MM, gx) == gsa(mb, gx), c1 == s[jj]
@at after assign c1 5
let ghost m2 = mem@;
proof { assert(m2 == vset($W, mb, bv, c1o, e[c1o])); lem_bex_b(M0, mb, m2, gx, s, e, c1o, s[jj]); lem_geo_pb(m2, gx, s); }
@at if 6 post
let ghost m3 = mem@;
proof { lem_geo_psa(m3, gx, s); if jj > 0 { lem_geo_chr(m3, gx, s, jj - 1); } }
@at if 5 then end
proof { let r = rk(g, jj); lem_setoff($W, m3, sv, r, enc2(g, jj)); assert(mem@ == vset($W, m3, off(sv, r), 0, enc2(g, jj))); lem_gput2(M0, m3, mem@, gx, g, i as int, e, jj); e = e.update(s[jj], e[s[jj]] - 1); }
@at if 5 else end
proof { assert(mem@ == vset($W, mb, sv, i as int, tld(a[i as int]))); lem_geo_sa(M0, mb, mem@, gx, s, i as int, tld(a[i as int])); lem_bex_eq(mb, mem@, gx, e, c1o); }
@at exit
proof { lem_wdone2(g, gsa(mem@, gx), e); }
@end
@foreach W PR TV CV BV SV BB : 40 T~TA_L~TA_U~SA_L~SA_U~C_L~C_U~B_L~B_U~n~k~cs seq![TA_L@,~TA_U@] seq![C_L@,~C_U@] seq![B_L@,~B_U@] seq![SA_L@,~SA_U@] seq![b_L@,~b_U@] | 48 T~TA_L~TA_U~SA_L~SA_U~C_L~C_U~B_L~B_U~n~k~cs seq![TA_L@,~TA_U@] seq![C_L@,~C_U@] seq![B_L@,~B_U@] seq![SA_L@,~SA_U@] seq![b_L@,~b_U@] | 56 T~TA_L~TA_M~TA_U~SA_L~SA_M~SA_U~C_L~C_M~C_U~B_L~B_M~B_U~n~k~cs seq![TA_L@,~TA_M@,~TA_U@] seq![C_L@,~C_M@,~C_U@] seq![B_L@,~B_M@,~B_U@] seq![SA_L@,~SA_M@,~SA_U@] seq![b_L@,~b_M@,~b_U@]
@fn sais$Wbit__induce_SA
@params $PR
@uses sheap
@hide or_i64_s shl_i64_s sp$W
@ghost g : Ig
@requires
  geo(M0, (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), g.s), laid(g, gsa(M0, (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }))), $CV != $BV ==> vseq($W, M0, $CV, k as int) == cntv(g.s, k as int, n as int)
@ensures
  frc(M0, M1, zz((Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }))), geo(M1, (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), g.s), srt(g, gsa(M1, (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV })))
@at entry
let ghost tv = $TV; let ghost cv = $CV; let ghost bv = $BV; let ghost sv = $SV; let ghost s = g.s;
let ghost gx = (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }); let ghost mut e = gb(M0, gx); let ghost mut mL = M0; let ghost mut aL = gb(M0, gx); let ghost mut mk = M0;
proof { lem_geo_get(M0, gx, s); lem_frc_refl(M0, zz(gx)); }
@at after call get_counts 1
proof { lem_geo_fb(M0, mem@, gx, s); }
@at if 1 post
proof { mk = mem@; lem_gc(mk, gx); lem_geo_get(mk, gx, s); lem_cok_cntv($W, s, k as int); }
@at after call get_buckets 1
let ghost m2 = mem@;
proof { lem_geo_fb(mk, m2, gx, s); lem_frc_trans(M0, mk, m2, zz(gx), zz(gx), zz(gx)); lem_gb(m2, gx, 0); lem_bkt_bks(s, k as int, false); e = gb(m2, gx);
  assert(e.len() == k); assert(gsa(m2, gx) == gsa(M0, gx)); lem_geo_get(m2, gx, s);
  lem_laid1(g, gsa(m2, gx), e); lem_geo_chr(m2, gx, s, n - 1); if n > 1 { lem_geo_chr(m2, gx, s, n - 2); } lem_turn1(g, 0, -1, gsa(m2, gx), e, n - 1); }
@rest after call get_buckets 1
  MM == m2, sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, e.len() == k, frc(M0, MM, zz(gx)), geo(MM, gx, s), e == gb(MM, gx), w1(g, 0, -1, gsa(MM, gx), e), turn1(g, n - 1, -1, e), cf($W, m2, T@, tv, cs as int, n - 1, s[n - 1]), n > 1 ==> cf($W, m2, T@, tv, cs as int, n - 2, s[n - 2]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@at after assign j 2
proof { lem_geo_get(m2, gx, s); lem_gb(m2, gx, s[n - 1]); }
@at loop 1 before
proof { let r = rk(g, n - 1); lem_bex0(m2, gx, s[n - 1]); lem_setoff($W, m2, sv, r, enc1(g, n - 1)); assert(mem@ == vset($W, m2, off(sv, r), 0, enc1(g, n - 1))); lem_gput1(M0, m2, mem@, gx, g, 0, -1, e, n - 1); e = e.update(s[n - 1], e[s[n - 1]] + 1); }
@loop 1
@isolate
@invariant
  0 <= i <= n, w1(g, i as int, i as int, gsa(MM, gx), e), sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp($BB, sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@decreases n - i
@at loop 1 begin
let ghost mb = mem@; let ghost a = gsa(mb, gx); let ghost c1o = c1 as int; let ghost mut jj = 0int;
proof { lem_geo_psa(mb, gx, s); jj = lem_whead1(g, i as int, a, e); lem_wflip1(g, i as int, a, e); lem_we1(g, i as int, i as int, a, e, c1o); lem_gsa(mb, gx, i as int); }
@at if 2 then
let ghost m1 = mem@;
proof { assert(m1 == vset($W, mb, sv, i as int, tld(a[i as int]))); lem_geo_sa(M0, mb, m1, gx, s, i as int, tld(a[i as int])); lem_bex_eq(mb, m1, gx, e, c1o); lem_geo_get(m1, gx, s); lem_geo_chr(m1, gx, s, jj); lem_turn1(g, i + 1, i as int, gsa(m1, gx), e, jj); }
@part if 2 then
  MM == m1, w1(g, i + 1, i as int, gsa(MM, gx), e), j == jj + 1, jj >= 0, turn1(g, jj, i as int, e), cf($W, m1, T@, tv, cs as int, jj, s[jj]), c1o == c1, 0 <= e[c1o] <= n, 0 <= i < n, sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp($BB, sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@part_end if 2 then
  w1(g, i + 1, i + 1, gsa(MM, gx), e), sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp($BB, sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@at after assign c0 2
proof { assert(c0 == s[jj]); }
@at if 3 then
proof { lem_geo_pb(m1, gx, s); }
@part if 3 then
  MM == m1, sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp($BB, sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int), c1o == c1, 0 <= e[c1o] <= n, c0 == s[jj], 0 <= s[jj] < k, 0 <= e[s[jj]] <= n, bv.len() == npl($W), pok($W, MM, bv, k as int, 0), bv.len() > 1 ==> pok($W, MM, bv, k as int, 1), bv.len() > 2 ==> pok($W, MM, bv, k as int, 2)
@part_end if 3 then
  sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp($BB, sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int), gsa(MM, gx) == gsa(m1, gx), c1 == s[jj]
@at after assign c1 3
let ghost m2 = mem@;
proof { assert(m2 == vset($W, m1, bv, c1o, e[c1o])); lem_bex_b(M0, m1, m2, gx, s, e, c1o, s[jj]); lem_geo_pb(m2, gx, s); }
@at if 3 post
let ghost m3 = mem@;
proof { lem_geo_psa(m3, gx, s); if jj > 0 { lem_geo_chr(m3, gx, s, jj - 1); } }
@at if 2 then end
proof { let r = rk(g, jj); lem_setoff($W, m3, sv, r, enc1(g, jj)); assert(mem@ == vset($W, m3, off(sv, r), 0, enc1(g, jj))); lem_gput1(M0, m3, mem@, gx, g, i + 1, i as int, e, jj); e = e.update(s[jj], e[s[jj]] + 1); }
@at loop 1 end
proof { if a[i as int] <= 0 { assert(mem@ == vset($W, mb, sv, i as int, tld(a[i as int]))); lem_geo_sa(M0, mb, mem@, gx, s, i as int, tld(a[i as int])); lem_bex_eq(mb, mem@, gx, e, c1o); lem_wskip1(g, i + 1, i as int, gsa(mem@, gx), e); } }
@at loop 1 after
proof { mL = mem@; aL = gsa(mL, gx); }
@rest loop 1 after
  MM == mL, aL == gsa(MM, gx), sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, e.len() == k, frc(M0, MM, zz(gx)), geo(MM, gx, s), w1(g, n as int, n as int, aL, e), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@at if 4 then
proof { lem_geo_get(mL, gx, s); }
@at after call get_counts 2
proof { lem_geo_fb(mL, mem@, gx, s); lem_frc_trans(M0, mL, mem@, zz(gx), zz(gx), zz(gx)); }
@at if 4 post
proof { mk = mem@; lem_gc(mk, gx); lem_geo_get(mk, gx, s); lem_cok_cntv($W, s, k as int); }
@at after call get_buckets 2
let ghost m2 = mem@;
proof { lem_geo_fb(mk, m2, gx, s); lem_frc_trans(M0, mk, m2, zz(gx), zz(gx), zz(gx)); lem_gb(m2, gx, 0); lem_bkt_bks(s, k as int, true);
  assert(gsa(m2, gx) == aL); lem_wstart2(g, aL, e, gb(m2, gx)); e = gb(m2, gx); lem_geo_get(m2, gx, s); lem_we2(g, n as int, n as int, aL, e, 0); lem_gb(m2, gx, 0); }
@rest after call get_buckets 2
  MM == m2, sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, e.len() == k, frc(M0, MM, zz(gx)), geo(MM, gx, s), w2(g, n as int, n as int, gsa(MM, gx), e), e == gb(MM, gx), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@at after assign c1 4
proof { lem_bex0(m2, gx, 0); lem_we2(g, n as int, n as int, gsa(m2, gx), e, 0); lem_geo_get(m2, gx, s); lem_gb(m2, gx, 0); }
@loop 2
@isolate
@invariant
  -1 <= i < n, w2(g, i + 1, i + 1, gsa(MM, gx), e), sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp($BB, sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@decreases i + 1
@at loop 2 begin
let ghost mb = mem@; let ghost a = gsa(mb, gx); let ghost c1o = c1 as int; let ghost mut jj = 0int;
proof { lem_geo_psa(mb, gx, s); jj = lem_whead2(g, i as int, a, e); lem_we2(g, i + 1, i + 1, a, e, c1o); lem_gsa(mb, gx, i as int); }
@at if 5 then
proof { lem_geo_chr(mb, gx, s, jj); lem_turn2(g, i as int, i as int, a, e, jj); }
@part if 5 then
  MM == mb, w2(g, i as int, i + 1, gsa(MM, gx), e), j == jj + 1, jj >= 0, turn2(g, jj, i as int, e), cf($W, mb, T@, tv, cs as int, jj, s[jj]), c1o == c1, 0 <= e[c1o] <= n, 0 <= i < n, sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp($BB, sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@part_end if 5 then
  w2(g, i as int, i as int, gsa(MM, gx), e), sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp($BB, sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int)
@at after assign c0 3
proof { assert(c0 == s[jj]); }
@at if 6 then
proof { lem_geo_pb(mb, gx, s); }
@part if 6 then
  MM == mb, sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp($BB, sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int), c1o == c1, 0 <= e[c1o] <= n, c0 == s[jj], 0 <= s[jj] < k, 0 <= e[s[jj]] <= n, bv.len() == npl($W), pok($W, MM, bv, k as int, 0), bv.len() > 1 ==> pok($W, MM, bv, k as int, 1), bv.len() > 2 ==> pok($W, MM, bv, k as int, 2)
@part_end if 6 then
  sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, geo(MM, gx, s), frc(M0, MM, zz(gx)), e.len() == k, 0 <= c1 < k, bex(MM, gx, e, c1 as int), offp($BB, sv, e[c1 as int]), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int), gsa(MM, gx) == gsa(mb, gx), c1 == s[jj]
@at after assign c1 5
let ghost m2 = mem@;
proof { assert(m2 == vset($W, mb, bv, c1o, e[c1o])); lem_bex_b(M0, mb, m2, gx, s, e, c1o, s[jj]); lem_geo_pb(m2, gx, s); }
@at if 6 post
let ghost m3 = mem@;
proof { lem_geo_psa(m3, gx, s); if jj > 0 { lem_geo_chr(m3, gx, s, jj - 1); } }
@at if 5 then end
proof { let r = rk(g, jj); lem_setoff($W, m3, sv, r, enc2(g, jj)); assert(mem@ == vset($W, m3, off(sv, r), 0, enc2(g, jj))); lem_gput2(M0, m3, mem@, gx, g, i as int, e, jj); e = e.update(s[jj], e[s[jj]] - 1); }
@at if 5 else end
proof { assert(mem@ == vset($W, mb, sv, i as int, tld(a[i as int]))); lem_geo_sa(M0, mb, mem@, gx, s, i as int, tld(a[i as int])); lem_bex_eq(mb, mem@, gx, e, c1o); }
@at exit
proof { lem_wdone2(g, gsa(mem@, gx), e); }
@at after assign value 2
proof { assert(value == e[s[jj]]); }
@at after assign value 4
proof { assert(value == e[s[jj]]); }
@at after assign result 1
proof { assert(result == enc1(g, n - 1)); lem_geo_get(m2, gx, s); lem_bex0(m2, gx, s[n - 1]); }
@rest after assign result 1
  MM == m2, sv == $SV, bv == $BV, cv == $CV, tv == $TV, s == g.s, s.len() == n, gx == (Sg { w: $W, n: n as int, k: k as int, cs: cs as int, t: T@, tv: $TV, sa: $SV, c: $CV, b: $BV }), okw($W), 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, e.len() == k, frc(M0, MM, zz(gx)), geo(MM, gx, s), bex(MM, gx, e, c1 as int), w1(g, 0, -1, gsa(MM, gx), e), turn1(g, n - 1, -1, e), gx.c != gx.b ==> gc(MM, gx) == cntv(s, k as int, n as int), offp($BB, sv, e[c1 as int]), c1 == s[n - 1], result == enc1(g, n - 1), pok($W, MM, sv, n as int, 0), sv.len() > 1 ==> pok($W, MM, sv, n as int, 1), sv.len() > 2 ==> pok($W, MM, sv, n as int, 2), 0 <= c1 < k
@at after assign result 2
proof { assert(result == enc1(g, jj)); }
@at after assign result 3
proof { assert(result == enc2(g, jj)); }
@end
