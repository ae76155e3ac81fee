@foreach W PT TV CV BV SV RAV Z : 32 T~SA tvw(T@,~4) seq![C@] seq![B@] seq![SA@] seq![RA@] 4 | 64 T~SA tvw(T@,~8) seq![C@] seq![B@] seq![SA@] seq![RA@] 8
@fn sais_$Wbit
@params $PT fs n k cs
@uses sws
@requires
  txok($W, M0, T@, $TV, cs as int, n as int, k as int), rok($W, M0, $SV, n + fs), n + fs < mxw($W) - 1, tsep($W, T@, $TV, cs as int, n as int, $SV, n + fs)
@ensures
  frc(M0, M1, cells($SV, n + fs)), is_sa(txs($W, M0, T@, $TV, cs as int, n as int), vseq($W, M1, $SV, n as int))
@decreases n
@garg induce_SA 1 : gq(s, lml(s, 0))
@garg induce_SA 2 : gq(s, l2)
@at entry
let ghost sv = $SV; let ghost s = txs($W, M0, T@, $TV, cs as int, n as int); let ghost y = (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }); let ghost mut l2 = seq![]; let ghost mut mz = M0;
proof { lem_bas_start(M0, y); lem_bas_get(M0, M0, y); }
@at if 1 post
let ghost x = xof(y, $CV, $BV); let ghost m1a = mem@;
proof { if k <= fs { assert(x.c =~= off(sv, n as int)); if $BV != $CV { assert(x.b =~= off(sv, n + k)); } lem_ws_sub(M0, m1a, y, x); } else { lem_ws_new(M0, M0, m1a, y, x); }  }
@rest if 1 post
  MM == m1a, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), s == txs($W, M0, T@, $TV, cs as int, n as int)
@at before call get_counts 1
proof { lem_prep0(M0, m1a, y, x); }
@at after call get_counts 1
let ghost m1b = mem@;
proof { lem_prep1(M0, m1a, m1b, y, x); }
@at after call get_buckets 1
let ghost m1c = mem@;
proof { lem_prep2(M0, m1b, m1c, y, x); lem_ws_get(M0, m1c, y, x); }
let ghost e = gb(m1c, x);
@rest after call get_buckets 1
  MM == m1c, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, e == gb(MM, x), forall|c: int| 0 <= c < k ==> #[trigger] e[c] == bks(s, c + 1), s == txs($W, M0, T@, $TV, cs as int, n as int)
@loop 1
@isolate
@invariant
  0 <= i <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, e == gb(MM, x), forall|w: int| 0 <= w < i ==> #[trigger] gsa(MM, x)[w] == 0
@decreases n - i
@at loop 1 begin
let ghost mb = mem@;
proof { lem_ws_get(M0, mb, y, x); lem_geo_psa(mb, x, s); }
@at loop 1 end
proof { assert(mem@.h =~= vset($W, mb, sv, i as int, 0).h); lem_ws_sa(M0, mb, mem@, y, x, i as int, 0); lem_wsc(mb, mem@, y, x); lem_ws_get(M0, mem@, y, x); }
@at loop 1 post
proof { lem_all_text(s); lem_ws_get(M0, mem@, y, x); lem_pq_start(s, lml(s, 0), 0, gsa(mem@, x), gb(mem@, x)); }
@at after assign c 2
let ghost m1d = mem@;
proof { lem_ws_get(M0, m1d, y, x); lem_geo_chr(m1d, x, s, n - 1); lem_scan0(s); }
@loop 2
@isolate
@invariant
  -1 <= i <= n - 2, scn(s, i as int, c as int, c1 as int), pq(s, lml(s, 0), ixl(s, i + 2), 0, gsa(MM, x), gb(MM, x)), y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n
@decreases i + 1
@at loop 2 begin
let ghost mb = mem@; let ghost c1o = c1 as int; let ghost r = gb(mb, x)[c1o] - 1; let ghost mid = vset($W, mb, $BV, c1o, r);
proof { lem_ws_get(M0, mb, y, x); lem_geo_chr(mb, x, s, i as int); lem_scan(s, i as int, c as int, c1 as int); }
@at if 3 then
proof { lem_placel(s, i as int, gsa(mb, x), gb(mb, x)); lem_gb(mb, x, c1o); lem_geo_pb(mb, x, s); lem_ws_b(M0, mb, mid, y, x, c1o, r); lem_wsc(mb, mid, y, x); lem_ws_get(M0, mid, y, x); lem_geo_psa(mid, x, s); lem_geo_pb(mid, x, s); lem_gb(mid, x, c1o); }
@at if 3 then end
proof { assert(mem@ == vset($W, mid, sv, r, i + 1)); lem_ws_sa(M0, mid, mem@, y, x, r, i + 1); lem_wsc(mid, mem@, y, x); lem_ws_get(M0, mem@, y, x); }
@at loop 2 after
let ghost m4 = mem@;
proof { lem_scan_end(s); lem_pl1_end(s, gsa(m4, x), gb(m4, x)); }
@rest loop 2 after
  MM == m4, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), laid(gq(s, lml(s, 0)), gsa(MM, x)), gq(s, lml(s, 0)).s == s, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at before call induce_SA 1
proof { lem_ws_get(M0, m4, y, x); reveal(wsc); lem_gc(m4, x); }
@at after call induce_SA 1
let ghost m5 = mem@;
proof { mem_wf(*mem); lem_ws_step(M0, m4, m5, y, x, zz(x)); if k > fs { lem_ws_live(M0, m5, y, x); } }
@at if 4 post
let ghost m6 = mem@; let ghost a = gsa(m5, x);
proof { assert(m6 == wm(m5, y, x)); lem_ws_free(M0, m5, m6, y, x); }
@rest if 4 post
  MM == m6, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, a == gv(MM, y).subrange(0, n as int), srt(gq(s, lml(s, 0)), a), gq(s, lml(s, 0)).s == s, a.len() == n, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at loop 3 pre
proof { lem_cmpd0(s, a, gv(m6, y)); }
@loop 3
@isolate
@invariant
  0 <= i <= n, 0 <= m <= i, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, cmpd(s, a, gv(MM, y), i as int, m as int), srt(gq(s, lml(s, 0)), a), gq(s, lml(s, 0)).s == s, a.len() == n
@decreases n - i
@at loop 3 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost mo = m as int;
proof { lem_bas_psa(M0, mb, y); lem_ga(mb, y, i as int); lem_cmpd(s, a, f, i as int, m as int); lem_srt_at(s, a, i as int); lem_bas_chr(M0, mb, y, a[i as int]); if a[i as int] > 0 { lem_bas_chr(M0, mb, y, a[i as int] - 1); } }
@at if 6 else end
proof { lem_nolm(s, p as int); }
@at if 5 else end
proof { lem_nolm(s, p as int); }
@loop 4
@isolate
@invariant
  MM == mb, bas(M0, mb, y), y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), 0 <= p < n, p + 1 <= j <= n, c0 == s[p as int], forall|z: int| p < z < j ==> #[trigger] s[z] == s[p as int]
@ensures
  j < n ==> c1 == s[j as int] && c1 != c0
@decreases n - j
@at loop 4 begin
proof { lem_bas_chr(M0, mb, y, j as int); }
@at if 8 then end
proof { assert(mem@ == vset($W, mb, sv, mo, p as int)); lem_bas_put(M0, mb, mem@, y, mo, p as int); }
@at if 8 post
proof { lem_runj(s, p as int, j as int); }
@at loop 3 after
let ghost m7 = mem@; let ghost l = lf(s, a, n as int);
proof { lem_cmpd_end(s, a, gv(m7, y), m as int); lem_bas_get(M0, m7, y); }
@rest loop 3 after
  MM == m7, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l), all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), s == txs($W, M0, T@, $TV, cs as int, n as int)
@loop 5
@isolate
@invariant
  m <= i <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l), l.len() == m, 0 <= m, forall|w: int| m <= w < i ==> #[trigger] gv(MM, y)[w] == 0
@decreases n - i
@at loop 5 begin
let ghost mb = mem@;
proof { lem_bas_psa(M0, mb, y); }
@at loop 5 end
proof { assert(mem@.h =~= vset($W, mb, sv, i as int, 0).h); lem_bas_put(M0, mb, mem@, y, i as int, 0); lem_front_put(gv(mb, y), l, i as int, 0); }
@at loop 5 after
let ghost m8 = mem@;
proof { lem_lens0(s, m as int, gv(m8, y)); }
@rest loop 5 after
  MM == m8, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l), all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), lens(s, m as int, gv(MM, y), n as int), s == txs($W, M0, T@, $TV, cs as int, n as int)
@at after assign c 5
proof { lem_bas_chr(M0, m8, y, n - 1); lem_scan0(s); }
@loop 6
@isolate
@invariant
  -1 <= i <= n - 2, scn(s, i as int, c as int, c1 as int), j == nxl(s, i + 2), i + 2 <= j <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l), lens(s, m as int, gv(MM, y), i + 2), all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len()
@decreases i + 1
@at loop 6 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost jo = j as int; let ghost v = jo - i - 1;
proof { lem_bas_psa(M0, mb, y); lem_bas_chr(M0, mb, y, i as int); lem_scan(s, i as int, c as int, c1 as int); lem_lens(s, m as int, f, i + 1); }
@at if 10 then
proof { lem_cel(s, m as int, i + 1); lem_shr1(i + 1); }
@at if 10 then end
proof { let d = cel(m as int, i + 1); assert(mem@ == vset($W, mb, sv, d, v)); lem_bas_put(M0, mb, mem@, y, d, v); lem_front_put(f, l, d, v); }
@at loop 6 after
let ghost m9 = mem@;
proof { lem_names0(s, l, gv(m9, y)); }
@rest loop 6 after
  MM == m9, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, names(s, l, gv(MM, y), 0), all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), s == txs($W, M0, T@, $TV, cs as int, n as int)
@at loop 7 pre
proof { lem_lastp0(s, l, q as int); }
@loop 7
@isolate
@invariant
  0 <= i <= m, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), names(s, l, gv(MM, y), i as int), lastp(s, l, i as int, q as int, qlen as int), name == nmv(s, l, i as int), 0 <= name <= i
@decreases m - i
@at loop 7 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost pp = l[i as int]; let ghost d = cel(m as int, pp); let ghost qo = q as int; let ghost qlo = qlen as int;
proof { lem_bas_psa(M0, mb, y); lem_names_at(s, l, f, i as int); lem_ga(mb, y, i as int); lem_ga(mb, y, d); lem_lastp(s, l, i as int, qo, qlo); lem_cel(s, m as int, pp); lem_shr1(pp); }
@loop 8
@isolate
@invariant
  MM == mb, bas(M0, mb, y), y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), 0 <= p, p + plen <= n, 0 <= q, q + plen <= n, 0 <= j <= plen, forall|z: int| 0 <= z < j ==> s[p + z] == #[trigger] s[q + z]
@ensures
  j < plen ==> s[p + j] != s[q + j]
@decreases plen - j
@at loop 8 begin
proof { lem_bas_chr(M0, mb, y, p + j); lem_bas_chr(M0, mb, y, q + j); }
@at if 14 post
proof { lem_name(s, l, f, i as int, qo, qlo, j as int); }
@at loop 7 end
proof { assert(mem@ == vset($W, mb, sv, d, name as int)); lem_bas_put(M0, mb, mem@, y, d, name as int); lem_names(s, l, f, i as int); }
@at loop 7 after
let ghost m10 = mem@;
@rest loop 7 after
  MM == m10, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), names(s, l, gv(MM, y), m as int), name == nmv(s, l, m as int), 0 <= name <= m, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at if 15 then
let ghost ob = gv(m10, y); let ghost d = n + fs - m;
@part if 15 then
  MM == m10, ob == gv(MM, y), d == n + fs - m, name < m, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), names(s, l, ob, m as int), name == nmv(s, l, m as int), 0 <= name <= m, s == txs($W, M0, T@, $TV, cs as int, n as int)
@part_end if 15 then
  y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l2), lsorted(s, l2), l2.len() == m
@at loop 9 pre
let ghost rv = $RAV;
proof { assert(rv =~= off(sv, d)); lem_redd0(s, l, ob); }
@loop 9
@isolate
@invariant
  m - 1 <= i <= n - 1, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), d == n + fs - m, rv == $RAV, rv == off(sv, d), redd(s, l, ob, gv(MM, y), i as int, j as int)
@decreases i + 1
@at loop 9 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost jo = j as int; let ghost v = f[i as int] - 1;
proof { lem_offat(sv, d); assert($RAV[0] == off(sv, d)[0]); lem_bas_psa(M0, mb, y); lem_ga(mb, y, i as int); lem_redd(s, l, ob, f, i as int, jo); }
@at if 16 then end
proof { lem_setoff2($W, mb, sv, d, jo, v); assert(mem@ == vset($W, mb, rv, jo, v)); lem_bas_put(M0, mb, mem@, y, d + jo, v); }
@at loop 9 post
proof { lem_redd_end(s, l, ob, gv(mem@, y), j as int); }
@at before call sais_$Wbit 1
let ghost m11 = mem@; let ghost r = red(s, l); let ghost t1 = PtrV { o: RA@.o, i: $Z * RA@.i }; let ghost tv1 = tvw(t1, $Z);
proof { assert(off(sv, d) =~= $RAV); assert(tv1 =~= off(sv, d)); assert(r.len() == m); assert(0 <= r[0] < name); lem_rec_pre(M0, m11, y, r, m as int, name as int, t1, tv1); }
@at after call sais_$Wbit 1
let ghost m12 = mem@; let ghost a2 = gv(m12, y).subrange(0, m as int);
proof { lem_rec_post(M0, m11, m12, y, m as int); lem_bas_chr(M0, m12, y, n - 1); lem_scan0(s); lem_refl0(s, a2, gv(m12, y)); assert(is_sa(r, a2)); }
@loop 10
@isolate
@invariant
  -1 <= i <= n - 2, scn(s, i as int, c as int, c1 as int), j == ixl(s, i + 2) - 1, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), a2.len() == m, d == n + fs - m, off(sv, d) == $RAV, refl(s, a2, gv(MM, y), ixl(s, i + 2))
@decreases i + 1
@at loop 10 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost jo = j as int;
proof { lem_offat(sv, d); assert($RAV[0] == off(sv, d)[0]); lem_bas_psa(M0, mb, y); lem_bas_chr(M0, mb, y, i as int); lem_scan(s, i as int, c as int, c1 as int); }
@at if 18 then
proof { lem_refl(s, a2, f, i as int); }
@at if 18 then end
proof { lem_setoff2($W, mb, sv, d, jo, i + 1); assert(mem@ == vset($W, mb, off(sv, d), jo, i + 1)); lem_bas_put(M0, mb, mem@, y, d + jo, i + 1); }
@at loop 10 post
proof { lem_scan_end(s); lem_mapd0(s, r, a2, gv(mem@, y)); }
@loop 11
@isolate
@invariant
  0 <= i <= m, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), a2.len() == m, d == n + fs - m, off(sv, d) == $RAV, mapd(s, a2, gv(MM, y), i as int)
@decreases m - i
@at loop 11 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost u = f[i as int]; let ghost v = f[d + u];
proof { lem_offat(sv, d); assert($RAV[0] == off(sv, d)[0]); lem_bas_psa(M0, mb, y); lem_mapd(s, a2, f, i as int); lem_ga(mb, y, i as int); lem_ga(mb, y, d + u); lem_vwoff($W, mb, sv, d, u); }
@at loop 11 end
proof { assert(mem@ == vset($W, mb, sv, i as int, v)); lem_bas_put(M0, mb, mem@, y, i as int, v); }
@at if 15 then end
proof { l2 = mapl(s, a2); lem_mapd_end(s, l, a2, gv(mem@, y)); }
@at if 15 else
proof { l2 = l; lem_alldiff(s, l, gv(mem@, y)); }
@at if 15 post
let ghost mp = mem@;
proof { mem_wf(*mem); }
@rest if 15 post
  MM == mp, wf(mp), y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l2), lsorted(s, l2), l2.len() == m, 2 * m <= n - 1, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at if 19 post
let ghost x = xof(y, $CV, $BV); let ghost m2a = mem@;
proof { if k <= fs { assert(x.c =~= off(sv, n as int)); if $BV != $CV { assert(x.b =~= off(sv, n + k)); } lem_ws_sub(M0, m2a, y, x); } else { lem_ws_new(M0, mp, m2a, y, x); } lem_front_cut(gv(mp, y), l2, n as int); }
@rest if 19 post
  MM == m2a, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), front(gsa(MM, x), l2), lsorted(s, l2), l2.len() == m, 2 * m <= n - 1, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at before call get_counts 2
proof { lem_prep0(M0, m2a, y, x); }
@at after call get_counts 2
let ghost m2b = mem@;
proof { lem_prep1(M0, m2a, m2b, y, x); }
@at after call get_buckets 2
let ghost m2c = mem@;
proof { lem_prep2(M0, m2b, m2c, y, x); lem_ws_get(M0, m2c, y, x); }
let ghost e = gb(m2c, x);
@rest after call get_buckets 2
  MM == m2c, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, e == gb(MM, x), forall|c: int| 0 <= c < k ==> #[trigger] e[c] == bks(s, c + 1), front(gsa(MM, x), l2), lsorted(s, l2), l2.len() == m, 2 * m <= n - 1, s == txs($W, M0, T@, $TV, cs as int, n as int)
@loop 12
@isolate
@invariant
  m <= i <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, e == gb(MM, x), forall|w: int| m <= w < i ==> #[trigger] gsa(MM, x)[w] == 0, 0 <= m, front(gsa(MM, x), l2), l2.len() == m
@decreases n - i
@at loop 12 begin
let ghost mb = mem@;
proof { lem_ws_get(M0, mb, y, x); lem_geo_psa(mb, x, s); }
@at loop 12 end
proof { assert(mem@.h =~= vset($W, mb, sv, i as int, 0).h); lem_ws_sa(M0, mb, mem@, y, x, i as int, 0); lem_wsc(mb, mem@, y, x); lem_ws_get(M0, mem@, y, x); lem_front_put(gsa(mb, x), l2, i as int, 0); }
@at loop 12 post
proof { lem_pl30(s, l2, gsa(mem@, x), gb(mem@, x)); }
@rest loop 12 after
  y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, pl3(s, l2, m as int, gsa(MM, x), gb(MM, x)), lsorted(s, l2), 0 <= m <= n, s == txs($W, M0, T@, $TV, cs as int, n as int)
@loop 13
@isolate
@invariant
  -1 <= i <= m - 1, m <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, pl3(s, l2, i + 1, gsa(MM, x), gb(MM, x))
@decreases i + 1
@at loop 13 begin
let ghost mb = mem@; let ghost f = gsa(mb, x); let ghost jj = f[i as int]; let ghost ch = s[jj]; let ghost r = gb(mb, x)[ch] - 1; let ghost ma = vset($W, mb, sv, i as int, 0); let ghost mc = vset($W, ma, $BV, ch, r);
proof { lem_ws_get(M0, mb, y, x); lem_pl3(s, l2, i as int, f, gb(mb, x)); lem_geo_psa(mb, x, s); lem_gsa(mb, x, i as int);
  lem_ws_sa(M0, mb, ma, y, x, i as int, 0); lem_wsc(mb, ma, y, x); lem_ws_get(M0, ma, y, x); lem_geo_chr(ma, x, s, jj); lem_geo_pb(ma, x, s); lem_gb(ma, x, ch);
  lem_ws_b(M0, ma, mc, y, x, ch, r); lem_wsc(ma, mc, y, x); lem_ws_get(M0, mc, y, x); lem_geo_chr(mc, x, s, jj); lem_geo_pb(mc, x, s); lem_geo_psa(mc, x, s); lem_gb(mc, x, ch); }
@at loop 13 end
proof { assert(mem@ == vset($W, mc, sv, r, jj)); lem_ws_sa(M0, mc, mem@, y, x, r, jj); lem_wsc(mc, mem@, y, x); lem_ws_get(M0, mem@, y, x); }
@at loop 13 after
let ghost m14 = mem@;
proof { lem_pl3_end(s, l2, gsa(m14, x), gb(m14, x)); }
@rest loop 13 after
  MM == m14, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), laid(gq(s, l2), gsa(MM, x)), gq(s, l2).s == s, lsorted(s, l2), s == txs($W, M0, T@, $TV, cs as int, n as int)
@at before call induce_SA 2
proof { lem_ws_get(M0, m14, y, x); reveal(wsc); lem_gc(m14, x); }
@at after call induce_SA 2
let ghost m15 = mem@;
proof { mem_wf(*mem); lem_ws_step(M0, m14, m15, y, x, zz(x)); if k > fs { lem_ws_live(M0, m15, y, x); } }
@at if 20 post
let ghost m16 = mem@;
proof { assert(m16 == wm(m15, y, x)); lem_ws_free(M0, m15, m16, y, x); lem_pl3_sa(s, l2, gsa(m15, x)); lem_ga_front(m16, y, n as int); reveal(bas); }
@end
@foreach W PT TV CV BV SV RAV : 40 T~TA_L~TA_U~SA_L~SA_U seq![TA_L@,~TA_U@] seq![C_L@,~C_U@] seq![B_L@,~B_U@] seq![SA_L@,~SA_U@] seq![RA_L@,~RA_U@] | 48 T~TA_L~TA_U~SA_L~SA_U seq![TA_L@,~TA_U@] seq![C_L@,~C_U@] seq![B_L@,~B_U@] seq![SA_L@,~SA_U@] seq![RA_L@,~RA_U@]
@fn sais_$Wbit
@params $PT fs n k cs
@uses sws
@hide or_i64_s shl_i64_s sp$W
@requires
  txok($W, M0, T@, $TV, cs as int, n as int, k as int), rok($W, M0, $SV, n + fs), n + fs < mxw($W) - 1, tsep($W, T@, $TV, cs as int, n as int, $SV, n + fs)
@ensures
  frc(M0, M1, cells($SV, n + fs)), is_sa(txs($W, M0, T@, $TV, cs as int, n as int), vseq($W, M1, $SV, n as int))
@decreases n
@garg induce_SA 1 : gq(s, lml(s, 0))
@garg induce_SA 2 : gq(s, l2)
@at entry
let ghost sv = $SV; let ghost s = txs($W, M0, T@, $TV, cs as int, n as int); let ghost y = (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }); let ghost mut l2 = seq![]; let ghost mut mz = M0;
proof { lem_bas_start(M0, y); lem_bas_get(M0, M0, y); }
@at if 1 post
let ghost x = xof(y, $CV, $BV); let ghost m1a = mem@;
proof { if k <= fs { assert(x.c =~= off(sv, n as int)); if $BV != $CV { assert(x.b =~= off(sv, n + k)); } lem_ws_sub(M0, m1a, y, x); } else { lem_ws_new(M0, M0, m1a, y, x); }  }
@rest if 1 post
  MM == m1a, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), s == txs($W, M0, T@, $TV, cs as int, n as int)
@at before call get_counts 1
proof { lem_prep0(M0, m1a, y, x); }
@at after call get_counts 1
let ghost m1b = mem@;
proof { lem_prep1(M0, m1a, m1b, y, x); }
@at after call get_buckets 1
let ghost m1c = mem@;
proof { lem_prep2(M0, m1b, m1c, y, x); lem_ws_get(M0, m1c, y, x); }
let ghost e = gb(m1c, x);
@rest after call get_buckets 1
  MM == m1c, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, e == gb(MM, x), forall|c: int| 0 <= c < k ==> #[trigger] e[c] == bks(s, c + 1), s == txs($W, M0, T@, $TV, cs as int, n as int)
@loop 1
@isolate
@invariant
  0 <= i <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, e == gb(MM, x), forall|w: int| 0 <= w < i ==> #[trigger] gsa(MM, x)[w] == 0
@decreases n - i
@at loop 1 begin
let ghost mb = mem@;
proof { lem_ws_get(M0, mb, y, x); lem_geo_psa(mb, x, s); }
@at loop 1 end
proof { reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); assert(mem@.h =~= vset($W, mb, sv, i as int, 0).h); lem_ws_sa(M0, mb, mem@, y, x, i as int, 0); lem_wsc(mb, mem@, y, x); lem_ws_get(M0, mem@, y, x); }
@at loop 1 post
proof { lem_all_text(s); lem_ws_get(M0, mem@, y, x); lem_pq_start(s, lml(s, 0), 0, gsa(mem@, x), gb(mem@, x)); }
@at after assign c 2
let ghost m1d = mem@;
proof { lem_ws_get(M0, m1d, y, x); lem_geo_chr(m1d, x, s, n - 1); lem_scan0(s); }
@loop 2
@isolate
@invariant
  -1 <= i <= n - 2, scn(s, i as int, c as int, c1 as int), pq(s, lml(s, 0), ixl(s, i + 2), 0, gsa(MM, x), gb(MM, x)), y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n
@decreases i + 1
@at loop 2 begin
let ghost mb = mem@; let ghost c1o = c1 as int; let ghost r = gb(mb, x)[c1o] - 1; let ghost mid = vset($W, mb, $BV, c1o, r);
proof { lem_ws_get(M0, mb, y, x); lem_geo_chr(mb, x, s, i as int); lem_scan(s, i as int, c as int, c1 as int); }
@at if 3 then
proof { lem_placel(s, i as int, gsa(mb, x), gb(mb, x)); lem_gb(mb, x, c1o); lem_geo_pb(mb, x, s); lem_ws_b(M0, mb, mid, y, x, c1o, r); lem_wsc(mb, mid, y, x); lem_ws_get(M0, mid, y, x); lem_geo_psa(mid, x, s); lem_geo_pb(mid, x, s); lem_gb(mid, x, c1o); }
@at if 3 then end
proof { assert(mem@ == vset($W, mid, sv, r, i + 1)); lem_ws_sa(M0, mid, mem@, y, x, r, i + 1); lem_wsc(mid, mem@, y, x); lem_ws_get(M0, mem@, y, x); }
@at loop 2 after
let ghost m4 = mem@;
proof { lem_scan_end(s); lem_pl1_end(s, gsa(m4, x), gb(m4, x)); }
@rest loop 2 after
  MM == m4, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), laid(gq(s, lml(s, 0)), gsa(MM, x)), gq(s, lml(s, 0)).s == s, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at before call induce_SA 1
proof { lem_ws_get(M0, m4, y, x); reveal(wsc); lem_gc(m4, x); }
@at after call induce_SA 1
let ghost m5 = mem@;
proof { mem_wf(*mem); lem_ws_step(M0, m4, m5, y, x, zz(x)); if k > fs { lem_ws_live(M0, m5, y, x); } }
@at if 4 post
let ghost m6 = mem@; let ghost a = gsa(m5, x);
proof { assert(m6 == wm(m5, y, x)); lem_ws_free(M0, m5, m6, y, x); }
@rest if 4 post
  MM == m6, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, a == gv(MM, y).subrange(0, n as int), srt(gq(s, lml(s, 0)), a), gq(s, lml(s, 0)).s == s, a.len() == n, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at loop 3 pre
proof { lem_cmpd0(s, a, gv(m6, y)); }
@loop 3
@isolate
@invariant
  0 <= i <= n, 0 <= m <= i, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, cmpd(s, a, gv(MM, y), i as int, m as int), srt(gq(s, lml(s, 0)), a), gq(s, lml(s, 0)).s == s, a.len() == n
@decreases n - i
@at loop 3 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost mo = m as int;
proof { lem_bas_psa(M0, mb, y); lem_ga(mb, y, i as int); lem_cmpd(s, a, f, i as int, m as int); lem_srt_at(s, a, i as int); lem_bas_chr(M0, mb, y, a[i as int]); if a[i as int] > 0 { lem_bas_chr(M0, mb, y, a[i as int] - 1); } }
@at if 6 else end
proof { lem_nolm(s, p as int); }
@at if 5 else end
proof { lem_nolm(s, p as int); }
@loop 4
@isolate
@invariant
  MM == mb, bas(M0, mb, y), y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), 0 <= p < n, p + 1 <= j <= n, c0 == s[p as int], forall|z: int| p < z < j ==> #[trigger] s[z] == s[p as int]
@ensures
  j < n ==> c1 == s[j as int] && c1 != c0
@decreases n - j
@at loop 4 begin
proof { lem_bas_chr(M0, mb, y, j as int); }
@at if 8 then end
proof { assert(mem@ == vset($W, mb, sv, mo, p as int)); lem_bas_put(M0, mb, mem@, y, mo, p as int); }
@at if 8 post
proof { lem_runj(s, p as int, j as int); }
@at loop 3 after
let ghost m7 = mem@; let ghost l = lf(s, a, n as int);
proof { lem_cmpd_end(s, a, gv(m7, y), m as int); lem_bas_get(M0, m7, y); }
@rest loop 3 after
  MM == m7, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l), all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), s == txs($W, M0, T@, $TV, cs as int, n as int)
@loop 5
@isolate
@invariant
  m <= i <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l), l.len() == m, 0 <= m, forall|w: int| m <= w < i ==> #[trigger] gv(MM, y)[w] == 0
@decreases n - i
@at loop 5 begin
let ghost mb = mem@;
proof { lem_bas_psa(M0, mb, y); }
@at loop 5 end
proof { reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); assert(mem@.h =~= vset($W, mb, sv, i as int, 0).h); lem_bas_put(M0, mb, mem@, y, i as int, 0); lem_front_put(gv(mb, y), l, i as int, 0); }
@at loop 5 after
let ghost m8 = mem@;
proof { lem_lens0(s, m as int, gv(m8, y)); }
@rest loop 5 after
  MM == m8, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l), all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), lens(s, m as int, gv(MM, y), n as int), s == txs($W, M0, T@, $TV, cs as int, n as int)
@at after assign c 5
proof { lem_bas_chr(M0, m8, y, n - 1); lem_scan0(s); }
@loop 6
@isolate
@invariant
  -1 <= i <= n - 2, scn(s, i as int, c as int, c1 as int), j == nxl(s, i + 2), i + 2 <= j <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l), lens(s, m as int, gv(MM, y), i + 2), all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len()
@decreases i + 1
@at loop 6 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost jo = j as int; let ghost v = jo - i - 1;
proof { lem_bas_psa(M0, mb, y); lem_bas_chr(M0, mb, y, i as int); lem_scan(s, i as int, c as int, c1 as int); lem_lens(s, m as int, f, i + 1); }
@at if 10 then
proof { lem_cel(s, m as int, i + 1); lem_shr1(i + 1); }
@at if 10 then end
proof { let d = cel(m as int, i + 1); assert(mem@ == vset($W, mb, sv, d, v)); lem_bas_put(M0, mb, mem@, y, d, v); lem_front_put(f, l, d, v); }
@at loop 6 after
let ghost m9 = mem@;
proof { lem_names0(s, l, gv(m9, y)); }
@rest loop 6 after
  MM == m9, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, names(s, l, gv(MM, y), 0), all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), s == txs($W, M0, T@, $TV, cs as int, n as int)
@at loop 7 pre
proof { lem_lastp0(s, l, q as int); }
@loop 7
@isolate
@invariant
  0 <= i <= m, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), names(s, l, gv(MM, y), i as int), lastp(s, l, i as int, q as int, qlen as int), name == nmv(s, l, i as int), 0 <= name <= i
@decreases m - i
@at loop 7 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost pp = l[i as int]; let ghost d = cel(m as int, pp); let ghost qo = q as int; let ghost qlo = qlen as int;
proof { lem_bas_psa(M0, mb, y); lem_names_at(s, l, f, i as int); lem_ga(mb, y, i as int); lem_ga(mb, y, d); lem_lastp(s, l, i as int, qo, qlo); lem_cel(s, m as int, pp); lem_shr1(pp); }
@loop 8
@isolate
@invariant
  MM == mb, bas(M0, mb, y), y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), 0 <= p, p + plen <= n, 0 <= q, q + plen <= n, 0 <= j <= plen, forall|z: int| 0 <= z < j ==> s[p + z] == #[trigger] s[q + z]
@ensures
  j < plen ==> s[p + j] != s[q + j]
@decreases plen - j
@at loop 8 begin
proof { lem_bas_chr(M0, mb, y, p + j); lem_bas_chr(M0, mb, y, q + j); }
@at if 14 post
proof { lem_name(s, l, f, i as int, qo, qlo, j as int); }
@at loop 7 end
proof { assert(mem@ == vset($W, mb, sv, d, name as int)); lem_bas_put(M0, mb, mem@, y, d, name as int); lem_names(s, l, f, i as int); }
@at loop 7 after
let ghost m10 = mem@;
@rest loop 7 after
  MM == m10, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), names(s, l, gv(MM, y), m as int), name == nmv(s, l, m as int), 0 <= name <= m, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at if 15 then
let ghost ob = gv(m10, y); let ghost d = n + fs - m;
@part if 15 then
  MM == m10, ob == gv(MM, y), d == n + fs - m, name < m, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), names(s, l, ob, m as int), name == nmv(s, l, m as int), 0 <= name <= m, s == txs($W, M0, T@, $TV, cs as int, n as int)
@part_end if 15 then
  y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l2), lsorted(s, l2), l2.len() == m
@at loop 9 pre
let ghost rv = $RAV;
proof { assert(rv =~= off(sv, d)); lem_redd0(s, l, ob); }
@loop 9
@isolate
@invariant
  m - 1 <= i <= n - 1, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), d == n + fs - m, rv == $RAV, rv == off(sv, d), redd(s, l, ob, gv(MM, y), i as int, j as int)
@decreases i + 1
@at loop 9 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost jo = j as int; let ghost v = f[i as int] - 1;
proof { lem_offat(sv, d); assert($RAV[0] == off(sv, d)[0]); assert($RAV[1] == off(sv, d)[1]); lem_zero($W, mb, sv, i as int); lem_bas_psa(M0, mb, y); lem_ga(mb, y, i as int); lem_redd(s, l, ob, f, i as int, jo); }
@at if 16 then end
proof { lem_setoff2($W, mb, sv, d, jo, v); assert(mem@ == vset($W, mb, rv, jo, v)); lem_bas_put(M0, mb, mem@, y, d + jo, v); }
@at loop 9 post
proof { lem_redd_end(s, l, ob, gv(mem@, y), j as int); }
@at before call sais_$Wbit 1
let ghost m11 = mem@; let ghost r = red(s, l); let ghost t1 = NUL(); let ghost tv1 = $RAV;
proof { assert(off(sv, d) =~= $RAV); assert(tv1 =~= off(sv, d)); assert(r.len() == m); assert(0 <= r[0] < name); lem_rec_pre(M0, m11, y, r, m as int, name as int, t1, tv1); }
@at after call sais_$Wbit 1
let ghost m12 = mem@; let ghost a2 = gv(m12, y).subrange(0, m as int);
proof { lem_rec_post(M0, m11, m12, y, m as int); lem_bas_chr(M0, m12, y, n - 1); lem_scan0(s); lem_refl0(s, a2, gv(m12, y)); assert(is_sa(r, a2)); }
@loop 10
@isolate
@invariant
  -1 <= i <= n - 2, scn(s, i as int, c as int, c1 as int), j == ixl(s, i + 2) - 1, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), a2.len() == m, d == n + fs - m, off(sv, d) == $RAV, refl(s, a2, gv(MM, y), ixl(s, i + 2))
@decreases i + 1
@at loop 10 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost jo = j as int;
proof { lem_offat(sv, d); assert($RAV[0] == off(sv, d)[0]); assert($RAV[1] == off(sv, d)[1]); lem_bas_psa(M0, mb, y); lem_bas_chr(M0, mb, y, i as int); lem_scan(s, i as int, c as int, c1 as int); }
@at if 18 then
proof { lem_refl(s, a2, f, i as int); }
@at if 18 then end
proof { lem_setoff2($W, mb, sv, d, jo, i + 1); assert(mem@ == vset($W, mb, off(sv, d), jo, i + 1)); lem_bas_put(M0, mb, mem@, y, d + jo, i + 1); }
@at loop 10 post
proof { lem_scan_end(s); lem_mapd0(s, r, a2, gv(mem@, y)); }
@loop 11
@isolate
@invariant
  0 <= i <= m, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), a2.len() == m, d == n + fs - m, off(sv, d) == $RAV, mapd(s, a2, gv(MM, y), i as int)
@decreases m - i
@at loop 11 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost u = f[i as int]; let ghost v = f[d + u];
proof { lem_offat(sv, d); assert($RAV[0] == off(sv, d)[0]); assert($RAV[1] == off(sv, d)[1]); lem_bas_psa(M0, mb, y); lem_mapd(s, a2, f, i as int); lem_ga(mb, y, i as int); lem_ga(mb, y, d + u); lem_vwoff($W, mb, sv, d, u); }
@at loop 11 end
proof { assert(mem@ == vset($W, mb, sv, i as int, v)); lem_bas_put(M0, mb, mem@, y, i as int, v); }
@at if 15 then end
proof { l2 = mapl(s, a2); lem_mapd_end(s, l, a2, gv(mem@, y)); }
@at if 15 else
proof { l2 = l; lem_alldiff(s, l, gv(mem@, y)); }
@at if 15 post
let ghost mp = mem@;
proof { mem_wf(*mem); }
@rest if 15 post
  MM == mp, wf(mp), y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l2), lsorted(s, l2), l2.len() == m, 2 * m <= n - 1, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at if 19 post
let ghost x = xof(y, $CV, $BV); let ghost m2a = mem@;
proof { if k <= fs { assert(x.c =~= off(sv, n as int)); if $BV != $CV { assert(x.b =~= off(sv, n + k)); } lem_ws_sub(M0, m2a, y, x); } else { lem_ws_new(M0, mp, m2a, y, x); } lem_front_cut(gv(mp, y), l2, n as int); }
@rest if 19 post
  MM == m2a, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), front(gsa(MM, x), l2), lsorted(s, l2), l2.len() == m, 2 * m <= n - 1, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at before call get_counts 2
proof { lem_prep0(M0, m2a, y, x); }
@at after call get_counts 2
let ghost m2b = mem@;
proof { lem_prep1(M0, m2a, m2b, y, x); }
@at after call get_buckets 2
let ghost m2c = mem@;
proof { lem_prep2(M0, m2b, m2c, y, x); lem_ws_get(M0, m2c, y, x); }
let ghost e = gb(m2c, x);
@rest after call get_buckets 2
  MM == m2c, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, e == gb(MM, x), forall|c: int| 0 <= c < k ==> #[trigger] e[c] == bks(s, c + 1), front(gsa(MM, x), l2), lsorted(s, l2), l2.len() == m, 2 * m <= n - 1, s == txs($W, M0, T@, $TV, cs as int, n as int)
@loop 12
@isolate
@invariant
  m <= i <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, e == gb(MM, x), forall|w: int| m <= w < i ==> #[trigger] gsa(MM, x)[w] == 0, 0 <= m, front(gsa(MM, x), l2), l2.len() == m
@decreases n - i
@at loop 12 begin
let ghost mb = mem@;
proof { lem_ws_get(M0, mb, y, x); lem_geo_psa(mb, x, s); }
@at loop 12 end
proof { reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); assert(mem@.h =~= vset($W, mb, sv, i as int, 0).h); lem_ws_sa(M0, mb, mem@, y, x, i as int, 0); lem_wsc(mb, mem@, y, x); lem_ws_get(M0, mem@, y, x); lem_front_put(gsa(mb, x), l2, i as int, 0); }
@at loop 12 post
proof { lem_pl30(s, l2, gsa(mem@, x), gb(mem@, x)); }
@rest loop 12 after
  y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, pl3(s, l2, m as int, gsa(MM, x), gb(MM, x)), lsorted(s, l2), 0 <= m <= n, s == txs($W, M0, T@, $TV, cs as int, n as int)
@loop 13
@isolate
@invariant
  -1 <= i <= m - 1, m <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, pl3(s, l2, i + 1, gsa(MM, x), gb(MM, x))
@decreases i + 1
@at loop 13 begin
let ghost mb = mem@; let ghost f = gsa(mb, x); let ghost jj = f[i as int]; let ghost ch = s[jj]; let ghost r = gb(mb, x)[ch] - 1; let ghost ma = vset($W, mb, sv, i as int, 0); let ghost mc = vset($W, ma, $BV, ch, r);
proof { lem_ws_get(M0, mb, y, x); lem_pl3(s, l2, i as int, f, gb(mb, x)); lem_geo_psa(mb, x, s); lem_gsa(mb, x, i as int);
  lem_ws_sa(M0, mb, ma, y, x, i as int, 0); lem_wsc(mb, ma, y, x); lem_ws_get(M0, ma, y, x); lem_geo_chr(ma, x, s, jj); lem_geo_pb(ma, x, s); lem_gb(ma, x, ch);
  lem_ws_b(M0, ma, mc, y, x, ch, r); lem_wsc(ma, mc, y, x); lem_ws_get(M0, mc, y, x); lem_geo_chr(mc, x, s, jj); lem_geo_pb(mc, x, s); lem_geo_psa(mc, x, s); lem_gb(mc, x, ch); }
@at after store 8
proof { reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); assert(mem@.h =~= ma.h); assert(mem@ == ma); }
@at loop 13 end
proof { assert(mem@ == vset($W, mc, sv, r, jj)); lem_ws_sa(M0, mc, mem@, y, x, r, jj); lem_wsc(mc, mem@, y, x); lem_ws_get(M0, mem@, y, x); }
@at loop 13 after
let ghost m14 = mem@;
proof { lem_pl3_end(s, l2, gsa(m14, x), gb(m14, x)); }
@rest loop 13 after
  MM == m14, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), laid(gq(s, l2), gsa(MM, x)), gq(s, l2).s == s, lsorted(s, l2), s == txs($W, M0, T@, $TV, cs as int, n as int)
@at before call induce_SA 2
proof { lem_ws_get(M0, m14, y, x); reveal(wsc); lem_gc(m14, x); }
@at after call induce_SA 2
let ghost m15 = mem@;
proof { mem_wf(*mem); lem_ws_step(M0, m14, m15, y, x, zz(x)); if k > fs { lem_ws_live(M0, m15, y, x); } }
@at if 20 post
let ghost m16 = mem@;
proof { assert(m16 == wm(m15, y, x)); lem_ws_free(M0, m15, m16, y, x); lem_pl3_sa(s, l2, gsa(m15, x)); lem_ga_front(m16, y, n as int); reveal(bas); }
@end
@foreach W PT TV CV BV SV RAV : 56 T~TA_L~TA_M~TA_U~SA_L~SA_M~SA_U seq![TA_L@,~TA_M@,~TA_U@] seq![C_L@,~C_M@,~C_U@] seq![B_L@,~B_M@,~B_U@] seq![SA_L@,~SA_M@,~SA_U@] seq![RA_L@,~RA_M@,~RA_U@]
@fn sais_$Wbit
@params $PT fs n k cs
@uses sws
@hide or_i64_s shl_i64_s sp$W
@requires
  txok($W, M0, T@, $TV, cs as int, n as int, k as int), rok($W, M0, $SV, n + fs), n + fs < mxw($W) - 1, tsep($W, T@, $TV, cs as int, n as int, $SV, n + fs)
@ensures
  frc(M0, M1, cells($SV, n + fs)), is_sa(txs($W, M0, T@, $TV, cs as int, n as int), vseq($W, M1, $SV, n as int))
@decreases n
@garg induce_SA 1 : gq(s, lml(s, 0))
@garg induce_SA 2 : gq(s, l2)
@at entry
let ghost sv = $SV; let ghost s = txs($W, M0, T@, $TV, cs as int, n as int); let ghost y = (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }); let ghost mut l2 = seq![]; let ghost mut mz = M0;
proof { lem_bas_start(M0, y); lem_bas_get(M0, M0, y); }
@at if 1 post
let ghost x = xof(y, $CV, $BV); let ghost m1a = mem@;
proof { if k <= fs { assert(x.c =~= off(sv, n as int)); if $BV != $CV { assert(x.b =~= off(sv, n + k)); } lem_ws_sub(M0, m1a, y, x); } else { lem_ws_new(M0, M0, m1a, y, x); }  }
@rest if 1 post
  MM == m1a, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), s == txs($W, M0, T@, $TV, cs as int, n as int)
@at before call get_counts 1
proof { lem_prep0(M0, m1a, y, x); }
@at after call get_counts 1
let ghost m1b = mem@;
proof { lem_prep1(M0, m1a, m1b, y, x); }
@at after call get_buckets 1
let ghost m1c = mem@;
proof { lem_prep2(M0, m1b, m1c, y, x); lem_ws_get(M0, m1c, y, x); }
let ghost e = gb(m1c, x);
@rest after call get_buckets 1
  MM == m1c, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, e == gb(MM, x), forall|c: int| 0 <= c < k ==> #[trigger] e[c] == bks(s, c + 1), s == txs($W, M0, T@, $TV, cs as int, n as int)
@loop 1
@isolate
@invariant
  0 <= i <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, e == gb(MM, x), forall|w: int| 0 <= w < i ==> #[trigger] gsa(MM, x)[w] == 0
@decreases n - i
@at loop 1 begin
let ghost mb = mem@;
proof { lem_ws_get(M0, mb, y, x); lem_geo_psa(mb, x, s); }
@at loop 1 end
proof { reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); assert(mem@.h =~= vset($W, mb, sv, i as int, 0).h); lem_ws_sa(M0, mb, mem@, y, x, i as int, 0); lem_wsc(mb, mem@, y, x); lem_ws_get(M0, mem@, y, x); }
@at loop 1 post
proof { lem_all_text(s); lem_ws_get(M0, mem@, y, x); lem_pq_start(s, lml(s, 0), 0, gsa(mem@, x), gb(mem@, x)); }
@at after assign c 2
let ghost m1d = mem@;
proof { lem_ws_get(M0, m1d, y, x); lem_geo_chr(m1d, x, s, n - 1); lem_scan0(s); }
@loop 2
@isolate
@invariant
  -1 <= i <= n - 2, scn(s, i as int, c as int, c1 as int), pq(s, lml(s, 0), ixl(s, i + 2), 0, gsa(MM, x), gb(MM, x)), y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n
@decreases i + 1
@at loop 2 begin
let ghost mb = mem@; let ghost c1o = c1 as int; let ghost r = gb(mb, x)[c1o] - 1; let ghost mid = vset($W, mb, $BV, c1o, r);
proof { lem_ws_get(M0, mb, y, x); lem_geo_chr(mb, x, s, i as int); lem_scan(s, i as int, c as int, c1 as int); }
@at if 3 then
proof { lem_placel(s, i as int, gsa(mb, x), gb(mb, x)); lem_gb(mb, x, c1o); lem_geo_pb(mb, x, s); lem_ws_b(M0, mb, mid, y, x, c1o, r); lem_wsc(mb, mid, y, x); lem_ws_get(M0, mid, y, x); lem_geo_psa(mid, x, s); lem_geo_pb(mid, x, s); lem_gb(mid, x, c1o); }
@at if 3 then end
proof { assert(mem@ == vset($W, mid, sv, r, i + 1)); lem_ws_sa(M0, mid, mem@, y, x, r, i + 1); lem_wsc(mid, mem@, y, x); lem_ws_get(M0, mem@, y, x); }
@at loop 2 after
let ghost m4 = mem@;
proof { lem_scan_end(s); lem_pl1_end(s, gsa(m4, x), gb(m4, x)); }
@rest loop 2 after
  MM == m4, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), laid(gq(s, lml(s, 0)), gsa(MM, x)), gq(s, lml(s, 0)).s == s, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at before call induce_SA 1
proof { lem_ws_get(M0, m4, y, x); reveal(wsc); lem_gc(m4, x); }
@at after call induce_SA 1
let ghost m5 = mem@;
proof { mem_wf(*mem); lem_ws_step(M0, m4, m5, y, x, zz(x)); if k > fs { lem_ws_live(M0, m5, y, x); } }
@at if 4 post
let ghost m6 = mem@; let ghost a = gsa(m5, x);
proof { assert(m6 == wm(m5, y, x)); lem_ws_free(M0, m5, m6, y, x); }
@rest if 4 post
  MM == m6, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, a == gv(MM, y).subrange(0, n as int), srt(gq(s, lml(s, 0)), a), gq(s, lml(s, 0)).s == s, a.len() == n, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at loop 3 pre
proof { lem_cmpd0(s, a, gv(m6, y)); }
@loop 3
@isolate
@invariant
  0 <= i <= n, 0 <= m <= i, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, cmpd(s, a, gv(MM, y), i as int, m as int), srt(gq(s, lml(s, 0)), a), gq(s, lml(s, 0)).s == s, a.len() == n
@decreases n - i
@at loop 3 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost mo = m as int;
proof { lem_bas_psa(M0, mb, y); lem_ga(mb, y, i as int); lem_cmpd(s, a, f, i as int, m as int); lem_srt_at(s, a, i as int); lem_bas_chr(M0, mb, y, a[i as int]); if a[i as int] > 0 { lem_bas_chr(M0, mb, y, a[i as int] - 1); } }
@at if 6 else end
proof { lem_nolm(s, p as int); }
@at if 5 else end
proof { lem_nolm(s, p as int); }
@loop 4
@isolate
@invariant
  MM == mb, bas(M0, mb, y), y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), 0 <= p < n, p + 1 <= j <= n, c0 == s[p as int], forall|z: int| p < z < j ==> #[trigger] s[z] == s[p as int]
@ensures
  j < n ==> c1 == s[j as int] && c1 != c0
@decreases n - j
@at loop 4 begin
proof { lem_bas_chr(M0, mb, y, j as int); }
@at if 8 then end
proof { assert(mem@ == vset($W, mb, sv, mo, p as int)); lem_bas_put(M0, mb, mem@, y, mo, p as int); }
@at if 8 post
proof { lem_runj(s, p as int, j as int); }
@at loop 3 after
let ghost m7 = mem@; let ghost l = lf(s, a, n as int);
proof { lem_cmpd_end(s, a, gv(m7, y), m as int); lem_bas_get(M0, m7, y); }
@rest loop 3 after
  MM == m7, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l), all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), s == txs($W, M0, T@, $TV, cs as int, n as int)
@loop 5
@isolate
@invariant
  m <= i <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l), l.len() == m, 0 <= m, forall|w: int| m <= w < i ==> #[trigger] gv(MM, y)[w] == 0
@decreases n - i
@at loop 5 begin
let ghost mb = mem@;
proof { lem_bas_psa(M0, mb, y); }
@at loop 5 end
proof { reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); assert(mem@.h =~= vset($W, mb, sv, i as int, 0).h); lem_bas_put(M0, mb, mem@, y, i as int, 0); lem_front_put(gv(mb, y), l, i as int, 0); }
@at loop 5 after
let ghost m8 = mem@;
proof { lem_lens0(s, m as int, gv(m8, y)); }
@rest loop 5 after
  MM == m8, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l), all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), lens(s, m as int, gv(MM, y), n as int), s == txs($W, M0, T@, $TV, cs as int, n as int)
@at after assign c 5
proof { lem_bas_chr(M0, m8, y, n - 1); lem_scan0(s); }
@loop 6
@isolate
@invariant
  -1 <= i <= n - 2, scn(s, i as int, c as int, c1 as int), j == nxl(s, i + 2), i + 2 <= j <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l), lens(s, m as int, gv(MM, y), i + 2), all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len()
@decreases i + 1
@at loop 6 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost jo = j as int; let ghost v = jo - i - 1;
proof { lem_bas_psa(M0, mb, y); lem_bas_chr(M0, mb, y, i as int); lem_scan(s, i as int, c as int, c1 as int); lem_lens(s, m as int, f, i + 1); }
@at if 10 then
proof { lem_cel(s, m as int, i + 1); lem_shr1(i + 1); }
@at if 10 then end
proof { let d = cel(m as int, i + 1); assert(mem@ == vset($W, mb, sv, d, v)); lem_bas_put(M0, mb, mem@, y, d, v); lem_front_put(f, l, d, v); }
@at loop 6 after
let ghost m9 = mem@;
proof { lem_names0(s, l, gv(m9, y)); }
@rest loop 6 after
  MM == m9, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, names(s, l, gv(MM, y), 0), all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), s == txs($W, M0, T@, $TV, cs as int, n as int)
@at loop 7 pre
proof { lem_lastp0(s, l, q as int); }
@loop 7
@isolate
@invariant
  0 <= i <= m, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), names(s, l, gv(MM, y), i as int), lastp(s, l, i as int, q as int, qlen as int), name == nmv(s, l, i as int), 0 <= name <= i
@decreases m - i
@at loop 7 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost pp = l[i as int]; let ghost d = cel(m as int, pp); let ghost qo = q as int; let ghost qlo = qlen as int;
proof { lem_bas_psa(M0, mb, y); lem_names_at(s, l, f, i as int); lem_ga(mb, y, i as int); lem_ga(mb, y, d); lem_lastp(s, l, i as int, qo, qlo); lem_cel(s, m as int, pp); lem_shr1(pp); }
@loop 8
@isolate
@invariant
  MM == mb, bas(M0, mb, y), y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), 0 <= p, p + plen <= n, 0 <= q, q + plen <= n, 0 <= j <= plen, forall|z: int| 0 <= z < j ==> s[p + z] == #[trigger] s[q + z]
@ensures
  j < plen ==> s[p + j] != s[q + j]
@decreases plen - j
@at loop 8 begin
proof { lem_bas_chr(M0, mb, y, p + j); lem_bas_chr(M0, mb, y, q + j); }
@at if 14 post
proof { lem_name(s, l, f, i as int, qo, qlo, j as int); }
@at loop 7 end
proof { assert(mem@ == vset($W, mb, sv, d, name as int)); lem_bas_put(M0, mb, mem@, y, d, name as int); lem_names(s, l, f, i as int); }
@at loop 7 after
let ghost m10 = mem@;
@rest loop 7 after
  MM == m10, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), names(s, l, gv(MM, y), m as int), name == nmv(s, l, m as int), 0 <= name <= m, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at if 15 then
let ghost ob = gv(m10, y); let ghost d = n + fs - m;
@part if 15 then
  MM == m10, ob == gv(MM, y), d == n + fs - m, name < m, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), names(s, l, ob, m as int), name == nmv(s, l, m as int), 0 <= name <= m, s == txs($W, M0, T@, $TV, cs as int, n as int)
@part_end if 15 then
  y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l2), lsorted(s, l2), l2.len() == m
@at loop 9 pre
let ghost rv = $RAV;
proof { assert(rv =~= off(sv, d)); lem_redd0(s, l, ob); }
@loop 9
@isolate
@invariant
  m - 1 <= i <= n - 1, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), d == n + fs - m, rv == $RAV, rv == off(sv, d), redd(s, l, ob, gv(MM, y), i as int, j as int)
@decreases i + 1
@at loop 9 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost jo = j as int; let ghost v = f[i as int] - 1;
proof { lem_offat(sv, d); assert($RAV[0] == off(sv, d)[0]); assert($RAV[1] == off(sv, d)[1]); assert($RAV[2] == off(sv, d)[2]); lem_zero($W, mb, sv, i as int); lem_bas_psa(M0, mb, y); lem_ga(mb, y, i as int); lem_redd(s, l, ob, f, i as int, jo); }
@at if 16 then end
proof { lem_setoff2($W, mb, sv, d, jo, v); assert(mem@ == vset($W, mb, rv, jo, v)); lem_bas_put(M0, mb, mem@, y, d + jo, v); }
@at loop 9 post
proof { lem_redd_end(s, l, ob, gv(mem@, y), j as int); }
@at before call sais_$Wbit 1
let ghost m11 = mem@; let ghost r = red(s, l); let ghost t1 = NUL(); let ghost tv1 = $RAV;
proof { assert(off(sv, d) =~= $RAV); assert(tv1 =~= off(sv, d)); assert(r.len() == m); assert(0 <= r[0] < name); lem_rec_pre(M0, m11, y, r, m as int, name as int, t1, tv1); }
@at after call sais_$Wbit 1
let ghost m12 = mem@; let ghost a2 = gv(m12, y).subrange(0, m as int);
proof { lem_rec_post(M0, m11, m12, y, m as int); lem_bas_chr(M0, m12, y, n - 1); lem_scan0(s); lem_refl0(s, a2, gv(m12, y)); assert(is_sa(r, a2)); }
@loop 10
@isolate
@invariant
  -1 <= i <= n - 2, scn(s, i as int, c as int, c1 as int), j == ixl(s, i + 2) - 1, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), a2.len() == m, d == n + fs - m, off(sv, d) == $RAV, refl(s, a2, gv(MM, y), ixl(s, i + 2))
@decreases i + 1
@at loop 10 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost jo = j as int;
proof { lem_offat(sv, d); assert($RAV[0] == off(sv, d)[0]); assert($RAV[1] == off(sv, d)[1]); assert($RAV[2] == off(sv, d)[2]); lem_bas_psa(M0, mb, y); lem_bas_chr(M0, mb, y, i as int); lem_scan(s, i as int, c as int, c1 as int); }
@at if 18 then
proof { lem_refl(s, a2, f, i as int); }
@at if 18 then end
proof { lem_setoff2($W, mb, sv, d, jo, i + 1); assert(mem@ == vset($W, mb, off(sv, d), jo, i + 1)); lem_bas_put(M0, mb, mem@, y, d + jo, i + 1); }
@at loop 10 post
proof { lem_scan_end(s); lem_mapd0(s, r, a2, gv(mem@, y)); }
@loop 11
@isolate
@invariant
  0 <= i <= m, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, all_lms(s, l), ltsort(gq(s, lml(s, 0)), l), l.len() == m, 2 * m <= n - 1, 0 <= m, m == lml(s, 0).len(), a2.len() == m, d == n + fs - m, off(sv, d) == $RAV, mapd(s, a2, gv(MM, y), i as int)
@decreases m - i
@at loop 11 begin
let ghost mb = mem@; let ghost f = gv(mb, y); let ghost u = f[i as int]; let ghost v = f[d + u];
proof { lem_offat(sv, d); assert($RAV[0] == off(sv, d)[0]); assert($RAV[1] == off(sv, d)[1]); assert($RAV[2] == off(sv, d)[2]); lem_bas_psa(M0, mb, y); lem_mapd(s, a2, f, i as int); lem_ga(mb, y, i as int); lem_ga(mb, y, d + u); lem_vwoff($W, mb, sv, d, u); }
@at loop 11 end
proof { assert(mem@ == vset($W, mb, sv, i as int, v)); lem_bas_put(M0, mb, mem@, y, i as int, v); }
@at if 15 then end
proof { l2 = mapl(s, a2); lem_mapd_end(s, l, a2, gv(mem@, y)); }
@at if 15 else
proof { l2 = l; lem_alldiff(s, l, gv(mem@, y)); }
@at if 15 post
let ghost mp = mem@;
proof { mem_wf(*mem); }
@rest if 15 post
  MM == mp, wf(mp), y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), bas(M0, MM, y), gv(MM, y).len() == n + fs, front(gv(MM, y), l2), lsorted(s, l2), l2.len() == m, 2 * m <= n - 1, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at if 19 post
let ghost x = xof(y, $CV, $BV); let ghost m2a = mem@;
proof { if k <= fs { assert(x.c =~= off(sv, n as int)); if $BV != $CV { assert(x.b =~= off(sv, n + k)); } lem_ws_sub(M0, m2a, y, x); } else { lem_ws_new(M0, mp, m2a, y, x); } lem_front_cut(gv(mp, y), l2, n as int); }
@rest if 19 post
  MM == m2a, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), front(gsa(MM, x), l2), lsorted(s, l2), l2.len() == m, 2 * m <= n - 1, s == txs($W, M0, T@, $TV, cs as int, n as int)
@at before call get_counts 2
proof { lem_prep0(M0, m2a, y, x); }
@at after call get_counts 2
let ghost m2b = mem@;
proof { lem_prep1(M0, m2a, m2b, y, x); }
@at after call get_buckets 2
let ghost m2c = mem@;
proof { lem_prep2(M0, m2b, m2c, y, x); lem_ws_get(M0, m2c, y, x); }
let ghost e = gb(m2c, x);
@rest after call get_buckets 2
  MM == m2c, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, e == gb(MM, x), forall|c: int| 0 <= c < k ==> #[trigger] e[c] == bks(s, c + 1), front(gsa(MM, x), l2), lsorted(s, l2), l2.len() == m, 2 * m <= n - 1, s == txs($W, M0, T@, $TV, cs as int, n as int)
@loop 12
@isolate
@invariant
  m <= i <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, e == gb(MM, x), forall|w: int| m <= w < i ==> #[trigger] gsa(MM, x)[w] == 0, 0 <= m, front(gsa(MM, x), l2), l2.len() == m
@decreases n - i
@at loop 12 begin
let ghost mb = mem@;
proof { lem_ws_get(M0, mb, y, x); lem_geo_psa(mb, x, s); }
@at loop 12 end
proof { reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); assert(mem@.h =~= vset($W, mb, sv, i as int, 0).h); lem_ws_sa(M0, mb, mem@, y, x, i as int, 0); lem_wsc(mb, mem@, y, x); lem_ws_get(M0, mem@, y, x); lem_front_put(gsa(mb, x), l2, i as int, 0); }
@at loop 12 post
proof { lem_pl30(s, l2, gsa(mem@, x), gb(mem@, x)); }
@rest loop 12 after
  y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, pl3(s, l2, m as int, gsa(MM, x), gb(MM, x)), lsorted(s, l2), 0 <= m <= n, s == txs($W, M0, T@, $TV, cs as int, n as int)
@loop 13
@isolate
@invariant
  -1 <= i <= m - 1, m <= n, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), gb(MM, x).len() == k, gsa(MM, x).len() == n, pl3(s, l2, i + 1, gsa(MM, x), gb(MM, x))
@decreases i + 1
@at loop 13 begin
let ghost mb = mem@; let ghost f = gsa(mb, x); let ghost jj = f[i as int]; let ghost ch = s[jj]; let ghost r = gb(mb, x)[ch] - 1; let ghost ma = vset($W, mb, sv, i as int, 0); let ghost mc = vset($W, ma, $BV, ch, r);
proof { lem_ws_get(M0, mb, y, x); lem_pl3(s, l2, i as int, f, gb(mb, x)); lem_geo_psa(mb, x, s); lem_gsa(mb, x, i as int);
  lem_ws_sa(M0, mb, ma, y, x, i as int, 0); lem_wsc(mb, ma, y, x); lem_ws_get(M0, ma, y, x); lem_geo_chr(ma, x, s, jj); lem_geo_pb(ma, x, s); lem_gb(ma, x, ch);
  lem_ws_b(M0, ma, mc, y, x, ch, r); lem_wsc(ma, mc, y, x); lem_ws_get(M0, mc, y, x); lem_geo_chr(mc, x, s, jj); lem_geo_pb(mc, x, s); lem_geo_psa(mc, x, s); lem_gb(mc, x, ch); }
@at after store 12
proof { reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); assert(mem@.h =~= ma.h); assert(mem@ == ma); }
@at loop 13 end
proof { assert(mem@ == vset($W, mc, sv, r, jj)); lem_ws_sa(M0, mc, mem@, y, x, r, jj); lem_wsc(mc, mem@, y, x); lem_ws_get(M0, mem@, y, x); }
@at loop 13 after
let ghost m14 = mem@;
proof { lem_pl3_end(s, l2, gsa(m14, x), gb(m14, x)); }
@rest loop 13 after
  MM == m14, y == (Ys { w: $W, n: n as int, k: k as int, cs: cs as int, fs: fs as int, t: T@, tv: $TV, sa: $SV, s: s }), sv == $SV, okw($W), s.len() == n, 1 <= n < mxw($W) - 1, 1 <= k <= n + 1, n + fs < mxw($W) - 1, chars(s, k as int), x == xof(y, $CV, $BV), ws(M0, MM, y, x), wsc(MM, y, x), laid(gq(s, l2), gsa(MM, x)), gq(s, l2).s == s, lsorted(s, l2), s == txs($W, M0, T@, $TV, cs as int, n as int)
@at before call induce_SA 2
proof { lem_ws_get(M0, m14, y, x); reveal(wsc); lem_gc(m14, x); }
@at after call induce_SA 2
let ghost m15 = mem@;
proof { mem_wf(*mem); lem_ws_step(M0, m14, m15, y, x, zz(x)); if k > fs { lem_ws_live(M0, m15, y, x); } }
@at if 20 post
let ghost m16 = mem@;
proof { assert(m16 == wm(m15, y, x)); lem_ws_free(M0, m15, m16, y, x); lem_pl3_sa(s, l2, gsa(m15, x)); lem_ga_front(m16, y, n as int); reveal(bas); }
@end
