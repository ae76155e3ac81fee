// uses: ssort
// The working memory of a suffix sorter: the array of n numbers and fs spare ones, the buckets in the spare part or in new objects.
pub ghost struct Ys { pub w: int, pub n: int, pub k: int, pub cs: int, pub fs: int, pub t: PtrV, pub tv: Seq<PtrV>, pub sa: Seq<PtrV>, pub s: Seq<int> }
pub open spec fn bas0(m0: MemV, m: MemV, y: Ys) -> bool {
    &&& okw(y.w) && 1 <= y.n < mxw(y.w) - 1 && 1 <= y.k <= y.n + 1 && 0 <= y.fs && y.n + y.fs < mxw(y.w) - 1 && y.s.len() == y.n && chars(y.s, y.k)
    &&& txok(y.w, m, y.t, y.tv, y.cs, y.n, y.k) && txs(y.w, m, y.t, y.tv, y.cs, y.n) == y.s
    &&& rok(y.w, m, y.sa, y.n + y.fs) && tsep(y.w, y.t, y.tv, y.cs, y.n, y.sa, y.n + y.fs) && frc(m0, m, cells(y.sa, y.n + y.fs))
}
/// between the stages: nothing but the array has changed
#[verifier::opaque]
pub open spec fn bas(m0: MemV, m: MemV, y: Ys) -> bool { bas0(m0, m, y) }
#[verifier::opaque]
pub open spec fn gv(m: MemV, y: Ys) -> Seq<int> { vseq(y.w, m, y.sa, y.n + y.fs) }
pub proof fn lem_bas_start(m: MemV, y: Ys)
    requires txok(y.w, m, y.t, y.tv, y.cs, y.n, y.k), rok(y.w, m, y.sa, y.n + y.fs), 0 <= y.fs, y.n + y.fs < mxw(y.w) - 1, tsep(y.w, y.t, y.tv, y.cs, y.n, y.sa, y.n + y.fs), y.s == txs(y.w, m, y.t, y.tv, y.cs, y.n)
    ensures bas(m, m, y)
{ reveal(bas); lem_tlen(y.w, m, y.t, y.tv, y.cs, y.n, y.k); lem_frc_refl(m, cells(y.sa, y.n + y.fs)); }
pub proof fn lem_bas_get(m0: MemV, m: MemV, y: Ys)
    requires bas(m0, m, y)
    ensures okw(y.w), 1 <= y.n < mxw(y.w) - 1, 1 <= y.k <= y.n + 1, 0 <= y.fs, y.n + y.fs < mxw(y.w) - 1, y.s.len() == y.n, chars(y.s, y.k), gv(m, y).len() == y.n + y.fs
{ reveal(bas); reveal(gv); }
pub proof fn lem_bas_psa(m0: MemV, m: MemV, y: Ys)
    requires bas(m0, m, y)
    ensures y.sa.len() == npl(y.w), pok(y.w, m, y.sa, y.n + y.fs, 0), y.sa.len() > 1 ==> pok(y.w, m, y.sa, y.n + y.fs, 1), y.sa.len() > 2 ==> pok(y.w, m, y.sa, y.n + y.fs, 2)
{ reveal(bas); reveal(rok); }
pub proof fn lem_bas_chr(m0: MemV, m: MemV, y: Ys, i: int)
    requires bas(m0, m, y), 0 <= i < y.n
    ensures 0 <= y.s[i] < y.k, cf(y.w, m, y.t, y.tv, y.cs, i, y.s[i])
{ reveal(bas); lem_text(y.w, m, y.t, y.tv, y.cs, y.n, y.k, i); }
pub proof fn lem_ga(m: MemV, y: Ys, i: int)
    requires 0 <= i < y.n + y.fs
    ensures gv(m, y)[i] == vw(y.w, m, y.sa, i), gv(m, y).len() == y.n + y.fs
{ reveal(gv); }
pub proof fn lem_ga_front(m: MemV, y: Ys, n: int)
    requires 0 <= n <= y.n + y.fs
    ensures gv(m, y).subrange(0, n) == vseq(y.w, m, y.sa, n)
{ reveal(gv); assert(gv(m, y).subrange(0, n) =~= vseq(y.w, m, y.sa, n)); }
/// any change within the array
pub proof fn lem_bas_step(m0: MemV, a: MemV, b: MemV, y: Ys, z: ISet<(int, int)>)
    requires bas(m0, a, y), frc(a, b, z), z.subset_of(cells(y.sa, y.n + y.fs))
    ensures bas(m0, b, y)
{
    reveal(bas); let e = cells(y.sa, y.n + y.fs);
    lem_frc_refl(b, e); lem_frc_trans(a, b, b, z, e, e);
    lem_tkeep(y.w, a, b, y.sa, y.n + y.fs, y.t, y.tv, y.cs, y.n, y.k); lem_shape(y.w, a, b, y.sa, y.n + y.fs, y.sa, y.n + y.fs);
    lem_frc_trans(m0, a, b, e, e, e);
}
pub proof fn lem_bas_put(m0: MemV, a: MemV, b: MemV, y: Ys, i: int, v: int)
    requires bas(m0, a, y), b == vset(y.w, a, y.sa, i, v), 0 <= i < y.n + y.fs, -y.n - 1 <= v <= y.n
    ensures bas(m0, b, y), gv(b, y) == gv(a, y).update(i, v)
{ assert(bas0(m0, a, y)) by { reveal(bas); } reveal(gv); lem_put(y.w, a, b, y.sa, y.n + y.fs, i, v); lem_bas_step(m0, a, b, y, cells(y.sa, y.n + y.fs)); }
// ---- parts of a region
pub proof fn lem_off0(s: Seq<PtrV>) ensures off(s, 0) == s { assert(off(s, 0) =~= s); }
pub proof fn lem_offat(s: Seq<PtrV>, d: int)
    ensures off(s, d).len() == s.len(), s.len() > 0 ==> off(s, d)[0] == (PtrV { o: s[0].o, i: s[0].i + d }), s.len() > 1 ==> off(s, d)[1] == (PtrV { o: s[1].o, i: s[1].i + d }), s.len() > 2 ==> off(s, d)[2] == (PtrV { o: s[2].o, i: s[2].i + d })
{ }
pub proof fn lem_part(w: int, m: MemV, s: Seq<PtrV>, n: int, d: int, k: int)
    requires okw(w), rok(w, m, s, n), 0 <= d, 0 <= k, d + k <= n
    ensures rok(w, m, off(s, d), k), vseq(w, m, off(s, d), k) == vseq(w, m, s, n).subrange(d, d + k), cells(off(s, d), k).subset_of(cells(s, n))
{
    reveal(rok); reveal(cells);
    assert forall|j: int| 0 <= j < k implies vw(w, m, off(s, d), j) == vw(w, m, s, d + j) by { lem_vwoff(w, m, s, d, j); }
    assert(vseq(w, m, off(s, d), k) =~= vseq(w, m, s, n).subrange(d, d + k));
}
pub proof fn lem_vwoff(w: int, m: MemV, s: Seq<PtrV>, d: int, j: int)
    requires okw(w), s.len() == npl(w)
    ensures vw(w, m, off(s, d), j) == vw(w, m, s, d + j)
{ assert forall|q: int| 0 <= q < s.len() implies off(s, d)[q].i + j == s[q].i + (d + j) by { } }
pub proof fn lem_setoff2(w: int, m: MemV, s: Seq<PtrV>, d: int, i: int, v: int)
    requires okw(w), s.len() == npl(w)
    ensures vset(w, m, off(s, d), i, v) == vset(w, m, s, d + i, v)
{ reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); assert forall|q: int| 0 <= q < s.len() implies off(s, d)[q].i + i == s[q].i + (d + i) by { } }
proof fn lem_parts_sep(w: int, s: Seq<PtrV>, d: int, n: int, e: int, k: int)
    requires s.len() == npl(w), d + n <= e || e + k <= d
    ensures rsep(off(s, d), n, off(s, e), k)
{ reveal(rsep); }
proof fn lem_tsep_part(w: int, t: PtrV, tv: Seq<PtrV>, cs: int, n: int, u: Seq<PtrV>, k: int, d: int, e: int)
    requires tsep(w, t, tv, cs, n, u, k), 0 <= d, d + e <= k, 1 <= u.len() <= 3
    ensures tsep(w, t, tv, cs, n, off(u, d), e)
{
    reveal(tsep); reveal(rsep); let v = off(u, d);
    assert(v.len() == u.len() && v[0].o == u[0].o && v[0].i == u[0].i + d);
    if u.len() > 1 { assert(v[1].o == u[1].o && v[1].i == u[1].i + d); } if u.len() > 2 { assert(v[2].o == u[2].o && v[2].i == u[2].i + d); }
}
// ---- buckets
/// without the objects of c
pub open spec fn rms(m: MemV, c: Seq<PtrV>) -> MemV { if c.len() == 1 { rm(m, c[0].o) } else if c.len() == 2 { rm(rm(m, c[0].o), c[1].o) } else { rm(rm(rm(m, c[0].o), c[1].o), c[2].o) } }
pub open spec fn wm(m: MemV, y: Ys, x: Sg) -> MemV { if y.k <= y.fs { m } else { rms(m, x.c) } }
pub open spec fn nob(m0: MemV, m: MemV, c: Seq<PtrV>, q: int) -> bool { live(m, c[q], 2) && !m0.h.contains_key(c[q].o) }
pub open spec fn xof(y: Ys, c: Seq<PtrV>, b: Seq<PtrV>) -> Sg { Sg { w: y.w, n: y.n, k: y.k, cs: y.cs, t: y.t, tv: y.tv, sa: y.sa, c: c, b: b } }
#[verifier::opaque]
pub open spec fn ws(m0: MemV, m: MemV, y: Ys, x: Sg) -> bool {
    &&& geo(m, x, y.s) && x == xof(y, x.c, x.b) && bas(m0, wm(m, y, x), y)
    &&& y.k <= y.fs ==> x.c == off(y.sa, y.n) && (x.b == x.c || 2 * y.k <= y.fs && x.b == off(y.sa, y.n + y.k))
    &&& y.k > y.fs ==> x.b == x.c && x.c.len() == npl(y.w) && nob(m0, m, x.c, 0) && (npl(y.w) > 1 ==> nob(m0, m, x.c, 1) && x.c[0].o != x.c[1].o) && (npl(y.w) > 2 ==> nob(m0, m, x.c, 2) && x.c[0].o != x.c[2].o && x.c[1].o != x.c[2].o)
}
pub proof fn lem_ws_get(m0: MemV, m: MemV, y: Ys, x: Sg)
    requires ws(m0, m, y, x)
    ensures geo(m, x, y.s), x == xof(y, x.c, x.b), okw(y.w), 1 <= y.n < mxw(y.w) - 1, 1 <= y.k <= y.n + 1, 0 <= y.fs, y.s.len() == y.n, chars(y.s, y.k), gsa(m, x).len() == y.n, gb(m, x).len() == y.k
{ reveal(ws); reveal(gsa); reveal(gb); lem_bas_get(m0, wm(m, y, x), y); }
pub proof fn lem_ws_sub(m0: MemV, m: MemV, y: Ys, x: Sg)
    requires bas(m0, m, y), y.k <= y.fs, x == xof(y, x.c, x.b), x.c == off(y.sa, y.n), x.b == x.c || 2 * y.k <= y.fs && x.b == off(y.sa, y.n + y.k)
    ensures ws(m0, m, y, x), gsa(m, x) == gv(m, y).subrange(0, y.n)
{
    reveal(bas); reveal(ws); reveal(geo); reveal(gsa); let n = y.n + y.fs;
    assert(y.sa.len() == npl(y.w)) by { reveal(rok); }
    lem_off0(y.sa); lem_part(y.w, m, y.sa, n, 0, y.n); lem_part(y.w, m, y.sa, n, y.n, y.k);
    lem_parts_sep(y.w, y.sa, 0, y.n, y.n, y.k); lem_tsep_part(y.w, y.t, y.tv, y.cs, y.n, y.sa, n, 0, y.n); lem_tsep_part(y.w, y.t, y.tv, y.cs, y.n, y.sa, n, y.n, y.k);
    if x.b != x.c { lem_part(y.w, m, y.sa, n, y.n + y.k, y.k); lem_parts_sep(y.w, y.sa, 0, y.n, y.n + y.k, y.k); lem_parts_sep(y.w, y.sa, y.n + y.k, y.k, y.n, y.k); lem_tsep_part(y.w, y.t, y.tv, y.cs, y.n, y.sa, n, y.n + y.k, y.k); }
    lem_ga_front(m, y, y.n);
}
/// new objects for the counts
pub open spec fn nobj(w: int, a: MemV, b: MemV, c: Seq<PtrV>, k: int, q: int) -> bool { c[q].o == a.nx + q && c[q].i == 0 && pkind(w, b.h[c[q].o], q) && olen(b.h[c[q].o]) == k }
pub open spec fn newc(w: int, a: MemV, b: MemV, c: Seq<PtrV>, k: int) -> bool {
    &&& c.len() == npl(w) && nobj(w, a, b, c, k, 0) && (npl(w) > 1 ==> nobj(w, a, b, c, k, 1)) && (npl(w) > 2 ==> nobj(w, a, b, c, k, 2))
    &&& if npl(w) == 1 { b == alc(a, a.nx, b.h[a.nx], 2) } else if npl(w) == 2 { b == alc(alc(a, a.nx, b.h[a.nx], 2), a.nx + 1, b.h[a.nx + 1], 2) } else { b == alc(alc(alc(a, a.nx, b.h[a.nx], 2), a.nx + 1, b.h[a.nx + 1], 2), a.nx + 2, b.h[a.nx + 2], 2) }
}
pub proof fn lem_ws_new(m0: MemV, a: MemV, b: MemV, y: Ys, x: Sg)
    requires bas(m0, a, y), wf(a), y.k > y.fs, x == xof(y, x.c, x.b), x.b == x.c, newc(y.w, a, b, x.c, y.k)
    ensures ws(m0, b, y, x), gsa(b, x) == gv(a, y).subrange(0, y.n)
{
    assert(bas0(m0, a, y)) by { reveal(bas); } let n = y.n + y.fs; let d = rms(b, x.c); let z = ISet::new(|p: (int, int)| false);
    assert(frc(a, d, z)) by { reveal(frc); assert(d.k =~= a.k); }
    lem_bas_step(m0, a, d, y, z);
    assert(!m0.h.contains_key(a.nx) && !m0.h.contains_key(a.nx + 1) && !m0.h.contains_key(a.nx + 2)) by { reveal(frc); assert(!a.h.contains_key(a.nx) && !a.h.contains_key(a.nx + 1) && !a.h.contains_key(a.nx + 2)); }
    lem_bigger(a, b, y, x);
    lem_ga_front(a, y, y.n); reveal(gsa); reveal(ws);
}
pub open spec fn keeps(a: MemV, b: MemV) -> bool { forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] a.h.contains_key(o) ==> b.h.contains_key(o) && b.h[o] == a.h[o] }
proof fn lem_bigger(a: MemV, b: MemV, y: Ys, x: Sg)
    requires bas0(a, a, y) || exists|m0: MemV| #[trigger] bas0(m0, a, y), wf(a), x == xof(y, x.c, x.b), x.b == x.c, newc(y.w, a, b, x.c, y.k)
    ensures geo(b, x, y.s), vseq(y.w, b, y.sa, y.n) == vseq(y.w, a, y.sa, y.n)
{
    let n = y.n + y.fs;
    assert(keeps(a, b));
    assert(y.sa.len() == npl(y.w)) by { reveal(rok); }
    lem_off0(y.sa); lem_part(y.w, a, y.sa, n, 0, y.n); lem_tsep_part(y.w, y.t, y.tv, y.cs, y.n, y.sa, n, 0, y.n);
    lem_keeps_r(y.w, a, b, y.sa, y.n); lem_keeps_t(y.w, a, b, y.t, y.tv, y.cs, y.n, y.k);
    assert(rok(y.w, b, x.c, y.k)) by { reveal(rok); }
    assert(rsep(y.sa, y.n, x.c, y.k)) by { reveal(rsep); reveal(rok); }
    assert(tsep(y.w, y.t, y.tv, y.cs, y.n, x.c, y.k)) by { reveal(tsep); reveal(rsep); reveal(rok); reveal(txok); }
    reveal(geo);
}
proof fn lem_keeps_r(w: int, a: MemV, b: MemV, u: Seq<PtrV>, k: int)
    requires okw(w), keeps(a, b), rok(w, a, u, k)
    ensures rok(w, b, u, k), vseq(w, b, u, k) == vseq(w, a, u, k)
{ reveal(rok); assert(b.h[u[0].o] == a.h[u[0].o]); if u.len() > 1 { assert(b.h[u[1].o] == a.h[u[1].o]); } if u.len() > 2 { assert(b.h[u[2].o] == a.h[u[2].o]); } assert(vseq(w, b, u, k) =~= vseq(w, a, u, k)); }
proof fn lem_keeps_t(w: int, a: MemV, b: MemV, t: PtrV, tv: Seq<PtrV>, cs: int, n: int, k: int)
    requires keeps(a, b), txok(w, a, t, tv, cs, n, k)
    ensures txok(w, b, t, tv, cs, n, k), txs(w, b, t, tv, cs, n) == txs(w, a, t, tv, cs, n)
{ reveal(txok); if cs == w { lem_keeps_r(w, a, b, tv, n); } else { assert(b.h[t.o] == a.h[t.o]); } }
/// a step within the arrays
pub proof fn lem_ws_step(m0: MemV, a: MemV, b: MemV, y: Ys, x: Sg, z: ISet<(int, int)>)
    requires ws(m0, a, y, x), frc(a, b, z), geo(b, x, y.s), z == zz(x) || z == cells(x.c, x.k)
    ensures ws(m0, b, y, x)
{
    reveal(ws); lem_bas_get(m0, wm(a, y, x), y); let n = y.n + y.fs; let e = cells(y.sa, n);
    assert(rok(y.w, wm(a, y, x), y.sa, n)) by { reveal(bas); }
    lem_off0(y.sa); lem_part(y.w, wm(a, y, x), y.sa, n, 0, y.n);
    if y.k <= y.fs {
        lem_part(y.w, a, y.sa, n, y.n, y.k); if 2 * y.k <= y.fs { lem_part(y.w, a, y.sa, n, y.n + y.k, y.k); }
        assert(z.subset_of(e));
        lem_bas_step(m0, a, b, y, z);
    } else {
        let c = rms(a, x.c); let d = rms(b, x.c);
        assert(frc(c, d, e)) by { lem_rms(a, b, x, z, e); }
        lem_bas_step(m0, c, d, y, e);
        reveal(frc); assert(b.h.contains_key(x.c[0].o)); if x.c.len() > 1 { assert(b.h.contains_key(x.c[1].o)); } if x.c.len() > 2 { assert(b.h.contains_key(x.c[2].o)); }
    }
}
proof fn lem_rms(a: MemV, b: MemV, x: Sg, z: ISet<(int, int)>, e: ISet<(int, int)>)
    requires frc(a, b, z), z == zz(x) || z == cells(x.c, x.k), x.b == x.c, cells(x.sa, x.n).subset_of(e), x.c.len() == 1 || x.c.len() == 2 || x.c.len() == 3
    ensures frc(rms(a, x.c), rms(b, x.c), e)
{
    reveal(frc); reveal(cells); let c = rms(a, x.c); let d = rms(b, x.c);
    assert(d.k =~= c.k);
    assert forall|o: int, i: int| #![trigger ce(d.h[o], i)] d.h.contains_key(o) && !e.contains((o, i)) implies ce(d.h[o], i) == ce(c.h[o], i) by {
        assert(!cells(x.sa, x.n).contains((o, i))); assert(!rin(x.c, x.k, o, i)); assert(!z.contains((o, i))); assert(ce(b.h[o], i) == ce(a.h[o], i)); assert(d.h[o] == b.h[o] && c.h[o] == a.h[o]); }
    assert forall|o: int| #![trigger d.h[o]] #![trigger d.h.contains_key(o)] d.h.contains_key(o) == c.h.contains_key(o) && (d.h.contains_key(o) ==> shp(c.h[o], d.h[o])) by { assert(b.h.contains_key(o) == a.h.contains_key(o)); if b.h.contains_key(o) { assert(shp(a.h[o], b.h[o])); } }
}
pub proof fn lem_ws_live(m0: MemV, m: MemV, y: Ys, x: Sg)
    requires ws(m0, m, y, x), wf(m), y.fs < y.k
    ensures x.c.len() == npl(y.w), live(m, x.c[0], 2), x.c[0] != NUL(), x.c.len() > 1 ==> live(rm(m, x.c[0].o), x.c[1], 2) && x.c[1] != NUL(), x.c.len() > 2 ==> live(rm(rm(m, x.c[0].o), x.c[1].o), x.c[2], 2) && x.c[2] != NUL()
{ reveal(ws); }
pub proof fn lem_ws_free(m0: MemV, a: MemV, b: MemV, y: Ys, x: Sg)
    requires ws(m0, a, y, x), b == wm(a, y, x)
    ensures bas(m0, b, y), gv(b, y).subrange(0, y.n) == gsa(a, x), gv(b, y).len() == y.n + y.fs, y.s.len() == y.n
{
    reveal(ws); reveal(gsa); assert(bas0(m0, b, y)) by { reveal(bas); } lem_ga_front(b, y, y.n); reveal(gv);
    lem_off0(y.sa); lem_part(y.w, b, y.sa, y.n + y.fs, 0, y.n);
    if y.k > y.fs { assert(keeps(b, a)); lem_keeps_r(y.w, b, a, y.sa, y.n); }
}
// ---- steps
pub proof fn lem_ws_sa(m0: MemV, a: MemV, b: MemV, y: Ys, x: Sg, i: int, v: int)
    requires ws(m0, a, y, x), b == vset(y.w, a, y.sa, i, v), 0 <= i < y.n, -y.n - 1 <= v <= y.n
    ensures ws(m0, b, y, x), gsa(b, x) == gsa(a, x).update(i, v), gb(b, x) == gb(a, x), gc(b, x) == gc(a, x)
{ lem_ws_get(m0, a, y, x); lem_frc_refl(a, zz(x)); lem_geo_sa(a, a, b, x, y.s, i, v); lem_ws_step(m0, a, b, y, x, zz(x)); }
pub proof fn lem_ws_b(m0: MemV, a: MemV, b: MemV, y: Ys, x: Sg, i: int, v: int)
    requires ws(m0, a, y, x), b == vset(y.w, a, x.b, i, v), 0 <= i < y.k, -y.n - 1 <= v <= y.n
    ensures ws(m0, b, y, x), gb(b, x) == gb(a, x).update(i, v), gsa(b, x) == gsa(a, x), x.c != x.b ==> gc(b, x) == gc(a, x)
{ lem_ws_get(m0, a, y, x); lem_frc_refl(a, zz(x)); lem_geo_b(a, a, b, x, y.s, i, v); lem_ws_step(m0, a, b, y, x, zz(x)); }
/// the counts are there
#[verifier::opaque]
pub open spec fn wsc(m: MemV, y: Ys, x: Sg) -> bool { x.c != x.b ==> gc(m, x) == cntv(y.s, y.k, y.n) }
pub proof fn lem_wsc(a: MemV, b: MemV, y: Ys, x: Sg) requires wsc(a, y, x), x.c != x.b ==> gc(b, x) == gc(a, x) ensures wsc(b, y, x) { reveal(wsc); }
proof fn lem_geo_fc(a: MemV, b: MemV, x: Sg, s: Seq<int>)
    requires geo(a, x, s), frc(a, b, cells(x.c, x.k))
    ensures geo(b, x, s), gsa(b, x) == gsa(a, x)
{
    if x.c == x.b { lem_geo_fb(a, b, x, s); } else {
        reveal(gsa); reveal(geo);
        assert(x.sa.len() == x.c.len() && x.b.len() == x.c.len()) by { reveal(rok); } lem_rsep_sym(x.sa, x.n, x.c, x.k); lem_rsep_sym(x.b, x.k, x.c, x.k);
        lem_shape(x.w, a, b, x.c, x.k, x.c, x.k); lem_rkeep(x.w, a, b, x.c, x.k, x.b, x.k); lem_rkeep(x.w, a, b, x.c, x.k, x.sa, x.n); lem_tkeep(x.w, a, b, x.c, x.k, x.t, x.tv, x.cs, x.n, x.k);
    }
}
/// before counting, and after it
pub proof fn lem_prep0(m0: MemV, a: MemV, y: Ys, x: Sg)
    requires ws(m0, a, y, x)
    ensures geo0(a, x, y.s), x == xof(y, x.c, x.b)
{ lem_ws_get(m0, a, y, x); reveal(geo); }
pub proof fn lem_prep1(m0: MemV, a: MemV, b: MemV, y: Ys, x: Sg)
    requires ws(m0, a, y, x), frc(a, b, cells(x.c, x.k)), vseq(x.w, b, x.c, x.k) == cntv(y.s, y.k, y.n)
    ensures ws(m0, b, y, x), gsa(b, x) == gsa(a, x), geo0(b, x, y.s), x == xof(y, x.c, x.b), x.k < mxw(x.w), cok(x.w, vseq(x.w, b, x.c, x.k)), gc(b, x) == cntv(y.s, y.k, y.n)
{ lem_ws_get(m0, a, y, x); lem_geo_fc(a, b, x, y.s); lem_ws_step(m0, a, b, y, x, cells(x.c, x.k)); reveal(geo); lem_cok_cntv(y.w, y.s, y.k); lem_gc(b, x); }
pub proof fn lem_prep2(m0: MemV, a: MemV, b: MemV, y: Ys, x: Sg)
    requires ws(m0, a, y, x), gc(a, x) == cntv(y.s, y.k, y.n), frc(a, b, cells(x.b, x.k)), vseq(x.w, b, x.b, x.k) == bkt(vseq(x.w, a, x.c, x.k), true)
    ensures ws(m0, b, y, x), gsa(b, x) == gsa(a, x), wsc(b, y, x), gb(b, x).len() == y.k, forall|c: int| 0 <= c < y.k ==> #[trigger] gb(b, x)[c] == bks(y.s, c + 1)
{
    lem_ws_get(m0, a, y, x); lem_geo_fb(a, b, x, y.s); lem_ws_step(m0, a, b, y, x, zz(x)); lem_gb(b, x, 0); lem_gc(a, x); lem_bkt_bks(y.s, y.k, true); reveal(wsc);
}
// ---- the recursive call
pub proof fn lem_rec_pre(m0: MemV, m: MemV, y: Ys, r: Seq<int>, mm: int, name: int, t: PtrV, tv: Seq<PtrV>)
    requires bas(m0, m, y), gv(m, y).subrange(y.n + y.fs - mm, y.n + y.fs) == r, chars(r, name), 1 <= mm, 2 * mm <= y.n - 1, 1 <= name <= mm + 1, tv == off(y.sa, y.n + y.fs - mm), y.w == 32 ==> t.o == tv[0].o && t.i == 4 * tv[0].i, y.w == 64 ==> t.o == tv[0].o && t.i == 8 * tv[0].i
    ensures txok(y.w, m, t, tv, y.w, mm, name), txs(y.w, m, t, tv, y.w, mm) == r, rok(y.w, m, y.sa, y.n + y.fs - mm), tsep(y.w, t, tv, y.w, mm, y.sa, y.n + y.fs - mm)
{
    reveal(bas); reveal(gv); let n = y.n + y.fs;
    assert(y.sa.len() == npl(y.w)) by { reveal(rok); }
    lem_part(y.w, m, y.sa, n, n - mm, mm); lem_off0(y.sa); lem_part(y.w, m, y.sa, n, 0, n - mm); lem_parts_sep(y.w, y.sa, 0, n - mm, n - mm, mm);
    reveal(txok); reveal(tsep);
}
pub proof fn lem_rec_post(m0: MemV, a: MemV, b: MemV, y: Ys, mm: int)
    requires bas(m0, a, y), 0 <= mm, 2 * mm <= y.n - 1, frc(a, b, cells(y.sa, y.n + y.fs - mm))
    ensures bas(m0, b, y), gv(b, y).subrange(0, mm) == vseq(y.w, b, y.sa, mm), gv(b, y).len() == y.n + y.fs
{
    assert(bas0(m0, a, y)) by { reveal(bas); } lem_off0(y.sa); lem_part(y.w, a, y.sa, y.n + y.fs, 0, y.n + y.fs - mm);
    lem_bas_step(m0, a, b, y, cells(y.sa, y.n + y.fs - mm)); lem_ga_front(b, y, mm); reveal(gv);
}

/// a split number is zero when its parts are
pub proof fn lem_zero(w: int, m: MemV, s: Seq<PtrV>, i: int)
    requires w == 40 || w == 48 || w == 56
    ensures w == 40 ==> (vw(w, m, s, i) == 0) == (u32s(m, s[0].o)[s[0].i + i] == 0 && sg8(u8s(m, s[1].o)[s[1].i + i] as int) == 0),
        w == 48 ==> (vw(w, m, s, i) == 0) == (u32s(m, s[0].o)[s[0].i + i] == 0 && sg16(u16s(m, s[1].o)[s[1].i + i] as int) == 0),
        w == 56 ==> (vw(w, m, s, i) == 0) == (u32s(m, s[0].o)[s[0].i + i] == 0 && u16s(m, s[1].o)[s[1].i + i] == 0 && sg8(u8s(m, s[2].o)[s[2].i + i] as int) == 0)
{ }
