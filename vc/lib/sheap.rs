// uses: regs spass splace sname
// The arrays of the suffix sorters: regions of numbers with offsets, the text, what a step changes.
pub open spec fn okw(w: int) -> bool { w == 32 || w == 40 || w == 48 || w == 56 || w == 64 }
pub open spec fn npl(w: int) -> int { if w == 32 || w == 64 { 1 } else if w == 56 { 3 } else { 2 } }
pub open spec fn pkind(w: int, x: Obj, q: int) -> bool { if q == 0 { if w == 64 { x is U64 } else { x is U32 } } else if q == 1 && w != 40 { x is U16 } else { x is U8 } }
pub open spec fn olen(x: Obj) -> int { match x { Obj::U8(s) => s.len() as int, Obj::U16(s) => s.len() as int, Obj::U32(s) => s.len() as int, Obj::U64(s) => s.len() as int, _ => 0 } }
pub open spec fn ce(x: Obj, i: int) -> int { match x { Obj::U8(s) => s[i] as int, Obj::U16(s) => s[i] as int, Obj::U32(s) => s[i] as int, Obj::U64(s) => s[i] as int, _ => 0 } }
pub open spec fn shp(x: Obj, y: Obj) -> bool { olen(x) == olen(y) && (match x { Obj::U8(_) => y is U8, Obj::U16(_) => y is U16, Obj::U32(_) => y is U32, Obj::U64(_) => y is U64, _ => x == y }) }
/// n numbers from s on
pub open spec fn pok(w: int, m: MemV, s: Seq<PtrV>, n: int, q: int) -> bool { m.h.contains_key(s[q].o) && pkind(w, m.h[s[q].o], q) && 0 <= s[q].i && s[q].i + n <= olen(m.h[s[q].o]) }
#[verifier::opaque]
pub open spec fn rok(w: int, m: MemV, s: Seq<PtrV>, n: int) -> bool { s.len() == npl(w) && 0 <= n && pok(w, m, s, n, 0) && (s.len() > 1 ==> pok(w, m, s, n, 1)) && (s.len() > 2 ==> pok(w, m, s, n, 2)) }
pub open spec fn psep(s: Seq<PtrV>, n: int, u: Seq<PtrV>, k: int, q: int) -> bool { s[q].o != u[q].o || s[q].i + n <= u[q].i || u[q].i + k <= s[q].i }
/// without common cells
#[verifier::opaque]
pub open spec fn rsep(s: Seq<PtrV>, n: int, u: Seq<PtrV>, k: int) -> bool { psep(s, n, u, k, 0) && (s.len() > 1 ==> psep(s, n, u, k, 1)) && (s.len() > 2 ==> psep(s, n, u, k, 2)) }
pub open spec fn off(s: Seq<PtrV>, d: int) -> Seq<PtrV> { Seq::new(s.len(), |q: int| PtrV { o: s[q].o, i: s[q].i + d }) }
pub open spec fn pin(s: Seq<PtrV>, n: int, q: int, o: int, x: int) -> bool { s[q].o == o && s[q].i <= x < s[q].i + n }
pub open spec fn rin(s: Seq<PtrV>, n: int, o: int, x: int) -> bool { pin(s, n, 0, o, x) || s.len() > 1 && pin(s, n, 1, o, x) || s.len() > 2 && pin(s, n, 2, o, x) }
#[verifier::opaque]
pub open spec fn cells(s: Seq<PtrV>, n: int) -> ISet<(int, int)> { ISet::new(|p: (int, int)| rin(s, n, p.0, p.1)) }
/// only these cells may have changed
#[verifier::opaque]
pub open spec fn frc(a: MemV, b: MemV, z: ISet<(int, int)>) -> bool {
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] b.h.contains_key(o) == a.h.contains_key(o) && (b.h.contains_key(o) ==> shp(a.h[o], b.h[o]))
    &&& forall|o: int, i: int| #![trigger ce(b.h[o], i)] b.h.contains_key(o) && !z.contains((o, i)) ==> ce(b.h[o], i) == ce(a.h[o], i)
    &&& b.k =~= a.k
    &&& forall|o: int| #![trigger b.own[o]] #![trigger b.ser[o]] 0 < o < a.nx ==> b.own[o] == a.own[o] && b.ser[o] == a.ser[o]
    &&& forall|o: int| #![trigger b.gs[o]] 0 < o < a.nx ==> b.gs[o] == a.gs[o]
    &&& forall|o: int| #![trigger b.gc[o]] 0 < o < a.nx ==> b.gc[o] == a.gc[o]
    &&& a.nx <= b.nx && a.io == b.io
}
pub proof fn lem_frc_refl(a: MemV, z: ISet<(int, int)>) ensures frc(a, a, z) { reveal(frc); }
pub proof fn lem_frc_trans(a: MemV, b: MemV, c: MemV, x: ISet<(int, int)>, y: ISet<(int, int)>, z: ISet<(int, int)>)
    requires frc(a, b, x), frc(b, c, y), x.subset_of(z), y.subset_of(z)
    ensures frc(a, c, z)
{
    reveal(frc);
    assert forall|o: int, i: int| #![trigger ce(c.h[o], i)] c.h.contains_key(o) && !z.contains((o, i)) implies ce(c.h[o], i) == ce(a.h[o], i) by { assert(!x.contains((o, i)) && !y.contains((o, i))); assert(b.h.contains_key(o)); assert(ce(b.h[o], i) == ce(a.h[o], i)); }
    assert forall|o: int| #![trigger c.h[o]] c.h.contains_key(o) implies shp(a.h[o], c.h[o]) by { assert(b.h.contains_key(o)); assert(shp(a.h[o], b.h[o])); }
}
/// the same object
proof fn lem_same_obj(x: Obj, y: Obj)
    requires shp(x, y), forall|i: int| #![trigger ce(y, i)] ce(y, i) == ce(x, i)
    ensures x == y
{
    match x {
        Obj::U8(s) => { let t = y->U8_0; assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(ce(y, i) == ce(x, i)); } assert(s =~= t); }
        Obj::U16(s) => { let t = y->U16_0; assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(ce(y, i) == ce(x, i)); } assert(s =~= t); }
        Obj::U32(s) => { let t = y->U32_0; assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(ce(y, i) == ce(x, i)); } assert(s =~= t); }
        Obj::U64(s) => { let t = y->U64_0; assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(ce(y, i) == ce(x, i)); } assert(s =~= t); }
        _ => { }
    }
}
pub proof fn lem_frc_obj(a: MemV, b: MemV, s: Seq<PtrV>, n: int, o: int)
    requires frc(a, b, cells(s, n)), a.h.contains_key(o), s[0].o != o, s.len() > 1 ==> s[1].o != o, s.len() > 2 ==> s[2].o != o
    ensures b.h.contains_key(o), b.h[o] == a.h[o]
{
    reveal(frc); reveal(cells);
    assert(b.h.contains_key(o));
    assert forall|i: int| #![trigger ce(b.h[o], i)] ce(b.h[o], i) == ce(a.h[o], i) by { assert(!cells(s, n).contains((o, i))); }
    lem_same_obj(a.h[o], b.h[o]);
}
/// storing a number
pub proof fn lem_put(w: int, a: MemV, b: MemV, s: Seq<PtrV>, n: int, i: int, v: int)
    requires okw(w), rok(w, a, s, n), 0 <= i < n, b == vset(w, a, s, i, v), fits_in(w, v)
    ensures rok(w, b, s, n), vseq(w, b, s, n) == vseq(w, a, s, n).update(i, v), frc(a, b, cells(s, n)), 
{
    reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); reveal(rok); reveal(frc); reveal(cells);
    if w == 40 { lem_sp40(a, s[0], s[1], i, v); } else if w == 48 { lem_sp48(a, s[0], s[1], i, v); } else if w == 56 { lem_sp56(a, s[0], s[1], s[2], i, v); }
    assert forall|j: int| 0 <= j < n implies vw(w, b, s, j) == (if j == i { v } else { vw(w, a, s, j) }) by {
        if w == 40 { assert(sp40_ok(a, s[0], s[1], j)); } else if w == 48 { assert(sp48_ok(a, s[0], s[1], j)); } else if w == 56 { assert(sp56_ok(a, s[0], s[1], s[2], j)); } }
    assert(vseq(w, b, s, n) =~= vseq(w, a, s, n).update(i, v));
    assert forall|o: int, x: int| #![trigger ce(b.h[o], x)] b.h.contains_key(o) && !cells(s, n).contains((o, x)) implies ce(b.h[o], x) == ce(a.h[o], x) by {
        assert(!rin(s, n, o, x)); }
    assert(b.k =~= a.k);
}
pub proof fn lem_setoff(w: int, m: MemV, s: Seq<PtrV>, d: int, v: int)
    requires okw(w), s.len() == npl(w)
    ensures vset(w, m, off(s, d), 0, v) == vset(w, m, s, d, v)
{ reveal(sp40_set); reveal(sp48_set); reveal(sp56_set); assert forall|q: int| 0 <= q < s.len() implies off(s, d)[q].i + 0 == s[q].i + d by { } }
/// other regions are kept
pub proof fn lem_rkeep(w: int, a: MemV, b: MemV, s: Seq<PtrV>, n: int, u: Seq<PtrV>, k: int)
    requires okw(w), rok(w, a, s, n), frc(a, b, cells(s, n)), rok(w, a, u, k), rsep(s, n, u, k)
    ensures rok(w, b, u, k), vseq(w, b, u, k) == vseq(w, a, u, k)
{
    reveal(rok); reveal(frc); reveal(cells); reveal(rsep);
    lem_shapes(w, a, b, cells(s, n), u, k);
    assert forall|q: int, j: int| 0 <= q < u.len() && 0 <= j < k implies #[trigger] ce(b.h[u[q].o], u[q].i + j) == ce(a.h[u[q].o], u[q].i + j) by {
        assert(q == 0 || q == 1 || q == 2);
        assert(!rin(s, n, u[q].o, u[q].i + j)); assert(!cells(s, n).contains((u[q].o, u[q].i + j))); }
    lem_same_vals(w, a, b, u, k);
}
proof fn lem_shapes(w: int, a: MemV, b: MemV, z: ISet<(int, int)>, u: Seq<PtrV>, k: int)
    requires okw(w), frc(a, b, z), rok(w, a, u, k)
    ensures rok(w, b, u, k)
{ reveal(rok); reveal(frc); assert(b.h.contains_key(u[0].o)); if u.len() > 1 { assert(b.h.contains_key(u[1].o)); } if u.len() > 2 { assert(b.h.contains_key(u[2].o)); } }
pub proof fn lem_shape(w: int, a: MemV, b: MemV, s: Seq<PtrV>, n: int, u: Seq<PtrV>, k: int)
    requires okw(w), frc(a, b, cells(s, n)), rok(w, a, u, k)
    ensures rok(w, b, u, k)
{ lem_shapes(w, a, b, cells(s, n), u, k); }
proof fn lem_same_vals(w: int, a: MemV, b: MemV, u: Seq<PtrV>, k: int)
    requires okw(w), rok(w, a, u, k), rok(w, b, u, k), forall|q: int, j: int| 0 <= q < u.len() && 0 <= j < k ==> #[trigger] ce(b.h[u[q].o], u[q].i + j) == ce(a.h[u[q].o], u[q].i + j)
    ensures vseq(w, b, u, k) == vseq(w, a, u, k)
{
    reveal(rok);
    assert forall|j: int| 0 <= j < k implies vw(w, b, u, j) == vw(w, a, u, j) by {
        assert(ce(b.h[u[0].o], u[0].i + j) == ce(a.h[u[0].o], u[0].i + j));
        if u.len() > 1 { assert(ce(b.h[u[1].o], u[1].i + j) == ce(a.h[u[1].o], u[1].i + j)); }
        if u.len() > 2 { assert(ce(b.h[u[2].o], u[2].i + j) == ce(a.h[u[2].o], u[2].i + j)); }
    }
    assert(vseq(w, b, u, k) =~= vseq(w, a, u, k));
}
pub open spec fn mxw(w: int) -> int { if w == 32 { 0x8000_0000 } else if w == 40 { 0x80_0000_0000 } else if w == 48 { 0x8000_0000_0000 } else if w == 56 { 0x80_0000_0000_0000 } else { 0x8000_0000_0000_0000 } }
pub proof fn lem_mxw(w: int)
    requires okw(w)
    ensures mxw(w) == pow2((w - 1) as nat)
{ lemma2_to64(); lemma2_to64_rest(); }
pub proof fn lem_racc(w: int, m: MemV, s: Seq<PtrV>, n: int)
    requires rok(w, m, s, n)
    ensures s.len() == npl(w), 0 <= n, pok(w, m, s, n, 0), s.len() > 1 ==> pok(w, m, s, n, 1), s.len() > 2 ==> pok(w, m, s, n, 2)
{ reveal(rok); }
// ---- the text: packed, or a region of numbers
pub open spec fn txs(w: int, m: MemV, t: PtrV, tv: Seq<PtrV>, cs: int, n: int) -> Seq<int> { if cs == w { vseq(w, m, tv, n) } else { pstr(m, t, cs, n) } }
pub open spec fn tvw(t: PtrV, b: int) -> Seq<PtrV> { seq![PtrV { o: t.o, i: t.i / b }] }
#[verifier::opaque]
pub open spec fn txok(w: int, m: MemV, t: PtrV, tv: Seq<PtrV>, cs: int, n: int, k: int) -> bool {
    &&& okw(w) && 1 <= n < mxw(w) - 1 && 1 <= k <= n + 1 && chars(txs(w, m, t, tv, cs, n), k)
    &&& if cs == w { rok(w, m, tv, n) && (w == 32 ==> t.o == tv[0].o && t.i == 4 * tv[0].i) && (w == 64 ==> t.o == tv[0].o && t.i == 8 * tv[0].i) }
        else { t.i == 0 && m.h.contains_key(t.o) && m.h[t.o] is U64 && 1 <= cs < w && cs * (n + 1) <= 64 * u64s(m, t.o).len() && cs * (n + 1) < 0x8000_0000_0000_0000 }
}
#[verifier::opaque]
pub open spec fn tsep(w: int, t: PtrV, tv: Seq<PtrV>, cs: int, n: int, u: Seq<PtrV>, k: int) -> bool {
    if cs == w { rsep(u, k, tv, n) } else { u[0].o != t.o && (u.len() > 1 ==> u[1].o != t.o) && (u.len() > 2 ==> u[2].o != t.o) }
}
/// how the split layouts are put together by chr()
pub open spec fn ch2(h: int, l: int) -> int { or_i64_s(shl_i64_s(h, 32), l) }
pub open spec fn ch3(h: int, m: int, l: int) -> int { or_i64_s(or_i64_s(shl_i64_s(h, 48), shl_i64_s(m, 32)), l) }
pub proof fn lem_ch2(h: int, l: int)
    requires 0 <= l < 0x1_0000_0000, 0 <= h < 0x8000
    ensures ch2(h, l) == h * 0x1_0000_0000 + l
{ lem_shl32(); lem_or_add32(); let x = (un64(h) as u64) << 32u64; assert(x == h * 0x1_0000_0000); assert(x % 0x1_0000_0000 == 0); assert((x | (l as u64)) == x + l); }
pub proof fn lem_ch3(h: int, m: int, l: int)
    requires 0 <= l < 0x1_0000_0000, 0 <= m < 0x1_0000, 0 <= h < 0x80
    ensures ch3(h, m, l) == h * 0x1_0000_0000_0000 + m * 0x1_0000_0000 + l
{
    lem_shl32(); lem_shl48(); lem_or_add32(); lem_or_add48();
    let x = (un64(h) as u64) << 48u64; let y = (un64(m) as u64) << 32u64; assert(x == h * 0x1_0000_0000_0000); assert(y == m * 0x1_0000_0000); assert(x % 0x1_0000_0000_0000 == 0); assert((x | y) == x + y);
    let z = x | y; assert(z % 0x1_0000_0000 == 0); assert((z | (l as u64)) == z + l);
}
/// what reading character i needs and gives
pub open spec fn cf(w: int, m: MemV, t: PtrV, tv: Seq<PtrV>, cs: int, i: int, v: int) -> bool {
    if cs == w {
        if w == 32 { t.i % 4 == 0 && m.h.contains_key(t.o) && m.h[t.o] is U32 && 0 <= t.i / 4 + i < u32s(m, t.o).len() && u32s(m, t.o)[t.i / 4 + i] == v }
        else if w == 64 { t.i % 8 == 0 && m.h.contains_key(t.o) && m.h[t.o] is U64 && 0 <= t.i / 8 + i < u64s(m, t.o).len() && u64s(m, t.o)[t.i / 8 + i] == v }
        else if w == 40 { sp40_ok(m, tv[0], tv[1], i) && ch2(sg8(u8s(m, tv[1].o)[tv[1].i + i] as int), u32s(m, tv[0].o)[tv[0].i + i] as int) == v }
        else if w == 48 { sp48_ok(m, tv[0], tv[1], i) && ch2(sg16(u16s(m, tv[1].o)[tv[1].i + i] as int), u32s(m, tv[0].o)[tv[0].i + i] as int) == v }
        else { sp56_ok(m, tv[0], tv[1], tv[2], i) && ch3(sg8(u8s(m, tv[2].o)[tv[2].i + i] as int), u16s(m, tv[1].o)[tv[1].i + i] as int, u32s(m, tv[0].o)[tv[0].i + i] as int) == v }
    } else { t.i == 0 && 1 <= cs < w && g2_ok(m, PtrV { o: t.o, i: 0 }, cs, i + 1) && g2v(m, PtrV { o: t.o, i: 0 }, cs, i + 1) == v }
}
pub proof fn lem_text(w: int, m: MemV, t: PtrV, tv: Seq<PtrV>, cs: int, n: int, k: int, i: int)
    requires txok(w, m, t, tv, cs, n, k), 0 <= i < n
    ensures 0 <= txs(w, m, t, tv, cs, n)[i] < k, cf(w, m, t, tv, cs, i, txs(w, m, t, tv, cs, n)[i])
{
    reveal(txok); let s = txs(w, m, t, tv, cs, n); assert(s.len() == n); assert(0 <= s[i] < k);
    if cs == w { reveal(rok); assert(s[i] == vw(w, m, tv, i)); 
        if w == 32 { assert(t.i / 4 == tv[0].i); assert(u32s(m, t.o)[tv[0].i + i] < 0x8000_0000); } else if w == 64 { assert(t.i / 8 == tv[0].i); assert(u64s(m, t.o)[tv[0].i + i] < 0x8000_0000_0000_0000); }
        else if w == 40 { lem_ch2(sg8(u8s(m, tv[1].o)[tv[1].i + i] as int), u32s(m, tv[0].o)[tv[0].i + i] as int); } else if w == 48 { lem_ch2(sg16(u16s(m, tv[1].o)[tv[1].i + i] as int), u32s(m, tv[0].o)[tv[0].i + i] as int); }
        else { lem_ch3(sg8(u8s(m, tv[2].o)[tv[2].i + i] as int), u16s(m, tv[1].o)[tv[1].i + i] as int, u32s(m, tv[0].o)[tv[0].i + i] as int); } }
    else { reveal(g2_ok); reveal(g2v); assert(cs * (i + 1) + cs <= cs * (n + 1) && 0 <= cs * (i + 1)) by (nonlinear_arith) requires 0 <= i < n, 1 <= cs; }
}
pub proof fn lem_tkeep(w: int, a: MemV, b: MemV, s: Seq<PtrV>, c: int, t: PtrV, tv: Seq<PtrV>, cs: int, n: int, k: int)
    requires rok(w, a, s, c), frc(a, b, cells(s, c)), txok(w, a, t, tv, cs, n, k), tsep(w, t, tv, cs, n, s, c)
    ensures txok(w, b, t, tv, cs, n, k), txs(w, b, t, tv, cs, n) == txs(w, a, t, tv, cs, n)
{
    reveal(txok); reveal(tsep);
    if cs == w { lem_rkeep(w, a, b, s, c, tv, n); } else { lem_frc_obj(a, b, s, c, t.o); }
}
pub proof fn lem_tlen(w: int, m: MemV, t: PtrV, tv: Seq<PtrV>, cs: int, n: int, k: int)
    requires txok(w, m, t, tv, cs, n, k)
    ensures okw(w), 1 <= n < mxw(w) - 1, 1 <= k <= n + 1, txs(w, m, t, tv, cs, n).len() == n, chars(txs(w, m, t, tv, cs, n), k)
{ reveal(txok); }
// ---- counts and buckets
pub open spec fn cct(s: Seq<int>, c: int, i: int) -> int decreases i { if i <= 0 { 0 } else { cct(s, c, i - 1) + (if s[i - 1] == c { 1int } else { 0 }) } }
#[verifier::opaque]
pub open spec fn cntv(s: Seq<int>, k: int, i: int) -> Seq<int> { Seq::new(k as nat, |c: int| cct(s, c, i)) }
pub proof fn lem_cct(s: Seq<int>, c: int, i: int) requires 0 <= i ensures 0 <= cct(s, c, i) <= i decreases i { if i > 0 { lem_cct(s, c, i - 1); } }
pub proof fn lem_cntv0(s: Seq<int>, k: int, v: Seq<int>)
    requires v.len() == k, forall|j: int| 0 <= j < k ==> #[trigger] v[j] == 0
    ensures v == cntv(s, k, 0)
{ reveal(cntv); assert(v =~= cntv(s, k, 0)); }
pub proof fn lem_cntv(s: Seq<int>, k: int, i: int)
    requires 0 <= i < s.len(), 0 <= s[i] < k
    ensures 0 <= cntv(s, k, i)[s[i]] <= i, cntv(s, k, i).update(s[i], cntv(s, k, i)[s[i]] + 1) == cntv(s, k, i + 1), cntv(s, k, i).len() == k
{ reveal(cntv); lem_cct(s, s[i], i); assert(cntv(s, k, i).update(s[i], cntv(s, k, i)[s[i]] + 1) =~= cntv(s, k, i + 1)); }
#[verifier::opaque]
pub open spec fn psum(v: Seq<int>, c: int) -> int decreases c { if c <= 0 { 0 } else { psum(v, c - 1) + v[c - 1] } }
pub proof fn lem_psum(v: Seq<int>, c: int)
    ensures psum(v, 0) == 0, c > 0 ==> psum(v, c) == psum(v, c - 1) + v[c - 1]
{ reveal_with_fuel(psum, 2); }
proof fn lem_cct_cnt(s: Seq<int>, c: int, i: int)
    requires 0 <= i
    ensures cct(s, c, i) == cnt(|x: int| s[x] == c, i)
    decreases i
{ if i > 0 { lem_cct_cnt(s, c, i - 1); } }
pub proof fn lem_psum_bks(s: Seq<int>, k: int, c: int)
    requires chars(s, k), 0 <= c <= k
    ensures psum(cntv(s, k, s.len() as int), c) == bks(s, c), 0 <= bks(s, c) <= s.len(), c < k ==> cntv(s, k, s.len() as int)[c] >= 0 && cntv(s, k, s.len() as int)[c] <= s.len()
    decreases c
{
    let n = s.len() as int; let v = cntv(s, k, n);
    if c < k { reveal(cntv); lem_cct(s, c, n); }
    lem_bk_mono(s, c, c + 1); lem_psum(v, c);
    if c == 0 { reveal(bks); lem_cnt_none(f_c(s, 0), n); }
    else {
        lem_psum_bks(s, k, c - 1); reveal(bks); reveal(cntv); lem_cct_cnt(s, c - 1, n);
        lem_cnt_sum(f_c(s, c - 1), |x: int| s[x] == c - 1, f_c(s, c), n);
    }
}
/// counts whose sums fit
#[verifier::opaque]
pub open spec fn cok(w: int, v: Seq<int>) -> bool { forall|c: int| 0 <= c <= v.len() ==> 0 <= #[trigger] psum(v, c) && psum(v, c) < mxw(w) && (c < v.len() ==> 0 <= v[c]) }
pub proof fn lem_cok(w: int, v: Seq<int>, c: int)
    requires cok(w, v), 0 <= c < v.len()
    ensures 0 <= v[c] < mxw(w), 0 <= psum(v, c) <= psum(v, c + 1) < mxw(w), psum(v, c + 1) == psum(v, c) + v[c]
{ reveal(cok); lem_psum(v, c + 1); assert(0 <= psum(v, c)); assert(0 <= psum(v, c + 1)); }
pub proof fn lem_cok_cntv(w: int, s: Seq<int>, k: int)
    requires chars(s, k), 0 <= k, s.len() < mxw(w)
    ensures cok(w, cntv(s, k, s.len() as int))
{ reveal(cok); assert(cntv(s, k, s.len() as int).len() == k) by { reveal(cntv); } assert forall|c: int| 0 <= c <= k implies 0 <= #[trigger] psum(cntv(s, k, s.len() as int), c) && psum(cntv(s, k, s.len() as int), c) < mxw(w) && (c < k ==> 0 <= cntv(s, k, s.len() as int)[c]) by { lem_psum_bks(s, k, c); } }
/// bucket starts (e false) or ends
#[verifier::opaque]
pub open spec fn bkt(v: Seq<int>, e: bool) -> Seq<int> { Seq::new(v.len(), |c: int| if e { psum(v, c + 1) } else { psum(v, c) }) }
pub proof fn lem_bkt(v: Seq<int>, e: bool)
    ensures bkt(v, e).len() == v.len(), forall|c: int| 0 <= c < v.len() ==> #[trigger] bkt(v, e)[c] == (if e { psum(v, c + 1) } else { psum(v, c) })
{ reveal(bkt); }
pub proof fn lem_bkt_bks(s: Seq<int>, k: int, e: bool)
    requires chars(s, k), 0 <= k
    ensures bkt(cntv(s, k, s.len() as int), e).len() == k, forall|c: int| 0 <= c < k ==> #[trigger] bkt(cntv(s, k, s.len() as int), e)[c] == (if e { bks(s, c + 1) } else { bks(s, c) })
{
    let v = cntv(s, k, s.len() as int); assert(v.len() == k) by { reveal(cntv); } lem_bkt(v, e);
    assert forall|c: int| 0 <= c < k implies #[trigger] bkt(v, e)[c] == (if e { bks(s, c + 1) } else { bks(s, c) }) by { if e { lem_psum_bks(s, k, c + 1); } else { lem_psum_bks(s, k, c); } }
}
// ---- what an induction pass works on
pub ghost struct Sg { pub w: int, pub n: int, pub k: int, pub cs: int, pub t: PtrV, pub tv: Seq<PtrV>, pub sa: Seq<PtrV>, pub c: Seq<PtrV>, pub b: Seq<PtrV> }
pub open spec fn geo0(m: MemV, x: Sg, s: Seq<int>) -> bool {
    &&& okw(x.w) && 1 <= x.n < mxw(x.w) - 1 && 1 <= x.k <= x.n + 1 && s.len() == x.n && chars(s, x.k)
    &&& txok(x.w, m, x.t, x.tv, x.cs, x.n, x.k) && txs(x.w, m, x.t, x.tv, x.cs, x.n) == s
    &&& rok(x.w, m, x.sa, x.n) && rok(x.w, m, x.c, x.k) && rok(x.w, m, x.b, x.k)
    &&& rsep(x.sa, x.n, x.c, x.k) && rsep(x.sa, x.n, x.b, x.k) && (x.c == x.b || rsep(x.b, x.k, x.c, x.k))
    &&& tsep(x.w, x.t, x.tv, x.cs, x.n, x.sa, x.n) && tsep(x.w, x.t, x.tv, x.cs, x.n, x.c, x.k) && tsep(x.w, x.t, x.tv, x.cs, x.n, x.b, x.k)
}
#[verifier::opaque]
pub open spec fn geo(m: MemV, x: Sg, s: Seq<int>) -> bool { geo0(m, x, s) }
pub open spec fn zz(x: Sg) -> ISet<(int, int)> { cells(x.sa, x.n).union(cells(x.b, x.k)) }
#[verifier::opaque]
pub open spec fn gsa(m: MemV, x: Sg) -> Seq<int> { vseq(x.w, m, x.sa, x.n) }
#[verifier::opaque]
pub open spec fn gb(m: MemV, x: Sg) -> Seq<int> { vseq(x.w, m, x.b, x.k) }
#[verifier::opaque]
pub open spec fn gc(m: MemV, x: Sg) -> Seq<int> { vseq(x.w, m, x.c, x.k) }
pub proof fn lem_rsep_sym(s: Seq<PtrV>, n: int, u: Seq<PtrV>, k: int)
    requires rsep(s, n, u, k), s.len() == u.len()
    ensures rsep(u, k, s, n)
{ reveal(rsep); }
pub proof fn lem_geo_get(m: MemV, x: Sg, s: Seq<int>)
    requires geo(m, x, s)
    ensures geo0(m, x, s), x.sa.len() == npl(x.w), x.b.len() == npl(x.w), x.c.len() == npl(x.w), pok(x.w, m, x.sa, x.n, 0), x.sa.len() > 1 ==> pok(x.w, m, x.sa, x.n, 1), x.sa.len() > 2 ==> pok(x.w, m, x.sa, x.n, 2),
        pok(x.w, m, x.b, x.k, 0), x.b.len() > 1 ==> pok(x.w, m, x.b, x.k, 1), x.b.len() > 2 ==> pok(x.w, m, x.b, x.k, 2), 
        x.c == x.b || x.c[0] != x.b[0]
{ reveal(geo); reveal(rok); if x.c != x.b { reveal(rsep); } }
pub proof fn lem_geo_psa(m: MemV, x: Sg, s: Seq<int>)
    requires geo(m, x, s)
    ensures x.sa.len() == npl(x.w), pok(x.w, m, x.sa, x.n, 0), x.sa.len() > 1 ==> pok(x.w, m, x.sa, x.n, 1), x.sa.len() > 2 ==> pok(x.w, m, x.sa, x.n, 2)
{ lem_geo_get(m, x, s); }
pub proof fn lem_geo_pb(m: MemV, x: Sg, s: Seq<int>)
    requires geo(m, x, s)
    ensures x.b.len() == npl(x.w), pok(x.w, m, x.b, x.k, 0), x.b.len() > 1 ==> pok(x.w, m, x.b, x.k, 1), x.b.len() > 2 ==> pok(x.w, m, x.b, x.k, 2)
{ lem_geo_get(m, x, s); }
pub proof fn lem_geo_chr(m: MemV, x: Sg, s: Seq<int>, i: int)
    requires geo(m, x, s), 0 <= i < x.n
    ensures 0 <= s[i] < x.k, cf(x.w, m, x.t, x.tv, x.cs, i, s[i])
{ reveal(geo); lem_text(x.w, m, x.t, x.tv, x.cs, x.n, x.k, i); }
pub proof fn lem_geo_fsa(a: MemV, b: MemV, x: Sg, s: Seq<int>)
    requires geo(a, x, s), frc(a, b, cells(x.sa, x.n))
    ensures geo(b, x, s), gb(b, x) == gb(a, x), gc(b, x) == gc(a, x), frc(a, b, zz(x))
{
    reveal(gsa); reveal(gb); reveal(gc); reveal(geo);
    lem_rkeep(x.w, a, b, x.sa, x.n, x.b, x.k); lem_rkeep(x.w, a, b, x.sa, x.n, x.c, x.k); lem_tkeep(x.w, a, b, x.sa, x.n, x.t, x.tv, x.cs, x.n, x.k); lem_shape(x.w, a, b, x.sa, x.n, x.sa, x.n);
    lem_frc_refl(b, zz(x)); lem_frc_trans(a, b, b, cells(x.sa, x.n), zz(x), zz(x));
}
pub proof fn lem_geo_fb(a: MemV, b: MemV, x: Sg, s: Seq<int>)
    requires geo(a, x, s), frc(a, b, cells(x.b, x.k))
    ensures geo(b, x, s), gsa(b, x) == gsa(a, x), x.c != x.b ==> gc(b, x) == gc(a, x), frc(a, b, zz(x))
{
    reveal(gsa); reveal(gb); reveal(gc); reveal(geo);
    assert(x.sa.len() == x.b.len()) by { reveal(rok); } lem_rsep_sym(x.sa, x.n, x.b, x.k);
    lem_shape(x.w, a, b, x.b, x.k, x.b, x.k);
    if x.c != x.b { lem_rkeep(x.w, a, b, x.b, x.k, x.c, x.k); }
    lem_rkeep(x.w, a, b, x.b, x.k, x.sa, x.n); lem_tkeep(x.w, a, b, x.b, x.k, x.t, x.tv, x.cs, x.n, x.k);
    lem_frc_refl(b, zz(x)); lem_frc_trans(a, b, b, cells(x.b, x.k), zz(x), zz(x));
}
pub proof fn lem_geo_sa(m0: MemV, a: MemV, b: MemV, x: Sg, s: Seq<int>, i: int, v: int)
    requires geo(a, x, s), frc(m0, a, zz(x)), b == vset(x.w, a, x.sa, i, v), 0 <= i < x.n, -x.n - 1 <= v <= x.n
    ensures geo(b, x, s), gsa(b, x) == gsa(a, x).update(i, v), gb(b, x) == gb(a, x), gc(b, x) == gc(a, x), frc(m0, b, zz(x))
{ reveal(gsa); reveal(gb); reveal(gc); assert(geo0(a, x, s)) by { reveal(geo); } lem_put(x.w, a, b, x.sa, x.n, i, v); lem_geo_fsa(a, b, x, s); lem_frc_trans(m0, a, b, zz(x), zz(x), zz(x)); }
pub proof fn lem_geo_b(m0: MemV, a: MemV, b: MemV, x: Sg, s: Seq<int>, i: int, v: int)
    requires geo(a, x, s), frc(m0, a, zz(x)), b == vset(x.w, a, x.b, i, v), 0 <= i < x.k, -x.n - 1 <= v <= x.n
    ensures geo(b, x, s), gb(b, x) == gb(a, x).update(i, v), gsa(b, x) == gsa(a, x), x.c != x.b ==> gc(b, x) == gc(a, x), frc(m0, b, zz(x))
{ reveal(gsa); reveal(gb); reveal(gc); assert(geo0(a, x, s)) by { reveal(geo); } lem_put(x.w, a, b, x.b, x.k, i, v); lem_geo_fb(a, b, x, s); lem_frc_trans(m0, a, b, zz(x), zz(x), zz(x)); }
/// position j's turn comes at cell i
pub open spec fn turn1(g: Ig, j: int, i: int, e: Seq<int>) -> bool { isl(g, j) && c1(g, j) == i && 0 <= g.s[j] < e.len() && e[g.s[j]] == rk(g, j) && 0 <= rk(g, j) < g.s.len() && -g.s.len() <= enc1(g, j) < g.s.len() }
pub open spec fn turn2(g: Ig, j: int, i: int, e: Seq<int>) -> bool { iss(g, j) && rk(g, j + 1) == i && 0 <= g.s[j] < e.len() && e[g.s[j]] - 1 == rk(g, j) && 0 <= rk(g, j) < g.s.len() && -g.s.len() <= enc2(g, j) < g.s.len() }
pub proof fn lem_turn1(g: Ig, f: int, i: int, a: Seq<int>, e: Seq<int>, j: int)
    requires w1(g, f, i, a, e), isl(g, j), c1(g, j) == i, i >= -1
    ensures turn1(g, j, i, e)
{ lem_wslot1(g, f, i, a, e, j); }
pub proof fn lem_turn2(g: Ig, f: int, i: int, a: Seq<int>, e: Seq<int>, j: int)
    requires w2(g, f, i + 1, a, e), iss(g, j), rk(g, j + 1) == i
    ensures turn2(g, j, i, e)
{ lem_wslot2(g, f, i, a, e, j); assert(i < g.s.len() && rk(g, j) < i) by { reveal(w2); lem_rk(g, j + 1); lem_run_s(g, j); } }
/// the next free cells: kept in the array b, except for bucket c's
#[verifier::opaque]
pub open spec fn bex(m: MemV, x: Sg, e: Seq<int>, c: int) -> bool { e.len() == x.k && forall|d: int| 0 <= d < x.k && d != c ==> #[trigger] gb(m, x)[d] == e[d] }
pub proof fn lem_bex0(m: MemV, x: Sg, c: int) ensures x.k >= 0 ==> bex(m, x, gb(m, x), c) { reveal(bex); reveal(gb); }
pub proof fn lem_bex_eq(a: MemV, b: MemV, x: Sg, e: Seq<int>, c: int) requires bex(a, x, e, c), gb(b, x) == gb(a, x) ensures bex(b, x, e, c) { reveal(bex); }
pub proof fn lem_bex_b(m0: MemV, a: MemV, b: MemV, x: Sg, s: Seq<int>, e: Seq<int>, c: int, d: int)
    requires geo(a, x, s), frc(m0, a, zz(x)), b == vset(x.w, a, x.b, c, e[c]), bex(a, x, e, c), 0 <= c < x.k, 0 <= e[c] <= x.n, 0 <= d < x.k
    ensures geo(b, x, s), frc(m0, b, zz(x)), gsa(b, x) == gsa(a, x), x.c != x.b ==> gc(b, x) == gc(a, x), bex(b, x, e, d), vw(x.w, b, x.b, d) == e[d]
{ lem_geo_b(m0, a, b, x, s, c, e[c]); assert(gb(a, x).len() == x.k) by { reveal(gb); } reveal(bex); lem_gb(b, x, d); assert(gb(b, x)[d] == e[d]); }
pub proof fn lem_gput1(m0: MemV, a: MemV, b: MemV, x: Sg, g: Ig, f: int, i: int, e: Seq<int>, j: int)
    requires geo(a, x, g.s), frc(m0, a, zz(x)), b == vset(x.w, a, x.sa, rk(g, j), enc1(g, j)), w1(g, f, i, gsa(a, x), e), turn1(g, j, i, e), f <= i + 1
    ensures bex(a, x, e, g.s[j]) ==> bex(b, x, e.update(g.s[j], e[g.s[j]] + 1), g.s[j]), geo(b, x, g.s), frc(m0, b, zz(x)), gb(b, x) == gb(a, x), gc(b, x) == gc(a, x), w1(g, f, i + 1, gsa(b, x), e.update(g.s[j], e[g.s[j]] + 1))
{ reveal(bex); lem_geo_get(a, x, g.s); lem_geo_sa(m0, a, b, x, g.s, rk(g, j), enc1(g, j)); lem_wput1(g, f, i, gsa(a, x), e, j); }
pub proof fn lem_gput2(m0: MemV, a: MemV, b: MemV, x: Sg, g: Ig, i: int, e: Seq<int>, j: int)
    requires geo(a, x, g.s), frc(m0, a, zz(x)), b == vset(x.w, a, x.sa, rk(g, j), enc2(g, j)), w2(g, i, i + 1, gsa(a, x), e), turn2(g, j, i, e)
    ensures bex(a, x, e, g.s[j]) ==> bex(b, x, e.update(g.s[j], e[g.s[j]] - 1), g.s[j]), geo(b, x, g.s), frc(m0, b, zz(x)), gb(b, x) == gb(a, x), gc(b, x) == gc(a, x), w2(g, i, i, gsa(b, x), e.update(g.s[j], e[g.s[j]] - 1))
{ reveal(bex); lem_geo_get(a, x, g.s); lem_geo_sa(m0, a, b, x, g.s, rk(g, j), enc2(g, j)); lem_wput2(g, i, i, gsa(a, x), e, j); }
pub proof fn lem_gsa(m: MemV, x: Sg, i: int) requires 0 <= i < x.n ensures gsa(m, x)[i] == vw(x.w, m, x.sa, i) { reveal(gsa); }
pub proof fn lem_gb(m: MemV, x: Sg, i: int) requires 0 <= i < x.k ensures gb(m, x)[i] == vw(x.w, m, x.b, i), gb(m, x) == vseq(x.w, m, x.b, x.k) { reveal(gb); }
pub proof fn lem_gc(m: MemV, x: Sg) ensures gc(m, x) == vseq(x.w, m, x.c, x.k) { reveal(gc); }
/// pointers d numbers behind a region's start
pub open spec fn offp(p: Seq<PtrV>, s: Seq<PtrV>, d: int) -> bool {
    &&& p.len() == s.len() && p[0] == (PtrV { o: s[0].o, i: s[0].i + d }) && (p.len() > 1 ==> p[1] == (PtrV { o: s[1].o, i: s[1].i + d })) && (p.len() > 2 ==> p[2] == (PtrV { o: s[2].o, i: s[2].i + d }))
}
