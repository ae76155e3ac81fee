// Packed arrays: element i of width w occupies bits [w*i, w*i+w) of the word sequence, most significant bit first.
pub const ALL1: u64 = 0xffff_ffff_ffff_ffff;
/// bits lo..hi of a word, counted from the most significant one
pub open spec fn rmask(lo: u64, hi: u64) -> u64 {
    if lo >= hi { 0 } else { (0xffff_ffff_ffff_ffffu64 >> lo) & (0xffff_ffff_ffff_ffffu64 << sub(64, hi)) }
}
pub open spec fn ext1(x: u64, o: u64, w: u64) -> u64 { (x >> sub(64, add(o, w))) & (0xffff_ffff_ffff_ffffu64 >> sub(64, w)) }
pub open spec fn ext2(x: u64, y: u64, o: u64, w: u64) -> u64 {
    ((x & (0xffff_ffff_ffff_ffffu64 >> o)) << sub(add(o, w), 64)) | (y >> sub(128, add(o, w)))
}
/// element i
pub open spec fn pget(s: Seq<u64>, w: int, i: int) -> u64 {
    let k = (w * i) / 64; let o = (w * i) % 64;
    if o + w <= 64 { ext1(s[k], o as u64, w as u64) } else { ext2(s[k], s[k + 1], o as u64, w as u64) }
}
/// element i lies inside the words at p
#[verifier::opaque]
pub open spec fn g2_ok(m: MemV, p: PtrV, d: int, i: int) -> bool { m.h.contains_key(p.o) && m.h[p.o] is U64 && p.i == 0 && 1 <= d <= 64 && d * i + d <= 64 * u64s(m, p.o).len() && d * i < 0x8000_0000_0000_0000 }
#[verifier::opaque]
pub open spec fn g2v(m: MemV, p: PtrV, d: int, i: int) -> int { pget(u64s(m, p.o), d, i) as int }
/// the bits of word k that belong to element i
pub open spec fn emask(w: int, i: int, k: int) -> u64 {
    let a = w * i - 64 * k; let b = a + w;
    rmask((if a < 0 { 0 } else if a > 64 { 64 } else { a }) as u64, (if b < 0 { 0 } else if b > 64 { 64 } else { b }) as u64)
}
pub open spec fn fits(v: u64, w: int) -> bool { w >= 64 || (v as int) < pow2(w as nat) }
pub open spec fn fitsb(v: u64, w: u64) -> bool { (v & (0xffff_ffff_ffff_ffffu64 >> sub(64, w))) == v }
/// only element i changes, to v
pub open spec fn pset(s: Seq<u64>, t: Seq<u64>, w: int, i: int, v: u64) -> bool {
    &&& s.len() == t.len()
    &&& pget(t, w, i) == v
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] t[k] & !emask(w, i, k)) == (s[k] & !emask(w, i, k))
}
pub proof fn lem_not_masks()
    ensures forall|x: u64, y: u64| x == 0xffff_ffff_ffff_ffff ==> #[trigger] (x & y) == y,
        forall|x: u64, y: u64| x == 0 ==> #[trigger] (x & y) == 0,
{
    assert forall|x: u64, y: u64| x == 0xffff_ffff_ffff_ffff implies #[trigger] (x & y) == y by { assert(0xffff_ffff_ffff_ffffu64 & y == y) by (bit_vector); }
    assert forall|x: u64, y: u64| x == 0 implies #[trigger] (x & y) == 0 by { assert(0u64 & y == 0) by (bit_vector); }
}
pub proof fn lem_fits(v: u64, w: u64)
    requires 1 <= w <= 64
    ensures fits(v, w as int) <==> fitsb(v, w)
{
    if w < 64 {
        vstd::arithmetic::power2::lemma_pow2_strictly_increases(w as nat, 64);
        lemma2_to64(); lemma2_to64_rest();
        assert(pow2(64) == 0x1_0000_0000_0000_0000);
        vstd::bits::lemma_u64_shl_is_mul(1, w);
        let p = 1u64 << w;
        assert(p as int == pow2(w as nat));
        assert((v & (0xffff_ffff_ffff_ffffu64 >> sub(64, w)) == v) <==> v < (1u64 << w)) by (bit_vector) requires 1 <= w < 64;
    } else {
        assert(v & (0xffff_ffff_ffff_ffffu64 >> sub(64u64, 64u64)) == v) by (bit_vector);
    }
}
/// store inside one word
pub proof fn lem_set1(x: u64, o: u64, w: u64, v: u64, m1: u64, m2: u64, r: u64)
    requires 1 <= w <= 64, o < 64, o + w <= 64, fitsb(v, w),
        m1 == 0xffff_ffff_ffff_ffffu64 >> o,
        m2 == (if o + w == 64 { 0 } else { 0xffff_ffff_ffff_ffffu64 >> sub(64, sub(64, add(o, w))) }),
        r == ((x & !(m1 & !m2)) | (v << sub(64, add(o, w)))),
    ensures ext1(r, o, w) == v, (r & !rmask(o, add(o, w))) == (x & !rmask(o, add(o, w)))
{
    let e = add(o, w);
    assert(((r >> sub(64, e)) & (0xffff_ffff_ffff_ffffu64 >> sub(64, w))) == v
        && (r & !((0xffff_ffff_ffff_ffffu64 >> o) & (0xffff_ffff_ffff_ffffu64 << sub(64, e)))) == (x & !((0xffff_ffff_ffff_ffffu64 >> o) & (0xffff_ffff_ffff_ffffu64 << sub(64, e)))))
    by (bit_vector) requires 1 <= w <= 64, o < 64, o + w <= 64, e == add(o, w), (v & (0xffff_ffff_ffff_ffffu64 >> sub(64, w))) == v,
        m1 == 0xffff_ffff_ffff_ffffu64 >> o, m2 == (if e == 64 { 0 } else { 0xffff_ffff_ffff_ffffu64 >> e }),
        r == ((x & !(m1 & !m2)) | (v << sub(64, e)));
}
/// store across two words
pub proof fn lem_set2(x: u64, y: u64, o: u64, w: u64, v: u64, r: u64, q: u64)
    requires 1 <= w <= 64, o < 64, o + w > 64, fitsb(v, w),
        r == ((x & !(0xffff_ffff_ffff_ffffu64 >> o)) | (v >> sub(add(o, w), 64))),
        q == ((y & !(0xffff_ffff_ffff_ffffu64 << sub(128, add(o, w)))) | (v << sub(128, add(o, w)))),
    ensures ext2(r, q, o, w) == v,
        (r & !rmask(o, 64)) == (x & !rmask(o, 64)),
        (q & !rmask(0, sub(add(o, w), 64))) == (y & !rmask(0, sub(add(o, w), 64))),
{
    let e = add(o, w);
    assert((((r & (0xffff_ffff_ffff_ffffu64 >> o)) << sub(e, 64)) | (q >> sub(128, e))) == v
        && (r & !((0xffff_ffff_ffff_ffffu64 >> o) & (0xffff_ffff_ffff_ffffu64 << sub(64u64, 64u64)))) == (x & !((0xffff_ffff_ffff_ffffu64 >> o) & (0xffff_ffff_ffff_ffffu64 << sub(64u64, 64u64))))
        && (q & !((0xffff_ffff_ffff_ffffu64 >> 0u64) & (0xffff_ffff_ffff_ffffu64 << sub(64, sub(e, 64))))) == (y & !((0xffff_ffff_ffff_ffffu64 >> 0u64) & (0xffff_ffff_ffff_ffffu64 << sub(64, sub(e, 64))))))
    by (bit_vector) requires 1 <= w <= 64, o < 64, o + w > 64, e == add(o, w), (v & (0xffff_ffff_ffff_ffffu64 >> sub(64, w))) == v,
        r == ((x & !(0xffff_ffff_ffff_ffffu64 >> o)) | (v >> sub(e, 64))),
        q == ((y & !(0xffff_ffff_ffff_ffffu64 << sub(128, e))) | (v << sub(128, e)));
}
/// an element depends on its own bits only
pub proof fn lem_ext1_mask(x: u64, y: u64, o: u64, w: u64)
    requires 1 <= w <= 64, o < 64, o + w <= 64, (x & rmask(o, add(o, w))) == (y & rmask(o, add(o, w)))
    ensures ext1(x, o, w) == ext1(y, o, w)
{
    let e = add(o, w);
    let m = (0xffff_ffff_ffff_ffffu64 >> o) & (0xffff_ffff_ffff_ffffu64 << sub(64, e));
    assert(((x >> sub(64, e)) & (0xffff_ffff_ffff_ffffu64 >> sub(64, w))) == ((y >> sub(64, e)) & (0xffff_ffff_ffff_ffffu64 >> sub(64, w))))
    by (bit_vector) requires 1 <= w <= 64, o < 64, o + w <= 64, e == add(o, w), m == (0xffff_ffff_ffff_ffffu64 >> o) & (0xffff_ffff_ffff_ffffu64 << sub(64, e)), (x & m) == (y & m);
}
pub proof fn lem_ext2_mask(x: u64, y: u64, x2: u64, y2: u64, o: u64, w: u64)
    requires 1 <= w <= 64, o < 64, o + w > 64, (x & rmask(o, 64)) == (x2 & rmask(o, 64)),
        (y & rmask(0, sub(add(o, w), 64))) == (y2 & rmask(0, sub(add(o, w), 64)))
    ensures ext2(x, y, o, w) == ext2(x2, y2, o, w)
{
    let e = add(o, w);
    let m = (0xffff_ffff_ffff_ffffu64 >> o) & (0xffff_ffff_ffff_ffffu64 << sub(64u64, 64u64));
    let k = (0xffff_ffff_ffff_ffffu64 >> 0u64) & (0xffff_ffff_ffff_ffffu64 << sub(64, sub(e, 64)));
    assert((((x & (0xffff_ffff_ffff_ffffu64 >> o)) << sub(e, 64)) | (y >> sub(128, e))) == (((x2 & (0xffff_ffff_ffff_ffffu64 >> o)) << sub(e, 64)) | (y2 >> sub(128, e))))
    by (bit_vector) requires 1 <= w <= 64, o < 64, o + w > 64, e == add(o, w), m == (0xffff_ffff_ffff_ffffu64 >> o) & (0xffff_ffff_ffff_ffffu64 << sub(64u64, 64u64)),
        k == (0xffff_ffff_ffff_ffffu64 >> 0u64) & (0xffff_ffff_ffff_ffffu64 << sub(64, sub(e, 64))), (x & m) == (x2 & m), (y & k) == (y2 & k);
}
pub proof fn lem_rmask_disj(a: u64, b: u64, c: u64, d: u64)
    requires a <= 64, b <= 64, c <= 64, d <= 64, b <= c || d <= a || a >= b || c >= d
    ensures rmask(a, b) & rmask(c, d) == 0
{
    let p = rmask(a, b); let q = rmask(c, d);
    if a >= b { assert(0u64 & q == 0) by (bit_vector); }
    else if c >= d { assert(p & 0u64 == 0) by (bit_vector); }
    else {
        assert(((0xffff_ffff_ffff_ffffu64 >> a) & (0xffff_ffff_ffff_ffffu64 << sub(64, b))) & ((0xffff_ffff_ffff_ffffu64 >> c) & (0xffff_ffff_ffff_ffffu64 << sub(64, d))) == 0)
        by (bit_vector) requires a < b <= 64, c < d <= 64, b <= c || d <= a;
    }
}
pub proof fn lem_mask_other(x: u64, y: u64, m: u64, k: u64)
    requires (x & !m) == (y & !m), m & k == 0
    ensures (x & k) == (y & k)
{ assert((x & k) == (y & k)) by (bit_vector) requires (x & !m) == (y & !m), m & k == 0; }

pub proof fn lem_pset_other(s: Seq<u64>, t: Seq<u64>, w: int, i: int, v: u64, j: int)
    requires pset(s, t, w, i, v), 1 <= w <= 64, i >= 0, j >= 0, i != j, w * j + w <= 64 * s.len()
    ensures pget(t, w, j) == pget(s, w, j)
{
    let k = (w * j) / 64; let o = (w * j) % 64;
    assert(0 <= w * j) by (nonlinear_arith) requires w >= 1, j >= 0;
    assert(w * j == 64 * k + o && 0 <= o < 64 && k >= 0);
    if j < i { assert(w * j + w <= w * i) by (nonlinear_arith) requires w >= 1, j + 1 <= i; }
    else { assert(w * i + w <= w * j) by (nonlinear_arith) requires w >= 1, i + 1 <= j; }
    let clamp = |a: int| (if a < 0 { 0 } else if a > 64 { 64 } else { a }) as u64;
    let a0 = w * i - 64 * k;
    lem_rmask_disj(clamp(a0), clamp(a0 + w), clamp(o), clamp(o + w));
    lem_mask_other(t[k], s[k], emask(w, i, k), emask(w, j, k));
    if o + w <= 64 {
        lem_ext1_mask(t[k], s[k], o as u64, w as u64);
    } else {
        let a1 = w * i - 64 * (k + 1);
        lem_rmask_disj(clamp(a1), clamp(a1 + w), clamp(o - 64), clamp(o + w - 64));
        lem_mask_other(t[k + 1], s[k + 1], emask(w, i, k + 1), emask(w, j, k + 1));
        lem_ext2_mask(t[k], t[k + 1], s[k], s[k + 1], o as u64, w as u64);
    }
}
/// what a store computes, as one fact
pub proof fn lem_pset1(s: Seq<u64>, t: Seq<u64>, w: int, i: int, v: u64, m1: u64, m2: u64)
    requires 1 <= w <= 64, i >= 0, w * i + w <= 64 * s.len(), (w * i) % 64 + w <= 64, fits(v, w),
        m1 == 0xffff_ffff_ffff_ffffu64 >> (((w * i) % 64) as u64),
        m2 == (if (w * i) % 64 + w == 64 { 0 } else { 0xffff_ffff_ffff_ffffu64 >> sub(64, sub(64, add(((w * i) % 64) as u64, w as u64))) }),
        t == s.update((w * i) / 64, (s[(w * i) / 64] & !(m1 & !m2)) | (v << sub(64, add(((w * i) % 64) as u64, w as u64)))),
    ensures pset(s, t, w, i, v)
{
    let k = (w * i) / 64; let o = (w * i) % 64;
    assert(0 <= w * i) by (nonlinear_arith) requires w >= 1, i >= 0;
    lem_fits(v, w as u64);
    lem_set1(s[k], o as u64, w as u64, v, m1, m2, t[k]);
    assert forall|q: int| 0 <= q < s.len() implies (#[trigger] t[q] & !emask(w, i, q)) == (s[q] & !emask(w, i, q)) by {
        if q == k { } else { }
    }
}
pub proof fn lem_pset2(s: Seq<u64>, t: Seq<u64>, w: int, i: int, v: u64)
    requires 1 <= w <= 64, i >= 0, w * i + w <= 64 * s.len(), (w * i) % 64 + w > 64, fits(v, w),
        ({ let k = (w * i) / 64; let e = add(((w * i) % 64) as u64, w as u64);
           t == s.update(k, (s[k] & !(0xffff_ffff_ffff_ffffu64 >> (((w * i) % 64) as u64))) | (v >> sub(e, 64)))
             .update(k + 1, (s[k + 1] & !(0xffff_ffff_ffff_ffffu64 << sub(128, e))) | (v << sub(128, e))) }),
    ensures pset(s, t, w, i, v)
{
    let k = (w * i) / 64; let o = (w * i) % 64;
    assert(0 <= w * i) by (nonlinear_arith) requires w >= 1, i >= 0;
    lem_fits(v, w as u64);
    lem_set2(s[k], s[k + 1], o as u64, w as u64, v, t[k], t[k + 1]);
    assert forall|q: int| 0 <= q < s.len() implies (#[trigger] t[q] & !emask(w, i, q)) == (s[q] & !emask(w, i, q)) by { }
}

// ---- the class
pub open spec fn pa_arr(m: MemV, p: PtrV) -> int { o_PackedArray(m, p.o).arr.o }
pub open spec fn pa_w(m: MemV, p: PtrV) -> int { o_PackedArray(m, p.o).integer_bits as int }
pub open spec fn pa_len(m: MemV, p: PtrV) -> int { o_PackedArray(m, p.o).length as int }
pub open spec fn pa_ok(m: MemV, p: PtrV) -> bool {
    let a = o_PackedArray(m, p.o);
    &&& is_PackedArray(m, p)
    &&& live(m, a.arr, 0) && m.h[a.arr.o] is U64
    &&& 1 <= a.integer_bits <= 64
    &&& a.integer_bits * a.length < 0x8000_0000_0000_0000
    &&& a.integer_bits * a.length <= 64 * u64s(m, a.arr.o).len()
}
pub open spec fn pa_get(m: MemV, p: PtrV, i: int) -> u64 { pget(u64s(m, pa_arr(m, p)), pa_w(m, p), i) }
pub open spec fn pa_fp(m: MemV, p: PtrV) -> Set<int> { set![p.o, pa_arr(m, p)] }
pub proof fn lem_idx(w: int, i: int, len: int)
    requires 1 <= w <= 64, 0 <= i < len
    ensures 0 <= w * i, w * i + w <= w * len
{
    assert(0 <= w * i) by (nonlinear_arith) requires w >= 1, i >= 0;
    assert(w * i + w <= w * len) by (nonlinear_arith) requires w >= 1, i + 1 <= len;
}
