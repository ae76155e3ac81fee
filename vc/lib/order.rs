// uses: naming short isa
// From the order of the names of the shortened string to the order of the suffixes of the text.
/// an equal start does not matter
pub proof fn lem_lift(t: Seq<u8>, x: int, y: int, m: int)
    requires 0 <= m, 0 <= x, 0 <= y, x + m <= t.len(), y + m <= t.len(), forall|l: int| 0 <= l < m ==> t[x + l] == #[trigger] t[y + l], slt(t, x + m, y + m)
    ensures slt(t, x, y)
{
    let k = choose|k: int| #[trigger] slt_at(t, x + m, y + m, k);
    assert forall|l: int| 0 <= l < k + m implies t[x + l] == #[trigger] t[y + l] by { if l >= m { assert(t[x + m + (l - m)] == t[y + m + (l - m)]); } }
    assert(slt_at(t, x, y, k + m));
}
/// of two suffixes that start with the same byte, an L one precedes an S one
pub proof fn lem_l_before_s(t: Seq<u8>, x: int, y: int)
    requires 0 <= x < t.len(), 0 <= y < t.len(), t[x] == t[y], !is_s(t, x), is_s(t, y)
    ensures slt(t, x, y)
    decreases t.len() - x
{
    // y: S, so y + 1 < n
    if x == t.len() - 1 { assert(slt_at(t, x, y, 1)); }
    else if t[x + 1] != t[y + 1] {
        assert(t[x + 1] <= t[x] && t[y + 1] >= t[y]);
        assert(slt_at(t, x, y, 1));
    } else {
        assert(t[x + 1] == t[x]);
        lem_l_before_s(t, x + 1, y + 1);
        lem_lift(t, x, y, 1);
    }
}
/// between an S* position and the next one: S up to some point, L after it
pub proof fn lem_run(t: Seq<u8>, x: int, a: int, b: int)
    requires 0 <= x < t.len(), is_s(t, x), x <= a <= b < nxt(t, x + 1), is_s(t, b)
    ensures is_s(t, a), t[a] <= t[b]
    decreases b - a
{
    lem_nxt(t, x + 1);
    if a < b {
        lem_run_step(t, x, b);
        lem_run(t, x, a, b - 1);
    }
}
proof fn lem_run_step(t: Seq<u8>, x: int, b: int)
    requires 0 <= x < b, b < nxt(t, x + 1), is_s(t, b), b < t.len()
    ensures is_s(t, b - 1), t[b - 1] <= t[b]
{ lem_nxt_none(t, x + 1, b); }
/// no S* position in front of the next one
pub proof fn lem_nxt_none(t: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j < nxt(t, i)
    ensures !lms(t, j), nxt(t, j) == nxt(t, i), j < t.len()
    decreases j - i
{ if i <= t.len() { lem_nxt(t, i); } if i < j { lem_nxt_none(t, i + 1, j); } }
pub proof fn lem_nxt_is(t: Seq<u8>, i: int)
    requires 0 <= i <= t.len()
    ensures nxt(t, i) < t.len() ==> lms(t, nxt(t, i)), i <= nxt(t, i) <= t.len(), t.len() >= 1 ==> lms(t, t.len() as int)
    decreases t.len() - i
{ if i < t.len() && !lms(t, i) { lem_nxt_is(t, i + 1); } if t.len() >= 1 { assert(!is_s(t, t.len() - 1)); } }
/// L with the smallest byte: nothing but zeros follows
pub proof fn lem_zeros(t: Seq<u8>, z: int)
    requires 0 <= z < t.len(), !is_s(t, z), t[z] == 0
    ensures nxt(t, z + 1) == t.len()
    decreases t.len() - z
{
    if z < t.len() - 1 { assert(t[z + 1] == 0 && !is_s(t, z + 1)); lem_zeros(t, z + 1); assert(!lms(t, z + 1)); }
}
/// bytes of a substring
pub proof fn lem_lsub(t: Seq<u8>, x: int)
    requires 0 <= x < t.len()
    ensures x + 1 <= nxt(t, x + 1) <= t.len(), lsub(t, x).len() == nxt(t, x + 1) - x + 1, lsub(t, x)[nxt(t, x + 1) - x] == t.push(0)[nxt(t, x + 1)],
        forall|l: int| 0 <= l < nxt(t, x + 1) - x ==> #[trigger] lsub(t, x)[l] == t[x + l],
{ lem_nxt(t, x + 1); }
/// the substring of y is a proper prefix of that of x: x comes first
proof fn lem_prefix(t: Seq<u8>, x: int, y: int, m: int)
    requires 0 < x < t.len(), 0 < y < t.len(), lms(t, x), lms(t, y), m == nxt(t, y + 1) - y, m < nxt(t, x + 1) - x,
        forall|l: int| 0 <= l < m ==> t[x + l] == #[trigger] t[y + l], t[x + m] == t.push(0)[y + m]
    ensures slt(t, x, y)
{
    let n = t.len() as int;
    lem_nxt_is(t, x + 1); lem_nxt_is(t, y + 1);
    lem_nxt_none(t, x + 1, x + m);
    assert(t[x + (m - 1)] == t[y + (m - 1)]);
    if y + m < n {
        assert(lms(t, y + m));
        assert(!is_s(t, y + m - 1) && t[y + m - 1] > t[y + m]);
        assert(!is_s(t, x + m - 1));
        assert(!is_s(t, x + m));
        lem_l_before_s(t, x + m, y + m);
        lem_lift(t, x, y, m);
    } else {
        assert(t[x + m] == 0);
        if is_s(t, x + m) {
            // all of x..x+m is S, hence zeros: so are y..n-1
            assert forall|l: int| 0 <= l < m implies #[trigger] t[y + l] == 0 by { lem_run(t, x, x + l, x + m); assert(t[x + l] == t[y + l]); }
            assert forall|z: int| y <= z < n implies #[trigger] t[z] == 0 by { assert(t[y + (z - y)] == 0); }
            lem_all_zero(t, y);
            assert(false);
        } else {
            lem_zeros(t, x + m);
            lem_nxt_none(t, x + 1, x + m); 
            if x + m + 1 <= n { if nxt(t, x + 1) > x + m + 1 { lem_nxt_none(t, x + 1, x + m + 1); } else { assert(nxt(t, x + 1) == x + m + 1); assert(lms(t, x + m + 1) || x + m + 1 == n); } }
            if x + m + 1 < n && lms(t, x + m + 1) { assert(false); }
            assert(nxt(t, x + 1) == n);
            if x < y { lem_nxt_none(t, x + 1, y); assert(false); } else if y < x { lem_nxt_none(t, y + 1, x); assert(false); }
        }
    }
}
proof fn lem_all_zero(t: Seq<u8>, y: int)
    requires 0 <= y < t.len(), forall|z: int| y <= z < t.len() ==> #[trigger] t[z] == 0
    ensures !is_s(t, y)
    decreases t.len() - y
{ if y < t.len() - 1 { lem_all_zero(t, y + 1); } }
/// substrings in their order begin suffixes in their order
pub proof fn lem_sub_order(t: Seq<u8>, x: int, y: int)
    requires 0 < x < t.len(), 0 < y < t.len(), lms(t, x), lms(t, y), lms_lt(lsub(t, x), lsub(t, y))
    ensures slt(t, x, y)
{
    let n = t.len() as int; let a = lsub(t, x); let b = lsub(t, y);
    lem_lsub(t, x); lem_lsub(t, y);
    let k = choose|k: int| #[trigger] lms_at(a, b, k);
    assert forall|l: int| 0 <= l < k && l < b.len() - 1 implies t[x + l] == #[trigger] t[y + l] by { assert(a[l] == b[l]); }
    if k == b.len() {
        assert(a[k - 1] == b[k - 1]);
        lem_prefix(t, x, y, k - 1);
    } else {
        if x + k == n { assert(a[k] == 0); assert(y + k < n); assert(slt_at(t, x, y, k)); }
        else {
            assert(a[k] == t[x + k]) by { if k == a.len() - 1 { assert(a[k] == t.push(0)[x + k]); } }
            assert(y + k < n);
            assert(b[k] == t[y + k]) by { if k == b.len() - 1 { assert(b[k] == t.push(0)[y + k]); } }
            assert(slt_at(t, x, y, k));
        }
    }
}
/// equal substrings: the suffixes behind them decide
pub proof fn lem_sub_equal(t: Seq<u8>, x: int, y: int)
    requires 0 < x < t.len(), 0 < y < t.len(), lms(t, x), lms(t, y), lsub(t, x) == lsub(t, y), slt(t, nxt(t, x + 1), nxt(t, y + 1))
    ensures slt(t, x, y)
{
    lem_lsub(t, x); lem_lsub(t, y);
    let m = nxt(t, x + 1) - x;
    assert(m == nxt(t, y + 1) - y);
    assert forall|l: int| 0 <= l < m implies t[x + l] == #[trigger] t[y + l] by { assert(lsub(t, x)[l] == t[x + l]); assert(lsub(t, y)[l] == t[y + l]); }
    lem_lift(t, x, y, m);
}
/// S* position number j in text order; the end of the string is the last one
pub open spec fn lpos(t: Seq<u8>, j: int) -> int decreases j { if j <= 0 { nxt(t, 0) } else { nxt(t, lpos(t, j - 1) + 1) } }
pub proof fn lem_num_nxt(t: Seq<u8>, i: int)
    requires 0 <= i <= t.len()
    ensures num(t, 3, 0, i) == num(t, 3, 0, nxt(t, i)), num(t, 3, 0, i) == 0 <==> nxt(t, i) == t.len()
    decreases t.len() - i
{ if i < t.len() { lem_num(t, 3, 0, i + 1); if !lms(t, i) { lem_num_nxt(t, i + 1); } } }
pub proof fn lem_lpos(t: Seq<u8>, j: int)
    requires 0 <= j <= num(t, 3, 0, 0), t.len() >= 1
    ensures 0 < lpos(t, j) <= t.len(), lms(t, lpos(t, j)), num(t, 3, 0, lpos(t, j)) == num(t, 3, 0, 0) - j, lpos(t, j) == t.len() <==> j == num(t, 3, 0, 0),
        j < num(t, 3, 0, 0) ==> place(t, lpos(t, j)) == j + 1 && lpos(t, j) < lpos(t, j + 1) && lpos(t, j + 1) == nxt(t, lpos(t, j) + 1)
    decreases j
{
    let n = t.len() as int;
    if j == 0 { lem_num_nxt(t, 0); lem_nxt_is(t, 0); }
    else { lem_lpos(t, j - 1); let i = lpos(t, j - 1) + 1; lem_num_nxt(t, i); lem_nxt_is(t, i); }
    if lpos(t, j) < n { lem_num_nxt(t, lpos(t, j)); lem_nxt(t, lpos(t, j) + 1); }
}
/// the shortened string behind its first entry
pub open spec fn short_str(t: Seq<u8>, tb: Tb, s: Seq<int>) -> bool {
    let u = num(t, 3, 0, 0);
    &&& s.len() == u + 1 && s[u] == 0
    &&& forall|j: int| 0 <= j < u ==> #[trigger] s[j] == namef(tb, lsub(t, lpos(t, j)))
}
/// names increase with the strings, and only equal strings have equal names
pub open spec fn name_order(t: Seq<u8>, tb: Tb) -> bool {
    &&& forall|x: Seq<u8>| #[trigger] occ(t, x, 0) ==> namef(tb, x) >= 1
    &&& forall|x: Seq<u8>, y: Seq<u8>| #[trigger] occ(t, x, 0) && #[trigger] occ(t, y, 0) && namef(tb, x) == namef(tb, y) ==> x == y
    &&& forall|x: Seq<u8>, y: Seq<u8>| #[trigger] occ(t, x, 0) && #[trigger] occ(t, y, 0) && namef(tb, x) < namef(tb, y) ==> lms_lt(x, y)
}
pub proof fn lem_name_order(t: Seq<u8>, tb: Tb, ss: Seq<PtrV>, bo: int)
    requires listed(tb, ss, bo, dst(t, 0)), ordered(tb, ss, dst(t, 0)), forall|i: int| 1 <= i <= dst(t, 0) ==> #[trigger] named_at(tb, ss, i), forall|x: Seq<u8>| #![trigger holds(tb, x)] holds(tb, x) <==> occ(t, x, 0)
    ensures name_order(t, tb)
{
    let u = dst(t, 0);
    assert forall|x: Seq<u8>| #[trigger] occ(t, x, 0) implies 1 <= namef(tb, x) <= u && strk(tb, ss, namef(tb, x)) == x by {
        assert(holds(tb, x)); let i = choose|i: int| 1 <= i <= u && #[trigger] strk(tb, ss, i) == x; assert(named_at(tb, ss, i)); }
    assert forall|x: Seq<u8>, y: Seq<u8>| #[trigger] occ(t, x, 0) && #[trigger] occ(t, y, 0) && namef(tb, x) < namef(tb, y) implies lms_lt(x, y) by {
        assert(lms_lt(strk(tb, ss, namef(tb, x)), strk(tb, ss, namef(tb, y)))); }
}
/// the order of the shortened string's suffixes is the order of the text's S* suffixes
pub proof fn lem_reduce_at(t: Seq<u8>, tb: Tb, s: Seq<int>, a: int, b: int, k: int)
    requires t.len() >= 1, short_str(t, tb, s), name_order(t, tb), 0 <= a < s.len(), 0 <= b < s.len(), a != b, ilt_at(s, a, b, k)
    ensures slt(t, lpos(t, a), lpos(t, b))
    decreases k
{
    let u = num(t, 3, 0, 0); let x = lpos(t, a); let y = lpos(t, b); let n = t.len() as int;
    lem_lpos(t, a); lem_lpos(t, b);
    if a < u { lem_occ(t, lsub(t, x), 0); assert(occ(t, lsub(t, x), 0)); }
    if b < u { lem_occ(t, lsub(t, y), 0); assert(occ(t, lsub(t, y), 0)); }
    if k == 0 {
        assert(b < u);
        if a == u { assert(slt_at(t, x, y, 0)); } else { lem_sub_order(t, x, y); }
    } else {
        assert(s[a + 0] == s[b + 0]);
        assert(a < u && b < u);
        assert forall|l: int| 0 <= l < k - 1 implies s[a + 1 + l] == #[trigger] s[b + 1 + l] by { assert(s[a + (l + 1)] == s[b + (l + 1)]); }
        assert(a + 1 < s.len()) ;
        assert(ilt_at(s, a + 1, b + 1, k - 1));
        lem_reduce_at(t, tb, s, a + 1, b + 1, k - 1);
        lem_sub_equal(t, x, y);
    }
}
pub proof fn lem_reduce(t: Seq<u8>, tb: Tb, s: Seq<int>, a: int, b: int)
    requires t.len() >= 1, short_str(t, tb, s), name_order(t, tb), 0 <= a < s.len(), 0 <= b < s.len(), ilt(s, a, b)
    ensures slt(t, lpos(t, a), lpos(t, b))
{ let k = choose|k: int| #[trigger] ilt_at(s, a, b, k); if a == b { assert(s[a + k] == s[b + k]); } lem_reduce_at(t, tb, s, a, b, k); }
/// the S* positions in the order of their suffixes
pub open spec fn lms_sorted(t: Seq<u8>, xs: Seq<int>) -> bool {
    &&& xs.len() == num(t, 3, 0, 0) + 1
    &&& forall|i: int| 0 <= i < xs.len() ==> lms(t, #[trigger] xs[i])
    &&& forall|i: int, j: int| 0 <= i < j < xs.len() ==> slt(t, #[trigger] xs[i], #[trigger] xs[j])
}
pub proof fn lem_lms_sorted(t: Seq<u8>, tb: Tb, s: Seq<int>, a: Seq<int>)
    requires t.len() >= 1, short_str(t, tb, s), name_order(t, tb), is_sa(s, a)
    ensures lms_sorted(t, Seq::new(a.len(), |i: int| lpos(t, a[i])))
{
    let xs = Seq::new(a.len(), |i: int| lpos(t, a[i]));
    assert forall|i: int| 0 <= i < xs.len() implies lms(t, #[trigger] xs[i]) by { assert(0 <= a[i] < s.len()); lem_lpos(t, a[i]); }
    assert forall|i: int, j: int| 0 <= i < j < xs.len() implies slt(t, #[trigger] xs[i], #[trigger] xs[j]) by { assert(ilt(s, a[i], a[j])); lem_reduce(t, tb, s, a[i], a[j]); }
}
