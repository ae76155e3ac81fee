// uses: sord
// The two passes of induced sorting over one array, in place, with complemented entries.
pub open spec fn tld(v: int) -> int { -v - 1 }
/// the LMS positions have their own cells, in the S part of their buckets
pub open spec fn pl_ok(g: Ig) -> bool { ig_ok(g) && forall|j: int| #![trigger lmk(g, j)] 0 <= j < g.s.len() && lmk(g, j) ==> bkl(g.s, g.s[j]) <= g.key[j] < bks(g.s, g.s[j] + 1) }
pub open spec fn isl(g: Ig, j: int) -> bool { 0 <= j < g.s.len() && !ss(g.s, j) }
pub open spec fn iss(g: Ig, j: int) -> bool { 0 <= j < g.s.len() && ss(g.s, j) }
pub open spec fn enc1(g: Ig, j: int) -> int { if 0 < j && g.s[j - 1] < g.s[j] { -j - 1 } else { j } }
pub open spec fn enc2(g: Ig, j: int) -> int { if j == 0 || g.s[j - 1] > g.s[j] { -j - 1 } else { j } }
/// when the predecessor's turn comes
pub open spec fn c1(g: Ig, j: int) -> int { if lmk(g, j + 1) { g.key[j + 1] } else { rk(g, j + 1) } }
pub open spec fn kcell(g: Ig, x: int) -> bool { exists|j: int| #[trigger] kc(g, j, x) }
pub open spec fn kc(g: Ig, j: int, x: int) -> bool { 0 <= j < g.s.len() && lmk(g, j) && g.key[j] == x }
pub open spec fn lcell(g: Ig, x: int) -> bool { isl(g, atr(g, x)) }
pub open spec fn chars(s: Seq<int>, k: int) -> bool { forall|x: int| 0 <= x < s.len() ==> 0 <= #[trigger] s[x] < k }
pub open spec fn bnd(a: Seq<int>, n: int) -> bool { a.len() == n && forall|x: int| 0 <= x < n ==> -n <= #[trigger] a[x] < n }
pub open spec fn a1(g: Ig, f: int, i: int, a: Seq<int>) -> bool {
    &&& bnd(a, g.s.len() as int)
    &&& forall|j: int| #![trigger isl(g, j)] isl(g, j) && c1(g, j) < i ==> a[rk(g, j)] == (if rk(g, j) < f { tld(enc1(g, j)) } else { enc1(g, j) })
    &&& forall|j: int| #![trigger lmk(g, j)] 0 <= j < g.s.len() && lmk(g, j) ==> a[g.key[j]] == (if g.key[j] < f { tld(j) } else { j })
    &&& forall|x: int| f <= x < a.len() && #[trigger] a[x] > 0 ==> lcell(g, x) || kcell(g, x)
}
pub open spec fn e1(g: Ig, i: int, e: Seq<int>) -> bool {
    &&& chars(g.s, e.len() as int)
    &&& forall|c: int| 0 <= c < e.len() ==> bks(g.s, c) <= #[trigger] e[c] <= bkl(g.s, c)
    &&& forall|j: int| #![trigger isl(g, j)] isl(g, j) ==> (c1(g, j) < i <==> rk(g, j) < e[g.s[j]])
}
#[verifier::opaque]
pub open spec fn w1(g: Ig, f: int, i: int, a: Seq<int>, e: Seq<int>) -> bool { pl_ok(g) && 0 <= f <= g.s.len() && a1(g, f, i, a) && e1(g, i, e) }
// ---- order facts
proof fn lem_run_l(g: Ig, j: int)
    requires ig_ok(g), 0 <= j, j + 1 < g.s.len(), !ss(g.s, j), g.s[j + 1] == g.s[j]
    ensures lt(g, j + 1, j), !ss(g.s, j + 1)
    decreases g.s.len() - j
{
    let n = g.s.len() as int;
    if j + 2 < n { if g.s[j + 2] == g.s[j + 1] { lem_run_l(g, j + 1); } }
    assert(!lmk(g, j + 1)); assert(ss(g.s, j) == ss(g.s, j + 1)); assert(lt(g, j + 2, j + 1));
}
pub proof fn lem_run_s(g: Ig, j: int)
    requires ig_ok(g), 0 <= j < g.s.len(), ss(g.s, j)
    ensures j + 1 < g.s.len(), rk(g, j) < rk(g, j + 1)
{ lem_run_s1(g, j); lem_rk_lt(g, j, j + 1); }
proof fn lem_run_s1(g: Ig, j: int)
    requires ig_ok(g), 0 <= j < g.s.len(), ss(g.s, j)
    ensures j + 1 < g.s.len(), lt(g, j, j + 1)
    decreases g.s.len() - j
{ if g.s[j] == g.s[j + 1] { lem_run_s1(g, j + 1); assert(!lmk(g, j + 1)); } }
/// LMS cells and L cells differ
proof fn lem_off(g: Ig, m: int, j: int)
    requires pl_ok(g), 0 <= m < g.s.len(), lmk(g, m), isl(g, j)
    ensures g.key[m] != rk(g, j), g.s[j] <= g.s[m] ==> rk(g, j) < g.key[m], g.s[m] < g.s[j] ==> g.key[m] < rk(g, j), 0 <= g.key[m] < g.s.len()
{
    lem_rk_in(g, j); let a = g.s[m]; let b = g.s[j];
    lem_bk_mono(g.s, a, a + 1);
    if a < b { if a + 1 < b { lem_bk_mono(g.s, a + 1, b); } } else if b < a { if b + 1 < a { lem_bk_mono(g.s, b + 1, a); } }
}
proof fn lem_succ_l(g: Ig, j: int)
    requires ig_ok(g), isl(g, j)
    ensures j + 1 < g.s.len() ==> (isl(g, j + 1) <==> !lmk(g, j + 1)), j + 1 == g.s.len() ==> lmk(g, j + 1), j + 1 < g.s.len() ==> g.s[j + 1] <= g.s[j]
{ }
/// L positions are taken in the order of their successors' turns
pub proof fn lem_c1(g: Ig, j: int, k: int)
    requires pl_ok(g), isl(g, j), isl(g, k), j != k
    ensures et(g, j + 1, k + 1) <==> c1(g, j) < c1(g, k), c1(g, j) != c1(g, k)
{
    let n = g.s.len() as int; let a = j + 1; let b = k + 1;
    lem_succ_l(g, j); lem_succ_l(g, k);
    if lmk(g, a) && lmk(g, b) { if a < n && b < n { assert(g.key[a] != g.key[b]); } }
    else if !lmk(g, a) && !lmk(g, b) { lem_rk_lt(g, a, b); }
    else if lmk(g, a) { lem_rk(g, b); if a < n { lem_off(g, a, b); } }
    else { lem_rk(g, a); if b < n { lem_off(g, b, a); } }
}
pub proof fn lem_c1_less(g: Ig, j: int)
    requires pl_ok(g), isl(g, j)
    ensures c1(g, j) < rk(g, j), -1 <= c1(g, j) < g.s.len(), c1(g, j) == -1 <==> j + 1 == g.s.len()
{
    let n = g.s.len() as int; lem_rk(g, j); lem_succ_l(g, j);
    if j + 1 < n {
        if lmk(g, j + 1) { lem_off(g, j + 1, j); }
        else { lem_rk(g, j + 1); if g.s[j + 1] == g.s[j] { lem_run_l(g, j); } lem_rk_lt(g, j + 1, j); }
    }
}
// ---- pass 1
pub proof fn lem_wstart1(g: Ig, a: Seq<int>, e: Seq<int>)
    requires pl_ok(g), a.len() == g.s.len(), chars(g.s, e.len() as int), forall|c: int| 0 <= c < e.len() ==> #[trigger] e[c] == bks(g.s, c),
        forall|j: int| #![trigger lmk(g, j)] 0 <= j < g.s.len() && lmk(g, j) ==> a[g.key[j]] == j, forall|x: int| 0 <= x < a.len() && #[trigger] a[x] != 0 ==> kcell(g, x)
    ensures w1(g, 0, -1, a, e), c1(g, g.s.len() - 1) == -1, isl(g, g.s.len() - 1)
{
    let n = g.s.len() as int;
    assert forall|j: int| #![trigger isl(g, j)] isl(g, j) implies c1(g, j) >= -1 && rk(g, j) >= e[g.s[j]] by { lem_c1_less(g, j); lem_rk_in(g, j); }
    assert forall|j: int| #![trigger lmk(g, j)] 0 <= j < n && lmk(g, j) implies g.key[j] >= 0 by { }
    assert forall|c: int| 0 <= c < e.len() implies bks(g.s, c) <= #[trigger] e[c] <= bkl(g.s, c) by { lem_bk_mono(g.s, c, c + 1); }
    assert forall|x: int| 0 <= x < n implies -n <= #[trigger] a[x] < n by { if a[x] != 0 { let j = choose|j: int| kc(g, j, x); assert(lmk(g, j)); assert(a[g.key[j]] == j); } }
    assert(isl(g, n - 1)); lem_c1_less(g, n - 1);
    reveal(w1);
}
/// the cell that is read: the next L position, if any
pub proof fn lem_whead1(g: Ig, i: int, a: Seq<int>, e: Seq<int>) -> (j: int)
    requires w1(g, i, i, a, e), 0 <= i < g.s.len()
    ensures -g.s.len() <= a[i] < g.s.len(), j == a[i] - 1, a[i] > 0 ==> isl(g, j) && c1(g, j) == i, a[i] <= 0 ==> forall|k: int| #![trigger isl(g, k)] isl(g, k) ==> c1(g, k) != i
{
    reveal(w1);
    let n = g.s.len() as int; let v = a[i]; let j = v - 1;
    lem_at(g, i); let y = atr(g, i);
    if v > 0 {
        if lcell(g, i) { lem_c1_less(g, y); assert(isl(g, y)); assert(v == enc1(g, y)); assert(v == y); assert(!ss(g.s, y - 1)); assert(isl(g, j)); assert(!lmk(g, y)); }
        else { let m = choose|m: int| kc(g, m, i); assert(lmk(g, m)); assert(a[g.key[m]] == m); assert(isl(g, j)); }
    } else {
        assert forall|k: int| #![trigger isl(g, k)] isl(g, k) implies c1(g, k) != i by {
            lem_succ_l(g, k); lem_c1_less(g, k);
            if c1(g, k) == i {
                if lmk(g, k + 1) { assert(a[g.key[k + 1]] == k + 1); }
                else { assert(isl(g, k + 1)); lem_c1_less(g, k + 1); assert(a[i] == enc1(g, k + 1)); }
            }
        }
    }
    j
}
/// the cell that was read is complemented
pub proof fn lem_wflip1(g: Ig, i: int, a: Seq<int>, e: Seq<int>)
    requires w1(g, i, i, a, e), 0 <= i < g.s.len()
    ensures w1(g, i + 1, i, a.update(i, tld(a[i])), e)
{
    reveal(w1);
    let n = g.s.len() as int; let b = a.update(i, tld(a[i]));
    assert forall|j: int| #![trigger isl(g, j)] isl(g, j) && c1(g, j) < i implies b[rk(g, j)] == (if rk(g, j) < i + 1 { tld(enc1(g, j)) } else { enc1(g, j) }) by { lem_rk(g, j); assert(a[rk(g, j)] == (if rk(g, j) < i { tld(enc1(g, j)) } else { enc1(g, j) })); }
    assert forall|j: int| #![trigger lmk(g, j)] 0 <= j < n && lmk(g, j) implies b[g.key[j]] == (if g.key[j] < i + 1 { tld(j) } else { j }) by { lem_off(g, j, n - 1); assert(a[g.key[j]] == (if g.key[j] < i { tld(j) } else { j })); }
    assert forall|x: int| i + 1 <= x < b.len() && #[trigger] b[x] > 0 implies lcell(g, x) || kcell(g, x) by { assert(a[x] == b[x]); }
    assert forall|x: int| 0 <= x < n implies -n <= #[trigger] b[x] < n by { assert(-n <= a[x] < n); }
}
/// where the next L position goes
pub proof fn lem_wslot1(g: Ig, f: int, i: int, a: Seq<int>, e: Seq<int>, j: int)
    requires w1(g, f, i, a, e), isl(g, j), c1(g, j) == i
    ensures 0 <= g.s[j] < e.len(), e[g.s[j]] == rk(g, j), i < rk(g, j) < g.s.len(), e[g.s[j]] + 1 <= bkl(g.s, g.s[j])
{
    reveal(w1);
    lem_rk_in(g, j); lem_c1_less(g, j); let c = g.s[j];
    assert(bks(g.s, c) <= e[c] <= bkl(g.s, c));
    if e[c] < rk(g, j) {
        lem_at_in(g, e[c], c); let k = atr(g, e[c]);
        lem_rk_succ(g, k, j); lem_c1(g, k, j); assert(isl(g, k));
    }
}
pub proof fn lem_wput1(g: Ig, f: int, i: int, a: Seq<int>, e: Seq<int>, j: int)
    requires w1(g, f, i, a, e), isl(g, j), c1(g, j) == i, f <= i + 1
    ensures w1(g, f, i + 1, a.update(rk(g, j), enc1(g, j)), e.update(g.s[j], e[g.s[j]] + 1))
{
    lem_wslot1(g, f, i, a, e, j);
    reveal(w1);
    let n = g.s.len() as int; let r = rk(g, j); let b = a.update(r, enc1(g, j)); let c = g.s[j]; let d = e.update(c, e[c] + 1);
    assert forall|k: int| #![trigger isl(g, k)] isl(g, k) && c1(g, k) < i + 1 implies b[rk(g, k)] == (if rk(g, k) < f { tld(enc1(g, k)) } else { enc1(g, k) }) by {
        lem_rk(g, k); lem_rk_lt(g, k, j); if k != j { lem_c1(g, k, j); } }
    assert forall|k: int| #![trigger lmk(g, k)] 0 <= k < n && lmk(g, k) implies b[g.key[k]] == (if g.key[k] < f { tld(k) } else { k }) by { lem_off(g, k, j); assert(a[g.key[k]] == (if g.key[k] < f { tld(k) } else { k })); }
    assert forall|x: int| f <= x < b.len() && #[trigger] b[x] > 0 implies lcell(g, x) || kcell(g, x) by { if x == r { lem_at_rk(g, j); } else { assert(a[x] == b[x]); } }
    assert forall|x: int| 0 <= x < n implies -n <= #[trigger] b[x] < n by { assert(-n <= a[x] < n); }
    assert forall|q: int| 0 <= q < d.len() implies bks(g.s, q) <= #[trigger] d[q] <= bkl(g.s, q) by { assert(bks(g.s, q) <= e[q] <= bkl(g.s, q)); }
    assert forall|k: int| #![trigger isl(g, k)] isl(g, k) implies (c1(g, k) < i + 1 <==> rk(g, k) < d[g.s[k]]) by { lem_rk_lt(g, k, j); if k != j { lem_c1(g, k, j); } }
}
pub proof fn lem_wskip1(g: Ig, f: int, i: int, a: Seq<int>, e: Seq<int>)
    requires w1(g, f, i, a, e), forall|k: int| #![trigger isl(g, k)] isl(g, k) ==> c1(g, k) != i
    ensures w1(g, f, i + 1, a, e)
{ reveal(w1); }
// ---- pass 2
pub open spec fn fl(g: Ig, j: int) -> int { if j > 0 && ss(g.s, j - 1) { j } else { -j - 1 } }
pub open spec fn a2(g: Ig, f: int, i: int, a: Seq<int>) -> bool {
    &&& bnd(a, g.s.len() as int)
    &&& forall|j: int| #![trigger isl(g, j)] isl(g, j) ==> a[rk(g, j)] == (if rk(g, j) >= f { j } else { fl(g, j) })
    &&& forall|j: int| #![trigger iss(g, j)] iss(g, j) && rk(g, j + 1) >= i ==> a[rk(g, j)] == (if rk(g, j) >= f { j } else { enc2(g, j) })
}
pub open spec fn e2(g: Ig, i: int, e: Seq<int>) -> bool {
    &&& chars(g.s, e.len() as int)
    &&& forall|c: int| 0 <= c < e.len() ==> bkl(g.s, c) <= #[trigger] e[c] <= bks(g.s, c + 1)
    &&& forall|j: int| #![trigger iss(g, j)] iss(g, j) ==> (rk(g, j + 1) >= i <==> rk(g, j) >= e[g.s[j]])
}
#[verifier::opaque]
pub open spec fn w2(g: Ig, f: int, i: int, a: Seq<int>, e: Seq<int>) -> bool { ig_ok(g) && 0 <= f <= g.s.len() && a2(g, f, i, a) && e2(g, i, e) }
pub proof fn lem_wstart2(g: Ig, a: Seq<int>, e: Seq<int>, d: Seq<int>)
    requires w1(g, g.s.len() as int, g.s.len() as int, a, e), d.len() == e.len(), forall|c: int| 0 <= c < d.len() ==> #[trigger] d[c] == bks(g.s, c + 1)
    ensures w2(g, g.s.len() as int, g.s.len() as int, a, d)
{
    reveal(w1); reveal(w2); let n = g.s.len() as int;
    assert forall|j: int| #![trigger isl(g, j)] isl(g, j) implies a[rk(g, j)] == (if rk(g, j) >= n { j } else { fl(g, j) }) by { lem_c1_less(g, j); lem_rk(g, j); }
    assert forall|j: int| #![trigger iss(g, j)] iss(g, j) implies rk(g, j + 1) < n && rk(g, j) < d[g.s[j]] by { lem_run_s(g, j); lem_rk(g, j + 1); lem_rk_in(g, j); }
    assert forall|c: int| 0 <= c < d.len() implies bkl(g.s, c) <= #[trigger] d[c] <= bks(g.s, c + 1) by { lem_bk_mono(g.s, c, c + 1); }
}
pub proof fn lem_whead2(g: Ig, i: int, a: Seq<int>, e: Seq<int>) -> (j: int)
    requires w2(g, i + 1, i + 1, a, e), 0 <= i < g.s.len()
    ensures -g.s.len() <= a[i] < g.s.len(), j == a[i] - 1, a[i] > 0 ==> iss(g, j) && rk(g, j + 1) == i && w2(g, i, i + 1, a, e),
        a[i] <= 0 ==> w2(g, i, i, a.update(i, tld(a[i])), e)
{
    reveal(w2);
    let n = g.s.len() as int; let v = a[i]; let j = v - 1;
    lem_at(g, i); let y = atr(g, i);
    if ss(g.s, y) { lem_run_s(g, y); assert(iss(g, y)); assert(v == enc2(g, y)); } else { assert(isl(g, y)); assert(v == fl(g, y)); }
    let b = if v > 0 { a } else { a.update(i, tld(v)) };
    assert(b[i] == y);
    assert forall|k: int| #![trigger isl(g, k)] isl(g, k) implies b[rk(g, k)] == (if rk(g, k) >= i { k } else { fl(g, k) }) by { lem_rk(g, k); lem_rk_lt(g, k, y); assert(a[rk(g, k)] == (if rk(g, k) >= i + 1 { k } else { fl(g, k) })); }
    assert forall|k: int| #![trigger iss(g, k)] iss(g, k) && rk(g, k + 1) >= i + 1 implies b[rk(g, k)] == (if rk(g, k) >= i { k } else { enc2(g, k) }) by { lem_rk(g, k); lem_rk_lt(g, k, y); assert(a[rk(g, k)] == (if rk(g, k) >= i + 1 { k } else { enc2(g, k) })); }
    assert forall|x: int| 0 <= x < n implies -n <= #[trigger] b[x] < n by { assert(-n <= a[x] < n); }
    if v > 0 { assert(iss(g, j)); }
    else {
        assert forall|k: int| #![trigger iss(g, k)] iss(g, k) implies rk(g, k + 1) != i by { lem_run_s(g, k); if rk(g, k + 1) == i { lem_rk_lt(g, k + 1, y); } }
    }
    j
}
pub proof fn lem_wslot2(g: Ig, f: int, i: int, a: Seq<int>, e: Seq<int>, j: int)
    requires w2(g, f, i + 1, a, e), iss(g, j), rk(g, j + 1) == i
    ensures 0 <= g.s[j] < e.len(), e[g.s[j]] - 1 == rk(g, j), 0 <= rk(g, j) < i, bkl(g.s, g.s[j]) <= e[g.s[j]] - 1
{
    reveal(w2);
    lem_rk_in(g, j); lem_run_s(g, j); let c = g.s[j];
    assert(bkl(g.s, c) <= e[c] <= bks(g.s, c + 1));
    if e[c] - 1 > rk(g, j) {
        lem_at_in(g, e[c] - 1, c); let k = atr(g, e[c] - 1);
        assert(iss(g, k)); lem_run_s(g, k);
        lem_rk_succ(g, j, k); assert(!lmk(g, j + 1) && !lmk(g, k + 1)); lem_rk_lt(g, j + 1, k + 1);
    }
}
pub proof fn lem_wput2(g: Ig, f: int, i: int, a: Seq<int>, e: Seq<int>, j: int)
    requires w2(g, f, i + 1, a, e), iss(g, j), rk(g, j + 1) == i, f >= i
    ensures w2(g, f, i, a.update(rk(g, j), enc2(g, j)), e.update(g.s[j], e[g.s[j]] - 1))
{
    reveal(w2);
    lem_wslot2(g, f, i, a, e, j); lem_run_s(g, j);
    let n = g.s.len() as int; let r = rk(g, j); let b = a.update(r, enc2(g, j)); let c = g.s[j]; let d = e.update(c, e[c] - 1);
    assert forall|k: int| #![trigger isl(g, k)] isl(g, k) implies b[rk(g, k)] == (if rk(g, k) >= f { k } else { fl(g, k) }) by { lem_rk(g, k); lem_rk_lt(g, k, j); assert(a[rk(g, k)] == (if rk(g, k) >= f { k } else { fl(g, k) })); }
    assert forall|k: int| #![trigger iss(g, k)] iss(g, k) && rk(g, k + 1) >= i implies b[rk(g, k)] == (if rk(g, k) >= f { k } else { enc2(g, k) }) by {
        lem_rk(g, k); lem_rk_lt(g, k, j); if k != j { lem_run_s(g, k); lem_rk_lt(g, k + 1, j + 1); assert(a[rk(g, k)] == (if rk(g, k) >= f { k } else { enc2(g, k) })); } }
    assert forall|x: int| 0 <= x < n implies -n <= #[trigger] b[x] < n by { assert(-n <= a[x] < n); }
    assert forall|q: int| 0 <= q < d.len() implies bkl(g.s, q) <= #[trigger] d[q] <= bks(g.s, q + 1) by { assert(bkl(g.s, q) <= e[q] <= bks(g.s, q + 1)); }
    assert forall|k: int| #![trigger iss(g, k)] iss(g, k) implies (rk(g, k + 1) >= i <==> rk(g, k) >= d[g.s[k]]) by {
        lem_rk_lt(g, k, j); lem_run_s(g, k); lem_rk_lt(g, k + 1, j + 1); assert(rk(g, k + 1) >= i + 1 <==> rk(g, k) >= e[g.s[k]]); }
}
/// sorted: every position stands at its rank
#[verifier::opaque]
pub open spec fn srt(g: Ig, a: Seq<int>) -> bool { ig_ok(g) && a.len() == g.s.len() && (forall|x: int| 0 <= x < a.len() ==> 0 <= #[trigger] a[x] < g.s.len()) && forall|x: int, y: int| 0 <= x < y < a.len() ==> lt(g, #[trigger] a[x], #[trigger] a[y]) }
pub proof fn lem_wdone2(g: Ig, a: Seq<int>, e: Seq<int>)
    requires w2(g, 0, 0, a, e)
    ensures srt(g, a)
{
    reveal(w2); reveal(srt); let n = g.s.len() as int;
    assert forall|x: int| 0 <= x < n implies #[trigger] a[x] == atr(g, x) && 0 <= a[x] < n && rk(g, a[x]) == x by { lem_at(g, x); let y = atr(g, x); if ss(g.s, y) { assert(iss(g, y)); lem_run_s(g, y); lem_rk(g, y + 1); } else { assert(isl(g, y)); } }
    assert forall|x: int, y: int| 0 <= x < y < n implies lt(g, #[trigger] a[x], #[trigger] a[y]) by { assert(rk(g, a[x]) == x && rk(g, a[y]) == y); lem_rk_lt(g, a[x], a[y]); }
}
/// the next free cells stay inside the array
pub proof fn lem_we1(g: Ig, f: int, i: int, a: Seq<int>, e: Seq<int>, c: int)
    requires w1(g, f, i, a, e), 0 <= c < e.len()
    ensures 0 <= e[c] <= g.s.len()
{ reveal(w1); assert(bks(g.s, c) <= e[c] <= bkl(g.s, c)); lem_bk_mono(g.s, c, c + 1); }
pub proof fn lem_we2(g: Ig, f: int, i: int, a: Seq<int>, e: Seq<int>, c: int)
    requires w2(g, f, i, a, e), 0 <= c < e.len()
    ensures 0 <= e[c] <= g.s.len()
{ reveal(w2); assert(bkl(g.s, c) <= e[c] <= bks(g.s, c + 1)); lem_bk_mono(g.s, c, c + 1); }
