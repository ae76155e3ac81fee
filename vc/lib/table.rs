// uses: bytes rec
// The substring table: chains of records, one chain per hash value, in blocks inside one byte buffer.
pub open spec fn str_in(m: MemV, p: PtrV, n: int) -> bool { m.h.contains_key(p.o) && m.h[p.o] is U8 && 0 <= p.i && p.i + n <= u8s(m, p.o).len() }
pub open spec fn str_at(m: MemV, p: PtrV, n: int) -> Seq<u8> { u8s(m, p.o).subrange(p.i, p.i + n) }
pub open spec fn hrec(s: Seq<u8>, i: int) -> int decreases i { if i <= 0 { 0 } else { (hrec(s, i - 1) * 101 + s[i - 1]) % 0x1_0000_0000_0000_0000 } }
/// the hash value: only that it is a function of the string matters
pub open spec fn hashf(s: Seq<u8>, size: int) -> int { hrec(s, s.len() as int) % size }

/// the table as a value: buffer, heads, remaining space, record positions of every chain, name width
pub struct Tb { pub s: Seq<u8>, pub head: Seq<u64>, pub rest: Seq<u64>, pub ch: Seq<Seq<int>>, pub nb: int }
pub open spec fn rsz(s: Seq<u8>, nb: int, q: int) -> int { r_name(s, q) + nb }
pub open spec fn rstr(s: Seq<u8>, q: int) -> Seq<u8> { s.subrange(q + r_str(s, q), q + r_str(s, q) + r_len(s, q)) }
pub open spec fn rnm(s: Seq<u8>, nb: int, q: int) -> int { be(s, q + r_name(s, q), nb) }
pub open spec fn rec_ok(s: Seq<u8>, nb: int, q: int) -> bool {
    0 < q && 1 <= s[q] <= 8 && q + 1 + s[q] <= s.len() && 3 <= r_len(s, q) < 0x2000_0000_0000_0000 && q + rsz(s, nb, q) <= s.len()
        && s[q + 1 + s[q]] == (rstr(s, q)[0] + 1) % 256
}
pub open spec fn link_at(s: Seq<u8>, e: int, to: int) -> bool { s[e] == 1 && s[e + 1] == 2 && be(s, e + 1, 1) == 2 && be(s, e + 2, 8) == to && e + 10 <= s.len() }
pub open spec fn rend(t: Tb, h: int, j: int) -> int { t.ch[h][j] + rsz(t.s, t.nb, t.ch[h][j]) }
/// record j of chain h is well formed and leads to record j+1
pub open spec fn at(t: Tb, h: int, j: int) -> bool {
    &&& rec_ok(t.s, t.nb, t.ch[h][j]) && hashf(rstr(t.s, t.ch[h][j]), t.ch.len() as int) == h
    &&& j + 1 < t.ch[h].len() ==> t.ch[h][j + 1] == rend(t, h, j) || link_at(t.s, rend(t, h, j), t.ch[h][j + 1])
}
/// end of record j, the link after it included
pub open spec fn iend(t: Tb, h: int, j: int) -> int {
    if j + 1 < t.ch[h].len() && t.ch[h][j + 1] != rend(t, h, j) { rend(t, h, j) + 10 } else { rend(t, h, j) }
}
pub open spec fn tend(t: Tb, h: int) -> int { rend(t, h, t.ch[h].len() - 1) }
pub open spec fn zend(t: Tb, h: int) -> int { tend(t, h) + t.rest[h] }
pub open spec fn chain(t: Tb, h: int) -> bool {
    if t.ch[h].len() == 0 { t.head[h] == 0 && t.rest[h] == 0 }
    else { t.head[h] == t.ch[h][0] && t.s[tend(t, h)] == 0 && t.rest[h] >= 13 && zend(t, h) <= t.s.len() + 1 }
}
pub open spec fn dist(t: Tb, h: int, i: int, j: int) -> bool { rstr(t.s, t.ch[h][i]) != rstr(t.s, t.ch[h][j]) }
pub open spec fn zones(t: Tb, h: int, g: int) -> bool { t.ch[h].len() > 0 && t.ch[g].len() > 0 ==> zend(t, h) <= tend(t, g) || zend(t, g) <= tend(t, h) }
/// record j of chain g lies outside the free zone of chain h
pub open spec fn out(t: Tb, h: int, g: int, j: int) -> bool { t.ch[h].len() > 0 ==> iend(t, g, j) <= tend(t, h) || t.ch[g][j] >= zend(t, h) }
/// two records do not overlap
pub open spec fn disj(t: Tb, h: int, i: int, g: int, j: int) -> bool { (h != g || i != j) ==> iend(t, h, i) <= t.ch[g][j] || iend(t, g, j) <= t.ch[h][i] }
pub open spec fn tb_ok(t: Tb) -> bool {
    &&& forall|h: int, i: int, g: int, j: int| 0 <= h < t.ch.len() && 0 <= i < t.ch[h].len() && 0 <= g < t.ch.len() && 0 <= j < t.ch[g].len() ==> #[trigger] disj(t, h, i, g, j)
    &&& 1 <= t.ch.len() == t.head.len() == t.rest.len() && 1 <= t.nb <= 8
    &&& forall|h: int| 0 <= h < t.ch.len() ==> #[trigger] chain(t, h)
    &&& forall|h: int, j: int| 0 <= h < t.ch.len() && 0 <= j < t.ch[h].len() ==> #[trigger] at(t, h, j)
    &&& forall|h: int, i: int, j: int| 0 <= h < t.ch.len() && 0 <= i < j < t.ch[h].len() ==> #[trigger] dist(t, h, i, j)
    &&& forall|h: int, g: int| 0 <= h < t.ch.len() && 0 <= g < t.ch.len() && h != g ==> #[trigger] zones(t, h, g)
    &&& forall|h: int, g: int, j: int| 0 <= h < t.ch.len() && 0 <= g < t.ch.len() && 0 <= j < t.ch[g].len() ==> #[trigger] out(t, h, g, j)
}
pub open spec fn has_at(t: Tb, x: Seq<u8>, j: int) -> bool { let h = hashf(x, t.ch.len() as int); 0 <= j < t.ch[h].len() && rstr(t.s, t.ch[h][j]) == x }
/// the set of stored strings
pub open spec fn holds(t: Tb, x: Seq<u8>) -> bool { exists|j: int| #[trigger] has_at(t, x, j) }
/// where a stored string is, and its name
pub open spec fn posn(t: Tb, x: Seq<u8>) -> int { t.ch[hashf(x, t.ch.len() as int)][choose|j: int| #[trigger] has_at(t, x, j)] }
pub open spec fn namef(t: Tb, x: Seq<u8>) -> int { rnm(t.s, t.nb, posn(t, x)) }
pub proof fn lem_uniq(t: Tb, x: Seq<u8>, j: int)
    requires tb_ok(t), has_at(t, x, j), 0 <= hashf(x, t.ch.len() as int) < t.ch.len()
    ensures holds(t, x), posn(t, x) == t.ch[hashf(x, t.ch.len() as int)][j]
{
    let h = hashf(x, t.ch.len() as int); let k = choose|j: int| #[trigger] has_at(t, x, j);
    assert(has_at(t, x, k));
    if k < j { assert(dist(t, h, k, j)); }
    if j < k { assert(dist(t, h, j, k)); }
}
pub proof fn lem_hashf(x: Seq<u8>, size: int)
    requires size >= 1
    ensures 0 <= hashf(x, size) < size
{ vstd::arithmetic::div_mod::lemma_mod_bound(hrec(x, x.len() as int), size); }

/// the bytes of record q are the same
pub open spec fn same_rec(s: Seq<u8>, u: Seq<u8>, nb: int, q: int) -> bool {
    &&& u[q] == s[q] && r_len(u, q) == r_len(s, q) && rstr(u, q) == rstr(s, q) && rnm(u, nb, q) == rnm(s, nb, q) && u[q + 1 + s[q]] == s[q + 1 + s[q]]
}
pub proof fn lem_same_rec(s: Seq<u8>, u: Seq<u8>, nb: int, q: int)
    requires rec_ok(s, nb, q), 0 <= nb <= 8, s.len() <= u.len(), forall|x: int| q <= x < q + rsz(s, nb, q) ==> #[trigger] u[x] == s[x]
    ensures same_rec(s, u, nb, q), rec_ok(u, nb, q)
{
    assert(u[q] == s[q]);
    lem_be_same(s, u, q + 1, s[q] as int);
    assert(rstr(u, q) =~= rstr(s, q));
    lem_be_same(s, u, q + r_name(s, q), nb);
    assert(u[q + 1 + s[q]] == s[q + 1 + s[q]]);
}
/// string x has been added to chain h at position q
pub open spec fn added(a: Tb, b: Tb, h: int, q: int, x: Seq<u8>) -> bool {
    let c = a.ch[h];
    &&& 0 <= h < a.ch.len() && hashf(x, a.ch.len() as int) == h
    &&& b.nb == a.nb && b.s.len() >= a.s.len() && b.ch == a.ch.update(h, c.push(q)) && b.rest.len() == a.rest.len() && b.head.len() == a.head.len()
    &&& forall|g: int| 0 <= g < a.ch.len() && g != h ==> #[trigger] b.rest[g] == a.rest[g]
    &&& forall|g: int| 0 <= g < a.ch.len() && (g != h || c.len() > 0) ==> #[trigger] b.head[g] == a.head[g]
    &&& c.len() == 0 ==> b.head[h] == q
    &&& rec_ok(b.s, b.nb, q) && rstr(b.s, q) == x && b.s[q + rsz(b.s, b.nb, q)] == 0
    &&& b.rest[h] >= 13 && q + rsz(b.s, b.nb, q) + b.rest[h] <= b.s.len() + 1
    &&& forall|y: int| #![trigger b.s[y]] 0 <= y < a.s.len() && !(c.len() > 0 && tend(a, h) <= y < zend(a, h)) ==> b.s[y] == a.s[y]
    &&& (c.len() > 0 && q == tend(a, h) && q + rsz(b.s, b.nb, q) + b.rest[h] == zend(a, h)) || (q >= a.s.len() + 1 && (c.len() > 0 ==> link_at(b.s, tend(a, h), q)))
}
proof fn lem_added_rec(a: Tb, b: Tb, h: int, q: int, x: Seq<u8>, g: int, j: int)
    requires tb_ok(a), added(a, b, h, q, x), 0 <= g < a.ch.len(), 0 <= j < a.ch[g].len()
    ensures same_rec(a.s, b.s, a.nb, a.ch[g][j]), at(b, g, j), b.ch[g][j] == a.ch[g][j], rend(b, g, j) == rend(a, g, j), rec_ok(a.s, a.nb, a.ch[g][j]), rec_ok(b.s, a.nb, a.ch[g][j]),
        iend(b, g, j) == iend(a, g, j) || (g == h && j == a.ch[h].len() - 1 && (iend(b, g, j) == q || iend(b, g, j) == tend(a, h) + 10))
{
    let p = a.ch[g][j];
    assert(at(a, g, j) && out(a, h, g, j));
    assert(rend(a, g, j) <= iend(a, g, j));
    assert forall|y: int| p <= y < p + rsz(a.s, a.nb, p) implies #[trigger] b.s[y] == a.s[y] by { }
    lem_same_rec(a.s, b.s, a.nb, p);
    assert(b.ch[g][j] == p);
    if j + 1 < a.ch[g].len() {
        let e = rend(a, g, j);
        if a.ch[g][j + 1] != e {
            assert forall|y: int| e <= y < e + 10 implies #[trigger] b.s[y] == a.s[y] by { }
            lem_be_same(a.s, b.s, e + 1, 1);
            lem_be_same(a.s, b.s, e + 2, 8);
            assert(b.s[e] == a.s[e] && b.s[e + 1] == a.s[e + 1]);
            assert(link_at(b.s, e, a.ch[g][j + 1]));
        }
    }
}
pub proof fn lem_added(a: Tb, b: Tb, h: int, q: int, x: Seq<u8>)
    requires tb_ok(a), added(a, b, h, q, x), !holds(a, x)
    ensures tb_ok(b), holds(b, x), posn(b, x) == q,
        forall|y: Seq<u8>| #![trigger holds(b, y)] #![trigger holds(a, y)] holds(b, y) <==> (holds(a, y) || y == x),
        forall|y: Seq<u8>| #![trigger posn(b, y)] holds(a, y) ==> posn(b, y) == posn(a, y) && namef(b, y) == namef(a, y),
{
    let n = a.ch[h].len() as int; let c = a.ch[h]; let e = tend(a, h);
    assert(chain(a, h));
    if n > 0 { assert(at(a, h, n - 1)); lem_added_rec(a, b, h, q, x, h, n - 1); }
    assert(b.ch[h][n] == q);
    assert forall|g: int| 0 <= g < b.ch.len() implies #[trigger] chain(b, g) by {
        assert(chain(a, g));
        if g != h && a.ch[g].len() > 0 {
            let k = a.ch[g].len() - 1;
            lem_added_rec(a, b, h, q, x, g, k);
            assert(zones(a, h, g));
            assert(b.s[tend(a, g)] == a.s[tend(a, g)]);
            assert(b.rest[g] == a.rest[g]); 
        }
        assert(g != h ==> b.head[g] == a.head[g]);
        if g == h && n > 0 { assert(b.head[g] == a.head[g]); }
    }
    assert forall|g: int, j: int| 0 <= g < b.ch.len() && 0 <= j < b.ch[g].len() implies #[trigger] at(b, g, j) by {
        if j < a.ch[g].len() { lem_added_rec(a, b, h, q, x, g, j); }
    }
    assert forall|g: int, i: int, j: int| 0 <= g < b.ch.len() && 0 <= i < j < b.ch[g].len() implies #[trigger] dist(b, g, i, j) by {
        lem_added_rec(a, b, h, q, x, g, i);
        if j < a.ch[g].len() { lem_added_rec(a, b, h, q, x, g, j); assert(dist(a, g, i, j)); }
        else if rstr(a.s, c[i]) == x { assert(has_at(a, x, i)); }
    }
    assert forall|f: int, g: int| 0 <= f < b.ch.len() && 0 <= g < b.ch.len() && f != g implies #[trigger] zones(b, f, g) by {
        assert(zones(a, f, g)); assert(chain(a, f) && chain(a, g));
        if a.ch[f].len() > 0 { lem_added_rec(a, b, h, q, x, f, a.ch[f].len() - 1); }
        if a.ch[g].len() > 0 { lem_added_rec(a, b, h, q, x, g, a.ch[g].len() - 1); }
        assert(f != h ==> b.rest[f] == a.rest[f]);
        assert(g != h ==> b.rest[g] == a.rest[g]);
    }
    assert forall|f: int, g: int, j: int| 0 <= f < b.ch.len() && 0 <= g < b.ch.len() && 0 <= j < b.ch[g].len() implies #[trigger] out(b, f, g, j) by {
        assert(chain(a, f));
        assert(f != h ==> b.rest[f] == a.rest[f]);
        if a.ch[f].len() > 0 { lem_added_rec(a, b, h, q, x, f, a.ch[f].len() - 1); }
        if j < a.ch[g].len() {
            assert(out(a, f, g, j)); assert(at(a, g, j));
            lem_added_rec(a, b, h, q, x, g, j);
            if f != h { assert(zones(a, h, f)); }
            assert(out(a, h, g, j));
            assert(q + rsz(b.s, b.nb, q) == tend(b, h));
        } else {
            if f != h { assert(zones(a, h, f)); }
        }
    }
    assert forall|f: int, i: int, g: int, j: int| 0 <= f < b.ch.len() && 0 <= i < b.ch[f].len() && 0 <= g < b.ch.len() && 0 <= j < b.ch[g].len() implies #[trigger] disj(b, f, i, g, j) by {
        if i < a.ch[f].len() { lem_added_rec(a, b, h, q, x, f, i); assert(out(a, h, f, i)); assert(at(a, f, i)); }
        if j < a.ch[g].len() { lem_added_rec(a, b, h, q, x, g, j); assert(out(a, h, g, j)); assert(at(a, g, j)); }
        if i < a.ch[f].len() && j < a.ch[g].len() { assert(disj(a, f, i, g, j)); }
        assert(iend(b, h, n) == q + rsz(b.s, b.nb, q));
    }
    assert(tb_ok(b));
    lem_hashf(x, a.ch.len() as int);
    assert(has_at(b, x, n));
    lem_uniq(b, x, n);
    assert forall|y: Seq<u8>| #![trigger holds(b, y)] #![trigger holds(a, y)] (holds(b, y) <==> (holds(a, y) || y == x)) && (holds(a, y) ==> posn(b, y) == posn(a, y) && namef(b, y) == namef(a, y)) by {
        let g = hashf(y, a.ch.len() as int);
        lem_hashf(y, a.ch.len() as int);
        if holds(a, y) {
            let j = choose|j: int| #[trigger] has_at(a, y, j);
            lem_added_rec(a, b, h, q, x, g, j);
            assert(has_at(b, y, j));
            lem_uniq(a, y, j); lem_uniq(b, y, j);
        }
        if holds(b, y) {
            let j = choose|j: int| #[trigger] has_at(b, y, j);
            if j < a.ch[g].len() { lem_added_rec(a, b, h, q, x, g, j); assert(has_at(a, y, j)); }
        }
    }
    assert forall|y: Seq<u8>| #![trigger posn(b, y)] holds(a, y) implies posn(b, y) == posn(a, y) && namef(b, y) == namef(a, y) by { assert(holds(b, y) <==> (holds(a, y) || y == x)); }
}

/// giving a stored string a name: no other string's name, and no string, changes
pub open spec fn renamed(a: Tb, b: Tb, x: Seq<u8>, v: int) -> bool {
    let q = posn(a, x); let e = q + r_name(a.s, q);
    &&& b.nb == a.nb && b.ch == a.ch && b.head == a.head && b.rest == a.rest
    &&& same_out(a.s, b.s, e, e + a.nb) && be(b.s, e, a.nb) == v
}
proof fn lem_renamed_rec(a: Tb, b: Tb, x: Seq<u8>, v: int, g: int, j: int)
    requires tb_ok(a), holds(a, x), renamed(a, b, x, v), 0 <= g < a.ch.len(), 0 <= j < a.ch[g].len()
    ensures rec_ok(a.s, a.nb, a.ch[g][j]), at(b, g, j), rstr(b.s, a.ch[g][j]) == rstr(a.s, a.ch[g][j]), rend(b, g, j) == rend(a, g, j), iend(b, g, j) == iend(a, g, j), 
        iend(a, g, j) < a.s.len() ==> (b.s[rend(a, g, j)] == a.s[rend(a, g, j)] || iend(a, g, j) != rend(a, g, j) || !(chain(a, g) && j == a.ch[g].len() - 1)),
        rnm(b.s, a.nb, a.ch[g][j]) == (if a.ch[g][j] == posn(a, x) { v } else { rnm(a.s, a.nb, a.ch[g][j]) }),
        chain(a, g) && j == a.ch[g].len() - 1 ==> b.s[tend(a, g)] == 0,
{
    let k = choose|k: int| #[trigger] has_at(a, x, k); let h = hashf(x, a.ch.len() as int);
    lem_hashf(x, a.ch.len() as int); 
    assert(has_at(a, x, k)); lem_uniq(a, x, k);
    let q = a.ch[h][k]; let p = a.ch[g][j];
    assert(at(a, h, k) && at(a, g, j) && disj(a, h, k, g, j));
    let e = q + r_name(a.s, q);
    assert(chain(a, g));
    if j == a.ch[g].len() - 1 { assert(out(a, g, h, k)); assert(b.s[tend(a, g)] == a.s[tend(a, g)]); }
    if g == h && j == k {
        assert(b.s[p] == a.s[p]);
        lem_be_same(a.s, b.s, p + 1, a.s[p] as int);
        assert(rstr(b.s, p) =~= rstr(a.s, p));
        assert(b.s[p + 1 + a.s[p]] == a.s[p + 1 + a.s[p]]);
    } else {
        lem_same_rec(a.s, b.s, a.nb, p);
    }
    if j + 1 < a.ch[g].len() {
        let f = rend(a, g, j);
        if a.ch[g][j + 1] != f {
            assert forall|y: int| f <= y < f + 10 implies #[trigger] b.s[y] == a.s[y] by { }
            lem_be_same(a.s, b.s, f + 1, 1);
            lem_be_same(a.s, b.s, f + 2, 8);
            assert(b.s[f] == a.s[f] && b.s[f + 1] == a.s[f + 1]);
            assert(link_at(b.s, f, a.ch[g][j + 1]));
        }
    }
}
pub proof fn lem_renamed(a: Tb, b: Tb, x: Seq<u8>, v: int)
    requires tb_ok(a), holds(a, x), renamed(a, b, x, v)
    ensures tb_ok(b), namef(b, x) == v,
        forall|y: Seq<u8>| #![trigger holds(b, y)] #![trigger holds(a, y)] #![trigger posn(b, y)] #![trigger namef(b, y)]
            (holds(b, y) <==> holds(a, y)) && (holds(a, y) ==> posn(b, y) == posn(a, y) && (y != x ==> namef(b, y) == namef(a, y))),
{
    assert forall|g: int| 0 <= g < b.ch.len() implies #[trigger] chain(b, g) by {
        assert(chain(a, g));
        if a.ch[g].len() > 0 { lem_renamed_rec(a, b, x, v, g, a.ch[g].len() - 1); }
    }
    assert forall|g: int, j: int| 0 <= g < b.ch.len() && 0 <= j < b.ch[g].len() implies #[trigger] at(b, g, j) by { lem_renamed_rec(a, b, x, v, g, j); }
    assert forall|g: int, i: int, j: int| 0 <= g < b.ch.len() && 0 <= i < j < b.ch[g].len() implies #[trigger] dist(b, g, i, j) by {
        lem_renamed_rec(a, b, x, v, g, i); lem_renamed_rec(a, b, x, v, g, j); assert(dist(a, g, i, j)); }
    assert forall|f: int, g: int| 0 <= f < b.ch.len() && 0 <= g < b.ch.len() && f != g implies #[trigger] zones(b, f, g) by {
        assert(zones(a, f, g));
        if a.ch[f].len() > 0 { lem_renamed_rec(a, b, x, v, f, a.ch[f].len() - 1); }
        if a.ch[g].len() > 0 { lem_renamed_rec(a, b, x, v, g, a.ch[g].len() - 1); }
    }
    assert forall|f: int, g: int, j: int| 0 <= f < b.ch.len() && 0 <= g < b.ch.len() && 0 <= j < b.ch[g].len() implies #[trigger] out(b, f, g, j) by {
        assert(out(a, f, g, j));
        if a.ch[f].len() > 0 { lem_renamed_rec(a, b, x, v, f, a.ch[f].len() - 1); }
        lem_renamed_rec(a, b, x, v, g, j);
    }
    assert forall|f: int, i: int, g: int, j: int| 0 <= f < b.ch.len() && 0 <= i < b.ch[f].len() && 0 <= g < b.ch.len() && 0 <= j < b.ch[g].len() implies #[trigger] disj(b, f, i, g, j) by {
        assert(disj(a, f, i, g, j)); lem_renamed_rec(a, b, x, v, f, i); lem_renamed_rec(a, b, x, v, g, j); }
    assert(tb_ok(b));
    lem_hashf(x, a.ch.len() as int);
    let k = choose|k: int| #[trigger] has_at(a, x, k); let h = hashf(x, a.ch.len() as int);
    lem_uniq(a, x, k);
    lem_renamed_rec(a, b, x, v, h, k);
    assert(has_at(b, x, k)); lem_uniq(b, x, k);
    assert(namef(b, x) == v);
    assert forall|y: Seq<u8>| #![trigger holds(b, y)] #![trigger holds(a, y)] #![trigger posn(b, y)] #![trigger namef(b, y)]
            (holds(b, y) <==> holds(a, y)) && (holds(a, y) ==> posn(b, y) == posn(a, y) && (y != x ==> namef(b, y) == namef(a, y))) by {
        let g = hashf(y, a.ch.len() as int);
        lem_hashf(y, a.ch.len() as int);
        if holds(a, y) {
            let j = choose|j: int| #[trigger] has_at(a, y, j);
            lem_renamed_rec(a, b, x, v, g, j);
            assert(has_at(b, y, j)); lem_uniq(a, y, j); lem_uniq(b, y, j);
            if y != x { lem_distinct(a, x, y, k, j); }
        }
        if holds(b, y) {
            let j = choose|j: int| #[trigger] has_at(b, y, j);
            lem_renamed_rec(a, b, x, v, g, j);
            assert(has_at(a, y, j));
        }
    }
}
proof fn lem_distinct(a: Tb, x: Seq<u8>, y: Seq<u8>, i: int, j: int)
    requires tb_ok(a), has_at(a, x, i), has_at(a, y, j), x != y
    ensures posn(a, x) != posn(a, y)
{
    let h = hashf(x, a.ch.len() as int); let g = hashf(y, a.ch.len() as int);
    lem_hashf(x, a.ch.len() as int); lem_hashf(y, a.ch.len() as int);
    lem_uniq(a, x, i); lem_uniq(a, y, j);
}

// ---- the class
pub open spec fn ht_tb(m: MemV, p: PtrV) -> Tb {
    let t = o_HashTable(m, p.o);
    Tb { s: if t.buf == NUL() { Seq::empty() } else { u8s(m, t.buf.o) }, head: u64s(m, t.head.o), rest: u64s(m, t.rest.o), ch: m.gc[p.o], nb: t.NAME_BYTES as int }
}
pub open spec fn ht_shape(m: MemV, p: PtrV) -> bool {
    let t = o_HashTable(m, p.o);
    &&& is_HashTable(m, p) && t.HTSIZE == m.gc[p.o].len() && t.HBSIZE == 512 && t.LENGTH_X_BYTES == 1 && t.SENTINEL_CHAR_BYTES == 1
    &&& live(m, t.rest, 2) && m.h[t.rest.o] is U64 && live(m, t.head, 2) && m.h[t.head.o] is U64 && t.rest.o != t.head.o
    &&& t.bufsize < 0x4000_0000_0000_0000
    &&& if t.buf == NUL() { t.bufsize == 0 } else { live(m, t.buf, 0) && m.h[t.buf.o] is U8 && u8s(m, t.buf.o).len() == t.bufsize }
}
pub open spec fn ht_ok(m: MemV, p: PtrV) -> bool { ht_shape(m, p) && tb_ok(ht_tb(m, p)) }
pub open spec fn ht_fp(m: MemV, p: PtrV) -> Set<int> { set![p.o, o_HashTable(m, p.o).rest.o, o_HashTable(m, p.o).head.o, o_HashTable(m, p.o).buf.o] }
pub open spec fn links(t: Tb, h: int, j: int, q: int) -> bool { j > 0 && j < t.ch[h].len() && q == rend(t, h, j - 1) && q != t.ch[h][j] && link_at(t.s, q, t.ch[h][j]) }
/// a walk along chain h that has passed j records stands at q
pub open spec fn walk(t: Tb, h: int, j: int, q: int) -> bool {
    let c = t.ch[h];
    &&& 0 <= h < t.ch.len() && 0 <= j <= c.len()
    &&& if c.len() == 0 { q == 0 } else if j == c.len() { q == tend(t, h) && q > 0 } else { q > 0 && (q == c[j] || links(t, h, j, q)) }
}
pub open spec fn todo(t: Tb, h: int, j: int, q: int) -> int { 2 * (t.ch[h].len() - j) + (if j < t.ch[h].len() && q == t.ch[h][j] { 0int } else { 1 }) }
/// what is read at the place where a walk stands
pub proof fn lem_walk(t: Tb, h: int, j: int, q: int)
    requires tb_ok(t), walk(t, h, j, q), t.s.len() < 0x4000_0000_0000_0000
    ensures t.ch[h].len() > 0 ==> 0 < q < t.s.len(), q == 0 ==> t.ch[h].len() == 0,
        q != 0 ==> t.s[q] <= 8 && q + 1 + t.s[q] <= t.s.len() && q + 12 <= t.s.len() + 10,
        t.ch[h].len() > 0 && j == t.ch[h].len() ==> r_len(t.s, q) == 0 && t.s[q] == 0 && q + 12 <= t.s.len(),
        j < t.ch[h].len() && q == t.ch[h][j] ==> rec_ok(t.s, t.nb, q) && r_len(t.s, q) >= 3 && walk(t, h, j + 1, q + rsz(t.s, t.nb, q)) && !links(t, h, j, q),
        links(t, h, j, q) ==> r_len(t.s, q) == 2 && q + 10 <= t.s.len() && be(t.s, q + 2, 8) == t.ch[h][j] && walk(t, h, j, t.ch[h][j]) && q != t.ch[h][j],
{
    assert(chain(t, h));
    if j < t.ch[h].len() { assert(at(t, h, j)); }
    if j > 0 { assert(at(t, h, j - 1)); }
    if t.ch[h].len() > 0 && j == t.ch[h].len() { assert(be(t.s, q + 1, 0) == 0); }
    if links(t, h, j, q) { assert(t.s[q] == 1); }
}
pub open spec fn nrec(ch: Seq<Seq<int>>, k: int) -> int decreases k { if k <= 0 { 0 } else { nrec(ch, k - 1) + ch[k - 1].len() } }
pub proof fn lem_nrec(a: Seq<Seq<int>>, h: int, q: int, k: int)
    requires 0 <= h < a.len(), 0 <= k <= a.len()
    ensures nrec(a.update(h, a[h].push(q)), k) == nrec(a, k) + (if h < k { 1int } else { 0 })
    decreases k
{ if k > 0 { lem_nrec(a, h, q, k - 1); } }
/// only the collision counter changed
pub open spec fn coll(m: MemV, p: PtrV, v: u64) -> MemV { put(m, p.o, Obj::HashTable(HashTableV { collisions: v, ..o_HashTable(m, p.o) })) }
/// position q of the buffer has been prepared for a record that takes space bytes
pub open spec fn prepared(s0: Seq<u8>, s1: Seq<u8>, t: Tb, h: int, q: int, space: int, rest: int) -> bool {
    let c = t.ch[h];
    &&& 0 < q && q + space + 12 <= s1.len() && s1.len() >= s0.len() && rest - space >= 13 && q + rest <= s1.len() + 1
    &&& (c.len() > 0 && q == tend(t, h) && rest == t.rest[h] && s1 == s0) || (q == s0.len() + 1 && (c.len() > 0 ==> link_at(s1, tend(t, h), q))
        && (forall|y: int| #![trigger s1[y]] 0 <= y < s0.len() && !(c.len() > 0 && tend(t, h) <= y < tend(t, h) + 10) ==> s1[y] == s0[y]))
}
/// a record written over a prepared place
pub proof fn lem_written(t: Tb, s1: Seq<u8>, s2: Seq<u8>, h: int, q: int, x: Seq<u8>, b: Tb, rest: int)
    requires tb_ok(t), 0 <= h < t.ch.len(), hashf(x, t.ch.len() as int) == h, 3 <= x.len() < 0x1000_0000_0000_0000,
        ({ let k = bl(x.len() as int); let space = 2 + k + x.len() + t.nb;
           &&& prepared(t.s, s1, t, h, q, space, rest)
           &&& 1 <= k <= 8 && s2.len() == s1.len() && s2[q] == k && be(s2, q + 1, k) == x.len() && s2[q + 1 + k] == (x[0] + 1) % 256
           &&& forall|i: int| 0 <= i < x.len() ==> s2[q + 2 + k + i] == #[trigger] x[i]
           &&& s2[q + space] == 0
           &&& forall|y: int| #![trigger s2[y]] 0 <= y < s1.len() && !(q <= y < q + space + 12) ==> s2[y] == s1[y]
           &&& b.s == s2 && b.nb == t.nb && b.ch == t.ch.update(h, t.ch[h].push(q)) && b.rest == t.rest.update(h, (rest - space) as u64) && rest < 0x8000_0000_0000_0000
           &&& b.head == (if t.ch[h].len() == 0 { t.head.update(h, q as u64) } else { t.head }) && q < 0x8000_0000_0000_0000 })
    ensures added(t, b, h, q, x)
{
    let k = bl(x.len() as int); let space = 2 + k + x.len() + t.nb;
    assert(chain(t, h));
    assert(r_len(s2, q) == x.len());
    assert(rsz(s2, t.nb, q) == space);
    assert(rstr(s2, q) =~= x);
    if t.ch[h].len() > 0 {
        let e = tend(t, h);
        assert(at(t, h, t.ch[h].len() - 1));
        if q != e {
            assert forall|y: int| e <= y < e + 10 implies s2[y] == #[trigger] s1[y] by { }
            assert(s2[e] == s1[e] && s2[e + 1] == s1[e + 1]);
            lem_be_same(s1, s2, e + 1, 1);
            lem_be_same(s1, s2, e + 2, 8);
        }
    }
}
/// the buffer is the only object that may have been replaced
pub open spec fn ht_heap(a: MemV, b: MemV, p: PtrV) -> bool {
    let x = o_HashTable(a, p.o).buf; let y = o_HashTable(b, p.o).buf;
    &&& forall|o: int| #[trigger] b.h.contains_key(o) ==> (a.h.contains_key(o) && (o != x.o || y == x)) || o == y.o
    &&& b.k[p.o] == a.k[p.o]
}
/// state in which room for a record of string x has been made at position q of the buffer object bo
pub open spec fn roomy(a: MemV, m: MemV, p: PtrV, x: Seq<u8>, q: int, bo: int, rest: int) -> bool {
    let t = ht_tb(a, p); let s = o_HashTable(a, p.o); let v = o_HashTable(m, p.o); let h = hashf(x, t.ch.len() as int);
    let space = 2 + bl(x.len() as int) + x.len() + t.nb;
    &&& ht_shape(m, p) && ht_heap(a, m, p) && frame(a, m, ht_fp(a, p).insert(a.nx)) && m.gc == a.gc && v.buf == (PtrV { o: bo, i: 0 }) && v.buf != NUL()
    &&& v.rest == s.rest && v.head == s.head && v.NAME_BYTES == s.NAME_BYTES && v.HTSIZE == s.HTSIZE && (v.buf == s.buf || bo == a.nx) && v.bufsize <= s.bufsize + x.len() + 600 && bo != p.o && bo != s.rest.o && bo != s.head.o
    &&& tb_ok(t) && 0 <= h < t.ch.len() && a.nx > 0 && (s.buf == NUL() || (s.buf.o < a.nx && s.buf.o > 0)) && p.o < a.nx && s.rest.o < a.nx && s.head.o < a.nx
    &&& prepared(t.s, u8s(m, bo), t, h, q, space, rest)
    &&& u64s(m, v.rest.o) == t.rest.update(h, rest as u64) && 0 <= rest < 0x8000_0000_0000_0000 && q < 0x8000_0000_0000_0000
    &&& u64s(m, v.head.o) == (if t.ch[h].len() == 0 { t.head.update(h, q as u64) } else { t.head })
    &&& m.io == a.io
}
/// effect of inserting x
pub open spec fn ht_after(a: MemV, b: MemV, p: PtrV, x: Seq<u8>) -> bool {
    let t = ht_tb(a, p); let u = ht_tb(b, p); let s = o_HashTable(a, p.o); let v = o_HashTable(b, p.o);
    &&& holds(u, x) && u.nb == t.nb && u.ch.len() == t.ch.len() && v.rest == s.rest && v.head == s.head && v.HTSIZE == s.HTSIZE
    &&& v.buf == s.buf || v.buf.o == a.nx
    &&& forall|y: Seq<u8>| #![trigger holds(u, y)] #![trigger holds(t, y)] holds(u, y) <==> (holds(t, y) || y == x)
    &&& forall|y: Seq<u8>| #![trigger posn(u, y)] holds(t, y) ==> posn(u, y) == posn(t, y) && namef(u, y) == namef(t, y)
    &&& b.io == a.io
}

/// what the contract of set_name says, applied to the record of string x, is a renaming
pub proof fn lem_set_name(a: MemV, b: MemV, p: PtrV, r: PtrV, x: Seq<u8>, v: int)
    requires ht_ok(a, p), holds(ht_tb(a, p), x), r == pi(o_HashTable(a, p.o).buf, posn(ht_tb(a, p), x)), o_HashTable(a, p.o).buf != NUL(),
        o_HashTable(a, p.o).buf.o != p.o,
        b == put(a, r.o, Obj::U8(u8s(b, r.o))),
        ({ let k = o_HashTable(a, p.o).NAME_BYTES as int; let e = r.i + r_name(u8s(a, r.o), r.i); same_out(u8s(a, r.o), u8s(b, r.o), e, e + k) && be(u8s(b, r.o), e, k) == v }),
    ensures ht_ok(b, p), renamed(ht_tb(a, p), ht_tb(b, p), x, v), namef(ht_tb(b, p), x) == v,
        forall|y: Seq<u8>| #![trigger holds(ht_tb(b, p), y)] #![trigger holds(ht_tb(a, p), y)] #![trigger posn(ht_tb(b, p), y)] #![trigger namef(ht_tb(b, p), y)]
            (holds(ht_tb(b, p), y) <==> holds(ht_tb(a, p), y)) && (holds(ht_tb(a, p), y) ==> posn(ht_tb(b, p), y) == posn(ht_tb(a, p), y) && (y != x ==> namef(ht_tb(b, p), y) == namef(ht_tb(a, p), y))),
{
    lem_renamed(ht_tb(a, p), ht_tb(b, p), x, v);
}
/// the record of a stored string is one that set_name and get_name accept, and get_name returns its name
pub proof fn lem_rec_in(a: MemV, p: PtrV, x: Seq<u8>)
    requires ht_ok(a, p), holds(ht_tb(a, p), x)
    ensures ({ let r = pi(o_HashTable(a, p.o).buf, posn(ht_tb(a, p), x)); let s = u8s(a, r.o);
        rec_in(a, r, o_HashTable(a, p.o).NAME_BYTES as int) && o_HashTable(a, p.o).NAME_BYTES <= 8 && be(s, r.i + r_name(s, r.i), o_HashTable(a, p.o).NAME_BYTES as int) == namef(ht_tb(a, p), x)
        && s[r.i + 1 + s[r.i]] == (x[0] + 1) % 256 && s.subrange(r.i + 2 + s[r.i], r.i + 2 + s[r.i] + x.len()) == x }),
{
    let t = ht_tb(a, p);
    lem_hashf(x, t.ch.len() as int);
    let k = choose|k: int| #[trigger] has_at(t, x, k);
    lem_uniq(t, x, k);
    assert(at(t, hashf(x, t.ch.len() as int), k));
    assert(chain(t, hashf(x, t.ch.len() as int)));
}
pub proof fn lem_nrec0(c: Seq<Seq<int>>, k: int)
    requires 0 <= k <= c.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).len() == 0
    ensures nrec(c, k) == 0
    decreases k
{ if k > 0 { lem_nrec0(c, k - 1); } }
