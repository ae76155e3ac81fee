// uses: decomp short
// Sorting and naming of the distinct S* substrings.
/// order of S* substrings: bytewise, and of two of which one is a proper prefix of the other the longer one first
pub open spec fn lms_at(x: Seq<u8>, y: Seq<u8>, k: int) -> bool {
    &&& 0 <= k < x.len() && k <= y.len() && (forall|l: int| 0 <= l < k ==> x[l] == #[trigger] y[l])
    &&& k == y.len() || x[k] < y[k]
}
pub open spec fn lms_lt(x: Seq<u8>, y: Seq<u8>) -> bool { exists|k: int| #[trigger] lms_at(x, y, k) }
pub proof fn lem_lt_irr(x: Seq<u8>) ensures !lms_lt(x, x) { }
pub proof fn lem_lt_trans(x: Seq<u8>, y: Seq<u8>, z: Seq<u8>)
    requires lms_lt(x, y), lms_lt(y, z)
    ensures lms_lt(x, z)
{
    let a = choose|k: int| #[trigger] lms_at(x, y, k); let b = choose|k: int| #[trigger] lms_at(y, z, k);
    let k = if a < b { a } else { b };
    assert(forall|l: int| 0 <= l < k ==> x[l] == y[l] && y[l] == #[trigger] z[l]);
    assert(lms_at(x, z, k));
}
spec fn same_to(x: Seq<u8>, y: Seq<u8>, k: int) -> int decreases k { if k <= 0 { 0 } else { let j = same_to(x, y, k - 1); if j < k - 1 || x[k - 1] != y[k - 1] { j } else { k } } }
proof fn lem_same_to(x: Seq<u8>, y: Seq<u8>, k: int)
    requires 0 <= k <= x.len(), k <= y.len()
    ensures 0 <= same_to(x, y, k) <= k, same_to(x, y, k) < k ==> x[same_to(x, y, k)] != y[same_to(x, y, k)], forall|l: int| 0 <= l < same_to(x, y, k) ==> x[l] == #[trigger] y[l]
    decreases k
{ if k > 0 { lem_same_to(x, y, k - 1); } }
pub proof fn lem_lt_total(x: Seq<u8>, y: Seq<u8>)
    requires x != y
    ensures lms_lt(x, y) || lms_lt(y, x)
{
    let n = if x.len() < y.len() { x.len() as int } else { y.len() as int };
    lem_same_to(x, y, n);
    let k = same_to(x, y, n);
    if k == x.len() && k == y.len() { assert(x =~= y); }
    if k < x.len() && (k == y.len() || x[k] < y[k]) { assert(lms_at(x, y, k)); }
    else { assert(forall|l: int| 0 <= l < k ==> y[l] == #[trigger] x[l]); assert(lms_at(y, x, k)); }
}
/// the comparison at the first difference decides
pub proof fn lem_lt_at(x: Seq<u8>, y: Seq<u8>, k: int)
    requires 0 <= k <= x.len(), k <= y.len(), forall|l: int| 0 <= l < k ==> x[l] == #[trigger] y[l], k == x.len() || k == y.len() || x[k] != y[k]
    ensures lms_lt(x, y) == lms_at(x, y, k)
{
    if lms_lt(x, y) { let j = choose|k: int| #[trigger] lms_at(x, y, k); if j < k { assert(x[j] == y[j]); } else if j > k { assert(x[k] == y[k]); } }
}

// ---- S* positions are never adjacent, and never hold the largest byte
pub proof fn lem_half(t: Seq<u8>, i: int)
    requires 0 <= i < t.len()
    ensures 2 * num(t, 3, 0, i) <= t.len() - i + (if lms(t, i) { 1int } else { 0 })
    decreases t.len() - i
{
    if i == t.len() - 1 { assert(num(t, 3, 0, i + 1) == 0); assert(!lms(t, i)); }
    else { lem_half(t, i + 1); }
}
pub proof fn lem_not_max(t: Seq<u8>, i: int)
    requires 0 <= i < t.len(), is_s(t, i)
    ensures t[i] < 255
    decreases t.len() - i
{ if i < t.len() - 1 && t[i] >= t[i + 1] { lem_not_max(t, i + 1); } }
pub proof fn lem_guard(t: Seq<u8>, x: Seq<u8>)
    requires occ(t, x, 0)
    ensures x.len() > 0, x[0] < 255
{
    lem_occ(t, x, 0);
    let k = choose|k: int| 0 <= k < t.len() && lms(t, k) && #[trigger] lsub(t, k) == x;
    lem_nxt(t, k + 1); lem_not_max(t, k);
    assert(x[0] == t[k]);
}

// ---- more room behind the records
pub open spec fn tail_of(a: Tb, b: Tb) -> bool {
    &&& b.head == a.head && b.rest == a.rest && b.ch == a.ch && b.nb == a.nb && a.s.len() <= b.s.len()
    &&& forall|y: int| #![trigger b.s[y]] 0 <= y < a.s.len() ==> b.s[y] == a.s[y]
}
proof fn lem_tail_rec(a: Tb, b: Tb, g: int, j: int)
    requires tb_ok(a), tail_of(a, b), 0 <= g < a.ch.len(), 0 <= j < a.ch[g].len()
    ensures same_rec(a.s, b.s, a.nb, a.ch[g][j]), at(b, g, j), rend(b, g, j) == rend(a, g, j), rec_ok(a.s, a.nb, a.ch[g][j]), iend(b, g, j) == iend(a, g, j),
        j == a.ch[g].len() - 1 ==> b.s[tend(a, g)] == 0
{
    let p = a.ch[g][j];
    assert(at(a, g, j)); assert(chain(a, g));
    assert forall|y: int| p <= y < p + rsz(a.s, a.nb, p) implies #[trigger] b.s[y] == a.s[y] by { }
    lem_same_rec(a.s, b.s, a.nb, p);
    if j + 1 < a.ch[g].len() {
        let e = rend(a, g, j);
        if a.ch[g][j + 1] != e {
            assert forall|y: int| e <= y < e + 10 implies #[trigger] b.s[y] == a.s[y] by { }
            lem_be_same(a.s, b.s, e + 1, 1);
            lem_be_same(a.s, b.s, e + 2, 8);
            assert(b.s[e] == a.s[e] && b.s[e + 1] == a.s[e + 1]);
            assert(link_at(b.s, e, a.ch[g][j + 1]));
        }
    } else { assert(b.s[tend(a, g)] == a.s[tend(a, g)]); }
}
pub proof fn lem_tail(a: Tb, b: Tb)
    requires tb_ok(a), tail_of(a, b)
    ensures tb_ok(b), 
        forall|y: Seq<u8>| #![trigger holds(b, y)] #![trigger holds(a, y)] #![trigger posn(b, y)] #![trigger namef(b, y)] #![trigger posn(a, y)] #![trigger namef(a, y)]
            (holds(b, y) <==> holds(a, y)) && (holds(a, y) ==> posn(b, y) == posn(a, y) && namef(b, y) == namef(a, y)),
{
    assert forall|g: int| 0 <= g < b.ch.len() implies #[trigger] chain(b, g) by {
        assert(chain(a, g));
        if a.ch[g].len() > 0 { lem_tail_rec(a, b, g, a.ch[g].len() - 1); }
    }
    assert forall|g: int, j: int| 0 <= g < b.ch.len() && 0 <= j < b.ch[g].len() implies #[trigger] at(b, g, j) by { lem_tail_rec(a, b, g, j); }
    assert forall|g: int, i: int, j: int| 0 <= g < b.ch.len() && 0 <= i < j < b.ch[g].len() implies #[trigger] dist(b, g, i, j) by {
        lem_tail_rec(a, b, g, i); lem_tail_rec(a, b, g, j); assert(dist(a, g, i, j)); }
    assert forall|f: int, g: int| 0 <= f < b.ch.len() && 0 <= g < b.ch.len() && f != g implies #[trigger] zones(b, f, g) by {
        assert(zones(a, f, g));
        if a.ch[f].len() > 0 { lem_tail_rec(a, b, f, a.ch[f].len() - 1); }
        if a.ch[g].len() > 0 { lem_tail_rec(a, b, g, a.ch[g].len() - 1); }
    }
    assert forall|f: int, g: int, j: int| 0 <= f < b.ch.len() && 0 <= g < b.ch.len() && 0 <= j < b.ch[g].len() implies #[trigger] out(b, f, g, j) by {
        assert(out(a, f, g, j));
        if a.ch[f].len() > 0 { lem_tail_rec(a, b, f, a.ch[f].len() - 1); }
        lem_tail_rec(a, b, g, j);
    }
    assert forall|f: int, i: int, g: int, j: int| 0 <= f < b.ch.len() && 0 <= i < b.ch[f].len() && 0 <= g < b.ch.len() && 0 <= j < b.ch[g].len() implies #[trigger] disj(b, f, i, g, j) by {
        assert(disj(a, f, i, g, j)); lem_tail_rec(a, b, f, i); lem_tail_rec(a, b, g, j); }
    assert(tb_ok(b));
    assert forall|y: Seq<u8>| #![trigger holds(b, y)] #![trigger holds(a, y)] #![trigger posn(b, y)] #![trigger namef(b, y)] #![trigger posn(a, y)] #![trigger namef(a, y)]
            (holds(b, y) <==> holds(a, y)) && (holds(a, y) ==> posn(b, y) == posn(a, y) && namef(b, y) == namef(a, y)) by {
        let g = hashf(y, a.ch.len() as int);
        lem_hashf(y, a.ch.len() as int);
        if holds(a, y) {
            let j = choose|j: int| #[trigger] has_at(a, y, j);
            lem_tail_rec(a, b, g, j);
            assert(has_at(b, y, j)); lem_uniq(a, y, j); lem_uniq(b, y, j);
        }
        if holds(b, y) {
            let j = choose|j: int| #[trigger] has_at(b, y, j);
            lem_tail_rec(a, b, g, j);
            assert(has_at(a, y, j));
        }
    }
}
/// the table without the bytes behind position l
pub open spec fn core(t: Tb, l: int) -> Tb { Tb { s: t.s.subrange(0, l), ..t } }
pub open spec fn core_ok(t: Tb, l: int) -> bool { 0 <= l <= t.s.len() && tb_ok(core(t, l)) }
pub proof fn lem_core(t: Tb, l: int)
    requires core_ok(t, l)
    ensures tb_ok(t), tail_of(core(t, l), t)
{ lem_tail(core(t, l), t); }
/// writing behind the records changes nothing
pub proof fn lem_behind(a: Tb, b: Tb, l: int)
    requires core_ok(a, l), b.head == a.head, b.rest == a.rest, b.ch == a.ch, b.nb == a.nb, same_out(a.s, b.s, l, a.s.len() as int)
    ensures core_ok(b, l), tb_ok(a), tb_ok(b),
        forall|y: Seq<u8>| #![trigger holds(b, y)] #![trigger holds(a, y)] #![trigger posn(b, y)] #![trigger namef(b, y)] #![trigger posn(a, y)] #![trigger namef(a, y)]
            (holds(b, y) <==> holds(a, y)) && (holds(a, y) ==> posn(b, y) == posn(a, y) && namef(b, y) == namef(a, y)),
{
    assert(core(a, l).s =~= core(b, l).s);
    lem_tail(core(a, l), a); lem_tail(core(a, l), b);
}
/// naming keeps the records in front of l
pub proof fn lem_core_named(a: Tb, b: Tb, l: int, x: Seq<u8>, v: int)
    requires core_ok(a, l), holds(a, x), renamed(a, b, x, v)
    ensures core_ok(b, l)
{
    let c = core(a, l); let d = core(b, l);
    lem_tail(c, a);
    lem_hashf(x, a.ch.len() as int);
    let k = choose|k: int| #[trigger] has_at(c, x, k); lem_uniq(c, x, k);
    let h = hashf(x, a.ch.len() as int);
    lem_tail_rec(c, a, h, k);
    let q = posn(a, x); let e = q + r_name(a.s, q);
    assert(d.s.len() == c.s.len());
    assert forall|y: int| 0 <= y < c.s.len() && (y < e || y >= e + a.nb) implies #[trigger] d.s[y] == c.s[y] by { assert(b.s[y] == a.s[y]); }
    lem_be_same(b.s, d.s, e, a.nb);
    assert(renamed(c, d, x, v));
    lem_renamed(c, d, x, v);
}

// ---- the collected records
pub open spec fn put_at(ss: Seq<PtrV>, bo: int, ch: Seq<Seq<int>>, g: int, k: int) -> bool { ss[1 + nrec(ch, g) + k] == (PtrV { o: bo, i: ch[g][k] }) }
pub open spec fn collected(ss: Seq<PtrV>, bo: int, ch: Seq<Seq<int>>, i: int, j: int) -> bool {
    forall|g: int, k: int| 0 <= g < ch.len() && 0 <= k < ch[g].len() && (g < i || (g == i && k < j)) ==> #[trigger] put_at(ss, bo, ch, g, k)
}
pub proof fn lem_nrec_le(ch: Seq<Seq<int>>, g: int, h: int)
    requires 0 <= g <= h <= ch.len()
    ensures 0 <= nrec(ch, g) <= nrec(ch, h), g < h ==> nrec(ch, g) + ch[g].len() <= nrec(ch, h)
    decreases h
{ if g < h { lem_nrec_le(ch, g, h - 1); } else if g > 0 { lem_nrec_le(ch, g - 1, g - 1); } }
pub proof fn lem_collect(ss: Seq<PtrV>, st: Seq<PtrV>, bo: int, ch: Seq<Seq<int>>, i: int, j: int)
    requires 0 <= i < ch.len(), 0 <= j < ch[i].len(), collected(ss, bo, ch, i, j), nrec(ch, ch.len() as int) + 1 < ss.len(),
        st == ss.update(1 + nrec(ch, i) + j, PtrV { o: bo, i: ch[i][j] }), 
    ensures collected(st, bo, ch, i, j + 1)
{
    lem_nrec_le(ch, i, ch.len() as int);
    assert forall|g: int, k: int| 0 <= g < ch.len() && 0 <= k < ch[g].len() && (g < i || (g == i && k < j + 1)) implies #[trigger] put_at(st, bo, ch, g, k) by {
        if g < i || k < j { assert(put_at(ss, bo, ch, g, k)); lem_nrec_le(ch, g, i); lem_nrec_le(ch, g, g); }
    }
}
/// which record has index i
proof fn lem_find_rec(ch: Seq<Seq<int>>, i: int, h: int) -> (r: (int, int))
    requires 0 <= h <= ch.len(), 0 <= i < nrec(ch, h)
    ensures 0 <= r.0 < h, 0 <= r.1 < ch[r.0].len(), i == nrec(ch, r.0) + r.1
    decreases h
{ if i < nrec(ch, h - 1) { lem_find_rec(ch, i, h - 1) } else { (h - 1, i - nrec(ch, h - 1)) } }
/// string number i of the list
pub open spec fn strk(t: Tb, ss: Seq<PtrV>, i: int) -> Seq<u8> { rstr(t.s, ss[i].i) }
pub open spec fn elem(t: Tb, ss: Seq<PtrV>, bo: int, i: int) -> bool { ss[i].o == bo && holds(t, strk(t, ss, i)) && posn(t, strk(t, ss, i)) == ss[i].i }
pub open spec fn listed(t: Tb, ss: Seq<PtrV>, bo: int, u: int) -> bool {
    &&& u + 2 <= ss.len()
    &&& forall|i: int| 1 <= i <= u ==> #[trigger] elem(t, ss, bo, i)
    &&& forall|i: int, j: int| 1 <= i <= u && 1 <= j <= u && i != j ==> #[trigger] strk(t, ss, i) != #[trigger] strk(t, ss, j)
    &&& forall|x: Seq<u8>| #[trigger] holds(t, x) ==> exists|i: int| 1 <= i <= u && #[trigger] strk(t, ss, i) == x
}
pub proof fn lem_listed(t: Tb, ss: Seq<PtrV>, bo: int, u: int)
    requires tb_ok(t), collected(ss, bo, t.ch, t.ch.len() as int, 0), u == nrec(t.ch, t.ch.len() as int), u + 2 <= ss.len()
    ensures listed(t, ss, bo, u)
{
    let H = t.ch.len() as int;
    assert forall|i: int| 1 <= i <= u implies #[trigger] elem(t, ss, bo, i) by {
        let (g, k) = lem_find_rec(t.ch, i - 1, H);
        assert(put_at(ss, bo, t.ch, g, k)); assert(at(t, g, k));
        assert(has_at(t, strk(t, ss, i), k)); lem_uniq(t, strk(t, ss, i), k);
    }
    assert forall|i: int, j: int| 1 <= i <= u && 1 <= j <= u && i != j implies #[trigger] strk(t, ss, i) != #[trigger] strk(t, ss, j) by {
        let (g, k) = lem_find_rec(t.ch, i - 1, H); let (f, l) = lem_find_rec(t.ch, j - 1, H);
        assert(put_at(ss, bo, t.ch, g, k)); assert(at(t, g, k)); assert(put_at(ss, bo, t.ch, f, l)); assert(at(t, f, l));
        if g == f { if k < l { assert(dist(t, g, k, l)); } else if l < k { assert(dist(t, g, l, k)); } }
    }
    assert forall|x: Seq<u8>| #[trigger] holds(t, x) implies exists|i: int| 1 <= i <= u && #[trigger] strk(t, ss, i) == x by {
        let k = choose|j: int| #[trigger] has_at(t, x, j); let g = hashf(x, H);
        lem_hashf(x, H); lem_nrec_le(t.ch, g, H); 
        assert(put_at(ss, bo, t.ch, g, k));
        assert(strk(t, ss, 1 + nrec(t.ch, g) + k) == x);
    }
}
/// sorted
pub open spec fn ordered(t: Tb, ss: Seq<PtrV>, u: int) -> bool { forall|i: int, j: int| 1 <= i < j <= u ==> lms_lt(#[trigger] strk(t, ss, i), #[trigger] strk(t, ss, j)) }
pub proof fn lem_sorted(t: Tb, ss: Seq<PtrV>, st: Seq<PtrV>, bo: int, u: int, p: Seq<int>, q: Seq<int>)
    requires listed(t, ss, bo, u), st.len() == ss.len(), is_perm(p, q, u), forall|k: int| 1 <= k < u + 1 ==> #[trigger] st[k] == ss[1 + p[k - 1]],
        forall|i: int, j: int| 1 <= i < j < u + 1 ==> !lms_lt(rstr(t.s, (#[trigger] st[j]).i), rstr(t.s, (#[trigger] st[i]).i)),
    ensures listed(t, st, bo, u), ordered(t, st, u)
{
    assert forall|i: int| 1 <= i <= u implies #[trigger] elem(t, st, bo, i) by { assert(st[i] == ss[1 + p[i - 1]]); assert(elem(t, ss, bo, 1 + p[i - 1])); }
    assert forall|i: int, j: int| 1 <= i <= u && 1 <= j <= u && i != j implies #[trigger] strk(t, st, i) != #[trigger] strk(t, st, j) by {
        assert(st[i] == ss[1 + p[i - 1]]); assert(st[j] == ss[1 + p[j - 1]]); assert(q[p[i - 1]] == i - 1); assert(q[p[j - 1]] == j - 1);
        assert(strk(t, ss, 1 + p[i - 1]) != strk(t, ss, 1 + p[j - 1]));
    }
    assert forall|x: Seq<u8>| #[trigger] holds(t, x) implies exists|i: int| 1 <= i <= u && #[trigger] strk(t, st, i) == x by {
        let k = choose|i: int| 1 <= i <= u && #[trigger] strk(t, ss, i) == x;
        assert(p[q[k - 1]] == k - 1); assert(st[1 + q[k - 1]] == ss[1 + p[q[k - 1]]]);
        assert(strk(t, st, 1 + q[k - 1]) == x);
    }
    assert forall|i: int, j: int| 1 <= i < j <= u implies lms_lt(#[trigger] strk(t, st, i), #[trigger] strk(t, st, j)) by {
        assert(strk(t, st, i) != strk(t, st, j)); lem_lt_total(strk(t, st, i), strk(t, st, j));
        assert(!lms_lt(rstr(t.s, st[j].i), rstr(t.s, st[i].i)));
    }
}

// ---- states of the naming
pub open spec fn head_str(t: Seq<u8>) -> Seq<u8> { t.push(0).subrange(0, nxt(t, 0) + 1) }
pub open spec fn room_of(t: Seq<u8>, nb: int) -> int { 2 + bl(nxt(t, 0) + 1) + nxt(t, 0) + 1 + nb + 4 + nb }
/// the list has been allocated and the buffer made longer
pub open spec fn roomed(a: MemV, m: MemV, c: PtrV, ls: PtrV, bo: int, t: Seq<u8>, tp: PtrV) -> bool {
    let x = o_Container(a, c.o); let h = x.hashtable; let v = o_HashTable(a, h.o); let w = o_HashTable(m, h.o); let l = v.bufsize as int;
    &&& ht_ok(m, h) && core_ok(ht_tb(m, h), l) && is_Container(m, c) && o_Container(m, c.o) == x && live(m, c, 1) && live(m, h, 1) && c.o != h.o
    &&& w == (HashTableV { buf: PtrV { o: bo, i: 0 }, bufsize: w.bufsize, ..v }) && w.bufsize == l + room_of(t, v.NAME_BYTES as int) && w.buf != NUL()
    &&& bo != c.o && bo != h.o && bo != v.rest.o && bo != v.head.o && bo != tp.o && bo != ls.o && v.rest.o != c.o && v.head.o != c.o
    &&& live(m, ls, 0) && m.h[ls.o] is P && ps(m, ls.o).len() == dst(t, 0) + 2 && ls.o == a.nx && c.o < a.nx && h.o < a.nx && v.rest.o < a.nx && v.head.o < a.nx
    &&& w.buf == v.buf || bo == a.nx + 1
    &&& m.gc == a.gc && m.io == a.io && m.gs == a.gs
    &&& forall|y: Seq<u8>| #![trigger holds(ht_tb(m, h), y)] holds(ht_tb(m, h), y) <==> occ(t, y, 0)
    &&& nrec(m.gc[h.o], m.gc[h.o].len() as int) == dst(t, 0) && t.len() / 2 + 1 < p8(v.NAME_BYTES as int)
    &&& frame(a, m, set![h.o, v.buf.o, a.nx, a.nx + 1]) && ht_heap2(a, m, h, ls)
    &&& 0 < tp.o < a.nx && text_at(m, tp, t.len() as int) && t == str_at(m, tp, t.len() as int)
}
/// live objects: the list is new, the buffer may have been replaced
pub open spec fn ht_heap2(a: MemV, b: MemV, p: PtrV, ls: PtrV) -> bool {
    let x = o_HashTable(a, p.o).buf; let y = o_HashTable(b, p.o).buf;
    &&& forall|o: int| #[trigger] b.h.contains_key(o) ==> (a.h.contains_key(o) && (o != x.o || y == x)) || o == y.o || o == ls.o
    &&& b.k[p.o] == a.k[p.o]
}
/// names given to the first n strings of the list
pub open spec fn name_at(t: Tb, ss: Seq<PtrV>, xs: Seq<Seq<u8>>, k: int) -> bool { namef(t, xs[k - 1]) == k }
pub open spec fn place_at(t: Tb, ss: Seq<PtrV>, bo: int, xs: Seq<Seq<u8>>, k: int) -> bool { holds(t, xs[k - 1]) && ss[k] == (PtrV { o: bo, i: posn(t, xs[k - 1]) }) }
pub open spec fn naming(t: Tb, ss: Seq<PtrV>, bo: int, xs: Seq<Seq<u8>>, n: int) -> bool {
    &&& forall|k: int| 1 <= k <= xs.len() ==> #[trigger] place_at(t, ss, bo, xs, k)
    &&& forall|k: int| 1 <= k <= n ==> #[trigger] name_at(t, ss, xs, k)
}
/// the list of strings in their order
pub open spec fn sorted_list(t: Seq<u8>, xs: Seq<Seq<u8>>) -> bool {
    &&& xs.len() == dst(t, 0)
    &&& forall|i: int, j: int| 0 <= i < j < xs.len() ==> lms_lt(#[trigger] xs[i], #[trigger] xs[j])
    &&& forall|x: Seq<u8>| #[trigger] occ(t, x, 0) <==> exists|i: int| 0 <= i < xs.len() && #[trigger] xs[i] == x
}
pub open spec fn str_list(t: Tb, ss: Seq<PtrV>, u: int) -> Seq<Seq<u8>> { Seq::new(u as nat, |i: int| strk(t, ss, i + 1)) }
pub proof fn lem_lt_ntrans(x: Seq<u8>, y: Seq<u8>, z: Seq<u8>)
    requires !lms_lt(x, y), !lms_lt(y, z)
    ensures !lms_lt(x, z)
{
    if lms_lt(x, z) {
        if x != y { lem_lt_total(x, y); lem_lt_trans(y, x, z); }
    }
}
pub proof fn lem_str_list(t: Seq<u8>, tb: Tb, ss: Seq<PtrV>, bo: int, u: int)
    requires listed(tb, ss, bo, u), ordered(tb, ss, u), u == dst(t, 0), u >= 0, forall|y: Seq<u8>| #![trigger holds(tb, y)] holds(tb, y) <==> occ(t, y, 0)
    ensures sorted_list(t, str_list(tb, ss, u)), naming(tb, ss, bo, str_list(tb, ss, u), 0)
{
    let xs = str_list(tb, ss, u);
    assert forall|i: int, j: int| 0 <= i < j < xs.len() implies lms_lt(#[trigger] xs[i], #[trigger] xs[j]) by { assert(lms_lt(strk(tb, ss, i + 1), strk(tb, ss, j + 1))); }
    assert forall|x: Seq<u8>| #[trigger] occ(t, x, 0) <==> exists|i: int| 0 <= i < xs.len() && #[trigger] xs[i] == x by {
        if occ(t, x, 0) { assert(holds(tb, x)); let k = choose|i: int| 1 <= i <= u && #[trigger] strk(tb, ss, i) == x; assert(xs[k - 1] == x); }
        if exists|i: int| 0 <= i < xs.len() && #[trigger] xs[i] == x { let k = choose|i: int| 0 <= i < xs.len() && #[trigger] xs[i] == x; assert(elem(tb, ss, bo, k + 1)); }
    }
    assert forall|k: int| 1 <= k <= xs.len() implies #[trigger] place_at(tb, ss, bo, xs, k) by { assert(elem(tb, ss, bo, k)); }
}
/// one more name
pub proof fn lem_naming(a: Tb, b: Tb, ss: Seq<PtrV>, bo: int, xs: Seq<Seq<u8>>, t: Seq<u8>, i: int)
    requires sorted_list(t, xs), 1 <= i <= xs.len(), naming(a, ss, bo, xs, i - 1), namef(b, xs[i - 1]) == i,
        forall|y: Seq<u8>| #![trigger holds(b, y)] #![trigger holds(a, y)] #![trigger posn(b, y)] #![trigger namef(b, y)]
            (holds(b, y) <==> holds(a, y)) && (holds(a, y) ==> posn(b, y) == posn(a, y) && (y != xs[i - 1] ==> namef(b, y) == namef(a, y))),
    ensures naming(b, ss, bo, xs, i)
{
    assert forall|k: int| 1 <= k <= xs.len() implies #[trigger] place_at(b, ss, bo, xs, k) by { assert(place_at(a, ss, bo, xs, k)); }
    assert forall|k: int| 1 <= k <= i implies #[trigger] name_at(b, ss, xs, k) by {
        if k < i { assert(lms_lt(xs[k - 1], xs[i - 1])); lem_lt_irr(xs[i - 1]); assert(name_at(a, ss, xs, k)); assert(place_at(a, ss, bo, xs, k)); }
    }
}
pub proof fn lem_naming_same(a: Tb, b: Tb, ss: Seq<PtrV>, st: Seq<PtrV>, bo: int, xs: Seq<Seq<u8>>, n: int)
    requires naming(a, ss, bo, xs, n), n <= xs.len(), xs.len() < ss.len(), forall|k: int| 1 <= k <= xs.len() ==> #[trigger] st[k] == ss[k],
        forall|y: Seq<u8>| #![trigger holds(b, y)] #![trigger holds(a, y)] #![trigger posn(b, y)] #![trigger namef(b, y)] #![trigger posn(a, y)] #![trigger namef(a, y)]
            (holds(b, y) <==> holds(a, y)) && (holds(a, y) ==> posn(b, y) == posn(a, y) && namef(b, y) == namef(a, y)),
    ensures naming(b, st, bo, xs, n)
{
    assert forall|k: int| 1 <= k <= xs.len() implies #[trigger] place_at(b, st, bo, xs, k) by { assert(place_at(a, ss, bo, xs, k)); }
    assert forall|k: int| 1 <= k <= n implies #[trigger] name_at(b, st, xs, k) by { assert(name_at(a, ss, xs, k)); assert(place_at(a, ss, bo, xs, k)); }
}
/// the record of the leading part
pub open spec fn head_part(s: Seq<u8>, q: int, t: Seq<u8>, nb: int, name: int, n: int) -> bool {
    let x = head_str(t); let k = bl(x.len() as int);
    &&& s[q] == k && be(s, q + 1, k) == x.len() && s[q + 1 + k] == (t[0] + 1) % 256 && be(s, q + 2 + k + x.len(), nb) == name
    &&& forall|e: int| q + 2 + k <= e < q + 2 + k + n ==> #[trigger] s[e] == x[e - (q + 2 + k)]
}
pub proof fn lem_head_keep(s: Seq<u8>, w: Seq<u8>, q: int, t: Seq<u8>, nb: int, name: int, n: int, lo: int, hi: int)
    requires head_part(s, q, t, nb, name, n), same_out(s, w, lo, hi), 0 <= q, 0 <= nb, t.len() >= 1, 0 <= n <= nxt(t, 0) + 1,
        ({ let x = head_str(t); let k = bl(x.len() as int); q + 2 + k + x.len() + nb <= s.len() && ((q + 2 + k + n <= lo && hi <= q + 2 + k + x.len()) || lo >= q + 2 + k + x.len() + nb) })
    ensures head_part(w, q, t, nb, name, n)
{
    let x = head_str(t); let k = bl(x.len() as int);
    lem_nxt(t, 0);
    assert(1 <= k <= 8) by { reveal(bl); }
    lem_be_same(s, w, q + 1, k); lem_be_same(s, w, q + 2 + k + x.len(), nb);
    assert(w[q] == s[q]); assert(w[q + 1 + k] == s[q + 1 + k]);
    assert forall|e: int| q + 2 + k <= e < q + 2 + k + n implies #[trigger] w[e] == x[e - (q + 2 + k)] by { assert(w[e] == s[e]); }
}
/// the record of the end marker
pub open spec fn end_part(s: Seq<u8>, q: int, n: int) -> bool { s[q] == 1 && be(s, q + 1, 1) == 1 && s[q + 2] == 0 && be(s, q + 4, n) == 0 }

// ---- the result
/// string number i of the list: its name, and the byte in front of it
pub open spec fn named_at(t: Tb, ss: Seq<PtrV>, i: int) -> bool {
    let x = strk(t, ss, i); let q = ss[i].i;
    namef(t, x) == i && rec_ok(t.s, t.nb, q) && rnm(t.s, t.nb, q) == i && t.s[q + 1 + t.s[q]] > x[0]
}
/// the records of the substrings lie in front of that of the leading part, all of them in front of the end marker's
pub open spec fn ends_low(s: Seq<u8>, ss: Seq<PtrV>, u: int) -> bool {
    &&& forall|i: int| 1 <= i <= u + 1 ==> 0 <= (#[trigger] ss[i]).i && ss[i].i + r_name(s, ss[i].i) <= ss[0].i
    &&& forall|i: int| 1 <= i <= u ==> (#[trigger] ss[i]).i + r_name(s, ss[i].i) <= ss[u + 1].i
}
pub open spec fn named(m: MemV, h: PtrV, ls: PtrV, t: Seq<u8>) -> bool {
    let v = o_HashTable(m, h.o); let tb = ht_tb(m, h); let ss = ps(m, ls.o); let u = dst(t, 0);
    &&& live(m, ls, 0) && m.h[ls.o] is P && ss.len() == u + 2 && v.buf != NUL()
    &&& listed(tb, ss, v.buf.o, u) && ordered(tb, ss, u) && ends_low(tb.s, ss, u)
    &&& forall|i: int| 1 <= i <= u ==> #[trigger] named_at(tb, ss, i)
    &&& forall|x: Seq<u8>| #![trigger holds(tb, x)] holds(tb, x) <==> occ(t, x, 0)
    &&& ss[u + 1].o == v.buf.o && rec_in(m, ss[u + 1], tb.nb) && rstr(tb.s, ss[u + 1].i) == head_str(t) && rnm(tb.s, tb.nb, ss[u + 1].i) == u + 1 && tb.s[ss[u + 1].i + 1 + tb.s[ss[u + 1].i]] == (t[0] + 1) % 256
    &&& ss[0].o == v.buf.o && rec_in(m, ss[0], tb.nb) && r_len(tb.s, ss[0].i) == 1 && rnm(tb.s, tb.nb, ss[0].i) == 0 && tb.s[ss[0].i + 1 + tb.s[ss[0].i]] == 0
}
/// lowest and highest record
pub open spec fn bounds(c: ContainerV, ss: Seq<PtrV>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> c.min_ptr.i <= (#[trigger] ss[i]).i <= c.max_ptr.i
    &&& (exists|i: int| 0 <= i < n && #[trigger] ss[i] == c.min_ptr) && (exists|i: int| 0 <= i < n && #[trigger] ss[i] == c.max_ptr)
}
pub open spec fn spans(m: MemV, c: PtrV, ls: PtrV) -> bool {
    let x = o_Container(m, c.o); let s = ht_tb(m, x.hashtable).s; let ss = ps(m, ls.o); let u = x.num_of_unique_substrings;
    &&& bounds(x, ss, u + 2) && x.lastptr == pi(ss[u + 1], r_str(s, ss[u + 1].i))
    &&& x.bwp_width == bitlen((x.max_ptr.i - x.min_ptr.i + 2) as nat) && x.bwp_base == pi(x.min_ptr, -1)
    &&& x.sa_max_value == x.max_ptr.i + r_str(s, x.max_ptr.i) + r_len(s, x.max_ptr.i) - 1 - x.bwp_base.i
}
pub proof fn lem_names_in(m: MemV, h: PtrV, ls: PtrV, t: Seq<u8>)
    requires named(m, h, ls, t)
    ensures names_in(m, h, dst(t, 0))
{
    let tb = ht_tb(m, h); let ss = ps(m, ls.o); let u = dst(t, 0);
    assert forall|x: Seq<u8>| holds(tb, x) implies 1 <= #[trigger] namef(tb, x) <= u by { let i = choose|i: int| 1 <= i <= u && #[trigger] strk(tb, ss, i) == x; assert(named_at(tb, ss, i)); }
}
/// the finished list and table, as values
pub open spec fn finished(t: Seq<u8>, a: Tb, b: Tb, s3: Seq<PtrV>, s7: Seq<PtrV>, bo: int, xs: Seq<Seq<u8>>, l: int, q2: int) -> bool {
    let u = dst(t, 0); let k = bl(nxt(t, 0) + 1); let hl = nxt(t, 0) + 1;
    &&& core_ok(a, l) && naming(a, s3, bo, xs, u) && sorted_list(t, xs) && s3.len() == u + 2 && u >= 0 && 1 <= t.len() < 0x10_0000_0000_0000 && 1 <= a.nb <= 8
    &&& forall|y: Seq<u8>| #![trigger holds(a, y)] holds(a, y) <==> occ(t, y, 0)
    &&& b.head == a.head && b.rest == a.rest && b.ch == a.ch && b.nb == a.nb && same_out(a.s, b.s, l, a.s.len() as int)
    &&& s7 == s3.update(u + 1, PtrV { o: bo, i: l }).update(0, PtrV { o: bo, i: q2 }) && q2 == l + 2 + k + hl + a.nb && q2 + 4 + a.nb <= b.s.len() && 0 <= l
    &&& head_part(b.s, l, t, a.nb, u + 1, hl) && end_part(b.s, q2, a.nb)
}
pub proof fn lem_finished(t: Seq<u8>, a: Tb, b: Tb, s3: Seq<PtrV>, s7: Seq<PtrV>, bo: int, xs: Seq<Seq<u8>>, l: int, q2: int)
    requires finished(t, a, b, s3, s7, bo, xs, l, q2)
    ensures core_ok(b, l), tb_ok(b), listed(b, s7, bo, dst(t, 0)), ordered(b, s7, dst(t, 0)), forall|i: int| 1 <= i <= dst(t, 0) ==> #[trigger] named_at(b, s7, i),
        forall|y: Seq<u8>| #![trigger holds(b, y)] holds(b, y) <==> occ(t, y, 0), rstr(b.s, l) == head_str(t), rnm(b.s, b.nb, l) == dst(t, 0) + 1, r_len(b.s, q2) == 1, rnm(b.s, b.nb, q2) == 0, r_len(b.s, l) == nxt(t, 0) + 1,
        forall|i: int| 1 <= i <= dst(t, 0) ==> rec_ok(b.s, b.nb, #[trigger] s7[i].i) && s7[i].o == bo, 1 <= b.s[l] <= 8, ends_low(b.s, s7, dst(t, 0)),
{
    let u = dst(t, 0);
    lem_nxt(t, 0);
    lem_behind(a, b, l);
    assert forall|k: int| 1 <= k <= xs.len() implies #[trigger] s7[k] == s3[k] by { }
    lem_naming_same(a, b, s3, s7, bo, xs, u);
    assert forall|i: int| 1 <= i <= u implies elem(b, s7, bo, i) && strk(b, s7, i) == xs[i - 1] && rec_ok(b.s, b.nb, #[trigger] s7[i].i) && rnm(b.s, b.nb, s7[i].i) == i && s7[i].i + r_name(b.s, s7[i].i) <= l by {
        assert(place_at(b, s7, bo, xs, i)); assert(name_at(b, s7, xs, i));
        let x = xs[i - 1]; lem_hashf(x, b.ch.len() as int);
        let k = choose|k: int| #[trigger] has_at(b, x, k); lem_uniq(b, x, k); assert(at(b, hashf(x, b.ch.len() as int), k)); lem_tail(core(b, l), b); lem_tail_rec(core(b, l), b, hashf(x, b.ch.len() as int), k); assert(at(core(b, l), hashf(x, b.ch.len() as int), k)); }
    assert forall|i: int| 1 <= i <= u implies #[trigger] elem(b, s7, bo, i) by { assert(rec_ok(b.s, b.nb, s7[i].i)); }
    assert forall|i: int| 1 <= i <= u implies #[trigger] strk(b, s7, i) == xs[i - 1] by { assert(rec_ok(b.s, b.nb, s7[i].i)); }
    assert forall|i: int, j: int| 1 <= i <= u && 1 <= j <= u && i != j implies #[trigger] strk(b, s7, i) != #[trigger] strk(b, s7, j) by {
        if i < j { assert(lms_lt(xs[i - 1], xs[j - 1])); lem_lt_irr(xs[i - 1]); } else { assert(lms_lt(xs[j - 1], xs[i - 1])); lem_lt_irr(xs[i - 1]); } }
    assert forall|x: Seq<u8>| #[trigger] holds(b, x) implies exists|i: int| 1 <= i <= u && #[trigger] strk(b, s7, i) == x by {
        assert(occ(t, x, 0)); let k = choose|i: int| 0 <= i < xs.len() && #[trigger] xs[i] == x; assert(strk(b, s7, k + 1) == x); }
    assert forall|i: int, j: int| 1 <= i < j <= u implies lms_lt(#[trigger] strk(b, s7, i), #[trigger] strk(b, s7, j)) by { assert(lms_lt(xs[i - 1], xs[j - 1])); }
    assert forall|i: int| 1 <= i <= u implies #[trigger] named_at(b, s7, i) by {
        assert(rec_ok(b.s, b.nb, s7[i].i)); assert(name_at(b, s7, xs, i)); assert(xs[i - 1] == strk(b, s7, i)); assert(occ(t, xs[i - 1], 0)); lem_guard(t, xs[i - 1]); }
    assert(1 <= b.s[l] <= 8) by { reveal(bl); }
    assert(ends_low(b.s, s7, u));
    let k = b.s[l] as int;
    assert(rstr(b.s, l) =~= head_str(t)) by { assert forall|e: int| 0 <= e < nxt(t, 0) + 1 implies rstr(b.s, l)[e] == head_str(t)[e] by { assert(b.s[l + 2 + k + e] == head_str(t)[l + 2 + k + e - (l + 2 + k)]); } }
}
/// the state after sort_LMS_strings
pub open spec fn sorted_post(a: MemV, b: MemV, cp: PtrV, ls: PtrV, t: Seq<u8>) -> bool {
    let c = o_Container(a, cp.o); let e = o_Container(b, cp.o); let h = c.hashtable;
    &&& named(b, h, ls, t) && spans(b, cp, ls) && cn_ok(b, cp) && names_in(b, h, dst(t, 0))
    &&& e == (ContainerV { lastptr: e.lastptr, min_ptr: e.min_ptr, max_ptr: e.max_ptr, bwp_width: e.bwp_width, bwp_base: e.bwp_base, sa_max_value: e.sa_max_value, ..c })
    &&& o_HashTable(b, h.o) == (HashTableV { buf: o_HashTable(b, h.o).buf, bufsize: o_HashTable(b, h.o).bufsize, ..o_HashTable(a, h.o) }) && (o_HashTable(b, h.o).buf == o_HashTable(a, h.o).buf || o_HashTable(b, h.o).buf.o == a.nx + 1)
    &&& tb_subs(b, h, t, 0) && b.gc == a.gc && ls.o == a.nx && ht_heap2(a, b, h, ls) && frame(a, b, set![cp.o, h.o, o_HashTable(a, h.o).buf.o, a.nx, a.nx + 1])
}
pub proof fn lem_sorted_post(a: MemV, m1: MemV, b: MemV, cp: PtrV, ls: PtrV, bo: int, t: Seq<u8>, tp: PtrV, t4: Tb, s3: Seq<PtrV>, s7: Seq<PtrV>, b7: Seq<u8>, ce: ContainerV, xs: Seq<Seq<u8>>, l: int, q2: int)
    requires wf(m1), wf(a), roomed(a, m1, cp, ls, bo, t, tp), b == put(put(put(m1, ls.o, Obj::P(s7)), bo, Obj::U8(b7)), cp.o, Obj::Container(ce)), 
        finished(t, t4, Tb { s: b7, ..t4 }, s3, s7, bo, xs, l, q2), ht_tb(b, o_Container(a, cp.o).hashtable) == (Tb { s: b7, ..t4 }), b7.len() == u8s(m1, bo).len(), b7.len() < 0x4000_0000_0000_0000,
        ce == (ContainerV { lastptr: ce.lastptr, min_ptr: ce.min_ptr, max_ptr: ce.max_ptr, bwp_width: ce.bwp_width, bwp_base: ce.bwp_base, sa_max_value: ce.sa_max_value, ..o_Container(a, cp.o) }),
        ce.num_of_unique_substrings == dst(t, 0), bounds(ce, s7, dst(t, 0) + 2), ce.lastptr == (PtrV { o: bo, i: l + 2 + bl(nxt(t, 0) + 1) }), ce.bwp_width == bitlen((ce.max_ptr.i - ce.min_ptr.i + 2) as nat), ce.bwp_base == pi(ce.min_ptr, -1),
        ce.sa_max_value == ce.max_ptr.i + r_str(b7, ce.max_ptr.i) + r_len(b7, ce.max_ptr.i) - 1 - ce.bwp_base.i,
    ensures sorted_post(a, b, cp, ls, t)
{
    let h = o_Container(a, cp.o).hashtable; let u = dst(t, 0); let tb = Tb { s: b7, ..t4 };
    lem_nxt(t, 0);
    lem_finished(t, t4, tb, s3, s7, bo, xs, l, q2);
    assert(o_HashTable(b, h.o) == o_HashTable(m1, h.o));
    assert(named(b, h, ls, t));
    lem_names_in(b, h, ls, t);
    assert(cn_ok(b, cp));
    assert(frame(a, b, set![cp.o, h.o, o_HashTable(a, h.o).buf.o, a.nx, a.nx + 1]));
    assert(ht_heap2(a, b, h, ls));
}
