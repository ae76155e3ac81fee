// uses: sheap
// What the sorters' contracts mean for a caller that only knows the packed string and its arrays.
pub proof fn lem_sais_in(m: MemV, t: PtrV, s: Seq<PtrV>, w: int, cs: int, n: int, k: int)
    requires okw(w), str_ok(m, t, cs, n, k, w), vok(w, m, s, n), !vobjs(w, s).contains(t.o)
    ensures rok(w, m, s, n), n < mxw(w) - 1, forall|tv: Seq<PtrV>| #[trigger] txok(w, m, t, tv, cs, n, k), forall|tv: Seq<PtrV>| #[trigger] tsep(w, t, tv, cs, n, s, n), forall|tv: Seq<PtrV>| #[trigger] txs(w, m, t, tv, cs, n) == pstr(m, t, cs, n)
{
    lem_mxw(w); reveal(rok);
    assert forall|tv: Seq<PtrV>| #[trigger] txs(w, m, t, tv, cs, n) == pstr(m, t, cs, n) by { assert(txs(w, m, t, tv, cs, n) =~= pstr(m, t, cs, n)); }
    assert forall|tv: Seq<PtrV>| #[trigger] txok(w, m, t, tv, cs, n, k) by { reveal(txok); assert(txs(w, m, t, tv, cs, n) == pstr(m, t, cs, n)); }
    assert forall|tv: Seq<PtrV>| #[trigger] tsep(w, t, tv, cs, n, s, n) by { reveal(tsep); }
}
proof fn lem_eqo(a: Obj, b: Obj)
    requires shp(a, b), forall|i: int| #[trigger] ce(b, i) == ce(a, i)
    ensures a == b
{
    match (a, b) {
        (Obj::U8(x), Obj::U8(y)) => { assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(ce(b, i) == ce(a, i)); } assert(x =~= y); }
        (Obj::U16(x), Obj::U16(y)) => { assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(ce(b, i) == ce(a, i)); } assert(x =~= y); }
        (Obj::U32(x), Obj::U32(y)) => { assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(ce(b, i) == ce(a, i)); } assert(x =~= y); }
        (Obj::U64(x), Obj::U64(y)) => { assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(ce(b, i) == ce(a, i)); } assert(x =~= y); }
        _ => { }
    }
}
pub proof fn lem_sais_out(a: MemV, b: MemV, w: int, s: Seq<PtrV>, n: int)
    requires okw(w), vok(w, a, s, n), frc(a, b, cells(s, n))
    ensures only(a, b, vobjs(w, s)), vok(w, b, s, n)
{
    reveal(frc); reveal(cells); let z = cells(s, n);
    assert forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)] b.h.contains_key(o) == a.h.contains_key(o) && (!vobjs(w, s).contains(o) && b.h.contains_key(o) ==> b.h[o] == a.h[o]) by {
        assert(b.h.contains_key(o) == a.h.contains_key(o));
        if !vobjs(w, s).contains(o) && b.h.contains_key(o) {
            assert forall|i: int| #[trigger] ce(b.h[o], i) == ce(a.h[o], i) by { assert(!z.contains((o, i))); }
            lem_eqo(a.h[o], b.h[o]);
        }
    }
    assert(b.h.contains_key(s[0].o)); if s.len() > 1 { assert(b.h.contains_key(s[1].o)); } if s.len() > 2 { assert(b.h.contains_key(s[2].o)); }
}
