// uses: iheap
// The induction in terms of the heap: what holds between the statements of induce_bwt.
pub open spec fn icx(g: Ih) -> Ic { let x = o_Container(g.m0, g.c.o); Ic { t: gtext(g.m0, g.c), xs: gpos(g.m0, g.c), b: u8s(g.m0, x.bwp_base.o), lp: x.lastptr.i, lo: x.bwp_base.i, w: g.w } }
pub open spec fn ga(g: Ih, a: ISet<int>) -> Ih { Ih { a: a, ..g } }
pub open spec fn slots(a: int, b: int, c: int, d: int, e: int, f: int) -> ISet<int> { ISet::new(|i: int| a <= i < b || c <= i < d || e <= i < f) }
pub open spec fn nov() -> Seq<Seq<u64>> { Seq::new(774, |i: int| Seq::empty()) }
pub open spec fn cut(v: Seq<Seq<u64>>, s: ISet<int>) -> Seq<Seq<u64>> { Seq::new(774, |i: int| if s.contains(i) { v[i] } else { Seq::empty() }) }
#[verifier::opaque]
pub open spec fn rdx(g: Ih) -> bool {
    let x = o_Container(g.m0, g.c.o); let bo = x.bwp_base.o;
    &&& wf(g.m0) && ic_ok(icx(g)) && stats(x, icx(g).t, 0, 0) && g.m0.h.contains_key(bo) && g.m0.h[bo] is U8 && bo != g.c.o && 0 < bo < g.m0.nx && !g.s.contains(bo)
    &&& x.lastptr.o == bo && g.w == x.bwp_width && 1 <= g.w <= 63 && is_Container(g.m0, g.c) && g.m0.h.contains_key(g.c.o)
}
/// the S* suffix i
pub open spec fn at_i(g: Ih, a: Seq<int>, i: int) -> bool { atend(icx(g), a[i], icx(g).xs[i]) }
pub open spec fn ig0(m: MemV, c: PtrV, q: PtrV) -> Ih { Ih { m0: m, c: c, q: q, s: Set::empty(), bw: 0, w: o_Container(m, c.o).bwp_width as int, a: ISet::empty() } }
pub proof fn lem_rdx(m: MemV, c: PtrV, q: PtrV, a: Seq<int>)
    requires induce_ready(m, c, a), wf(m)
    ensures rdx(ig0(m, c, q)), forall|i: int| 0 <= i < a.len() ==> #[trigger] at_i(ig0(m, c, q), a, i)
{ reveal(rdx); }
pub proof fn lem_rdx_x(g: Ih)
    requires rdx(g)
    ensures ({ let x = o_Container(g.m0, g.c.o); let n = icx(g).t.len() as int; &&& 1 <= n < 0x10_0000_0000_0000 && x.n == n && cn_len(x) && ic_ok(icx(g)) && 1 <= g.w <= 63 && x.num_of_substrings == icx(g).xs.len() - 1 && icx(g).xs.len() <= n + 1 })
{ reveal(rdx); lem_num(icx(g).t, 3, 0, 0); }
pub proof fn lem_rdx_g(g: Ih, h: Ih)
    requires rdx(g), h.m0 == g.m0, h.c == g.c, h.w == g.w, !h.s.contains(o_Container(g.m0, g.c.o).bwp_base.o)
    ensures rdx(h), icx(h) == icx(g)
{ reveal(rdx); }
/// a slot ready for use
pub open spec fn qsl(g: Ih, m: MemV, i: int) -> bool {
    &&& m.h.contains_key(g.q.o) && m.h[g.q.o] is P && ps(m, g.q.o).len() == 774 && g.q.i == 0
    &&& ({ let p = slo(m, g.q, i); q_ok(m, p) && q_w(m, p) == g.w && m.k[p.o] == 1 && m.own[p.o] == 0 && p.o > 0 && p.i == 0 && m.h.contains_key(p.o) })
}
pub proof fn lem_qslot(g: Ih, m: MemV, i: int)
    requires hp(g, m), g.a.contains(i)
    ensures qsl(g, m, i), hv(g, m)[i] == q_seq(m, slo(m, g.q, i)), q_n(m, slo(m, g.q, i)) == hv(g, m)[i].len(), 0 <= i < 774
{ reveal(hp); assert(hslot(g, m, i)); assert(q_gen(m, slo(m, g.q, i))); }
pub proof fn lem_hopen(g: Ih, m: MemV)
    requires hp(g, m)
    ensures hcont(g, m), m.h.contains_key(g.c.o), m.h[g.c.o] is Container, hv(g, m).len() == 774, g.bw != 0 ==> m.h.contains_key(g.bw) && m.h[g.bw] is U8 && g.bw != g.c.o, live(m, g.q, 3), m.h[g.q.o] is P, ps(m, g.q.o).len() == 774, g.q.i == 0
{ reveal(hp); }
/// the buffer of copies
pub proof fn lem_hbuf(g: Ih, m: MemV)
    requires hp(g, m), rdx(g)
    ensures ({ let bo = o_Container(g.m0, g.c.o).bwp_base.o; m.h.contains_key(bo) && m.h[bo] is U8 && u8s(m, bo) == icx(g).b && o_Container(g.m0, g.c.o).lastptr.o == bo && bo > 0 && bo != g.c.o && bo != g.bw })
{ reveal(hp); reveal(hold); reveal(rdx); let bo = o_Container(g.m0, g.c.o).bwp_base.o; assert(g.m0.h.contains_key(bo)); assert(m.h.contains_key(bo)); assert(m.h[bo] == g.m0.h[bo]); }
/// the array of sorted positions
pub proof fn lem_hvec(g: Ih, m: MemV, w: int, s: Seq<PtrV>, n: int)
    requires hp(g, m), g.s == Set::<int>::empty(), wf(g.m0), w == 32 || w == 40 || w == 48 || w == 56 || w == 64, vok(w, g.m0, s, n), !vobjs(w, s).contains(g.c.o)
    ensures vok(w, m, s, n), forall|i: int| #[trigger] vw(w, m, s, i) == vw(w, g.m0, s, i)
{
    reveal(hp); reveal(hold);
    assert forall|o: int| #[trigger] vobjs(w, s).contains(o) implies m.h.contains_key(o) && m.h[o] == g.m0.h[o] && m.k[o] == g.m0.k[o] by {
        assert(g.m0.h.contains_key(o)); assert(m.h.contains_key(o)); assert(m.k[o] == g.m0.k[o]); }
    assert(vobjs(w, s).contains(s[0].o));
    if w != 32 && w != 64 { assert(vobjs(w, s).contains(s[1].o)); }
    if w == 56 { assert(vobjs(w, s).contains(s[2].o)); }
}
/// nothing but queues came or went
#[verifier::opaque]
pub open spec fn keep(g: Ih, m: MemV, v: Seq<Seq<u64>>, k: ContainerV, b: Seq<u8>) -> bool { hp(g, m) && hv(g, m) == v && o_Container(m, g.c.o) == k && (g.bw != 0 ==> u8s(m, g.bw) == b) }
pub proof fn lem_keep(g: Ih, m: MemV, v: Seq<Seq<u64>>, k: ContainerV, b: Seq<u8>)
    requires keep(g, m, v, k, b)
    ensures hp(g, m), hv(g, m) == v, o_Container(m, g.c.o) == k, g.bw != 0 ==> u8s(m, g.bw) == b, live(m, g.q, 3), m.h[g.q.o] is P, ps(m, g.q.o).len() == 774, g.q.i == 0
{ reveal(keep); reveal(hp); }
pub proof fn lem_keep_of(g: Ih, m: MemV)
    requires hp(g, m)
    ensures keep(g, m, hv(g, m), o_Container(m, g.c.o), u8s(m, g.bw))
{ reveal(keep); }
/// the array of queue pointers survives the construction of a queue
pub proof fn lem_new_mid(g: Ih, m: MemV, m1: MemV, m2: MemV)
    requires hp(g, m), wf(m), ({ let o = m.nx; let p = PtrV { o: o, i: 0 };
        &&& exists|x: QueueV| m1 == #[trigger] alc(m, o, Obj::Queue(x), 1)
        &&& q_frame(m1, m2, p) })
    ensures m2.h.contains_key(g.q.o), m2.h[g.q.o] is P, ps(m2, g.q.o).len() == 774, g.q.i == 0
{ reveal(hp); let x = choose|x: QueueV| m1 == #[trigger] alc(m, m.nx, Obj::Queue(x), 1); assert(m.h.contains_key(g.q.o)); assert(m1.own[g.q.o] == 0); assert(m1.h.contains_key(g.q.o)); assert(m2.h[g.q.o] == m.h[g.q.o]); }
pub proof fn lem_keep_new(g: Ih, h: Ih, m: MemV, m1: MemV, m2: MemV, m3: MemV, i: int, v: Seq<Seq<u64>>, k: ContainerV, b: Seq<u8>)
    requires keep(g, m, v, k, b), wf(m), wf(m1), wf(m2), !g.a.contains(i), 0 <= i < 774, h == (Ih { a: h.a, ..g }), h.a =~= g.a.insert(i), ({ let o = m.nx; let p = PtrV { o: o, i: 0 };
        &&& exists|x: QueueV| m1 == #[trigger] alc(m, o, Obj::Queue(x), 1)
        &&& q_ok(m2, p) && q_w(m2, p) == g.w && q_seq(m2, p) == Seq::<u64>::empty() && q_frame(m1, m2, p)
        &&& m3 == put(m2, g.q.o, Obj::P(ps(m2, g.q.o).update(i, p))) })
    ensures keep(h, m3, v, k, b)
{ reveal(keep); lem_hnew(g, m, m1, m2, m3, i); assert(h == Ih { a: g.a.insert(i), ..g }); }
pub proof fn lem_keep_del(g: Ih, h: Ih, m: MemV, m1: MemV, m2: MemV, i: int, v: Seq<Seq<u64>>, v2: Seq<Seq<u64>>, k: ContainerV, b: Seq<u8>)
    requires keep(g, m, v, k, b), wf(m), g.a.contains(i), h == (Ih { a: h.a, ..g }), h.a =~= g.a.remove(i), v2 =~= v.update(i, Seq::empty()), q_ok(m, slo(m, g.q, i)), q_gone(m, m1, slo(m, g.q, i), q_bs(m, slo(m, g.q, i)).len() as int),
        forall|o: int| #![trigger m1.h[o]] #![trigger m1.h.contains_key(o)] m1.h.contains_key(o) == (m.h.contains_key(o) && m.own[o] != slo(m, g.q, i).o), m2 == rm(m1, slo(m, g.q, i).o)
    ensures keep(h, m2, v2, k, b), live(m1, slo(m, g.q, i), 1)
{ reveal(keep); lem_qslot(g, m, i); assert(m.own[slo(m, g.q, i).o] == 0); assert(m1.h.contains_key(slo(m, g.q, i).o));
  lem_hdel(g, m, m1, m2, i); assert(h == Ih { a: g.a.remove(i), ..g }); }
pub proof fn lem_del_mid(g: Ih, m: MemV, m1: MemV, i: int)
    requires hp(g, m), g.a.contains(i), q_gone(m, m1, slo(m, g.q, i), q_bs(m, slo(m, g.q, i)).len() as int),
        forall|o: int| #![trigger m1.h[o]] #![trigger m1.h.contains_key(o)] m1.h.contains_key(o) == (m.h.contains_key(o) && m.own[o] != slo(m, g.q, i).o)
    ensures live(m1, slo(m, g.q, i), 1)
{ lem_qslot(g, m, i); assert(m1.h.contains_key(slo(m, g.q, i).o)); }
// ---- filling the S* queues
#[verifier::opaque]
pub open spec fn filled(g: Ih, m: MemV, k: int) -> bool {
    &&& hp(g, m) && rdx(g) && g.a == slots(0, 258, 258, 516, 516, 774) && o_Container(m, g.c.o) == o_Container(g.m0, g.c.o)
    &&& forall|b: int| 0 <= b < 516 ==> (#[trigger] hv(g, m)[b]).len() == 0
    &&& forall|b: int| 0 <= b < 258 ==> #[trigger] fill_b(g, hv(g, m), k, b)
}
pub open spec fn fill_b(g: Ih, v: Seq<Seq<u64>>, k: int, b: int) -> bool { let x = icx(g); ls_lms(x, v[516 + b], cl(k, lst(x.t, x.xs, b), lst(x.t, x.xs, b + 1)), lst(x.t, x.xs, b + 1)) }
pub proof fn lem_fill0(g: Ih, m: MemV, b: Seq<u8>)
    requires keep(g, m, nov(), o_Container(g.m0, g.c.o), b), rdx(g), g.a =~= slots(0, 258, 258, 516, 516, 774)
    ensures filled(g, m, icx(g).xs.len() as int)
{
    reveal(filled); reveal(keep); lem_rdx_x(g); let x = icx(g);
    assert forall|b: int| 0 <= b < 258 implies #[trigger] fill_b(g, hv(g, m), x.xs.len() as int, b) by { lem_lst_mono(x.t, x.xs, b, b + 1); lem_lst_mono(x.t, x.xs, b + 1, 258); lem_lst_ends(x.t, x.xs); }
}
/// the slot of S* suffix i
pub open spec fn fslot(g: Ih, i: int) -> int { 516 + bk(icx(g).t, icx(g).xs[i]) }
pub proof fn lem_fill_pre(g: Ih, m: MemV, k: int, v: int)
    requires filled(g, m, k + 1), 0 <= k < icx(g).xs.len(), atend(icx(g), v, icx(g).xs[k])
    ensures 516 <= fslot(g, k) < 774, qsl(g, m, fslot(g, k)), q_n(m, slo(m, g.q, fslot(g, k))) < 0x4000_0000_0000_0000, 0 <= v < pow2(g.w as nat), pow2(g.w as nat) <= pow2(63), hp(g, m),
        k == 0 ==> fslot(g, k) == 516, k != 0 ==> ({ let bp = o_Container(g.m0, g.c.o).bwp_base; m.h.contains_key(bp.o) && m.h[bp.o] is U8 && 0 <= bp.i + v < u8s(m, bp.o).len() && fslot(g, k) == 516 + u8s(m, bp.o)[bp.i + v] + 1 })
{
    reveal(filled); let x = icx(g); lem_rdx_x(g); lem_lst_ends(x.t, x.xs);
    assert(lms(x.t, x.xs[k]));
    lem_adr_lms(x, v, x.xs[k]); lem_hbuf(g, m);
    let b = bk(x.t, x.xs[k]);
    assert(fill_b(g, hv(g, m), k + 1, b)); lem_lst_mono(x.t, x.xs, b + 1, 258); lem_lst_mono(x.t, x.xs, b, b + 1); lem_lst_mono(x.t, x.xs, 0, b);
    lem_qslot(g, m, fslot(g, k));
    if g.w < 63 { lemma_pow2_strictly_increases(g.w as nat, 63); }
}
pub proof fn lem_fill_step(g: Ih, m: MemV, m2: MemV, k: int, v: u64)
    requires filled(g, m, k + 1), wf(m), wf(m2), 0 <= k < icx(g).xs.len(), atend(icx(g), v as int, icx(g).xs[k]), ({ let q = slo(m, g.q, fslot(g, k)); q_ok(m2, q) && q_w(m2, q) == q_w(m, q) && q_seq(m2, q) == seq![v] + q_seq(m, q) && q_frame(m, m2, q) })
    ensures filled(g, m2, k)
{
    lem_fill_pre(g, m, k, v as int);
    reveal(filled); lem_rdx_x(g); let x = icx(g); let b0 = bk(x.t, x.xs[k]); let i = fslot(g, k);
    lem_qslot(g, m, i);
    lem_hq(g, m, m2, i);
    let va = hv(g, m); let vb = hv(g, m2);
    assert(vb == va.update(i, seq![v] + va[i]));
    assert forall|b: int| 0 <= b < 516 implies (#[trigger] vb[b]).len() == 0 by { assert(vb[b] == va[b]); }
    lem_lst(x.t, x.xs, k, b0); lem_lst(x.t, x.xs, k, b0 + 1);
    assert forall|b: int| 0 <= b < 258 implies #[trigger] fill_b(g, vb, k, b) by {
        assert(fill_b(g, va, k + 1, b));
        lem_lst_mono(x.t, x.xs, b, b + 1);
        if b == b0 {
            let q = va[i]; let p = vb[i];
            assert forall|j: int| 0 <= j < p.len() implies atend(x, #[trigger] p[j] as int, x.xs[k + j]) by { if j > 0 { assert(p[j] == q[j - 1]); assert(k + j == k + 1 + (j - 1)); } }
        } else {
            assert(vb[516 + b] == va[516 + b]);
            lem_lst(x.t, x.xs, k, b); lem_lst(x.t, x.xs, k, b + 1);
            if b < b0 { lem_lst_mono(x.t, x.xs, b + 1, b0); }
        }
    }
}

// ---- the columns of the container
pub proof fn lem_cum(g: Ih, b: int)
    requires rdx(g), 0 <= b < 258
    ensures ({ let x = o_Container(g.m0, g.c.o); let t = icx(g).t; &&& bs(t, 0) == 0 && bs(t, b + 1) == bs(t, b) + x.M[b] && bsl(t, b) == bs(t, b) + x.NL[b] && 0 <= bs(t, b) <= bsl(t, b) <= bs(t, b + 1) <= t.len() + 1 && t.len() < 0x10_0000_0000_0000 && cn_len(x) && x.C[b] <= x.M[b] })
{
    reveal(rdx); let x = o_Container(g.m0, g.c.o); let t = icx(g).t;
    lem_bs_ends(t); lem_bs_mono(t, b, b + 1);
    if 1 <= b <= 256 { lem_bs_step(t, b); assert(x.M[b] == num(t, 0, b - 1, 0)); assert(x.NL[b] == num(t, 1, b - 1, 0)); assert(x.C[b] == num(t, 2, b - 1, 0)); lem_num_l(t, b - 1, 0); }
}
proof fn lem_num_l(t: Seq<u8>, c: int, i: int)
    requires 0 <= i <= t.len()
    ensures num(t, 2, c, i) <= num(t, 0, c, i)
    decreases t.len() - i
{ if i < t.len() { lem_num_l(t, c, i + 1); } }
/// the fronts of the buckets below i are set
#[verifier::opaque]
pub open spec fn fronts(g: Ih, m: MemV, i: int, v: Seq<Seq<u64>>) -> bool {
    &&& hp(g, m) && rdx(g) && hv(g, m) == v && 0 <= i <= 258 && g.bw != 0 && u8s(m, g.bw).len() == icx(g).t.len() + 1
    &&& forall|b: int| 0 <= b < i ==> #[trigger] o_Container(m, g.c.o).M2[b] == bs(icx(g).t, b)
    &&& forall|b: int| 0 <= b < i ==> #[trigger] o_Container(m, g.c.o).M3[b] == bs(icx(g).t, b)
}
pub open spec fn cput(m: MemV, c: int, k: ContainerV) -> MemV { put(m, c, Obj::Container(k)) }
pub proof fn lem_hcol(g: Ih, m: MemV, m2: MemV, k: ContainerV)
    requires hp(g, m), wf(m), m2 == (MemV { h: m2.h, ..m }), m2.h =~= m.h.insert(g.c.o, Obj::Container(k)), ({ let x = o_Container(m, g.c.o); k == (ContainerV { M2: k.M2, M3: k.M3, C2: k.C2, ..x }) && k.M2.len() == 258 && k.M3.len() == 258 && k.C2.len() == 258 })
    ensures hp(g, m2), hv(g, m2) == hv(g, m), o_Container(m2, g.c.o) == k, g.bw != 0 ==> u8s(m2, g.bw) == u8s(m, g.bw)
{ lem_hopen(g, m); assert(hcont(g, m2)); lem_hcb(g, m, m2); }
pub proof fn lem_front(g: Ih, m: MemV, m2: MemV, i: int, v: Seq<Seq<u64>>, x: u64)
    requires fronts(g, m, i, v), wf(m), i < 258, x == bs(icx(g).t, i), m2 == (MemV { h: m2.h, ..m }), ({ let y = o_Container(m, g.c.o); m2.h =~= m.h.insert(g.c.o, Obj::Container(ContainerV { M2: y.M2.update(i, x), M3: y.M3.update(i, x), ..y })) })
    ensures fronts(g, m2, i + 1, v)
{ reveal(fronts); lem_hopen(g, m); let y = o_Container(m, g.c.o); lem_hcol(g, m, m2, ContainerV { M2: y.M2.update(i, x), M3: y.M3.update(i, x), ..y }); }
pub proof fn lem_front_x(g: Ih, m: MemV, i: int, v: Seq<Seq<u64>>)
    requires fronts(g, m, i, v)
    ensures hcont(g, m), m.h.contains_key(g.c.o), m.h[g.c.o] is Container, cn_len(o_Container(m, g.c.o)), i < 258 ==> o_Container(m, g.c.o).M[i] == o_Container(g.m0, g.c.o).M[i] && bs(icx(g).t, i + 1) == bs(icx(g).t, i) + o_Container(m, g.c.o).M[i] && 0 <= bs(icx(g).t, i) <= bs(icx(g).t, i + 1) < 0x20_0000_0000_0000
{ reveal(fronts); lem_hopen(g, m); lem_rdx_x(g); if i < 258 { lem_cum(g, i); } }
pub proof fn lem_front0(g: Ih, m: MemV)
    requires hp(g, m), rdx(g), g.bw != 0, u8s(m, g.bw).len() == icx(g).t.len() + 1
    ensures fronts(g, m, 0, hv(g, m))
{ reveal(fronts); }
#[verifier::opaque]
pub open spec fn backs(g: Ih, m: MemV, i: int, v: Seq<Seq<u64>>) -> bool {
    &&& fronts(g, m, 258, v) && 0 <= i <= 258
    &&& forall|b: int| 0 <= b < i ==> #[trigger] o_Container(m, g.c.o).C2[b] == bsl(icx(g).t, b)
}
pub proof fn lem_back0(g: Ih, m: MemV, v: Seq<Seq<u64>>)
    requires fronts(g, m, 258, v)
    ensures backs(g, m, 0, v)
{ reveal(backs); }
pub proof fn lem_back_x(g: Ih, m: MemV, i: int, v: Seq<Seq<u64>>)
    requires backs(g, m, i, v), 0 <= i < 258
    ensures hcont(g, m), m.h.contains_key(g.c.o), m.h[g.c.o] is Container, cn_len(o_Container(m, g.c.o)), bsl(icx(g).t, i) == o_Container(m, g.c.o).M2[i] + o_Container(m, g.c.o).NL[i], bsl(icx(g).t, i) < 0x20_0000_0000_0000
{ reveal(backs); reveal(fronts); lem_hopen(g, m); lem_rdx_x(g); lem_cum(g, i); }
pub proof fn lem_back(g: Ih, m: MemV, m2: MemV, i: int, v: Seq<Seq<u64>>, x: u64)
    requires backs(g, m, i, v), wf(m), i < 258, x == bsl(icx(g).t, i), m2 == (MemV { h: m2.h, ..m }), ({ let y = o_Container(m, g.c.o); m2.h =~= m.h.insert(g.c.o, Obj::Container(ContainerV { C2: y.C2.update(i, x), ..y })) })
    ensures backs(g, m2, i + 1, v)
{ reveal(backs); reveal(fronts); lem_hopen(g, m); let y = o_Container(m, g.c.o); lem_hcol(g, m, m2, ContainerV { C2: y.C2.update(i, x), ..y }); }
// ---- first pass
#[verifier::opaque]
pub open spec fn ph1(g: Ih, m: MemV, r: int, last: int) -> bool {
    &&& hp(g, m) && rdx(g) && g.a == slots(0, 258, 258, 516, 516, 774) && g.bw != 0 && p1(icx(g), r, hst(g, m, last))
    &&& forall|b: int| 0 <= b < 258 ==> #[trigger] o_Container(m, g.c.o).M3[b] == bs(icx(g).t, b)
}
pub open spec fn loc1(g: Ih, r: int, c: int, tt: int) -> bool { let t = icx(g).t; 0 <= c < 258 && (tt == 1 && bs(t, c) <= r <= bsl(t, c) || tt == 2 && bsl(t, c) <= r <= bs(t, c + 1)) }
/// lengths of the queues
proof fn lem_sds_len(t: Seq<u8>, lo: int, hi: int)
    ensures sds(t, lo, hi).len() <= (if hi < lo { 0 } else { hi - lo })
    decreases hi - lo
{ if hi > lo { lem_sds_len(t, lo, hi - 1); } }
pub proof fn lem_len1(g: Ic, r: int, s: Ist, i: int)
    requires p1(g, r, s), 0 <= i < 774
    ensures s.v[i].len() <= g.t.len() + 1, i >= 516 ==> s.v[i].len() <= g.xs.len()
{
    reveal(p1); let b = if i < 258 { i } else if i < 516 { i - 258 } else { i - 516 };
    assert(pE(g, r, s.v, s.m2, s.c2, b)); assert(pN(g, s.m2, s.c2, b));
    lem_bs_mono(g.t, b, b + 1); lem_sds_len(g.t, bs(g.t, b), cl(r, bs(g.t, b), bsl(g.t, b)));
    lem_lst_mono(g.t, g.xs, b + 1, 258); lem_lst_mono(g.t, g.xs, 0, b); lem_lst_ends(g.t, g.xs); lem_num(g.t, 3, 0, 0);
}
pub proof fn lem_ph1_x(g: Ih, m: MemV, r: int, last: int, c: int)
    requires ph1(g, m, r, last), 0 <= c < 258
    ensures hp(g, m), rdx(g), g.a == slots(0, 258, 258, 516, 516, 774), g.bw != 0, hcont(g, m), m.h.contains_key(g.c.o), m.h[g.c.o] is Container, cn_len(o_Container(m, g.c.o)), p1(icx(g), r, hst(g, m, last)), o_Container(m, g.c.o).M3[c] == bs(icx(g).t, c), u8s(m, g.bw).len() == icx(g).t.len() + 1,
        qsl(g, m, c), qsl(g, m, 258 + c), qsl(g, m, 516 + c), hv(g, m)[516 + c].len() <= icx(g).t.len() + 1, icx(g).t.len() < 0x10_0000_0000_0000, o_Container(m, g.c.o).M[c] >= o_Container(m, g.c.o).C[c], o_Container(m, g.c.o).M3[c] + o_Container(m, g.c.o).M[c] < 0x20_0000_0000_0000
{
    reveal(ph1); lem_hopen(g, m); lem_rdx_x(g); lem_qslot(g, m, c); lem_qslot(g, m, 258 + c); lem_qslot(g, m, 516 + c); lem_len1(icx(g), r, hst(g, m, last), 516 + c); lem_cum(g, c);
    assert(ist_len(icx(g), hst(g, m, last))) by { reveal(p1); }
}
/// what the front of a queue tells
pub open spec fn at_front(g: Ih, m: MemV, r: int, c: int, tt: int, x: int, v: int) -> bool {
    let t = icx(g).t; let bp = o_Container(g.m0, g.c.o).bwp_base; let k = o_Container(m, g.c.o); let b = u8s(m, bp.o); let a = bp.i + v;
    &&& m.h.contains_key(bp.o) && m.h[bp.o] is U8 && hcont(g, m) && k.lastptr.o == bp.o && bp.o > 0 && bp.o != g.c.o && bp.o != g.bw && b == icx(g).b && b.len() < 0x4000_0000_0000_0000
    &&& 0 < v < pow2(g.w as nat) && pow2(g.w as nat) <= pow2(63) && pow2(63) == 0x8000_0000_0000_0000 && 0 <= a < b.len() && bp.i >= -1 && bp.i + v == a
    &&& 0 <= x <= t.len() && bk(t, x) == c && (tt == 1 ==> 1 <= c) && (a == k.lastptr.i <==> x == 0)
    &&& x >= 1 ==> 0 <= a - 2 && b[a - 1] == t[x - 1] && (t[x - 1] >= c - 1 <==> !is_s(t, x - 1)) && (x >= 2 && !is_s(t, x - 1) ==> b[a - 2] == t[x - 2])
    &&& tt == 2 ==> x >= 1 && !is_s(t, x - 1) && 0 <= k.C2[c] <= t.len()
    &&& x >= 1 && !is_s(t, x - 1) ==> 1 <= bk(t, x - 1) <= 256 && 0 <= k.M2[bk(t, x - 1)] <= t.len() && bk(t, x - 1) == t[x - 1] + 1
}
pub proof fn lem_front1(g: Ih, m: MemV, r: int, last: int, c: int, tt: int) -> (x: int)
    requires ph1(g, m, r, last), loc1(g, r, c, tt), hv(g, m)[258 * tt + c].len() > 0
    ensures at_front(g, m, r, c, tt, x, q_seq(m, slo(m, g.q, 258 * tt + c))[0] as int), q_seq(m, slo(m, g.q, 258 * tt + c)) == hv(g, m)[258 * tt + c],
        tt == 1 ==> x == od(icx(g).t, r), tt == 2 ==> x == icx(g).xs[lst(icx(g).t, icx(g).xs, c) + o_Container(m, g.c.o).C2[c] - bsl(icx(g).t, c)]
{
    lem_ph1_x(g, m, r, last, c); lem_hbuf(g, m); lem_qslot(g, m, 258 * tt + c); lem_rdx_x(g);
    let i = icx(g); let s = hst(g, m, last); lemma2_to64_rest(); if g.w < 63 { lemma_pow2_strictly_increases(g.w as nat, 63); }
    if tt == 1 { let x = lem_head1(i, r, s, c); if x >= 1 { lem_bs_mono(i.t, bk(i.t, x - 1), bk(i.t, x - 1) + 1); } x } else { let x = lem_head2(i, r, s, c); lem_bs_mono(i.t, c, c + 1); lem_bs_mono(i.t, bk(i.t, x - 1), bk(i.t, x - 1) + 1); x }
}
/// one queue was operated on; slot e is used next
pub proof fn lem_op(g: Ih, m: MemV, m2: MemV, i: int, e: int)
    requires hp(g, m), rdx(g), wf(m), wf(m2), g.a.contains(i), g.a.contains(e), ({ let q = slo(m, g.q, i); q_ok(m2, q) && q_w(m2, q) == q_w(m, q) && q_frame(m, m2, q) })
    ensures keep(g, m2, hv(g, m).update(i, q_seq(m2, slo(m, g.q, i))), o_Container(m, g.c.o), u8s(m, g.bw)), hp(g, m2), hv(g, m2) == hv(g, m).update(i, q_seq(m2, slo(m, g.q, i))), o_Container(m2, g.c.o) == o_Container(m, g.c.o), g.bw != 0 ==> u8s(m2, g.bw) == u8s(m, g.bw),
        hcont(g, m2), m2.h.contains_key(g.c.o), m2.h[g.c.o] is Container, g.bw != 0 ==> m2.h.contains_key(g.bw) && m2.h[g.bw] is U8 && g.bw != g.c.o,
        ({ let bo = o_Container(g.m0, g.c.o).bwp_base.o; m2.h.contains_key(bo) && m2.h[bo] is U8 && u8s(m2, bo) == icx(g).b }),
        qsl(g, m2, e), q_n(m2, slo(m2, g.q, e)) == hv(g, m2)[e].len(), ps(m2, g.q.o) == ps(m, g.q.o)
{ reveal(keep); lem_qslot(g, m, i); lem_hq(g, m, m2, i); lem_hopen(g, m2); lem_hbuf(g, m2); lem_qslot(g, m2, e); }
pub proof fn lem_pop1(g: Ih, m: MemV, m1: MemV, r: int, last: int, c: int, tt: int, x: int, e: int)
    requires ph1(g, m, r, last), wf(m), wf(m1), loc1(g, r, c, tt), hv(g, m)[258 * tt + c].len() > 0, g.a.contains(e), ({ let q = slo(m, g.q, 258 * tt + c); &&& at_front(g, m, r, c, tt, x, q_seq(m, q)[0] as int) &&& q_ok(m1, q) && q_w(m1, q) == q_w(m, q) && q_frame(m, m1, q) && q_seq(m1, q) == tl(q_seq(m, q)) })
    ensures keep(g, m1, pop(hv(g, m), 258 * tt + c), o_Container(m, g.c.o), u8s(m, g.bw)), at_front(g, m1, r, c, tt, x, q_seq(m, slo(m, g.q, 258 * tt + c))[0] as int), hp(g, m1), o_Container(m1, g.c.o) == o_Container(m, g.c.o), u8s(m1, g.bw) == u8s(m, g.bw), m1.h.contains_key(g.bw), m1.h[g.bw] is U8, g.bw != g.c.o, u8s(m, g.bw).len() == icx(g).t.len() + 1,
        qsl(g, m1, e), q_n(m1, slo(m1, g.q, e)) < 0x4000_0000_0000_0000, m1.h.contains_key(g.c.o), m1.h[g.c.o] is Container, cn_len(o_Container(m1, g.c.o))
{
    lem_ph1_x(g, m, r, last, c); lem_qslot(g, m, 258 * tt + c); lem_qslot(g, m, e);
    lem_op(g, m, m1, 258 * tt + c, e); lem_len1(icx(g), r, hst(g, m, last), e); lem_len1(icx(g), r, hst(g, m, last), 258 * tt + c);
}
pub proof fn lem_push1(g: Ih, m1: MemV, m2: MemV, v1: Seq<Seq<u64>>, k: ContainerV, b: Seq<u8>, e: int, r: int, c: int, tt: int, x: int, v: int)
    requires keep(g, m1, v1, k, b), rdx(g), g.bw != 0, wf(m1), wf(m2), g.a.contains(e), at_front(g, m1, r, c, tt, x, v), ({ let q = slo(m1, g.q, e); q_ok(m2, q) && q_w(m2, q) == q_w(m1, q) && q_frame(m1, m2, q) })
    ensures keep(g, m2, v1.update(e, q_seq(m2, slo(m1, g.q, e))), k, b), at_front(g, m2, r, c, tt, x, v), o_Container(m2, g.c.o) == k, u8s(m2, g.bw) == b, hp(g, m2), v1[e] == q_seq(m1, slo(m1, g.q, e)),
        m2.h.contains_key(g.bw), m2.h[g.bw] is U8, g.bw != g.c.o, m2.h.contains_key(g.c.o), m2.h[g.c.o] is Container, cn_len(o_Container(m2, g.c.o))
{ lem_keep(g, m1, v1, k, b); lem_qslot(g, m1, e); lem_op(g, m1, m2, e, e); lem_rdx_x(g); }
/// only the output changed
pub proof fn lem_put_b(g: Ih, m: MemV, m2: MemV, v: Seq<Seq<u64>>, k: ContainerV, b: Seq<u8>, b2: Seq<u8>, e: int, r: int, c: int, tt: int, x: int, y: int)
    requires keep(g, m, v, k, b), rdx(g), g.bw != 0, wf(m), g.a.contains(e), at_front(g, m, r, c, tt, x, y), m2 == put(m, g.bw, Obj::U8(b2))
    ensures keep(g, m2, v, k, b2), at_front(g, m2, r, c, tt, x, y), qsl(g, m2, e), q_n(m2, slo(m2, g.q, e)) == q_n(m, slo(m, g.q, e))
{ lem_keep(g, m, v, k, b); lem_hopen(g, m); assert(m2.h =~= m.h.insert(g.c.o, Obj::Container(k)).insert(g.bw, Obj::U8(b2))); lem_store(g, m, m2, v, k, b, k, b2); lem_keep(g, m2, v, k, b2); lem_hopen(g, m2); lem_qslot(g, m2, e); lem_qslot(g, m, e); }
/// the front is the start of the text
pub proof fn lem_end_last(g: Ih, m: MemV, m1: MemV, r: int, last: int, c: int, x: int)
    requires ph1(g, m, r, last), loc1(g, r, c, 1), hv(g, m)[258 + c].len() > 0, x == od(icx(g).t, r), x == 0, keep(g, m1, pop(hv(g, m), 258 + c), o_Container(m, g.c.o), u8s(m, g.bw))
    ensures ph1(g, m1, r + 1, r), loc1(g, r + 1, c, 1)
{
    lem_ph1_x(g, m, r, last, c); let x2 = lem_head1(icx(g), r, hst(g, m, last), c);
    assert(hst(g, m1, r) == Ist { v: pop(hv(g, m), 258 + c), last: r, ..hst(g, m, last) }) by { reveal(keep); }
    lem_step1_last(icx(g), r, hst(g, m, last), c, hst(g, m1, r));
    reveal(ph1); reveal(keep);
}
/// a seed
pub proof fn lem_end_seed(g: Ih, m: MemV, m1: MemV, m2: MemV, r: int, last: int, c: int, x: int, y: u64)
    requires ph1(g, m, r, last), loc1(g, r, c, 1), hv(g, m)[258 + c].len() > 0, x == od(icx(g).t, r), x >= 1, is_s(icx(g).t, x - 1), y == hv(g, m)[258 + c][0], 
        keep(g, m2, psh_l(pop(hv(g, m), 258 + c), c, y), o_Container(m, g.c.o), u8s(m, g.bw))
    ensures ph1(g, m2, r + 1, last), loc1(g, r + 1, c, 1)
{
    lem_ph1_x(g, m, r, last, c); let x2 = lem_head1(icx(g), r, hst(g, m, last), c);
    assert(hst(g, m2, last) == Ist { v: psh_l(pop(hv(g, m), 258 + c), c, y), ..hst(g, m, last) }) by { reveal(keep); }
    lem_step1_seed(icx(g), r, hst(g, m, last), c, hst(g, m2, last));
    reveal(ph1); reveal(keep);
}
/// container and output written
proof fn lem_store(g: Ih, m2: MemV, m3: MemV, v: Seq<Seq<u64>>, k: ContainerV, b: Seq<u8>, k3: ContainerV, b3: Seq<u8>)
    requires keep(g, m2, v, k, b), g.bw != 0, wf(m2), m3 == (MemV { h: m3.h, ..m2 }), m3.h =~= m2.h.insert(g.c.o, Obj::Container(k3)).insert(g.bw, Obj::U8(b3)), k3 == (ContainerV { M2: k3.M2, M3: k3.M3, C2: k3.C2, ..k }) && k3.M2.len() == 258 && k3.M3.len() == 258 && k3.C2.len() == 258
    ensures keep(g, m3, v, k3, b3)
{ reveal(keep); lem_hopen(g, m2); assert(hcont(g, m3)); lem_hcb(g, m2, m3); }
pub proof fn lem_end_l(g: Ih, m: MemV, m2: MemV, m3: MemV, r: int, last: int, c: int, x: int, y: u64, val: u8)
    requires ph1(g, m, r, last), loc1(g, r, c, 1), hv(g, m)[258 + c].len() > 0, x == od(icx(g).t, r), x >= 1, !is_s(icx(g).t, x - 1), y == hv(g, m)[258 + c][0] - 1, x >= 2 ==> val == icx(g).t[x - 2], wf(m2),
        keep(g, m2, psh(pop(hv(g, m), 258 + c), 258 + bk(icx(g).t, x - 1), y), o_Container(m, g.c.o), u8s(m, g.bw)), m3 == (MemV { h: m3.h, ..m2 }),
        ({ let k = o_Container(m, g.c.o); let d = bk(icx(g).t, x - 1); m3.h =~= m2.h.insert(g.c.o, Obj::Container(ContainerV { M2: inc(k.M2, d), ..k })).insert(g.bw, Obj::U8(u8s(m, g.bw).update(k.M2[d] as int, val))) })
    ensures ph1(g, m3, r + 1, last), loc1(g, r + 1, c, 1)
{
    let k = o_Container(m, g.c.o); let d = bk(icx(g).t, x - 1); let s = hst(g, m, last); let v2 = psh(pop(hv(g, m), 258 + c), 258 + d, y); let k3 = ContainerV { M2: inc(k.M2, d), ..k }; let b3 = u8s(m, g.bw).update(k.M2[d] as int, val);
    lem_ph1_x(g, m, r, last, c); let x2 = lem_head1(icx(g), r, s, c);
    lem_store(g, m2, m3, v2, k, u8s(m, g.bw), k3, b3);
    assert(hst(g, m3, last) == Ist { v: v2, b: b3, m2: inc(k.M2, d), ..s }) by { reveal(keep); }
    lem_step1_l(icx(g), r, s, c, d, y, val, hst(g, m3, last));
    reveal(ph1); reveal(keep);
}
pub proof fn lem_end_2(g: Ih, m: MemV, m2: MemV, m3: MemV, r: int, last: int, c: int, x: int, y: u64, val: u8, b2: Seq<u8>, b3: Seq<u8>) -> (r2: int)
    requires ph1(g, m, r, last), loc1(g, r, c, 2), hv(g, m)[516 + c].len() > 0, x == icx(g).xs[lst(icx(g).t, icx(g).xs, c) + o_Container(m, g.c.o).C2[c] - bsl(icx(g).t, c)], y == hv(g, m)[516 + c][0] - 1, x >= 2 ==> val == icx(g).t[x - 2], wf(m2),
        keep(g, m2, psh(pop(hv(g, m), 516 + c), 258 + bk(icx(g).t, x - 1), y), o_Container(m, g.c.o), b2), m3 == (MemV { h: m3.h, ..m2 }),
        ({ let k = o_Container(m, g.c.o); let d = bk(icx(g).t, x - 1); b3 =~= u8s(m, g.bw).update(k.M2[d] as int, val).update(k.C2[c] as int, icx(g).t[x - 1]) && m3.h =~= m2.h.insert(g.c.o, Obj::Container(ContainerV { M2: inc(k.M2, d), C2: inc(k.C2, c), ..k })).insert(g.bw, Obj::U8(b3)) })
    ensures r2 == rank(icx(g).t, x) + 1, r < r2 <= bs(icx(g).t, c + 1), ph1(g, m3, r2, last), loc1(g, r2, c, 2), hv(g, m3)[516 + c].len() == hv(g, m)[516 + c].len() - 1
{
    let k = o_Container(m, g.c.o); let d = bk(icx(g).t, x - 1); let s = hst(g, m, last); let v2 = psh(pop(hv(g, m), 516 + c), 258 + d, y); let k3 = ContainerV { M2: inc(k.M2, d), C2: inc(k.C2, c), ..k };
    lem_ph1_x(g, m, r, last, c); let x2 = lem_head2(icx(g), r, s, c);
    lem_store(g, m2, m3, v2, k, b2, k3, b3);
    assert(hst(g, m3, last) == Ist { v: v2, b: b3, m2: inc(k.M2, d), c2: inc(k.C2, c), ..s }) by { reveal(keep); }
    lem_step2(icx(g), r, s, c, x, d, y, val, hst(g, m3, last));
    reveal(ph1); reveal(keep);
    rank(icx(g).t, x) + 1
}
pub proof fn lem_exit_t(g: Ih, m: MemV, r: int, last: int, c: int, tt: int)
    requires ph1(g, m, r, last), loc1(g, r, c, tt), q_seq(m, slo(m, g.q, 258 * tt + c)).len() == 0
    ensures tt == 1 ==> r == bsl(icx(g).t, c) && loc1(g, r, c, 2), tt == 2 ==> ph1(g, m, bs(icx(g).t, c + 1), last)
{
    lem_ph1_x(g, m, r, last, c); lem_qslot(g, m, 258 * tt + c); lem_bs_mono(icx(g).t, c, c + 1);
    if tt == 1 { lem_exit1(icx(g), r, hst(g, m, last), c); } else { lem_exit2(icx(g), r, hst(g, m, last), c); reveal(ph1); }
}
// ---- into the first pass
#[verifier::opaque]
pub open spec fn fills(x: Ic, v: Seq<Seq<u64>>) -> bool {
    &&& forall|b: int| 0 <= b < 516 ==> (#[trigger] v[b]).len() == 0
    &&& forall|b: int| 0 <= b < 258 ==> #[trigger] fills_b(x, v, b)
}
pub open spec fn fills_b(x: Ic, v: Seq<Seq<u64>>, b: int) -> bool { ls_lms(x, v[516 + b], lst(x.t, x.xs, b), lst(x.t, x.xs, b + 1)) }
pub proof fn lem_filled(g: Ih, m: MemV)
    requires filled(g, m, 0)
    ensures fills(icx(g), hv(g, m)), hp(g, m), o_Container(m, g.c.o) == o_Container(g.m0, g.c.o), g.a == slots(0, 258, 258, 516, 516, 774)
{
    reveal(filled); reveal(fills); let x = icx(g);
    assert forall|b: int| 0 <= b < 258 implies #[trigger] fills_b(x, hv(g, m), b) by { assert(fill_b(g, hv(g, m), 0, b)); lem_lst_mono(x.t, x.xs, b, b + 1); lem_lst_mono(x.t, x.xs, 0, b); }
}
pub proof fn lem_ph1_0(g: Ih, m: MemV, v: Seq<Seq<u64>>, last: int)
    requires backs(g, m, 258, v), fills(icx(g), v), g.a == slots(0, 258, 258, 516, 516, 774), g.bw != 0
    ensures ph1(g, m, 0, last), loc1(g, 0, 0, 2), hv(g, m)[516].len() > 0, o_Container(m, g.c.o).C2[0] == 0
{
    reveal(backs); reveal(fronts); reveal(fills); reveal(ph1); let x = icx(g); let s = hst(g, m, last);
    lem_hopen(g, m); lem_rdx_x(g); lem_bs_ends(x.t); lem_lst_ends(x.t, x.xs);
    assert forall|b: int| 516 <= b < 774 implies ls_lms(x, #[trigger] s.v[b], lst(x.t, x.xs, b - 516), lst(x.t, x.xs, b - 515)) by { assert(fills_b(x, v, b - 516)); }
    assert(fills_b(x, v, 0));
    lem_start1(x, s);
}
pub proof fn lem_bs1(g: Ih)
    requires rdx(g)
    ensures bs(icx(g).t, 1) == 1, bs(icx(g).t, 0) == 0, bsl(icx(g).t, 0) == 0, rank(icx(g).t, icx(g).t.len() as int) == 0, bs(icx(g).t, 258) == icx(g).t.len() + 1, bs(icx(g).t, 257) == icx(g).t.len() + 1, icx(g).t.len() >= 1
{ lem_rdx_x(g); lem_bs_ends(icx(g).t); }
// ---- between the passes
pub proof fn lem_ph1_end(g: Ih, m: MemV, last: int)
    requires ph1(g, m, icx(g).t.len() as int + 1, last)
    ensures keep(g, m, hv(g, m), o_Container(m, g.c.o), u8s(m, g.bw)), p1(icx(g), icx(g).t.len() as int + 1, hst(g, m, last)), rdx(g), g.bw != 0, g.a == slots(0, 258, 258, 516, 516, 774), hv(g, m).len() == 774, cn_len(o_Container(m, g.c.o)), m.h.contains_key(g.c.o), m.h[g.c.o] is Container, is_Container(m, g.c)
{ reveal(ph1); lem_keep_of(g, m); lem_ph1_x(g, m, icx(g).t.len() as int + 1, last, 0); }
/// ends of the buckets below i are set
#[verifier::opaque]
pub open spec fn tails(g: Ih, m: MemV, i: int, v: Seq<Seq<u64>>, k: ContainerV, b: Seq<u8>) -> bool {
    let y = o_Container(m, g.c.o);
    &&& hp(g, m) && rdx(g) && hv(g, m) == v && g.bw != 0 && u8s(m, g.bw) == b && y == (ContainerV { M2: y.M2, ..k }) && y.M2.len() == 258 && cn_len(k) && 1 <= i <= 258
    &&& forall|b: int| 0 <= b < i ==> #[trigger] y.M2[b] == bs(icx(g).t, b + 1) - 1
}
pub proof fn lem_tail0(g: Ih, m: MemV, m2: MemV, v: Seq<Seq<u64>>, k: ContainerV, b: Seq<u8>)
    requires keep(g, m, v, k, b), rdx(g), g.bw != 0, wf(m), cn_len(k), m2 == put(m, g.c.o, Obj::Container(ContainerV { M2: k.M2.update(0, 0), ..k }))
    ensures tails(g, m2, 1, v, k, b)
{ reveal(keep); reveal(tails); lem_bs1(g); lem_hopen(g, m); lem_hcol(g, m, m2, ContainerV { M2: k.M2.update(0, 0), ..k }); }
pub proof fn lem_tail_x(g: Ih, m: MemV, i: int, v: Seq<Seq<u64>>, k: ContainerV, b: Seq<u8>)
    requires tails(g, m, i, v, k, b)
    ensures hcont(g, m), m.h.contains_key(g.c.o), m.h[g.c.o] is Container, cn_len(o_Container(m, g.c.o)), g.a == g.a, i < 258 ==> bs(icx(g).t, i + 1) - 1 == o_Container(m, g.c.o).M2[i - 1] + o_Container(m, g.c.o).M[i] && 0 <= bs(icx(g).t, i + 1) - 1 < 0x20_0000_0000_0000
{ reveal(tails); lem_hopen(g, m); lem_rdx_x(g); if i < 258 { lem_cum(g, i); lem_bs_mono(icx(g).t, 1, i + 1); lem_bs1(g); } }
pub proof fn lem_tailc(g: Ih, m: MemV, m2: MemV, i: int, v: Seq<Seq<u64>>, k: ContainerV, b: Seq<u8>, x: u64)
    requires tails(g, m, i, v, k, b), wf(m), i < 258, x == bs(icx(g).t, i + 1) - 1, ({ let y = o_Container(m, g.c.o); m2 == put(m, g.c.o, Obj::Container(ContainerV { M2: y.M2.update(i, x), ..y })) })
    ensures tails(g, m2, i + 1, v, k, b)
{ reveal(tails); lem_hopen(g, m); let y = o_Container(m, g.c.o); lem_hcol(g, m, m2, ContainerV { M2: y.M2.update(i, x), ..y }); }
// ---- second pass
#[verifier::opaque]
pub open spec fn ph2(g: Ih, m: MemV, r: int, last: int) -> bool { hp(g, m) && rdx(g) && g.a == slots(0, 258, 258, 516, 774, 774) && g.bw != 0 && p2(icx(g), r, hst(g, m, last)) }
pub proof fn lem_ph2_0(g: Ih, m: MemV, v: Seq<Seq<u64>>, k: ContainerV, b: Seq<u8>, v1: Seq<Seq<u64>>, last: int)
    requires tails(g, m, 258, cut(v1, slots(0, 258, 516, 516, 774, 774)), k, b), g.a == slots(0, 258, 258, 516, 774, 774), v1.len() == 774, p1(icx(g), icx(g).t.len() as int + 1, Ist { v: v1, b: b, m2: k.M2, c2: k.C2, last: last })
    ensures ph2(g, m, icx(g).t.len() as int + 1, last)
{
    reveal(tails); reveal(ph2); lem_hopen(g, m);
    let s = Ist { v: v1, b: b, m2: k.M2, c2: k.C2, last: last };
    assert(ist_len(icx(g), s)) by { reveal(p1); }
    lem_start2(icx(g), s, hst(g, m, last));
}
pub proof fn lem_len2(g: Ic, r: int, s: Ist, i: int)
    requires p2(g, r, s), 0 <= i < 516
    ensures s.v[i].len() <= g.t.len() + 1
{
    reveal(p2); let b = if i < 258 { i } else { i - 258 };
    assert(qE(g, r, s.v, s.m2, s.c2, b));
    lem_bs_mono(g.t, b, b + 1); lem_sds_len(g.t, bs(g.t, b), cl(r, bs(g.t, b), bsl(g.t, b)));
}
pub proof fn lem_ph2_x(g: Ih, m: MemV, r: int, last: int, c: int)
    requires ph2(g, m, r, last), 0 <= c < 258
    ensures hp(g, m), rdx(g), g.a == slots(0, 258, 258, 516, 774, 774), g.bw != 0, hcont(g, m), m.h.contains_key(g.c.o), m.h[g.c.o] is Container, cn_len(o_Container(m, g.c.o)), p2(icx(g), r, hst(g, m, last)), u8s(m, g.bw).len() == icx(g).t.len() + 1,
        qsl(g, m, c), qsl(g, m, 258 + c)
{
    reveal(ph2); lem_hopen(g, m); lem_rdx_x(g); lem_qslot(g, m, c); lem_qslot(g, m, 258 + c);
    assert(ist_len(icx(g), hst(g, m, last))) by { reveal(p2); }
}
pub proof fn lem_loc2(g: Ih, c: int)
    requires rdx(g), 0 <= c < 258
    ensures bs(icx(g).t, c + 1) >= 1, max1(bsl(icx(g).t, c)) <= bs(icx(g).t, c + 1), max1(bs(icx(g).t, c)) <= max1(bsl(icx(g).t, c)), loc2(icx(g), max1(bs(icx(g).t, c + 1)), c, 1), loc2(icx(g), max1(bsl(icx(g).t, c)), c, 0)
{ if c > 0 { lem_bs_mono(icx(g).t, 1, c + 1); } lem_bs1(g); lem_cum(g, c); }
pub open spec fn at_back(g: Ih, m: MemV, c: int, tt: int, x: int, v: int) -> bool {
    let t = icx(g).t; let bp = o_Container(g.m0, g.c.o).bwp_base; let k = o_Container(m, g.c.o); let b = u8s(m, bp.o); let a = bp.i + v; let d = bk(t, x - 1); let w = u8s(m, g.bw);
    &&& m.h.contains_key(bp.o) && m.h[bp.o] is U8 && hcont(g, m) && k.lastptr.o == bp.o && bp.o > 0 && bp.o != g.c.o && bp.o != g.bw && b == icx(g).b && b.len() < 0x4000_0000_0000_0000
    &&& 0 < v < pow2(g.w as nat) && pow2(g.w as nat) <= pow2(63) && pow2(63) == 0x8000_0000_0000_0000 && 0 <= a < b.len() && bp.i >= -1 && bp.i + v == a
    &&& 0 <= x < t.len() && bk(t, x) == c && 0 <= a - 1 && (b[a - 1] <= c - 1 <==> x >= 1 && is_s(t, x - 1))
    &&& x >= 1 && is_s(t, x - 1) ==> b[a - 1] == t[x - 1] && 0 <= a - 2 && (a - 1 == k.lastptr.i <==> x == 1) && 1 <= d <= 256 && d == t[x - 1] + 1 && 1 <= k.M2[d] <= t.len()
    &&& x >= 2 && is_s(t, x - 1) ==> (b[a - 2] <= t[x - 1] <==> !lms(t, x - 1)) && (!lms(t, x - 1) ==> b[a - 2] == t[x - 2]) && (lms(t, x - 1) ==> 1 <= k.C2[d] <= t.len() + 1 && w[k.C2[d] - 1] == t[x - 2])
}
pub open spec fn qEs(g: Ih, m: MemV, x: int, c: int, tt: int) -> bool { let i = icx(g); let k = o_Container(m, g.c.o); forall|b: int| #[trigger] qE(i, rank(i.t, x), pop(hv(g, m), 258 * tt + c), k.M2, k.C2, b) }
#[verifier::opaque]
pub open spec fn qEso(g: Ih, m: MemV, x: int, c: int, tt: int) -> bool { qEs(g, m, x, c, tt) }
pub proof fn lem_back2(g: Ih, m: MemV, r: int, last: int, c: int, tt: int) -> (x: int)
    requires ph2(g, m, r, last), 0 <= c < 258, tt == 0 || tt == 1, loc2(icx(g), r, c, tt), hv(g, m)[258 * tt + c].len() > 0
    ensures at_back(g, m, c, tt, x, q_seq(m, slo(m, g.q, 258 * tt + c))[0] as int), q_seq(m, slo(m, g.q, 258 * tt + c)) == hv(g, m)[258 * tt + c], ph2(g, m, rank(icx(g).t, x) + 1, last), loc2(icx(g), rank(icx(g).t, x), c, tt), 1 <= rank(icx(g).t, x) < r, qEso(g, m, x, c, tt), x >= 1 && is_s(icx(g).t, x - 1) ==> inner(icx(g), hv(g, m)[258 * tt + c][0] - 1, x - 1)
{
    lem_ph2_x(g, m, r, last, c); lem_hbuf(g, m); lem_qslot(g, m, 258 * tt + c); lem_rdx_x(g);
    let i = icx(g); let s = hst(g, m, last); lemma2_to64_rest(); if g.w < 63 { lemma_pow2_strictly_increases(g.w as nat, 63); }
    let x = lem_h2(i, r, s, c, tt);
    reveal(ph2); reveal(qEso);
    x
}
pub proof fn lem_pop2(g: Ih, m: MemV, m1: MemV, r: int, last: int, c: int, tt: int, x: int, e: int)
    requires ph2(g, m, r, last), wf(m), wf(m1), 0 <= c < 258, tt == 0 || tt == 1, hv(g, m)[258 * tt + c].len() > 0, 0 <= e < 516, ({ let q = slo(m, g.q, 258 * tt + c); &&& at_back(g, m, c, tt, x, q_seq(m, q)[0] as int) &&& q_ok(m1, q) && q_w(m1, q) == q_w(m, q) && q_frame(m, m1, q) && q_seq(m1, q) == tl(q_seq(m, q)) })
    ensures keep(g, m1, pop(hv(g, m), 258 * tt + c), o_Container(m, g.c.o), u8s(m, g.bw)), at_back(g, m1, c, tt, x, q_seq(m, slo(m, g.q, 258 * tt + c))[0] as int), hp(g, m1), o_Container(m1, g.c.o) == o_Container(m, g.c.o), u8s(m1, g.bw) == u8s(m, g.bw), m1.h.contains_key(g.bw), m1.h[g.bw] is U8, g.bw != g.c.o, u8s(m, g.bw).len() == icx(g).t.len() + 1,
        qsl(g, m1, e), q_n(m1, slo(m1, g.q, e)) < 0x4000_0000_0000_0000, m1.h.contains_key(g.c.o), m1.h[g.c.o] is Container, cn_len(o_Container(m1, g.c.o))
{
    lem_ph2_x(g, m, r, last, c); lem_qslot(g, m, 258 * tt + c); lem_qslot(g, m, e);
    lem_rdx_x(g);
    lem_len2(icx(g), r, hst(g, m, last), e); lem_len2(icx(g), r, hst(g, m, last), 258 * tt + c);
    lem_op(g, m, m1, 258 * tt + c, e);
    if e == 258 * tt + c { assert(hv(g, m1)[e].len() == hv(g, m)[e].len() - 1); } else { assert(hv(g, m1)[e] == hv(g, m)[e]); }
}
pub proof fn lem_push2(g: Ih, m1: MemV, m2: MemV, v1: Seq<Seq<u64>>, k: ContainerV, b: Seq<u8>, e: int, c: int, tt: int, x: int, v: int)
    requires keep(g, m1, v1, k, b), rdx(g), g.bw != 0, wf(m1), wf(m2), g.a.contains(e), at_back(g, m1, c, tt, x, v), ({ let q = slo(m1, g.q, e); q_ok(m2, q) && q_w(m2, q) == q_w(m1, q) && q_frame(m1, m2, q) })
    ensures keep(g, m2, v1.update(e, q_seq(m2, slo(m1, g.q, e))), k, b), at_back(g, m2, c, tt, x, v), o_Container(m2, g.c.o) == k, u8s(m2, g.bw) == b, hp(g, m2), v1[e] == q_seq(m1, slo(m1, g.q, e)),
        m2.h.contains_key(g.bw), m2.h[g.bw] is U8, g.bw != g.c.o, m2.h.contains_key(g.c.o), m2.h[g.c.o] is Container, cn_len(o_Container(m2, g.c.o))
{ lem_keep(g, m1, v1, k, b); lem_qslot(g, m1, e); lem_op(g, m1, m2, e, e); lem_rdx_x(g); }
pub proof fn lem_end2_none(g: Ih, m: MemV, m1: MemV, last: int, c: int, tt: int, x: int, v: int)
    requires ph2(g, m, rank(icx(g).t, x) + 1, last), 0 <= c < 258, tt == 0 || tt == 1, at_back(g, m, c, tt, x, v), qEso(g, m, x, c, tt), x == 0 || !is_s(icx(g).t, x - 1), 1 <= rank(icx(g).t, x), keep(g, m1, pop(hv(g, m), 258 * tt + c), o_Container(m, g.c.o), u8s(m, g.bw))
    ensures ph2(g, m1, rank(icx(g).t, x), last)
{
    reveal(ph2); reveal(qEso); reveal(keep);
    lem_s2_none(icx(g), rank(icx(g).t, x) + 1, hst(g, m, last), c, tt, x, hst(g, m1, last));
}
pub proof fn lem_end2_s(g: Ih, m: MemV, m2: MemV, m3: MemV, last: int, c: int, tt: int, x: int, y: u64, b3: Seq<u8>, l3: int)
    requires ph2(g, m, rank(icx(g).t, x) + 1, last), 0 <= c < 258, tt == 0 || tt == 1, at_back(g, m, c, tt, x, y + 1), qEso(g, m, x, c, tt), x >= 1, is_s(icx(g).t, x - 1), 1 <= rank(icx(g).t, x), wf(m2), y == hv(g, m)[258 * tt + c][0] - 1, hv(g, m)[258 * tt + c].len() > 0, loc2(icx(g), rank(icx(g).t, x), c, tt), inner(icx(g), y as int, x - 1),
        keep(g, m2, psh(pop(hv(g, m), 258 * tt + c), 258 + bk(icx(g).t, x - 1), y), o_Container(m, g.c.o), u8s(m, g.bw)), m3 == (MemV { h: m3.h, ..m2 }),
        ({ let t = icx(g).t; let k = o_Container(m, g.c.o); let d = bk(t, x - 1); &&& b3 == (if x >= 2 { u8s(m, g.bw).update(k.M2[d] as int, t[x - 2]) } else { u8s(m, g.bw) }) &&& l3 == (if x == 1 { k.M2[d] as int } else { last })
            &&& m3.h =~= m2.h.insert(g.c.o, Obj::Container(ContainerV { M2: dec(k.M2, d), C2: if lms(t, x - 1) { dec(k.C2, d) } else { k.C2 }, ..k })).insert(g.bw, Obj::U8(b3)) })
    ensures ph2(g, m3, rank(icx(g).t, x), l3)
{
    let t = icx(g).t; let k = o_Container(m, g.c.o); let d = bk(t, x - 1); let s = hst(g, m, last); let v2 = psh(pop(hv(g, m), 258 * tt + c), 258 + d, y);
    let k3 = ContainerV { M2: dec(k.M2, d), C2: if lms(t, x - 1) { dec(k.C2, d) } else { k.C2 }, ..k };
    assert(cn_len(k) && hp(g, m) && rdx(g) && g.bw != 0) by { lem_ph2_x(g, m, rank(t, x) + 1, last, c); }
    lem_store(g, m2, m3, v2, k, u8s(m, g.bw), k3, b3);
    assert(hst(g, m3, l3) == Ist { v: v2, b: b3, m2: k3.M2, c2: k3.C2, last: l3 }) by { reveal(keep); }
    assert(p2(icx(g), rank(t, x) + 1, s) && qEs(g, m, x, c, tt)) by { reveal(ph2); reveal(qEso); }
    lem_s2_s(icx(g), rank(t, x) + 1, s, c, tt, x, d, y, hst(g, m3, l3));
    reveal(ph2); reveal(keep);
}
pub proof fn lem_exit_t2(g: Ih, m: MemV, r: int, last: int, c: int, tt: int)
    requires ph2(g, m, r, last), 0 <= c < 258, tt == 0 || tt == 1, loc2(icx(g), r, c, tt), q_seq(m, slo(m, g.q, 258 * tt + c)).len() == 0
    ensures tt == 1 ==> r == max1(bsl(icx(g).t, c)) && loc2(icx(g), r, c, 0), tt == 0 ==> ph2(g, m, max1(bs(icx(g).t, c)), last)
{
    lem_ph2_x(g, m, r, last, c); lem_qslot(g, m, 258 * tt + c); lem_bs_mono(icx(g).t, c, c + 1);
    lem_x2(icx(g), r, hst(g, m, last), c, tt);
    reveal(ph2);
}
pub proof fn lem_ph2_end(g: Ih, m: MemV, last: int)
    requires ph2(g, m, 1, last)
    ensures keep(g, m, hv(g, m), o_Container(m, g.c.o), u8s(m, g.bw)), is_bwt(icx(g).t, last, u8s(m, g.bw)), rdx(g), g.bw != 0, g.a == slots(0, 258, 258, 516, 774, 774), hv(g, m).len() == 774
{ reveal(ph2); lem_keep_of(g, m); lem_ph2_x(g, m, 1, last, 0); lem_done2(icx(g), hst(g, m, last)); }
