@fn Container::ctor
@params n
@uses cont
@requires is_Container(M0, this_@), cn_len(o_Container(M0, this_@.o))
@ensures
  M1 == put(M0, this_@.o, Obj::Container(o_Container(M1, this_@.o))), cn_new(o_Container(M1, this_@.o), n),
@loop 1
@invariant
  MM == put(M0, this_@.o, Obj::Container(o_Container(MM, this_@.o))),
  is_Container(MM, this_@), 0 <= i <= 258, cn_part(o_Container(MM, this_@.o), n, i as int),
@decreases i

@fn Container::dtor
@uses cont
@requires
  is_Container(M0, this_@), o_Container(M0, this_@.o).hashtable != NUL() ==> ht_ok(M0, o_Container(M0, this_@.o).hashtable) && M0.k[o_Container(M0, this_@.o).hashtable.o] == 1 && o_Container(M0, this_@.o).hashtable.o != this_@.o
    && !ht_fp(M0, o_Container(M0, this_@.o).hashtable).contains(this_@.o),
@ensures
  ({ let c = o_Container(M0, this_@.o); let t = o_HashTable(M0, c.hashtable.o);
     M1.h =~= (if c.hashtable == NUL() { M0.h } else if t.buf == NUL() { M0.h.remove(t.rest.o).remove(t.head.o).remove(c.hashtable.o) } else { M0.h.remove(t.rest.o).remove(t.head.o).remove(t.buf.o).remove(c.hashtable.o) }).insert(this_@.o, M1.h[this_@.o]) && M1.h[this_@.o] is Container }),
  M1.k[this_@.o] == M0.k[this_@.o], M1.nx == M0.nx, M1.io == M0.io, frame(M0, M1, ht_fp(M0, o_Container(M0, this_@.o).hashtable).insert(this_@.o)),
