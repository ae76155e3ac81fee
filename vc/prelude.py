"""Generate the Verus prelude: explicit heap, typed access primitives, machine arithmetic.

Everything marked external_body here is the trusted semantics of the C++ subset; it is listed in
the evidence of every check."""

INTS = [("u8", 8, False), ("i8", 8, True), ("u16", 16, False), ("i16", 16, True),
        ("u32", 32, False), ("i32", 32, True), ("u64", 64, False), ("i64", 64, True)]
MAXU = {8: "0x100", 16: "0x1_0000", 32: "0x1_0000_0000", 64: "0x1_0000_0000_0000_0000"}
HALF = {8: "0x80", 16: "0x8000", 32: "0x8000_0000", 64: "0x8000_0000_0000_0000"}

HEAD = r"""
#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, non_snake_case,
  unused_parens, unused_braces, non_camel_case_types, unreachable_code, unused_labels)]
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
verus! {
pub mod base {
use super::*;

#[verifier::ext_equal]
pub struct PtrV { pub o: int, pub i: int }
pub open spec fn NUL() -> PtrV { PtrV { o: 0, i: 0 } }
pub open spec fn pi(p: PtrV, d: int) -> PtrV { PtrV { o: p.o, i: p.i + d } }

/// state of one file of the ghost file system and of one open stream
#[verifier::ext_equal]
pub struct StreamV { pub name: int, pub pos: int, pub write: bool, pub data: Seq<u8> }
/// the file a path string names
pub uninterp spec fn path_of(p: PtrV) -> int;

/// files: name -> contents; st: stream -> state; rd: bytes delivered so far from each file by reads
#[verifier::ext_equal]
pub struct IoV { pub files: Map<int, Seq<u8>>, pub st: Map<int, StreamV>, pub rd: Map<int, int> }

#[verifier::ext_equal]
pub enum Obj {
    U8(Seq<u8>), U16(Seq<u16>), U32(Seq<u32>), U64(Seq<u64>), P(Seq<PtrV>),
%(objs)s
}
%(structs)s

/// h: live objects; k: how each was allocated (0 malloc, 1 new, 2 new[], 3 automatic);
/// nx: next unused object number
#[verifier::ext_equal]
pub struct MemV {
    pub h: Map<int, Obj>, pub k: Map<int, int>, pub nx: int,
    /// ghost ownership tags: owner object (0: none) and serial number within it
    pub own: Map<int, int>, pub ser: Map<int, int>,
    /// ghost: a sequence of pointers attached to an object (the blocks of a queue)
    pub gs: Map<int, Seq<PtrV>>,
    /// ghost: per substring table, for every hash value the positions of its records
    pub gc: Map<int, Seq<Seq<int>>>,
    /// files and streams
    pub io: IoV,
}

#[verifier::external_body]
pub struct Mem { z: u8 }
impl Mem { pub uninterp spec fn view(&self) -> MemV; }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Ptr { z: usize }
impl Ptr { pub uninterp spec fn view(&self) -> PtrV; }

pub open spec fn wf(m: MemV) -> bool {
    &&& m.nx >= 1
    &&& forall|o: int| #[trigger] m.h.contains_key(o) ==> 0 < o < m.nx
    &&& forall|o: int| #[trigger] m.k.contains_key(o) <==> m.h.contains_key(o)
    &&& forall|o: int| #![trigger m.own[o]] 0 <= m.own[o] < m.nx
}
/// the heap is finite and object numbers are handed out in order
pub axiom fn mem_wf(m: Mem) ensures wf(m@);

pub open spec fn live(m: MemV, p: PtrV, k: int) -> bool { m.h.contains_key(p.o) && m.k[p.o] == k && p.i == 0 }
pub open spec fn put(m: MemV, o: int, x: Obj) -> MemV { MemV { h: m.h.insert(o, x), ..m } }
pub open spec fn alc(m: MemV, o: int, x: Obj, k: int) -> MemV {
    MemV { h: m.h.insert(o, x), k: m.k.insert(o, k), nx: o + 1, own: m.own.insert(o, 0), ..m } }
pub open spec fn rm(m: MemV, o: int) -> MemV { MemV { h: m.h.remove(o), k: m.k.remove(o), ..m } }
/// everything outside the footprint is as before; objects are neither created nor freed outside it
pub open spec fn frame(a: MemV, b: MemV, fp: Set<int>) -> bool {
    &&& forall|o: int| #![trigger b.h[o]] #![trigger b.h.contains_key(o)]
        !fp.contains(o) ==> b.h.contains_key(o) == a.h.contains_key(o) && b.h[o] == a.h[o]
    &&& forall|o: int| #![trigger b.k[o]] #![trigger b.k.contains_key(o)]
        !fp.contains(o) ==> b.k.contains_key(o) == a.k.contains_key(o) && b.k[o] == a.k[o]
    &&& forall|o: int| #![trigger b.own[o]] #![trigger b.ser[o]] o < a.nx ==> b.own[o] == a.own[o] && b.ser[o] == a.ser[o]
    &&& forall|o: int| #![trigger b.gs[o]] !fp.contains(o) ==> b.gs[o] == a.gs[o]
    &&& forall|o: int| #![trigger b.gc[o]] !fp.contains(o) ==> b.gc[o] == a.gc[o]
    &&& a.nx <= b.nx && a.io == b.io
}
/// ghost only: tag an object
#[verifier::external_body]
pub fn set_own(mem: &mut Mem, Ghost(o): Ghost<int>, Ghost(w): Ghost<int>, Ghost(s): Ghost<int>)
    requires 0 <= w < old(mem)@.nx
    ensures final(mem)@ == (MemV { own: old(mem)@.own.insert(o, w), ser: old(mem)@.ser.insert(o, s), ..old(mem)@ }) { unimplemented!() }

#[verifier::external_body]
pub fn set_gs(mem: &mut Mem, Ghost(o): Ghost<int>, Ghost(s): Ghost<Seq<PtrV>>)
    ensures final(mem)@ == (MemV { gs: old(mem)@.gs.insert(o, s), ..old(mem)@ }) { unimplemented!() }

#[verifier::external_body]
pub fn set_gc(mem: &mut Mem, Ghost(o): Ghost<int>, Ghost(s): Ghost<Seq<Seq<int>>>)
    ensures final(mem)@ == (MemV { gc: old(mem)@.gc.insert(o, s), ..old(mem)@ }) { unimplemented!() }

pub open spec fn u8s(m: MemV, o: int) -> Seq<u8> { m.h[o]->U8_0 }
pub open spec fn u16s(m: MemV, o: int) -> Seq<u16> { m.h[o]->U16_0 }
pub open spec fn u32s(m: MemV, o: int) -> Seq<u32> { m.h[o]->U32_0 }
pub open spec fn u64s(m: MemV, o: int) -> Seq<u64> { m.h[o]->U64_0 }
pub open spec fn ps(m: MemV, o: int) -> Seq<PtrV> { m.h[o]->P_0 }

#[verifier::external_body] #[derive(Clone, Copy)]
pub struct Exc { z: u8 }
/// whether the thrown object's type derives from std::exception
impl Exc { pub uninterp spec fn is_std(&self) -> bool; }
#[verifier::external_body]
pub fn exc_std() -> (ret: Exc) ensures ret.is_std() { unimplemented!() }
#[verifier::external_body]
pub fn exc_other() -> (ret: Exc) { unimplemented!() }
pub fn no_exc<T>(r: Result<T, Exc>) -> (ret: T) requires r is Ok ensures ret == r->Ok_0
{ match r { Ok(v) => v, Err(_) => vstd::pervasive::unreached() } }

pub fn err_of<T>(r: Result<T, Exc>) -> (ret: Exc) requires r is Err ensures ret == r->Err_0
{ match r { Err(e) => e, Ok(_) => vstd::pervasive::unreached() } }

#[verifier::external_body]
pub fn null() -> (ret: Ptr) ensures ret@ == NUL() { unimplemented!() }
#[verifier::external_body]
pub fn p_eq(a: Ptr, b: Ptr) -> (ret: bool) ensures ret == (a@ == b@) { unimplemented!() }
pub fn p_ne(a: Ptr, b: Ptr) -> (ret: bool) ensures ret == (a@ != b@) { !p_eq(a, b) }
pub fn p_null(a: Ptr) -> (ret: bool) ensures ret == (a@ == NUL()) { p_eq(a, null()) }
#[verifier::external_body]
pub fn p_lt(a: Ptr, b: Ptr) -> (ret: bool) requires a@.o == b@.o ensures ret == (a@.i < b@.i) { unimplemented!() }
pub fn p_gt(a: Ptr, b: Ptr) -> (ret: bool) requires a@.o == b@.o ensures ret == (a@.i > b@.i) { p_lt(b, a) }
pub fn p_le(a: Ptr, b: Ptr) -> (ret: bool) requires a@.o == b@.o ensures ret == (a@.i <= b@.i) { !p_lt(b, a) }
pub fn p_ge(a: Ptr, b: Ptr) -> (ret: bool) requires a@.o == b@.o ensures ret == (a@.i >= b@.i) { !p_lt(a, b) }
#[verifier::external_body]
pub fn p_diff(a: Ptr, b: Ptr) -> (ret: i64)
    requires a@.o == b@.o, -0x8000_0000_0000_0000 <= a@.i - b@.i <= 0x7fff_ffff_ffff_ffff
    ensures ret == a@.i - b@.i { unimplemented!() }
#[verifier::external_body]
pub fn padd(p: Ptr, d: i64) -> (ret: Ptr) ensures ret@ == pi(p@, d as int) { unimplemented!() }
#[verifier::external_body]
pub fn paddu(p: Ptr, d: u64) -> (ret: Ptr) ensures ret@ == pi(p@, d as int) { unimplemented!() }
#[verifier::external_body]
pub fn psub(p: Ptr, d: i64) -> (ret: Ptr) ensures ret@ == pi(p@, -(d as int)) { unimplemented!() }
#[verifier::external_body]
pub fn psubu(p: Ptr, d: u64) -> (ret: Ptr) ensures ret@ == pi(p@, -(d as int)) { unimplemented!() }
/// reinterpret a pointer to elements of size a as one to elements of size b
#[verifier::external_body]
pub fn p_cast(p: Ptr, a: u64, b: u64) -> (ret: Ptr)
    requires a > 0, b > 0, (p@.i * a) %% (b as int) == 0
    ensures ret@ == (PtrV { o: p@.o, i: (p@.i * a) / (b as int) }) { unimplemented!() }
#[verifier::external_body]
pub fn arb_ptr() -> (ret: Ptr) { unimplemented!() }
#[verifier::external_body]
pub fn arb_bool() -> (ret: bool) { unimplemented!() }
#[verifier::external_body]
pub fn free(mem: &mut Mem, p: Ptr)
    requires p@ == NUL() || live(old(mem)@, p@, 0)
    ensures final(mem)@ == (if p@ == NUL() { old(mem)@ } else { rm(old(mem)@, p@.o) }) { unimplemented!() }
#[verifier::external_body]
pub fn delete_arr(mem: &mut Mem, p: Ptr)
    requires p@ == NUL() || live(old(mem)@, p@, 2)
    ensures final(mem)@ == (if p@ == NUL() { old(mem)@ } else { rm(old(mem)@, p@.o) }) { unimplemented!() }
#[verifier::external_body]
pub fn delete_obj(mem: &mut Mem, p: Ptr)
    requires live(old(mem)@, p@, 1)
    ensures final(mem)@ == rm(old(mem)@, p@.o) { unimplemented!() }
#[verifier::external_body]
pub fn free_stack(mem: &mut Mem, p: Ptr)
    requires live(old(mem)@, p@, 3)
    ensures final(mem)@ == rm(old(mem)@, p@.o) { unimplemented!() }
pub open spec fn bitlen(x: nat) -> int decreases x { if x == 0 { 0 } else { 1 + bitlen(x / 2) } }
#[verifier::external_body]
pub fn clzl(x: u64) -> (ret: i32) requires x != 0 ensures ret == 64 - bitlen(x as nat), 0 <= ret <= 63 { unimplemented!() }
pub fn b2i(b: bool) -> (ret: i32) ensures ret == (if b { 1int } else { 0int }) { if b { 1 } else { 0 } }
"""

def ints():
    o = []
    for t, b, s in INTS:
        M, H = MAXU[b], HALF[b]
        u = "u%d" % b
        o.append("#[verifier::external_body] pub fn arb_%s() -> (ret: %s) { unimplemented!() }" % (t, t))
        # conversions to t from every other integer type (modular, as gcc defines them)
        for t2, b2, s2 in INTS:
            if t2 == t: continue
            if not s:
                e = "x as int" if (not s2 and b2 <= b) else ("x as int %% %s" % M)
            else:
                if b2 < b or (b2 == b and s2): e = "x as int"
                else: e = "sg%d(x as int %% %s)" % (b, M)
            o.append("#[verifier::external_body] pub fn %s_%s(x: %s) -> (ret: %s) ensures ret as int == %s { unimplemented!() }"
                     % (t2, t, t2, t, e))
        if s:
            o.append("pub open spec fn sg%d(u: int) -> int { if u < %s { u } else { u - %s } }" % (b, H, M))
            o.append("pub open spec fn un%d(v: int) -> int { if v < 0 { v + %s } else { v } }" % (b, M))
            # signed bit operations through the two's complement representation
            o.append("#[verifier::external_body] pub fn not_%s(x: %s) -> (ret: %s) ensures ret == -x - 1 { unimplemented!() }" % (t, t, t))
            for nm, op in (("and", "&"), ("or", "|"), ("xor", "^")):
                o.append("pub open spec fn %s_%s_s(x: int, y: int) -> int { sg%d(((un%d(x) as %s) %s (un%d(y) as %s)) as int) }" % (nm, t, b, b, u, op, b, u))
                o.append("#[verifier::external_body] pub fn %s_%s(x: %s, y: %s) -> (ret: %s) ensures ret as int == %s_%s_s(x as int, y as int) { unimplemented!() }" % (nm, t, t, t, t, nm, t))
            o.append("#[verifier::external_body] pub fn shr_%s(x: %s, s: u64) -> (ret: %s) requires s < %d ensures ret as int == x as int / (pow2(s as nat) as int) { unimplemented!() }" % (t, t, t, b))
            o.append("/// left shift of a negative value: modulo 2^%d, as gcc and C++20 define it\n#[verifier::external_body] pub fn shl_%s(x: %s, s: u64) -> (ret: %s) requires s < %d ensures ret as int == shl_%s_s(x as int, s) { unimplemented!() }\npub open spec fn shl_%s_s(x: int, s: u64) -> int { sg%d(((un%d(x) as %s) << (s as %s)) as int) }"
                     % (b, t, t, t, b, t, t, b, b, u, u))
        else:
            o.append("#[verifier::external_body] pub fn shl_%s(x: %s, s: u64) -> (ret: %s) requires s < %d ensures ret == x << (s as %s) { unimplemented!() }" % (t, t, t, b, t))
            o.append("#[verifier::external_body] pub fn shr_%s(x: %s, s: u64) -> (ret: %s) requires s < %d ensures ret == x >> (s as %s) { unimplemented!() }" % (t, t, t, b, t))
            o.append("pub fn add_%s(a: %s, b: %s) -> (ret: %s) ensures ret as int == (if a + b < %s { a + b } else { a + b - %s }) { a.wrapping_add(b) }" % (t, t, t, t, M, M))
            o.append("pub fn sub_%s(a: %s, b: %s) -> (ret: %s) ensures ret as int == (if a >= b { a - b } else { a - b + %s }) { a.wrapping_sub(b) }" % (t, t, t, t, M))
            o.append("#[verifier::external_body] pub fn mul_%s(a: %s, b: %s) -> (ret: %s) ensures ret as int == (a * b) %% %s, a * b < %s ==> ret as int == a * b { unimplemented!() }" % (t, t, t, t, M, M))
            o.append("pub fn not_%s(a: %s) -> (ret: %s) ensures ret == !a { !a }" % (t, t, t))
    for t in ("bool",):
        for t2, b2, s2 in INTS:
            o.append("pub fn bool_%s(x: bool) -> (ret: %s) ensures ret as int == (if x { 1int } else { 0int }) { if x { 1 } else { 0 } }" % (t2, t2))
    return "\n".join(o)

def heap():
    o = []
    for t, b, s in INTS + [("ptr", 64, False)]:
        ptr = t == "ptr"
        V = "P" if ptr else "U%d" % b
        acc = "ps" if ptr else "u%ds" % b
        rt = "Ptr" if ptr else t
        u = "u%d" % b
        sz = b // 8
        for sfx, it in (("", "i64"), ("u", "u64")):
            ix = "p@.i + i"
            dom = "%s.h.contains_key(p@.o), %s.h[p@.o] is " + V + ", 0 <= " + ix + " < " + acc + "(%s, p@.o).len()"
            cell = "%s(mem@, p@.o)[%s]" % (acc, ix)
            ens = "ret@ == " + cell if ptr else ("ret as int == sg%d(%s as int)" % (b, cell) if s else "ret == " + cell)
            o.append("#[verifier::external_body] pub fn ld%s_%s(mem: &Mem, p: Ptr, i: %s) -> (ret: %s) requires %s ensures %s { unimplemented!() }"
                     % (sfx, t, it, rt, dom % ("mem@", "mem@", "mem@"), ens))
            val = "v@" if ptr else ("un%d(v as int) as %s" % (b, u) if s else "v")
            o.append("#[verifier::external_body] pub fn st%s_%s(mem: &mut Mem, p: Ptr, i: %s, v: %s) requires %s ensures final(mem)@ == put(old(mem)@, p@.o, Obj::%s(%s(old(mem)@, p@.o).update(%s, %s))) { unimplemented!() }"
                     % (sfx, t, it, rt, dom % ("old(mem)@", "old(mem)@", "old(mem)@"), V, acc, ix, val))
        if s: continue
        for nm, k in (("new_arr", 2), ("stack_arr", 3)):
            o.append("""#[verifier::external_body] pub fn %s_%s(mem: &mut Mem, n: u64) -> (ret: Ptr)
  ensures ret@ == (PtrV { o: old(mem)@.nx, i: 0 }), old(mem)@.nx >= 1,
    exists|s: Seq<%s>| s.len() == n && final(mem)@ == alc(old(mem)@, old(mem)@.nx, Obj::%s(s), %d) { unimplemented!() }"""
                     % (nm, t, "PtrV" if ptr else u, V, k))
        o.append("""#[verifier::external_body] pub fn malloc_%s(mem: &mut Mem, n: u64) -> (ret: Ptr)
  ensures ret@ == (PtrV { o: old(mem)@.nx, i: 0 }), old(mem)@.nx >= 1,
    exists|s: Seq<%s>| s.len() == n as int / %d && final(mem)@ == alc(old(mem)@, old(mem)@.nx, Obj::%s(s), 0) { unimplemented!() }"""
                 % (t, "PtrV" if ptr else u, sz, V))
        o.append("""#[verifier::external_body] pub fn realloc_%s(mem: &mut Mem, p: Ptr, n: u64) -> (ret: Ptr)
  requires p@ == NUL() || (live(old(mem)@, p@, 0) && old(mem)@.h[p@.o] is %s), n > 0
  ensures ret@.i == 0, ret@.o == old(mem)@.nx || (p@ != NUL() && ret@ == p@), old(mem)@.nx >= 1,
    exists|s: Seq<%s>| s.len() == n as int / %d
      && (forall|j: int| 0 <= j < s.len() && p@ != NUL() && j < %s(old(mem)@, p@.o).len() ==> #[trigger] s[j] == %s(old(mem)@, p@.o)[j])
      && final(mem)@ == (MemV { nx: old(mem)@.nx + 1, own: if ret@.o == old(mem)@.nx { old(mem)@.own.insert(ret@.o, 0) } else { old(mem)@.own }, ..alc(if p@ == NUL() { old(mem)@ } else { rm(old(mem)@, p@.o) }, ret@.o, Obj::%s(s), 0) }) { unimplemented!() }"""
                 % (t, V, "PtrV" if ptr else u, sz, acc, acc, V))
    return "\n".join(o)

def sizeof_class(fields, classes):
    off, al = 0, 1
    def sa(t):
        t = t.strip().replace("const ", "")
        if t.endswith("]"):
            base, n = t[:-1].rsplit("[", 1)
            s, a = sa(base)
            return s * int(n), a
        if t.endswith("*"): return 8, 8
        m = {"uint64_t": 8, "int64_t": 8, "uint32_t": 4, "int32_t": 4, "uint16_t": 2, "int16_t": 2,
             "uint8_t": 1, "int8_t": 1, "bool": 1, "unsigned char": 1, "char": 1, "int": 4,
             "unsigned int": 4, "long": 8, "unsigned long": 8}
        if t in m: return m[t], m[t]
        raise KeyError(t)
    for _, t in fields:
        s, a = sa(t)
        off = (off + a - 1) // a * a + s
        al = max(al, a)
    return (off + al - 1) // al * al

def classes(tr):
    """tr.class_fields: {class: [(field, rust type or ('arr', rust type, n))]}"""
    structs, objs, fns = [], [], []
    for c, fs in sorted(tr.class_fields.items()):
        objs.append("    %s(%sV)," % (c, c))
        body = []
        for f, t in fs:
            if isinstance(t, tuple): body.append("pub %s: Seq<%s>" % (f, "PtrV" if t[1] == "Ptr" else t[1]))
            else: body.append("pub %s: %s" % (f, "PtrV" if t == "Ptr" else t))
        structs.append("#[verifier::ext_equal]\npub struct %sV { %s }" % (c, ", ".join(body)))
        structs.append("pub open spec fn o_%s(m: MemV, o: int) -> %sV { m.h[o]->%s_0 }" % (c, c, c))
        structs.append("pub open spec fn is_%s(m: MemV, p: PtrV) -> bool { m.h.contains_key(p.o) && m.h[p.o] is %s && p.i == 0 }" % (c, c))
        for f, t in fs:
            O = "old(mem)@"
            if isinstance(t, tuple):
                et = t[1]
                for sfx, it in (("", "i64"), ("u", "u64")):
                    fns.append("#[verifier::external_body] pub fn ldfa%s_%s_%s(mem: &Mem, p: Ptr, i: %s) -> (ret: %s) requires is_%s(mem@, p@), 0 <= i < o_%s(mem@, p@.o).%s.len() ensures ret%s == o_%s(mem@, p@.o).%s[i as int] { unimplemented!() }"
                               % (sfx, c, f, it, et, c, c, f, "@" if et == "Ptr" else "", c, f))
                    fns.append("#[verifier::external_body] pub fn stfa%s_%s_%s(mem: &mut Mem, p: Ptr, i: %s, v: %s) requires is_%s(%s, p@), 0 <= i < o_%s(%s, p@.o).%s.len() ensures final(mem)@ == put(%s, p@.o, Obj::%s(%sV { %s: o_%s(%s, p@.o).%s.update(i as int, v%s), ..o_%s(%s, p@.o) })) { unimplemented!() }"
                               % (sfx, c, f, it, et, c, O, c, O, f, O, c, c, f, c, O, f, "@" if et == "Ptr" else "", c, O))
            else:
                v = "v@" if t == "Ptr" else "v"
                fns.append("#[verifier::external_body] pub fn ldf_%s_%s(mem: &Mem, p: Ptr) -> (ret: %s) requires is_%s(mem@, p@) ensures ret%s == o_%s(mem@, p@.o).%s { unimplemented!() }"
                           % (c, f, t, c, "@" if t == "Ptr" else "", c, f))
                fns.append("#[verifier::external_body] pub fn stf_%s_%s(mem: &mut Mem, p: Ptr, v: %s) requires is_%s(%s, p@) ensures final(mem)@ == put(%s, p@.o, Obj::%s(%sV { %s: %s, ..o_%s(%s, p@.o) })) { unimplemented!() }"
                           % (c, f, t, c, O, O, c, c, f, v, c, O))
        lens = " && ".join("x.%s.len() == %d" % (f, t[2]) for f, t in fs if isinstance(t, tuple)) or "true"
        for nm, k, extra in (("new_%s" % c, 1, ""), ("malloc_%s" % c, 0, ", n: u64")):
            req = "requires n >= %d" % tr.class_size[c] if extra else ""
            fns.append("""#[verifier::external_body] pub fn %s(mem: &mut Mem%s) -> (ret: Ptr) %s
  ensures ret@ == (PtrV { o: old(mem)@.nx, i: 0 }), old(mem)@.nx >= 1,
    exists|x: %sV| %s && final(mem)@ == #[trigger] alc(old(mem)@, old(mem)@.nx, Obj::%s(x), %d) { unimplemented!() }"""
                       % (nm, extra, req, c, lens, c, k))
    return "\n".join(structs), "\n".join(objs), "\n".join(fns)

FILES = r"""
#[verifier::external_body]
pub fn fill_n_u64(mem: &mut Mem, p: Ptr, n: u64, v: u64)
  requires old(mem)@.h.contains_key(p@.o), old(mem)@.h[p@.o] is U64, 0 <= p@.i, p@.i + n <= u64s(old(mem)@, p@.o).len()
  ensures final(mem)@ == put(old(mem)@, p@.o, Obj::U64(Seq::new(u64s(old(mem)@, p@.o).len(), |j: int| if p@.i <= j < p@.i + n { v } else { u64s(old(mem)@, p@.o)[j] }))) { unimplemented!() }

// ---- std::sort over an array of pointers: needs a strict weak order that the comparator computes in every state the
// ---- sort can call it in; yields the elements of the range rearranged into that order
pub open spec fn is_perm(p: Seq<int>, q: Seq<int>, n: int) -> bool {
    &&& p.len() == n && q.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n && q[p[i]] == i
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n && p[q[i]] == i
}
pub open spec fn in_range(m: MemV, a: PtrV, b: PtrV, x: PtrV) -> bool { exists|k: int| a.i <= k < b.i && #[trigger] ps(m, a.o)[k] == x }
/// a state while the sort runs: only the range differs
pub open spec fn sorting(m: MemV, w: MemV, a: PtrV) -> bool { w.h.contains_key(a.o) && w == put(m, a.o, w.h[a.o]) }
#[verifier::external_body]
pub fn std_sort<F: Fn(&Mem, Ptr, Ptr) -> bool>(mem: &mut Mem, a: Ptr, b: Ptr, f: F, Ghost(lt): Ghost<spec_fn(PtrV, PtrV) -> bool>)
  requires a@.o == b@.o, old(mem)@.h.contains_key(a@.o), old(mem)@.h[a@.o] is P, 0 <= a@.i <= b@.i <= ps(old(mem)@, a@.o).len(),
    forall|w: &Mem, x: Ptr, y: Ptr| #![trigger f.requires((w, x, y))] sorting(old(mem)@, w@, a@) && in_range(old(mem)@, a@, b@, x@) && in_range(old(mem)@, a@, b@, y@) ==> f.requires((w, x, y)),
    forall|w: &Mem, x: Ptr, y: Ptr, r: bool| #![trigger f.ensures((w, x, y), r)] sorting(old(mem)@, w@, a@) && in_range(old(mem)@, a@, b@, x@) && in_range(old(mem)@, a@, b@, y@) && f.ensures((w, x, y), r) ==> r == lt(x@, y@),
    forall|x: PtrV| in_range(old(mem)@, a@, b@, x) ==> !#[trigger] lt(x, x),
    forall|x: PtrV, y: PtrV, z: PtrV| in_range(old(mem)@, a@, b@, x) && in_range(old(mem)@, a@, b@, y) && in_range(old(mem)@, a@, b@, z) && #[trigger] lt(x, y) && #[trigger] lt(y, z) ==> lt(x, z),
    forall|x: PtrV, y: PtrV, z: PtrV| in_range(old(mem)@, a@, b@, x) && in_range(old(mem)@, a@, b@, y) && in_range(old(mem)@, a@, b@, z) && !#[trigger] lt(x, y) && !#[trigger] lt(y, z) ==> !lt(x, z),
  ensures
    final(mem)@ == put(old(mem)@, a@.o, Obj::P(ps(final(mem)@, a@.o))), ps(final(mem)@, a@.o).len() == ps(old(mem)@, a@.o).len(),
    forall|k: int| 0 <= k < ps(old(mem)@, a@.o).len() && !(a@.i <= k < b@.i) ==> #[trigger] ps(final(mem)@, a@.o)[k] == ps(old(mem)@, a@.o)[k],
    forall|i: int, j: int| a@.i <= i < j < b@.i ==> !lt(#[trigger] ps(final(mem)@, a@.o)[j], #[trigger] ps(final(mem)@, a@.o)[i]),
    exists|p: Seq<int>, q: Seq<int>| #[trigger] is_perm(p, q, b@.i - a@.i) && (forall|k: int| a@.i <= k < b@.i ==> #[trigger] ps(final(mem)@, a@.o)[k] == ps(old(mem)@, a@.o)[a@.i + p[k - a@.i]]) { unimplemented!() }

// ---- the C stream functions, over ghost files; any call may fail at any time
pub open spec fn is_open(m: MemV, p: PtrV) -> bool { p.i == 0 && p != NUL() && m.io.st.contains_key(p.o) }
/// mode 1: reading, 2: writing (truncates)
#[verifier::external_body]
pub fn io_fopen(mem: &mut Mem, name: Ptr, mode: u8) -> (ret: Ptr)
  requires mode == 1 || mode == 2
  ensures ret@ == NUL() || (ret@ == (PtrV { o: old(mem)@.nx, i: 0 }) && old(mem)@.nx >= 1 && !old(mem)@.io.st.contains_key(old(mem)@.nx)),
    ret@ == NUL() ==> final(mem)@ == old(mem)@,
    ret@ != NUL() && mode == 1 ==> old(mem)@.io.files.contains_key(path_of(name@)) && old(mem)@.io.files[path_of(name@)].len() <= 0x7fff_ffff_ffff_fff0
      && final(mem)@ == (MemV { nx: old(mem)@.nx + 1, ..with_stream(old(mem)@, ret@.o, StreamV { name: path_of(name@), pos: 0, write: false, data: Seq::empty() }) }),
    ret@ != NUL() && mode == 2 ==> final(mem)@ == (MemV { nx: old(mem)@.nx + 1,
      ..with_stream(with_file(old(mem)@, path_of(name@), Seq::empty()), ret@.o, StreamV { name: path_of(name@), pos: 0, write: true, data: Seq::empty() }) }) { unimplemented!() }
/// a stream opened for writing delivers what was written when, and only when, closing it succeeds
#[verifier::external_body]
pub fn io_fclose(mem: &mut Mem, p: Ptr) -> (ret: i32)
  requires is_open(old(mem)@, p@)
  ensures ({ let s = old(mem)@.io.st[p@.o]; let m = MemV { io: IoV { st: old(mem)@.io.st.remove(p@.o), ..old(mem)@.io }, ..old(mem)@ };
    if !s.write { final(mem)@ == m } else if ret == 0 { final(mem)@ == with_file(m, s.name, s.data) }
    else { exists|x: Seq<u8>| final(mem)@ == with_file(m, s.name, x) } }) { unimplemented!() }
pub open spec fn with_stream(m: MemV, o: int, s: StreamV) -> MemV { MemV { io: IoV { st: m.io.st.insert(o, s), ..m.io }, ..m } }
pub open spec fn with_file(m: MemV, n: int, s: Seq<u8>) -> MemV { MemV { io: IoV { files: m.io.files.insert(n, s), ..m.io }, ..m } }
#[verifier::external_body]
pub fn io_fseek(mem: &mut Mem, p: Ptr, ofs: i64, whence: i32) -> (ret: i32)
  requires is_open(old(mem)@, p@), !old(mem)@.io.st[p@.o].write, 0 <= whence <= 2
  ensures ({ let s = old(mem)@.io.st[p@.o]; let base = if whence == 0 { 0int } else if whence == 1 { s.pos } else { old(mem)@.io.files[s.name].len() as int };
    if ret == 0 { base + ofs >= 0 && final(mem)@ == with_stream(old(mem)@, p@.o, StreamV { pos: base + ofs, ..s }) } else { final(mem)@ == old(mem)@ } }) { unimplemented!() }
#[verifier::external_body]
pub fn io_rewind(mem: &mut Mem, p: Ptr)
  requires is_open(old(mem)@, p@), !old(mem)@.io.st[p@.o].write
  ensures final(mem)@ == with_stream(old(mem)@, p@.o, StreamV { pos: 0, ..old(mem)@.io.st[p@.o] }) { unimplemented!() }
#[verifier::external_body]
pub fn io_ftell(mem: &mut Mem, p: Ptr) -> (ret: i64)
  requires is_open(old(mem)@, p@)
  ensures final(mem)@ == old(mem)@, ret == -1 || (ret as int == old(mem)@.io.st[p@.o].pos && ret >= 0) { unimplemented!() }
/// g bytes are delivered; the rest of the destination range is unspecified
pub open spec fn read_into(a: MemV, b: MemV, fp: PtrV, d: PtrV, want: int, g: int) -> bool {
    let s = a.io.st[fp.o]; let x = a.io.files[s.name]; let t = u8s(a, d.o);
    &&& 0 <= g <= want && (g > 0 ==> s.pos + g <= x.len())
    &&& exists|u: Seq<u8>| u.len() == t.len() && (forall|j: int| 0 <= j < t.len() && !(d.i <= j < d.i + want) ==> #[trigger] u[j] == t[j])
        && (forall|j: int| d.i <= j < d.i + g ==> #[trigger] u[j] == x[s.pos + j - d.i])
        && b == (MemV { io: IoV { rd: a.io.rd.insert(s.name, a.io.rd[s.name] + g), st: a.io.st.insert(fp.o, StreamV { pos: s.pos + g, ..s }), ..a.io }, ..put(a, d.o, Obj::U8(u)) })
}
#[verifier::external_body]
pub fn io_fread(mem: &mut Mem, d: Ptr, size: u64, n: u64, p: Ptr) -> (ret: u64)
  requires is_open(old(mem)@, p@), !old(mem)@.io.st[p@.o].write, size == 1 || n == 1,
    old(mem)@.h.contains_key(d@.o), old(mem)@.h[d@.o] is U8, 0 <= d@.i, d@.i + size * n <= u8s(old(mem)@, d@.o).len()
  ensures size == 1 ==> read_into(old(mem)@, final(mem)@, p@, d@, n as int, ret as int),
    size != 1 ==> ret <= 1 && (ret == 1 ==> read_into(old(mem)@, final(mem)@, p@, d@, size as int, size as int)) && (ret == 0 ==> exists|g: int| g < size && read_into(old(mem)@, final(mem)@, p@, d@, size as int, g)) { unimplemented!() }
#[verifier::external_body]
pub fn io_fwrite(mem: &mut Mem, d: Ptr, size: u64, n: u64, p: Ptr) -> (ret: u64)
  requires is_open(old(mem)@, p@), old(mem)@.io.st[p@.o].write, size == 1 || n == 1,
    size * n > 0 ==> old(mem)@.h.contains_key(d@.o) && old(mem)@.h[d@.o] is U8 && 0 <= d@.i && d@.i + size * n <= u8s(old(mem)@, d@.o).len()
  ensures ret <= n, ({ let s = old(mem)@.io.st[p@.o];
    if ret == n { final(mem)@ == with_stream(old(mem)@, p@.o, StreamV { data: s.data + (if size * n > 0 { u8s(old(mem)@, d@.o).subrange(d@.i, d@.i + size * n) } else { Seq::empty() }), ..s }) }
    else { exists|x: Seq<u8>| final(mem)@ == with_stream(old(mem)@, p@.o, StreamV { data: x, ..s }) } }) { unimplemented!() }
"""

def text(tr):
    s, ob, fns = classes(tr)
    return (HEAD % {"objs": ob, "structs": s}) + ints() + "\n" + heap() + "\n" + fns + "\n" + FILES + "\n} // mod base\n"
