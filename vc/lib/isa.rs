// Suffix arrays of integer strings; counting.
/// suffix order of an integer string; the end precedes every symbol
pub open spec fn ilt(s: Seq<int>, i: int, j: int) -> bool { exists|k: int| #[trigger] ilt_at(s, i, j, k) }
pub open spec fn ilt_at(s: Seq<int>, i: int, j: int, k: int) -> bool {
    &&& 0 <= k && i + k <= s.len() && j + k < s.len() && (forall|l: int| 0 <= l < k ==> s[i + l] == #[trigger] s[j + l])
    &&& i + k == s.len() || s[i + k] < s[j + k]
}
/// a is the suffix array of s
pub open spec fn is_sa(s: Seq<int>, a: Seq<int>) -> bool {
    &&& a.len() == s.len()
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < s.len()
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> ilt(s, #[trigger] a[i], #[trigger] a[j])
}
/// how many numbers below k satisfy f
pub open spec fn cnt(f: spec_fn(int) -> bool, k: int) -> int decreases k { if k <= 0 { 0 } else { cnt(f, k - 1) + (if f(k - 1) { 1int } else { 0 }) } }
pub proof fn lem_cnt_le(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, k: int)
    requires forall|j: int| 0 <= j < k && #[trigger] f(j) ==> g(j)
    ensures 0 <= cnt(f, k) <= cnt(g, k)
    decreases k
{ if k > 0 { lem_cnt_le(f, g, k - 1); } }
pub proof fn lem_cnt_lt(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, k: int, x: int)
    requires forall|j: int| 0 <= j < k && #[trigger] f(j) ==> g(j), 0 <= x < k, !f(x), g(x)
    ensures 0 <= cnt(f, k) < cnt(g, k)
    decreases k
{ if x < k - 1 { lem_cnt_lt(f, g, k - 1, x); } else { lem_cnt_le(f, g, k - 1); } }
pub proof fn lem_cnt_sum(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, h: spec_fn(int) -> bool, k: int)
    requires forall|j: int| 0 <= j < k ==> #[trigger] h(j) == (f(j) || g(j)) && !(f(j) && g(j))
    ensures cnt(h, k) == cnt(f, k) + cnt(g, k)
    decreases k
{ if k > 0 { lem_cnt_sum(f, g, h, k - 1); assert(h(k - 1) == (f(k - 1) || g(k - 1))); } }
pub proof fn lem_cnt_all(f: spec_fn(int) -> bool, k: int)
    requires 0 <= k
    ensures 0 <= cnt(f, k) <= k
    decreases k
{ if k > 0 { lem_cnt_all(f, k - 1); } }
/// taking one element out
pub proof fn lem_cnt_out(f: spec_fn(int) -> bool, k: int, x: int)
    requires 0 <= x < k, f(x)
    ensures cnt(|j: int| f(j) && j != x, k) == cnt(f, k) - 1
{
    let g = |j: int| f(j) && j != x; let e = |j: int| j == x;
    lem_cnt_sum(g, e, f, k); lem_cnt_one(x, k);
}
pub proof fn lem_cnt_one(x: int, k: int)
    requires 0 <= x
    ensures cnt(|j: int| j == x, k) == (if x < k { 1int } else { 0 })
    decreases k
{ if k > 0 { lem_cnt_one(x, k - 1); } }
/// different elements: no more than there are
pub proof fn lem_cnt_seq(f: spec_fn(int) -> bool, k: int, s: Seq<int>)
    requires forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < k && f(s[i]), forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j], 0 <= k
    ensures s.len() <= cnt(f, k)
    decreases s.len()
{
    if s.len() == 0 { lem_cnt_all(f, k); }
    else {
        let x = s[s.len() - 1]; let u = s.subrange(0, s.len() - 1);
        lem_cnt_out(f, k, x);
        assert forall|i: int| 0 <= i < u.len() implies 0 <= #[trigger] u[i] < k && f(u[i]) && u[i] != x by { assert(u[i] == s[i]); }
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies #[trigger] u[i] != #[trigger] u[j] by { assert(s[i] != s[j]); }
        lem_cnt_seq(|j: int| f(j) && j != x, k, u);
    }
}
/// as many different elements as there are: every element is among them
pub proof fn lem_cnt_full(f: spec_fn(int) -> bool, k: int, s: Seq<int>, y: int) -> (i: int)
    requires forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < k && f(s[i]), forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j], s.len() == cnt(f, k), 0 <= y < k, f(y)
    ensures 0 <= i < s.len(), s[i] == y
{
    if forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != y {
        lem_cnt_out(f, k, y);
        lem_cnt_seq(|j: int| f(j) && j != y, k, s);
        assert(false);
    }
    choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == y
}
/// a downward closed predicate holds exactly below its count
pub proof fn lem_cnt_down(f: spec_fn(int) -> bool, k: int, i: int)
    requires forall|i: int, j: int| 0 <= i < j < k && #[trigger] f(j) ==> #[trigger] f(i), 0 <= i < k
    ensures f(i) <==> i < cnt(f, k)
    decreases k
{
    if f(k - 1) {
        lem_cnt_pre(f, k);
        if i < k - 1 { assert(f(i)); }
    } else if i < k - 1 { lem_cnt_down(f, k - 1, i); } else {
        if cnt(f, k - 1) > k - 1 { lem_cnt_all(f, k - 1); }
        lem_cnt_all(f, k - 1);
    }
}
pub proof fn lem_cnt_pre(f: spec_fn(int) -> bool, k: int)
    requires forall|i: int, j: int| 0 <= i < j < k && #[trigger] f(j) ==> #[trigger] f(i), 0 < k, f(k - 1)
    ensures cnt(f, k) == k
    decreases k
{ if k > 1 { assert(f(k - 2)); lem_cnt_pre(f, k - 1); } else { assert(cnt(f, 0) == 0); } }
pub open spec fn yes() -> spec_fn(int) -> bool { |j: int| true }
pub proof fn lem_cnt_yes(k: int)
    requires 0 <= k
    ensures cnt(yes(), k) == k
    decreases k
{ if k > 0 { lem_cnt_yes(k - 1); } }
pub proof fn lem_cnt_none(f: spec_fn(int) -> bool, k: int)
    requires forall|j: int| 0 <= j < k ==> !#[trigger] f(j)
    ensures cnt(f, k) == 0
    decreases k
{ if k > 0 { lem_cnt_none(f, k - 1); } }
