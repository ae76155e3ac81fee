// uses: table
// The statistics container.
pub open spec fn cn_len(c: ContainerV) -> bool { c.M.len() == 258 && c.M2.len() == 258 && c.M3.len() == 258 && c.C.len() == 258 && c.C2.len() == 258 && c.NL.len() == 258 }
/// freshly built: everything zero except the length
pub open spec fn cn_part(c: ContainerV, n: u64, i: int) -> bool {
    &&& c.hashtable == NUL() && c.n == n && c.num_of_substrings == 0 && c.num_of_unique_substrings == 0
    &&& cn_len(c)
    &&& forall|j: int| i <= j < 258 ==> #[trigger] c.M[j] == 0
    &&& forall|j: int| i <= j < 258 ==> #[trigger] c.M2[j] == 0
    &&& forall|j: int| i <= j < 258 ==> #[trigger] c.M3[j] == 0
    &&& forall|j: int| i <= j < 258 ==> #[trigger] c.C[j] == 0
    &&& forall|j: int| i <= j < 258 ==> #[trigger] c.C2[j] == 0
    &&& forall|j: int| i <= j < 258 ==> #[trigger] c.NL[j] == 0
}
pub open spec fn cn_new(c: ContainerV, n: u64) -> bool { cn_part(c, n, 0) }
