// std: binary search on a sorted slice (assumed contract of std)
pub open spec fn sorted_i64(s: Seq<i64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
#[verifier::external_body]
pub fn bsearch(v: &Vec<i64>, x: &i64) -> (r: Result<usize, usize>)
    requires sorted_i64(v@),
    ensures r is Ok ==> r->Ok_0 < v@.len() && v@[r->Ok_0 as int] == *x,
        r is Err ==> r->Err_0 <= v@.len() && !v@.contains(*x),
{ v.binary_search(x) }
pub open spec fn sorted_ids(s: Seq<(usize, EdgeIdx)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
#[verifier::external_body]
pub fn bsearch_id(v: &Vec<(usize, EdgeIdx)>, x: &usize) -> (r: Result<usize, usize>)
    requires sorted_ids(v@),
    ensures r is Ok ==> r->Ok_0 < v@.len() && v@[r->Ok_0 as int].0 == *x,
        r is Err ==> forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0 != *x,
{ v.binary_search_by_key(x, |(a, _b)| *a) }
