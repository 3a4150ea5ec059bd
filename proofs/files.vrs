// ---------------------------------------------------------------- text files (assumed contracts of std): a readable file is a list of lines that does not change between reads
pub struct PathBuf { pub id: u64 }   // a path is an opaque value
impl Clone for PathBuf { fn clone(&self) -> (r: PathBuf) ensures r == *self { PathBuf { id: self.id } } }
impl PathBuf { pub fn as_ref(&self) -> (r: &PathBuf) ensures r == self { self } }
pub uninterp spec fn readable(p: PathBuf) -> bool;
pub uninterp spec fn content(p: PathBuf) -> Seq<int>;
#[verifier::external_body] pub struct File { x: u8 }
#[verifier::external_body] pub struct BufReader { x: u8 }
pub uninterp spec fn file_at(f: File) -> PathBuf;
pub uninterp spec fn buf_at(f: BufReader) -> PathBuf;
#[verifier::external_body] pub fn open_file(p: &PathBuf) -> (r: Result<File, PErr>) ensures readable(*p) ==> r is Ok, r is Ok ==> file_at(r->Ok_0) == *p { unimplemented!() }
impl BufReader {
    #[verifier::external_body] pub fn new(f: File) -> (r: BufReader) ensures buf_at(r) == file_at(f) { unimplemented!() }
    #[verifier::external_body] pub fn lines(self) -> (r: Vec<Result<Str, PErr>>)
        ensures r@.len() == content(buf_at(self)).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) is Ok && code(r@[i]->Ok_0) == content(buf_at(self))[i] { unimplemented!() }
}
pub uninterp spec fn words(c: int) -> Seq<int>;
pub uninterp spec fn slen(c: int) -> nat;
pub uninterp spec fn sfirst(c: int) -> Option<char>;
pub uninterp spec fn spre(c: int, p: int) -> bool;
pub uninterp spec fn stail(c: int, n: int) -> int;
pub uninterp spec fn scut(c: int, n: int) -> bool;
#[verifier::external_body] pub struct Chars { x: u8 }
pub uninterp spec fn chars_at(c: Chars) -> int;
pub uninterp spec fn chars_new(c: Chars) -> bool;
impl Chars { #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>) ensures chars_new(*old(self)) ==> r == sfirst(chars_at(*old(self))) { unimplemented!() } }
impl Str {
    #[verifier::external_body] pub fn split_whitespace(&self) -> (r: Vec<&Str>) ensures r@.len() == words(code(*self)).len(), forall|i: int| 0 <= i < r@.len() ==> code(*(#[trigger] r@[i])) == words(code(*self))[i] { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == slen(code(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn chars(&self) -> (r: Chars) ensures chars_new(r), chars_at(r) == code(*self) { unimplemented!() }
    #[verifier::external_body] pub fn starts_with_lit(&self, c: u64, n: usize) -> (r: bool) ensures r == spre(code(*self), c as int), r ==> scut(code(*self), n as int) { unimplemented!() }
    #[verifier::external_body] pub fn tail_from(&self, n: usize) -> (r: &Str) requires scut(code(*self), n as int) ensures code(*r) == stail(code(*self), n as int) { unimplemented!() }
}
pub fn range_has(r: &core::ops::Range<usize>, x: usize) -> (b: bool) ensures b == (r.start <= x < r.end) { r.start <= x && x < r.end }
/// comments and blank lines do not count
pub open spec fn functional(c: int) -> bool { slen(c) > 0 && sfirst(c) != Some('#') }
@@fn src/helpers/mod.rs :: is_line_functional [map=String>Str]
%spec
    ensures r == functional(code(*line)),
@@end
/// the functional lines among the first n ones
pub open spec fn fl(c: Seq<int>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::<int>::empty() } else if functional(c[n - 1]) { fl(c, n - 1).push(c[n - 1]) } else { fl(c, n - 1) } }
pub open spec fn flines(p: PathBuf) -> Seq<int> { fl(content(p), content(p).len() as int) }
pub proof fn lem_fl(c: Seq<int>, i: int, n: int)
    requires 0 <= i <= n <= c.len(), ensures fl(c, i).len() <= i, fl(c, i).len() <= fl(c, n).len(), fl(c, i) == fl(c, n).subrange(0, fl(c, i).len() as int), decreases n,
{ if n > i { lem_fl(c, i, n - 1); if functional(c[n - 1]) { assert(fl(c, i) =~= fl(c, n).subrange(0, fl(c, i).len() as int)); } } else if i > 0 { lem_fl(c, i - 1, i - 1); assert(fl(c, i) =~= fl(c, n).subrange(0, fl(c, i).len() as int)); } else { assert(fl(c, i) =~= fl(c, n).subrange(0, 0)); } }
// the head of a file with counts
pub open spec fn single(l: int) -> bool { words(l).len() == 1 }
/// the first line with one word, from position i on
pub open spec fn fs(f: Seq<int>, i: int) -> int decreases f.len() - i { if i >= f.len() { f.len() as int } else if single(f[i]) { i } else { fs(f, i + 1) } }
/// the first line with more or less than one word, from position i on
pub open spec fn fe(f: Seq<int>, i: int) -> int decreases f.len() - i { if i >= f.len() { f.len() as int } else if !single(f[i]) { i } else { fe(f, i + 1) } }
/// the counts are the numbers in the first block of one-word lines; what follows are the nodes
pub open spec fn head(f: Seq<int>) -> int { fe(f, fs(f, 0)) }
pub open spec fn cnts(f: Seq<int>, n: int) -> Seq<usize> decreases n { if n <= 0 { Seq::<usize>::empty() } else if single(f[n - 1]) && p_usize(words(f[n - 1])[0]) is Some { cnts(f, n - 1).push(p_usize(words(f[n - 1])[0])->0) } else { cnts(f, n - 1) } }
pub open spec fn counts_of(f: Seq<int>) -> Seq<usize> { cnts(f, head(f)) }
/// line k is the position-th functional one, with the position in the range
pub open spec fn within(c: Seq<int>, lo: int, hi: int, k: int) -> bool { functional(c[k]) && lo <= fl(c, k).len() < hi }
