// ---------------------------------------------------------------- text output (assumed contracts of std): what is written ends up in the file, in order; writing to a new file succeeds
pub enum Tok { Lit(int), U(usize), I(i64), F(Ext), S(int), Any, Nl }
pub trait Show { spec fn tok(&self) -> Tok; }
impl Show for usize { open spec fn tok(&self) -> Tok { Tok::U(*self) } }
impl Show for i32 { open spec fn tok(&self) -> Tok { Tok::U(*self as usize) } }
impl Show for u64 { open spec fn tok(&self) -> Tok { Tok::U(*self as usize) } }
impl Show for i64 { open spec fn tok(&self) -> Tok { Tok::I(*self) } }
impl Show for F64 { open spec fn tok(&self) -> Tok { Tok::F(self@) } }
impl Show for NodeIdx { open spec fn tok(&self) -> Tok { Tok::U(self.0) } }   // Display of NodeIdx, EdgeIdx: the number
impl Show for EdgeIdx { open spec fn tok(&self) -> Tok { Tok::U(self.0) } }
impl Show for Str { open spec fn tok(&self) -> Tok { Tok::S(code(*self)) } }
impl<'a> Show for &'a Str { open spec fn tok(&self) -> Tok { Tok::S(code(**self)) } }
pub struct Disp;
impl Show for Disp { open spec fn tok(&self) -> Tok { Tok::Any } }
impl PathBuf { pub fn display(&self) -> (r: Disp) { Disp } }
#[verifier::external_body] pub struct Out { x: u8 }
impl Out {
    pub uninterp spec fn log(&self) -> Seq<Tok>;
    pub uninterp spec fn at(&self) -> PathBuf;
    #[verifier::external_body] pub fn lit(&mut self, c: u64) -> (r: Result<(), Msg>) ensures r is Ok, final(self).log() == old(self).log().push(Tok::Lit(c as int)), final(self).at() == old(self).at() { unimplemented!() }
    #[verifier::external_body] pub fn show<T: Show>(&mut self, x: &T) -> (r: Result<(), Msg>) ensures r is Ok, final(self).log() == old(self).log().push(x.tok()), final(self).at() == old(self).at() { unimplemented!() }
    #[verifier::external_body] pub fn any(&mut self) -> (r: Result<(), Msg>) ensures r is Ok, final(self).log() == old(self).log().push(Tok::Any), final(self).at() == old(self).at() { unimplemented!() }
    #[verifier::external_body] pub fn nl(&mut self) -> (r: Result<(), Msg>) ensures r is Ok, final(self).log() == old(self).log().push(Tok::Nl), final(self).at() == old(self).at() { unimplemented!() }
}
pub uninterp spec fn exists_at(p: PathBuf) -> bool;
/// OpenOptions::new().write(true).create_new(true).open(..): fails exactly if there is such a file
#[verifier::external_body] pub fn create_new(p: &PathBuf) -> (r: Result<File, Msg>) ensures r is Ok == !exists_at(*p), r is Ok ==> file_at(r->Ok_0) == *p { unimplemented!() }
pub struct BufWriter;
impl BufWriter { #[verifier::external_body] pub fn new(f: File) -> (r: Out) ensures r.log().len() == 0, r.at() == file_at(f) { unimplemented!() } }
#[verifier::external_body] pub fn own(s: &Str) -> (r: Str) ensures code(r) == code(*s) { unimplemented!() }
// iterating over an accessor visits all indices in order (assumed)
#[verifier::external_body] pub fn edge_indices<'a>(a: &EdgeAccessor<'a>) -> (r: Vec<EdgeIdx>) ensures r@.len() == a.edge_dsts@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i { unimplemented!() }
impl<'a> NodeAccessor<'a> { #[verifier::external_body] pub fn indices(&self) -> (r: Vec<NodeIdx>) ensures r@.len() == self.node_ids@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i { unimplemented!() } }
