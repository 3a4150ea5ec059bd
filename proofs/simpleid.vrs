@@item src/configs/mod.rs :: SimpleId [map=String>Str]
pub open spec fn idc(x: SimpleId) -> int { code(x.0) }
impl SimpleId { pub fn as_ref(&self) -> (r: &Str) ensures r == &self.0 { &self.0 } }
impl PartialEqSpecImpl for SimpleId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &SimpleId) -> bool { idc(*self) == idc(*o) } }
impl PartialEq for SimpleId { fn eq(&self, o: &SimpleId) -> (r: bool) { self.0 == o.0 } }   // derived in the source
impl Clone for SimpleId { #[verifier::external_body] fn clone(&self) -> (r: SimpleId) ensures idc(r) == idc(*self) { SimpleId(Str { s: self.0.s.clone() }) } }
/// k is the (first) position of an id
pub open spec fn at_id(ids: Seq<SimpleId>, c: int, k: int) -> bool { 0 <= k < ids.len() && idc(ids[k]) == c && forall|i: int| 0 <= i < k ==> idc(#[trigger] ids[i]) != c }
pub open spec fn has_id(ids: Seq<SimpleId>, c: int) -> bool { exists|i: int| 0 <= i < ids.len() && idc(#[trigger] ids[i]) == c }
