// ---------------------------------------------------------------- strings: opaque, identified by a number that is injective on strings
#[verifier::external_body]
pub struct Str { s: String }
pub uninterp spec fn code(s: Str) -> int;
pub uninterp spec fn trimmed(c: int) -> int;
pub uninterp spec fn lowered(c: int) -> int;
#[derive(Debug)]
pub struct PErr;
pub uninterp spec fn p_u16(c: int) -> Option<u16>;
impl Str {
    #[verifier::external_body] pub fn trim(&self) -> (r: &Str) ensures code(*r) == trimmed(code(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn to_ascii_lowercase(&self) -> (r: Str) ensures code(r) == lowered(code(*self)) { unimplemented!() }
    pub fn as_ref(&self) -> (r: &Str) ensures r == self { self }
    pub fn as_str(&self) -> (r: &Str) ensures r == self { self }
    #[verifier::external_body] pub fn parse_u16(&self) -> (r: Result<u16, PErr>) ensures r is Ok == p_u16(code(*self)) is Some, r is Ok ==> r->Ok_0 == p_u16(code(*self))->0 { unimplemented!() }
}
#[verifier::external_body] pub fn str_is(s: &Str, c: u64) -> (r: bool) ensures r == (code(*s) == c) { unimplemented!() }
pub uninterp spec fn p_f64(c: int) -> Option<F64>;
pub uninterp spec fn p_usize(c: int) -> Option<usize>;
pub uninterp spec fn p_i64(c: int) -> Option<i64>;
impl Str {
    #[verifier::external_body] pub fn parse_f64(&self) -> (r: Result<F64, PErr>) ensures r is Ok == p_f64(code(*self)) is Some, r is Ok ==> r->Ok_0 == p_f64(code(*self))->0 { unimplemented!() }
    #[verifier::external_body] pub fn parse_usize(&self) -> (r: Result<usize, PErr>) ensures r is Ok == p_usize(code(*self)) is Some, r is Ok ==> r->Ok_0 == p_usize(code(*self))->0 { unimplemented!() }
    #[verifier::external_body] pub fn parse_i64(&self) -> (r: Result<i64, PErr>) ensures r is Ok == p_i64(code(*self)) is Some, r is Ok ==> r->Ok_0 == p_i64(code(*self))->0 { unimplemented!() }
}
impl PartialEqSpecImpl for Str { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Str) -> bool { code(*self) == code(*o) } }
impl PartialEq for Str { #[verifier::external_body] fn eq(&self, o: &Str) -> (r: bool) { self.s == o.s } }
impl<'a> PartialEqSpecImpl<&'a Str> for Str { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a Str) -> bool { code(*self) == code(**o) } }
impl<'a> PartialEq<&'a Str> for Str { #[verifier::external_body] fn eq(&self, o: &&'a Str) -> (r: bool) { self.s == o.s } }
