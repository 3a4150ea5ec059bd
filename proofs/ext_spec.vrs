pub struct OsStr { pub id: u64 }
pub uninterp spec fn ext_of(p: PathBuf) -> Option<OsStr>;
pub uninterp spec fn utf8(o: OsStr) -> Option<int>;
/// the extension of a file, in lower case
pub open spec fn raw_ext(p: PathBuf) -> Option<int> { match ext_of(p) { Some(o) => utf8(o), None => None } }
pub open spec fn ext(p: PathBuf) -> Option<int> { match raw_ext(p) { Some(c) => Some(lowered(c)), None => None } }
