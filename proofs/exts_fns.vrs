// ---------------------------------------------------------------- file extensions (assumed contracts of std: an extension is a function of the path)
@@include ext_spec.vrs
impl PathBuf { #[verifier::external_body] pub fn extension(&self) -> (r: Option<OsStr>) ensures r == ext_of(*self) { unimplemented!() } }
impl OsStr { #[verifier::external_body] pub fn to_str(&self) -> (r: Option<Str>) ensures r is Some == utf8(*self) is Some, r is Some ==> code(r->0) == utf8(*self)->0 { unimplemented!() } }
#[verifier::external_body] pub fn str_lit(c: u64) -> (r: Str) ensures code(r) == c { unimplemented!() }
@@fn src/io/mod.rs :: ext_from
%sig
fn ext_from(path: &PathBuf) -> Result<Str, Msg>
%spec
    ensures r is Ok == raw_ext(*path) is Some, r is Ok ==> code(r->Ok_0) == raw_ext(*path)->0,
@@end
proof fn lem_listed(l: Seq<Str>, c: int) requires l.len() <= 3
    ensures listed(l, c) == ((l.len() > 0 && code(l[0]) == c) || (l.len() > 1 && code(l[1]) == c) || (l.len() > 2 && code(l[2]) == c))
{
    if l.len() > 0 && code(l[0]) == c { assert(listed(l, c)); }
    if l.len() > 1 && code(l[1]) == c { assert(listed(l, c)); }
    if l.len() > 2 && code(l[2]) == c { assert(listed(l, c)); }
    if listed(l, c) { let i = choose|i: int| 0 <= i < l.len() && code(#[trigger] l[i]) == c; assert(i == 0 || i == 1 || i == 2); }
}
pub open spec fn listed(l: Seq<Str>, c: int) -> bool { exists|i: int| 0 <= i < l.len() && code(#[trigger] l[i]) == c }

@@item src/io/mod.rs :: MapFileExt
pub open spec fn kind(p: PathBuf) -> Option<MapFileExt> {
    if ext(p) is None { None } else if ext(p)->0 == STR("fmi") { Some(MapFileExt::FMI) } else if ext(p)->0 == STR("pbf") { Some(MapFileExt::PBF) } else { None } }
// the readers and writers behind the dispatch: verified in the units fmi, pbf, write, routes, rall
pub struct Graph { x: u8 }
pub struct GraphBuilder { x: u8 }
pub struct ParsingConfig { pub map_file: PathBuf }
pub struct WritingConfig { pub map_file: PathBuf }
pub struct FmiParser; pub struct PbfParser; pub struct FmiWriter;
pub uninterp spec fn fmi_parsed(c: ParsingConfig) -> Result<GraphBuilder, Msg>;
pub uninterp spec fn pbf_parsed(c: ParsingConfig) -> Result<GraphBuilder, Msg>;
pub uninterp spec fn fmi_built(c: ParsingConfig) -> Result<Graph, Msg>;
pub uninterp spec fn pbf_built(c: ParsingConfig) -> Result<Graph, Msg>;
pub uninterp spec fn fmi_written(g: Graph, c: WritingConfig) -> Result<(), Msg>;
impl FmiParser {
    pub fn new() -> FmiParser { FmiParser }
    #[verifier::external_body] pub fn parse(&mut self, c: ParsingConfig) -> (r: Result<GraphBuilder, Msg>) ensures r == fmi_parsed(c) { unimplemented!() }
    #[verifier::external_body] pub fn parse_and_finalize(&mut self, c: ParsingConfig) -> (r: Result<Graph, Msg>) ensures r == fmi_built(c) { unimplemented!() }
}
impl PbfParser {
    pub fn new() -> PbfParser { PbfParser }
    #[verifier::external_body] pub fn parse(&mut self, c: ParsingConfig) -> (r: Result<GraphBuilder, Msg>) ensures r == pbf_parsed(c) { unimplemented!() }
    #[verifier::external_body] pub fn parse_and_finalize(&mut self, c: ParsingConfig) -> (r: Result<Graph, Msg>) ensures r == pbf_built(c) { unimplemented!() }
}
impl FmiWriter {
    pub fn new() -> FmiWriter { FmiWriter }
    #[verifier::external_body] pub fn write(&mut self, g: &Graph, c: &WritingConfig) -> (r: Result<(), Msg>) ensures r == fmi_written(*g, *c) { unimplemented!() }
}
pub struct RoutingConfig { pub route_pairs_file: Option<PathBuf> }
pub struct RoutePair { x: u8 }
pub struct RouteFileParser;
pub uninterp spec fn routes_parsed(c: RoutingConfig) -> Result<Vec<(RoutePair, usize)>, Msg>;
impl RouteFileParser {
    pub fn new() -> RouteFileParser { RouteFileParser }
    #[verifier::external_body] pub fn parse(&mut self, c: &RoutingConfig) -> (r: Result<Vec<(RoutePair, usize)>, Msg>) ensures r == routes_parsed(*c) { unimplemented!() }
}

// ---------------------------------------------------------------- src/io/parsing/network/graph/mod.rs
pub struct GraphParser;
pub open spec fn graphparser_takes(c: int) -> bool { c == STR("fmi") || c == STR("pbf") }
impl GraphParser {
@@fn src/io/parsing/network/graph/mod.rs :: Parser as SupportingFileExts::supported_exts [id=GraphParser::supported_exts]
%sig
fn supported_exts() -> Vec<Str>
%spec
    ensures forall|c: int| #[trigger] listed(r@, c) == graphparser_takes(c),
%end
    proof { assert forall|c: int| #[trigger] listed(out_@, c) == graphparser_takes(c) by { lem_listed(out_@, c); } }
@@end
@@fn src/io/mod.rs :: SupportingFileExts::find_supported_ext [id=GraphParser::find_supported_ext; map=Self>GraphParser]
%sig
fn find_supported_ext(path: &PathBuf) -> Result<Str, Msg>
%rw: Self::ext_from(path) => ext_from(path)
%rw: supported_ext == &extension.to_ascii_lowercase() => supported_ext == extension.to_ascii_lowercase()
%hint 0 v
%spec
    ensures r is Ok == (ext(*path) is Some && graphparser_takes(ext(*path)->0)), r is Ok ==> code(r->Ok_0) == ext(*path)->0,
%loop 0
        invariant ext(*path) == Some(lowered(code(extension))), forall|c: int| #[trigger] listed(supported_exts@, c) == graphparser_takes(c), forall|i: int| 0 <= i < i_0 ==> code(#[trigger] supported_exts@[i]) != lowered(code(extension)),
        decreases supported_exts@.len() - i_0,
%before: return Ok(supported_ext)
                    proof { assert(listed(supported_exts@, lowered(code(extension)))); }
%loop 0 after
                proof { assert(!listed(supported_exts@, lowered(code(extension)))); }
@@end
@@fn src/io/mod.rs :: SupportingFileExts::check_ext_support [id=GraphParser::check_ext_support]
%sig
fn check_ext_support(path: &PathBuf) -> Result<(), Msg>
%spec
    ensures r is Ok == (ext(*path) is Some && graphparser_takes(ext(*path)->0)),
@@end
@@fn src/io/mod.rs :: SupportingFileExts::is_file_supported [id=GraphParser::is_file_supported]
%sig
fn is_file_supported(path: &PathBuf) -> bool
%spec
    ensures r == (ext(*path) is Some && graphparser_takes(ext(*path)->0)),
@@end
@@fn src/io/mod.rs :: SupportingMapFileExts::from_path [id=GraphParser::from_path; map=Self>GraphParser]
%rw: Self::find_supported_ext(path)? => &GraphParser::find_supported_ext(path)?
%sig
fn from_path(path: &PathBuf) -> Result<MapFileExt, Msg>
%spec
    ensures r is Ok == kind(*path) is Some, r is Ok ==> r->Ok_0 == kind(*path)->0,
@@end
@@fn src/io/parsing/network/graph/mod.rs :: Parser::parse [id=GraphParser::parse; map=parsing::Config>ParsingConfig,Parser>GraphParser,pbf::Parser>PbfParser,fmi::Parser>FmiParser]
%spec
    ensures r == (match kind(cfg.map_file) { Some(MapFileExt::FMI) => fmi_parsed(cfg), Some(MapFileExt::PBF) => pbf_parsed(cfg), None => r }),
        kind(cfg.map_file) is None ==> r is Err,
@@end
@@fn src/io/parsing/network/graph/mod.rs :: Parser::parse_and_finalize [id=GraphParser::parse_and_finalize; map=parsing::Config>ParsingConfig,Parser>GraphParser,pbf::Parser>PbfParser,fmi::Parser>FmiParser]
%spec
    ensures r == (match kind(cfg.map_file) { Some(MapFileExt::FMI) => fmi_built(cfg), Some(MapFileExt::PBF) => pbf_built(cfg), None => r }),
        kind(cfg.map_file) is None ==> r is Err,
@@end
}

// ---------------------------------------------------------------- src/io/writing/network/graph/mod.rs
pub struct GraphWriter;
pub open spec fn graphwriter_takes(c: int) -> bool { c == STR("fmi") }
impl GraphWriter {
@@fn src/io/writing/network/graph/mod.rs :: Writer as SupportingFileExts::supported_exts [id=GraphWriter::supported_exts]
%sig
fn supported_exts() -> Vec<Str>
%spec
    ensures forall|c: int| #[trigger] listed(r@, c) == graphwriter_takes(c),
%end
    proof { assert forall|c: int| #[trigger] listed(out_@, c) == graphwriter_takes(c) by { lem_listed(out_@, c); } }
@@end
@@fn src/io/mod.rs :: SupportingFileExts::find_supported_ext [id=GraphWriter::find_supported_ext; map=Self>GraphWriter]
%sig
fn find_supported_ext(path: &PathBuf) -> Result<Str, Msg>
%rw: Self::ext_from(path) => ext_from(path)
%rw: supported_ext == &extension.to_ascii_lowercase() => supported_ext == extension.to_ascii_lowercase()
%hint 0 v
%spec
    ensures r is Ok == (ext(*path) is Some && graphwriter_takes(ext(*path)->0)), r is Ok ==> code(r->Ok_0) == ext(*path)->0,
%loop 0
        invariant ext(*path) == Some(lowered(code(extension))), forall|c: int| #[trigger] listed(supported_exts@, c) == graphwriter_takes(c), forall|i: int| 0 <= i < i_0 ==> code(#[trigger] supported_exts@[i]) != lowered(code(extension)),
        decreases supported_exts@.len() - i_0,
%before: return Ok(supported_ext)
                    proof { assert(listed(supported_exts@, lowered(code(extension)))); }
%loop 0 after
                proof { assert(!listed(supported_exts@, lowered(code(extension)))); }
@@end
@@fn src/io/mod.rs :: SupportingFileExts::check_ext_support [id=GraphWriter::check_ext_support]
%sig
fn check_ext_support(path: &PathBuf) -> Result<(), Msg>
%spec
    ensures r is Ok == (ext(*path) is Some && graphwriter_takes(ext(*path)->0)),
@@end
@@fn src/io/mod.rs :: SupportingFileExts::is_file_supported [id=GraphWriter::is_file_supported]
%sig
fn is_file_supported(path: &PathBuf) -> bool
%spec
    ensures r == (ext(*path) is Some && graphwriter_takes(ext(*path)->0)),
@@end
@@fn src/io/mod.rs :: SupportingMapFileExts::from_path [id=GraphWriter::from_path; map=Self>GraphWriter]
%rw: Self::find_supported_ext(path)? => &GraphWriter::find_supported_ext(path)?
%sig
fn from_path(path: &PathBuf) -> Result<MapFileExt, Msg>
%spec
    ensures r is Ok == (kind(*path) == Some(MapFileExt::FMI)), r is Ok ==> r->Ok_0 == kind(*path)->0,
@@end
@@fn src/io/writing/network/graph/mod.rs :: Writer::write [id=GraphWriter::write; map=Writer>GraphWriter,fmi::Writer>FmiWriter]
%spec
    ensures kind(writing_cfg.map_file) == Some(MapFileExt::FMI) ==> r is Ok == fmi_written(*graph, *writing_cfg) is Ok,
        kind(writing_cfg.map_file) != Some(MapFileExt::FMI) ==> r is Err,
@@end
}

// ---------------------------------------------------------------- src/io/parsing/network/edges.rs
pub struct EdgesParser;
pub open spec fn edgesparser_takes(c: int) -> bool { c == STR("csv") }
impl EdgesParser {
@@fn src/io/parsing/network/edges.rs :: Parser as SupportingFileExts::supported_exts [id=EdgesParser::supported_exts]
%sig
fn supported_exts() -> Vec<Str>
%spec
    ensures forall|c: int| #[trigger] listed(r@, c) == edgesparser_takes(c),
%end
    proof { assert forall|c: int| #[trigger] listed(out_@, c) == edgesparser_takes(c) by { lem_listed(out_@, c); } }
@@end
@@fn src/io/mod.rs :: SupportingFileExts::find_supported_ext [id=EdgesParser::find_supported_ext; map=Self>EdgesParser]
%sig
fn find_supported_ext(path: &PathBuf) -> Result<Str, Msg>
%rw: Self::ext_from(path) => ext_from(path)
%rw: supported_ext == &extension.to_ascii_lowercase() => supported_ext == extension.to_ascii_lowercase()
%hint 0 v
%spec
    ensures r is Ok == (ext(*path) is Some && edgesparser_takes(ext(*path)->0)), r is Ok ==> code(r->Ok_0) == ext(*path)->0,
%loop 0
        invariant ext(*path) == Some(lowered(code(extension))), forall|c: int| #[trigger] listed(supported_exts@, c) == edgesparser_takes(c), forall|i: int| 0 <= i < i_0 ==> code(#[trigger] supported_exts@[i]) != lowered(code(extension)),
        decreases supported_exts@.len() - i_0,
%before: return Ok(supported_ext)
                    proof { assert(listed(supported_exts@, lowered(code(extension)))); }
%loop 0 after
                proof { assert(!listed(supported_exts@, lowered(code(extension)))); }
@@end
@@fn src/io/mod.rs :: SupportingFileExts::check_ext_support [id=EdgesParser::check_ext_support]
%sig
fn check_ext_support(path: &PathBuf) -> Result<(), Msg>
%spec
    ensures r is Ok == (ext(*path) is Some && edgesparser_takes(ext(*path)->0)),
@@end
@@fn src/io/mod.rs :: SupportingFileExts::is_file_supported [id=EdgesParser::is_file_supported]
%sig
fn is_file_supported(path: &PathBuf) -> bool
%spec
    ensures r == (ext(*path) is Some && edgesparser_takes(ext(*path)->0)),
@@end
}

// ---------------------------------------------------------------- src/io/writing/network/edges.rs
pub struct EdgesWriter;
pub open spec fn edgeswriter_takes(c: int) -> bool { c == STR("csv") }
impl EdgesWriter {
@@fn src/io/writing/network/edges.rs :: Writer as SupportingFileExts::supported_exts [id=EdgesWriter::supported_exts]
%sig
fn supported_exts() -> Vec<Str>
%spec
    ensures forall|c: int| #[trigger] listed(r@, c) == edgeswriter_takes(c),
%end
    proof { assert forall|c: int| #[trigger] listed(out_@, c) == edgeswriter_takes(c) by { lem_listed(out_@, c); } }
@@end
@@fn src/io/mod.rs :: SupportingFileExts::find_supported_ext [id=EdgesWriter::find_supported_ext; map=Self>EdgesWriter]
%sig
fn find_supported_ext(path: &PathBuf) -> Result<Str, Msg>
%rw: Self::ext_from(path) => ext_from(path)
%rw: supported_ext == &extension.to_ascii_lowercase() => supported_ext == extension.to_ascii_lowercase()
%hint 0 v
%spec
    ensures r is Ok == (ext(*path) is Some && edgeswriter_takes(ext(*path)->0)), r is Ok ==> code(r->Ok_0) == ext(*path)->0,
%loop 0
        invariant ext(*path) == Some(lowered(code(extension))), forall|c: int| #[trigger] listed(supported_exts@, c) == edgeswriter_takes(c), forall|i: int| 0 <= i < i_0 ==> code(#[trigger] supported_exts@[i]) != lowered(code(extension)),
        decreases supported_exts@.len() - i_0,
%before: return Ok(supported_ext)
                    proof { assert(listed(supported_exts@, lowered(code(extension)))); }
%loop 0 after
                proof { assert(!listed(supported_exts@, lowered(code(extension)))); }
@@end
@@fn src/io/mod.rs :: SupportingFileExts::check_ext_support [id=EdgesWriter::check_ext_support]
%sig
fn check_ext_support(path: &PathBuf) -> Result<(), Msg>
%spec
    ensures r is Ok == (ext(*path) is Some && edgeswriter_takes(ext(*path)->0)),
@@end
@@fn src/io/mod.rs :: SupportingFileExts::is_file_supported [id=EdgesWriter::is_file_supported]
%sig
fn is_file_supported(path: &PathBuf) -> bool
%spec
    ensures r == (ext(*path) is Some && edgeswriter_takes(ext(*path)->0)),
@@end
}

// ---------------------------------------------------------------- src/io/parsing/routing/mod.rs
pub struct RoutesParser;
pub open spec fn routesparser_takes(c: int) -> bool { c == STR("route-pairs") }
impl RoutesParser {
@@fn src/io/parsing/routing/mod.rs :: Parser as SupportingFileExts::supported_exts [id=RoutesParser::supported_exts]
%sig
fn supported_exts() -> Vec<Str>
%spec
    ensures forall|c: int| #[trigger] listed(r@, c) == routesparser_takes(c),
%end
    proof { assert forall|c: int| #[trigger] listed(out_@, c) == routesparser_takes(c) by { lem_listed(out_@, c); } }
@@end
@@fn src/io/mod.rs :: SupportingFileExts::find_supported_ext [id=RoutesParser::find_supported_ext; map=Self>RoutesParser]
%sig
fn find_supported_ext(path: &PathBuf) -> Result<Str, Msg>
%rw: Self::ext_from(path) => ext_from(path)
%rw: supported_ext == &extension.to_ascii_lowercase() => supported_ext == extension.to_ascii_lowercase()
%hint 0 v
%spec
    ensures r is Ok == (ext(*path) is Some && routesparser_takes(ext(*path)->0)), r is Ok ==> code(r->Ok_0) == ext(*path)->0,
%loop 0
        invariant ext(*path) == Some(lowered(code(extension))), forall|c: int| #[trigger] listed(supported_exts@, c) == routesparser_takes(c), forall|i: int| 0 <= i < i_0 ==> code(#[trigger] supported_exts@[i]) != lowered(code(extension)),
        decreases supported_exts@.len() - i_0,
%before: return Ok(supported_ext)
                    proof { assert(listed(supported_exts@, lowered(code(extension)))); }
%loop 0 after
                proof { assert(!listed(supported_exts@, lowered(code(extension)))); }
@@end
@@fn src/io/mod.rs :: SupportingFileExts::check_ext_support [id=RoutesParser::check_ext_support]
%sig
fn check_ext_support(path: &PathBuf) -> Result<(), Msg>
%spec
    ensures r is Ok == (ext(*path) is Some && routesparser_takes(ext(*path)->0)),
@@end
@@fn src/io/mod.rs :: SupportingFileExts::is_file_supported [id=RoutesParser::is_file_supported]
%sig
fn is_file_supported(path: &PathBuf) -> bool
%spec
    ensures r == (ext(*path) is Some && routesparser_takes(ext(*path)->0)),
@@end
@@fn src/io/parsing/routing/mod.rs :: Parser::parse [id=RoutesParser::parse; map=configs::routing::Config>RoutingConfig,Parser>RoutesParser,routes::Parser>RouteFileParser]
%sig
fn parse(cfg: &RoutingConfig) -> Result<Vec<(RoutePair, usize)>, Msg>
%spec
    requires cfg.route_pairs_file is Some,      // documented: the caller has to name a file
    ensures ext(cfg.route_pairs_file->0) == Some(STR("route-pairs") as int) ==> r == routes_parsed(*cfg),
        ext(cfg.route_pairs_file->0) != Some(STR("route-pairs") as int) ==> r is Err,
@@end
}

// ---------------------------------------------------------------- src/io/writing/routing/mod.rs
pub struct RoutesWriter;
pub open spec fn routeswriter_takes(c: int) -> bool { c == STR("route-pairs") }
impl RoutesWriter {
@@fn src/io/writing/routing/mod.rs :: Writer as SupportingFileExts::supported_exts [id=RoutesWriter::supported_exts]
%sig
fn supported_exts() -> Vec<Str>
%spec
    ensures forall|c: int| #[trigger] listed(r@, c) == routeswriter_takes(c),
%end
    proof { assert forall|c: int| #[trigger] listed(out_@, c) == routeswriter_takes(c) by { lem_listed(out_@, c); } }
@@end
@@fn src/io/mod.rs :: SupportingFileExts::find_supported_ext [id=RoutesWriter::find_supported_ext; map=Self>RoutesWriter]
%sig
fn find_supported_ext(path: &PathBuf) -> Result<Str, Msg>
%rw: Self::ext_from(path) => ext_from(path)
%rw: supported_ext == &extension.to_ascii_lowercase() => supported_ext == extension.to_ascii_lowercase()
%hint 0 v
%spec
    ensures r is Ok == (ext(*path) is Some && routeswriter_takes(ext(*path)->0)), r is Ok ==> code(r->Ok_0) == ext(*path)->0,
%loop 0
        invariant ext(*path) == Some(lowered(code(extension))), forall|c: int| #[trigger] listed(supported_exts@, c) == routeswriter_takes(c), forall|i: int| 0 <= i < i_0 ==> code(#[trigger] supported_exts@[i]) != lowered(code(extension)),
        decreases supported_exts@.len() - i_0,
%before: return Ok(supported_ext)
                    proof { assert(listed(supported_exts@, lowered(code(extension)))); }
%loop 0 after
                proof { assert(!listed(supported_exts@, lowered(code(extension)))); }
@@end
@@fn src/io/mod.rs :: SupportingFileExts::check_ext_support [id=RoutesWriter::check_ext_support]
%sig
fn check_ext_support(path: &PathBuf) -> Result<(), Msg>
%spec
    ensures r is Ok == (ext(*path) is Some && routeswriter_takes(ext(*path)->0)),
@@end
@@fn src/io/mod.rs :: SupportingFileExts::is_file_supported [id=RoutesWriter::is_file_supported]
%sig
fn is_file_supported(path: &PathBuf) -> bool
%spec
    ensures r == (ext(*path) is Some && routeswriter_takes(ext(*path)->0)),
@@end
}
proof fn must_fail_exts(p: PathBuf) requires ext(p) is Some ensures kind(p) is Some {}
