pub open spec fn is_meta(c: EdgeCategory, i: EdgeMetaInfo) -> bool { c is Meta && c->Meta_info == i }
pub open spec fn is_nmeta(c: NodeCategory, i: NodeMetaInfo) -> bool { c is Meta && c->Meta_info == i }
pub open spec fn is_nmetric(c: NodeCategory, i: NodeUnitInfo) -> bool { c is Metric && c->Metric_unit == i }
// ---------------------------------------------------------------- the configuration
pub open spec fn is_sc(c: EdgeCategory) -> bool { is_meta(c, EdgeMetaInfo::ShortcutIdx0) || is_meta(c, EdgeMetaInfo::ShortcutIdx1) }
pub open spec fn scs(c: Seq<EdgeCategory>, n: int) -> nat decreases n { if n <= 0 { 0 } else { scs(c, n - 1) + (if is_sc(c[n - 1]) { 1nat } else { 0 }) } }
pub open spec fn news(c: Seq<GenCategory>, n: int) -> nat decreases n { if n <= 0 { 0 } else { news(c, n - 1) + (if c[n - 1] is Calc || c[n - 1] is Copy || c[n - 1] is Haversine || c[n - 1] is Custom { 1nat } else { 0 }) } }
pub open spec fn gcats(c: ParsingConfig) -> Seq<GenCategory> { match c.generating { Some(g) => g.edges.categories@, None => Seq::<GenCategory>::empty() } }
/// the number of metrics of an edge in the graph
pub open spec fn gdim(c: ParsingConfig) -> nat { c.edges.metrics.units@.len() + news(gcats(c), gcats(c).len() as int) }
pub open spec fn cfg_ok(c: ParsingConfig) -> bool {
    &&& exists|i: int| 0 <= i < c.nodes.categories@.len() && is_nmeta(#[trigger] c.nodes.categories@[i], NodeMetaInfo::NodeId)
    &&& exists|i: int| 0 <= i < c.nodes.categories@.len() && is_nmetric(#[trigger] c.nodes.categories@[i], NodeUnitInfo::Latitude)
    &&& exists|i: int| 0 <= i < c.nodes.categories@.len() && is_nmetric(#[trigger] c.nodes.categories@[i], NodeUnitInfo::Longitude)
    &&& gdim(c) <= SMALL_VEC_INLINE_SIZE
    &&& scs(c.edges.categories@, c.edges.categories@.len() as int) == 0 || scs(c.edges.categories@, c.edges.categories@.len() as int) == 2
}
fn sum_zero() -> (r: usize) ensures r == 0 { 0 }
proof fn lem_news(c: Seq<GenCategory>, a: int, n: int) requires 0 <= a <= n ensures news(c, a) <= news(c, n) decreases n { if n > a { lem_news(c, a, n - 1); } }
@@fn src/io/parsing/network/graph/mod.rs :: check_config [derefeq; map=parsing::Config>ParsingConfig,parsing::nodes::Category>NodeCategory,parsing::nodes::MetaInfo>NodeMetaInfo,parsing::nodes::metrics::UnitInfo>NodeUnitInfo,generating::edges::Category>GenCategory,parsing::edges::Category>EdgeCategory,parsing::edges::MetaInfo>EdgeMetaInfo]
%spec
    requires gdim(*cfg) <= usize::MAX,
    ensures r is Ok == cfg_ok(*cfg),
%loop 0
    invariant i_0 <= cfg.nodes.categories@.len(), r_0 ==> exists|i: int| 0 <= i < cfg.nodes.categories@.len() && is_nmeta(#[trigger] cfg.nodes.categories@[i], NodeMetaInfo::NodeId),
        !r_0 ==> forall|i: int| 0 <= i < i_0 ==> !is_nmeta(#[trigger] cfg.nodes.categories@[i], NodeMetaInfo::NodeId),
    ensures !r_0 ==> i_0 >= cfg.nodes.categories@.len(),
    decreases cfg.nodes.categories@.len() - i_0,
%loop 1
    invariant i_1 <= cfg.nodes.categories@.len(), r_1 ==> exists|i: int| 0 <= i < cfg.nodes.categories@.len() && is_nmetric(#[trigger] cfg.nodes.categories@[i], NodeUnitInfo::Latitude),
        !r_1 ==> forall|i: int| 0 <= i < i_1 ==> !is_nmetric(#[trigger] cfg.nodes.categories@[i], NodeUnitInfo::Latitude),
    ensures !r_1 ==> i_1 >= cfg.nodes.categories@.len(),
    decreases cfg.nodes.categories@.len() - i_1,
%loop 2
    invariant i_2 <= cfg.nodes.categories@.len(), r_2 ==> exists|i: int| 0 <= i < cfg.nodes.categories@.len() && is_nmetric(#[trigger] cfg.nodes.categories@[i], NodeUnitInfo::Longitude),
        !r_2 ==> forall|i: int| 0 <= i < i_2 ==> !is_nmetric(#[trigger] cfg.nodes.categories@[i], NodeUnitInfo::Longitude),
    ensures !r_2 ==> i_2 >= cfg.nodes.categories@.len(),
    decreases cfg.nodes.categories@.len() - i_2,
%loop 3
    invariant gdim(*cfg) <= usize::MAX, cfg.generating == Some(*generating_cfg), i_3 <= gcats(*cfg).len(), gcats(*cfg) == generating_cfg.edges.categories@, r_3 == news(gcats(*cfg), i_3 as int), r_3 <= news(gcats(*cfg), gcats(*cfg).len() as int),
    decreases gcats(*cfg).len() - i_3,
%loop 3 start
    proof { lem_news(gcats(*cfg), i_3 as int, gcats(*cfg).len() as int); }
%loop 4
    invariant i_4 <= cfg.edges.categories@.len(), r_4 == scs(cfg.edges.categories@, i_4 as int), r_4 <= i_4,
    decreases cfg.edges.categories@.len() - i_4,
@@end
