pub struct PathBuf;
@@item src/network/graph/indexing.rs :: MetricIdx [derive=Copy, Clone, PartialEq, Eq, Structural]
impl std::ops::Deref for MetricIdx { type Target = usize;
@@fn src/network/graph/indexing.rs :: MetricIdx as Deref::deref [nopub; id=MetricIdx::deref]
%spec
    ensures *r == self.0,
@@end
}
@@item src/configs/parsing/edges/metrics.rs :: UnitInfo [derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/edges/metrics.rs :: Config [as=EdgeMetricsConfig]
@@item src/configs/parsing/edges/mod.rs :: Config [as=EdgesConfig; drop=categories; map=metrics::Config>EdgeMetricsConfig]
@@item src/configs/parsing/mod.rs :: Config [as=ParsingConfig; drop=map_file,vehicles,nodes,generating; map=edges::Config>EdgesConfig]
impl EdgeMetricsConfig {
@@fn src/configs/parsing/edges/metrics.rs :: Config::try_idx_of
%sig
    fn try_idx_of(&self, id: &SimpleId) -> err::Result<MetricIdx>
%spec
    ensures r is Ok ==> at_id(self.ids@, idc(*id), r->Ok_0.0 as int),
        r is Err ==> !has_id(self.ids@, idc(*id)),
%loop 0
        invariant_except_break r_0 is None, forall|i: int| 0 <= i < i_0 ==> idc(#[trigger] self.ids@[i]) != idc(*id),
        invariant i_0 <= self.ids@.len(),
        ensures r_0 is Some ==> at_id(self.ids@, idc(*id), r_0->0 as int), r_0 is None ==> !has_id(self.ids@, idc(*id)),
        decreases self.ids@.len() - i_0,
@@end
@@fn src/configs/parsing/edges/metrics.rs :: Config::idx_of
%sig
    fn idx_of(&self, id: &SimpleId) -> MetricIdx
%rw: self.try_idx_of(&id) => self.try_idx_of(id)
%spec
    requires has_id(self.ids@, idc(*id)),
    ensures at_id(self.ids@, idc(*id), r.0 as int),
@@end
}
// ---------------------------------------------------------------- src/configs/routing.rs
@@item src/defaults.rs :: ALPHA [mod=routing; fconst]
@@item src/defaults.rs :: TOLERATED_SCALE_INF [mod=routing; fconst]
@@item src/defaults.rs :: TOLERATED_SCALE [mod=routing; fconst]
@@item src/configs/routing.rs :: RoutingAlgo [derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/routing.rs :: ProtoRoutingAlgo
@@item src/configs/routing.rs :: RawRoutingAlgo
@@item src/configs/routing.rs :: Config
@@item src/configs/routing.rs :: ProtoConfig
@@item src/configs/routing.rs :: ProtoEntry
@@item src/configs/routing.rs :: RawEntry [map=String>Str]
@@item src/configs/routing.rs :: RawConfig
@@item src/configs/routing.rs :: RawContent
impl vstd::std_specs::convert::FromSpecImpl<ProtoRoutingAlgo> for RoutingAlgo { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: ProtoRoutingAlgo) -> RoutingAlgo; }
impl From<ProtoRoutingAlgo> for RoutingAlgo {
@@fn src/configs/routing.rs :: RoutingAlgo as From<ProtoRoutingAlgo>::from [nopub; id=RoutingAlgo::from]
%spec
    ensures r is CHDijkstra == proto_routing_algo is CHDijkstra,
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<RawRoutingAlgo> for ProtoRoutingAlgo { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: RawRoutingAlgo) -> ProtoRoutingAlgo; }
impl From<RawRoutingAlgo> for ProtoRoutingAlgo {
@@fn src/configs/routing.rs :: ProtoRoutingAlgo as From<RawRoutingAlgo>::from [nopub; id=ProtoRoutingAlgo::from]
%spec
    ensures r is CHDijkstra == raw_routing_algo is CHDijkstra,
@@end
}
/// value of the last of the first n entries naming metric k, else the default
pub open spec fn alpha_of(es: Seq<ProtoEntry>, ids: Seq<SimpleId>, k: int, n: int) -> Ext decreases n {
    if n <= 0 { Ext::Fin(0real) } else if at_id(ids, idc(es[n - 1].id), k) { es[n - 1].alpha@ } else { alpha_of(es, ids, k, n - 1) } }
pub open spec fn scale_of(es: Seq<ProtoEntry>, ids: Seq<SimpleId>, k: int, n: int) -> Ext decreases n {
    if n <= 0 { Ext::PInf } else if at_id(ids, idc(es[n - 1].id), k) { es[n - 1].tolerated_scale@ } else { scale_of(es, ids, k, n - 1) } }
/// a raw entry's scale: None is an unreadable one
pub open spec fn raw_scale(s: Option<Str>) -> Option<Ext> { match s {
    None => Some(Ext::PInf),
    Some(t) => { let l = lowered(code(t)); if l == STR("inf") || l == STR("infinity") { Some(Ext::PInf) } else if p_f64(l) is Some { Some(p_f64(l)->0@) } else { None } } } }
pub open spec fn entry_ok(e: RawEntry, p: ProtoEntry) -> bool {
    p.id == e.id && p.alpha@ == (match e.alpha { Some(a) => a@, None => Ext::Fin(1real) }) && raw_scale(e.tolerated_scale) == Some(p.tolerated_scale@) }
impl ProtoEntry {
@@fn src/configs/routing.rs :: ProtoEntry as TryFrom<RawEntry>::try_from [id=ProtoEntry::try_from]
%sig
    fn try_from(raw_entry: RawEntry) -> Result<ProtoEntry, Msg>
%rw: defaults::routing::TOLERATED_SCALE_INF => TOLERATED_SCALE_INF()
%rw: defaults::routing::TOLERATED_SCALE => TOLERATED_SCALE()
%rw: defaults::routing::ALPHA => ALPHA()
%spec
    ensures r is Ok == raw_scale(raw_entry.tolerated_scale) is Some,
        r is Ok ==> entry_ok(raw_entry, r->Ok_0),
@@end
}
impl ProtoConfig {
@@fn src/configs/routing.rs :: ProtoConfig as TryFrom<RawConfig>::try_from [id=ProtoConfig::try_from]
%sig
    fn try_from(raw_cfg: RawConfig) -> Result<ProtoConfig, Msg>
%spec
    ensures r is Ok == (forall|i: int| 0 <= i < raw_cfg.routing.metrics@.len() ==> raw_scale((#[trigger] raw_cfg.routing.metrics@[i]).tolerated_scale) is Some),
        r is Ok ==> r->Ok_0.metrics@.len() == raw_cfg.routing.metrics@.len() && forall|i: int| 0 <= i < r->Ok_0.metrics@.len() ==> entry_ok(raw_cfg.routing.metrics@[i], #[trigger] r->Ok_0.metrics@[i]),
        r is Ok ==> r->Ok_0.routing_algo is CHDijkstra == raw_cfg.routing.routing_algo is CHDijkstra,
%hint 0 v
%attr
#[verifier::loop_isolation(false)]
%start
    let ghost m0 = raw_cfg.routing.metrics@; let ghost a0 = raw_cfg.routing.routing_algo;
%loop 0
        invariant i_0 <= raw_cfg.metrics@.len(), raw_cfg.metrics@ == m0, raw_cfg.routing_algo == a0, metrics@.len() == i_0,
            forall|i: int| 0 <= i < i_0 ==> entry_ok(m0[i], #[trigger] metrics@[i]),
            forall|i: int| 0 <= i < i_0 ==> raw_scale((#[trigger] m0[i]).tolerated_scale) is Some,
        decreases m0.len() - i_0,
%loop 0 start
            assert(raw_entry == m0[x_0 as int]);
@@end
}
impl Config {
@@fn src/configs/routing.rs :: Config::try_from_proto [map=configs::parsing::Config>ParsingConfig]
%hint 0 r
%rw: defaults::routing::TOLERATED_SCALE_INF => TOLERATED_SCALE_INF()
%spec
    requires parsing_cfg.edges.metrics.units@.len() == parsing_cfg.edges.metrics.ids@.len(),
    ensures
        r is Ok == (forall|i: int| 0 <= i < proto_cfg.metrics@.len() ==> has_id(parsing_cfg.edges.metrics.ids@, idc((#[trigger] proto_cfg.metrics@[i]).id))),
        r is Ok ==> r->Ok_0.alphas@.len() == parsing_cfg.edges.metrics.units@.len() && r->Ok_0.tolerated_scales@.len() == parsing_cfg.edges.metrics.units@.len(),
        r is Ok ==> forall|k: int| 0 <= k < r->Ok_0.alphas@.len() ==> (#[trigger] r->Ok_0.alphas@[k])@ == alpha_of(proto_cfg.metrics@, parsing_cfg.edges.metrics.ids@, k, proto_cfg.metrics@.len() as int),
        r is Ok ==> forall|k: int| 0 <= k < r->Ok_0.alphas@.len() ==> (#[trigger] r->Ok_0.tolerated_scales@[k])@ == scale_of(proto_cfg.metrics@, parsing_cfg.edges.metrics.ids@, k, proto_cfg.metrics@.len() as int),
        r is Ok ==> r->Ok_0.routing_algo is CHDijkstra == proto_cfg.routing_algo is CHDijkstra,
%loop 0
        invariant i_0 <= proto_cfg.metrics@.len(), alphas@.len() == dim, tolerated_scales@.len() == dim,
            dim == parsing_cfg.edges.metrics.ids@.len(),
            forall|k: int| 0 <= k < dim ==> (#[trigger] alphas@[k])@ == alpha_of(proto_cfg.metrics@, parsing_cfg.edges.metrics.ids@, k, i_0 as int),
            forall|k: int| 0 <= k < dim ==> (#[trigger] tolerated_scales@[k])@ == scale_of(proto_cfg.metrics@, parsing_cfg.edges.metrics.ids@, k, i_0 as int),
            forall|i: int| 0 <= i < i_0 ==> has_id(parsing_cfg.edges.metrics.ids@, idc((#[trigger] proto_cfg.metrics@[i]).id)),
        decreases proto_cfg.metrics@.len() - i_0,
@@end
}
// the property over these contracts: listed exactly once -> its values; not listed -> zero and unlimited
proof fn c16_listed(es: Seq<ProtoEntry>, ids: Seq<SimpleId>, k: int, j: int, n: int)
    requires 0 <= j < n <= es.len(), at_id(ids, idc(es[j].id), k), forall|i: int| j < i < n ==> !at_id(ids, idc(es[i].id), k),
    ensures alpha_of(es, ids, k, n) == es[j].alpha@, scale_of(es, ids, k, n) == es[j].tolerated_scale@
    decreases n
{ if n - 1 > j { c16_listed(es, ids, k, j, n - 1); } }
proof fn c16_unlisted(es: Seq<ProtoEntry>, ids: Seq<SimpleId>, k: int, n: int)
    requires 0 <= n <= es.len(), forall|i: int| 0 <= i < n ==> !at_id(ids, idc(#[trigger] es[i].id), k),
    ensures alpha_of(es, ids, k, n) == Ext::Fin(0real), scale_of(es, ids, k, n) == Ext::PInf
    decreases n
{ if n > 0 { c16_unlisted(es, ids, k, n - 1); } }
proof fn must_fail_rcfg(es: Seq<ProtoEntry>, ids: Seq<SimpleId>, k: int) ensures alpha_of(es, ids, k, es.len() as int) == Ext::Fin(0real) {}
