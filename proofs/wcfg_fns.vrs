// ---------------------------------------------------------------- src/configs/writing: from the document to the configuration
@@item src/configs/mod.rs :: SimpleId [map=String>Str]
pub open spec fn idc(x: SimpleId) -> int { code(x.0) }
@@item src/defaults.rs :: IS_USING_SHORTCUTS [mod=parsing]
@@item src/defaults.rs :: WILL_DENORMALIZE_METRICS_BY_MEAN [mod=writing]
@@item src/defaults.rs :: IS_WRITING_WITH_HEADER [mod=writing]
@@item src/defaults.rs :: SEED
// nodes
@@item src/configs/writing/network/graph/nodes.rs :: RawCategory [as=RawWNode]
@@item src/configs/writing/network/graph/nodes.rs :: RawConfig [as=RawWNodes; map=RawCategory>RawWNode]
@@item src/configs/writing/network/graph/nodes.rs :: ProtoConfig [as=ProtoWNodes]
@@item src/configs/writing/network/graph/nodes.rs :: Config [as=WNodes]
// edges
@@item src/configs/writing/network/edges.rs :: RawCategory [as=RawWEdge]
@@item src/configs/writing/network/edges.rs :: RawContent [as=RawWEdgesContent; map=RawCategory>RawWEdge]
@@item src/configs/writing/network/edges.rs :: RawConfig [as=RawWEdges; map=RawContent>RawWEdgesContent]
@@item src/configs/writing/network/edges.rs :: WrappedRawConfig [as=WrappedRawWEdges; map=RawConfig>RawWEdges]
@@item src/configs/writing/network/edges.rs :: ProtoConfig [as=ProtoWEdges]
@@item src/configs/writing/network/edges.rs :: WrappedProtoConfig [as=WrappedProtoWEdges; map=ProtoConfig>ProtoWEdges]
@@item src/configs/writing/network/edges.rs :: Config [as=WEdges]
// the whole graph
@@item src/configs/writing/network/graph/mod.rs :: Config [mod=raw_edges; as=RawGraphEdges; map=RawCategory>RawWEdge]
@@item src/configs/writing/network/graph/mod.rs :: RawContent [as=RawGraphContent; map=nodes::RawConfig>RawWNodes,raw_edges::Config>RawGraphEdges]
@@item src/configs/writing/network/graph/mod.rs :: RawConfig [as=RawWGraph; map=RawContent>RawGraphContent]
@@item src/configs/writing/network/graph/mod.rs :: WrappedRawConfig [as=WrappedRawWGraph; map=RawConfig>RawWGraph]
@@item src/configs/writing/network/graph/mod.rs :: WrappedProtoConfig [as=WrappedProtoWGraph; map=nodes::ProtoConfig>ProtoWNodes,edges::ProtoConfig>ProtoWEdges]
@@item src/configs/writing/network/graph/mod.rs :: Config [as=WGraph; map=nodes::Config>WNodes,edges::Config>WEdges]
// routes
@@item src/configs/writing/routing.rs :: RawCategory [as=RawWRoutesCategory]
@@item src/configs/writing/routing.rs :: ProtoCategory [as=ProtoWRoutesCategory]
@@item src/configs/writing/routing.rs :: Category [as=WRoutesCategory]
@@item src/configs/writing/routing.rs :: RawContent [as=RawWRoutesContent; map=RawCategory>RawWRoutesCategory]
@@item src/configs/writing/routing.rs :: RawConfig [as=RawWRoutes; map=RawContent>RawWRoutesContent]
@@item src/configs/writing/routing.rs :: WrappedRawConfig [as=WrappedRawWRoutes; map=RawConfig>RawWRoutes]
@@item src/configs/writing/routing.rs :: WrappedProtoConfig [as=ProtoWRoutes; map=ProtoCategory>ProtoWRoutesCategory]
@@item src/configs/writing/routing.rs :: Config [as=WRoutes; map=Category>WRoutesCategory]

pub open spec fn column(c: RawWEdge) -> Option<SimpleId> { match c { RawWEdge::Id(id) => Some(id), RawWEdge::Ignored => None } }
pub open spec fn ncolumn(c: RawWNode) -> Option<SimpleId> { match c { RawWNode::Id(id) => Some(id), RawWNode::Ignored => None } }
/// an option is what the document says, and no if it says nothing
pub open spec fn yes(o: Option<bool>) -> bool { o == Some(true) }
impl ProtoWNodes {
@@fn src/configs/writing/network/graph/nodes.rs :: ProtoConfig as From<RawConfig>::from [id=ProtoWNodes::from; map=ProtoConfig>ProtoWNodes,RawConfig>RawWNodes,RawCategory>RawWNode]
%hint 0 v
%spec
    ensures r.ids@ =~= raw_cfg.0@.map_values(|c| ncolumn(c)),
%loop 0
    invariant i_0 <= raw_cfg.0.len(), r_0@.len() == i_0, forall|i: int| 0 <= i < i_0 ==> #[trigger] r_0@[i] == ncolumn(raw_cfg.0@[i]),
    decreases raw_cfg.0.len() - i_0,
@@end
}
impl WNodes {
@@fn src/configs/writing/network/graph/nodes.rs :: Config as From<ProtoConfig>::from [id=WNodes::from; map=Config>WNodes,ProtoConfig>ProtoWNodes]
%spec
    ensures r.ids == proto_cfg.ids,
@@end
}
impl ProtoWEdges {
@@fn src/configs/writing/network/edges.rs :: ProtoConfig as From<RawConfig>::from [id=ProtoWEdges::from; map=ProtoConfig>ProtoWEdges,RawConfig>RawWEdges,RawCategory>RawWEdge]
%hint 0 v
%spec
    ensures r.file == raw_cfg.edges_info.file, r.is_writing_shortcuts == raw_cfg.edges_info.is_writing_shortcuts, r.is_denormalizing == raw_cfg.edges_info.is_denormalizing, r.ids@ =~= raw_cfg.edges_info.ids@.map_values(|c| column(c)),
%loop 0
    invariant i_0 <= raw_cfg.ids.len(), r_0@.len() == i_0, forall|i: int| 0 <= i < i_0 ==> #[trigger] r_0@[i] == column(raw_cfg.ids@[i]),
    decreases raw_cfg.ids.len() - i_0,
@@end
}
impl WrappedProtoWEdges {
@@fn src/configs/writing/network/edges.rs :: WrappedProtoConfig as From<WrappedRawConfig>::from [id=WrappedProtoWEdges::from; map=WrappedProtoConfig>WrappedProtoWEdges,WrappedRawConfig>WrappedRawWEdges,ProtoConfig>ProtoWEdges]
%spec
    ensures says_pedges(raw_cfg.writing.edges_info, r.writing),
@@end
}
pub open spec fn says_pedges(d: RawWEdgesContent, r: ProtoWEdges) -> bool { r.file == d.file && r.is_writing_shortcuts == d.is_writing_shortcuts && r.is_denormalizing == d.is_denormalizing && r.ids@ =~= d.ids@.map_values(|c| column(c)) }
pub open spec fn says_edges(p: ProtoWEdges, r: WEdges) -> bool { r.file == p.file && r.is_writing_shortcuts == yes(p.is_writing_shortcuts) && r.is_denormalizing == yes(p.is_denormalizing) && r.is_writing_header && r.ids@ == p.ids@ }
impl vstd::std_specs::convert::FromSpecImpl<ProtoWEdges> for WEdges { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: ProtoWEdges) -> WEdges; }
impl From<ProtoWEdges> for WEdges {
@@fn src/configs/writing/network/edges.rs :: Config as From<ProtoConfig>::from [nopub; id=WEdges::from_proto; map=Config>WEdges,ProtoConfig>ProtoWEdges,defaults::parsing::IS_USING_SHORTCUTS>IS_USING_SHORTCUTS,defaults::writing::IS_WRITING_WITH_HEADER>IS_WRITING_WITH_HEADER,defaults::writing::WILL_DENORMALIZE_METRICS_BY_MEAN>WILL_DENORMALIZE_METRICS_BY_MEAN]
%spec
    ensures says_edges(proto_cfg, r),
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<WrappedProtoWEdges> for WEdges { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: WrappedProtoWEdges) -> WEdges; }
impl From<WrappedProtoWEdges> for WEdges {
@@fn src/configs/writing/network/edges.rs :: Config as From<WrappedProtoConfig>::from [nopub; id=WEdges::from_wrapped; map=WrappedProtoConfig>WrappedProtoWEdges,Config>WEdges]
%spec
    ensures says_edges(proto_cfg.writing, r),
@@end
}
pub open spec fn says_graph(d: RawGraphContent, r: WGraph) -> bool {
    r.map_file == d.map_file && r.nodes.ids@ =~= d.nodes.0@.map_values(|c| ncolumn(c))
    && r.edges.file == d.map_file && r.edges.is_writing_shortcuts == yes(d.edges.is_writing_shortcuts) && r.edges.is_denormalizing == yes(d.edges.is_denormalizing) && !r.edges.is_writing_header
    && r.edges.ids@ =~= d.edges.ids@.map_values(|c| column(c)) }
pub open spec fn says_pgraph(d: RawGraphContent, r: WrappedProtoWGraph) -> bool {
    r.map_file == d.map_file && r.nodes.ids@ =~= d.nodes.0@.map_values(|c| ncolumn(c))
    && r.edges.is_writing_shortcuts == d.edges.is_writing_shortcuts && r.edges.is_denormalizing == d.edges.is_denormalizing && r.edges.ids@ =~= d.edges.ids@.map_values(|c| column(c)) }
impl WrappedProtoWGraph {
@@fn src/configs/writing/network/graph/mod.rs :: WrappedProtoConfig as From<WrappedRawConfig>::from [id=WrappedProtoWGraph::from; map=WrappedProtoConfig>WrappedProtoWGraph,WrappedRawConfig>WrappedRawWGraph,nodes::ProtoConfig>ProtoWNodes,edges::ProtoConfig>ProtoWEdges,edges::RawConfig>RawWEdges,edges::RawContent>RawWEdgesContent]
%spec
    ensures says_pgraph(raw_cfg.writing.graph, r),
@@end
}
impl WGraph {
@@fn src/configs/writing/network/graph/mod.rs :: Config as From<WrappedProtoConfig>::from [id=WGraph::from; map=WrappedProtoConfig>WrappedProtoWGraph,Config>WGraph,nodes::Config>WNodes,edges::Config>WEdges,defaults::parsing::IS_USING_SHORTCUTS>IS_USING_SHORTCUTS,defaults::writing::WILL_DENORMALIZE_METRICS_BY_MEAN>WILL_DENORMALIZE_METRICS_BY_MEAN]
%spec
    ensures forall|d: RawGraphContent| #[trigger] says_pgraph(d, proto_cfg) ==> says_graph(d, r),
@@end
}
// ---------------------------------------------------------------- routes
pub open spec fn cat_says(d: RawWRoutesCategory, c: WRoutesCategory) -> bool { match (d, c) { (RawWRoutesCategory::RandomOrAll { seed, max_count }, WRoutesCategory::RandomOrAll { seed: s2, max_count: m2 }) => max_count == m2 && (match seed { Some(s) => s2 == s, None => true }) } }
pub open spec fn pcat_says(d: RawWRoutesCategory, c: ProtoWRoutesCategory) -> bool { match (d, c) { (RawWRoutesCategory::RandomOrAll { seed, max_count }, ProtoWRoutesCategory::RandomOrAll { seed: s2, max_count: m2 }) => max_count == m2 && (match seed { Some(s) => s2 == s, None => true }) } }
impl ProtoWRoutesCategory {
@@fn src/configs/writing/routing.rs :: ProtoCategory as From<RawCategory>::from [id=ProtoWRoutesCategory::from; map=ProtoCategory>ProtoWRoutesCategory,RawCategory>RawWRoutesCategory,defaults::SEED>SEED]
%spec
    ensures pcat_says(raw_category, r),
@@end
}
impl WRoutesCategory {
@@fn src/configs/writing/routing.rs :: Category as From<ProtoCategory>::from [id=WRoutesCategory::from; map=ProtoCategory>ProtoWRoutesCategory,Category>WRoutesCategory]
%spec
    ensures forall|d: RawWRoutesCategory| #[trigger] pcat_says(d, raw_category) ==> cat_says(d, r),
@@end
}
impl ProtoWRoutes {
@@fn src/configs/writing/routing.rs :: WrappedProtoConfig as From<WrappedRawConfig>::from [id=ProtoWRoutes::from; map=WrappedProtoConfig>ProtoWRoutes,WrappedRawConfig>WrappedRawWRoutes,ProtoCategory>ProtoWRoutesCategory]
%spec
    ensures r.file == raw_cfg.writing.route_pairs.file, pcat_says(raw_cfg.writing.route_pairs.category, r.category),
@@end
}
impl WRoutes {
@@fn src/configs/writing/routing.rs :: Config as From<WrappedProtoConfig>::from [id=WRoutes::from; map=WrappedProtoConfig>ProtoWRoutes,Config>WRoutes,Category>WRoutesCategory]
%spec
    ensures r.file == proto_cfg.file, forall|d: RawWRoutesCategory| #[trigger] pcat_says(d, proto_cfg.category) ==> cat_says(d, r.category),
@@end
}
