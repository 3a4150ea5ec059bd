@@item src/defaults.rs :: NO_SHORTCUT_IDX [mod=parsing]
@@item src/defaults.rs :: IGNORE_STR [mod=writing]
@@item src/configs/writing/network/edges.rs :: Config [as=WEdges]
@@item src/configs/writing/network/graph/nodes.rs :: Config [as=WNodes]
@@item src/configs/writing/network/graph/mod.rs :: Config [as=WGraph; map=nodes::Config>WNodes,edges::Config>WEdges]
impl Graph {
@@fn src/network/graph/mod.rs :: Graph::cfg [id=Graph::cfg; map=Config>ParsingConfig]
%spec
    ensures *r == self.cfg,
@@end
}
impl<'a> EdgeAccessor<'a> {
@@fn src/network/graph/mod.rs :: EdgeAccessor::id [id=EdgeAccessor::id]
%spec
    requires idx.0 < self.edge_ids@.len(), self.edge_ids@[idx.0 as int] is Some,
    ensures Some(r) == self.edge_ids@[idx.0 as int],
@@end
}
// ---------------------------------------------------------------- columns
/// the id of a column of the graph's edges
pub open spec fn cid(c: EdgeCategory) -> Option<int> { match c { EdgeCategory::Meta { info, id } => Some(idc(id)), EdgeCategory::Metric { unit, id } => Some(idc(id)), EdgeCategory::Ignored => None } }
/// the first of the first n columns with this id; -1 if there is none
pub open spec fn col(cats: Seq<EdgeCategory>, c: int, i: int) -> int decreases cats.len() - i { if i >= cats.len() { -1 } else if cid(cats[i]) == Some(c) { i } else { col(cats, c, i + 1) } }
/// the first position of a metric
pub open spec fn mpos(ids: Seq<SimpleId>, c: int, i: int) -> int decreases ids.len() - i { if i >= ids.len() { -1 } else if idc(ids[i]) == c { i } else { mpos(ids, c, i + 1) } }
pub open spec fn short(g: Graph, e: int) -> bool { g.sc_offsets@[e] < g.sc_offsets@[e + 1] }
pub open spec fn sc_tok(g: Graph, e: int, k: int) -> Tok { if short(g, e) { Tok::U(g.sc_edges@[g.sc_offsets@[e] as int]@[k].0) } else { Tok::S(STR("-1") as int) } }
pub open spec fn metric_of(g: Graph, w: WEdges, e: int, m: int) -> Ext { if w.is_denormalizing && g.means is Some { emul(g.metrics@[e]@[m]@, g.means->0@[m]@) } else { g.metrics@[e]@[m]@ } }
/// what a column holds for edge e
pub open spec fn value(g: Graph, w: WEdges, e: int, c: EdgeCategory) -> Tok { match c {
    EdgeCategory::Meta { info, id } => match info {
        EdgeMetaInfo::EdgeId => Tok::U(g.edge_ids@[e]->0),
        EdgeMetaInfo::SrcId => Tok::I(g.node_ids@[g.src(e)]), EdgeMetaInfo::SrcIdx => Tok::U(g.src(e) as usize), EdgeMetaInfo::SrcLat => Tok::F(g.node_coords@[g.src(e)].lat@), EdgeMetaInfo::SrcLon => Tok::F(g.node_coords@[g.src(e)].lon@),
        EdgeMetaInfo::DstId => Tok::I(g.node_ids@[g.dst(e)]), EdgeMetaInfo::DstIdx => Tok::U(g.dst(e) as usize), EdgeMetaInfo::DstLat => Tok::F(g.node_coords@[g.dst(e)].lat@), EdgeMetaInfo::DstLon => Tok::F(g.node_coords@[g.dst(e)].lon@),
        EdgeMetaInfo::ShortcutIdx0 => sc_tok(g, e, 0), EdgeMetaInfo::ShortcutIdx1 => sc_tok(g, e, 1) },
    EdgeCategory::Metric { unit, id } => Tok::F(metric_of(g, w, e, mpos(g.cfg.edges.metrics.ids@, idc(id), 0))),
    EdgeCategory::Ignored => Tok::Any } }
pub open spec fn known(g: Graph, id: Option<SimpleId>) -> bool { id is Some ==> col(g.cfg.edges.categories@, idc(id->0), 0) >= 0 }
pub open spec fn cell(g: Graph, w: WEdges, e: int, id: Option<SimpleId>) -> Tok { match id { None => Tok::S(STR("_") as int), Some(id) => value(g, w, e, g.cfg.edges.categories@[col(g.cfg.edges.categories@, idc(id), 0)]) } }
pub open spec fn sep(s: Seq<Tok>, k: int, n: int) -> Seq<Tok> { if k < n { s.push(Tok::Lit(STR(" ") as int)) } else { s } }
/// the first k cells of a line of n, separated by a space
pub open spec fn cells(c: Seq<Tok>, k: int) -> Seq<Tok> decreases k { if k <= 0 { Seq::<Tok>::empty() } else { sep(cells(c, k - 1).push(c[k - 1]), k, c.len() as int) } }
pub open spec fn line(c: Seq<Tok>) -> Seq<Tok> { cells(c, c.len() as int).push(Tok::Nl) }
pub open spec fn edge_cells(g: Graph, w: WEdges, e: int) -> Seq<Tok> { Seq::new(w.ids@.len(), |k: int| cell(g, w, e, w.ids@[k])) }
pub open spec fn shown(g: Graph, w: WEdges, e: int) -> bool { w.is_writing_shortcuts || !short(g, e) }
/// one line per edge in graph order, shortcuts only if wanted
pub open spec fn edge_lines(g: Graph, w: WEdges, n: int) -> Seq<Tok> decreases n { if n <= 0 { Seq::<Tok>::empty() } else if shown(g, w, n - 1) { edge_lines(g, w, n - 1) + line(edge_cells(g, w, n - 1)) } else { edge_lines(g, w, n - 1) } }
pub open spec fn head_cells(ids: Seq<Option<SimpleId>>) -> Seq<Tok> { Seq::new(ids.len(), |k: int| match ids[k] { Some(id) => Tok::S(idc(id)), None => Tok::S(STR("_") as int) }) }
pub open spec fn edge_head(w: WEdges) -> Seq<Tok> { if w.is_writing_header { line(head_cells(w.ids@)) } else { Seq::<Tok>::empty() } }
pub open spec fn all_known(g: Graph, w: WEdges) -> bool { forall|k: int| 0 <= k < w.ids@.len() ==> known(g, #[trigger] w.ids@[k]) }
pub open spec fn nshown(g: Graph, w: WEdges, n: int) -> nat decreases n { if n <= 0 { 0 } else { nshown(g, w, n - 1) + (if shown(g, w, n - 1) { 1nat } else { 0 }) } }
/// the graph and its configuration belong together
pub open spec fn fit(g: Graph) -> bool {
    &&& g.wf() && g.cfg.edges.metrics.ids@.len() == g.dim() && g.edge_ids@.len() == g.m() && (g.means is Some ==> g.means->0@.len() == g.dim())
    &&& forall|k: int| 0 <= k < g.cfg.edges.categories@.len() && (#[trigger] g.cfg.edges.categories@[k]) is Metric ==> mpos(g.cfg.edges.metrics.ids@, idc(g.cfg.edges.categories@[k]->Metric_id), 0) >= 0
    &&& forall|k: int| 0 <= k < g.cfg.edges.categories@.len() && (#[trigger] g.cfg.edges.categories@[k]) is Meta && g.cfg.edges.categories@[k]->Meta_info == EdgeMetaInfo::EdgeId ==> forall|e: int| 0 <= e < g.m() ==> (#[trigger] g.edge_ids@[e]) is Some
}
proof fn lem_cells(l: Seq<Tok>, c: Seq<Tok>, x: int) requires 0 <= x < c.len() ensures l + cells(c, x + 1) == sep((l + cells(c, x)).push(c[x]), x + 1, c.len() as int)
{ let a = cells(c, x).push(c[x]); assert((l + cells(c, x)).push(c[x]) =~= l + a); assert(l + sep(a, x + 1, c.len() as int) =~= sep(l + a, x + 1, c.len() as int)); }
proof fn lem_fit(g: Graph, e: int) requires fit(g), 0 <= e < g.m()
    ensures g.fwd_dsts@[e].0 < g.n(), g.bwd_dsts@.len() == g.m(), g.bwd_dsts@[e].0 < g.n(), g.node_coords@.len() == g.n(), g.node_ch_levels@.len() == g.n(), g.metrics@.len() == g.m(), g.metrics@[e]@.len() == g.dim(), g.cfg.edges.metrics.ids@.len() == g.dim(),
        mono(g.sc_offsets@), g.sc_offsets@.len() == g.m() + 1, g.sc_offsets@[g.m()] == g.sc_edges@.len(), g.edge_ids@.len() == g.m(), g.means is Some ==> g.means->0@.len() == g.dim(),
        short(g, e) ==> g.sc_offsets@[e] < g.sc_edges@.len(),
{ assert(g.metrics@[e]@.len() == g.dim()); assert(g.sc_offsets@[e + 1] <= g.sc_offsets@[g.m()]); assert(g.fwd_dsts@[e].0 < g.n()); assert(g.bwd_dsts@[e].0 < g.n()); }
proof fn lem_fit_col(g: Graph, e: int, k: int) requires fit(g), 0 <= e < g.m(), 0 <= k < g.cfg.edges.categories@.len()
    ensures ({ let c = g.cfg.edges.categories@[k]; (c is Metric ==> 0 <= mpos(g.cfg.edges.metrics.ids@, idc(c->Metric_id), 0) < g.dim()) && (c is Meta && c->Meta_info == EdgeMetaInfo::EdgeId ==> g.edge_ids@[e] is Some) })
{ let c = g.cfg.edges.categories@[k]; if c is Metric { lem_mpos(g.cfg.edges.metrics.ids@, idc(c->Metric_id), 0); } assert(g.edge_ids@[e] == g.edge_ids@[e]); }
proof fn lem_nshown(g: Graph, w: WEdges, a: int, n: int) requires 0 <= a <= n ensures nshown(g, w, a) <= nshown(g, w, n) decreases n { if n > a { lem_nshown(g, w, a, n - 1); } }
proof fn lem_mpos(ids: Seq<SimpleId>, c: int, i: int) requires 0 <= i ensures mpos(ids, c, i) < ids.len() decreases ids.len() - i { if i < ids.len() { lem_mpos(ids, c, i + 1); } }
@@fn src/io/writing/network/mod.rs :: write_edges_to_file [map=crate::configs::writing::network::edges::Config>WEdges,configs::parsing::edges::Category>EdgeCategory,configs::parsing::edges::MetaInfo>EdgeMetaInfo]
%sig
    fn write_edges_to_file(writer: &mut Out, graph: &Graph, writing_cfg: &WEdges) -> err::Feedback
%rw: format!("{}", id.0) => own(&id.0)
%rw: format!("{}", defaults::writing::IGNORE_STR) => own(IGNORE_STR())
%rw: defaults::writing::IGNORE_STR => IGNORE_STR()
%rw: defaults::writing::NO_SHORTCUT_IDX => NO_SHORTCUT_IDX()
%rw: fwd_edges.iter() => edge_indices(&fwd_edges)
%index: graph.metrics()
%spec
    requires fit(*graph),
    ensures r is Ok == (nshown(*graph, *writing_cfg, graph.m()) > 0 ==> all_known(*graph, *writing_cfg)), final(writer).at() == old(writer).at(),
        r is Ok ==> final(writer).log() == old(writer).log() + edge_head(*writing_cfg) + edge_lines(*graph, *writing_cfg, graph.m()),
%start
    hide(fit); hide(value);
    let ghost l0 = writer.log(); let ghost a0 = writer.at(); let ghost g = *graph; let ghost w = *writing_cfg; let ghost n = w.ids@.len() as int; let ghost cats = g.cfg.edges.categories@; let ghost ids = g.cfg.edges.metrics.ids@;
%loop 0
    invariant i_0 <= n, n == writing_cfg.ids@.len(), w == *writing_cfg, writer.at() == a0, writer.log() == l0 + cells(head_cells(w.ids@), i_0 as int),
    decreases n - i_0,
%loop 0 before
    proof { assert(l0 + cells(head_cells(w.ids@), 0) =~= l0); }
%loop 0 start
    let ghost b = writer.log();
%loop 0 end
    proof { let c = head_cells(w.ids@); lem_cells(l0, c, x_0 as int); assert(writer.log() == sep(b.push(c[x_0 as int]), i_0 as int, n)); }
%loop 1 before
    let ghost l1 = l0 + edge_head(w);
    proof { assert(writer.log() =~= l1); assert(l1 + edge_lines(g, w, 0) =~= l1); }
%loop 1
    invariant g == *graph, w == *writing_cfg, fit(g), n == w.ids@.len(), cats == g.cfg.edges.categories@, ids == g.cfg.edges.metrics.ids@, fwd_edges.is_fwd(graph), bwd_edges.is_bwd(graph), nodes.node_ids == &graph.node_ids, nodes.node_coords == &graph.node_coords,
        s_1@.len() == g.m(), i_1 <= g.m(), forall|i: int| 0 <= i < g.m() ==> (#[trigger] s_1@[i]).0 == i,
        a0 == old(writer).at(), writer.at() == a0, writer.log() == l1 + edge_lines(g, w, i_1 as int), nshown(g, w, i_1 as int) > 0 ==> all_known(g, w),
    decreases g.m() - i_1,
%loop 1 start
    let ghost e = x_1 as int; let ghost l2 = writer.log(); proof { lem_fit(g, e); assert(edge_idx.0 == e); lem_nshown(g, w, e + 1, g.m()); }
%loop 2 before
    proof { assert(l2 + cells(edge_cells(g, w, e), 0) =~= l2); assert(shown(g, w, e)); }
%loop 2
    invariant g == *graph, w == *writing_cfg, fit(g), n == w.ids@.len(), cats == g.cfg.edges.categories@, ids == g.cfg.edges.metrics.ids@, fwd_edges.is_fwd(graph), bwd_edges.is_bwd(graph), nodes.node_ids == &graph.node_ids, nodes.node_coords == &graph.node_coords,
        edge_idx.0 == e, 0 <= e < g.m(), nshown(g, w, g.m()) > 0,
        i_2 <= n, writer.at() == a0, a0 == old(writer).at(), writer.log() == l2 + cells(edge_cells(g, w, e), i_2 as int), forall|k: int| 0 <= k < i_2 ==> known(g, #[trigger] w.ids@[k]),
    decreases n - i_2,
%loop 2 start
    let ghost b = writer.log();
%loop 2 end
    proof { let c = edge_cells(g, w, e); lem_cells(l2, c, x_2 as int); assert(c[x_2 as int] == cell(g, w, e, w.ids@[x_2 as int])); assert(writer.log() == sep(b.push(c[x_2 as int]), i_2 as int, n)); }
%loop 2 after
    proof { assert(all_known(g, w)); }
%loop 1 end
    proof { assert(writer.log() =~= l2 + line(edge_cells(g, w, e))); assert(writer.log() =~= l1 + edge_lines(g, w, i_1 as int)); }
%loop 3
    invariant_except_break !has_been_written, col(cats, idc(*next_id), 0) == col(cats, idc(*next_id), i_3 as int), writer.log() == b,
    invariant g == *graph, w == *writing_cfg, fit(g), cats == g.cfg.edges.categories@, ids == g.cfg.edges.metrics.ids@, fwd_edges.is_fwd(graph), bwd_edges.is_bwd(graph), nodes.node_ids == &graph.node_ids, nodes.node_coords == &graph.node_coords,
        edge_idx.0 == e, 0 <= e < g.m(), s_3@ == cats, i_3 <= cats.len(), writer.at() == a0,
    ensures has_been_written == (col(cats, idc(*next_id), 0) >= 0), has_been_written ==> writer.log() == b.push(cell(g, w, e, Some(*next_id))),
    decreases cats.len() - i_3,
%loop 3 start
    proof { lem_fit(g, e); lem_fit_col(g, e, x_3 as int); reveal(value); }
%loop 4
    invariant_except_break r_4 is None, mpos(ids, idc(*metric_id), 0) == mpos(ids, idc(*metric_id), i_4 as int),
    invariant i_4 <= ids.len(), s_4@ == ids,
    ensures r_4 is Some == (mpos(ids, idc(*metric_id), 0) >= 0), r_4 is Some ==> r_4->0 == mpos(ids, idc(*metric_id), 0),
    decreases ids.len() - i_4,
@@end
// ---------------------------------------------------------------- src/io/writing/network/graph/fmi.rs
pub open spec fn ncid(c: NodeCategory) -> Option<int> { match c { NodeCategory::Meta { info, id } => Some(idc(id)), NodeCategory::Metric { unit, id } => Some(idc(id)), NodeCategory::Ignored => None } }
pub open spec fn ncol(cats: Seq<NodeCategory>, c: int, i: int) -> int decreases cats.len() - i { if i >= cats.len() { -1 } else if ncid(cats[i]) == Some(c) { i } else { ncol(cats, c, i + 1) } }
pub open spec fn nvalue(g: Graph, v: int, c: NodeCategory) -> Tok { match c {
    NodeCategory::Meta { info, id } => match info { NodeMetaInfo::NodeId => Tok::I(g.node_ids@[v]), NodeMetaInfo::NodeIdx => Tok::U(v as usize), NodeMetaInfo::CHLevel => Tok::U(g.node_ch_levels@[v]) },
    NodeCategory::Metric { unit, id } => match unit { NodeUnitInfo::Latitude => Tok::F(g.node_coords@[v].lat@), NodeUnitInfo::Longitude => Tok::F(g.node_coords@[v].lon@), NodeUnitInfo::Height => Tok::Any },
    NodeCategory::Ignored => Tok::Any } }
pub open spec fn nknown(g: Graph, id: Option<SimpleId>) -> bool { id is Some ==> ncol(g.cfg.nodes.categories@, idc(id->0), 0) >= 0 }
pub open spec fn ncell(g: Graph, v: int, id: Option<SimpleId>) -> Tok { match id { None => Tok::S(STR("_") as int), Some(id) => nvalue(g, v, g.cfg.nodes.categories@[ncol(g.cfg.nodes.categories@, idc(id), 0)]) } }
pub open spec fn node_cells(g: Graph, w: WNodes, v: int) -> Seq<Tok> { Seq::new(w.ids@.len(), |k: int| ncell(g, v, w.ids@[k])) }
pub open spec fn node_lines(g: Graph, w: WNodes, n: int) -> Seq<Tok> decreases n { if n <= 0 { Seq::<Tok>::empty() } else { node_lines(g, w, n - 1) + line(node_cells(g, w, n - 1)) } }
pub open spec fn all_nknown(g: Graph, w: WNodes) -> bool { forall|k: int| 0 <= k < w.ids@.len() ==> nknown(g, #[trigger] w.ids@[k]) }
/// a height cannot be written
pub open spec fn no_height(g: Graph) -> bool { forall|k: int| 0 <= k < g.cfg.nodes.categories@.len() && (#[trigger] g.cfg.nodes.categories@[k]) is Metric ==> g.cfg.nodes.categories@[k]->Metric_unit != NodeUnitInfo::Height }
pub open spec fn wdim(g: Graph, ids: Seq<Option<SimpleId>>, n: int) -> nat decreases n { if n <= 0 { 0 } else { wdim(g, ids, n - 1) + (if ids[n - 1] is Some && has_id(g.cfg.edges.metrics.ids@, idc(ids[n - 1]->0)) { 1nat } else { 0 }) } }
pub open spec fn notes() -> Seq<Tok> { seq![
    Tok::Lit(STR("# edge-metric-count") as int), Tok::Nl, Tok::Lit(STR("# node-count") as int), Tok::Nl, Tok::Lit(STR("# edge-count") as int), Tok::Nl,
    Tok::Lit(STR("# nodes: ") as int), Tok::Any, Tok::Nl, Tok::Lit(STR("# edges: ") as int), Tok::Any, Tok::Nl,
    Tok::Lit(STR("# Edges' metrics are ") as int), Tok::Any, Tok::Lit(STR(" by their mean.") as int), Tok::Nl, Tok::Nl] }
/// the edges as they are written into a map
pub open spec fn wedges_of(w: WGraph) -> WEdges { WEdges { file: w.map_file, is_writing_shortcuts: w.edges.is_writing_shortcuts, is_writing_header: false, is_denormalizing: w.edges.is_denormalizing, ids: w.edges.ids } }
pub open spec fn map_counts(g: Graph, w: WGraph) -> Seq<Tok> { seq![Tok::U(wdim(g, w.edges.ids@, w.edges.ids@.len() as int) as usize), Tok::Nl, Tok::U(g.n() as usize), Tok::Nl, Tok::U(nshown(g, w.edges, g.m()) as usize), Tok::Nl] }
pub open spec fn map_text(g: Graph, w: WGraph) -> Seq<Tok> { notes() + map_counts(g, w) + node_lines(g, w.nodes, g.n()) + edge_lines(g, wedges_of(w), g.m()) }
proof fn lem_fitn(g: Graph) requires fit(g) ensures g.node_coords@.len() == g.n(), g.node_ch_levels@.len() == g.n(), g.wf(), mono(g.sc_offsets@), g.sc_offsets@.len() == g.m() + 1, g.edge_ids@.len() == g.m() {}
proof fn lem_wedges(g: Graph, w: WGraph, n: int) ensures nshown(g, wedges_of(w), n) == nshown(g, w.edges, n), all_known(g, wedges_of(w)) == all_known(g, w.edges) decreases n {
    assert(wedges_of(w).ids@ == w.edges.ids@); if all_known(g, wedges_of(w)) { assert forall|k: int| 0 <= k < w.edges.ids@.len() implies known(g, #[trigger] w.edges.ids@[k]) by { assert(known(g, wedges_of(w).ids@[k])); } }
    if n > 0 { lem_wedges(g, w, n - 1); } }
pub fn ids_has(v: &Vec<SimpleId>, x: &SimpleId) -> (r: bool) ensures r == has_id(v@, idc(*x)) {
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> idc(#[trigger] v@[k]) != idc(*x) decreases v@.len() - i { if v[i] == *x { return true; } i = i + 1; }
    false
}
#[verifier::external_body] pub fn wgraph_clone(w: &WGraph) -> (r: WGraph) ensures r == *w { unimplemented!() }
@@fn src/configs/writing/network/edges.rs :: Config as From<graph::Config>::from [as=wedges_from; id=wedges_from; map=graph::Config>WGraph,Config>WEdges]
%spec
    ensures r == wedges_of(graph_cfg),
@@end
pub struct Writer;
impl Writer {
@@fn src/io/writing/network/graph/fmi.rs :: Writer::write [map=nodes::Category>NodeCategory,nodes::MetaInfo>NodeMetaInfo,nodes::metrics::UnitInfo>NodeUnitInfo]
%sig
    fn write(&self, graph: &Graph, writing_cfg: &WGraph) -> err::Result<Out>
%attr
    #[verifier::spinoff_prover] #[verifier::rlimit(100)]
%rw: OpenOptions::new().write(true).create_new(true).open(&writing_cfg.map_file) => create_new(&writing_cfg.map_file)
%rw: defaults::writing::IGNORE_STR => IGNORE_STR()
%rw: fwd_edges.iter() => edge_indices(&fwd_edges)
%rw: &nodes => nodes.indices()
%rw: graph.cfg().edges.metrics.ids.contains(id) => ids_has(&graph.cfg().edges.metrics.ids, id)
%rw: &writing::network::edges::Config::from(writing_cfg.clone()) => &wedges_from(wgraph_clone(writing_cfg))
%rw: Ok(()) => Ok(writer)
%spec
    requires fit(*graph), no_height(*graph),
    ensures r is Ok == (!exists_at(writing_cfg.map_file) && (graph.n() > 0 ==> all_nknown(*graph, writing_cfg.nodes)) && (nshown(*graph, writing_cfg.edges, graph.m()) > 0 ==> all_known(*graph, writing_cfg.edges))),
        r is Ok ==> (r->Ok_0).log() == map_text(*graph, *writing_cfg) && (r->Ok_0).at() == writing_cfg.map_file,
%start
    hide(fit); hide(value); hide(nvalue); hide(all_known); hide(notes); hide(no_height);
    let ghost g = *graph; let ghost w = writing_cfg.nodes; let ghost n = w.ids@.len() as int; let ghost cats = g.cfg.nodes.categories@;
    proof { lem_fitn(g); lem_wedges(g, *writing_cfg, g.m()); }
%loop 0
    invariant g == *graph, i_0 <= writing_cfg.edges.ids@.len(), r_0 <= i_0, r_0 == wdim(g, writing_cfg.edges.ids@, i_0 as int),
    decreases writing_cfg.edges.ids@.len() - i_0,
%loop 0 before
    proof { reveal(notes); assert(writer.log() =~= notes()); }
%loop 1
    invariant fit(g), g == *graph, fwd_edges.is_fwd(graph), s_1@.len() == g.m(), i_1 <= g.m(), r_1 <= i_1, forall|i: int| 0 <= i < g.m() ==> (#[trigger] s_1@[i]).0 == i, r_1 == nshown(g, writing_cfg.edges, i_1 as int), mono(g.sc_offsets@), g.sc_offsets@.len() == g.m() + 1,
    decreases g.m() - i_1,
%loop 2 before
    let ghost l1 = notes() + map_counts(g, *writing_cfg);
    proof { assert(writer.log() =~= l1); assert(l1 + node_lines(g, w, 0) =~= l1); }
%loop 2
    invariant g == *graph, fit(g), no_height(g), w == writing_cfg.nodes, n == w.ids@.len(), cats == g.cfg.nodes.categories@, s_2@.len() == g.n(), i_2 <= g.n(), forall|i: int| 0 <= i < g.n() ==> (#[trigger] s_2@[i]).0 == i,
        writer.at() == writing_cfg.map_file, writer.log() == l1 + node_lines(g, w, i_2 as int), i_2 > 0 ==> all_nknown(g, w),
    decreases g.n() - i_2,
%loop 2 start
    let ghost v = x_2 as int; let ghost l2 = writer.log(); proof { assert(node_idx.0 == v); }
%loop 3 before
    proof { assert(l2 + cells(node_cells(g, w, v), 0) =~= l2); }
%loop 3
    invariant g == *graph, fit(g), no_height(g), w == writing_cfg.nodes, n == w.ids@.len(), cats == g.cfg.nodes.categories@, node_idx.0 == v, 0 <= v < g.n(),
        i_3 <= n, writer.at() == writing_cfg.map_file, writer.log() == l2 + cells(node_cells(g, w, v), i_3 as int), forall|k: int| 0 <= k < i_3 ==> nknown(g, #[trigger] w.ids@[k]),
    decreases n - i_3,
%loop 3 start
    let ghost b = writer.log();
%loop 3 end
    proof { let c = node_cells(g, w, v); lem_cells(l2, c, x_3 as int); assert(c[x_3 as int] == ncell(g, v, w.ids@[x_3 as int])); assert(writer.log() == sep(b.push(c[x_3 as int]), i_3 as int, n)); }
%loop 3 after
    proof { assert(all_nknown(g, w)); }
%loop 2 end
    proof { assert(writer.log() =~= l2 + line(node_cells(g, w, v))); assert(writer.log() =~= l1 + node_lines(g, w, i_2 as int)); }
%loop 4
    invariant_except_break !has_been_written, ncol(cats, idc(*next_id), 0) == ncol(cats, idc(*next_id), i_4 as int), writer.log() == b,
    invariant g == *graph, fit(g), no_height(g), cats == g.cfg.nodes.categories@, node_idx.0 == v, 0 <= v < g.n(), s_4@ == cats, i_4 <= cats.len(), writer.at() == writing_cfg.map_file,
    ensures has_been_written == (ncol(cats, idc(*next_id), 0) >= 0), has_been_written ==> writer.log() == b.push(ncell(g, v, Some(*next_id))),
    decreases cats.len() - i_4,
%loop 4 start
    proof { lem_fitn(g); reveal(nvalue); reveal(no_height); }
%loop 2 after
    proof { assert(writer.log() == l1 + node_lines(g, w, g.n())); }
%end
    proof { assert(edge_head(wedges_of(*writing_cfg)) =~= Seq::<Tok>::empty()); assert(out_->Ok_0.log() =~= map_text(g, *writing_cfg)); }
@@end
}
// ---------------------------------------------------------------- src/io/writing/network/edges.rs
pub uninterp spec fn csv(p: PathBuf) -> bool;
#[verifier::external_body] pub fn is_csv(p: &PathBuf) -> (r: bool) ensures r == csv(*p) { unimplemented!() }   // the file's extension
pub fn id_or_ignore<'a>(id: &'a Option<SimpleId>) -> (r: &'a Str) ensures code(*r) == match *id { Some(x) => idc(x), None => STR("_") as int } { match id { Some(x) => &x.0, None => IGNORE_STR() } }
pub open spec fn ext_lines<T: Show>(g: Graph, w: WEdges, v: Seq<T>, n: int) -> Seq<Tok> decreases n { if n <= 0 { Seq::<Tok>::empty() } else if shown(g, w, n - 1) { ext_lines(g, w, v, n - 1) + seq![Tok::U(g.edge_ids@[n - 1]->0), Tok::Lit(STR(" ") as int), v[n - 1].tok(), Tok::Nl] } else { ext_lines(g, w, v, n - 1) } }
pub struct EdgesWriter;
impl EdgesWriter {
@@fn src/io/writing/network/edges.rs :: Writer::write [id=EdgesWriter::write]
%sig
    fn write(graph: &Graph, writing_cfg: &WEdges) -> err::Result<Out>
%rw: OpenOptions::new().write(true).create_new(true).open(&writing_cfg.file) => create_new(&writing_cfg.file)
%rw: Self::is_file_supported(&writing_cfg.file) => is_csv(&writing_cfg.file)
%rw: Ok(()) => Ok(writer)
%spec
    requires fit(*graph),
    ensures r is Ok == (csv(writing_cfg.file) && !exists_at(writing_cfg.file) && (nshown(*graph, *writing_cfg, graph.m()) > 0 ==> all_known(*graph, *writing_cfg))),
        r is Ok ==> (r->Ok_0).log() == edge_head(*writing_cfg) + edge_lines(*graph, *writing_cfg, graph.m()) && (r->Ok_0).at() == writing_cfg.file,
%start
    hide(fit); hide(all_known); hide(edge_head); hide(edge_lines);
%end
    proof { assert(out_->Ok_0.log() =~= edge_head(*writing_cfg) + edge_lines(*graph, *writing_cfg, graph.m())); }
@@end
@@fn src/io/writing/network/edges.rs :: Writer::write_external_values [id=EdgesWriter::write_external_values]
%sig
    fn write_external_values<T: Show>(values: &[T], graph: &Graph, writing_cfg: &WEdges) -> err::Result<Out>
%rw: OpenOptions::new().write(true).create_new(true).open(&writing_cfg.file) => create_new(&writing_cfg.file)
%rw: Self::is_file_supported(&writing_cfg.file) => is_csv(&writing_cfg.file)
%rw: id.as_ref().map(|id| id.as_ref()).unwrap_or(defaults::writing::IGNORE_STR) => id_or_ignore(id)
%rw: fwd_edges.iter() => edge_indices(&fwd_edges)
%rw: Ok(()) => Ok(writer)
%spec
    requires fit(*graph), values@.len() == graph.m(), forall|e: int| 0 <= e < graph.m() ==> (#[trigger] graph.edge_ids@[e]) is Some,
    ensures r is Ok == (csv(writing_cfg.file) && !exists_at(writing_cfg.file)),
        r is Ok ==> (r->Ok_0).log() == edge_head(*writing_cfg) + ext_lines(*graph, *writing_cfg, values@, graph.m()) && (r->Ok_0).at() == writing_cfg.file,
%start
    hide(fit);
    let ghost g = *graph; let ghost w = *writing_cfg; let ghost n = w.ids@.len() as int; proof { lem_fitn(g); }
%loop 0 before
    let ghost l0 = Seq::<Tok>::empty();
    proof { assert(l0 + cells(head_cells(w.ids@), 0) =~= l0); assert(writer.log() =~= l0); }
%loop 0
    invariant i_0 <= n, n == writing_cfg.ids@.len(), w == *writing_cfg, writer.at() == w.file, l0.len() == 0, writer.log() == l0 + cells(head_cells(w.ids@), i_0 as int),
    decreases n - i_0,
%loop 0 start
    let ghost b = writer.log();
%loop 0 end
    proof { let c = head_cells(w.ids@); lem_cells(l0, c, x_0 as int); assert(writer.log() == sep(b.push(c[x_0 as int]), i_0 as int, n)); }
%loop 1 before
    let ghost l1 = edge_head(w);
    proof { assert(writer.log() =~= l1); assert(l1 + ext_lines(g, w, values@, 0) =~= l1); }
%loop 1
    invariant fit(g), g == *graph, w == *writing_cfg, fwd_edges.is_fwd(graph), s_1@.len() == g.m(), i_1 <= g.m(), values@.len() == g.m(), forall|e: int| 0 <= e < g.m() ==> (#[trigger] g.edge_ids@[e]) is Some, forall|i: int| 0 <= i < g.m() ==> (#[trigger] s_1@[i]).0 == i,
        mono(g.sc_offsets@), g.sc_offsets@.len() == g.m() + 1, g.edge_ids@.len() == g.m(), writer.at() == w.file, writer.log() == l1 + ext_lines(g, w, values@, i_1 as int),
    decreases g.m() - i_1,
%loop 1 start
    let ghost l2 = writer.log();
%loop 1 end
    proof { let e = x_1 as int; assert(writer.log() =~= l2 + seq![Tok::U(g.edge_ids@[e]->0), Tok::Lit(STR(" ") as int), values@[e].tok(), Tok::Nl]); assert(writer.log() =~= l1 + ext_lines(g, w, values@, i_1 as int)); }
@@end
}
proof fn must_fail_write(g: Graph, w: WGraph) requires fit(g), no_height(g), g.n() == 2, g.m() == 2, all_known(g, w.edges), all_nknown(g, w.nodes), !exists_at(w.map_file), w.edges.ids@.len() == 2 ensures false {}
