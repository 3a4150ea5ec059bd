// ---------------------------------------------------------------- what the generating rules do (specification)
pub open spec fn uu(u: GenUnitInfo) -> UnitInfo { match u { GenUnitInfo::Meters => UnitInfo::Meters, GenUnitInfo::Kilometers => UnitInfo::Kilometers, GenUnitInfo::Seconds => UnitInfo::Seconds, GenUnitInfo::Minutes => UnitInfo::Minutes, GenUnitInfo::Hours => UnitInfo::Hours, GenUnitInfo::KilometersPerHour => UnitInfo::KilometersPerHour, GenUnitInfo::LaneCount => UnitInfo::LaneCount, GenUnitInfo::F64 => UnitInfo::F64 } }
/// r is v in unit a, given in unit b
pub open spec fn conv(a: GenUnitInfo, b: GenUnitInfo, v: F64, r: F64) -> bool { convertible(a, b) && (v@ is Fin ==> r@ == Ext::Fin(converted(a, b, v@->Fin_0))) && (a == b || a is F64 || b is F64 ==> r == v) }
/// r in unit t is the quotient of x (in unit a) and y (in unit b)
pub open spec fn calc(t: GenUnitInfo, a: GenUnitInfo, x: F64, b: GenUnitInfo, y: F64, r: F64) -> bool { calculable(t, a, b) && (is_time(t) ==> r@ == emul(ediv(x@, y@), Ext::Fin(3600real / base(t))) || (t is Hours && r@ == ediv(x@, y@))) && (t is KilometersPerHour ==> r@ == ediv(x@, y@)) }
/// the great-circle distance in kilometres (kissunits)
pub uninterp spec fn hav(a: Coordinate, b: Coordinate) -> F64;
impl Graph {
    pub open spec fn ids(&self) -> Seq<SimpleId> { self.cfg.edges.metrics.ids@ }
    pub open spec fn cats(&self) -> Seq<EdgeCategory> { self.cfg.edges.categories@ }
    pub open spec fn row(&self, e: int) -> Seq<F64> { self.metrics@[e]@ }
    pub open spec fn coord(&self, u: int) -> Coordinate { self.node_coords@[u] }
}
/// ids, units and values are aligned
pub open spec fn aligned(g: &Graph) -> bool { g.ids().len() == g.dim() && g.metrics@.len() == g.m() && wide(g.metrics@, g.dim()) }
pub open spec fn ends_ok(g: &Graph) -> bool { g.bwd_dsts@.len() == g.m() && g.node_coords@.len() == g.n() && (forall|e: int| 0 <= e < g.m() ==> (#[trigger] g.fwd_dsts@[e]).0 < g.n()) && (forall|e: int| 0 <= e < g.m() ==> (#[trigger] g.bwd_dsts@[e]).0 < g.n()) }
/// everything but edge-ids, metrics and the categories and metrics of the config is the same
pub open spec fn same_rest(h: &Graph, g: &Graph) -> bool {
    &&& eq_nodes(h, g) && eq_fwd(h, g) && eq_bwd(h, g) && eq_sc(h, g) && h.means == g.means
    &&& h.cfg.map_file == g.cfg.map_file && h.cfg.nodes == g.cfg.nodes && h.cfg.generating == g.cfg.generating && h.cfg.edges.metrics.are_normalized == g.cfg.edges.metrics.are_normalized
}
pub open spec fn same_cols(h: &Graph, g: &Graph) -> bool { h.ids() == g.ids() && h.cfg.edges.metrics.units@ == g.cfg.edges.metrics.units@ }
pub open spec fn is_metric(c: EdgeCategory, u: UnitInfo, i: int) -> bool { c is Metric && c->Metric_unit == u && idc(c->Metric_id) == i }
pub open spec fn is_meta(c: EdgeCategory, x: EdgeMetaInfo, i: int) -> bool { c is Meta && c->info == x && idc(c->Meta_id) == i }
/// one more category at the end
pub open spec fn cat_added(h: &Graph, g: &Graph) -> bool { h.cats().len() == g.cats().len() + 1 && h.cats().drop_last() == g.cats() }
/// one more metric at the end: unit, id and category
pub open spec fn col_added(h: &Graph, g: &Graph, u: GenUnitInfo, i: int) -> bool {
    &&& cat_added(h, g) && is_metric(h.cats().last(), uu(u), i)
    &&& h.cfg.edges.metrics.units@ == g.cfg.edges.metrics.units@.push(uu(u))
    &&& h.ids().len() == g.ids().len() + 1 && h.ids().drop_last() == g.ids() && idc(h.ids().last()) == i
}
pub open spec fn custom_rule(g: &Graph, h: &Graph, u: GenUnitInfo, i: int, v: F64) -> bool {
    same_rest(h, g) && eq_ids(h, g) && col_added(h, g, u, i) && h.metrics@.len() == g.metrics@.len() && forall|e: int| 0 <= e < g.metrics@.len() ==> (#[trigger] h.metrics@[e])@ == g.row(e).push(v) }
pub open spec fn hav_rule(g: &Graph, h: &Graph, u: GenUnitInfo, i: int) -> bool {
    u is Kilometers && same_rest(h, g) && eq_ids(h, g) && col_added(h, g, u, i) && h.metrics@.len() == g.metrics@.len() && forall|e: int| 0 <= e < g.metrics@.len() ==> (#[trigger] h.metrics@[e])@ == g.row(e).push(hav(g.coord(g.src(e)), g.coord(g.dst(e)))) }
pub open spec fn copy_row(a: Seq<F64>, b: Seq<F64>, fu: GenUnitInfo, tu: GenUnitInfo, k: int) -> bool { b.len() == a.len() + 1 && b.drop_last() == a && conv(fu, tu, a[k], b.last()) }
pub open spec fn copy_rule(g: &Graph, h: &Graph, from: GenMetric, to: GenMetric, k: int) -> bool {
    at_id(g.ids(), idc(from.id), k) && same_rest(h, g) && eq_ids(h, g) && col_added(h, g, to.unit, idc(to.id)) && h.metrics@.len() == g.metrics@.len()
    && forall|e: int| 0 <= e < g.metrics@.len() ==> copy_row(g.row(e), (#[trigger] h.metrics@[e])@, from.unit, to.unit, k) }
pub open spec fn calc_row(a: Seq<F64>, b: Seq<F64>, t: GenUnitInfo, au: GenUnitInfo, ka: int, bu: GenUnitInfo, kb: int) -> bool { b.len() == a.len() + 1 && b.drop_last() == a && calc(t, au, a[ka], bu, a[kb], b.last()) }
pub open spec fn calc_rule(g: &Graph, h: &Graph, t: GenMetric, a: GenMetric, b: GenMetric, ka: int, kb: int) -> bool {
    at_id(g.ids(), idc(a.id), ka) && at_id(g.ids(), idc(b.id), kb) && same_rest(h, g) && eq_ids(h, g) && col_added(h, g, t.unit, idc(t.id)) && h.metrics@.len() == g.metrics@.len()
    && forall|e: int| 0 <= e < g.metrics@.len() ==> calc_row(g.row(e), (#[trigger] h.metrics@[e])@, t.unit, a.unit, ka, b.unit, kb) }
/// in-place: the metric is converted, its unit and its id are replaced
pub open spec fn conv_row(a: Seq<F64>, b: Seq<F64>, fu: GenUnitInfo, tu: GenUnitInfo, k: int) -> bool { b.len() == a.len() && conv(fu, tu, a[k], b[k]) && forall|j: int| 0 <= j < a.len() && j != k ==> #[trigger] b[j] == a[j] }
pub open spec fn renamed(c: EdgeCategory, d: EdgeCategory, i: int, to: GenMetric) -> bool { if c is Metric && idc(c->Metric_id) == i { is_metric(d, uu(to.unit), idc(to.id)) } else { d == c } }
pub open spec fn conv_rule(g: &Graph, h: &Graph, from: GenMetric, to: GenMetric, k: int) -> bool {
    &&& at_id(g.ids(), idc(from.id), k) && same_rest(h, g) && eq_ids(h, g)
    &&& h.cats().len() == g.cats().len() && forall|i: int| 0 <= i < g.cats().len() ==> renamed(g.cats()[i], #[trigger] h.cats()[i], idc(from.id), to)
    &&& h.cfg.edges.metrics.units@ == g.cfg.edges.metrics.units@.update(k, uu(to.unit))
    &&& h.ids().len() == g.ids().len() && idc(h.ids()[k]) == idc(to.id) && forall|i: int| 0 <= i < g.ids().len() && i != k ==> #[trigger] h.ids()[i] == g.ids()[i]
    &&& h.metrics@.len() == g.metrics@.len() && forall|e: int| 0 <= e < g.metrics@.len() ==> conv_row(g.row(e), (#[trigger] h.metrics@[e])@, from.unit, to.unit, k)
}
pub open spec fn minfo(x: GenMetaInfo) -> EdgeMetaInfo { match x { GenMetaInfo::EdgeId => EdgeMetaInfo::EdgeId, GenMetaInfo::SrcIdx => EdgeMetaInfo::SrcIdx, GenMetaInfo::DstIdx => EdgeMetaInfo::DstIdx, GenMetaInfo::SrcLat => EdgeMetaInfo::SrcLat, GenMetaInfo::SrcLon => EdgeMetaInfo::SrcLon, GenMetaInfo::DstLat => EdgeMetaInfo::DstLat, GenMetaInfo::DstLon => EdgeMetaInfo::DstLon, GenMetaInfo::ShortcutIdx0 => EdgeMetaInfo::ShortcutIdx0, GenMetaInfo::ShortcutIdx1 => EdgeMetaInfo::ShortcutIdx1 } }
/// every edge has its index as id
pub open spec fn own_ids(h: &Graph) -> bool {
    &&& h.edge_ids@.len() == h.m() && h.edge_ids_to_idx_map@.len() == h.m()
    &&& forall|e: int| 0 <= e < h.m() ==> #[trigger] h.edge_ids@[e] == Some(e as usize)
    &&& forall|e: int| 0 <= e < h.m() ==> #[trigger] h.edge_ids_to_idx_map@[e] == (e as usize, EdgeIdx(e as usize))
}
pub open spec fn meta_rule(g: &Graph, h: &Graph, x: GenMetaInfo, i: int) -> bool {
    &&& !(x is ShortcutIdx0) && !(x is ShortcutIdx1) && same_rest(h, g) && same_cols(h, g) && h.metrics@ == g.metrics@
    &&& cat_added(h, g) && is_meta(h.cats().last(), minfo(x), i)
    &&& if x is EdgeId { own_ids(h) } else { eq_ids(h, g) }
}
// merging a file: line by line, column by column
pub open spec fn col_of(ids: Seq<SimpleId>, c: int) -> int { choose|k: int| at_id(ids, c, k) }
pub open spec fn edge_of(map: Seq<(usize, EdgeIdx)>, id: usize) -> int { (choose|e: EdgeIdx| map.contains((id, e))).0 as int }
/// the column of the file with the edges' ids
pub open spec fn at_info(infos: Seq<MergeCategory>, c: int, k: int) -> bool { 0 <= k < infos.len() && is_info(infos[k], c) && forall|j: int| 0 <= j < k ==> !is_info(#[trigger] infos[j], c) }
pub open spec fn is_info(x: MergeCategory, c: int) -> bool { x is Id && idc(x->Id_0) == c }
/// the first n columns of the line w written to the metrics of the edge
pub open spec fn put_cols(row: Seq<F64>, ids: Seq<SimpleId>, infos: Seq<MergeCategory>, c: int, w: Seq<int>, n: int) -> Seq<F64> decreases n {
    if n <= 0 { row } else { let r = put_cols(row, ids, infos, c, w, n - 1); if infos[n - 1] is Id && !is_info(infos[n - 1], c) { r.update(col_of(ids, idc(infos[n - 1]->Id_0)), p_f64(w[n - 1])->0) } else { r } } }
/// the metrics after the first n lines
pub open spec fn put_lines(rows: Seq<Seq<F64>>, map: Seq<(usize, EdgeIdx)>, ids: Seq<SimpleId>, infos: Seq<MergeCategory>, c: int, lines: Seq<int>, n: int) -> Seq<Seq<F64>> decreases n {
    if n <= 0 { rows } else { let a = put_lines(rows, map, ids, infos, c, lines, n - 1); put_line(a, map, ids, infos, c, words(lines[n - 1])) } }
pub open spec fn put_line(a: Seq<Seq<F64>>, map: Seq<(usize, EdgeIdx)>, ids: Seq<SimpleId>, infos: Seq<MergeCategory>, c: int, w: Seq<int>) -> Seq<Seq<F64>> {
    let k = choose|k: int| at_info(infos, c, k); let e = edge_of(map, p_usize(w[k])->0); a.update(e, put_cols(a[e], ids, infos, c, w, infos.len() as int)) }
pub open spec fn known(map: Seq<(usize, EdgeIdx)>, id: usize) -> bool { exists|e: EdgeIdx| #[trigger] map.contains((id, e)) }
pub open spec fn id_ok(map: Seq<(usize, EdgeIdx)>, infos: Seq<MergeCategory>, c: int, w: Seq<int>, k: int) -> bool { at_info(infos, c, k) && p_usize(w[k]) is Some && known(map, p_usize(w[k])->0) }
/// the line has an edge id which the graph knows, and numbers
pub open spec fn line_ok(map: Seq<(usize, EdgeIdx)>, infos: Seq<MergeCategory>, c: int, w: Seq<int>) -> bool {
    &&& exists|k: int| #[trigger] id_ok(map, infos, c, w, k)
    &&& forall|j: int| 0 <= j < infos.len() && infos[j] is Id && !is_info(infos[j], c) ==> p_f64(#[trigger] w[j]) is Some
}
pub open spec fn rows(g: &Graph) -> Seq<Seq<F64>> { Seq::new(g.metrics@.len(), |e: int| g.row(e)) }
pub open spec fn merge_lines(p: PathBuf, header: bool) -> Seq<int> { if header && flines(p).len() > 0 { flines(p).subrange(1, flines(p).len() as int) } else { flines(p) } }
@@include ext_spec.vrs
pub open spec fn csv(p: PathBuf) -> bool { ext(p) is Some && ext(p)->0 == STR("csv") }
/// a csv-file whose lines name known edges and hold numbers
pub open spec fn mergeable_into(g: &Graph, p: PathBuf, header: bool, c: int, infos: Seq<MergeCategory>) -> bool {
    csv(p) && forall|i: int| 0 <= i < merge_lines(p, header).len() ==> line_ok(g.edge_ids_to_idx_map@, infos, c, words(#[trigger] merge_lines(p, header)[i])) }
pub open spec fn merge_rule(g: &Graph, h: &Graph, p: PathBuf, header: bool, c: int, infos: Seq<MergeCategory>) -> bool {
    &&& same_rest(h, g) && eq_ids(h, g) && same_cols(h, g) && h.cats() == g.cats()
    &&& mergeable_into(g, p, header, c, infos)
    &&& rows(h) == put_lines(rows(g), g.edge_ids_to_idx_map@, g.ids(), infos, c, merge_lines(p, header), merge_lines(p, header).len() as int)
}
/// h is g after the rule c
pub open spec fn rule(c: GenCategory, g: &Graph, h: &Graph) -> bool { match c {
    GenCategory::Meta { info, id } => meta_rule(g, h, info, idc(id)),
    GenCategory::Custom { unit, id, default } => custom_rule(g, h, unit, idc(id), default),
    GenCategory::Haversine { unit, id } => hav_rule(g, h, unit, idc(id)),
    GenCategory::Copy { from, to } => exists|k: int| #[trigger] copy_rule(g, h, from, to, k),
    GenCategory::Convert { from, to } => exists|k: int| #[trigger] conv_rule(g, h, from, to, k),
    GenCategory::Calc { result, a, b } => exists|ka: int, kb: int| #[trigger] calc_rule(g, h, result, a, b, ka, kb),
    GenCategory::Merge { from, is_file_with_header, edge_id, edges_info } => merge_rule(g, h, from, is_file_with_header, idc(edge_id), edges_info@),
} }
/// precondition: files to be merged are readable and have the configured columns
pub open spec fn mergeable(c: GenCategory) -> bool { c is Merge ==> readable(c->Merge_from) && forall|i: int| 0 <= i < flines(c->Merge_from).len() ==> words(#[trigger] flines(c->Merge_from)[i]).len() >= c->edges_info@.len() }
pub open spec fn all_mergeable(g: GenCfg) -> bool { forall|i: int| 0 <= i < g.edges.categories@.len() ==> mergeable(#[trigger] g.edges.categories@[i]) }
/// the id of the new column or category, if the rule makes one
pub open spec fn makes(c: GenCategory) -> Option<int> { match c { GenCategory::Meta { info, id } => Some(idc(id)), GenCategory::Custom { unit, id, default } => Some(idc(id)), GenCategory::Haversine { unit, id } => Some(idc(id)), GenCategory::Copy { from, to } => Some(idc(to.id)), GenCategory::Calc { result, a, b } => Some(idc(result.id)), _ => None } }
pub open spec fn has_cat(s: Seq<EdgeCategory>, i: int) -> bool { exists|k: int| 0 <= k < s.len() && cat_is(#[trigger] s[k], i) }
pub open spec fn cat_is(c: EdgeCategory, i: int) -> bool { (c is Meta && idc(c->Meta_id) == i) || (c is Metric && idc(c->Metric_id) == i) }
pub open spec fn fresh(s: Seq<EdgeCategory>, cs: Seq<GenCategory>, n: int) -> bool { forall|i: int| 0 <= i < n && makes(#[trigger] cs[i]) is Some ==> !has_cat(s, makes(cs[i])->0) }
pub open spec fn ninfo(x: GenNodeMetaInfo) -> NodeMetaInfo { match x { GenNodeMetaInfo::NodeId => NodeMetaInfo::NodeId, GenNodeMetaInfo::NodeIdx => NodeMetaInfo::NodeIdx, GenNodeMetaInfo::CHLevel => NodeMetaInfo::CHLevel } }
/// the first n rules for nodes: each one adds a column with the node's index
pub open spec fn ngen(s: Seq<NodeCategory>, cs: Seq<GenNodeCategory>, t: Seq<NodeCategory>, n: int) -> bool {
    &&& t.len() == s.len() + n && forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == s[i]
    &&& forall|i: int| 0 <= i < n ==> nmade(cs[i], #[trigger] t[s.len() + i]) && nfresh(t, s.len() + i, idc(cs[i]->id)) }
pub open spec fn ncat_is(c: NodeCategory, i: int) -> bool { (c is Meta && idc(c->Meta_id) == i) || (c is Metric && idc(c->Metric_id) == i) }
/// none of the first n columns of the nodes has the id
pub open spec fn nfresh(s: Seq<NodeCategory>, n: int, i: int) -> bool { forall|k: int| 0 <= k < n ==> !ncat_is(#[trigger] s[k], i) }
pub open spec fn nmade(c: GenNodeCategory, d: NodeCategory) -> bool { c is Meta && c->info is NodeIdx && d is Meta && d->info is NodeIdx && idc(d->Meta_id) == idc(c->id) }
/// the graphs after each rule
pub open spec fn steps(cs: Seq<GenCategory>, gs: Seq<Graph>) -> bool { gs.len() == cs.len() + 1 && forall|i: int| 0 <= i < cs.len() ==> rule(#[trigger] cs[i], &gs[i], &gs[i + 1]) }
pub open spec fn nodes_done(h: &Graph, g: &Graph) -> bool {
    &&& eq_nodes(h, g) && eq_fwd(h, g) && eq_bwd(h, g) && eq_sc(h, g) && eq_ids(h, g) && h.means == g.means && h.metrics@ == g.metrics@
    &&& h.cfg.map_file == g.cfg.map_file && h.cfg.edges == g.cfg.edges && h.cfg.generating is None }
/// the rule can be applied to g
pub open spec fn possible(c: GenCategory, g: &Graph) -> bool { match c {
    GenCategory::Meta { info, id } => !(info is ShortcutIdx0) && !(info is ShortcutIdx1),
    GenCategory::Custom { unit, id, default } => true,
    GenCategory::Haversine { unit, id } => unit is Kilometers,
    GenCategory::Copy { from, to } => convertible(from.unit, to.unit),
    GenCategory::Convert { from, to } => convertible(from.unit, to.unit),
    GenCategory::Calc { result, a, b } => calculable(result.unit, a.unit, b.unit),
    GenCategory::Merge { from, is_file_with_header, edge_id, edges_info } => mergeable_into(g, from, is_file_with_header, idc(edge_id), edges_info@),
} }
/// a rule for nodes which cannot be applied: only indices are made, under new ids
pub open spec fn nrefused(s: Seq<NodeCategory>, cs: Seq<GenNodeCategory>, t: Seq<NodeCategory>, n: int) -> bool {
    0 <= n < cs.len() && ngen(s, cs, t, n) && !(cs[n] is Meta && cs[n]->info is NodeIdx && nfresh(t, t.len() as int, idc(cs[n]->id))) }
/// the first n rules were applied, the next one cannot be
pub open spec fn erefused(g: &Graph, c: GenCfg, gs: Seq<Graph>, n: int) -> bool {
    &&& 0 <= n < c.edges.categories@.len() && gs.len() == n + 1 && nodes_done(&gs[0], g) && !possible(c.edges.categories@[n], &gs[n])
    &&& forall|i: int| 0 <= i < n ==> rule(#[trigger] c.edges.categories@[i], &gs[i], &gs[i + 1]) }
/// why generating fails
pub open spec fn refused(g: &Graph, c: GenCfg) -> bool {
    ||| exists|t: Seq<NodeCategory>, n: int| #[trigger] nrefused(g.cfg.nodes.categories@, c.nodes.categories@, t, n)
    ||| !fresh(g.cats(), c.edges.categories@, c.edges.categories@.len() as int)
    ||| exists|gs: Seq<Graph>, n: int| #[trigger] erefused(g, c, gs, n) }
/// h is g after all rules of c
pub open spec fn generated(g: &Graph, h: &Graph, c: GenCfg, gs: Seq<Graph>) -> bool {
    &&& steps(c.edges.categories@, gs) && gs.last() == *h && nodes_done(&gs[0], g)
    &&& ngen(g.cfg.nodes.categories@, c.nodes.categories@, h.cfg.nodes.categories@, c.nodes.categories@.len() as int)
    &&& fresh(g.cats(), c.edges.categories@, c.edges.categories@.len() as int) }
