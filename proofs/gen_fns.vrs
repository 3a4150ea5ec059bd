impl vstd::std_specs::convert::FromSpecImpl<GenUnitInfo> for UnitInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: GenUnitInfo) -> UnitInfo { uu(v) } }
impl From<GenUnitInfo> for UnitInfo {
@@fn src/configs/parsing/edges/metrics.rs :: UnitInfo as From<gen::UnitInfo>::from [nopub; id=UnitInfo::fromGen; map=gen::UnitInfo>GenUnitInfo]
%spec
    ensures r == uu(gen_unit),
@@end
}
#[verifier::external_body] pub fn haversine_distance_km(a: &Coordinate, b: &Coordinate) -> (r: Kilometers) ensures r.0 == hav(*a, *b) { unimplemented!() }
// a documented panic (the configuration names a metric which does not exist) ends the program
#[verifier::external_body] pub fn abort_<T>() -> (r: T) ensures false { panic!() }
impl EdgeMetricsConfig {
@@fn src/configs/parsing/edges/metrics.rs :: Config::try_idx_of
%sig
    fn try_idx_of(&self, id: &SimpleId) -> err::Result<MetricIdx>
%spec
    ensures r is Ok ==> at_id(self.ids@, idc(*id), r->Ok_0.0 as int),
        r is Err ==> !has_id(self.ids@, idc(*id)),
%loop 0
        invariant_except_break r_0 is None, forall|i: int| 0 <= i < i_0 ==> idc(#[trigger] self.ids@[i]) != idc(*id),
        invariant i_0 <= self.ids@.len(),
        ensures r_0 is Some ==> at_id(self.ids@, idc(*id), r_0->0 as int), r_0 is None ==> !has_id(self.ids@, idc(*id)),
        decreases self.ids@.len() - i_0,
@@end
@@fn src/configs/parsing/edges/metrics.rs :: Config::idx_of
%sig
    fn idx_of(&self, id: &SimpleId) -> MetricIdx
%rw: self.try_idx_of(&id) => self.try_idx_of(id)
%rw: panic!("{}", msg) => abort_()
%spec
    ensures at_id(self.ids@, idc(*id), r.0 as int),
@@end
}
// ---------------------------------------------------------------- building.rs: the generating section of GraphBuilder::finalize
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=gen_custom; map=parsing::edges::Category>EdgeCategory,parsing::edges::MetaInfo>EdgeMetaInfo,parsing::edges::metrics::UnitInfo>UnitInfo,generating::edges::metrics::UnitInfo>GenUnitInfo,generating::edges::MetaInfo>GenMetaInfo,generating::edges::merge::Category>MergeCategory]
%from
    arm generating::edges::Category::Custom { unit, id, default }
%sig
fn gen_custom(graph: &mut Graph, unit: &GenUnitInfo, id: &SimpleId, default: &F64) -> Result<(), Msg>
%tail
    Ok(())
%spec
    requires aligned(old(graph)),
    ensures r is Ok, custom_rule(old(graph), final(graph), *unit, idc(*id), *default), aligned(final(graph)),
%start
    let ghost g0 = *graph;
%loop 0
    invariant i_0 <= graph.metrics@.len(), graph.metrics@.len() == g0.metrics@.len(), same_rest(graph, &g0), eq_ids(graph, &g0), same_cols(graph, &g0), graph.cats() == g0.cats(),
        forall|e: int| 0 <= e < i_0 ==> (#[trigger] graph.metrics@[e])@ == g0.row(e).push(*default), forall|e: int| i_0 <= e < g0.metrics@.len() ==> (#[trigger] graph.metrics@[e])@ == g0.row(e),
    decreases graph.metrics@.len() - i_0,
%end
    proof { assert(graph.ids().drop_last() =~= g0.ids()); assert(graph.cats().drop_last() =~= g0.cats()); }
@@end
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=gen_hav; map=parsing::edges::Category>EdgeCategory,parsing::edges::MetaInfo>EdgeMetaInfo,parsing::edges::metrics::UnitInfo>UnitInfo,generating::edges::metrics::UnitInfo>GenUnitInfo,generating::edges::MetaInfo>GenMetaInfo,generating::edges::merge::Category>MergeCategory]
%from
    arm generating::edges::Category::Haversine { unit, id }
%sig
fn gen_hav(graph: &mut Graph, unit: &GenUnitInfo, id: &SimpleId) -> Result<(), Msg>
%tail
    Ok(())
%path: kissunits::geo::haversine_distance_km => haversine_distance_km
%spec
    requires aligned(old(graph)), ends_ok(old(graph)),
    ensures r is Ok == *unit is Kilometers, r is Ok ==> hav_rule(old(graph), final(graph), *unit, idc(*id)) && aligned(final(graph)),
%start
    let ghost g0 = *graph;
%loop 0
    invariant i_0 <= graph.metrics@.len(), n_0 == graph.metrics@.len(), graph.metrics@.len() == g0.metrics@.len(), same_rest(graph, &g0), eq_ids(graph, &g0), same_cols(graph, &g0), graph.cats() == g0.cats(), ends_ok(&g0), g0.metrics@.len() == g0.m(), *unit is Kilometers,
        forall|e: int| 0 <= e < i_0 ==> (#[trigger] graph.metrics@[e])@ == g0.row(e).push(hav(g0.coord(g0.src(e)), g0.coord(g0.dst(e)))), forall|e: int| i_0 <= e < g0.metrics@.len() ==> (#[trigger] graph.metrics@[e])@ == g0.row(e),
    decreases n_0 - i_0,
%end
    proof { assert(graph.ids().drop_last() =~= g0.ids()); assert(graph.cats().drop_last() =~= g0.cats()); }
@@end
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=gen_copy; map=parsing::edges::Category>EdgeCategory,parsing::edges::MetaInfo>EdgeMetaInfo,parsing::edges::metrics::UnitInfo>UnitInfo,generating::edges::metrics::UnitInfo>GenUnitInfo,generating::edges::MetaInfo>GenMetaInfo,generating::edges::merge::Category>MergeCategory]
%from
    arm generating::edges::Category::Copy { from, to }
%sig
fn gen_copy(graph: &mut Graph, from: &GenMetric, to: &GenMetric) -> Result<(), Msg>
%tail
    Ok(())
%spec
    requires aligned(old(graph)),
    ensures r is Err ==> !convertible(from.unit, to.unit), r is Ok ==> (exists|k: int| #[trigger] copy_rule(old(graph), final(graph), *from, *to, k)) && aligned(final(graph)),
%start
    let ghost g0 = *graph;
%loop 0
    invariant i_0 <= graph.metrics@.len(), n_0 == graph.metrics@.len(), graph.metrics@.len() == g0.metrics@.len(), same_rest(graph, &g0), eq_ids(graph, &g0), same_cols(graph, &g0), graph.cats() == g0.cats(), aligned(&g0), at_id(g0.ids(), idc(from.id), metric_idx.0 as int),
        forall|e: int| 0 <= e < i_0 ==> copy_row(g0.row(e), (#[trigger] graph.metrics@[e])@, from.unit, to.unit, metric_idx.0 as int), forall|e: int| i_0 <= e < g0.metrics@.len() ==> (#[trigger] graph.metrics@[e])@ == g0.row(e),
    decreases n_0 - i_0,
%loop 0 end
    proof { assert(graph.metrics@[x_0 as int]@.drop_last() =~= g0.row(x_0 as int)); }
%end
    proof { assert(graph.ids().drop_last() =~= g0.ids()); assert(graph.cats().drop_last() =~= g0.cats()); assert(copy_rule(&g0, graph, *from, *to, metric_idx.0 as int)); }
@@end
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=gen_conv; derefeq; map=parsing::edges::Category>EdgeCategory,parsing::edges::MetaInfo>EdgeMetaInfo,parsing::edges::metrics::UnitInfo>UnitInfo,generating::edges::metrics::UnitInfo>GenUnitInfo,generating::edges::MetaInfo>GenMetaInfo,generating::edges::merge::Category>MergeCategory]
%from
    arm generating::edges::Category::Convert { from, to }
%sig
fn gen_conv(graph: &mut Graph, from: &GenMetric, to: &GenMetric) -> Result<(), Msg>
%tail
    Ok(())
%spec
    requires aligned(old(graph)),
    ensures r is Err ==> !convertible(from.unit, to.unit), r is Ok ==> (exists|k: int| #[trigger] conv_rule(old(graph), final(graph), *from, *to, k)) && aligned(final(graph)),
%start
    let ghost g0 = *graph;
%loop 0
    invariant i_0 <= graph.metrics@.len(), n_0 == graph.metrics@.len(), graph.metrics@.len() == g0.metrics@.len(), same_rest(graph, &g0), eq_ids(graph, &g0), same_cols(graph, &g0), graph.cats() == g0.cats(), aligned(&g0), at_id(g0.ids(), idc(from.id), metric_idx.0 as int),
        forall|e: int| 0 <= e < i_0 ==> conv_row(g0.row(e), (#[trigger] graph.metrics@[e])@, from.unit, to.unit, metric_idx.0 as int), forall|e: int| i_0 <= e < g0.metrics@.len() ==> (#[trigger] graph.metrics@[e])@ == g0.row(e),
    decreases n_0 - i_0,
%loop 1
    invariant i_1 <= graph.cats().len(), graph.cats().len() == g0.cats().len(), graph.metrics@.len() == g0.metrics@.len(), same_rest(graph, &g0), eq_ids(graph, &g0), same_cols(graph, &g0), aligned(&g0), at_id(g0.ids(), idc(from.id), metric_idx.0 as int),
        forall|e: int| 0 <= e < g0.metrics@.len() ==> conv_row(g0.row(e), (#[trigger] graph.metrics@[e])@, from.unit, to.unit, metric_idx.0 as int),
        forall|i: int| 0 <= i < i_1 ==> renamed(g0.cats()[i], #[trigger] graph.cfg.edges.categories@[i], idc(from.id), *to), forall|i: int| i_1 <= i < g0.cats().len() ==> g0.cats()[i] == #[trigger] graph.cfg.edges.categories@[i],
    decreases graph.cats().len() - i_1,
%end
    proof { assert(conv_rule(&g0, graph, *from, *to, metric_idx.0 as int)); }
@@end
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=gen_calc; map=parsing::edges::Category>EdgeCategory,parsing::edges::MetaInfo>EdgeMetaInfo,parsing::edges::metrics::UnitInfo>UnitInfo,generating::edges::metrics::UnitInfo>GenUnitInfo,generating::edges::MetaInfo>GenMetaInfo,generating::edges::merge::Category>MergeCategory]
%from
    arm generating::edges::Category::Calc { result, a, b }
%sig
fn gen_calc(graph: &mut Graph, result: &GenMetric, a: &GenMetric, b: &GenMetric) -> Result<(), Msg>
%tail
    Ok(())
%spec
    requires aligned(old(graph)),
    ensures r is Err ==> !calculable(result.unit, a.unit, b.unit), r is Ok ==> (exists|ka: int, kb: int| #[trigger] calc_rule(old(graph), final(graph), *result, *a, *b, ka, kb)) && aligned(final(graph)),
%start
    let ghost g0 = *graph;
%loop 0
    invariant i_0 <= graph.metrics@.len(), n_0 == graph.metrics@.len(), graph.metrics@.len() == g0.metrics@.len(), same_rest(graph, &g0), eq_ids(graph, &g0), same_cols(graph, &g0), graph.cats() == g0.cats(), aligned(&g0), at_id(g0.ids(), idc(a.id), metric_idx_a.0 as int), at_id(g0.ids(), idc(b.id), metric_idx_b.0 as int),
        forall|e: int| 0 <= e < i_0 ==> calc_row(g0.row(e), (#[trigger] graph.metrics@[e])@, result.unit, a.unit, metric_idx_a.0 as int, b.unit, metric_idx_b.0 as int), forall|e: int| i_0 <= e < g0.metrics@.len() ==> (#[trigger] graph.metrics@[e])@ == g0.row(e),
    decreases n_0 - i_0,
%loop 0 end
    proof { assert(graph.metrics@[x_0 as int]@.drop_last() =~= g0.row(x_0 as int)); }
%end
    proof { assert(graph.ids().drop_last() =~= g0.ids()); assert(graph.cats().drop_last() =~= g0.cats()); assert(calc_rule(&g0, graph, *result, *a, *b, metric_idx_a.0 as int, metric_idx_b.0 as int)); }
@@end
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=gen_meta; map=parsing::edges::Category>EdgeCategory,parsing::edges::MetaInfo>EdgeMetaInfo,parsing::edges::metrics::UnitInfo>UnitInfo,generating::edges::metrics::UnitInfo>GenUnitInfo,generating::edges::MetaInfo>GenMetaInfo,generating::edges::merge::Category>MergeCategory]
%from
    arm generating::edges::Category::Meta { info, id: new_id }
%sig
fn gen_meta(graph: &mut Graph, info: &GenMetaInfo, new_id: &SimpleId) -> Result<(), Msg>
%tail
    Ok(())
%spec
    requires aligned(old(graph)),
    ensures r is Err == (*info is ShortcutIdx0 || *info is ShortcutIdx1), r is Ok ==> meta_rule(old(graph), final(graph), *info, idc(*new_id)) && aligned(final(graph)),
%start
    let ghost g0 = *graph;
%loop 0
    invariant i_0 <= n_0, n_0 == graph.fwd_dsts@.len(), r_0@.len() == i_0, forall|e: int| 0 <= e < i_0 ==> #[trigger] r_0@[e] == Some(e as usize), *graph == g0,
    decreases n_0 - i_0,
%loop 1
    invariant i_1 <= n_1, n_1 == graph.fwd_dsts@.len(), r_1@.len() == i_1, forall|e: int| 0 <= e < i_1 ==> #[trigger] r_1@[e] == (e as usize, EdgeIdx(e as usize)),
    decreases n_1 - i_1,
%end
    proof { assert(graph.cats().drop_last() =~= g0.cats()); }
@@end
proof fn lem_line(map: Seq<(usize, EdgeIdx)>, eids: Seq<Option<usize>>, infos: Seq<MergeCategory>, c: int, w: Seq<int>, k: int, e: EdgeIdx)
    requires sorted_ids(map), ids_listed(eids, map), id_ok(map, infos, c, w, k), map.contains((p_usize(w[k])->0, e)),
    ensures e.0 < eids.len(), edge_of(map, p_usize(w[k])->0) == e.0, forall|j: int| #[trigger] at_info(infos, c, j) ==> j == k,
{
    let id = p_usize(w[k])->0; let i = choose|i: int| 0 <= i < map.len() && map[i] == (id, e); assert(map[i].1 == e);
    let f = choose|f: EdgeIdx| map.contains((id, f)); let j = choose|j: int| 0 <= j < map.len() && map[j] == (id, f);
    if i < j { assert(map[i].0 < map[j].0); } else if j < i { assert(map[j].0 < map[i].0); }
    assert forall|j: int| #[trigger] at_info(infos, c, j) implies j == k by { if j < k { assert(!is_info(infos[j], c)); } else if k < j { assert(!is_info(infos[k], c)); } }
}
proof fn lem_col(ids: Seq<SimpleId>, c: int, k: int) requires at_id(ids, c, k) ensures col_of(ids, c) == k
{ let j = col_of(ids, c); assert(at_id(ids, c, j)); if j < k { assert(idc(ids[j]) != c); } else if k < j { assert(idc(ids[k]) != c); } }
// ---------------------------------------------------------------- src/io/parsing/network/edges.rs
pub struct EdgesParser;
impl EdgesParser {
    // the check of the file's extension: unit exts proves it (EdgesParser::check_ext_support)
    #[verifier::external_body] pub fn check_ext_support(path: &PathBuf) -> (r: Result<(), Msg>) ensures r is Ok == csv(*path) { unimplemented!() }
/// a reader over the functional lines of the file, after the header
@@fn src/io/parsing/network/edges.rs :: Parser::new_reader [id=edges::Parser::new_reader; eager; map=io::network::edges::Parser>EdgesParser]
%sig
fn new_reader(path: &PathBuf, is_file_with_header: bool) -> err::Result<Vec<Str>>
%rw: OpenOptions::new().read(true).open(&path) => open_file(path)
%rw: reader.next() => skip_first(&mut reader)
%spec
    requires readable(*path),
    ensures r is Ok == csv(*path), r is Ok ==> r->Ok_0@.len() == merge_lines(*path, is_file_with_header).len() && forall|i: int| 0 <= i < r->Ok_0@.len() ==> code(#[trigger] r->Ok_0@[i]) == merge_lines(*path, is_file_with_header)[i],
%loop 0
    invariant i_0 <= s_0@.len(), s_0@.len() == content(*path).len(), forall|i: int| 0 <= i < s_0@.len() ==> (#[trigger] s_0@[i]) is Ok && code(s_0@[i]->Ok_0) == content(*path)[i],
        r_0@.len() == fl(content(*path), i_0 as int).len(), forall|i: int| 0 <= i < r_0@.len() ==> code(#[trigger] r_0@[i]) == fl(content(*path), i_0 as int)[i],
    decreases s_0@.len() - i_0,
@@end
}
pub fn skip_first(v: &mut Vec<Str>) -> (r: Option<Str>) ensures final(v)@ == (if old(v)@.len() > 0 { old(v)@.subrange(1, old(v)@.len() as int) } else { old(v)@ }) { if v.len() > 0 { Some(v.remove(0)) } else { None } }
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=gen_merge; derefeq; map=str>Str,io::network::edges::Parser>EdgesParser,parsing::edges::Category>EdgeCategory,parsing::edges::MetaInfo>EdgeMetaInfo,parsing::edges::metrics::UnitInfo>UnitInfo,generating::edges::metrics::UnitInfo>GenUnitInfo,generating::edges::MetaInfo>GenMetaInfo,generating::edges::merge::Category>MergeCategory]
%from
    arm generating::edges::Category::Merge { from, is_file_with_header, edge_id, edges_info, }
%sig
fn gen_merge(graph: &mut Graph, from: &PathBuf, is_file_with_header: &bool, edge_id: &SimpleId, edges_info: &Vec<MergeCategory>) -> Result<(), Msg>
%tail
    Ok(())
%spec
    requires aligned(old(graph)), ids_ok(old(graph)), readable(*from), forall|i: int| 0 <= i < flines(*from).len() ==> words(#[trigger] flines(*from)[i]).len() >= edges_info@.len(),
    ensures r is Ok ==> merge_rule(old(graph), final(graph), *from, *is_file_with_header, idc(*edge_id), edges_info@) && aligned(final(graph)),
        r is Err ==> !mergeable_into(old(graph), *from, *is_file_with_header, idc(*edge_id), edges_info@),
%start
    let ghost g0 = *graph; let ghost l = merge_lines(*from, *is_file_with_header); let ghost c = idc(*edge_id); let ghost infos = edges_info@; let ghost map = g0.edge_ids_to_idx_map@; let ghost ids = g0.ids(); let ghost rs = rows(&g0);
    proof { assert forall|i: int| 0 <= i < l.len() implies words(#[trigger] l[i]).len() >= infos.len() by { if *is_file_with_header && flines(*from).len() > 0 { assert(l[i] == flines(*from)[i + 1]); } } assert(rows(graph) =~= rs); }
%hint 0 v
%loop 0
    invariant *old(graph) == g0, l == merge_lines(*from, *is_file_with_header), i_0 <= reader@.len(), reader@.len() == l.len(), forall|i: int| 0 <= i < l.len() ==> code(#[trigger] reader@[i]) == l[i], forall|i: int| 0 <= i < l.len() ==> words(#[trigger] l[i]).len() >= infos.len(),
        same_rest(graph, &g0), eq_ids(graph, &g0), same_cols(graph, &g0), graph.cats() == g0.cats(), graph.metrics@.len() == g0.metrics@.len(), aligned(&g0), ids_ok(&g0), infos == edges_info@, c == idc(*edge_id), map == g0.edge_ids_to_idx_map@, ids == g0.ids(), wide(graph.metrics@, g0.dim()), rs == rows(&g0),
        rows(graph) == put_lines(rs, map, ids, infos, c, l, i_0 as int), forall|i: int| 0 <= i < i_0 ==> line_ok(map, infos, c, words(#[trigger] l[i])),
    decreases reader@.len() - i_0,
%loop 0 start
    let ghost w = words(l[x_0 as int]); let ghost a = rows(graph);
%loop 1
    invariant_except_break edge_idx is None, forall|j: int| 0 <= j < i_1 ==> !is_info(#[trigger] infos[j], c),
    invariant i_1 <= infos.len(), infos == edges_info@, c == idc(*edge_id), map == graph.edge_ids_to_idx_map@, sorted_ids(map), params@.len() == w.len(), w.len() >= infos.len(), forall|j: int| 0 <= j < w.len() ==> code(*(#[trigger] params@[j])) == w[j],
        *old(graph) == g0, 0 <= x_0 < l.len(), w == words(l[x_0 as int]), l == merge_lines(*from, *is_file_with_header),
    ensures edge_idx is Some ==> exists|k: int| #[trigger] id_ok(map, infos, c, w, k) && map.contains((p_usize(w[k])->0, edge_idx->0)),
        edge_idx is None ==> forall|j: int| 0 <= j < infos.len() ==> !is_info(#[trigger] infos[j], c),
    decreases infos.len() - i_1,
%before: break
    proof { let k = x_1 as int; assert(at_info(infos, c, k)); assert(map.contains((p_usize(w[k])->0, edge_idx->0))); assert(id_ok(map, infos, c, w, k)); }
%before: let raw_edge_id
    proof { assert(at_info(infos, c, x_1 as int)); assert forall|k: int| #[trigger] id_ok(map, infos, c, w, k) implies k == x_1 by { if k < x_1 { assert(!is_info(infos[k], c)); } } }
%after: let edge_idx = edge_idx.ok_or
    let ghost e = edge_idx.0 as int;
    proof { let k = choose|k: int| #[trigger] id_ok(map, infos, c, w, k) && map.contains((p_usize(w[k])->0, edge_idx)); lem_line(map, g0.edge_ids@, infos, c, w, k, edge_idx); assert(a[e].len() == g0.dim()); assert(graph.metrics@[e]@ == a[e]); }
%loop 2
    invariant *old(graph) == g0, 0 <= x_0 < l.len(), w == words(l[x_0 as int]), l == merge_lines(*from, *is_file_with_header), i_2 <= infos.len(), params@.len() == w.len(), w.len() >= infos.len(), forall|j: int| 0 <= j < w.len() ==> code(*(#[trigger] params@[j])) == w[j], e == edge_idx.0, 0 <= e < g0.m(),
        same_rest(graph, &g0), eq_ids(graph, &g0), same_cols(graph, &g0), graph.cats() == g0.cats(), graph.metrics@.len() == g0.metrics@.len(), aligned(&g0), ids_ok(&g0), infos == edges_info@, c == idc(*edge_id), map == g0.edge_ids_to_idx_map@, ids == g0.ids(), wide(graph.metrics@, g0.dim()), a.len() == g0.metrics@.len(), a[e].len() == g0.dim(),
        graph.metrics@[e]@ == put_cols(a[e], ids, infos, c, w, i_2 as int), forall|x: int| 0 <= x < a.len() && x != e ==> (#[trigger] graph.metrics@[x])@ == a[x],
        forall|j: int| 0 <= j < i_2 && infos[j] is Id && !is_info(infos[j], c) ==> p_f64(#[trigger] w[j]) is Some,
    decreases infos.len() - i_2,
%after: let metric_idx = graph.cfg.edges.metrics.idx_of(id)
    proof { lem_col(ids, idc(*id), metric_idx.0 as int); }
%loop 2 after
    proof { assert(line_ok(map, infos, c, w)); assert(rows(graph) =~= put_line(a, map, ids, infos, c, w)); assert(rows(graph) == put_lines(rs, map, ids, infos, c, l, x_0 + 1)); }
@@end
impl vstd::std_specs::convert::FromSpecImpl<GenNodeMetaInfo> for NodeMetaInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: GenNodeMetaInfo) -> NodeMetaInfo { ninfo(v) } }
impl From<GenNodeMetaInfo> for NodeMetaInfo {
@@fn src/configs/parsing/nodes/mod.rs :: MetaInfo as From<gen::MetaInfo>::from [nopub; id=NodeMetaInfo::fromGen; map=gen::MetaInfo>GenNodeMetaInfo,MetaInfo>NodeMetaInfo]
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<GenNodeCategory> for NodeCategory { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: GenNodeCategory) -> NodeCategory { match v { GenNodeCategory::Meta { info, id } => NodeCategory::Meta { info: ninfo(info), id } } } }
impl From<GenNodeCategory> for NodeCategory {
@@fn src/configs/parsing/nodes/mod.rs :: Category as From<gen::Category>::from [nopub; id=NodeCategory::fromGen; map=Category>NodeCategory,gen::Category>GenNodeCategory,gen::MetaInfo>GenNodeMetaInfo,MetaInfo>NodeMetaInfo]
@@end
}
proof fn lem_ngen(s: Seq<NodeCategory>, cs: Seq<GenNodeCategory>, t: Seq<NodeCategory>, u: Seq<NodeCategory>, n: int)
    requires ngen(s, cs, t, n), 0 <= n < cs.len(), u.len() == t.len() + 1, u.drop_last() =~= t, nmade(cs[n], u.last()), nfresh(t, t.len() as int, idc(cs[n]->id)), ensures ngen(s, cs, u, n + 1)
{ assert forall|i: int| 0 <= i < t.len() implies #[trigger] u[i] == t[i] by { assert(u.drop_last()[i] == t[i]); }
  assert forall|i: int| 0 <= i < n + 1 implies nmade(cs[i], #[trigger] u[s.len() + i]) && nfresh(u, s.len() + i, idc(cs[i]->id)) by {
      if i < n { assert(nmade(cs[i], t[s.len() + i])); assert(nfresh(t, s.len() + i, idc(cs[i]->id))); }
      assert forall|k: int| 0 <= k < s.len() + i implies !ncat_is(#[trigger] u[k], idc(cs[i]->id)) by { assert(!ncat_is(t[k], idc(cs[i]->id))); } } }
proof fn lem_same0(g: &Graph) ensures same_rest(g, g), eq_ids(g, g) {}
proof fn lem_done(g1: &Graph, g0: &Graph) requires nodes_done(g1, g0), aligned(g0), ids_ok(g0), ends_ok(g0) ensures aligned(g1), ids_ok(g1), ends_ok(g1) {}
proof fn lem_own(h: &Graph) requires own_ids(h), h.m() <= usize::MAX ensures ids_ok(h) {
    assert forall|e: int| 0 <= e < h.edge_ids@.len() && (#[trigger] h.edge_ids@[e]) is Some implies id_at(h.edge_ids_to_idx_map@, e) by { assert(h.edge_ids_to_idx_map@[e].1.0 == e); } }
proof fn lem_kept_by_rule(c: GenCategory, g: &Graph, h: &Graph)
    requires rule(c, g, h), ids_ok(g), ends_ok(g), aligned(h), aligned(g), h.m() <= usize::MAX
    ensures same_rest(h, g), ids_ok(h), ends_ok(h),
{ assert(same_rest(h, g)); assert(ends_ok(h)); if c is Meta && c->info is EdgeId { lem_own(h); } }
impl Clone for GenNodeCategory { #[verifier::external_body] fn clone(&self) -> (r: GenNodeCategory) ensures self is Meta ==> r is Meta && r->info == self->info && idc(r->id) == idc(self->id) { unimplemented!() } }
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_gen; derefeq; map=generating::nodes::Category>GenNodeCategory,generating::nodes::MetaInfo>GenNodeMetaInfo,parsing::nodes::Category>NodeCategory,generating::edges::Category>GenCategory,generating::edges::metrics::Category>GenMetric,parsing::edges::Category>EdgeCategory]
%from
    if let Some(generating_cfg) = graph.cfg.generating.take()
%to
    if graph.cfg().edges.metrics.are_normalized
%sig
fn fin_gen(graph: &mut Graph) -> Result<(), Msg>
%tail
    Ok(())
%cut: gen_meta
    gen_meta(graph, info, new_id)?;
%cut: gen_custom
    gen_custom(graph, unit, id, default)?;
%cut: gen_hav
    gen_hav(graph, unit, id)?;
%cut: gen_copy
    gen_copy(graph, from, to)?;
%cut: gen_conv
    gen_conv(graph, from, to)?;
%cut: gen_calc
    gen_calc(graph, result, a, b)?;
%cut: gen_merge
    gen_merge(graph, from, is_file_with_header, edge_id, edges_info)?;
%include fin_gen_spec.vrs
%attr
#[verifier::spinoff_prover]
#[verifier::rlimit(50)]
%start
    hide(generated); hide(fresh); hide(has_cat); hide(ids_ok); hide(aligned); hide(ends_ok); hide(rule); hide(ngen); let ghost g0 = *graph; let ghost mut c = g0.cfg.generating; let ghost mut gs: Seq<Graph> = seq![g0]; let ghost mut g1 = g0;
    proof { lem_same0(&g0); }
%loop 0
    invariant g0 == *old(graph), g0.cfg.generating == Some(generating_cfg), i_0 <= generating_cfg.nodes.categories@.len(), nodes_done(graph, &g0), ngen(g0.cfg.nodes.categories@, generating_cfg.nodes.categories@, graph.cfg.nodes.categories@, i_0 as int),
    decreases generating_cfg.nodes.categories@.len() - i_0,
%loop 0 end
    proof { lem_ngen(g0.cfg.nodes.categories@, generating_cfg.nodes.categories@, nc, graph.cfg.nodes.categories@, x_0 as int); }
%loop 0 start
    let ghost nc = graph.cfg.nodes.categories@; let ghost ncat = generating_cfg.nodes.categories@[x_0 as int];
    proof { if !(ncat is Meta && ncat->info is NodeIdx && nfresh(nc, nc.len() as int, idc(ncat->id))) { assert(nrefused(g0.cfg.nodes.categories@, generating_cfg.nodes.categories@, nc, x_0 as int)); } }
%loop 1
    invariant_except_break !r_1, forall|k: int| 0 <= k < i_1 ==> !ncat_is(#[trigger] graph.cfg.nodes.categories@[k], idc(*new_id)),
    invariant g0 == *old(graph), g0.cfg.generating == Some(generating_cfg), i_1 <= graph.cfg.nodes.categories@.len(),
    ensures r_1 == !nfresh(graph.cfg.nodes.categories@, graph.cfg.nodes.categories@.len() as int, idc(*new_id)),
    decreases graph.cfg.nodes.categories@.len() - i_1,
%loop 0 before
    proof { assert(ngen(g0.cfg.nodes.categories@, generating_cfg.nodes.categories@, graph.cfg.nodes.categories@, 0)) by { reveal(ngen); } }
%loop 2 before
    proof { assert(fresh(g0.cats(), generating_cfg.edges.categories@, 0)) by { reveal(fresh); } }
%loop 2 start
    let ghost ecat = generating_cfg.edges.categories@[x_2 as int];
    proof { if makes(ecat) is Some && has_cat(g0.cats(), makes(ecat)->0) { assert(!fresh(g0.cats(), generating_cfg.edges.categories@, generating_cfg.edges.categories@.len() as int)) by { reveal(fresh); } } }
%loop 2 end
    proof { assert(fresh(g0.cats(), generating_cfg.edges.categories@, x_2 + 1)) by { reveal(fresh); } }
%loop 3 after
    proof { assert(r_3 == has_cat(graph.cats(), idc(*new_id))) by { reveal(has_cat); } }
%loop 2
    invariant g0 == *old(graph), g0.cfg.generating == Some(generating_cfg), nodes_done(graph, &g0), ngen(g0.cfg.nodes.categories@, generating_cfg.nodes.categories@, graph.cfg.nodes.categories@, generating_cfg.nodes.categories@.len() as int), i_2 <= generating_cfg.edges.categories@.len(), fresh(g0.cats(), generating_cfg.edges.categories@, i_2 as int), g0.cats() == graph.cats(),
    decreases generating_cfg.edges.categories@.len() - i_2,
%loop 3
    invariant_except_break !r_3, forall|k: int| 0 <= k < i_3 ==> !cat_is(#[trigger] graph.cfg.edges.categories@[k], idc(*new_id)),
    invariant g0 == *old(graph), g0.cfg.generating == Some(generating_cfg), i_3 <= graph.cats().len(),
    ensures !r_3 ==> forall|k: int| 0 <= k < graph.cats().len() ==> !cat_is(#[trigger] graph.cfg.edges.categories@[k], idc(*new_id)),
        r_3 ==> exists|k: int| 0 <= k < graph.cats().len() && cat_is(#[trigger] graph.cfg.edges.categories@[k], idc(*new_id)),
    decreases graph.cats().len() - i_3,
%loop 4 before
    proof { gs = seq![*graph]; g1 = *graph; lem_done(&g1, &g0); }
%loop 4
    invariant g0 == *old(graph), g0.cfg.generating == Some(generating_cfg), nodes_done(&g1, &g0), ngen(g0.cfg.nodes.categories@, generating_cfg.nodes.categories@, g1.cfg.nodes.categories@, generating_cfg.nodes.categories@.len() as int), i_4 <= generating_cfg.edges.categories@.len(), all_mergeable(generating_cfg), aligned(graph), ids_ok(graph), ends_ok(graph), same_rest(graph, &g1), gs.len() == i_4 + 1, gs[0] == g1, gs.last() == *graph,
        forall|i: int| 0 <= i < i_4 ==> rule(#[trigger] generating_cfg.edges.categories@[i], &gs[i], &gs[i + 1]),
    decreases generating_cfg.edges.categories@.len() - i_4,
%loop 4 start
    let ghost gp = *graph; let ghost rc = generating_cfg.edges.categories@[x_4 as int]; assert(mergeable(rc));
    proof { if !possible(rc, graph) { assert(erefused(&g0, generating_cfg, gs, x_4 as int)); } }
%loop 4 end
    proof { assert(rule(rc, &gp, graph)) by { reveal(rule); } assert(graph.fwd_dsts.len() <= usize::MAX); lem_kept_by_rule(rc, &gp, graph); gs = gs.push(*graph); assert(gs[x_4 as int] == gp); }
%loop 4 after
    proof { assert(generated(&g0, graph, generating_cfg, gs)) by { reveal(generated); } }
@@end
// vacuity guards
fn must_fail_gen(graph: &mut Graph) -> (r: Result<(), Msg>)
    requires ends_ok(old(graph)), aligned(old(graph)), ids_ok(old(graph)), old(graph).cfg.generating is Some, all_mergeable(old(graph).cfg.generating->0),
    ensures r is Err,
{ fin_gen(graph) }
fn must_fail_merge(graph: &mut Graph, from: &PathBuf, h: bool, edge_id: &SimpleId, infos: &Vec<MergeCategory>) -> (r: Result<(), Msg>)
    requires aligned(old(graph)), ids_ok(old(graph)), readable(*from), forall|i: int| 0 <= i < flines(*from).len() ==> words(#[trigger] flines(*from)[i]).len() >= infos@.len(),
    ensures r is Ok ==> rows(final(graph)) == rows(old(graph)),
{ gen_merge(graph, from, &h, edge_id, infos) }
