// ---------------------------------------------------------------- the dependency osmpbfreader (assumed contract): a readable file is a sequence of objects (or unreadable pieces), the same on every pass
pub struct OsmNode { pub id: NodeId, pub tags: Tags, pub decimicro_lat: i32, pub decimicro_lon: i32 }
pub struct Relation { x: u8 }
pub enum OsmObj { Node(OsmNode), Way(Way), Relation(Relation) }
pub uninterp spec fn objs(p: PathBuf) -> Seq<Result<OsmObj, PErr>>;
#[verifier::external_body] pub fn pbf_objs(f: File) -> (r: Vec<Result<OsmObj, PErr>>) ensures r@ == objs(file_at(f)) { unimplemented!() }
pub fn vec_concat<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { let mut a = a; let mut b = b; a.append(&mut b); a }
#[verifier::external_body] pub fn sub_range<T: Copy>(v: &Vec<T>, r: Range<usize>) -> (o: Vec<T>) requires r.start <= r.end <= v.len() ensures o@ == v@.subrange(r.start as int, r.end as int) { v[r].to_vec() }
pub uninterp spec fn joined(a: int, b: int) -> int;
#[verifier::external_body] pub fn highway_entry(v: &Str) -> (r: Str) ensures code(r) == joined(STR("highway:") as int, code(*v)) { unimplemented!() }
impl Str { pub fn parse_StreetCategory(&self) -> (r: Result<StreetCategory, bool>) ensures r == street(lowered(trimmed(code(*self)))) { StreetCategory::from_str(self) } }

impl Coordinate {
@@fn /opt/vp/vendor/kissunits-2.0.0/src/geo.rs :: Coordinate::from_decimicro
%rw: (decimicro_lat as f64 * 1e-7) as f64 => to_f64(decimicro_lat) * f64_lit(1, 10000000)
%rw: (decimicro_lon as f64 * 1e-7) as f64 => to_f64(decimicro_lon) * f64_lit(1, 10000000)
%spec
    ensures r.lat@ == deg(decimicro_lat), r.lon@ == deg(decimicro_lon),
@@end
}
/// degrees from 1e-7 degrees
pub open spec fn deg(d: i32) -> Ext { emul(Ext::Fin(d as real), Ext::Fin(1real / 10000000real)) }
use core::ops::Range;
/// the category a way has by its tags
pub open spec fn cat_of(w: Way) -> Option<StreetCategory> { match tag_of(w.tags, STR("highway") as int) { None => None, Some(v) => match street(lowered(trimmed(joined(STR("highway:") as int, v)))) { Ok(c) => Some(c), Err(_) => None } } }
impl StreetCategory {
@@fn src/defaults.rs :: StreetCategory::from
%rw: format!("highway:{}", highway_tag_value) => highway_entry(highway_tag_value)
%spec
    ensures r == cat_of(*way),
@@end
}
// ---------------------------------------------------------------- what a way becomes
pub open spec fn oneway_of(w: Way) -> (bool, bool) { match tag_of(w.tags, STR("oneway") as int) { None => (false, false), Some(t) => oneway(lowered(trimmed(t))) } }
pub open spec fn speed_of(c: StreetCategory, w: Way) -> real { match tag_of(w.tags, STR("maxspeed") as int) { None => doc_speed(c), Some(t) => match p_u16(t) { Some(v) => if v < 5 { 5real } else { v as real }, None => tag_speed(c, lowered(trimmed(t))) } } }
pub open spec fn ids(n: Seq<NodeId>) -> Seq<i64> { Seq::new(n.len(), |i: int| n[i].0) }
/// the way's nodes in its driving direction
pub open spec fn driven(w: Way) -> Seq<i64> { if oneway_of(w).1 { ids(w.nodes@).reverse() } else { ids(w.nodes@) } }
/// ... and back, unless it is a one-way street
pub open spec fn walk(w: Way) -> Seq<i64> { if oneway_of(w).0 { driven(w) } else { driven(w) + driven(w).drop_last().reverse() } }
pub open spec fn step(s: Seq<i64>, m: Seq<F64>, i: int) -> In { In { id: None, src: s[i], dst: s[i + 1], metrics: m, sc: None } }
pub open spec fn steps(s: Seq<i64>, m: Seq<F64>, n: int) -> Seq<In> { Seq::new(n as nat, |i: int| step(s, m, i)) }
pub open spec fn is_speed(c: EdgeCategory) -> bool { c is Metric && c->Metric_unit is KilometersPerHour }
pub open spec fn is_lanes(c: EdgeCategory) -> bool { c is Metric && c->Metric_unit is LaneCount }
/// the values of the first n configured columns: speeds by tag or table, lane counts at least one
pub open spec fn mets_ok(cats: Seq<EdgeCategory>, n: int, c: StreetCategory, w: Way, m: Seq<F64>) -> bool decreases n {
    if n <= 0 { m.len() == 0 }
    else if is_speed(cats[n - 1]) { m.len() > 0 && m.last()@ == Ext::Fin(speed_of(c, w)) && mets_ok(cats, n - 1, c, w, m.drop_last()) }
    else if is_lanes(cats[n - 1]) { m.len() > 0 && ele(Ext::Fin(1real), m.last()@) && mets_ok(cats, n - 1, c, w, m.drop_last()) }
    else { mets_ok(cats, n - 1, c, w, m) } }
pub open spec fn use_for(v: VehiclesConfig, c: StreetCategory) -> Use { match v.category { VehicleCategory::Car => doc_car(c), VehicleCategory::Bicycle => doc_bicycle(c), VehicleCategory::Pedestrian => doc_pedestrian(c) } }
/// what was made of an object
pub struct Made { pub used: bool, pub metrics: Seq<F64> }
pub open spec fn is_way(o: Result<OsmObj, PErr>) -> bool { o is Ok && o->Ok_0 is Way }
pub open spec fn the_way(o: Result<OsmObj, PErr>) -> Way { o->Ok_0->Way_0 }
pub open spec fn made_ok(cfg: ParsingConfig, o: Result<OsmObj, PErr>, m: Made) -> bool {
    if is_way(o) && the_way(o).nodes@.len() >= 2 && cat_of(the_way(o)) is Some {
        &&& use_ok(use_for(cfg.vehicles, cat_of(the_way(o))->0), cfg.vehicles.are_drivers_picky, m.used)
        &&& m.used ==> mets_ok(cfg.edges.categories@, cfg.edges.categories@.len() as int, cat_of(the_way(o))->0, the_way(o), m.metrics)
    } else { !m.used } }
/// the edges of the first n objects, in order
pub open spec fn made(o: Seq<Result<OsmObj, PErr>>, m: Seq<Made>, n: int) -> Seq<In> decreases n {
    if n <= 0 { Seq::<In>::empty() } else if m[n - 1].used { made(o, m, n - 1) + steps(walk(the_way(o[n - 1])), m[n - 1].metrics, walk(the_way(o[n - 1])).len() - 1) } else { made(o, m, n - 1) } }
pub open spec fn all_made(cfg: ParsingConfig, o: Seq<Result<OsmObj, PErr>>, m: Seq<Made>, n: int) -> bool { m.len() == o.len() && forall|k: int| 0 <= k < n ==> made_ok(cfg, #[trigger] o[k], m[k]) }
pub open spec fn size(o: Seq<Result<OsmObj, PErr>>, n: int) -> nat decreases n { if n <= 0 { 0 } else { size(o, n - 1) + (if is_way(o[n - 1]) { the_way(o[n - 1]).nodes@.len() } else { 0 }) } }
proof fn lem_size(o: Seq<Result<OsmObj, PErr>>, a: int, n: int) requires 0 <= a <= n ensures size(o, a) <= size(o, n) decreases n { if n > a { lem_size(o, a, n - 1); } }
proof fn lem_made(o: Seq<Result<OsmObj, PErr>>, m: Seq<Made>, k: int, x: Made, n: int) requires 0 <= n <= k < m.len() ensures made(o, m.update(k, x), n) == made(o, m, n) decreases n
{ if n > 0 { lem_made(o, m, k, x, n - 1); } }
/// the columns a pbf file can serve
pub open spec fn pcol_ok(c: EdgeCategory) -> bool { match c { EdgeCategory::Meta { info, id } => info is SrcId || info is DstId, EdgeCategory::Metric { unit, id } => unit is KilometersPerHour || unit is LaneCount, EdgeCategory::Ignored => true } }
pub open spec fn pcfg_ok(c: ParsingConfig) -> bool { cfg_ok(c) && forall|k: int| 0 <= k < c.edges.categories@.len() ==> pcol_ok(#[trigger] c.edges.categories@[k]) }
/// the last node object with this id among the first n
pub open spec fn is_node(o: Result<OsmObj, PErr>, x: i64) -> bool { o is Ok && o->Ok_0 is Node && o->Ok_0->Node_0.id.0 == x }
pub open spec fn at(o: Seq<Result<OsmObj, PErr>>, x: i64, n: int) -> int decreases n { if n <= 0 { -1 } else if is_node(o[n - 1], x) { n - 1 } else { at(o, x, n - 1) } }
pub open spec fn placed(a: Option<Coordinate>, b: Option<Coordinate>, o: Seq<Result<OsmObj, PErr>>, x: i64, n: int) -> bool {
    let k = at(o, x, n);
    if k >= 0 { b is Some && b->0.lat@ == deg(o[k]->Ok_0->Node_0.decimicro_lat) && b->0.lon@ == deg(o[k]->Ok_0->Node_0.decimicro_lon) } else { b == a } }
proof fn lem_walk(w: Way, d: Seq<NodeId>, n: Seq<i64>)
    requires w.nodes@.len() >= 2, d == (if oneway_of(w).1 { w.nodes@.reverse() } else { w.nodes@ }), n == ids(d).subrange(0, d.len() as int) + ids(d.subrange(0, if oneway_of(w).0 { 0 } else { d.len() - 1 })).reverse().subrange(0, if oneway_of(w).0 { 0 } else { d.len() - 1 }),
    ensures n == walk(w), n.len() <= 2 * w.nodes@.len(), n.len() >= 1,
{
    assert(ids(d) =~= driven(w)); assert(ids(d).subrange(0, d.len() as int) =~= driven(w));
    if oneway_of(w).0 { assert(n =~= walk(w)); }
    else { assert(ids(d.subrange(0, d.len() - 1)) =~= driven(w).drop_last()); assert(n =~= walk(w)); }
}
@@item src/io/parsing/network/graph/pbf.rs :: Parser
impl Parser {
@@fn src/io/parsing/network/graph/pbf.rs :: Parser::new
@@end
@@fn src/io/parsing/network/graph/pbf.rs :: Parser as super::Parsing::preprocess [map=parsing::Config>ParsingConfig,edges::Category>EdgeCategory,edges::MetaInfo>EdgeMetaInfo,edges::metrics::UnitInfo>UnitInfo,str>Str]
%spec
    requires gdim(*cfg) <= usize::MAX,
    ensures r is Ok == pcfg_ok(*cfg),
%loop 0
    invariant i_0 <= cfg.edges.categories@.len(), cfg_ok(*cfg), forall|k: int| 0 <= k < i_0 ==> pcol_ok(#[trigger] cfg.edges.categories@[k]),
    decreases cfg.edges.categories@.len() - i_0,
@@end
@@fn src/io/parsing/network/graph/pbf.rs :: Parser as super::Parsing::parse_ways [map=edges::Category>EdgeCategory,edges::metrics::UnitInfo>UnitInfo]
%rw: OpenOptions::new().read(true).open(&builder.cfg().map_file) => open_file(&builder.cfg().map_file)
%rw: OsmPbfReader::new(file).par_iter() => pbf_objs(file)
%rw: way.nodes[iter_range].iter() => sub_range(&way.nodes, iter_range)
%hint 0 v
%spec
    requires old(builder).ok(), readable(old(builder).cfg.map_file), old(builder).node_ids@.len() + 4 * size(objs(old(builder).cfg.map_file), objs(old(builder).cfg.map_file).len() as int) + 4 < usize::MAX,
    ensures r is Ok, final(builder).ok(), final(builder).cfg == old(builder).cfg, read_ways(*old(builder), *final(builder)),
%start
    let ghost b0 = *builder; let ghost o = objs(b0.cfg.map_file); let ghost cs = b0.cfg.edges.categories@;
%loop 0 before
    let ghost mut ms = Seq::new(o.len(), |i: int| Made { used: false, metrics: Seq::<F64>::empty() });
    proof { assert(builder.ins() =~= b0.ins() + made(o, ms, 0)); }
%loop 0
    invariant b0 == *old(builder), o == objs(b0.cfg.map_file), cs == b0.cfg.edges.categories@, i_0 <= o.len(), s_0@ == o,
        builder.ok(), builder.cfg == b0.cfg, all_made(b0.cfg, o, ms, i_0 as int), builder.ins() == b0.ins() + made(o, ms, i_0 as int),
        forall|k: int| i_0 <= k < o.len() ==> !(#[trigger] ms[k]).used,
        builder.node_ids@.len() <= b0.node_ids@.len() + 4 * size(o, i_0 as int), b0.node_ids@.len() + 4 * size(o, o.len() as int) + 4 < usize::MAX,
    decreases o.len() - i_0,
%loop 0 start
    let ghost way0 = way; let ghost pre = *builder;
    proof { assert(is_way(o[x_0 as int]) && the_way(o[x_0 as int]) == way0); lem_size(o, i_0 as int, o.len() as int); }
%loop 1
    invariant i_1 <= way.nodes@.len(), r_1@ == ids(way.nodes@).subrange(0, i_1 as int),
    decreases way.nodes@.len() - i_1,
%loop 1 before
    proof { assert(r_1@ =~= ids(way.nodes@).subrange(0, 0)); }
%loop 1 end
    proof { assert(r_1@ =~= ids(way.nodes@).subrange(0, i_1 as int)); }
%loop 2
    invariant i_2 <= s_2@.len(), r_2@ == ids(s_2@).reverse().subrange(0, i_2 as int),
    decreases s_2@.len() - i_2,
%loop 2 before
    proof { assert(r_2@ =~= ids(s_2@).reverse().subrange(0, 0)); }
%loop 2 end
    proof { assert(r_2@ =~= ids(s_2@).reverse().subrange(0, i_2 as int)); }
%before: let mut metrics: DimVec<_> = smallvec![];
    proof { lem_walk(way0, way.nodes@, nodes@); assert(nodes@ == walk(way0)); }
%loop 3
    invariant s_3@ == cs, cs == b0.cfg.edges.categories@, i_3 <= cs.len(), way.tags == way0.tags, mets_ok(cs, i_3 as int, highway_tag, way0, metrics@),
    decreases cs.len() - i_3,
%loop 3 start
    let ghost m0 = metrics@;
%loop 3 end
    proof { if is_speed(cs[x_3 as int]) || is_lanes(cs[x_3 as int]) { assert(metrics@.drop_last() =~= m0); } }
%loop 4 before
    proof { assert(builder.ins() =~= pre.ins() + steps(nodes@, metrics@, 0)); }
%loop 4
    invariant n_4 == nodes@.len() - 1, i_4 <= n_4, builder.ok(), builder.cfg == b0.cfg, builder.ins() == pre.ins() + steps(nodes@, metrics@, i_4 as int), builder.node_ids@.len() <= pre.node_ids@.len() + 2 * i_4,
        nodes@.len() <= 2 * way0.nodes@.len(), pre.node_ids@.len() + 4 * way0.nodes@.len() + 4 < usize::MAX,
    decreases n_4 - i_4,
%loop 4 end
    proof { assert(builder.ins() =~= pre.ins() + steps(nodes@, metrics@, i_4 as int)); }
%loop 0 end
    proof {
        let ms0 = ms; ms = ms.update(x_0 as int, Made { used: true, metrics: metrics@ });
        lem_made(o, ms0, x_0 as int, Made { used: true, metrics: metrics@ }, x_0 as int);
        assert(builder.ins() =~= b0.ins() + made(o, ms, i_0 as int));
        assert forall|k: int| 0 <= k < i_0 implies made_ok(b0.cfg, #[trigger] o[k], ms[k]) by { if k < x_0 { assert(ms[k] == ms0[k]); } }
    }
%loop 0 after
    proof { assert(read_ways(b0, *builder)); }
@@end
@@fn src/io/parsing/network/graph/pbf.rs :: Parser as super::Parsing::parse_nodes
%rw: OpenOptions::new().read(true).open(&cfg.map_file) => open_file(&cfg.map_file)
%rw: OsmPbfReader::new(file).par_iter() => pbf_objs(file)
%hint 0 v
%spec
    requires old(builder).ok(), readable(old(builder).cfg.map_file),
    ensures r is Ok, final(builder).ok(), final(builder).cfg == old(builder).cfg, read_nodes(*old(builder), *final(builder), objs(old(builder).cfg.map_file).len() as int),
%start
    let ghost b0 = *builder; let ghost o = objs(b0.cfg.map_file);
%loop 0
    invariant b0 == *old(builder), o == objs(b0.cfg.map_file), i_0 <= o.len(), s_0@ == o, builder.ok(), builder.cfg == b0.cfg, read_nodes(b0, *builder, i_0 as int),
    decreases o.len() - i_0,
%loop 0 start
    let ghost pre = *builder;
    proof { assert(o[x_0 as int] is Ok && o[x_0 as int]->Ok_0 is Node && o[x_0 as int]->Ok_0->Node_0 == node); }
%loop 0 end
    proof { assert(builder.node_ch_levels@ =~= b0.node_ch_levels@) by { assert forall|i: int| 0 <= i < b0.node_ids@.len() implies #[trigger] builder.node_ch_levels@[i] == pre.node_ch_levels@[i] by {} } assert forall|i: int| 0 <= i < b0.node_ids@.len() implies placed(b0.node_coords@[i], #[trigger] builder.node_coords@[i], o, b0.node_ids@[i], i_0 as int) by { assert(placed(b0.node_coords@[i], pre.node_coords@[i], o, b0.node_ids@[i], x_0 as int)); } }
@@end
}
pub open spec fn read_nodes(a: NodeBuilder, b: NodeBuilder, n: int) -> bool {
    &&& b.ins() == a.ins() && b.node_ids@ == a.node_ids@ && b.node_ch_levels@ == a.node_ch_levels@
    &&& forall|i: int| 0 <= i < a.node_ids@.len() ==> placed(a.node_coords@[i], #[trigger] b.node_coords@[i], objs(a.cfg.map_file), a.node_ids@[i], n) }
pub open spec fn read_ways(a: EdgeBuilder, b: EdgeBuilder) -> bool { exists|m: Seq<Made>| all_made(a.cfg, objs(a.cfg.map_file), m, objs(a.cfg.map_file).len() as int) && b.ins() == a.ins() + #[trigger] made(objs(a.cfg.map_file), m, objs(a.cfg.map_file).len() as int) }
pub open spec fn way_edges(cfg: ParsingConfig, e: Seq<In>) -> bool { let o = objs(cfg.map_file); exists|m: Seq<Made>| all_made(cfg, o, m, o.len() as int) && e == #[trigger] made(o, m, o.len() as int) }
proof fn lem_read_ways(cfg: ParsingConfig, a: EdgeBuilder, b: EdgeBuilder) requires a.cfg == cfg, read_ways(a, b), a.ins() == Seq::<In>::empty(), ensures way_edges(cfg, b.ins())
{ let o = objs(cfg.map_file); let m = choose|m: Seq<Made>| all_made(a.cfg, objs(a.cfg.map_file), m, objs(a.cfg.map_file).len() as int) && b.ins() == a.ins() + #[trigger] made(objs(a.cfg.map_file), m, objs(a.cfg.map_file).len() as int); assert(b.ins() =~= made(o, m, o.len() as int)); }
impl Parser {
@@fn src/io/parsing/network/graph/mod.rs :: Parsing::parse [id=Parsing::parse; map=parsing::Config>ParsingConfig]
%spec
    requires readable(cfg.map_file), gdim(cfg) <= usize::MAX, 4 * size(objs(cfg.map_file), objs(cfg.map_file).len() as int) + 4 < usize::MAX,
    ensures r is Ok == pcfg_ok(cfg), r is Ok ==> r->Ok_0.ok() && r->Ok_0.cfg == cfg && read_all(cfg, r->Ok_0),
%before: self.parse_ways(&mut builder)?;
    let ghost b1 = builder;
%after: self.parse_ways(&mut builder)?;
    proof { assert(b1.ins() =~= Seq::<In>::empty()); lem_read_ways(cfg, b1, builder); }
@@end
}
/// what is handed to `finalize`
pub open spec fn read_all(cfg: ParsingConfig, b: GraphBuilder) -> bool {
    let (o, n) = (objs(cfg.map_file), objs(cfg.map_file).len() as int);
    &&& way_edges(cfg, b.ins())
    &&& forall|i: int| 0 <= i < b.node_ids@.len() ==> placed(None, #[trigger] b.node_coords@[i], o, b.node_ids@[i], n)
}
// ---------------------------------------------------------------- C12 over these contracts
/// from a to b in the list
pub open spec fn leg(s: Seq<i64>, i: int, a: i64, b: i64) -> bool { 0 <= i < s.len() - 1 && s[i] == a && s[i + 1] == b }
/// a two-way street is passable in both directions between neighbours, and only between neighbours
proof fn c12_two_way(w: Way, m: Seq<F64>, i: int)
    requires w.nodes@.len() >= 2, !oneway_of(w).0, !oneway_of(w).1, 0 <= i < walk(w).len() - 1,
    ensures ({ let l = w.nodes@.len() as int; let e = steps(walk(w), m, walk(w).len() - 1); &&& e.len() == 2 * (l - 1)
        &&& i < l - 1 ==> e[i] == (In { id: None, src: w.nodes@[i].0, dst: w.nodes@[i + 1].0, metrics: m, sc: None })
        &&& i >= l - 1 ==> e[i] == (In { id: None, src: w.nodes@[2 * l - 2 - i].0, dst: w.nodes@[2 * l - 3 - i].0, metrics: m, sc: None }) }),
{ }
/// a one-way street only along its direction
proof fn c12_one_way(w: Way, m: Seq<F64>, i: int)
    requires w.nodes@.len() >= 2, oneway_of(w).0, 0 <= i < w.nodes@.len() - 1,
    ensures ({ let l = w.nodes@.len() as int; let e = steps(walk(w), m, walk(w).len() - 1); &&& e.len() == l - 1
        &&& !oneway_of(w).1 ==> e[i] == (In { id: None, src: w.nodes@[i].0, dst: w.nodes@[i + 1].0, metrics: m, sc: None })
        &&& oneway_of(w).1 ==> e[i] == (In { id: None, src: w.nodes@[l - 1 - i].0, dst: w.nodes@[l - 2 - i].0, metrics: m, sc: None }) }),
{ }
/// the reverse flag comes with one-way streets only
proof fn c12_reverse(w: Way) ensures oneway_of(w).1 ==> oneway_of(w).0 {}
fn must_fail_pbf(p: &mut Parser, cfg: ParsingConfig) -> (r: Result<GraphBuilder, Msg>)
    requires readable(cfg.map_file), gdim(cfg) <= usize::MAX, 4 * size(objs(cfg.map_file), objs(cfg.map_file).len() as int) + 4 < usize::MAX, pcfg_ok(cfg), objs(cfg.map_file).len() > 2,
    ensures false,
{ p.parse(cfg) }
