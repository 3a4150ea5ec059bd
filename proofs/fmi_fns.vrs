// ---------------------------------------------------------------- one line
@@item src/defaults.rs :: NO_SHORTCUT_IDX [mod=parsing]
/// an edge id: a number, with or without the prefix "ch"
pub open spec fn eid(w: int) -> Option<usize> { match p_usize(w) { Some(v) => Some(v), None => if spre(w, STR("ch") as int) { p_usize(stail(w, 2)) } else { None } } }
/// the word fits the column
pub open spec fn col_ok(c: EdgeCategory, w: int) -> bool { match c {
    EdgeCategory::Meta { info, id } => match info {
        EdgeMetaInfo::EdgeId => eid(w) is Some,
        EdgeMetaInfo::SrcId | EdgeMetaInfo::DstId => p_i64(w) is Some,
        EdgeMetaInfo::ShortcutIdx0 | EdgeMetaInfo::ShortcutIdx1 => w == STR("-1") || p_usize(w) is Some,
        _ => false },
    EdgeCategory::Metric { unit, id } => p_f64(w) is Some,
    EdgeCategory::Ignored => true } }
/// the last of the first n columns with this meaning, -1 if there is none
pub open spec fn last(cats: Seq<EdgeCategory>, i: EdgeMetaInfo, n: int) -> int decreases n { if n <= 0 { -1 } else if is_meta(cats[n - 1], i) { n - 1 } else { last(cats, i, n - 1) } }
/// ... holding a shortcut reference
pub open spec fn lasts(cats: Seq<EdgeCategory>, w: Seq<int>, i: EdgeMetaInfo, n: int) -> int decreases n { if n <= 0 { -1 } else if is_meta(cats[n - 1], i) && w[n - 1] != STR("-1") { n - 1 } else { lasts(cats, w, i, n - 1) } }
pub open spec fn mets(cats: Seq<EdgeCategory>, w: Seq<int>, n: int) -> Seq<F64> decreases n { if n <= 0 { Seq::<F64>::empty() } else if cats[n - 1] is Metric { mets(cats, w, n - 1).push(p_f64(w[n - 1])->0) } else { mets(cats, w, n - 1) } }
pub open spec fn only(cats: Seq<EdgeCategory>, i: EdgeMetaInfo, n: int) -> bool { forall|k: int| 0 <= k < n && is_meta(#[trigger] cats[k], i) ==> k == last(cats, i, n) }
pub open spec fn onlys(cats: Seq<EdgeCategory>, w: Seq<int>, i: EdgeMetaInfo, n: int) -> bool { forall|k: int| 0 <= k < n && is_meta(#[trigger] cats[k], i) && w[k] != STR("-1") ==> k == lasts(cats, w, i, n) }
/// the line can be read: enough words, each fits, exactly one source and one destination, at most one reference per side
pub open spec fn edge_ok(cats: Seq<EdgeCategory>, w: Seq<int>) -> bool {
    let n = cats.len() as int;
    &&& n <= w.len()
    &&& forall|k: int| 0 <= k < n ==> col_ok(#[trigger] cats[k], w[k])
    &&& only(cats, EdgeMetaInfo::SrcId, n) && last(cats, EdgeMetaInfo::SrcId, n) >= 0
    &&& only(cats, EdgeMetaInfo::DstId, n) && last(cats, EdgeMetaInfo::DstId, n) >= 0
    &&& onlys(cats, w, EdgeMetaInfo::ShortcutIdx0, n) && onlys(cats, w, EdgeMetaInfo::ShortcutIdx1, n)
}
pub open spec fn edge_of(cats: Seq<EdgeCategory>, w: Seq<int>) -> In {
    let n = cats.len() as int;
    In { id: if last(cats, EdgeMetaInfo::EdgeId, n) >= 0 { eid(w[last(cats, EdgeMetaInfo::EdgeId, n)]) } else { None },
        src: p_i64(w[last(cats, EdgeMetaInfo::SrcId, n)])->0, dst: p_i64(w[last(cats, EdgeMetaInfo::DstId, n)])->0, metrics: mets(cats, w, n),
        sc: if lasts(cats, w, EdgeMetaInfo::ShortcutIdx0, n) >= 0 && lasts(cats, w, EdgeMetaInfo::ShortcutIdx1, n) >= 0 {
            Some([EdgeIdx(p_usize(w[lasts(cats, w, EdgeMetaInfo::ShortcutIdx0, n)])->0), EdgeIdx(p_usize(w[lasts(cats, w, EdgeMetaInfo::ShortcutIdx1, n)])->0)]) } else { None } }
}
pub open spec fn in_of(e: ProtoShortcut) -> In { In { id: e.proto_edge.id, src: e.proto_edge.src_id, dst: e.proto_edge.dst_id, metrics: e.proto_edge.metrics@, sc: e.sc_edges } }
pub open spec fn held(o: Option<usize>, cats: Seq<EdgeCategory>, w: Seq<int>, i: EdgeMetaInfo, n: int) -> bool {
    &&& o is Some == (lasts(cats, w, i, n) >= 0)
    &&& o is Some ==> lasts(cats, w, i, n) < n && o == p_usize(w[lasts(cats, w, i, n)])
    &&& onlys(cats, w, i, n)
}
pub open spec fn held_id(o: Option<i64>, cats: Seq<EdgeCategory>, w: Seq<int>, i: EdgeMetaInfo, n: int) -> bool {
    &&& o is Some == (last(cats, i, n) >= 0)
    &&& o is Some ==> last(cats, i, n) < n && o == p_i64(w[last(cats, i, n)])
    &&& only(cats, i, n)
}
proof fn lem_last(cats: Seq<EdgeCategory>, i: EdgeMetaInfo, n: int) requires 0 <= n <= cats.len(),
    ensures last(cats, i, n) < n, last(cats, i, n) >= -1, last(cats, i, n) >= 0 ==> is_meta(cats[last(cats, i, n)], i), forall|k: int| last(cats, i, n) < k < n ==> !is_meta(#[trigger] cats[k], i) decreases n
{ if n > 0 { lem_last(cats, i, n - 1); } }
proof fn lem_lasts(cats: Seq<EdgeCategory>, w: Seq<int>, i: EdgeMetaInfo, n: int) requires 0 <= n <= cats.len(),
    ensures lasts(cats, w, i, n) < n, lasts(cats, w, i, n) >= -1, lasts(cats, w, i, n) >= 0 ==> is_meta(cats[lasts(cats, w, i, n)], i) && w[lasts(cats, w, i, n)] != STR("-1"), forall|k: int| lasts(cats, w, i, n) < k < n ==> !(is_meta(#[trigger] cats[k], i) && w[k] != STR("-1")) decreases n
{ if n > 0 { lem_lasts(cats, w, i, n - 1); } }
/// two columns of the same kind: the line cannot be read
proof fn lem_two(cats: Seq<EdgeCategory>, i: EdgeMetaInfo, a: int, b: int) requires 0 <= a < b < cats.len(), is_meta(cats[a], i), is_meta(cats[b], i), ensures !only(cats, i, cats.len() as int)
{ lem_last(cats, i, cats.len() as int); }
proof fn lem_twos(cats: Seq<EdgeCategory>, w: Seq<int>, i: EdgeMetaInfo, a: int, b: int) requires 0 <= a < b < cats.len(), is_meta(cats[a], i), is_meta(cats[b], i), w[a] != STR("-1"), w[b] != STR("-1"), ensures !onlys(cats, w, i, cats.len() as int)
{ lem_lasts(cats, w, i, cats.len() as int); }
impl ProtoShortcut {
@@fn src/io/parsing/network/graph/fmi.rs :: ProtoShortcut::try_from_str [map=parsing::edges::Category>EdgeCategory,String>Msg,str>Str]
%path: edges::Category => EdgeCategory
%path: edges::MetaInfo => EdgeMetaInfo
%rw: defaults::parsing::NO_SHORTCUT_IDX => NO_SHORTCUT_IDX()
%spec
    ensures r is Ok == edge_ok(categories@, words(code(*line))), r is Ok ==> in_of(r->Ok_0) == edge_of(categories@, words(code(*line))),
%start
    let ghost w = words(code(*line)); let ghost cs = categories@;
%loop 0
        invariant i_0 <= cs.len(), cs == categories@, w == words(code(*line)), params@.len() == w.len(), forall|i: int| 0 <= i < w.len() ==> code(*(#[trigger] params@[i])) == w[i],
            i_0 <= w.len(), forall|k: int| 0 <= k < i_0 ==> col_ok(#[trigger] cs[k], w[k]),
            edge_id == (if last(cs, EdgeMetaInfo::EdgeId, i_0 as int) >= 0 { eid(w[last(cs, EdgeMetaInfo::EdgeId, i_0 as int)]) } else { None }),
            held_id(src_id, cs, w, EdgeMetaInfo::SrcId, i_0 as int), held_id(dst_id, cs, w, EdgeMetaInfo::DstId, i_0 as int),
            held(sc_edge_0, cs, w, EdgeMetaInfo::ShortcutIdx0, i_0 as int), held(sc_edge_1, cs, w, EdgeMetaInfo::ShortcutIdx1, i_0 as int),
            metric_values@ == mets(cs, w, i_0 as int),
        decreases cs.len() - i_0,
%loop 0 start
        proof {
            lem_last(cs, EdgeMetaInfo::SrcId, x_0 as int); lem_last(cs, EdgeMetaInfo::DstId, x_0 as int); lem_last(cs, EdgeMetaInfo::EdgeId, x_0 as int);
            lem_lasts(cs, w, EdgeMetaInfo::ShortcutIdx0, x_0 as int); lem_lasts(cs, w, EdgeMetaInfo::ShortcutIdx1, x_0 as int);
            if is_meta(cs[x_0 as int], EdgeMetaInfo::SrcId) && src_id is Some { lem_two(cs, EdgeMetaInfo::SrcId, last(cs, EdgeMetaInfo::SrcId, x_0 as int), x_0 as int); }
            if is_meta(cs[x_0 as int], EdgeMetaInfo::DstId) && dst_id is Some { lem_two(cs, EdgeMetaInfo::DstId, last(cs, EdgeMetaInfo::DstId, x_0 as int), x_0 as int); }
            if x_0 < w.len() && is_meta(cs[x_0 as int], EdgeMetaInfo::ShortcutIdx0) && w[x_0 as int] != STR("-1") && sc_edge_0 is Some { lem_twos(cs, w, EdgeMetaInfo::ShortcutIdx0, lasts(cs, w, EdgeMetaInfo::ShortcutIdx0, x_0 as int), x_0 as int); }
            if x_0 < w.len() && is_meta(cs[x_0 as int], EdgeMetaInfo::ShortcutIdx1) && w[x_0 as int] != STR("-1") && sc_edge_1 is Some { lem_twos(cs, w, EdgeMetaInfo::ShortcutIdx1, lasts(cs, w, EdgeMetaInfo::ShortcutIdx1, x_0 as int), x_0 as int); }
        }
@@end
}
pub open spec fn ncol_ok(c: NodeCategory, w: int) -> bool { match c {
    NodeCategory::Meta { info, id } => match info { NodeMetaInfo::NodeId => p_i64(w) is Some, NodeMetaInfo::CHLevel => p_usize(w) is Some, _ => false },
    NodeCategory::Metric { unit, id } => match unit { NodeUnitInfo::Latitude | NodeUnitInfo::Longitude => p_f64(w) is Some, _ => false },
    NodeCategory::Ignored => true } }
pub open spec fn nlast(cats: Seq<NodeCategory>, i: NodeMetaInfo, n: int) -> int decreases n { if n <= 0 { -1 } else if is_nmeta(cats[n - 1], i) { n - 1 } else { nlast(cats, i, n - 1) } }
pub open spec fn mlast(cats: Seq<NodeCategory>, i: NodeUnitInfo, n: int) -> int decreases n { if n <= 0 { -1 } else if is_nmetric(cats[n - 1], i) { n - 1 } else { mlast(cats, i, n - 1) } }
/// the line can be read: enough words, each fits, there are an id, a latitude and a longitude
pub open spec fn node_ok(cats: Seq<NodeCategory>, w: Seq<int>) -> bool {
    let n = cats.len() as int;
    &&& n <= w.len()
    &&& forall|k: int| 0 <= k < n ==> ncol_ok(#[trigger] cats[k], w[k])
    &&& nlast(cats, NodeMetaInfo::NodeId, n) >= 0 && mlast(cats, NodeUnitInfo::Latitude, n) >= 0 && mlast(cats, NodeUnitInfo::Longitude, n) >= 0
}
pub open spec fn node_of(cats: Seq<NodeCategory>, w: Seq<int>) -> ProtoNode {
    let n = cats.len() as int;
    ProtoNode { id: p_i64(w[nlast(cats, NodeMetaInfo::NodeId, n)])->0,
        coord: Coordinate { lat: p_f64(w[mlast(cats, NodeUnitInfo::Latitude, n)])->0, lon: p_f64(w[mlast(cats, NodeUnitInfo::Longitude, n)])->0 },
        ch_level: if nlast(cats, NodeMetaInfo::CHLevel, n) >= 0 { p_usize(w[nlast(cats, NodeMetaInfo::CHLevel, n)]) } else { None } }
}
impl ProtoNode {
@@fn src/io/parsing/network/graph/fmi.rs :: ProtoNode::from_str [map=parsing::nodes::Config>NodesConfig,nodes::Category>NodeCategory,nodes::MetaInfo>NodeMetaInfo,nodes::metrics::UnitInfo>NodeUnitInfo,String>Msg,str>Str]
%spec
    ensures r is Ok == node_ok(cfg.categories@, words(code(*line))), r is Ok ==> r->Ok_0 == node_of(cfg.categories@, words(code(*line))),
%start
    let ghost w = words(code(*line)); let ghost cs = cfg.categories@;
%loop 0
        invariant i_0 <= cs.len(), cs == cfg.categories@, w == words(code(*line)), params@.len() == w.len(), forall|i: int| 0 <= i < w.len() ==> code(*(#[trigger] params@[i])) == w[i],
            i_0 <= w.len(), forall|k: int| 0 <= k < i_0 ==> ncol_ok(#[trigger] cs[k], w[k]),
            node_id == (if nlast(cs, NodeMetaInfo::NodeId, i_0 as int) >= 0 { p_i64(w[nlast(cs, NodeMetaInfo::NodeId, i_0 as int)]) } else { None }),
            ch_level == (if nlast(cs, NodeMetaInfo::CHLevel, i_0 as int) >= 0 { p_usize(w[nlast(cs, NodeMetaInfo::CHLevel, i_0 as int)]) } else { None }),
            lat == (if mlast(cs, NodeUnitInfo::Latitude, i_0 as int) >= 0 { p_f64(w[mlast(cs, NodeUnitInfo::Latitude, i_0 as int)]) } else { None }),
            lon == (if mlast(cs, NodeUnitInfo::Longitude, i_0 as int) >= 0 { p_f64(w[mlast(cs, NodeUnitInfo::Longitude, i_0 as int)]) } else { None }),
            node_id is Some == (nlast(cs, NodeMetaInfo::NodeId, i_0 as int) >= 0), lat is Some == (mlast(cs, NodeUnitInfo::Latitude, i_0 as int) >= 0), lon is Some == (mlast(cs, NodeUnitInfo::Longitude, i_0 as int) >= 0),
        decreases cs.len() - i_0,
@@end
}
// ---------------------------------------------------------------- the file
pub open spec fn fits(f: Seq<int>) -> bool { counts_of(f).len() >= 2 ==> head(f) + counts_of(f)[counts_of(f).len() - 2] + counts_of(f)[counts_of(f).len() - 1] <= usize::MAX }
pub open spec fn edges_in(cats: Seq<EdgeCategory>, c: Seq<int>, lo: int, hi: int, n: int) -> Seq<In> decreases n { if n <= 0 { Seq::<In>::empty() } else if within(c, lo, hi, n - 1) { edges_in(cats, c, lo, hi, n - 1).push(edge_of(cats, words(c[n - 1]))) } else { edges_in(cats, c, lo, hi, n - 1) } }
pub open spec fn edges_ok(cats: Seq<EdgeCategory>, c: Seq<int>, lo: int, hi: int, n: int) -> bool { forall|k: int| 0 <= k < n && #[trigger] within(c, lo, hi, k) ==> edge_ok(cats, words(c[k])) }
pub open spec fn nodes_ok(cats: Seq<NodeCategory>, c: Seq<int>, lo: int, hi: int, n: int) -> bool { forall|k: int| 0 <= k < n && #[trigger] within(c, lo, hi, k) ==> node_ok(cats, words(c[k])) }
/// the last of the first n lines describing node x; -1 if there is none
pub open spec fn nline(cats: Seq<NodeCategory>, c: Seq<int>, lo: int, hi: int, x: i64, n: int) -> int decreases n { if n <= 0 { -1 } else if within(c, lo, hi, n - 1) && node_of(cats, words(c[n - 1])).id == x { n - 1 } else { nline(cats, c, lo, hi, x, n - 1) } }
/// ... and its level
pub open spec fn nlevel(cats: Seq<NodeCategory>, c: Seq<int>, lo: int, hi: int, x: i64, n: int) -> Option<usize> decreases n { if n <= 0 { None } else if within(c, lo, hi, n - 1) && node_of(cats, words(c[n - 1])).id == x && node_of(cats, words(c[n - 1])).ch_level is Some { node_of(cats, words(c[n - 1])).ch_level } else { nlevel(cats, c, lo, hi, x, n - 1) } }
pub open spec fn coord_in(cats: Seq<NodeCategory>, c: Seq<int>, lo: int, hi: int, x: i64, n: int) -> Option<Coordinate> { let k = nline(cats, c, lo, hi, x, n); if k >= 0 { Some(node_of(cats, words(c[k])).coord) } else { None } }
/// every node has the coordinate and level of the last line about it
pub open spec fn noded(a: &NodeBuilder, b: &NodeBuilder, cats: Seq<NodeCategory>, c: Seq<int>, lo: int, hi: int, n: int) -> bool {
    &&& forall|i: int| 0 <= i < a.node_ids@.len() ==> #[trigger] b.node_coords@[i] == (match coord_in(cats, c, lo, hi, a.node_ids@[i], n) { Some(x) => Some(x), None => a.node_coords@[i] })
    &&& forall|i: int| 0 <= i < a.node_ids@.len() ==> #[trigger] b.node_ch_levels@[i] == (match nlevel(cats, c, lo, hi, a.node_ids@[i], n) { Some(x) => x, None => a.node_ch_levels@[i] })
}
use core::ops::Range;
@@item src/io/parsing/network/graph/fmi.rs :: Parser
impl Parser {
@@fn src/io/parsing/network/graph/fmi.rs :: Parser::new
@@end
@@fn src/io/parsing/network/graph/fmi.rs :: Parser as super::Parsing::preprocess [map=parsing::Config>ParsingConfig,str>Str]
%rw: OpenOptions::new().read(true).open(&cfg.map_file) => open_file(&cfg.map_file)
%spec
    requires readable(cfg.map_file), gdim(*cfg) <= usize::MAX, fits(flines(cfg.map_file)),
    ensures r is Ok == (cfg_ok(*cfg) && counts_of(flines(cfg.map_file)).len() >= 2),
        r is Ok ==> ({ let f = flines(cfg.map_file); let n = counts_of(f); final(self).node_lines.start == head(f) && final(self).node_lines.end == head(f) + n[n.len() - 2] && final(self).edge_lines.start == final(self).node_lines.end && final(self).edge_lines.end == final(self).node_lines.end + n[n.len() - 1] }),
%start
    let ghost c = content(cfg.map_file); let ghost f = flines(cfg.map_file);
%loop 0
    invariant_except_break line_number == fl(c, i_0 as int).len(),
    invariant c == content(cfg.map_file), f == flines(cfg.map_file), i_0 <= c.len(), s_0@.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] s_0@[i]) is Ok && code(s_0@[i]->Ok_0) == c[i],
        counts@ == cnts(f, line_number as int), 0 <= line_number <= f.len(), line_number <= c.len(),
        !is_taking_counts ==> fs(f, 0) == fs(f, line_number as int),
        is_taking_counts ==> fe(f, fs(f, 0)) == fe(f, line_number as int),
    ensures line_number == head(f),
    decreases c.len() - i_0,
%loop 0 start
    proof { lem_fl(c, x_0 as int, c.len() as int); lem_fl(c, x_0 + 1, c.len() as int); if functional(c[x_0 as int]) { assert(fl(c, x_0 + 1)[line_number as int] == c[x_0 as int]); assert(f[line_number as int] == c[x_0 as int]); } }
@@end
@@fn src/io/parsing/network/graph/fmi.rs :: Parser as super::Parsing::parse_ways
%rw: OpenOptions::new().read(true).open(&builder.cfg().map_file) => open_file(&builder.cfg().map_file)
%rw: self.edge_lines.contains(&line_number) => range_has(&self.edge_lines, line_number)
%spec
    requires old(builder).ok(), readable(old(builder).cfg.map_file), old(builder).node_ids@.len() + 2 * content(old(builder).cfg.map_file).len() + 2 < usize::MAX,
    ensures ({ let b = old(builder); let c = content(b.cfg.map_file); let cs = b.cfg.edges.categories@; let (lo, hi) = (self.edge_lines.start as int, self.edge_lines.end as int);
        &&& r is Ok == edges_ok(cs, c, lo, hi, c.len() as int)
        &&& r is Ok ==> final(builder).ok() && final(builder).cfg == b.cfg && final(builder).ins() == b.ins() + edges_in(cs, c, lo, hi, c.len() as int)
    }),
%start
    let ghost b0 = *builder; let ghost c = content(b0.cfg.map_file); let ghost cs = b0.cfg.edges.categories@; let ghost lo = self.edge_lines.start as int; let ghost hi = self.edge_lines.end as int;
%loop 0
    invariant b0 == *old(builder), c == content(b0.cfg.map_file), cs == b0.cfg.edges.categories@, lo == self.edge_lines.start, hi == self.edge_lines.end, i_0 <= c.len(), s_0@.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] s_0@[i]) is Ok && code(s_0@[i]->Ok_0) == c[i],
        line_number == fl(c, i_0 as int).len(), line_number <= i_0, builder.ok(), builder.cfg == b0.cfg, builder.ins() == b0.ins() + edges_in(cs, c, lo, hi, i_0 as int), edges_ok(cs, c, lo, hi, i_0 as int),
        builder.node_ids@.len() <= b0.node_ids@.len() + 2 * i_0, b0.node_ids@.len() + 2 * c.len() + 2 < usize::MAX,
    decreases c.len() - i_0,
%loop 0 start
    proof { assert(within(c, lo, hi, x_0 as int) == (lo <= line_number < hi)); }
%loop 0 end
    proof { assert(builder.ins() =~= b0.ins() + edges_in(cs, c, lo, hi, i_0 as int)); }
%loop 0 before
    proof { assert(builder.ins() =~= b0.ins() + edges_in(cs, c, lo, hi, 0)); }
@@end
@@fn src/io/parsing/network/graph/fmi.rs :: Parser as super::Parsing::parse_nodes
%rw: OpenOptions::new().read(true).open(&builder.cfg().map_file) => open_file(&builder.cfg().map_file)
%rw: self.node_lines.contains(&line_number) => range_has(&self.node_lines, line_number)
%spec
    requires old(builder).ok(), readable(old(builder).cfg.map_file),
    ensures ({ let b = old(builder); let c = content(b.cfg.map_file); let cs = b.cfg.nodes.categories@; let (lo, hi) = (self.node_lines.start as int, self.node_lines.end as int);
        &&& r is Ok == nodes_ok(cs, c, lo, hi, c.len() as int)
        &&& r is Ok ==> final(builder).ok() && final(builder).cfg == b.cfg && final(builder).ins() == b.ins() && final(builder).node_ids@ == b.node_ids@ && noded(b, final(builder), cs, c, lo, hi, c.len() as int)
    }),
%start
    let ghost b0 = *builder; let ghost c = content(b0.cfg.map_file); let ghost cs = b0.cfg.nodes.categories@; let ghost lo = self.node_lines.start as int; let ghost hi = self.node_lines.end as int;
%loop 0
    invariant b0 == *old(builder), c == content(b0.cfg.map_file), cs == b0.cfg.nodes.categories@, lo == self.node_lines.start, hi == self.node_lines.end, i_0 <= c.len(), s_0@.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] s_0@[i]) is Ok && code(s_0@[i]->Ok_0) == c[i],
        line_number == fl(c, i_0 as int).len(), line_number <= i_0, builder.ok(), builder.cfg == b0.cfg, builder.ins() == b0.ins(), builder.node_ids@ == b0.node_ids@, nodes_ok(cs, c, lo, hi, i_0 as int),
        noded(&b0, builder, cs, c, lo, hi, i_0 as int),
    decreases c.len() - i_0,
%loop 0 start
    proof { assert(within(c, lo, hi, x_0 as int) == (lo <= line_number < hi)); }
@@end
}
/// reading succeeds on this file
pub open spec fn file_ok(cfg: ParsingConfig) -> bool {
    let (c, f, n) = (content(cfg.map_file), flines(cfg.map_file), counts_of(flines(cfg.map_file)));
    &&& cfg_ok(cfg) && n.len() >= 2
    &&& edges_ok(cfg.edges.categories@, c, edge_from(f), edge_to(f), c.len() as int)
    &&& nodes_ok(cfg.nodes.categories@, c, head(f), edge_from(f), c.len() as int)
}
pub open spec fn edge_from(f: Seq<int>) -> int { head(f) + counts_of(f)[counts_of(f).len() - 2] }
pub open spec fn edge_to(f: Seq<int>) -> int { edge_from(f) + counts_of(f)[counts_of(f).len() - 1] }
impl Parser {
@@fn src/io/parsing/network/graph/mod.rs :: Parsing::parse [id=Parsing::parse; map=parsing::Config>ParsingConfig]
%spec
    requires readable(cfg.map_file), gdim(cfg) <= usize::MAX, fits(flines(cfg.map_file)), 2 * content(cfg.map_file).len() + 2 < usize::MAX,
    ensures r is Ok == file_ok(cfg),
        r is Ok ==> ({ let (b, c, f) = (r->Ok_0, content(cfg.map_file), flines(cfg.map_file));
            &&& b.ok() && b.cfg == cfg
            &&& b.ins() == edges_in(cfg.edges.categories@, c, edge_from(f), edge_to(f), c.len() as int)
            &&& forall|i: int| 0 <= i < b.node_ids@.len() ==> #[trigger] b.node_coords@[i] == coord_in(cfg.nodes.categories@, c, head(f), edge_from(f), b.node_ids@[i], c.len() as int)
            &&& forall|i: int| 0 <= i < b.node_ids@.len() ==> #[trigger] b.node_ch_levels@[i] == (match nlevel(cfg.nodes.categories@, c, head(f), edge_from(f), b.node_ids@[i], c.len() as int) { Some(x) => x, None => 0 }) }),
%end
    proof { if out_ is Ok { let (c, f) = (content(cfg.map_file), flines(cfg.map_file)); assert(out_->Ok_0.ins() =~= edges_in(cfg.edges.categories@, c, edge_from(f), edge_to(f), c.len() as int)); } }
@@end
}
fn must_fail_fmi(p: &mut Parser, cfg: ParsingConfig) -> (r: Result<GraphBuilder, Msg>)
    requires readable(cfg.map_file), gdim(cfg) <= usize::MAX, fits(flines(cfg.map_file)), 2 * content(cfg.map_file).len() + 2 < usize::MAX, file_ok(cfg), flines(cfg.map_file).len() > 3,
    ensures false,
{ p.parse(cfg) }
