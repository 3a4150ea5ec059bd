// ---------------------------------------------------------------- src/network/graph/building.rs: the builders
/// an edge as it was given
pub struct In { pub id: Option<usize>, pub src: i64, pub dst: i64, pub metrics: Seq<F64>, pub sc: Option<[EdgeIdx; 2]> }
pub open spec fn given(e: ProtoEdgeA, sc: Seq<[EdgeIdx; 2]>) -> In { In { id: e.id, src: e.src_id, dst: e.dst_id, metrics: e.metrics@, sc: match e.sc_edges { Some(k) => Some(sc[k as int]), None => None } } }
pub open spec fn givens(e: Seq<ProtoEdgeA>, sc: Seq<[EdgeIdx; 2]>) -> Seq<In> { Seq::new(e.len(), |i: int| given(e[i], sc)) }
/// positions are recorded, every shortcut belongs to one edge
pub open spec fn noted(e: Seq<ProtoEdgeA>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).idx == i
    &&& forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).sc_edges is Some ==> e[i].sc_edges->0 < k
    &&& forall|i: int, j: int| 0 <= i < j < e.len() && (#[trigger] e[i]).sc_edges is Some && (#[trigger] e[j]).sc_edges is Some ==> e[i].sc_edges->0 != e[j].sc_edges->0
    &&& forall|c: int| 0 <= c < k ==> #[trigger] owner(e, c)
}
pub open spec fn owner(e: Seq<ProtoEdgeA>, c: int) -> bool { exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).sc_edges is Some && e[i].sc_edges->0 == c }
pub open spec fn an_end(e: Seq<In>, x: i64) -> bool { exists|i: int| 0 <= i < e.len() && ((#[trigger] e[i]).src == x || e[i].dst == x) }
/// the nodes are exactly the ends
pub open spec fn ends_are(ids: Seq<i64>, e: Seq<In>) -> bool { forall|x: i64| #[trigger] ids.contains(x) == an_end(e, x) }
impl EdgeBuilder {
    pub open spec fn ins(&self) -> Seq<In> { givens(self.proto_edges@, self.proto_shortcuts@) }
    pub open spec fn ok(&self) -> bool { noted(self.proto_edges@, self.proto_shortcuts@.len() as int) && ends_are(self.node_ids@, self.ins()) }
}
impl NodeBuilder {
    pub open spec fn ins(&self) -> Seq<In> { givens(self.proto_edges@, self.proto_shortcuts@) }
    pub open spec fn ok(&self) -> bool { noted(self.proto_edges@, self.proto_shortcuts@.len() as int) && ends_are(self.node_ids@, self.ins()) && sorted_i64(self.node_ids@) && self.node_coords@.len() == self.node_ids@.len() && self.node_ch_levels@.len() == self.node_ids@.len() }
}
impl GraphBuilder {
    pub open spec fn ins(&self) -> Seq<In> { givens(self.proto_edges@, self.proto_shortcuts@) }
    pub open spec fn ok(&self) -> bool { noted(self.proto_edges@, self.proto_shortcuts@.len() as int) && ends_are(self.node_ids@, self.ins()) && sorted_i64(self.node_ids@) && self.node_coords@.len() == self.node_ids@.len() && self.node_ch_levels@.len() == self.node_ids@.len() }
}
proof fn lem_given(e: Seq<ProtoEdgeA>, sc: Seq<[EdgeIdx; 2]>, x: ProtoEdgeA, s2: Seq<[EdgeIdx; 2]>)
    requires noted(e, sc.len() as int), x.idx == e.len(), x.sc_edges is None ==> s2 == sc, x.sc_edges is Some ==> x.sc_edges->0 == sc.len() && s2.len() == sc.len() + 1 && s2.drop_last() == sc,
    ensures noted(e.push(x), s2.len() as int), givens(e.push(x), s2) == givens(e, sc).push(given(x, s2)),
{
    let e2 = e.push(x);
    assert forall|i: int| 0 <= i < e.len() implies given(#[trigger] e[i], s2) == given(e[i], sc) by { if e[i].sc_edges is Some && x.sc_edges is Some { assert(s2.drop_last()[e[i].sc_edges->0 as int] == s2[e[i].sc_edges->0 as int]); } }
    assert forall|i: int, j: int| 0 <= i < j < e2.len() && (#[trigger] e2[i]).sc_edges is Some && (#[trigger] e2[j]).sc_edges is Some implies e2[i].sc_edges->0 != e2[j].sc_edges->0 by { assert(e2[i] == e[i]); if j < e.len() { assert(e2[j] == e[j]); } }
    assert forall|c: int| 0 <= c < s2.len() implies #[trigger] owner(e2, c) by { if c < sc.len() { assert(owner(e, c)); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).sc_edges is Some && e[i].sc_edges->0 == c; assert(e2[i].sc_edges->0 == c); } else { assert(e2[e.len() as int].sc_edges->0 == c); } }
    assert forall|i: int| 0 <= i < e2.len() implies (#[trigger] e2[i]).idx == i by { if i < e.len() { assert(e2[i] == e[i]); } }
    assert forall|i: int| 0 <= i < e2.len() && (#[trigger] e2[i]).sc_edges is Some implies e2[i].sc_edges->0 < s2.len() by { if i < e.len() { assert(e2[i] == e[i]); } }
    let (a, b) = (givens(e2, s2), givens(e, sc).push(given(x, s2)));
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i < e.len() { assert(e2[i] == e[i]); assert(given(e[i], s2) == given(e[i], sc)); } }
    assert(a =~= b);
}
proof fn lem_ends(ids: Seq<i64>, e: Seq<In>, n2: Seq<i64>, x: In)
    requires ends_are(ids, e), forall|y: i64| #[trigger] n2.contains(y) == (ids.contains(y) || y == x.src || y == x.dst), ensures ends_are(n2, e.push(x))
{
    let e2 = e.push(x);
    assert forall|y: i64| #[trigger] n2.contains(y) == an_end(e2, y) by {
        assert(ids.contains(y) == an_end(e, y));
        if an_end(e, y) { let i = choose|i: int| 0 <= i < e.len() && ((#[trigger] e[i]).src == y || e[i].dst == y); assert(e2[i].src == y || e2[i].dst == y); }
        if y == x.src || y == x.dst { assert(e2[e.len() as int].src == y || e2[e.len() as int].dst == y); }
        if an_end(e2, y) { let i = choose|i: int| 0 <= i < e2.len() && ((#[trigger] e2[i]).src == y || e2[i].dst == y); if i < e.len() { assert(e[i].src == y || e[i].dst == y); } }
    }
}
proof fn lem_has(s: Seq<i64>, v: i64, y: i64) ensures s.push(v).contains(y) == (s.contains(y) || y == v)
{ let t = s.push(v); if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(t[i] == y); } if y == v { assert(t[s.len() as int] == y); } if t.contains(y) { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; if i < s.len() { assert(s[i] == y); } } }
proof fn lem_dedup(s: Seq<i64>)
    requires forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j],
    ensures sorted_i64(dedup_of(s)), forall|x: i64| #[trigger] dedup_of(s).contains(x) == s.contains(x), s.len() > 0 ==> dedup_of(s).len() > 0 && dedup_of(s).last() == s.last(), dedup_of(s).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 1 {
        let t = s.drop_last(); lem_dedup(t); let d = dedup_of(t);
        assert forall|x: i64| #[trigger] dedup_of(s).contains(x) == s.contains(x) by {
            assert(s =~= t.push(s.last())); lem_has(t, s.last(), x); lem_has(d, s.last(), x); assert(d.contains(x) == t.contains(x));
            if s[s.len() - 1] == s[s.len() - 2] { assert(t[s.len() - 2] == s.last()); assert(t.contains(s.last())); }
        }
    }
}
// std: `Into` for the two kinds of edges a builder accepts
pub trait ToShortcut: Sized { spec fn sc(self) -> ProtoShortcut; fn into_sc(self) -> (r: ProtoShortcut) ensures r.proto_edge.id == self.sc().proto_edge.id, r.proto_edge.src_id == self.sc().proto_edge.src_id, r.proto_edge.dst_id == self.sc().proto_edge.dst_id, r.proto_edge.metrics@ == self.sc().proto_edge.metrics@, r.sc_edges == self.sc().sc_edges; }
impl ToShortcut for ProtoShortcut { open spec fn sc(self) -> ProtoShortcut { self } fn into_sc(self) -> (r: ProtoShortcut) { self } }
impl ToShortcut for ProtoEdge { open spec fn sc(self) -> ProtoShortcut { ProtoShortcut { proto_edge: self, sc_edges: None } }
@@fn src/network/graph/building.rs :: ProtoEdge as Into<ProtoShortcut>::into [as=into_sc; nopub; id=ProtoEdge::into]
@@end
}
impl EdgeBuilder {
@@fn src/network/graph/building.rs :: EdgeBuilder::cfg [id=EdgeBuilder::cfg; map=parsing::Config>ParsingConfig]
%spec
    ensures *r == self.cfg,
@@end
@@fn src/network/graph/building.rs :: EdgeBuilder::insert [id=EdgeBuilder::insert]
%sig
    fn insert<E: ToShortcut>(&mut self, proto_edge: E) -> err::Feedback
%rw: proto_edge.into() => proto_edge.into_sc()
%spec
    requires old(self).ok(), old(self).node_ids@.len() < usize::MAX - 2,
    ensures r is Ok, final(self).ok(), final(self).cfg == old(self).cfg, final(self).node_ids@.len() <= old(self).node_ids@.len() + 2,
        final(self).ins() == old(self).ins().push(In { id: proto_edge.sc().proto_edge.id, src: proto_edge.sc().proto_edge.src_id, dst: proto_edge.sc().proto_edge.dst_id, metrics: proto_edge.sc().proto_edge.metrics@, sc: proto_edge.sc().sc_edges }),
%start
    let ghost n0 = self.node_ids@; let ghost e0 = self.proto_edges@; let ghost s0 = self.proto_shortcuts@; let ghost x = In { id: proto_edge.sc().proto_edge.id, src: proto_edge.sc().proto_edge.src_id, dst: proto_edge.sc().proto_edge.dst_id, metrics: proto_edge.sc().proto_edge.metrics@, sc: proto_edge.sc().sc_edges };
    proof { assert forall|y: i64| #[trigger] n0.push(x.src).push(x.dst).contains(y) == (n0.contains(y) || y == x.src || y == x.dst) by { lem_has(n0, x.src, y); lem_has(n0.push(x.src), x.dst, y); } }
%loop 0 before
    let ghost p0 = n0;
%loop 0
    invariant s_0@ == seq![x.src, x.dst], i_0 <= 2, n == n0.len(), k == 2, n >= 2, n <= self.node_ids@.len() <= n + i_0, n0.len() < usize::MAX - 2, forall|j: int| 0 <= j < n ==> #[trigger] self.node_ids@[j] == n0[j],
        self.proto_edges == old(self).proto_edges, self.proto_shortcuts == old(self).proto_shortcuts, self.cfg == old(self).cfg,
        forall|y: i64| #[trigger] self.node_ids@.contains(y) == (n0.contains(y) || (i_0 >= 1 && y == x.src) || (i_0 >= 2 && y == x.dst)),
    decreases 2 - i_0,
%loop 0 start
    let ghost b = self.node_ids@;
%loop 0 end
    proof {
        let v = *new_id;
        if self.node_ids@.len() > b.len() { assert(self.node_ids@ =~= b.push(v)); assert forall|y: i64| #[trigger] self.node_ids@.contains(y) == (b.contains(y) || y == v) by { lem_has(b, v, y); } }
        else { let j = choose|j: int| n - k <= j < n && #[trigger] b[j] == v; assert(n0[j] == v); assert(n0.contains(v)); }
        assert forall|y: i64| #[trigger] self.node_ids@.contains(y) == (n0.contains(y) || (i_0 >= 1 && y == x.src) || (i_0 >= 2 && y == x.dst)) by { assert(b.contains(y) == (n0.contains(y) || (i_0 >= 2 && y == x.src))); }
    }
%end
    proof {
        lem_ends(n0, givens(e0, s0), self.node_ids@, x);
        let y = self.proto_edges@.last(); assert(self.proto_edges@ =~= e0.push(y)); if x.sc is Some { assert(self.proto_shortcuts@.drop_last() =~= s0); } else { assert(self.proto_shortcuts@ =~= s0); }
        lem_given(e0, s0, y, self.proto_shortcuts@); assert(given(y, self.proto_shortcuts@) == x);
    }
@@end
@@fn src/network/graph/building.rs :: EdgeBuilder::next [id=EdgeBuilder::next]
%spec
    requires self.ok(),
    ensures r.ok(), r.cfg == self.cfg, r.ins() == self.ins(), forall|i: int| 0 <= i < r.node_ids@.len() ==> #[trigger] r.node_coords@[i] is None, forall|i: int| 0 <= i < r.node_ids@.len() ==> #[trigger] r.node_ch_levels@[i] == 0,
%before: self.node_ids.dedup()
    proof { lem_dedup(self_.node_ids@); }
%end
    proof { assert(out_.ins() == self.ins()); assert forall|x: i64| #[trigger] out_.node_ids@.contains(x) == an_end(self.ins(), x) by { assert(self.node_ids@.contains(x) == an_end(self.ins(), x)); } }
@@end
}
impl NodeBuilder {
@@fn src/network/graph/building.rs :: NodeBuilder::cfg [id=NodeBuilder::cfg; map=parsing::Config>ParsingConfig]
%spec
    ensures *r == self.cfg,
@@end
@@fn src/network/graph/building.rs :: NodeBuilder::insert [id=NodeBuilder::insert]
%spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).cfg == old(self).cfg, final(self).ins() == old(self).ins(), final(self).node_ids@ == old(self).node_ids@, r == old(self).node_ids@.contains(proto_node.id),
        forall|i: int| 0 <= i < old(self).node_ids@.len() ==> #[trigger] final(self).node_coords@[i] == (if old(self).node_ids@[i] == proto_node.id { Some(proto_node.coord) } else { old(self).node_coords@[i] }),
        forall|i: int| 0 <= i < old(self).node_ids@.len() ==> #[trigger] final(self).node_ch_levels@[i] == (if old(self).node_ids@[i] == proto_node.id && proto_node.ch_level is Some { proto_node.ch_level->0 } else { old(self).node_ch_levels@[i] }),
@@end
@@fn src/network/graph/building.rs :: NodeBuilder::next [id=NodeBuilder::next]
%spec
    requires self.ok(),
    ensures r is Ok, r->Ok_0.ok(), r->Ok_0.cfg == self.cfg, r->Ok_0.ins() == self.ins(), r->Ok_0.node_ids@ == self.node_ids@, r->Ok_0.node_coords@ == self.node_coords@, r->Ok_0.node_ch_levels@ == self.node_ch_levels@,
@@end
}
impl GraphBuilder {
@@fn src/network/graph/building.rs :: GraphBuilder::new [id=GraphBuilder::new; map=parsing::Config>ParsingConfig]
%spec
    ensures r.ok(), r.cfg == cfg, r.ins().len() == 0, r.node_ids@.len() == 0,
@@end
}
