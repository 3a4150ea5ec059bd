@@include graph_types.vrs
@@include bsearch.vrs
// ---------------------------------------------------------------- well-formed graphs
pub open spec fn mono(o: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i <= j < o.len() ==> o[i] <= o[j] }
/// compressed adjacency: node u's edges are map[off[u]..off[u+1]]; `here(e)` is the node the edge is listed at
pub open spec fn csr(off: Seq<usize>, map: Seq<EdgeIdx>, here: Seq<NodeIdx>, n: int) -> bool {
    &&& off.len() == n + 1 && mono(off) && off[0] == 0 && off[n] == map.len()
    &&& map.len() == here.len()
    &&& forall|i: int| 0 <= i < map.len() ==> (#[trigger] map[i]).0 < here.len()
    &&& forall|u: int, i: int| 0 <= u < n && #[trigger] off[u] <= i < off[u + 1] ==> here[(#[trigger] map[i]).0 as int].0 == u
    &&& forall|e: int| 0 <= e < here.len() ==> shelved(off, map, (#[trigger] here[e]).0 as int, e)
}
pub open spec fn shelved(off: Seq<usize>, map: Seq<EdgeIdx>, u: int, e: int) -> bool { exists|i: int| off[u] <= i < off[u + 1] && (#[trigger] map[i]).0 == e }
impl Graph {
    pub open spec fn n(&self) -> int { self.node_ids@.len() as int }
    pub open spec fn m(&self) -> int { self.fwd_dsts@.len() as int }
    pub open spec fn src(&self, e: int) -> int { self.bwd_dsts@[e].0 as int }
    pub open spec fn dst(&self, e: int) -> int { self.fwd_dsts@[e].0 as int }
    pub open spec fn dim(&self) -> int { self.cfg.edges.metrics.units@.len() as int }
    pub open spec fn wf_nodes(&self) -> bool {
        self.node_coords@.len() == self.n() && self.node_ch_levels@.len() == self.n() && sorted_i64(self.node_ids@) }
    pub open spec fn wf_edges(&self) -> bool {
        &&& self.bwd_dsts@.len() == self.m()
        &&& forall|e: int| 0 <= e < self.m() ==> (#[trigger] self.fwd_dsts@[e]).0 < self.n()
        &&& forall|e: int| 0 <= e < self.m() ==> (#[trigger] self.bwd_dsts@[e]).0 < self.n()
        &&& csr(self.fwd_offsets@, self.fwd_to_fwd_map@, self.bwd_dsts@, self.n())
        &&& csr(self.bwd_offsets@, self.bwd_to_fwd_map@, self.fwd_dsts@, self.n())
    }
    pub open spec fn wf_metrics(&self) -> bool {
        self.metrics@.len() == self.m() && forall|e: int| 0 <= e < self.m() ==> (#[trigger] self.metrics@[e])@.len() == self.dim() }
    pub open spec fn wf_sc(&self) -> bool { wf_sc(self.sc_offsets@, self.sc_edges@, self.m()) }
    pub open spec fn wf(&self) -> bool { self.wf_nodes() && self.wf_edges() && self.wf_metrics() && self.wf_sc() }
}
pub open spec fn wf_sc(off: Seq<usize>, sc: Seq<[EdgeIdx; 2]>, m: int) -> bool {
    &&& off.len() == m + 1 && mono(off) && off[0] == 0 && off[m] == sc.len()
    &&& forall|i: int| 0 <= i < sc.len() ==> (#[trigger] sc[i])@[0].0 < m && sc[i]@[1].0 < m
}
pub open spec fn fin(x: F64) -> bool { x@ is Fin }
pub open spec fn val(x: F64) -> real { x@->Fin_0 }
pub open spec fn nonneg(al: Seq<F64>) -> bool { forall|i: int| 0 <= i < al.len() ==> fin(#[trigger] al[i]) && val(al[i]) >= 0real }
pub open spec fn metrics_ok(g: &Graph) -> bool { forall|e: int| 0 <= e < g.m() ==> nonneg((#[trigger] g.metrics@[e])@) }
/// leaving edges of a node, highest level first
pub open spec fn by_level(g: &Graph, off: Seq<usize>, map: Seq<EdgeIdx>, heads: Seq<NodeIdx>) -> bool { by_lvl(g.node_ch_levels@, g.n(), off, map, heads) }
pub open spec fn by_lvl(l: Seq<usize>, n: int, off: Seq<usize>, map: Seq<EdgeIdx>, heads: Seq<NodeIdx>) -> bool {
    forall|u: int, i: int, j: int| 0 <= u < n && #[trigger] off[u] <= i < j < off[u + 1] ==> lv(l, heads, #[trigger] map[j]) <= lv(l, heads, #[trigger] map[i]) }
pub open spec fn lv(l: Seq<usize>, heads: Seq<NodeIdx>, e: EdgeIdx) -> int { l[heads[e.0 as int].0 as int] as int }
pub open spec fn lvl(g: &Graph, heads: Seq<NodeIdx>, e: EdgeIdx) -> int { lv(g.node_ch_levels@, heads, e) }
pub open spec fn sorted_by_level(g: &Graph) -> bool { by_level(g, g.fwd_offsets@, g.fwd_to_fwd_map@, g.fwd_dsts@) && by_level(g, g.bwd_offsets@, g.bwd_to_fwd_map@, g.bwd_dsts@) }
/// what the accessor needs to work on node/edge indices
impl<'a> EdgeAccessor<'a> {
    pub open spec fn is_fwd(&self, g: &Graph) -> bool {
        self.edge_dsts == &g.fwd_dsts && self.offsets == &g.fwd_offsets && self.xwd_to_fwd_map == &g.fwd_to_fwd_map && self.rest(g) }
    pub open spec fn is_bwd(&self, g: &Graph) -> bool {
        self.edge_dsts == &g.bwd_dsts && self.offsets == &g.bwd_offsets && self.xwd_to_fwd_map == &g.bwd_to_fwd_map && self.rest(g) }
    pub open spec fn rest(&self, g: &Graph) -> bool {
        self.edge_ids == &g.edge_ids && self.edge_ids_to_idx_map == &g.edge_ids_to_idx_map && self.metrics.of(g)
        && self.sc_offsets == &g.sc_offsets && self.sc_edges == &g.sc_edges }
    pub open spec fn ok_node(&self, u: int) -> bool {
        0 <= u && u + 1 < self.offsets.len() && self.offsets@[u] <= self.offsets@[u + 1] <= self.xwd_to_fwd_map@.len() }
    pub open spec fn edges_at(&self, u: int) -> Seq<EdgeIdx> { self.xwd_to_fwd_map@.subrange(self.offsets@[u] as int, self.offsets@[u + 1] as int) }
}
impl<'a> MetricAccessor<'a> {
    pub open spec fn of(&self, g: &Graph) -> bool { self.cfg == &g.cfg && self.metrics == &g.metrics && self.means == opt_ref(&g.means) }
}
pub open spec fn opt_ref<T>(x: &Option<T>) -> Option<&T> { match x { Some(y) => Some(y), None => None } }

// ---------------------------------------------------------------- src/network/graph/mod.rs: accessors
impl Graph {
@@fn src/network/graph/mod.rs :: Graph::nodes
%spec
    ensures r.node_ids == &self.node_ids, r.node_coords == &self.node_coords, r.node_ch_levels == &self.node_ch_levels,
@@end
@@fn src/network/graph/mod.rs :: Graph::fwd_edges
%spec
    ensures r.is_fwd(self),
@@end
@@fn src/network/graph/mod.rs :: Graph::bwd_edges
%spec
    ensures r.is_bwd(self),
@@end
@@fn src/network/graph/mod.rs :: Graph::metrics
%spec
    ensures r.of(self),
@@end
}
impl Node {
@@fn src/network/graph/mod.rs :: Node::id [id=Node::id]
%spec
    ensures r == self.id,
@@end
@@fn src/network/graph/mod.rs :: Node::idx [id=Node::idx]
%spec
    ensures r == self.idx,
@@end
@@fn src/network/graph/mod.rs :: Node::coord [id=Node::coord]
%spec
    ensures r == self.coord,
@@end
@@fn src/network/graph/mod.rs :: Node::ch_level
%spec
    ensures r == self.level,
@@end
}
impl<'a> NodeAccessor<'a> {
@@fn src/network/graph/mod.rs :: NodeAccessor::count [id=NodeAccessor::count]
%spec
    ensures r == self.node_ids@.len(),
@@end
@@fn src/network/graph/mod.rs :: NodeAccessor::id [id=NodeAccessor::id]
%spec
    requires idx.0 < self.node_ids@.len(),
    ensures r == self.node_ids@[idx.0 as int],
@@end
@@fn src/network/graph/mod.rs :: NodeAccessor::coord [id=NodeAccessor::coord]
%spec
    requires idx.0 < self.node_coords@.len(),
    ensures r == self.node_coords@[idx.0 as int],
@@end
@@fn src/network/graph/mod.rs :: NodeAccessor::level
%spec
    requires idx.0 < self.node_ch_levels@.len(),
    ensures r == self.node_ch_levels@[idx.0 as int],
@@end
@@fn src/network/graph/mod.rs :: NodeAccessor::idx_from [id=NodeAccessor::idx_from; keep_err]
%spec
    requires sorted_i64(self.node_ids@),
    ensures r is Ok ==> r->Ok_0.0 < self.node_ids@.len() && self.node_ids@[r->Ok_0.0 as int] == id,
        r is Err ==> !self.node_ids@.contains(id),
@@end
@@fn src/network/graph/mod.rs :: NodeAccessor::create
%spec
    requires idx.0 < self.node_ids@.len(), self.node_coords@.len() == self.node_ids@.len(), self.node_ch_levels@.len() == self.node_ids@.len(),
    ensures r.idx == idx, r.id == self.node_ids@[idx.0 as int], r.coord == self.node_coords@[idx.0 as int], r.level == self.node_ch_levels@[idx.0 as int],
@@end
@@fn src/network/graph/mod.rs :: NodeAccessor::create_from
%spec
    requires sorted_i64(self.node_ids@), self.node_coords@.len() == self.node_ids@.len(), self.node_ch_levels@.len() == self.node_ids@.len(),
    ensures r is Some == self.node_ids@.contains(id),
        r is Some ==> r->0.id == id && r->0.idx.0 < self.node_ids@.len() && self.node_ids@[r->0.idx.0 as int] == id && r->0.coord == self.node_coords@[r->0.idx.0 as int]
            && r->0.level == self.node_ch_levels@[r->0.idx.0 as int],
@@end
}
impl<'a> HalfEdge<'a> {
@@fn src/network/graph/mod.rs :: HalfEdge::idx [id=HalfEdge::idx]
%spec
    ensures r == self.idx,
@@end
@@fn src/network/graph/mod.rs :: HalfEdge::dst_idx [id=HalfEdge::dst_idx]
%spec
    requires self.idx.0 < self.edge_accessor.edge_dsts@.len(),
    ensures r == self.edge_accessor.edge_dsts@[self.idx.0 as int],
@@end
@@fn src/network/graph/mod.rs :: HalfEdge::is_shortcut [id=HalfEdge::is_shortcut]
%spec
    requires mono(self.edge_accessor.sc_offsets@), self.idx.0 + 1 < self.edge_accessor.sc_offsets.len(),
    ensures r == (self.edge_accessor.sc_offsets@[self.idx.0 as int] < self.edge_accessor.sc_offsets@[self.idx.0 + 1]),
@@end
@@fn src/network/graph/mod.rs :: HalfEdge::metrics [id=HalfEdge::metrics; index]
%index: self.edge_accessor.metrics
%spec
    requires self.idx.0 < self.edge_accessor.metrics.metrics@.len(),
    ensures r == &self.edge_accessor.metrics.metrics@[self.idx.0 as int],
@@end
}
impl<'a> EdgeAccessor<'a> {
@@fn src/network/graph/mod.rs :: EdgeAccessor::count [id=EdgeAccessor::count]
%spec
    ensures r == self.edge_dsts@.len(),
@@end
@@fn src/network/graph/mod.rs :: EdgeAccessor::half_edge
%spec
    ensures r.idx == idx, r.edge_accessor == self,
@@end
@@fn src/network/graph/mod.rs :: EdgeAccessor::try_id
%spec
    requires idx.0 < self.edge_ids@.len(),
    ensures r == self.edge_ids@[idx.0 as int],
@@end
@@fn src/network/graph/mod.rs :: EdgeAccessor::try_idx_from
%rw: self.edge_ids_to_idx_map.binary_search_by_key(&id, |(edge_id, _edge_idx)| *edge_id) => bsearch_id(self.edge_ids_to_idx_map, &id)
%spec
    requires sorted_ids(self.edge_ids_to_idx_map@),
    ensures r is Ok ==> self.edge_ids_to_idx_map@.contains((id, r->Ok_0)),
        r is Err ==> forall|i: int| 0 <= i < self.edge_ids_to_idx_map@.len() ==> (#[trigger] self.edge_ids_to_idx_map@[i]).0 != id,
%after: let (_edge_id, edge_idx) =
    proof { assert(self.edge_ids_to_idx_map@[idx as int] == (id, edge_idx)); }
@@end
@@fn src/network/graph/mod.rs :: EdgeAccessor::dst_idx [id=EdgeAccessor::dst_idx]
%spec
    requires idx.0 < self.edge_dsts@.len(),
    ensures r == self.edge_dsts@[idx.0 as int],
@@end
@@fn src/network/graph/mod.rs :: EdgeAccessor::is_shortcut [id=EdgeAccessor::is_shortcut]
%spec
    requires mono(self.sc_offsets@), idx.0 + 1 < self.sc_offsets.len(),
    ensures r == (self.sc_offsets@[idx.0 as int] < self.sc_offsets@[idx.0 + 1]),
@@end
@@fn src/network/graph/mod.rs :: EdgeAccessor::sc_edges
%spec
    requires mono(self.sc_offsets@), idx.0 + 1 < self.sc_offsets.len(), self.sc_offsets@[self.sc_offsets@.len() - 1] == self.sc_edges@.len(),
    ensures r is Some == (self.sc_offsets@[idx.0 as int] < self.sc_offsets@[idx.0 + 1]),
        r is Some ==> r->0 == &self.sc_edges@[self.sc_offsets@[idx.0 as int] as int],
@@end
@@fn src/network/graph/mod.rs :: EdgeAccessor::starting_from
%ty 0 Vec<HalfEdge<'a>>
%spec
    requires self.ok_node(idx.0 as int),
    ensures r@.len() == self.edges_at(idx.0 as int).len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).idx == self.edges_at(idx.0 as int)[i] && r@[i].edge_accessor == self,
%loop 0
        invariant self.ok_node(idx.0 as int), s_0@ == self.edges_at(idx.0 as int), i_0 <= s_0@.len(), r_0@.len() == i_0,
            forall|i: int| 0 <= i < i_0 ==> (#[trigger] r_0@[i]).idx == self.edges_at(idx.0 as int)[i] && r_0@[i].edge_accessor == self,
        decreases s_0@.len() - i_0,
@@end
@@fn src/network/graph/mod.rs :: EdgeAccessor::between
%spec
    requires self.ok_node(src_idx.0 as int), forall|i: int| 0 <= i < self.xwd_to_fwd_map@.len() ==> (#[trigger] self.xwd_to_fwd_map@[i]).0 < self.edge_dsts@.len(),
    ensures r is Some == (exists|i: int| 0 <= i < self.edges_at(src_idx.0 as int).len() && self.edge_dsts@[(#[trigger] self.edges_at(src_idx.0 as int)[i]).0 as int] == dst_idx),
        r is Some ==> self.edges_at(src_idx.0 as int).contains(r->0.idx) && self.edge_dsts@[r->0.idx.0 as int] == dst_idx && r->0.edge_accessor == self,
%loop 0
        invariant self.ok_node(src_idx.0 as int), s_0@ == self.edges_at(src_idx.0 as int), i_0 <= s_0@.len(),
            forall|i: int| 0 <= i < self.xwd_to_fwd_map@.len() ==> (#[trigger] self.xwd_to_fwd_map@[i]).0 < self.edge_dsts@.len(),
            forall|i: int| 0 <= i < i_0 ==> self.edge_dsts@[(#[trigger] self.edges_at(src_idx.0 as int)[i]).0 as int] != dst_idx,
        decreases s_0@.len() - i_0,
%loop 0 start
    proof { assert(edge_idx == self.edges_at(src_idx.0 as int)[x_0 as int]); }
@@end
@@fn src/network/graph/mod.rs :: EdgeAccessor::offset_indices
%ty 0 Vec<EdgeIdx>
%spec
    requires self.ok_node(idx.0 as int),
    ensures r@ == self.edges_at(idx.0 as int),
%loop 0
        invariant self.ok_node(idx.0 as int), self.offsets@[idx.0 as int] <= i_0 <= n_0, n_0 == self.offsets@[idx.0 + 1],
            r_0@ =~= self.xwd_to_fwd_map@.subrange(self.offsets@[idx.0 as int] as int, i_0 as int),
        decreases n_0 - i_0,
@@end
}
impl<'a> MetricAccessor<'a> {
@@fn src/network/graph/mod.rs :: MetricAccessor::dim [id=MetricAccessor::dim]
%spec
    ensures r == self.cfg.edges.metrics.units@.len(),
@@end
@@fn src/network/graph/mod.rs :: MetricAccessor::mean
%spec
    requires self.means is Some ==> idx.0 < self.means->0@.len(),
    ensures r is Some == (self.means is Some), r is Some ==> r->0 == self.means->0@[idx.0 as int],
@@end
@@fn src/network/graph/mod.rs :: MetricAccessor<'a> as Index<EdgeIdx>::index [id=MetricAccessor::index]
%spec
    requires edge_idx.0 < self.metrics@.len(),
    ensures r == &self.metrics@[edge_idx.0 as int],
@@end
@@fn src/network/graph/mod.rs :: MetricAccessor<'a> as Index<&EdgeIdx>::index [id=MetricAccessor::index_ref; as=index_ref]
%spec
    requires edge_idx.0 < self.metrics@.len(),
    ensures r == &self.metrics@[edge_idx.0 as int],
@@end
}
