// ---------------------------------------------------------------- src/network/routes.rs
@@item src/network/routes.rs :: RoutePair [derive=Copy, Clone]
impl RoutePair<i64> {
@@fn src/network/routes.rs :: RoutePair<i64>::into_idx [id=RoutePair::into_idx]
%spec
    requires sorted_i64(graph.node_ids@), graph.node_ids@.contains(self.src), graph.node_ids@.contains(self.dst),      // documented: panics otherwise
    ensures r.src.0 < graph.node_ids@.len(), graph.node_ids@[r.src.0 as int] == self.src, r.dst.0 < graph.node_ids@.len(), graph.node_ids@[r.dst.0 as int] == self.dst,
@@end
@@fn src/network/routes.rs :: RoutePair<i64>::into_node [id=RoutePair::into_node]
%spec
    requires sorted_i64(graph.node_ids@), graph.node_coords@.len() == graph.node_ids@.len(), graph.node_ch_levels@.len() == graph.node_ids@.len(),
        graph.node_ids@.contains(self.src), graph.node_ids@.contains(self.dst),      // documented: panics otherwise
    ensures r.src.id == self.src, r.src.idx.0 < graph.node_ids@.len(), graph.node_ids@[r.src.idx.0 as int] == self.src, r.src.coord == graph.node_coords@[r.src.idx.0 as int], r.src.level == graph.node_ch_levels@[r.src.idx.0 as int],
        r.dst.id == self.dst, r.dst.idx.0 < graph.node_ids@.len(), graph.node_ids@[r.dst.idx.0 as int] == self.dst, r.dst.coord == graph.node_coords@[r.dst.idx.0 as int], r.dst.level == graph.node_ch_levels@[r.dst.idx.0 as int],
@@end
}
impl RoutePair<NodeIdx> {
@@fn src/network/routes.rs :: RoutePair<NodeIdx>::into_node [id=RoutePairIdx::into_node]
%spec
    requires self.src.0 < graph.node_ids@.len(), self.dst.0 < graph.node_ids@.len(), graph.node_coords@.len() == graph.node_ids@.len(), graph.node_ch_levels@.len() == graph.node_ids@.len(),
    ensures r.src.idx == self.src, r.src.id == graph.node_ids@[self.src.0 as int], r.src.coord == graph.node_coords@[self.src.0 as int],
        r.dst.idx == self.dst, r.dst.id == graph.node_ids@[self.dst.0 as int], r.dst.coord == graph.node_coords@[self.dst.0 as int],
@@end
}
