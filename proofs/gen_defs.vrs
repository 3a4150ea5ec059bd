// ---------------------------------------------------------------- frames
pub open spec fn eq_nodes(a: &Graph, b: &Graph) -> bool { a.node_ids@ == b.node_ids@ && a.node_coords@ == b.node_coords@ && a.node_ch_levels@ == b.node_ch_levels@ }
pub open spec fn eq_fwd(a: &Graph, b: &Graph) -> bool { a.fwd_dsts@ == b.fwd_dsts@ && a.bwd_dsts@ == b.bwd_dsts@ && a.fwd_offsets@ == b.fwd_offsets@ && a.fwd_to_fwd_map@ == b.fwd_to_fwd_map@ }
pub open spec fn eq_ids(a: &Graph, b: &Graph) -> bool { a.edge_ids@ == b.edge_ids@ && a.edge_ids_to_idx_map@ == b.edge_ids_to_idx_map@ }
pub open spec fn eq_bwd(a: &Graph, b: &Graph) -> bool { a.bwd_offsets@ == b.bwd_offsets@ && a.bwd_to_fwd_map@ == b.bwd_to_fwd_map@ }
pub open spec fn eq_sc(a: &Graph, b: &Graph) -> bool { a.sc_offsets@ == b.sc_offsets@ && a.sc_edges@ == b.sc_edges@ }
/// the ids with the indices of their edges
pub open spec fn ids_listed(ids: Seq<Option<usize>>, l: Seq<(usize, EdgeIdx)>) -> bool {
    &&& forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).1.0 < ids.len() && ids[l[j].1.0 as int] == Some(l[j].0)
    &&& forall|e: int| 0 <= e < ids.len() && (#[trigger] ids[e]) is Some ==> id_at(l, e)
    &&& forall|j: int, k: int| 0 <= j < k < l.len() ==> (#[trigger] l[j]).1 != (#[trigger] l[k]).1
}
pub open spec fn id_at(l: Seq<(usize, EdgeIdx)>, e: int) -> bool { exists|j: int| 0 <= j < l.len() && (#[trigger] l[j]).1.0 == e }
pub open spec fn unique_ids(ids: Seq<Option<usize>>) -> bool { forall|i: int, j: int| 0 <= i < j < ids.len() && (#[trigger] ids[i]) is Some && (#[trigger] ids[j]) is Some ==> ids[i] != ids[j] }
pub open spec fn wide(ms: Seq<Vec<F64>>, d: int) -> bool { forall|e: int| 0 <= e < ms.len() ==> (#[trigger] ms[e])@.len() == d }
pub open spec fn ids_ok(g: &Graph) -> bool { g.edge_ids@.len() == g.m() && unique_ids(g.edge_ids@) && sorted_ids(g.edge_ids_to_idx_map@) && ids_listed(g.edge_ids@, g.edge_ids_to_idx_map@) }
