proof fn lem_chunk(d: int) requires 0 < d <= 20_000 ensures MAX_BYTE_PER_CHUNK as int / d >= 1
{ assert(200_000_000int / d >= 1) by(nonlinear_arith) requires 0 < d <= 20_000; }
impl ProtoEdge {
@@fn src/network/graph/building.rs :: ProtoEdge as MemSize::mem_size_b [id=ProtoEdge::mem_size_b; nopub]
%spec
    ensures 0 < r <= 10_000,
@@end
}
impl ProtoShortcut {
@@fn src/network/graph/building.rs :: ProtoShortcut::mem_size_b [id=ProtoShortcut::mem_size_b]
%spec
    ensures 0 < r <= 20_000, MAX_BYTE_PER_CHUNK as int / r as int >= 1,
%end
    proof { lem_chunk(out_ as int); }
@@end
}
impl ProtoEdgeB {
@@fn src/network/graph/building.rs :: ProtoEdgeB as MemSize::mem_size_b [id=ProtoEdgeB::mem_size_b; nopub]
%spec
    ensures 0 < r <= 10_000, MAX_BYTE_PER_CHUNK as int / r as int >= 1,
%end
    proof { lem_chunk(out_ as int); }
@@end
}
// ---------------------------------------------------------------- sections of GraphBuilder::finalize
impl Graph {
@@fn src/network/graph/building.rs :: Graph::new [id=Graph::new; nopub; map=parsing::Config>ParsingConfig]
%spec
    ensures r.cfg == cfg, r.node_ids@.len() == 0, r.fwd_dsts@.len() == 0, r.bwd_dsts@.len() == 0, r.fwd_offsets@.len() == 0, r.fwd_to_fwd_map@.len() == 0, r.bwd_offsets@.len() == 0, r.bwd_to_fwd_map@.len() == 0,
        r.metrics@.len() == 0, r.means is None, r.edge_ids@.len() == 0, r.edge_ids_to_idx_map@.len() == 0, r.sc_offsets@.len() == 0, r.sc_edges@.len() == 0,
@@end
@@fn src/network/graph/building.rs :: Graph::shrink_to_fit [nopub]
%spec
    ensures eq_nodes(final(self), old(self)), eq_fwd(final(self), old(self)), eq_ids(final(self), old(self)), eq_bwd(final(self), old(self)), eq_sc(final(self), old(self)), final(self).cfg == old(self).cfg, final(self).metrics@ == old(self).metrics@, final(self).means == old(self).means,
@@end
}
pub open spec fn coords_of(o: Seq<Option<Coordinate>>, c: Seq<Coordinate>) -> bool { o.len() == c.len() && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == Some(c[i]) }
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_nodes]
%from
    { for (idx, opt_coord) in
%to
    let mut proto_edges = {
%sig
fn fin_nodes(graph: &mut Graph, node_ids: Vec<i64>, node_coords: Vec<Option<Coordinate>>, node_ch_levels: Vec<usize>) -> Result<(), Msg>
%tail
    Ok(())
%rw: self.node_ids => node_ids
%rw: self.node_coords => node_coords
%rw: self.node_ch_levels => node_ch_levels
%spec
    requires node_coords@.len() == node_ids@.len(),
    ensures r is Ok ==> final(graph).node_ids@ == node_ids@ && final(graph).node_ch_levels@ == node_ch_levels@ && coords_of(node_coords@, final(graph).node_coords@)
            && final(graph).cfg == old(graph).cfg && eq_fwd(final(graph), old(graph)) && eq_bwd(final(graph), old(graph)) && eq_ids(final(graph), old(graph)) && eq_sc(final(graph), old(graph))
            && final(graph).metrics@ == old(graph).metrics@ && final(graph).means == old(graph).means,
        r is Err ==> exists|i: int| 0 <= i < node_coords@.len() && #[trigger] node_coords@[i] is None,
%loop 0
        invariant i_0 <= node_coords@.len(), *graph == *old(graph), node_coords@.len() == node_ids@.len(), forall|i: int| 0 <= i < i_0 ==> #[trigger] node_coords@[i] is Some,
        decreases node_coords@.len() - i_0,
%loop 1
        invariant i_1 <= s_1@.len(), s_1@ == node_coords@, forall|i: int| 0 <= i < s_1@.len() ==> #[trigger] s_1@[i] is Some, r_1@.len() == i_1, forall|i: int| 0 <= i < i_1 ==> s_1@[i] == Some(#[trigger] r_1@[i]),
        decreases s_1@.len() - i_1,
@@end
/// edge with its ends replaced by the nodes' indices
pub open spec fn located(ids: Seq<i64>, a: ProtoEdgeA, b: ProtoEdgeB) -> bool {
    b.idx == a.idx && b.id == a.id && b.metrics == a.metrics && b.sc_edges == a.sc_edges && b.src_idx.0 < ids.len() && b.dst_idx.0 < ids.len() && ids[b.src_idx.0 as int] == a.src_id && ids[b.dst_idx.0 as int] == a.dst_id }
pub open spec fn ends_in(ids: Seq<i64>, a: Seq<ProtoEdgeA>) -> bool { forall|i: int| 0 <= i < a.len() ==> ids.contains((#[trigger] a[i]).src_id) && ids.contains(a[i].dst_id) }
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_indices]
%from
    let mut proto_edges = {
%to
    { if !IS_USING_CH_LEVEL_SPEEDUP
%sig
fn fin_indices(graph: &Graph, proto_edges_a: Vec<ProtoEdgeA>) -> Vec<ProtoEdgeB>
%head
    let mut proto_edges_a = proto_edges_a;
%tail
    proto_edges
%rw: self.proto_edges => proto_edges_a
%ty 0 Vec<ProtoEdgeB>
%spec
    requires sorted_i64(graph.node_ids@), ends_in(graph.node_ids@, proto_edges_a@),
    ensures r@.len() == proto_edges_a@.len(), forall|i: int| 0 <= i < r@.len() ==> located(graph.node_ids@, proto_edges_a@[i], #[trigger] r@[i]),
%start
    let ghost o = proto_edges_a@;
%loop 0
        invariant max_chunk_size >= 1, nodes.node_ids == &graph.node_ids, sorted_i64(graph.node_ids@), ends_in(graph.node_ids@, o), proto_edges_a@.len() + new_proto_edges@.len() == o.len(),
            proto_edges_a@ == o.reverse().subrange(0, proto_edges_a@.len() as int),
            forall|i: int| 0 <= i < new_proto_edges@.len() ==> located(graph.node_ids@, o[i], #[trigger] new_proto_edges@[i]),
        decreases proto_edges_a@.len(),
%loop 0 start
    let ghost l0 = proto_edges_a@; let ghost n0 = new_proto_edges@.len();
%hint 1 v
%loop 1 before
    proof {
        assert forall|j: int| 0 <= j < chunk@.len() implies #[trigger] chunk@[j] == o[n0 + j] by { let k = l0.len() - 1 - j; assert(l0[k] == o.reverse()[k]); }
        assert(proto_edges_a@ =~= o.reverse().subrange(0, proto_edges_a@.len() as int));
    }
%loop 1
        invariant i_1 <= chunk@.len(), nodes.node_ids == &graph.node_ids, sorted_i64(graph.node_ids@), ends_in(graph.node_ids@, o), new_proto_edges@.len() == n0 + i_1, n0 + chunk@.len() + proto_edges_a@.len() == o.len(),
            forall|j: int| 0 <= j < chunk@.len() ==> #[trigger] chunk@[j] == o[n0 + j],
            forall|i: int| 0 <= i < new_proto_edges@.len() ==> located(graph.node_ids@, o[i], #[trigger] new_proto_edges@[i]),
        decreases chunk@.len() - i_1,
%loop 1 start
    proof { assert(edge == o[n0 + x_1]); }
@@end
pub open spec fn in_graph(n: int, x: ProtoEdgeB) -> bool { x.src_idx.0 < n && x.dst_idx.0 < n }
/// edges ascending by source, edges of the same source by descending level of the destination
pub open spec fn fwd_le(g: &Graph, x: ProtoEdgeB, y: ProtoEdgeB) -> bool {
    x.src_idx.0 < y.src_idx.0 || (x.src_idx == y.src_idx && g.node_ch_levels@[x.dst_idx.0 as int] >= g.node_ch_levels@[y.dst_idx.0 as int]) }
pub open spec fn fwd_sorted(g: &Graph, s: Seq<ProtoEdgeB>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> fwd_le(g, #[trigger] s[i], #[trigger] s[j]) }
pub open spec fn rearranged<T>(p: Seq<int>, q: Seq<int>, a: Seq<T>, b: Seq<T>) -> bool { is_perm(p, q, a.len() as int) && b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]] }
pub open spec fn fwd_key(g: &Graph, e: ProtoEdgeB) -> (NodeIdx, Reverse<usize>, NodeIdx, Option<usize>) { (e.src_idx, Reverse(g.node_ch_levels@[e.dst_idx.0 as int]), e.dst_idx, e.id) }
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_sort_fwd]
%from
    { if !IS_USING_CH_LEVEL_SPEEDUP { proto_edges.sort_by_key(|edge| (edge.src_idx
%to
    { if self.proto_shortcuts
%sig
fn fin_sort_fwd(graph: &Graph, proto_edges: Vec<ProtoEdgeB>) -> Vec<ProtoEdgeB>
%head
    let mut proto_edges = proto_edges;
%tail
    proto_edges
%ty 0 Vec<(NodeIdx, NodeIdx, Option<usize>)>
%ty 1 Vec<(NodeIdx, Reverse<usize>, NodeIdx, Option<usize>)>
%spec
    requires forall|i: int| 0 <= i < proto_edges@.len() ==> in_graph(graph.node_ch_levels@.len() as int, #[trigger] proto_edges@[i]),
    ensures fwd_sorted(graph, r@), exists|p: Seq<int>, q: Seq<int>| #[trigger] rearranged(p, q, proto_edges@, r@),
%start
    let ghost mut keys = Seq::<(NodeIdx, Reverse<usize>, NodeIdx, Option<usize>)>::empty();
    let ghost o = proto_edges@;
%loop 0
        invariant i_0 <= proto_edges@.len(), r_0@.len() == i_0,
        decreases proto_edges@.len() - i_0,
%loop 1
        invariant i_1 <= proto_edges@.len(), proto_edges@ == o, r_1@.len() == i_1, nodes.node_ch_levels == &graph.node_ch_levels,
            forall|i: int| 0 <= i < proto_edges@.len() ==> in_graph(graph.node_ch_levels@.len() as int, #[trigger] proto_edges@[i]),
            forall|i: int| 0 <= i < i_1 ==> #[trigger] r_1@[i] == fwd_key(graph, o[i]),
        decreases proto_edges@.len() - i_1,
%loop 1 after
    proof { keys = r_1@; }
%end
    proof {
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] sorted_perm(p, q, o, proto_edges@, keys);
        assert(sorted_perm(p, q, o, proto_edges@, keys));
        assert(rearranged(p, q, o, proto_edges@));
        assert forall|i: int, j: int| 0 <= i < j < proto_edges@.len() implies fwd_le(graph, #[trigger] proto_edges@[i], #[trigger] proto_edges@[j]) by {
            assert(keys[p[i]].kle(keys[p[j]]));
            assert(keys[p[i]] == fwd_key(graph, o[p[i]]) && keys[p[j]] == fwd_key(graph, o[p[j]]));
        }
    }
@@end
// ---------------------------------------------------------------- shortcuts after sorting
/// every shortcut belongs to one edge only
pub open spec fn sc_own(s: Seq<ProtoEdgeB>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).sc_edges is Some ==> s[i].sc_edges->0 < k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).sc_edges is Some && (#[trigger] s[j]).sc_edges is Some ==> s[i].sc_edges->0 != s[j].sc_edges->0
}
pub open spec fn sc_in(s: Seq<[EdgeIdx; 2]>, m: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@[0].0 < m && s[i]@[1].0 < m }
/// the two references of b are those of a, mapped by q
pub open spec fn mapped(q: Seq<int>, a: [EdgeIdx; 2], b: [EdgeIdx; 2]) -> bool { b@[0].0 == q[a@[0].0 as int] && b@[1].0 == q[a@[1].0 as int] }
pub open spec fn mapped_all(q: Seq<int>, e: Seq<ProtoEdgeB>, a: Seq<[EdgeIdx; 2]>, b: Seq<[EdgeIdx; 2]>) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).sc_edges is Some ==> mapped(q, a[e[i].sc_edges->0 as int], b[e[i].sc_edges->0 as int]) }
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_remap]
%from
    { if self.proto_shortcuts
%to
    let mut sc_count = 0;
%sig
fn fin_remap(proto_edges: &Vec<ProtoEdgeB>, proto_shortcuts: Vec<[EdgeIdx; 2]>) -> Result<Vec<[EdgeIdx; 2]>, Msg>
%head
    let mut proto_shortcuts = proto_shortcuts;
%tail
    Ok(proto_shortcuts)
%rw: self.proto_shortcuts => proto_shortcuts
%spec
    requires sc_own(proto_edges@, proto_shortcuts@.len() as int), exists|p: Seq<int>, q: Seq<int>| #[trigger] is_perm(p, q, proto_edges@.len() as int) && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == proto_edges@[i].idx,
    ensures r is Ok == sc_in(proto_shortcuts@, proto_edges@.len() as int),
        r is Ok ==> forall|p: Seq<int>, q: Seq<int>| #[trigger] is_perm(p, q, proto_edges@.len() as int) && (forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == proto_edges@[i].idx) ==> mapped_all(q, proto_edges@, proto_shortcuts@, r->Ok_0@),
%start
    let ghost o = proto_shortcuts@; let ghost n = proto_edges@.len() as int;
    let ghost (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] is_perm(p, q, proto_edges@.len() as int) && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == proto_edges@[i].idx;
%loop 0
        invariant i_0 <= proto_shortcuts@.len(), proto_shortcuts@ == o, n == proto_edges@.len(), !r_0 ==> forall|i: int| 0 <= i < i_0 ==> (#[trigger] o[i])@[0].0 < n && o[i]@[1].0 < n,
            r_0 ==> !sc_in(o, n),
        ensures r_0 == !sc_in(o, n),
        decreases proto_shortcuts@.len() - i_0,
%loop 1
        invariant i_1 <= 2, sc_edges@ == o[x_0 as int]@, 0 <= x_0 < o.len(), n == proto_edges@.len(), i_1 >= 1 && !r_1 ==> sc_edges@[0].0 < n, i_1 >= 2 && !r_1 ==> sc_edges@[1].0 < n, r_1 ==> !sc_in(o, n),
        ensures !r_1 ==> sc_edges@[0].0 < n && sc_edges@[1].0 < n,
        decreases 2 - i_1,
%loop 2
        invariant i_2 <= n, n == proto_edges@.len(), new_indices@.len() == n, is_perm(p, q, n), forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == proto_edges@[i].idx,
            forall|i: int| 0 <= i < i_2 ==> new_indices@[#[trigger] p[i]] == i,
        decreases n - i_2,
%loop 2 start
    proof { assert(p[x_2 as int] == proto_edges@[x_2 as int].idx); assert(0 <= p[x_2 as int] < n); assert forall|i: int| 0 <= i < x_2 implies #[trigger] p[i] != p[x_2 as int] by { assert(q[p[i]] == i); assert(q[p[x_2 as int]] == x_2); } }
%loop 2 after
    proof { assert forall|k: int| 0 <= k < n implies #[trigger] new_indices@[k] == q[k] by { let i = q[k]; assert(p[i] == k); } }
%loop 3
        invariant i_3 <= n, n == proto_edges@.len(), new_indices@.len() == n, is_perm(p, q, n), forall|k: int| 0 <= k < n ==> #[trigger] new_indices@[k] == q[k],
            sc_own(proto_edges@, o.len() as int), sc_in(o, n), proto_shortcuts@.len() == o.len(),
            forall|i: int| 0 <= i < i_3 && (#[trigger] proto_edges@[i]).sc_edges is Some ==> mapped(q, o[proto_edges@[i].sc_edges->0 as int], proto_shortcuts@[proto_edges@[i].sc_edges->0 as int]),
            forall|i: int| i_3 <= i < n && (#[trigger] proto_edges@[i]).sc_edges is Some ==> o[proto_edges@[i].sc_edges->0 as int] == proto_shortcuts@[proto_edges@[i].sc_edges->0 as int],
        decreases n - i_3,
%end
    proof {
        assert forall|p2: Seq<int>, q2: Seq<int>| #[trigger] is_perm(p2, q2, n) && (forall|i: int| 0 <= i < p2.len() ==> #[trigger] p2[i] == proto_edges@[i].idx) implies mapped_all(q2, proto_edges@, o, proto_shortcuts@) by {
            assert(p2 =~= p);
            assert forall|i: int| 0 <= i < n implies #[trigger] q2[i] == q[i] by { assert(p[q2[i]] == i); assert(q[p[q2[i]]] == q2[i]); }
            assert(q2 =~= q);
        }
    }
@@end
// ---------------------------------------------------------------- duplicates
pub open spec fn dup(x: ProtoEdgeB, y: ProtoEdgeB) -> bool { x.id == y.id && x.src_idx == y.src_idx && x.dst_idx == y.dst_idx && all_eq(x.metrics@, y.metrics@) }
/// c: where an edge went, f: where it came from
pub open spec fn merged(o: Seq<ProtoEdgeB>, b: Seq<ProtoEdgeB>, c: Seq<int>, f: Seq<int>) -> bool {
    &&& c.len() == o.len() && f.len() == b.len()
    &&& forall|k: int| 0 <= k < b.len() ==> 0 <= #[trigger] f[k] < o.len() && c[f[k]] == k && b[k] == o[f[k]]
    &&& forall|k: int, l: int| 0 <= k < l < b.len() ==> #[trigger] f[k] < #[trigger] f[l]
    &&& forall|i: int| 0 <= i < o.len() ==> 0 <= #[trigger] c[i] < b.len() && (f[c[i]] == i || dup(o[f[c[i]]], o[i]))
}
pub open spec fn partly(o: Seq<ProtoEdgeB>, b: Seq<ProtoEdgeB>, c: Seq<int>, f: Seq<int>, r: int, w: int) -> bool {
    &&& 1 <= w <= r <= o.len() && b.len() == o.len() && merged(o.subrange(0, r), b.subrange(0, w), c, f)
    &&& forall|i: int| r <= i < o.len() ==> #[trigger] b[i] == o[i]
}
pub open spec fn cnt(s: Seq<usize>, j: int, x: int) -> int decreases s.len() - j { if j >= s.len() || j < 0 { 0 } else { (if s[j] <= x { 1int } else { 0int }) + cnt(s, j + 1, x) } }
proof fn lem_cnt_push(s: Seq<usize>, v: usize, j: int, x: int) requires 0 <= j <= s.len() ensures cnt(s.push(v), j, x) == cnt(s, j, x) + (if v <= x { 1int } else { 0int }) decreases s.len() - j
{ let t = s.push(v); if j < s.len() { assert(t[j] == s[j]); lem_cnt_push(s, v, j + 1, x); } else { assert(t[j] == v); assert(cnt(t, j + 1, x) == 0); } }
proof fn lem_cnt_all(s: Seq<usize>, j: int, x: int) requires 0 <= j <= s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= x ensures cnt(s, j, x) == s.len() - j decreases s.len() - j
{ if j < s.len() { lem_cnt_all(s, j + 1, x); } }
pub open spec fn rising(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
proof fn lem_cnt_few(s: Seq<usize>, j: int, x: int) requires rising(s), 0 <= j <= s.len() ensures cnt(s, j, x) >= 0, j >= 1 && x >= s[j - 1] ==> cnt(s, j, x) <= x - s[j - 1] decreases s.len() - j
{ if j < s.len() { lem_cnt_few(s, j + 1, x); if j >= 1 { assert(s[j - 1] < s[j]); } if s[j] > x { lem_cnt_none(s, j, x); } } }
proof fn lem_cnt_none(s: Seq<usize>, j: int, x: int) requires rising(s), 0 <= j < s.len(), s[j] > x ensures cnt(s, j, x) == 0 decreases s.len() - j
{ if j + 1 < s.len() { assert(s[j] < s[j + 1]); lem_cnt_none(s, j + 1, x); } else { assert(cnt(s, j + 1, x) == 0); } }
/// position of a sorted edge after the removals
pub open spec fn ranked(c: Seq<int>, s: Seq<usize>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == i - cnt(s, 0, i) }
proof fn lem_keep(o: Seq<ProtoEdgeB>, b: Seq<ProtoEdgeB>, c: Seq<int>, f: Seq<int>, r: int, w: int, s: Seq<usize>)
    requires partly(o, b, c, f, r, w), r < o.len(), s.len() == r - w, ranked(c, s), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < r,
    ensures partly(o, b.update(w, b[r]).update(r, b[w]), c.push(w), f.push(r), r + 1, w + 1), ranked(c.push(w), s),
{
    let b2 = b.update(w, b[r]).update(r, b[w]); let (c2, f2) = (c.push(w), f.push(r));
    let (o1, b1) = (o.subrange(0, r + 1), b2.subrange(0, w + 1));
    let (o0, b0) = (o.subrange(0, r), b.subrange(0, w));
    assert(b2[w] == o[r]) by { assert(b[r] == o[r]); }
    assert forall|k: int| 0 <= k < b1.len() implies 0 <= #[trigger] f2[k] < o1.len() && c2[f2[k]] == k && b1[k] == o1[f2[k]] by { if k < w { assert(f2[k] == f[k]); assert(b0[k] == o0[f[k]]); } }
    assert forall|k: int, l: int| 0 <= k < l < b1.len() implies #[trigger] f2[k] < #[trigger] f2[l] by { assert(f2[k] == f[k]); if l < w { assert(f[k] < f[l]); } }
    assert forall|i: int| 0 <= i < o1.len() implies 0 <= #[trigger] c2[i] < b1.len() && (f2[c2[i]] == i || dup(o1[f2[c2[i]]], o1[i])) by { if i < r { assert(c2[i] == c[i]); assert(f2[c[i]] == f[c[i]]); assert(o0[i] == o[i]); assert(o0[f[c[i]]] == o[f[c[i]]]); } }
    assert forall|i: int| r + 1 <= i < o.len() implies #[trigger] b2[i] == o[i] by { assert(b[i] == o[i]); }
    assert forall|i: int| 0 <= i < c2.len() implies #[trigger] c2[i] == i - cnt(s, 0, i) by { if i < r { assert(c2[i] == c[i]); } else { lem_cnt_all(s, 0, r); } }
}
proof fn lem_drop(o: Seq<ProtoEdgeB>, b: Seq<ProtoEdgeB>, c: Seq<int>, f: Seq<int>, r: int, w: int, s: Seq<usize>)
    requires partly(o, b, c, f, r, w), r < o.len(), s.len() == r - w, ranked(c, s), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < r, dup(b[w - 1], b[r]), r <= usize::MAX,
    ensures partly(o, b, c.push(w - 1), f, r + 1, w), ranked(c.push(w - 1), s.push(r as usize)),
{
    let c2 = c.push(w - 1); let s2 = s.push(r as usize);
    let (o1, b1) = (o.subrange(0, r + 1), b.subrange(0, w));
    let o0 = o.subrange(0, r);
    assert(b[r] == o[r]);
    assert forall|k: int| 0 <= k < b1.len() implies 0 <= #[trigger] f[k] < o1.len() && c2[f[k]] == k && b1[k] == o1[f[k]] by { assert(b1[k] == o0[f[k]]); }
    assert forall|i: int| 0 <= i < o1.len() implies 0 <= #[trigger] c2[i] < b1.len() && (f[c2[i]] == i || dup(o1[f[c2[i]]], o1[i])) by {
        if i < r { assert(c2[i] == c[i]); assert(o0[i] == o[i]); assert(o0[f[c[i]]] == o[f[c[i]]]); } else { assert(b1[w - 1] == o0[f[w - 1]]); assert(o1[f[w - 1]] == b[w - 1]); } }
    assert forall|i: int| 0 <= i < c2.len() implies #[trigger] c2[i] == i - cnt(s2, 0, i) by { lem_cnt_push(s, r as usize, 0, i); if i < r { assert(c2[i] == c[i]); } else { lem_cnt_all(s, 0, r); } }
}
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_dedup]
%from
    let mut sc_count = 0;
%to
    let mut new_sc_edges
%sig
fn fin_dedup(proto_edges: Vec<ProtoEdgeB>, proto_shortcuts: Vec<[EdgeIdx; 2]>) -> (Vec<ProtoEdgeB>, Vec<[EdgeIdx; 2]>, usize)
%head
    let mut proto_edges = proto_edges;
    let mut proto_shortcuts = proto_shortcuts;
%tail
    (proto_edges, proto_shortcuts, sc_count)
%rw: self.proto_shortcuts => proto_shortcuts
%rw: **shortcut => shortcut.0
%spec
    requires sc_own(proto_edges@, proto_shortcuts@.len() as int),
        forall|i: int| 0 <= i < proto_edges@.len() && (#[trigger] proto_edges@[i]).sc_edges is Some ==> proto_shortcuts@[proto_edges@[i].sc_edges->0 as int]@[0].0 < proto_edges@.len() && proto_shortcuts@[proto_edges@[i].sc_edges->0 as int]@[1].0 < proto_edges@.len(),
    ensures exists|c: Seq<int>, f: Seq<int>| #[trigger] merged(proto_edges@, r.0@, c, f) && mapped_all(c, r.0@, proto_shortcuts@, r.1@),
%start
    let ghost o = proto_edges@; let ghost sc = proto_shortcuts@; let ghost n = o.len() as int;
    let ghost mut c: Seq<int> = if n > 0 { seq![0int] } else { Seq::empty() };
    let ghost mut f: Seq<int> = c;
%loop 0 before
    proof { if n > 0 { assert(partly(o, proto_edges@, c, f, 1, 1)); assert(cnt(removed_indices@, 0, 0) == 0); } }
%loop 0
        invariant proto_edges@.len() == n, n == o.len(), w >= 1, n == 0 ==> removed_indices@.len() == 0 && i_0 == 1 && w == 1 && c.len() == 0 && f.len() == 0, n > 0 ==> i_0 <= n && partly(o, proto_edges@, c, f, i_0 as int, w as int) && removed_indices@.len() == i_0 - w && ranked(c, removed_indices@),
            n_0 == n, rising(removed_indices@), forall|i: int| 0 <= i < removed_indices@.len() ==> 1 <= #[trigger] removed_indices@[i] < i_0,
        decreases n - i_0,
%loop 1
        invariant_except_break is_eq, forall|i: int| 0 <= i < i_1 ==> aeq((#[trigger] e0.metrics@[i])@, e1.metrics@[i]@),
        invariant i_1 <= e0.metrics@.len(), i_1 <= e1.metrics@.len(),
        ensures is_eq == all_eq(e0.metrics@, e1.metrics@),
        decreases e0.metrics@.len() - i_1,
%before: removed_indices.push(r);
    proof { lem_drop(o, proto_edges@, c, f, r as int, w as int, removed_indices@); c = c.push(w - 1); }
%before: proto_edges.swap(w, r);
    proof { lem_keep(o, proto_edges@, c, f, r as int, w as int, removed_indices@); c = c.push(w as int); f = f.push(r as int); }
%before: proto_edges.truncate
    let ghost b9 = proto_edges@;
%before: for edge in proto_edges.iter()
    proof { 
        if n > 0 { assert(o.subrange(0, n) =~= o); assert(proto_edges@ =~= b9.subrange(0, w as int)); } else { assert(proto_edges@ =~= o); }
        assert(merged(o, proto_edges@, c, f));
        assert(ranked(c, removed_indices@));
        assert forall|i: int, j: int| 0 <= i < j < proto_edges@.len() && (#[trigger] proto_edges@[i]).sc_edges is Some && (#[trigger] proto_edges@[j]).sc_edges is Some implies proto_edges@[i].sc_edges->0 != proto_edges@[j].sc_edges->0 by { assert(f[i] < f[j]); let (x, y) = (o[f[i]], o[f[j]]); }
        assert forall|i: int| 0 <= i < proto_edges@.len() && (#[trigger] proto_edges@[i]).sc_edges is Some implies proto_edges@[i].sc_edges->0 < sc.len() && sc[proto_edges@[i].sc_edges->0 as int]@[0].0 < n && sc[proto_edges@[i].sc_edges->0 as int]@[1].0 < n by { let x = o[f[i]]; }
    }
%loop 2
        invariant i_2 <= proto_edges@.len(), proto_shortcuts@.len() == sc.len(), sc_own(proto_edges@, sc.len() as int), ranked(c, removed_indices@), c.len() == n, rising(removed_indices@), sc_count <= i_2, forall|i: int| 0 <= i < removed_indices@.len() ==> 1 <= #[trigger] removed_indices@[i],
            forall|i: int| 0 <= i < proto_edges@.len() && (#[trigger] proto_edges@[i]).sc_edges is Some ==> sc[proto_edges@[i].sc_edges->0 as int]@[0].0 < n && sc[proto_edges@[i].sc_edges->0 as int]@[1].0 < n,
            forall|i: int| 0 <= i < i_2 && (#[trigger] proto_edges@[i]).sc_edges is Some ==> mapped(c, sc[proto_edges@[i].sc_edges->0 as int], proto_shortcuts@[proto_edges@[i].sc_edges->0 as int]),
            forall|i: int| i_2 <= i < proto_edges@.len() && (#[trigger] proto_edges@[i]).sc_edges is Some ==> sc[proto_edges@[i].sc_edges->0 as int] == proto_shortcuts@[proto_edges@[i].sc_edges->0 as int],
        decreases proto_edges@.len() - i_2,
%before: let shortcuts = &mut
    let ghost og = sc[sc_idx as int]@;
    proof { assert(proto_edges@[x_2 as int].sc_edges == Some(sc_idx)); }
%loop 3
        invariant i_3 <= removed_indices@.len(), rising(removed_indices@), og.len() == 2, forall|i: int| 0 <= i < removed_indices@.len() ==> 1 <= #[trigger] removed_indices@[i],
            forall|t: int| 0 <= t < 2 ==> (#[trigger] shortcuts@[t]).0 == og[t].0 - cnt(removed_indices@, removed_indices@.len() - i_3, og[t].0 as int),
        decreases removed_indices@.len() - i_3,
%loop 3 start
    let ghost j = removed_indices@.len() - i_3;
    proof { lem_cnt_few(removed_indices@, j + 1, og[0].0 as int); lem_cnt_few(removed_indices@, j + 1, og[1].0 as int); }
%loop 4
        invariant i_4 <= 2, og.len() == 2, 0 <= j < removed_indices@.len(), removed_indices@[j] >= 1, rising(removed_indices@), *removed_idx == removed_indices@[j],
            forall|t: int| i_4 <= t < 2 ==> (#[trigger] shortcuts@[t]).0 == og[t].0 - cnt(removed_indices@, j + 1, og[t].0 as int),
            forall|t: int| 0 <= t < i_4 ==> (#[trigger] shortcuts@[t]).0 == og[t].0 - cnt(removed_indices@, j, og[t].0 as int),
            forall|t: int| 0 <= t < 2 ==> cnt(removed_indices@, j + 1, (#[trigger] og[t]).0 as int) >= 0 && (og[t].0 >= removed_indices@[j] ==> cnt(removed_indices@, j + 1, og[t].0 as int) <= og[t].0 - removed_indices@[j]),
        decreases 2 - i_4,
%end
    proof { assert(merged(o, out_.0@, c, f)); assert(mapped_all(c, out_.0@, sc, out_.1@)); }
@@end
// ---------------------------------------------------------------- metrics
pub open spec fn raised1(a: Ext, b: F64) -> bool { b@ == (if aeq(a, Ext::Fin(0real)) { Ext::Fin(F64_ABS_r()) } else { a }) }
pub open spec fn raised(a: Seq<F64>, b: Seq<F64>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> raised1(a[i]@, #[trigger] b[i]) }
impl Graph {
@@fn src/network/graph/building.rs :: Graph::add_metrics [nopub]
%rw: proto_edge.metrics.clone() => vec_copy(&proto_edge.metrics)
%spec
    ensures r is Ok, final(self).metrics@.len() == old(self).metrics@.len() + 1, final(self).metrics@.drop_last() == old(self).metrics@, raised(old(proto_edge).metrics@, final(self).metrics@.last()@),
        final(self).cfg == old(self).cfg, eq_nodes(final(self), old(self)), eq_fwd(final(self), old(self)), eq_bwd(final(self), old(self)), eq_ids(final(self), old(self)), eq_sc(final(self), old(self)), final(self).means == old(self).means,
        final(proto_edge).id == old(proto_edge).id, final(proto_edge).src_idx == old(proto_edge).src_idx, final(proto_edge).dst_idx == old(proto_edge).dst_idx, final(proto_edge).sc_edges == old(proto_edge).sc_edges,
%start
    let ghost o = proto_edge.metrics@;
%loop 0
        invariant o == old(proto_edge).metrics@, *self == *old(self), i_0 <= n_0, n_0 == o.len(), proto_edge.metrics@.len() == o.len(), forall|i: int| 0 <= i < i_0 ==> raised1(o[i]@, #[trigger] proto_edge.metrics@[i]), forall|i: int| i_0 <= i < o.len() ==> #[trigger] proto_edge.metrics@[i] == o[i],
            proto_edge.id == old(proto_edge).id, proto_edge.src_idx == old(proto_edge).src_idx, proto_edge.dst_idx == old(proto_edge).dst_idx, proto_edge.sc_edges == old(proto_edge).sc_edges,
        decreases n_0 - i_0,
%end
    proof { assert(self.metrics@.drop_last() =~= old(self).metrics@); }
@@end
}
pub open spec fn lean(x: ProtoEdgeB, y: ProtoEdgeC) -> bool { y.id == x.id && y.src_idx == x.src_idx && y.dst_idx == x.dst_idx }
/// the shortcuts in the order of their edges
pub open spec fn sc_list(e: Seq<ProtoEdgeB>, sc: Seq<[EdgeIdx; 2]>, l: Seq<(usize, [EdgeIdx; 2])>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 < (#[trigger] l[j]).0
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 < e.len() && e[l[i].0 as int].sc_edges is Some && l[i].1 == sc[e[l[i].0 as int].sc_edges->0 as int]
    &&& forall|x: int| 0 <= x < e.len() && (#[trigger] e[x]).sc_edges is Some ==> listed_at(l, x)
}
pub open spec fn listed_at(l: Seq<(usize, [EdgeIdx; 2])>, x: int) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == x }
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_metrics]
%from
    let mut new_sc_edges
%to
    for metrics in &graph.metrics
%sig
fn fin_metrics(graph: &mut Graph, proto_edges: Vec<ProtoEdgeB>, proto_shortcuts: &Vec<[EdgeIdx; 2]>, sc_count: usize) -> Result<(Vec<(usize, [EdgeIdx; 2])>, Vec<ProtoEdgeC>), Msg>
%head
    let mut proto_edges = proto_edges;
%tail
    Ok((new_sc_edges, proto_edges))
%rw: self.proto_shortcuts => proto_shortcuts
%spec
    requires sc_own(proto_edges@, proto_shortcuts@.len() as int),
    ensures r is Ok, sc_list(proto_edges@, proto_shortcuts@, (r->Ok_0).0@), (r->Ok_0).1@.len() == proto_edges@.len(), forall|i: int| 0 <= i < proto_edges@.len() ==> lean(proto_edges@[i], #[trigger] (r->Ok_0).1@[i]),
        final(graph).metrics@.len() == proto_edges@.len(), forall|i: int| 0 <= i < proto_edges@.len() ==> raised(proto_edges@[i].metrics@, (#[trigger] final(graph).metrics@[i])@),
        final(graph).cfg == old(graph).cfg, eq_nodes(final(graph), old(graph)), eq_fwd(final(graph), old(graph)), eq_bwd(final(graph), old(graph)), eq_ids(final(graph), old(graph)), eq_sc(final(graph), old(graph)), final(graph).means == old(graph).means,
%start
    let ghost o = proto_edges@; let ghost n = o.len() as int;
    proof { assert(proto_edges.len() <= usize::MAX); }
%loop 0
        invariant max_chunk_size >= 1, n == o.len(), n <= usize::MAX, sc_own(o, proto_shortcuts@.len() as int), proto_edges@.len() + new_proto_edges@.len() == n, edge_idx == new_proto_edges@.len(), proto_edges@ == o.reverse().subrange(0, proto_edges@.len() as int),
            forall|i: int| 0 <= i < edge_idx ==> lean(o[i], #[trigger] new_proto_edges@[i]), graph.metrics@.len() == edge_idx, forall|i: int| 0 <= i < edge_idx ==> raised(o[i].metrics@, (#[trigger] graph.metrics@[i])@),
            sc_list(o.subrange(0, edge_idx as int), proto_shortcuts@, new_sc_edges@),
            graph.cfg == old(graph).cfg, eq_nodes(graph, old(graph)), eq_fwd(graph, old(graph)), eq_bwd(graph, old(graph)), eq_ids(graph, old(graph)), eq_sc(graph, old(graph)), graph.means == old(graph).means,
        decreases proto_edges@.len(),
%loop 0 start
    let ghost l0 = proto_edges@; let ghost n0 = new_proto_edges@.len();
%hint 1 v
%loop 1 before
    proof {
        assert forall|j: int| 0 <= j < chunk@.len() implies #[trigger] chunk@[j] == o[n0 + j] by { let k = l0.len() - 1 - j; assert(l0[k] == o.reverse()[k]); }
        assert(proto_edges@ =~= o.reverse().subrange(0, proto_edges@.len() as int));
    }
%loop 1
        invariant i_1 <= chunk@.len(), n == o.len(), n <= usize::MAX, sc_own(o, proto_shortcuts@.len() as int), n0 + chunk@.len() + proto_edges@.len() == n, new_proto_edges@.len() == n0 + i_1, edge_idx == new_proto_edges@.len(),
            forall|j: int| 0 <= j < chunk@.len() ==> #[trigger] chunk@[j] == o[n0 + j],
            forall|i: int| 0 <= i < edge_idx ==> lean(o[i], #[trigger] new_proto_edges@[i]), graph.metrics@.len() == edge_idx, forall|i: int| 0 <= i < edge_idx ==> raised(o[i].metrics@, (#[trigger] graph.metrics@[i])@),
            sc_list(o.subrange(0, edge_idx as int), proto_shortcuts@, new_sc_edges@),
            graph.cfg == old(graph).cfg, eq_nodes(graph, old(graph)), eq_fwd(graph, old(graph)), eq_bwd(graph, old(graph)), eq_ids(graph, old(graph)), eq_sc(graph, old(graph)), graph.means == old(graph).means,
        decreases chunk@.len() - i_1,
%loop 1 start
    proof { assert(edge == o[n0 + x_1]); }
    let ghost g0 = graph.metrics@; let ghost s0 = new_sc_edges@; let ghost e0 = edge_idx as int;
%loop 1 end
    proof {
        assert forall|i: int| 0 <= i < edge_idx implies raised(o[i].metrics@, (#[trigger] graph.metrics@[i])@) by { if i < e0 { assert(graph.metrics@.drop_last()[i] == g0[i]); } }
        lem_sc_list(o, proto_shortcuts@, s0, new_sc_edges@, e0);
    }
%end
    proof { assert(o.subrange(0, n) =~= o); }
@@end
proof fn lem_sc_list(o: Seq<ProtoEdgeB>, sc: Seq<[EdgeIdx; 2]>, a: Seq<(usize, [EdgeIdx; 2])>, b: Seq<(usize, [EdgeIdx; 2])>, e: int)
    requires 0 <= e < o.len(), e <= usize::MAX, sc_list(o.subrange(0, e), sc, a), o[e].sc_edges is Some ==> b == a.push((e as usize, sc[o[e].sc_edges->0 as int])), o[e].sc_edges is None ==> b == a,
    ensures sc_list(o.subrange(0, e + 1), sc, b),
{
    let (x, y) = (o.subrange(0, e), o.subrange(0, e + 1));
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 < (#[trigger] b[j]).0 by { assert(b[i] == a[i]); if j < a.len() { assert(b[j] == a[j]); } }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 < y.len() && y[b[i].0 as int].sc_edges is Some && b[i].1 == sc[y[b[i].0 as int].sc_edges->0 as int] by { if i < a.len() { assert(b[i] == a[i]); assert(x[a[i].0 as int] == o[a[i].0 as int]); } }
    assert forall|k: int| 0 <= k < y.len() && (#[trigger] y[k]).sc_edges is Some implies listed_at(b, k) by {
        if k < e { assert(x[k] == o[k]); assert(listed_at(a, k)); let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k; assert(b[i].0 == k); } else { assert(b[b.len() - 1].0 == k); } }
}
/// the accuracy bounds every metric from below
pub open spec fn ge(a: Ext, b: Ext) -> bool { ecmp(a, b) == Some(Ordering::Greater) || ecmp(a, b) == Some(Ordering::Equal) }
pub open spec fn big1(a: Seq<F64>) -> bool { forall|j: int| 0 <= j < a.len() ==> ge((#[trigger] a[j])@, Ext::Fin(F64_ABS_r())) }
pub open spec fn big(g: &Graph) -> bool { forall|e: int| 0 <= e < g.metrics@.len() ==> big1((#[trigger] g.metrics@[e])@) }
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_check]
%from
    for metrics in &graph.metrics
%to
    { graph.sc_offsets =
%sig
fn fin_check(graph: &Graph) -> Result<(), Msg>
%tail
    Ok(())
%hint 1 r
%spec
    ensures r is Ok == big(graph),
%loop 0
        invariant i_0 <= graph.metrics@.len(), forall|e: int| 0 <= e < i_0 ==> big1((#[trigger] graph.metrics@[e])@),
        decreases graph.metrics@.len() - i_0,
%loop 1
        invariant i_1 <= metrics@.len(), 0 <= x_0 < graph.metrics@.len(), *metrics == graph.metrics@[x_0 as int], forall|j: int| 0 <= j < i_1 ==> ge((#[trigger] metrics@[j])@, Ext::Fin(F64_ABS_r())),
        decreases metrics@.len() - i_1,
%before: return Err(err::Msg::from("A metric
    proof { assert(!ge(metrics@[x_1 as int]@, Ext::Fin(F64_ABS_r()))); assert(!big1(graph.metrics@[x_0 as int]@)); }
@@end
// ---------------------------------------------------------------- shortcut offsets
pub open spec fn below(l: Seq<(usize, [EdgeIdx; 2])>, k: int, e: int) -> bool { 0 <= k <= l.len() && (forall|i: int| 0 <= i < k ==> (#[trigger] l[i]).0 < e) && (forall|i: int| k <= i < l.len() ==> (#[trigger] l[i]).0 >= e) }
pub open spec fn sc_placed(g: &Graph, l: Seq<(usize, [EdgeIdx; 2])>, m: int) -> bool {
    &&& g.sc_offsets@.len() == m + 1 && g.sc_edges@.len() == l.len()
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] g.sc_edges@[i] == l[i].1
    &&& forall|e: int| 0 <= e <= m ==> below(l, #[trigger] g.sc_offsets@[e] as int, e)
}
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_sc]
%from
    { graph.sc_offsets =
%to
    { let mut progress_bar = MappingBar::with_range(0, proto_edges.len()).timed(); let mut src_idx = NodeIdx(0); let mut offset = 0; graph.fwd_offsets
%sig
fn fin_sc(graph: &mut Graph, proto_edges: &Vec<ProtoEdgeC>, new_sc_edges: &Vec<(usize, [EdgeIdx; 2])>, sc_count: usize)
%spec
    requires proto_edges@.len() < usize::MAX, forall|i: int| 0 <= i < new_sc_edges@.len() ==> (#[trigger] new_sc_edges@[i]).0 < proto_edges@.len(), forall|i: int, j: int| 0 <= i < j < new_sc_edges@.len() ==> (#[trigger] new_sc_edges@[i]).0 < (#[trigger] new_sc_edges@[j]).0,
    ensures sc_placed(final(graph), new_sc_edges@, proto_edges@.len() as int),
        final(graph).cfg == old(graph).cfg, eq_nodes(final(graph), old(graph)), eq_fwd(final(graph), old(graph)), eq_bwd(final(graph), old(graph)), eq_ids(final(graph), old(graph)), final(graph).metrics@ == old(graph).metrics@, final(graph).means == old(graph).means,
%start
    let ghost l = new_sc_edges@; let ghost m = proto_edges@.len() as int;
%loop 0
        invariant n_0 == m, m == proto_edges@.len(), l == new_sc_edges@, i_0 <= m, forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 < m, forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 < (#[trigger] l[j]).0,
            graph.sc_offsets@.len() == m + 1, graph.sc_edges@.len() == sc_offset, sc_offset <= l.len(), forall|i: int| 0 <= i < sc_offset ==> #[trigger] graph.sc_edges@[i] == l[i].1,
            graph.cfg == old(graph).cfg, eq_nodes(graph, old(graph)), eq_fwd(graph, old(graph)), eq_bwd(graph, old(graph)), eq_ids(graph, old(graph)), graph.metrics@ == old(graph).metrics@, graph.means == old(graph).means,
            below(l, sc_offset as int, i_0 as int), forall|e: int| 0 <= e < i_0 ==> below(l, #[trigger] graph.sc_offsets@[e] as int, e), forall|e: int| i_0 <= e <= m ==> #[trigger] graph.sc_offsets@[e] == l.len(),
        ensures sc_offset == l.len() || i_0 == m,
        decreases m - i_0,
%loop 0 after
    proof {
        if sc_offset < l.len() { assert(l[sc_offset as int].0 >= m); }
        assert forall|e: int| 0 <= e <= m implies below(l, #[trigger] graph.sc_offsets@[e] as int, e) by { if e >= i_0 { assert(below(l, sc_offset as int, i_0 as int)); } }
    }
@@end

// ---------------------------------------------------------------- offsets
/// the first o of the first k keys are below u, the others not
pub open spec fn cut(s: Seq<int>, k: int, o: int, u: int) -> bool { 0 <= o <= k && (forall|i: int| 0 <= i < o ==> #[trigger] s[i] < u) && (forall|i: int| o <= i < k ==> #[trigger] s[i] >= u) }
pub open spec fn cuts(s: Seq<int>, k: int, off: Seq<usize>) -> bool { forall|u: int| 0 <= u < off.len() ==> cut(s, k, #[trigger] off[u] as int, u) }
pub open spec fn rising_keys(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
proof fn lem_csr(off: Seq<usize>, map: Seq<EdgeIdx>, here: Seq<NodeIdx>, s: Seq<int>, inv: Seq<int>, n: int)
    requires n >= 1, off.len() == n + 1, map.len() == here.len(), s.len() == map.len(), inv.len() == map.len(), cuts(s, s.len() as int, off), forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n,
        forall|i: int| 0 <= i < map.len() ==> (#[trigger] map[i]).0 < here.len() && here[map[i].0 as int].0 == s[i], forall|e: int| 0 <= e < here.len() ==> 0 <= #[trigger] inv[e] < map.len() && map[inv[e]].0 == e,
    ensures csr(off, map, here, n),
{
    let m = s.len() as int;
    assert(cut(s, m, off[0] as int, 0)); if off[0] > 0 { assert(s[0] < 0); }
    assert(cut(s, m, off[n] as int, n)); if off[n] < m { assert(s[off[n] as int] >= n); }
    assert forall|i: int, j: int| 0 <= i <= j < off.len() implies off[i] <= off[j] by { assert(cut(s, m, off[i] as int, i)); assert(cut(s, m, off[j] as int, j)); if off[j] < off[i] { let k = off[j] as int; assert(s[k] >= j); assert(s[k] < i); } }
    assert forall|u: int, i: int| 0 <= u < n && #[trigger] off[u] <= i < off[u + 1] implies here[(#[trigger] map[i]).0 as int].0 == u by { assert(cut(s, m, off[u] as int, u)); assert(cut(s, m, off[u + 1] as int, u + 1)); assert(s[i] >= u); assert(s[i] < u + 1); }
    assert forall|e: int| 0 <= e < here.len() implies shelved(off, map, (#[trigger] here[e]).0 as int, e) by {
        let i = inv[e]; assert(map[i].0 == e); let u = s[i]; assert(here[e].0 == u); assert(cut(s, m, off[u] as int, u)); assert(cut(s, m, off[u + 1] as int, u + 1)); assert(s[i] == u); }
    assert(mono(off)); assert(off[0] == 0); assert(off[n] == map.len());
    assert(forall|i: int| 0 <= i < map.len() ==> (#[trigger] map[i]).0 < here.len());
    assert(csr(off, map, here, n));
}
proof fn lem_ids(ids: Seq<Option<usize>>, l: Seq<(usize, EdgeIdx)>, x: Option<usize>, l2: Seq<(usize, EdgeIdx)>)
    requires ids_listed(ids, l), ids.len() <= usize::MAX, x is Some ==> l2 == l.push((x->0, EdgeIdx(ids.len() as usize))), x is None ==> l2 == l,
    ensures ids_listed(ids.push(x), l2),
{
    let i2 = ids.push(x);
    assert forall|j: int| 0 <= j < l2.len() implies (#[trigger] l2[j]).1.0 < i2.len() && i2[l2[j].1.0 as int] == Some(l2[j].0) by { if j < l.len() { assert(l2[j] == l[j]); } }
    assert forall|e: int| 0 <= e < i2.len() && (#[trigger] i2[e]) is Some implies id_at(l2, e) by { if e < ids.len() { assert(ids[e] is Some); let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j]).1.0 == e; assert(l2[j].1.0 == e); } else { assert(l2[l.len() as int].1.0 == e); } }
    assert forall|j: int, k: int| 0 <= j < k < l2.len() implies (#[trigger] l2[j]).1 != (#[trigger] l2[k]).1 by { assert(l2[j] == l[j]); if k < l.len() { assert(l2[k] == l[k]); } else { assert(l[j].1.0 < ids.len()); } }
}
pub open spec fn srcs(p: Seq<ProtoEdgeC>) -> Seq<int> { Seq::new(p.len(), |i: int| p[i].src_idx.0 as int) }
pub open spec fn dsts(p: Seq<ProtoEdgeC>) -> Seq<int> { Seq::new(p.len(), |i: int| p[i].dst_idx.0 as int) }
pub open spec fn in_graph_c(n: int, x: ProtoEdgeC) -> bool { x.src_idx.0 < n && x.dst_idx.0 < n }
/// the lists of the edges hold the edges
pub open spec fn filled(g: &Graph, p: Seq<ProtoEdgeC>, k: int) -> bool {
    &&& g.bwd_dsts@.len() == k && g.fwd_dsts@.len() == k && g.fwd_to_fwd_map@.len() == k && g.edge_ids@.len() == k && k <= p.len()
    &&& forall|i: int| 0 <= i < k ==> #[trigger] g.bwd_dsts@[i] == p[i].src_idx
    &&& forall|i: int| 0 <= i < k ==> #[trigger] g.fwd_dsts@[i] == p[i].dst_idx
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] g.fwd_to_fwd_map@[i]).0 == i
    &&& forall|i: int| 0 <= i < k ==> #[trigger] g.edge_ids@[i] == p[i].id
}
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_fwd]
%from
    { let mut progress_bar = MappingBar::with_range(0, proto_edges.len()).timed(); let mut src_idx = NodeIdx(0); let mut offset = 0; graph.fwd_offsets
%to
    if graph.edge_ids_to_idx_map.len() > 0
%sig
fn fin_fwd(graph: &mut Graph, proto_edges: Vec<ProtoEdgeC>) -> Vec<ProtoEdgeC>
%head
    let mut proto_edges = proto_edges;
%tail
    proto_edges
%rw: edge_src_idx.into() => edge_src_idx
%rw: *src_idx => src_idx.0
%spec
    requires proto_edges@.len() < usize::MAX, old(graph).n() < usize::MAX, forall|i: int| 0 <= i < proto_edges@.len() ==> in_graph_c(old(graph).n(), #[trigger] proto_edges@[i]), rising_keys(srcs(proto_edges@)),
        old(graph).fwd_offsets@.len() == 0, old(graph).fwd_dsts@.len() == 0, old(graph).bwd_dsts@.len() == 0, old(graph).fwd_to_fwd_map@.len() == 0, old(graph).edge_ids@.len() == 0, old(graph).edge_ids_to_idx_map@.len() == 0,
    ensures r@.len() == proto_edges@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).idx == i && r@[i].id == proto_edges@[i].id && r@[i].src_idx == proto_edges@[i].src_idx && r@[i].dst_idx == proto_edges@[i].dst_idx,
        filled(final(graph), proto_edges@, proto_edges@.len() as int), old(graph).n() >= 1 ==> csr(final(graph).fwd_offsets@, final(graph).fwd_to_fwd_map@, final(graph).bwd_dsts@, old(graph).n()),
        ids_listed(final(graph).edge_ids@, final(graph).edge_ids_to_idx_map@),
        final(graph).cfg == old(graph).cfg, eq_nodes(final(graph), old(graph)), eq_bwd(final(graph), old(graph)), eq_sc(final(graph), old(graph)), final(graph).metrics@ == old(graph).metrics@, final(graph).means == old(graph).means,
%start
    let ghost o = proto_edges@; let ghost s = srcs(o); let ghost n = graph.n(); let ghost m = o.len() as int;
%loop 0
        invariant m == o.len(), m < usize::MAX, n < usize::MAX, n == graph.n(), s == srcs(o), rising_keys(s), proto_edges@.len() == m, i_0 <= m, edge_idx == i_0, offset == i_0, forall|i: int| 0 <= i < m ==> in_graph_c(n, #[trigger] o[i]),
            forall|i: int| 0 <= i < m ==> (#[trigger] proto_edges@[i]).id == o[i].id && proto_edges@[i].src_idx == o[i].src_idx && proto_edges@[i].dst_idx == o[i].dst_idx, forall|i: int| 0 <= i < i_0 ==> (#[trigger] proto_edges@[i]).idx == i,
            filled(graph, o, i_0 as int), ids_listed(graph.edge_ids@, graph.edge_ids_to_idx_map@),
            graph.fwd_offsets@.len() == src_idx.0 + 1, cuts(s, i_0 as int, graph.fwd_offsets@), i_0 > 0 ==> src_idx.0 == s[i_0 - 1], i_0 == 0 ==> src_idx.0 == 0,
            graph.cfg == old(graph).cfg, eq_nodes(graph, old(graph)), eq_bwd(graph, old(graph)), eq_sc(graph, old(graph)), graph.metrics@ == old(graph).metrics@, graph.means == old(graph).means,
        decreases m - i_0,
%loop 0 start
    proof { if x_0 > 0 { assert(s[x_0 - 1] <= s[x_0 as int]); } }
    let ghost l0 = graph.edge_ids_to_idx_map@; let ghost d0 = graph.edge_ids@; let ghost g0 = graph;
%loop 0 end
    proof { lem_ids(d0, l0, o[x_0 as int].id, graph.edge_ids_to_idx_map@); assert(graph.edge_ids@ =~= d0.push(o[x_0 as int].id)); assert(s[x_0 as int] == src_idx.0); }
%loop 1
        invariant edge_src_idx == o[x_0 as int].src_idx, 0 <= x_0 < m, m == o.len(), m < usize::MAX, n < usize::MAX, n == graph.n(), s == srcs(o), rising_keys(s), offset == x_0, in_graph_c(n, o[x_0 as int]), graph.edge_ids@ == d0, graph.edge_ids_to_idx_map@ == l0,
            filled(graph, o, x_0 as int), ids_listed(graph.edge_ids@, graph.edge_ids_to_idx_map@),
            graph.fwd_offsets@.len() == src_idx.0 + 1, cuts(s, x_0 as int, graph.fwd_offsets@), x_0 > 0 ==> s[x_0 - 1] <= src_idx.0, src_idx.0 <= edge_src_idx.0,
            graph.cfg == old(graph).cfg, eq_nodes(graph, old(graph)), eq_bwd(graph, old(graph)), eq_sc(graph, old(graph)), graph.metrics@ == old(graph).metrics@, graph.means == old(graph).means,
        decreases edge_src_idx.0 - src_idx.0,
%loop 2
        invariant m == o.len(), s == srcs(o), offset == m, n == graph.n(), n < usize::MAX, filled(graph, o, m), ids_listed(graph.edge_ids@, graph.edge_ids_to_idx_map@), cuts(s, m, graph.fwd_offsets@),
            graph.fwd_offsets@.len() >= 2, n >= 1 ==> graph.fwd_offsets@.len() <= n + 1, forall|i: int| 0 <= i < m ==> #[trigger] s[i] < graph.fwd_offsets@.len() - 1,
            graph.cfg == old(graph).cfg, eq_nodes(graph, old(graph)), eq_bwd(graph, old(graph)), eq_sc(graph, old(graph)), graph.metrics@ == old(graph).metrics@, graph.means == old(graph).means,
        decreases n + 1 - graph.fwd_offsets@.len(),
%loop 2 before
    proof { assert forall|i: int| 0 <= i < m implies #[trigger] s[i] < graph.fwd_offsets@.len() - 1 by { assert(s[i] <= s[m - 1]); } }
%end
    proof { if n >= 1 {
        let inv = Seq::new(m as nat, |e: int| e);
        assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < n by { assert(in_graph_c(n, o[i])); }
        lem_csr(graph.fwd_offsets@, graph.fwd_to_fwd_map@, graph.bwd_dsts@, s, inv, n); } }
@@end

/// no two edges carry the same id
proof fn lem_ids_perm(ids: Seq<Option<usize>>, a: Seq<(usize, EdgeIdx)>, p: Seq<int>, q: Seq<int>, b: Seq<(usize, EdgeIdx)>)
    requires ids_listed(ids, a), rearranged(p, q, a, b), ensures ids_listed(ids, b)
{
    assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]).1.0 < ids.len() && ids[b[j].1.0 as int] == Some(b[j].0) by { assert(b[j] == a[p[j]]); }
    assert forall|e: int| 0 <= e < ids.len() && (#[trigger] ids[e]) is Some implies id_at(b, e) by { assert(id_at(a, e)); let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).1.0 == e; assert(b[q[j]] == a[p[q[j]]]); }
    assert forall|j: int, k: int| 0 <= j < k < b.len() implies (#[trigger] b[j]).1 != (#[trigger] b[k]).1 by { assert(b[j] == a[p[j]]); assert(b[k] == a[p[k]]); assert(q[p[j]] == j); assert(q[p[k]] == k); let (x, y) = (p[j], p[k]); if x < y { assert(a[x].1 != a[y].1); } else { assert(a[y].1 != a[x].1); } }
}
pub open spec fn up(l: Seq<(usize, EdgeIdx)>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 <= (#[trigger] l[j]).0 }
pub open spec fn apart(l: Seq<(usize, EdgeIdx)>, i: int) -> bool { l[i].0 != l[i + 1].0 }
pub open spec fn all_apart(l: Seq<(usize, EdgeIdx)>) -> bool { forall|i: int| 0 <= i < l.len() - 1 ==> #[trigger] apart(l, i) }
proof fn lem_apart(l: Seq<(usize, EdgeIdx)>, a: int, b: int) requires up(l), all_apart(l), 0 <= a < b < l.len() ensures l[a].0 < l[b].0 { assert(apart(l, a)); assert(l[a].0 <= l[a + 1].0); if a + 1 < b { assert(l[a + 1].0 <= l[b].0); } }
proof fn lem_u1(ids: Seq<Option<usize>>, l: Seq<(usize, EdgeIdx)>) requires ids_listed(ids, l), up(l), unique_ids(ids) ensures sorted_ids(l), all_apart(l)
{
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] l[i]).0 < (#[trigger] l[j]).0 by { let (a, b) = (l[i].1.0 as int, l[j].1.0 as int); assert(l[i].1 != l[j].1); assert(ids[a] == Some(l[i].0) && ids[b] == Some(l[j].0)); if a < b { assert(ids[a] != ids[b]); } else { assert(ids[b] != ids[a]); } }
    assert forall|i: int| 0 <= i < l.len() - 1 implies #[trigger] apart(l, i) by { assert(l[i].0 < l[i + 1].0); }
}
proof fn lem_u2(ids: Seq<Option<usize>>, l: Seq<(usize, EdgeIdx)>) requires ids_listed(ids, l), up(l), all_apart(l) ensures unique_ids(ids)
{
    assert forall|i: int, j: int| 0 <= i < j < ids.len() && (#[trigger] ids[i]) is Some && (#[trigger] ids[j]) is Some implies ids[i] != ids[j] by {
        assert(id_at(l, i)); assert(id_at(l, j)); let a = choose|a: int| 0 <= a < l.len() && (#[trigger] l[a]).1.0 == i; let b = choose|b: int| 0 <= b < l.len() && (#[trigger] l[b]).1.0 == j;
        if a < b { lem_apart(l, a, b); } else { lem_apart(l, b, a); } }
}
proof fn lem_unique(ids: Seq<Option<usize>>, l: Seq<(usize, EdgeIdx)>)
    requires ids_listed(ids, l), up(l),
    ensures unique_ids(ids) == all_apart(l), unique_ids(ids) ==> sorted_ids(l),
{ hide(unique_ids); hide(all_apart); hide(sorted_ids); hide(ids_listed); if unique_ids(ids) { lem_u1(ids, l); } if all_apart(l) { lem_u2(ids, l); } }
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_ids]
%from
    if graph.edge_ids_to_idx_map.len() > 0
%to
    { if !IS_USING_CH_LEVEL_SPEEDUP { proto_edges.sort_by_key(|edge| (edge.dst_idx
%sig
fn fin_ids(graph: &mut Graph) -> Result<(), Msg>
%tail
    Ok(())
%ty 0 Vec<usize>
%ty 1 Vec<usize>
%spec
    requires ids_listed(old(graph).edge_ids@, old(graph).edge_ids_to_idx_map@),
    ensures r is Ok == unique_ids(old(graph).edge_ids@), r is Ok ==> sorted_ids(final(graph).edge_ids_to_idx_map@) && ids_listed(final(graph).edge_ids@, final(graph).edge_ids_to_idx_map@),
        final(graph).edge_ids@ == old(graph).edge_ids@, final(graph).cfg == old(graph).cfg, eq_nodes(final(graph), old(graph)), eq_fwd(final(graph), old(graph)), eq_bwd(final(graph), old(graph)), eq_sc(final(graph), old(graph)), final(graph).metrics@ == old(graph).metrics@, final(graph).means == old(graph).means,
%start
    let ghost l0 = graph.edge_ids_to_idx_map@; let ghost ids = graph.edge_ids@; let ghost mut l1 = l0; let ghost mut k0 = Seq::<usize>::empty(); let ghost mut k1 = k0;
%loop 0
        invariant *graph == *old(graph), i_0 <= l0.len(), l0 == graph.edge_ids_to_idx_map@, r_0@.len() == i_0, forall|i: int| 0 <= i < i_0 ==> #[trigger] r_0@[i] == l0[i].0,
        decreases l0.len() - i_0,
%loop 0 after
    proof { k0 = r_0@; }
%loop 1 before
    proof {
        l1 = graph.edge_ids_to_idx_map@;
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] sorted_perm(p, q, l0, l1, k0); assert(sorted_perm(p, q, l0, l1, k0)); assert(rearranged(p, q, l0, l1));
        lem_ids_perm(ids, l0, p, q, l1);
        assert forall|i: int, j: int| 0 <= i < j < l1.len() implies (#[trigger] l1[i]).0 <= (#[trigger] l1[j]).0 by { assert(k0[p[i]].kle(k0[p[j]])); assert(l1[i] == l0[p[i]]); assert(l1[j] == l0[p[j]]); }
        lem_unique(ids, l1);
    }
%loop 1
        invariant i_1 <= l1.len(), l1 == graph.edge_ids_to_idx_map@, r_1@.len() == i_1, forall|i: int| 0 <= i < i_1 ==> #[trigger] r_1@[i] == l1[i].0,
            ids == old(graph).edge_ids@, graph.edge_ids@ == ids, graph.cfg == old(graph).cfg, eq_nodes(graph, old(graph)), eq_fwd(graph, old(graph)), eq_bwd(graph, old(graph)), eq_sc(graph, old(graph)), graph.metrics@ == old(graph).metrics@, graph.means == old(graph).means,
        decreases l1.len() - i_1,
%loop 1 after
    proof { k1 = r_1@; }
%loop 2 before
    proof {
        assert(forall|i: int| 0 <= i < l1.len() ==> #[trigger] k1[i] == l1[i].0);
        if !unique_ids(ids) { let i = choose|i: int| 0 <= i < l1.len() - 1 && !#[trigger] apart(l1, i); assert(k1[i] == k1[i + 1]); }
        assert forall|i: int| 0 <= i < k1.len() - 1 implies #[trigger] k1[i] != k1[i + 1] by { assert(l1[i].0 < l1[i + 1].0); }
    }
%loop 2
        invariant graph.edge_ids_to_idx_map@ == l1, sorted_ids(l1), l1.len() >= 1, n_2 == l1.len() - 1, i_2 <= n_2, unique_ids(ids), ids_listed(ids, l1),
            ids == old(graph).edge_ids@, graph.edge_ids@ == ids, graph.cfg == old(graph).cfg, eq_nodes(graph, old(graph)), eq_fwd(graph, old(graph)), eq_bwd(graph, old(graph)), eq_sc(graph, old(graph)), graph.metrics@ == old(graph).metrics@, graph.means == old(graph).means,
        decreases n_2 - i_2,
%end
    proof { if l0.len() == 0 { assert forall|i: int, j: int| 0 <= i < j < ids.len() && (#[trigger] ids[i]) is Some && (#[trigger] ids[j]) is Some implies ids[i] != ids[j] by { assert(id_at(l0, i)); } } }
@@end

/// edges ascending by destination, edges of the same destination by descending level of the source
pub open spec fn bwd_le(g: &Graph, x: ProtoEdgeC, y: ProtoEdgeC) -> bool {
    x.dst_idx.0 < y.dst_idx.0 || (x.dst_idx == y.dst_idx && g.node_ch_levels@[x.src_idx.0 as int] >= g.node_ch_levels@[y.src_idx.0 as int]) }
pub open spec fn bwd_sorted(g: &Graph, s: Seq<ProtoEdgeC>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> bwd_le(g, #[trigger] s[i], #[trigger] s[j]) }
pub open spec fn bwd_key(g: &Graph, e: ProtoEdgeC) -> (NodeIdx, Reverse<usize>, NodeIdx, Option<usize>) { (e.dst_idx, Reverse(g.node_ch_levels@[e.src_idx.0 as int]), e.src_idx, e.id) }
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_sort_bwd]
%from
    { if !IS_USING_CH_LEVEL_SPEEDUP { proto_edges.sort_by_key(|edge| (edge.dst_idx
%to
    { let mut progress_bar = MappingBar::with_range(0, proto_edges.len()).timed(); let mut src_idx = NodeIdx(0); let mut offset = 0; graph.bwd_offsets
%sig
fn fin_sort_bwd(graph: &Graph, proto_edges: Vec<ProtoEdgeC>) -> Vec<ProtoEdgeC>
%head
    let mut proto_edges = proto_edges;
%tail
    proto_edges
%ty 0 Vec<(NodeIdx, NodeIdx)>
%ty 1 Vec<(NodeIdx, Reverse<usize>, NodeIdx, Option<usize>)>
%spec
    requires forall|i: int| 0 <= i < proto_edges@.len() ==> in_graph_c(graph.node_ch_levels@.len() as int, #[trigger] proto_edges@[i]),
    ensures bwd_sorted(graph, r@), exists|p: Seq<int>, q: Seq<int>| #[trigger] rearranged(p, q, proto_edges@, r@),
%start
    let ghost mut keys = Seq::<(NodeIdx, Reverse<usize>, NodeIdx, Option<usize>)>::empty();
    let ghost o = proto_edges@;
%loop 0
        invariant i_0 <= proto_edges@.len(), r_0@.len() == i_0,
        decreases proto_edges@.len() - i_0,
%loop 1
        invariant i_1 <= proto_edges@.len(), proto_edges@ == o, r_1@.len() == i_1, nodes.node_ch_levels == &graph.node_ch_levels,
            forall|i: int| 0 <= i < proto_edges@.len() ==> in_graph_c(graph.node_ch_levels@.len() as int, #[trigger] proto_edges@[i]),
            forall|i: int| 0 <= i < i_1 ==> #[trigger] r_1@[i] == bwd_key(graph, o[i]),
        decreases proto_edges@.len() - i_1,
%loop 1 after
    proof { keys = r_1@; }
%end
    proof {
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] sorted_perm(p, q, o, proto_edges@, keys);
        assert(sorted_perm(p, q, o, proto_edges@, keys));
        assert(rearranged(p, q, o, proto_edges@));
        assert forall|i: int, j: int| 0 <= i < j < proto_edges@.len() implies bwd_le(graph, #[trigger] proto_edges@[i], #[trigger] proto_edges@[j]) by {
            assert(keys[p[i]].kle(keys[p[j]]));
            assert(keys[p[i]] == bwd_key(graph, o[p[i]]) && keys[p[j]] == bwd_key(graph, o[p[j]]));
        }
    }
@@end
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_bwd]
%from
    { let mut progress_bar = MappingBar::with_range(0, proto_edges.len()).timed(); let mut src_idx = NodeIdx(0); let mut offset = 0; graph.bwd_offsets
%to
    if let Some(generating_cfg) = graph.cfg.generating
%sig
fn fin_bwd(graph: &mut Graph, proto_edges: Vec<ProtoEdgeC>)
%head
    let mut proto_edges = proto_edges;
%rw: *src_idx => src_idx.0
%spec
    requires proto_edges@.len() < usize::MAX, old(graph).n() < usize::MAX, forall|i: int| 0 <= i < proto_edges@.len() ==> in_graph_c(old(graph).n(), #[trigger] proto_edges@[i]), rising_keys(dsts(proto_edges@)),
        old(graph).bwd_offsets@.len() == 0, old(graph).bwd_to_fwd_map@.len() == 0, old(graph).fwd_dsts@.len() == proto_edges@.len(),
        exists|p: Seq<int>, q: Seq<int>| #[trigger] is_perm(p, q, proto_edges@.len() as int) && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == proto_edges@[i].idx,
        forall|i: int| 0 <= i < proto_edges@.len() ==> old(graph).fwd_dsts@[(#[trigger] proto_edges@[i]).idx as int] == proto_edges@[i].dst_idx,
    ensures old(graph).n() >= 1 ==> csr(final(graph).bwd_offsets@, final(graph).bwd_to_fwd_map@, final(graph).fwd_dsts@, old(graph).n()),
        final(graph).bwd_to_fwd_map@.len() == proto_edges@.len(), forall|i: int| 0 <= i < proto_edges@.len() ==> (#[trigger] final(graph).bwd_to_fwd_map@[i]).0 == proto_edges@[i].idx,
        final(graph).cfg == old(graph).cfg, eq_nodes(final(graph), old(graph)), eq_fwd(final(graph), old(graph)), eq_ids(final(graph), old(graph)), eq_sc(final(graph), old(graph)), final(graph).metrics@ == old(graph).metrics@, final(graph).means == old(graph).means,
%start
    let ghost o = proto_edges@; let ghost s = dsts(o); let ghost n = graph.n(); let ghost m = o.len() as int;
    let ghost (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] is_perm(p, q, proto_edges@.len() as int) && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == proto_edges@[i].idx;
%loop 0
        invariant n_0 == m, m == o.len(), m < usize::MAX, n < usize::MAX, n == graph.n(), s == dsts(o), rising_keys(s), proto_edges@ == o, i_0 <= m, offset == i_0, forall|i: int| 0 <= i < m ==> in_graph_c(n, #[trigger] o[i]),
            graph.bwd_to_fwd_map@.len() == i_0, forall|i: int| 0 <= i < i_0 ==> (#[trigger] graph.bwd_to_fwd_map@[i]).0 == o[i].idx,
            graph.bwd_offsets@.len() == src_idx.0 + 1, cuts(s, i_0 as int, graph.bwd_offsets@), i_0 > 0 ==> src_idx.0 == s[i_0 - 1], i_0 == 0 ==> src_idx.0 == 0,
            graph.cfg == old(graph).cfg, eq_nodes(graph, old(graph)), eq_fwd(graph, old(graph)), eq_ids(graph, old(graph)), eq_sc(graph, old(graph)), graph.metrics@ == old(graph).metrics@, graph.means == old(graph).means,
        decreases m - i_0,
%loop 0 start
    proof { if x_0 > 0 { assert(s[x_0 - 1] <= s[x_0 as int]); } }
%loop 0 end
    proof { assert(s[x_0 as int] == src_idx.0); assert(proto_edges@ =~= o); }
%loop 1
        invariant edge_src_idx == o[x_0 as int].dst_idx, 0 <= x_0 < m, m == o.len(), m < usize::MAX, n < usize::MAX, n == graph.n(), s == dsts(o), rising_keys(s), offset == x_0, in_graph_c(n, o[x_0 as int]),
            graph.bwd_to_fwd_map@.len() == x_0, forall|i: int| 0 <= i < x_0 ==> (#[trigger] graph.bwd_to_fwd_map@[i]).0 == o[i].idx,
            graph.bwd_offsets@.len() == src_idx.0 + 1, cuts(s, x_0 as int, graph.bwd_offsets@), x_0 > 0 ==> s[x_0 - 1] <= src_idx.0, src_idx.0 <= edge_src_idx.0,
            graph.cfg == old(graph).cfg, eq_nodes(graph, old(graph)), eq_fwd(graph, old(graph)), eq_ids(graph, old(graph)), eq_sc(graph, old(graph)), graph.metrics@ == old(graph).metrics@, graph.means == old(graph).means,
        decreases edge_src_idx.0 - src_idx.0,
%loop 2
        invariant m == o.len(), s == dsts(o), offset == m, n == graph.n(), n < usize::MAX, graph.bwd_to_fwd_map@.len() == m, forall|i: int| 0 <= i < m ==> (#[trigger] graph.bwd_to_fwd_map@[i]).0 == o[i].idx, cuts(s, m, graph.bwd_offsets@),
            graph.bwd_offsets@.len() >= 2, n >= 1 ==> graph.bwd_offsets@.len() <= n + 1, forall|i: int| 0 <= i < m ==> #[trigger] s[i] < graph.bwd_offsets@.len() - 1,
            graph.cfg == old(graph).cfg, eq_nodes(graph, old(graph)), eq_fwd(graph, old(graph)), eq_ids(graph, old(graph)), eq_sc(graph, old(graph)), graph.metrics@ == old(graph).metrics@, graph.means == old(graph).means,
        decreases n + 1 - graph.bwd_offsets@.len(),
%loop 2 before
    proof { assert forall|i: int| 0 <= i < m implies #[trigger] s[i] < graph.bwd_offsets@.len() - 1 by { assert(s[i] <= s[m - 1]); } }
%end
    proof { if n >= 1 {
        assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < n by { assert(in_graph_c(n, o[i])); }
        assert forall|i: int| 0 <= i < m implies (#[trigger] graph.bwd_to_fwd_map@[i]).0 < m && graph.fwd_dsts@[graph.bwd_to_fwd_map@[i].0 as int].0 == s[i] by { assert(graph.bwd_to_fwd_map@[i].0 == o[i].idx); assert(p[i] == o[i].idx); assert(graph.fwd_dsts@[o[i].idx as int] == o[i].dst_idx); }
        assert forall|e: int| 0 <= e < m implies 0 <= #[trigger] q[e] < m && graph.bwd_to_fwd_map@[q[e]].0 == e by { assert(p[q[e]] == e); }
        lem_csr(graph.bwd_offsets@, graph.bwd_to_fwd_map@, graph.fwd_dsts@, s, q, n); } }
@@end

// ---------------------------------------------------------------- normalisation
impl Graph {
@@fn src/network/graph/mod.rs :: Graph::cfg [id=Graph::cfg; map=Config>ParsingConfig]
%spec
    ensures r == &self.cfg,
@@end
}
/// sum of column j over the first k edges
pub open spec fn csum(ms: Seq<Vec<F64>>, j: int, k: int) -> Ext decreases k { if k <= 0 { Ext::Fin(0real) } else { eadd(csum(ms, j, k - 1), ms[k - 1]@[j]@) } }
pub open spec fn cmean(ms: Seq<Vec<F64>>, j: int) -> Ext { ediv(csum(ms, j, ms.len() as int), Ext::Fin(ms.len() as int as real)) }
/// divided by its mean, at least the accuracy
pub open spec fn normed1(a: Ext, mean: Ext, b: F64) -> bool { b@ == (if aeq(ediv(a, mean), Ext::Fin(0real)) { Ext::Fin(F64_ABS_r()) } else { ediv(a, mean) }) }
pub open spec fn normed(a: Seq<F64>, mean: Seq<F64>, b: Seq<F64>) -> bool { a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> normed1(a[j]@, mean[j]@, #[trigger] b[j]) }
pub open spec fn mean_zero(ms: Seq<Vec<F64>>, d: int) -> bool { exists|j: int| 0 <= j < d && aeq(#[trigger] cmean(ms, j), Ext::Fin(0real)) }
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_norm]
%from
    if graph.cfg().edges.metrics.are_normalized
%to
    Ok(graph)
%sig
fn fin_norm(graph: &mut Graph) -> Result<(), Msg>
%tail
    Ok(())
%drop: for (metric_id, mean)
%ty 0 Vec<F64>
%ty 1 Vec<F64>
%attr
#[verifier::loop_isolation(false)]
%loop 1
        invariant i_1 <= m, r_1@.len() == d, forall|j: int| 0 <= j < d ==> (#[trigger] r_1@[j])@ == csum(ms, j, i_1 as int),
        decreases m - i_1,
%loop 1 start
    let ghost r0 = r_1@;
%loop 1 end
    proof { assert(ms[x_1 as int]@.len() == d); assert forall|j: int| 0 <= j < d implies (#[trigger] r_1@[j])@ == csum(ms, j, i_1 as int) by { assert(r0[j]@ == csum(ms, j, x_1 as int)); } }
%loop 0
        invariant i_0 <= s_0@.len(), s_0@.len() == d, r_0@.len() == i_0, forall|j: int| 0 <= j < d ==> (#[trigger] s_0@[j])@ == csum(ms, j, m), forall|j: int| 0 <= j < i_0 ==> (#[trigger] r_0@[j])@ == cmean(ms, j),
        decreases d - i_0,
%loop 2
        invariant i_2 <= means@.len(), means@.len() == d, !r_2 ==> forall|j: int| 0 <= j < i_2 ==> !aeq(#[trigger] cmean(ms, j), Ext::Fin(0real)), r_2 ==> mean_zero(ms, d), forall|j: int| 0 <= j < d ==> (#[trigger] means@[j])@ == cmean(ms, j),
        decreases d - i_2,
%loop 2 after
    proof { assert(r_2 == mean_zero(ms, d)); }
%loop 2 start
    proof { assert(means@[x_2 as int]@ == cmean(ms, x_2 as int)); }
%loop 3
        invariant i_3 <= m, graph.metrics@.len() == m, means@.len() == d, graph.means == old(graph).means, graph.cfg == old(graph).cfg, eq_nodes(graph, old(graph)), eq_fwd(graph, old(graph)), eq_bwd(graph, old(graph)), eq_ids(graph, old(graph)), eq_sc(graph, old(graph)),
            forall|e: int| 0 <= e < i_3 ==> normed(ms[e]@, means@, (#[trigger] graph.metrics@[e])@), forall|e: int| i_3 <= e < m ==> #[trigger] graph.metrics@[e] == ms[e],
        decreases m - i_3,
%loop 4
        invariant i_4 <= d, edge_metrics@.len() == d, forall|j: int| 0 <= j < i_4 ==> normed1(ms[x_3 as int]@[j]@, means@[j]@, #[trigger] edge_metrics@[j]), forall|j: int| i_4 <= j < d ==> #[trigger] edge_metrics@[j] == ms[x_3 as int]@[j],
        decreases d - i_4,
%spec
    requires old(graph).metrics@.len() == old(graph).m(), wide(old(graph).metrics@, old(graph).dim()),
    ensures !old(graph).cfg.edges.metrics.are_normalized ==> r is Ok && final(graph).metrics@ == old(graph).metrics@ && final(graph).means == old(graph).means,
        old(graph).cfg.edges.metrics.are_normalized ==> r is Ok == (old(graph).m() > 0 && !mean_zero(old(graph).metrics@, old(graph).dim())),
        old(graph).cfg.edges.metrics.are_normalized && r is Ok ==> final(graph).means is Some && (final(graph).means->0)@.len() == old(graph).dim() && (forall|j: int| 0 <= j < old(graph).dim() ==> (#[trigger] (final(graph).means->0)@[j])@ == cmean(old(graph).metrics@, j))
            && final(graph).metrics@.len() == old(graph).m() && (forall|e: int| 0 <= e < old(graph).m() ==> normed(old(graph).metrics@[e]@, (final(graph).means->0)@, (#[trigger] final(graph).metrics@[e])@)),
        final(graph).cfg == old(graph).cfg, eq_nodes(final(graph), old(graph)), eq_fwd(final(graph), old(graph)), eq_bwd(final(graph), old(graph)), eq_ids(final(graph), old(graph)), eq_sc(final(graph), old(graph)),
%start
    let ghost ms = graph.metrics@; let ghost d = graph.dim(); let ghost m = graph.m();
@@end
