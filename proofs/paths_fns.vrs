// ---------------------------------------------------------------- src/routing/paths.rs
@@item src/routing/paths.rs :: Path
pub open spec fn is_sc(g: &Graph, e: int) -> bool { g.sc_offsets@[e] < g.sc_offsets@[e + 1] }
pub open spec fn sc0(g: &Graph, e: int) -> int { g.sc_edges@[g.sc_offsets@[e] as int]@[0].0 as int }
pub open spec fn sc1(g: &Graph, e: int) -> int { g.sc_edges@[g.sc_offsets@[e] as int]@[1].0 as int }
/// the edges an edge stands for, expanding at most k levels of shortcuts
pub open spec fn ex(g: &Graph, e: int, k: int) -> Seq<EdgeIdx> decreases k {
    if k <= 0 || !is_sc(g, e) { seq![EdgeIdx(e as usize)] } else { ex(g, sc0(g, e), k - 1) + ex(g, sc1(g, e), k - 1) } }
/// k levels suffice to get rid of all shortcuts
pub open spec fn okx(g: &Graph, e: int, k: int) -> bool decreases k {
    if !is_sc(g, e) { true } else if k <= 0 { false } else { okx(g, sc0(g, e), k - 1) && okx(g, sc1(g, e), k - 1) } }
pub open spec fn tsize(g: &Graph, e: int, k: int) -> nat decreases k + 1 {
    if k < 0 || !is_sc(g, e) { 1 } else { 1 + tsize(g, sc0(g, e), k - 1) + tsize(g, sc1(g, e), k - 1) } }
pub open spec fn exs(g: &Graph, p: Seq<EdgeIdx>, k: int) -> Seq<EdgeIdx> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else { ex(g, p[0].0 as int, k) + exs(g, p.subrange(1, p.len() as int), k) } }
pub open spec fn okxs(g: &Graph, p: Seq<EdgeIdx>, k: int) -> bool { forall|i: int| 0 <= i < p.len() ==> okx(g, (#[trigger] p[i]).0 as int, k) }
/// the same for a stack of (edge, depth), top first
pub open spec fn exst(g: &Graph, s: Seq<(EdgeIdx, usize)>, k: int) -> Seq<EdgeIdx> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { ex(g, s.last().0.0 as int, k - s.last().1) + exst(g, s.drop_last(), k) } }
pub open spec fn okst(g: &Graph, s: Seq<(EdgeIdx, usize)>, k: int) -> bool decreases s.len() {
    if s.len() == 0 { true } else { okx(g, s.last().0.0 as int, k - s.last().1) && okst(g, s.drop_last(), k) } }
pub open spec fn szst(g: &Graph, s: Seq<(EdgeIdx, usize)>, k: int) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { tsize(g, s.last().0.0 as int, k - s.last().1) + szst(g, s.drop_last(), k) } }
/// sum of metric j over the first n edges, from the left
pub open spec fn csum(g: &Graph, p: Seq<EdgeIdx>, j: int, n: int) -> Ext decreases n {
    if n <= 0 { Ext::Fin(0real) } else { eadd(csum(g, p, j, n - 1), g.metrics@[p[n - 1].0 as int]@[j]@) } }
pub open spec fn is_costs(g: &Graph, p: Seq<EdgeIdx>, c: Seq<F64>) -> bool {
    c.len() == g.dim() && forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j])@ == csum(g, p, j, p.len() as int) }
pub open spec fn edges_ok(g: &Graph, p: Seq<EdgeIdx>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 < g.m() }
pub open spec fn no_sc(g: &Graph, p: Seq<EdgeIdx>) -> bool { forall|i: int| 0 <= i < p.len() ==> !is_sc(g, (#[trigger] p[i]).0 as int) }

pub proof fn lem_csum_ext(g: &Graph, p: Seq<EdgeIdx>, q: Seq<EdgeIdx>, j: int, n: int)
    requires n <= p.len(), n <= q.len(), forall|i: int| 0 <= i < n ==> p[i] == q[i],
    ensures csum(g, p, j, n) == csum(g, q, j, n), decreases n
{ if n > 0 { lem_csum_ext(g, p, q, j, n - 1); } }
/// stack of a path, reversed
pub open spec fn rev0(p: Seq<EdgeIdx>) -> Seq<(EdgeIdx, usize)> { Seq::new(p.len(), |i: int| (p[p.len() - 1 - i], 0usize)) }
pub proof fn lem_rev0(g: &Graph, p: Seq<EdgeIdx>, k: int)
    ensures exst(g, rev0(p), k) == exs(g, p, k), okst(g, rev0(p), k) == okxs(g, p, k), decreases p.len()
{
    if p.len() > 0 {
        let q = p.subrange(1, p.len() as int);
        lem_rev0(g, q, k);
        assert(rev0(p).drop_last() =~= rev0(q));
        assert(rev0(p).last() == (p[0], 0usize));
        assert(okxs(g, p, k) == (okx(g, p[0].0 as int, k) && okxs(g, q, k))) by {
            if okx(g, p[0].0 as int, k) && okxs(g, q, k) { assert forall|i: int| 0 <= i < p.len() implies okx(g, (#[trigger] p[i]).0 as int, k) by { if i > 0 { assert(q[i - 1] == p[i]); } } }
            if okxs(g, p, k) { assert forall|i: int| 0 <= i < q.len() implies okx(g, (#[trigger] q[i]).0 as int, k) by { assert(q[i] == p[i + 1]); } }
        }
    } else {
        assert(rev0(p) =~= Seq::empty());
    }
}
/// with k levels sufficing, the expansion has no shortcuts
pub proof fn lem_ex_no_sc(g: &Graph, e: int, k: int) requires g.wf_sc(), 0 <= e < g.fwd_dsts.len(), okx(g, e, k)
    ensures no_sc(g, ex(g, e, k)), edges_ok(g, ex(g, e, k)), decreases k
{
    if is_sc(g, e) && k > 0 {
        lem_sc_range(g, e);
        lem_ex_no_sc(g, sc0(g, e), k - 1); lem_ex_no_sc(g, sc1(g, e), k - 1);
        let (a, b) = (ex(g, sc0(g, e), k - 1), ex(g, sc1(g, e), k - 1));
        assert forall|i: int| 0 <= i < (a + b).len() implies !is_sc(g, (#[trigger] (a + b)[i]).0 as int) && (a + b)[i].0 < g.m() by {
            if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } }
        assert(ex(g, e, k) == a + b);
    } else { assert((e as usize) as int == e); assert(ex(g, e, k) == seq![EdgeIdx(e as usize)]); }
}
pub proof fn lem_sc_range(g: &Graph, e: int) requires g.wf_sc(), 0 <= e < g.m(), is_sc(g, e)
    ensures 0 <= sc0(g, e) < g.m(), 0 <= sc1(g, e) < g.m(), g.sc_offsets@[e] < g.sc_edges@.len()
{ assert(g.sc_offsets@[e + 1] <= g.sc_offsets@[g.m()]); let x = g.sc_edges@[g.sc_offsets@[e] as int]; }
/// more levels than sufficient do not change anything
pub proof fn lem_okx_mono(g: &Graph, e: int, k: int, l: int) requires okx(g, e, k), k <= l ensures okx(g, e, l), ex(g, e, l) == ex(g, e, k) decreases k
{ if is_sc(g, e) && k > 0 { lem_okx_mono(g, sc0(g, e), k - 1, l - 1); lem_okx_mono(g, sc1(g, e), k - 1, l - 1); } }
impl Path {
@@fn src/routing/paths.rs :: Path::new [id=Path::new]
%spec
    ensures r.src_idx == src_idx, r.src_id == src_id, r.dst_idx == dst_idx, r.dst_id == dst_id, r.edges == edges, r.costs is None,
@@end
@@fn src/routing/paths.rs :: Path::src_idx
%spec
    ensures r == self.src_idx,
@@end
@@fn src/routing/paths.rs :: Path::dst_idx [id=Path::dst_idx]
%spec
    ensures r == self.dst_idx,
@@end
@@fn src/routing/paths.rs :: Path::costs
%spec
    requires self.costs is Some,
    ensures r == self.costs->0,
@@end
@@fn src/routing/paths.rs :: Path::calc_costs
%rw: &graph_metrics[edge_idx] => graph_metrics.index_ref(edge_idx)
%ty 0 Vec<F64>
%spec
    requires graph.wf(), edges_ok(graph, old(self).edges@),
        old(self).costs is Some ==> is_costs(graph, old(self).edges@, old(self).costs->0@),
    ensures is_costs(graph, final(self).edges@, r@), final(self).costs is Some, r == final(self).costs->0,
        final(self).edges == old(self).edges, final(self).src_idx == old(self).src_idx, final(self).dst_idx == old(self).dst_idx,
        final(self).src_id == old(self).src_id, final(self).dst_id == old(self).dst_id,
%loop 0
        invariant graph.wf(), graph_metrics.of(graph), edges_ok(graph, self.edges@), self.edges == old(self).edges, i_0 <= self.edges@.len(),
            self.src_idx == old(self).src_idx, self.dst_idx == old(self).dst_idx, self.src_id == old(self).src_id, self.dst_id == old(self).dst_id,
            r_0@.len() == graph.dim(), forall|j: int| 0 <= j < r_0@.len() ==> (#[trigger] r_0@[j])@ == csum(graph, self.edges@, j, i_0 as int),
        decreases self.edges@.len() - i_0,
%loop 0 start
    proof { assert(graph.metrics@[self.edges@[x_0 as int].0 as int]@.len() == graph.dim()); }
@@end
@@fn src/routing/paths.rs :: Path::try_flatten
%rw: Vec::with_capacity(self.edges.capacity()) => Vec::new()
%rw: graph.metrics()[edge_idx] => *graph.metrics().index(edge_idx)
%ty 0 Vec<(EdgeIdx, usize)>
%spec
    requires graph.wf(), edges_ok(graph, self.edges@), graph.fwd_dsts.len() < usize::MAX,
    ensures r is Ok == okxs(graph, self.edges@, graph.m()),
        r is Ok ==> r->Ok_0.edges@ == exs(graph, self.edges@, graph.m()) && no_sc(graph, r->Ok_0.edges@) && edges_ok(graph, r->Ok_0.edges@)
            && r->Ok_0.src_idx == self.src_idx && r->Ok_0.dst_idx == self.dst_idx && r->Ok_0.src_id == self.src_id && r->Ok_0.dst_id == self.dst_id
            && r->Ok_0.costs is Some && is_costs(graph, r->Ok_0.edges@, r->Ok_0.costs->0@),
%loop 0
        invariant i_0 <= s_0@.len(), r_0@ =~= rev0(s_0@).subrange(0, i_0 as int),
        decreases s_0@.len() - i_0,
%before: let fwd_edges
    proof { assert(old_edges@ =~= rev0(self.edges@)); lem_rev0(graph, self.edges@, graph.m()); }
%loop 1
        invariant graph.wf(), fwd_edges.is_fwd(graph), graph.m() == graph.fwd_dsts.len(), graph.fwd_dsts.len() < usize::MAX,
            flattened_path.src_idx == self.src_idx, flattened_path.dst_idx == self.dst_idx, flattened_path.src_id == self.src_id, flattened_path.dst_id == self.dst_id,
            flattened_path.edges@ + exst(graph, old_edges@, graph.m()) == exs(graph, self.edges@, graph.m()),
            okst(graph, old_edges@, graph.m()) == okxs(graph, self.edges@, graph.m()),
            no_sc(graph, flattened_path.edges@), edges_ok(graph, flattened_path.edges@),
            forall|i: int| 0 <= i < old_edges@.len() ==> (#[trigger] old_edges@[i]).0.0 < graph.m() && old_edges@[i].1 <= graph.m(),
            flattened_path.costs is Some, is_costs(graph, flattened_path.edges@, flattened_path.costs->0@),
        ensures old_edges@.len() == 0,
        decreases szst(graph, old_edges@, graph.m()),
%loop 1 start
    let ghost st0 = szst(graph, old_edges@.push((edge_idx, depth)), graph.m());
    proof { assert(old_edges@.push((edge_idx, depth)).drop_last() =~= old_edges@);
        assert(flattened_path.edges@ + (ex(graph, edge_idx.0 as int, graph.m() - depth) + exst(graph, old_edges@, graph.m())) == exs(graph, self.edges@, graph.m())); }
%loop 1 after
    proof { assert(flattened_path.edges@ + Seq::<EdgeIdx>::empty() =~= flattened_path.edges@); }
%loop 2
        invariant graph.wf(), fwd_edges.is_fwd(graph), graph.m() == graph.fwd_dsts.len(), graph.fwd_dsts.len() < usize::MAX,
            edge_idx.0 < graph.m(), depth <= graph.m(),
            flattened_path.edges@ + (ex(graph, edge_idx.0 as int, graph.m() - depth) + exst(graph, old_edges@, graph.m())) == exs(graph, self.edges@, graph.m()),
            (okx(graph, edge_idx.0 as int, graph.m() - depth) && okst(graph, old_edges@, graph.m())) == okxs(graph, self.edges@, graph.m()),
            forall|i: int| 0 <= i < old_edges@.len() ==> (#[trigger] old_edges@[i]).0.0 < graph.m() && old_edges@[i].1 <= graph.m(),
            tsize(graph, edge_idx.0 as int, graph.m() - depth) + szst(graph, old_edges@, graph.m()) <= st0,
        ensures !is_sc(graph, edge_idx.0 as int),
        decreases tsize(graph, edge_idx.0 as int, graph.m() - depth),
%loop 2 start
    let ghost e0 = edge_idx.0 as int; let ghost o0 = old_edges@; let ghost d0 = depth;
    proof { lem_sc_range(graph, e0); }
%before: if depth > fwd_edges.count()
    proof {
        assert(old_edges@ == o0.push((EdgeIdx(sc1(graph, e0) as usize), depth)));
        assert(old_edges@.drop_last() =~= o0);
        if depth <= graph.m() {
            let k = graph.m() - d0;
            assert((ex(graph, sc0(graph, e0), k - 1) + ex(graph, sc1(graph, e0), k - 1)) + exst(graph, o0, graph.m())
                =~= ex(graph, sc0(graph, e0), k - 1) + (ex(graph, sc1(graph, e0), k - 1) + exst(graph, o0, graph.m())));
        }
    }
%before: flattened_path.edges.push(edge_idx);
    let ghost f0 = flattened_path.edges@; let ghost c0 = flattened_path.costs->0@;
%after: helpers::add_assign(
    proof {
        let f1 = flattened_path.edges@;
        assert(f1 == f0.push(edge_idx));
        assert(f0 + (seq![edge_idx] + exst(graph, old_edges@, graph.m())) =~= f1 + exst(graph, old_edges@, graph.m()));
        assert(EdgeIdx(edge_idx.0) == edge_idx);
        assert forall|j: int| 0 <= j < flattened_path.costs->0@.len() implies (#[trigger] flattened_path.costs->0@[j])@ == csum(graph, f1, j, f1.len() as int) by {
            lem_csum_ext(graph, f0, f1, j, f0.len() as int);
            assert(c0[j]@ == csum(graph, f0, j, f0.len() as int));
            assert(graph.metrics@[edge_idx.0 as int]@.len() == graph.dim());
        }
    }
@@end
@@fn src/routing/paths.rs :: Path::flatten
%spec
    requires graph.wf(), edges_ok(graph, self.edges@), graph.fwd_dsts.len() < usize::MAX, okxs(graph, self.edges@, graph.m()),
    ensures r.edges@ == exs(graph, self.edges@, graph.m()), no_sc(graph, r.edges@), r.src_idx == self.src_idx, r.dst_idx == self.dst_idx,
        r.costs is Some && is_costs(graph, r.edges@, r.costs->0@),
@@end
}
