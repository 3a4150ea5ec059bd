// ---------------------------------------------------------------- GraphBuilder::finalize as a whole
/// the same edge, given twice
pub open spec fn twin(x: In, y: In) -> bool { x.id == y.id && x.src == y.src && x.dst == y.dst && all_eq(x.metrics, y.metrics) }
/// w: the graph's edge an input became, h: the input an edge of the graph was made of
pub open spec fn kept(ins: Seq<In>, m: int, w: Seq<int>, h: Seq<int>) -> bool {
    &&& w.len() == ins.len() && h.len() == m
    &&& forall|e: int| 0 <= e < m ==> 0 <= #[trigger] h[e] < ins.len() && w[h[e]] == e
    &&& forall|i: int| 0 <= i < ins.len() ==> 0 <= #[trigger] w[i] < m && (h[w[i]] == i || twin(ins[h[w[i]]], ins[i]))
}
pub open spec fn is_sc(off: Seq<usize>, sc: Seq<[EdgeIdx; 2]>, e: int, x: Option<[EdgeIdx; 2]>, w: Seq<int>) -> bool { match x { None => off[e + 1] == off[e], Some(a) => off[e + 1] == off[e] + 1 && off[e] < sc.len() && mapped(w, a, sc[off[e] as int]) } }
pub open spec fn is_edge(g: &Graph, e: int, x: In, w: Seq<int>) -> bool {
    &&& 0 <= g.src(e) < g.n() && 0 <= g.dst(e) < g.n() && g.node_ids@[g.src(e)] == x.src && g.node_ids@[g.dst(e)] == x.dst
    &&& is_sc(g.sc_offsets@, g.sc_edges@, e, x.sc, w)
}
pub open spec fn from_in(ids: Seq<i64>, b: ProtoEdgeB, x: In, sc: Seq<[EdgeIdx; 2]>, w: Seq<int>) -> bool {
    &&& b.src_idx.0 < ids.len() && b.dst_idx.0 < ids.len() && ids[b.src_idx.0 as int] == x.src && ids[b.dst_idx.0 as int] == x.dst && b.id == x.id && b.metrics@ == x.metrics
    &&& b.sc_edges is Some == x.sc is Some && (b.sc_edges is Some ==> b.sc_edges->0 < sc.len() && mapped(w, x.sc->0, sc[b.sc_edges->0 as int]))
}
pub open spec fn went(q: Seq<int>, c: Seq<int>) -> Seq<int> { Seq::new(q.len(), |i: int| c[q[i]]) }
pub open spec fn came(p: Seq<int>, f: Seq<int>) -> Seq<int> { Seq::new(f.len(), |e: int| p[f[e]]) }
pub open spec fn all_located(ids: Seq<i64>, a: Seq<ProtoEdgeA>, b: Seq<ProtoEdgeB>) -> bool { b.len() == a.len() && forall|i: int| 0 <= i < b.len() ==> located(ids, a[i], #[trigger] b[i]) }
proof fn lem_idx(a: Seq<ProtoEdgeA>, k: int, ids: Seq<i64>, b0: Seq<ProtoEdgeB>, p: Seq<int>, q: Seq<int>, b1: Seq<ProtoEdgeB>)
    requires noted(a, k), all_located(ids, a, b0), rearranged(p, q, b0, b1),
    ensures forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == b1[i].idx, sc_own(b1, k),
        forall|i: int| 0 <= i < b1.len() ==> located(ids, a[p[i]], #[trigger] b1[i]), forall|i: int| 0 <= i < b1.len() ==> in_graph(ids.len() as int, #[trigger] b1[i]),
{
    assert forall|i: int| 0 <= i < b1.len() implies located(ids, a[p[i]], #[trigger] b1[i]) by { assert(b1[i] == b0[p[i]]); assert(located(ids, a[p[i]], b0[p[i]])); }
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == b1[i].idx by { assert(located(ids, a[p[i]], b1[i])); assert(a[p[i]].idx == p[i]); }
    assert forall|i: int| 0 <= i < b1.len() && (#[trigger] b1[i]).sc_edges is Some implies b1[i].sc_edges->0 < k by { assert(a[p[i]].sc_edges is Some); }
    assert forall|i: int, j: int| 0 <= i < j < b1.len() && (#[trigger] b1[i]).sc_edges is Some && (#[trigger] b1[j]).sc_edges is Some implies b1[i].sc_edges->0 != b1[j].sc_edges->0 by {
        assert(a[p[i]].sc_edges is Some && a[p[j]].sc_edges is Some); assert(p[i] != p[j]) by { assert(q[p[i]] == i && q[p[j]] == j); }
        if p[i] < p[j] {} else { assert(a[p[j]].sc_edges->0 != a[p[i]].sc_edges->0); }
    }
}
proof fn lem_fits(b1: Seq<ProtoEdgeB>, p: Seq<int>, q: Seq<int>, sc0: Seq<[EdgeIdx; 2]>, sc1: Seq<[EdgeIdx; 2]>)
    requires is_perm(p, q, b1.len() as int), sc_own(b1, sc0.len() as int), sc_in(sc0, b1.len() as int), mapped_all(q, b1, sc0, sc1),
    ensures forall|i: int| 0 <= i < b1.len() && (#[trigger] b1[i]).sc_edges is Some ==> sc1[b1[i].sc_edges->0 as int]@[0].0 < b1.len() && sc1[b1[i].sc_edges->0 as int]@[1].0 < b1.len(),
{
    assert forall|i: int| 0 <= i < b1.len() && (#[trigger] b1[i]).sc_edges is Some implies sc1[b1[i].sc_edges->0 as int]@[0].0 < b1.len() && sc1[b1[i].sc_edges->0 as int]@[1].0 < b1.len() by {
        let x = sc0[b1[i].sc_edges->0 as int]; assert(mapped(q, x, sc1[b1[i].sc_edges->0 as int])); assert(0 <= q[x@[0].0 as int] < b1.len()); assert(0 <= q[x@[1].0 as int] < b1.len());
    }
}
proof fn lem_short(b1: Seq<ProtoEdgeB>, b2: Seq<ProtoEdgeB>, c: Seq<int>, f: Seq<int>, k: int)
    requires merged(b1, b2, c, f), 0 <= k < b2.len() ensures f[k] >= k decreases k
{ assert(0 <= f[k]); if k > 0 { lem_short(b1, b2, c, f, k - 1); assert(f[k - 1] < f[k]); } }
proof fn lem_shorter(b1: Seq<ProtoEdgeB>, b2: Seq<ProtoEdgeB>, c: Seq<int>, f: Seq<int>) requires merged(b1, b2, c, f) ensures b2.len() <= b1.len()
{ if b2.len() > 0 { lem_short(b1, b2, c, f, b2.len() - 1); } }
proof fn lem_own(b1: Seq<ProtoEdgeB>, b2: Seq<ProtoEdgeB>, c: Seq<int>, f: Seq<int>, k: int)
    requires sc_own(b1, k), merged(b1, b2, c, f) ensures sc_own(b2, k)
{
    assert forall|i: int| 0 <= i < b2.len() && (#[trigger] b2[i]).sc_edges is Some implies b2[i].sc_edges->0 < k by { assert(b2[i] == b1[f[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < b2.len() && (#[trigger] b2[i]).sc_edges is Some && (#[trigger] b2[j]).sc_edges is Some implies b2[i].sc_edges->0 != b2[j].sc_edges->0 by { assert(f[i] < f[j]); assert(b2[i] == b1[f[i]] && b2[j] == b1[f[j]]); }
}
proof fn lem_kept(a: Seq<ProtoEdgeA>, sc0: Seq<[EdgeIdx; 2]>, ids: Seq<i64>, b1: Seq<ProtoEdgeB>, p: Seq<int>, q: Seq<int>, sc1: Seq<[EdgeIdx; 2]>, b2: Seq<ProtoEdgeB>, c: Seq<int>, f: Seq<int>, sc2: Seq<[EdgeIdx; 2]>)
    requires noted(a, sc0.len() as int), sorted_i64(ids), is_perm(p, q, a.len() as int), b1.len() == a.len(), forall|i: int| 0 <= i < b1.len() ==> located(ids, a[p[i]], #[trigger] b1[i]),
        sc_in(sc0, a.len() as int), sc_own(b1, sc0.len() as int), mapped_all(q, b1, sc0, sc1), merged(b1, b2, c, f), mapped_all(c, b2, sc1, sc2),
    ensures kept(givens(a, sc0), b2.len() as int, went(q, c), came(p, f)), forall|e: int| 0 <= e < b2.len() ==> from_in(ids, b2[e], givens(a, sc0)[#[trigger] came(p, f)[e]], sc2, went(q, c)),
{
    let ins = givens(a, sc0); let (w, h) = (went(q, c), came(p, f)); let m = b2.len() as int;
    assert forall|e: int| 0 <= e < m implies 0 <= #[trigger] h[e] < ins.len() && w[h[e]] == e by { assert(0 <= f[e] < b1.len() && c[f[e]] == e); assert(q[p[f[e]]] == f[e]); }
    assert forall|i: int| 0 <= i < ins.len() implies 0 <= #[trigger] w[i] < m && (h[w[i]] == i || twin(ins[h[w[i]]], ins[i])) by {
        let k = q[i]; assert(p[k] == i); assert(0 <= c[k] < b2.len()); assert(w[i] == c[k]); assert(h[w[i]] == p[f[c[k]]]);
        if f[c[k]] != k { let l = f[c[k]]; assert(0 <= l < b1.len()); assert(dup(b1[l], b1[k])); assert(located(ids, a[p[l]], b1[l])); assert(located(ids, a[p[k]], b1[k])); assert(ins[p[l]] == given(a[p[l]], sc0) && ins[p[k]] == given(a[p[k]], sc0)); }
    }
    assert forall|e: int| 0 <= e < m implies from_in(ids, b2[e], ins[#[trigger] h[e]], sc2, w) by {
        let k = f[e]; assert(b2[e] == b1[k]); assert(located(ids, a[p[k]], b1[k])); assert(ins[p[k]] == given(a[p[k]], sc0));
        if b2[e].sc_edges is Some {
            let s = b2[e].sc_edges->0 as int; assert(mapped(q, sc0[s], sc1[s])); assert(mapped(c, sc1[s], sc2[s]));
            let x = sc0[s]; assert(x@[0].0 < a.len() && x@[1].0 < a.len());
            assert(w[x@[0].0 as int] == c[q[x@[0].0 as int]]); assert(w[x@[1].0 as int] == c[q[x@[1].0 as int]]);
        }
    }
}
/// the edges of the graph, ascending by source, of the same source descending by level
pub open spec fn c_le(g: &Graph, x: ProtoEdgeC, y: ProtoEdgeC) -> bool { x.src_idx.0 < y.src_idx.0 || (x.src_idx == y.src_idx && g.node_ch_levels@[x.dst_idx.0 as int] >= g.node_ch_levels@[y.dst_idx.0 as int]) }
pub open spec fn c_sorted(g: &Graph, s: Seq<ProtoEdgeC>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> c_le(g, #[trigger] s[i], #[trigger] s[j]) }
pub open spec fn all_lean(b: Seq<ProtoEdgeB>, s: Seq<ProtoEdgeC>) -> bool { s.len() == b.len() && forall|i: int| 0 <= i < s.len() ==> lean(b[i], #[trigger] s[i]) }
proof fn lem_c(g: &Graph, b1: Seq<ProtoEdgeB>, b2: Seq<ProtoEdgeB>, c: Seq<int>, f: Seq<int>, s: Seq<ProtoEdgeC>)
    requires fwd_sorted(g, b1), merged(b1, b2, c, f), all_lean(b2, s), forall|i: int| 0 <= i < b1.len() ==> in_graph(g.n(), #[trigger] b1[i]),
    ensures c_sorted(g, s), rising_keys(srcs(s)), forall|i: int| 0 <= i < s.len() ==> in_graph_c(g.n(), #[trigger] s[i]),
{
    assert forall|i: int| 0 <= i < s.len() implies in_graph_c(g.n(), #[trigger] s[i]) by { assert(lean(b2[i], s[i])); assert(b2[i] == b1[f[i]]); assert(in_graph(g.n(), b1[f[i]])); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies c_le(g, #[trigger] s[i], #[trigger] s[j]) by { assert(lean(b2[i], s[i])); assert(lean(b2[j], s[j])); assert(f[i] < f[j]); assert(b2[i] == b1[f[i]] && b2[j] == b1[f[j]]); assert(fwd_le(g, b1[f[i]], b1[f[j]])); }
    let k = srcs(s);
    assert forall|i: int, j: int| 0 <= i <= j < k.len() implies #[trigger] k[i] <= #[trigger] k[j] by { if i < j { assert(c_le(g, s[i], s[j])); } }
}
proof fn lem_sc(g: &Graph, b: Seq<ProtoEdgeB>, sc: Seq<[EdgeIdx; 2]>, l: Seq<(usize, [EdgeIdx; 2])>, m: int)
    requires sc_list(b, sc, l), sc_placed(g, l, m), b.len() == m,
    ensures mono(g.sc_offsets@), g.sc_offsets@[0] == 0, g.sc_offsets@[m] == g.sc_edges@.len(), g.sc_offsets@.len() == m + 1,
        forall|e: int| 0 <= e < m && (#[trigger] b[e]).sc_edges is None ==> g.sc_offsets@[e + 1] == g.sc_offsets@[e],
        forall|e: int| 0 <= e < m && (#[trigger] b[e]).sc_edges is Some ==> g.sc_offsets@[e + 1] == g.sc_offsets@[e] + 1 && g.sc_offsets@[e] < g.sc_edges@.len() && g.sc_edges@[g.sc_offsets@[e] as int] == sc[b[e].sc_edges->0 as int],
        forall|i: int| 0 <= i < g.sc_edges@.len() ==> sc_of(b, sc, #[trigger] g.sc_edges@[i]),
{
    let off = g.sc_offsets@;
    assert forall|i: int, j: int| 0 <= i <= j < off.len() implies off[i] <= off[j] by { assert(below(l, off[i] as int, i) && below(l, off[j] as int, j)); if off[j] < off[i] { let k = off[j] as int; assert(l[k].0 >= j); assert(l[k].0 < i); } }
    assert(below(l, off[0] as int, 0)); if off[0] > 0 { assert(l[0].0 < 0); }
    assert(below(l, off[m] as int, m)); if off[m] < l.len() { assert(l[off[m] as int].0 >= m); }
    assert forall|e: int| 0 <= e < m && (#[trigger] b[e]).sc_edges is None implies off[e + 1] == off[e] by {
        assert(below(l, off[e] as int, e) && below(l, off[e + 1] as int, e + 1));
        if off[e] < off[e + 1] { let k = off[e] as int; assert(l[k].0 >= e && l[k].0 < e + 1); assert(b[l[k].0 as int].sc_edges is Some); }
    }
    assert forall|e: int| 0 <= e < m && (#[trigger] b[e]).sc_edges is Some implies off[e + 1] == off[e] + 1 && off[e] < g.sc_edges@.len() && g.sc_edges@[off[e] as int] == sc[b[e].sc_edges->0 as int] by {
        assert(below(l, off[e] as int, e) && below(l, off[e + 1] as int, e + 1)); assert(listed_at(l, e));
        let k = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == e; let o = off[e] as int;
        if k < o { assert(l[k].0 < e); } if k >= off[e + 1] { assert(l[k].0 >= e + 1); }
        if o < k { assert(l[o].0 < l[k].0); assert(l[o].0 >= e); }
        if k + 1 < off[e + 1] { assert(l[k + 1].0 > l[k].0); assert(l[k + 1].0 < e + 1); }
        assert(g.sc_edges@[o] == l[o].1);
    }
    assert forall|i: int| 0 <= i < g.sc_edges@.len() implies sc_of(b, sc, #[trigger] g.sc_edges@[i]) by { assert(g.sc_edges@[i] == l[i].1); assert(l[i].0 < b.len()); assert(b[l[i].0 as int].sc_edges is Some); }
}
pub open spec fn sc_of(b: Seq<ProtoEdgeB>, sc: Seq<[EdgeIdx; 2]>, x: [EdgeIdx; 2]) -> bool { exists|e: int| 0 <= e < b.len() && (#[trigger] b[e]).sc_edges is Some && x == sc[b[e].sc_edges->0 as int] }
proof fn lem_wf_sc(ins: Seq<In>, ids: Seq<i64>, w: Seq<int>, h: Seq<int>, b: Seq<ProtoEdgeB>, sc: Seq<[EdgeIdx; 2]>, s: Seq<[EdgeIdx; 2]>)
    requires kept(ins, b.len() as int, w, h), refs_in(ins), forall|e: int| 0 <= e < b.len() ==> from_in(ids, b[e], ins[#[trigger] h[e]], sc, w), forall|i: int| 0 <= i < s.len() ==> sc_of(b, sc, #[trigger] s[i]),
    ensures forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@[0].0 < b.len() && s[i]@[1].0 < b.len(),
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i])@[0].0 < b.len() && s[i]@[1].0 < b.len() by {
        assert(sc_of(b, sc, s[i])); let e = choose|e: int| 0 <= e < b.len() && (#[trigger] b[e]).sc_edges is Some && s[i] == sc[b[e].sc_edges->0 as int];
        assert(from_in(ids, b[e], ins[h[e]], sc, w)); let x = ins[h[e]].sc->0; assert(mapped(w, x, s[i])); assert(0 <= w[x@[0].0 as int] < b.len()); assert(0 <= w[x@[1].0 as int] < b.len());
    }
}
/// shortcuts refer to given edges
pub open spec fn refs_in(ins: Seq<In>) -> bool { forall|i: int| 0 <= i < ins.len() && (#[trigger] ins[i]).sc is Some ==> (ins[i].sc->0)@[0].0 < ins.len() && (ins[i].sc->0)@[1].0 < ins.len() }
proof fn lem_refs(a: Seq<ProtoEdgeA>, sc: Seq<[EdgeIdx; 2]>)
    requires noted(a, sc.len() as int), ensures sc_in(sc, a.len() as int) == refs_in(givens(a, sc))
{
    let ins = givens(a, sc);
    if sc_in(sc, a.len() as int) { assert forall|i: int| 0 <= i < ins.len() && (#[trigger] ins[i]).sc is Some implies (ins[i].sc->0)@[0].0 < ins.len() && (ins[i].sc->0)@[1].0 < ins.len() by { assert(a[i].sc_edges is Some); let k = a[i].sc_edges->0 as int; assert(sc[k]@[0].0 < a.len()); } }
    if refs_in(ins) { assert forall|k: int| 0 <= k < sc.len() implies (#[trigger] sc[k])@[0].0 < a.len() && sc[k]@[1].0 < a.len() by { assert(owner(a, k)); let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).sc_edges is Some && a[i].sc_edges->0 == k; assert(ins[i].sc is Some); } }
}
proof fn lem_lvl_fwd(g: &Graph, s: Seq<ProtoEdgeC>)
    requires c_sorted(g, s), filled(g, s, s.len() as int), csr(g.fwd_offsets@, g.fwd_to_fwd_map@, g.bwd_dsts@, g.n()), ensures by_level(g, g.fwd_offsets@, g.fwd_to_fwd_map@, g.fwd_dsts@)
{
    hide(csr);
    let off = g.fwd_offsets@; let map = g.fwd_to_fwd_map@;
    assert forall|u: int, i: int, j: int| 0 <= u < g.n() && #[trigger] off[u] <= i < j < off[u + 1] implies lv(g.node_ch_levels@, g.fwd_dsts@, #[trigger] map[j]) <= lv(g.node_ch_levels@, g.fwd_dsts@, #[trigger] map[i]) by {
        lem_csr_at(off, map, g.bwd_dsts@, g.n(), u, i); lem_csr_at(off, map, g.bwd_dsts@, g.n(), u, j); assert(map[i].0 == i && map[j].0 == j); assert(c_le(g, s[i], s[j]));
        assert(g.bwd_dsts@[i] == s[i].src_idx && g.bwd_dsts@[j] == s[j].src_idx); assert(g.fwd_dsts@[i] == s[i].dst_idx && g.fwd_dsts@[j] == s[j].dst_idx);
    }
}
proof fn lem_csr_at(off: Seq<usize>, map: Seq<EdgeIdx>, here: Seq<NodeIdx>, n: int, u: int, i: int) requires csr(off, map, here, n), 0 <= u < n, off[u] <= i < off[u + 1] ensures 0 <= i < map.len(), here[map[i].0 as int].0 == u { assert(off[u + 1] <= off[n]); }
proof fn lem_lvl_bwd(g: &Graph, s: Seq<ProtoEdgeC>, t: Seq<ProtoEdgeC>)
    requires bwd_sorted(g, t), filled(g, s, s.len() as int), csr(g.bwd_offsets@, g.bwd_to_fwd_map@, g.fwd_dsts@, g.n()), t.len() == s.len(), g.bwd_to_fwd_map@.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> (#[trigger] g.bwd_to_fwd_map@[i]).0 == t[i].idx,
        points(t, s),
    ensures by_level(g, g.bwd_offsets@, g.bwd_to_fwd_map@, g.bwd_dsts@)
{
    hide(csr);
    let off = g.bwd_offsets@; let map = g.bwd_to_fwd_map@;
    assert forall|u: int, i: int, j: int| 0 <= u < g.n() && #[trigger] off[u] <= i < j < off[u + 1] implies lv(g.node_ch_levels@, g.bwd_dsts@, #[trigger] map[j]) <= lv(g.node_ch_levels@, g.bwd_dsts@, #[trigger] map[i]) by {
        lem_csr_at(off, map, g.fwd_dsts@, g.n(), u, i); lem_csr_at(off, map, g.fwd_dsts@, g.n(), u, j); assert(map[i].0 == t[i].idx && map[j].0 == t[j].idx);
        assert(g.fwd_dsts@[t[i].idx as int] == s[t[i].idx as int].dst_idx && g.fwd_dsts@[t[j].idx as int] == s[t[j].idx as int].dst_idx);
        assert(g.bwd_dsts@[t[i].idx as int] == s[t[i].idx as int].src_idx && g.bwd_dsts@[t[j].idx as int] == s[t[j].idx as int].src_idx);
        assert(bwd_le(g, t[i], t[j]));
    }
}

/// the whole construction: ins are the given edges
pub open spec fn built(ins: Seq<In>, cfg: ParsingConfig, g: &Graph, w: Seq<int>, h: Seq<int>, ms: Seq<Vec<F64>>) -> bool {
    &&& kept(ins, g.m(), w, h)
    &&& forall|e: int| 0 <= e < g.m() ==> is_edge(g, e, ins[#[trigger] h[e]], w)
    &&& ms.len() == g.m() && forall|e: int| 0 <= e < g.m() ==> raised(ins[#[trigger] h[e]].metrics, ms[e]@) && big1(ms[e]@)
    &&& cfg.generating is None ==> (forall|e: int| 0 <= e < g.m() ==> g.edge_ids@[e] == ins[#[trigger] h[e]].id) && scaled(cfg, ms, g)
    &&& cfg.generating is Some ==> exists|gp: Graph, gn: Graph, gs: Seq<Graph>| #[trigger] regen(ins, cfg, g, h, ms, gp, gn, gs)
}
/// with generating rules: gp is the graph before them, gn the one after them; g is gn, normalised if configured
pub open spec fn regen(ins: Seq<In>, cfg: ParsingConfig, g: &Graph, h: Seq<int>, ms: Seq<Vec<F64>>, gp: Graph, gn: Graph, gs: Seq<Graph>) -> bool {
    &&& gp.cfg == cfg && gp.metrics@ == ms && all_ids(gp.edge_ids@, ins, h) && eq_nodes(&gp, g) && eq_fwd(&gp, g)
    &&& generated(&gp, &gn, cfg.generating->0, gs)
    &&& g.cfg == gn.cfg && eq_ids(g, &gn) && scaled(cfg, gn.metrics@, g)
}
/// metrics as stored or divided by their means
pub open spec fn scaled(cfg: ParsingConfig, ms: Seq<Vec<F64>>, g: &Graph) -> bool {
    if !cfg.edges.metrics.are_normalized { g.metrics@ == ms && g.means is None } else {
        &&& g.means is Some && (g.means->0)@.len() == g.dim() && g.m() > 0
        &&& forall|j: int| 0 <= j < g.dim() ==> (#[trigger] (g.means->0)@[j])@ == cmean(ms, j) && !aeq(cmean(ms, j), Ext::Fin(0real))
        &&& forall|e: int| 0 <= e < g.m() ==> normed(ms[e]@, (g.means->0)@, (#[trigger] g.metrics@[e])@)
    }
}
pub open spec fn norm_bad(g: &Graph) -> bool { g.m() == 0 || mean_zero(g.metrics@, g.dim()) }
/// why generating or normalising fails: gp is the graph before the rules, gn the one after them
pub open spec fn fails(ins: Seq<In>, cfg: ParsingConfig, w: Seq<int>, h: Seq<int>, ms: Seq<Vec<F64>>, gp: Graph, gn: Graph) -> bool {
    &&& kept(ins, ms.len() as int, w, h) && raised_from(ins, h, ms) && gp.cfg == cfg && gp.metrics@ == ms && gp.m() == ms.len()
    &&& (cfg.generating is Some && refused(&gp, cfg.generating->0))
        || (cfg.edges.metrics.are_normalized && norm_bad(&gn) && if cfg.generating is None { gn == gp } else { exists|gs: Seq<Graph>| #[trigger] generated(&gp, &gn, cfg.generating->0, gs) })
}
pub open spec fn some_missing(c: Seq<Option<Coordinate>>) -> bool { exists|i: int| 0 <= i < c.len() && #[trigger] c[i] is None }
pub open spec fn some_small(ins: Seq<In>) -> bool { exists|i: int, j: int| 0 <= i < ins.len() && 0 <= j < (#[trigger] ins[i]).metrics.len() && too_small(#[trigger] ins[i].metrics[j]) }
pub open spec fn too_small(x: F64) -> bool { !aeq(x@, Ext::Fin(0real)) && !ge(x@, Ext::Fin(F64_ABS_r())) }
pub open spec fn some_shared(ins: Seq<In>) -> bool { exists|i: int, j: int| 0 <= i < j < ins.len() && (#[trigger] ins[i]).id is Some && ins[i].id == (#[trigger] ins[j]).id }

proof fn lem_ends_in(ids: Seq<i64>, a: Seq<ProtoEdgeA>, sc: Seq<[EdgeIdx; 2]>) requires ends_are(ids, givens(a, sc)) ensures ends_in(ids, a)
{ let ins = givens(a, sc); assert forall|i: int| 0 <= i < a.len() implies ids.contains((#[trigger] a[i]).src_id) && ids.contains(a[i].dst_id) by { assert(ins[i].src == a[i].src_id && ins[i].dst == a[i].dst_id); assert(an_end(ins, a[i].src_id)); assert(an_end(ins, a[i].dst_id)); assert(ids.contains(a[i].src_id) == an_end(ins, a[i].src_id)); } }
proof fn lem_in_graph(ids: Seq<i64>, a: Seq<ProtoEdgeA>, b: Seq<ProtoEdgeB>) requires all_located(ids, a, b) ensures forall|i: int| 0 <= i < b.len() ==> in_graph(ids.len() as int, #[trigger] b[i])
{ assert forall|i: int| 0 <= i < b.len() implies in_graph(ids.len() as int, #[trigger] b[i]) by { assert(located(ids, a[i], b[i])); } }
proof fn lem_same_fwd(g: &Graph, k: &Graph, s: Seq<ProtoEdgeB>) requires fwd_sorted(g, s), eq_nodes(k, g) ensures fwd_sorted(k, s)
{ assert forall|i: int, j: int| 0 <= i < j < s.len() implies fwd_le(k, #[trigger] s[i], #[trigger] s[j]) by { assert(fwd_le(g, s[i], s[j])); } }
proof fn lem_same_c(g: &Graph, k: &Graph, s: Seq<ProtoEdgeC>) requires eq_nodes(k, g) ensures c_sorted(g, s) ==> c_sorted(k, s), bwd_sorted(g, s) ==> bwd_sorted(k, s)
{
    if c_sorted(g, s) { assert forall|i: int, j: int| 0 <= i < j < s.len() implies c_le(k, #[trigger] s[i], #[trigger] s[j]) by { assert(c_le(g, s[i], s[j])); } }
    if bwd_sorted(g, s) { assert forall|i: int, j: int| 0 <= i < j < s.len() implies bwd_le(k, #[trigger] s[i], #[trigger] s[j]) by { assert(bwd_le(g, s[i], s[j])); } }
}
pub open spec fn all_from(ids: Seq<i64>, ins: Seq<In>, b: Seq<ProtoEdgeB>, sc: Seq<[EdgeIdx; 2]>, w: Seq<int>, h: Seq<int>) -> bool { forall|e: int| 0 <= e < b.len() ==> from_in(ids, b[e], ins[#[trigger] h[e]], sc, w) }
pub open spec fn all_raised(b: Seq<ProtoEdgeB>, ms: Seq<Vec<F64>>) -> bool { ms.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> raised(b[i].metrics@, (#[trigger] ms[i])@) }
pub open spec fn raised_from(ins: Seq<In>, h: Seq<int>, ms: Seq<Vec<F64>>) -> bool { h.len() == ms.len() && forall|e: int| 0 <= e < ms.len() ==> raised(ins[#[trigger] h[e]].metrics, ms[e]@) }
pub open spec fn of_dim(ins: Seq<In>, d: int) -> bool { forall|i: int| 0 <= i < ins.len() ==> (#[trigger] ins[i]).metrics.len() == d }
proof fn lem_metrics(ids: Seq<i64>, ins: Seq<In>, b: Seq<ProtoEdgeB>, sc: Seq<[EdgeIdx; 2]>, w: Seq<int>, h: Seq<int>, ms: Seq<Vec<F64>>, d: int)
    requires all_from(ids, ins, b, sc, w, h), all_raised(b, ms), kept(ins, b.len() as int, w, h), of_dim(ins, d), ensures raised_from(ins, h, ms), wide(ms, d)
{
    assert forall|e: int| 0 <= e < ms.len() implies raised(ins[#[trigger] h[e]].metrics, ms[e]@) by { assert(from_in(ids, b[e], ins[h[e]], sc, w)); assert(raised(b[e].metrics@, ms[e]@)); }
    assert forall|e: int| 0 <= e < ms.len() implies (#[trigger] ms[e])@.len() == d by { assert(raised(ins[h[e]].metrics, ms[e]@)); assert(ins[h[e]].metrics.len() == d); }
}
proof fn lem_small(ins: Seq<In>, w: Seq<int>, h: Seq<int>, g: &Graph) requires kept(ins, g.metrics@.len() as int, w, h), raised_from(ins, h, g.metrics@), !big(g) ensures some_small(ins)
{
    let e = choose|e: int| 0 <= e < g.metrics@.len() && !big1((#[trigger] g.metrics@[e])@); let x = g.metrics@[e]@;
    let j = choose|j: int| 0 <= j < x.len() && !ge((#[trigger] x[j])@, Ext::Fin(F64_ABS_r())); assert(raised(ins[h[e]].metrics, x)); assert(raised1(ins[h[e]].metrics[j]@, x[j]));
    assert(too_small(ins[h[e]].metrics[j]));
}
proof fn lem_filled(g: &Graph, b: Seq<ProtoEdgeB>, s: Seq<ProtoEdgeC>) requires filled(g, s, s.len() as int), all_lean(b, s) ensures g.m() == s.len(), g.edge_ids@.len() == s.len(), g.bwd_dsts@.len() == s.len(), forall|i: int| 0 <= i < g.edge_ids@.len() ==> #[trigger] g.edge_ids@[i] == b[i].id
{ assert forall|i: int| 0 <= i < g.edge_ids@.len() implies #[trigger] g.edge_ids@[i] == b[i].id by { assert(g.edge_ids@[i] == s[i].id); assert(lean(b[i], s[i])); } }
proof fn lem_shared(ids: Seq<i64>, ins: Seq<In>, b: Seq<ProtoEdgeB>, sc: Seq<[EdgeIdx; 2]>, w: Seq<int>, h: Seq<int>, v: Seq<Option<usize>>)
    requires kept(ins, b.len() as int, w, h), all_from(ids, ins, b, sc, w, h), v.len() == b.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == b[i].id,
    ensures !unique_ids(v) ==> some_shared(ins), forall|e: int| 0 <= e < b.len() ==> v[e] == ins[#[trigger] h[e]].id,
{
    assert forall|e: int| 0 <= e < b.len() implies v[e] == ins[#[trigger] h[e]].id by { assert(from_in(ids, b[e], ins[h[e]], sc, w)); }
    if !unique_ids(v) {
        let (i, j) = choose|i: int, j: int| 0 <= i < j < v.len() && (#[trigger] v[i]) is Some && (#[trigger] v[j]) is Some && v[i] == v[j];
        let (x, y) = (h[i], h[j]); assert(w[x] == i && w[y] == j); assert(ins[x].id == v[i] && ins[y].id == v[j]);
        if x < y { assert(ins[x].id is Some && ins[x].id == ins[y].id); } else { assert(ins[y].id is Some && ins[y].id == ins[x].id); }
    }
}
pub open spec fn numbered(s: Seq<ProtoEdgeC>, t: Seq<ProtoEdgeC>) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).idx == i && t[i].id == s[i].id && t[i].src_idx == s[i].src_idx && t[i].dst_idx == s[i].dst_idx }
pub open spec fn points(t: Seq<ProtoEdgeC>, s: Seq<ProtoEdgeC>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).idx < s.len() && t[i].src_idx == s[t[i].idx as int].src_idx && t[i].dst_idx == s[t[i].idx as int].dst_idx }
proof fn lem_t(g: &Graph, s: Seq<ProtoEdgeC>, s2: Seq<ProtoEdgeC>, p: Seq<int>, q: Seq<int>, t: Seq<ProtoEdgeC>)
    requires numbered(s, s2), rearranged(p, q, s2, t), bwd_sorted(g, t), filled(g, s, s.len() as int), forall|i: int| 0 <= i < s.len() ==> in_graph_c(g.n(), #[trigger] s[i]),
    ensures points(t, s), rising_keys(dsts(t)), forall|i: int| 0 <= i < t.len() ==> in_graph_c(g.n(), #[trigger] t[i]), forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == t[i].idx,
        forall|i: int| 0 <= i < t.len() ==> g.fwd_dsts@[(#[trigger] t[i]).idx as int] == t[i].dst_idx,
{
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).idx < s.len() && t[i].src_idx == s[t[i].idx as int].src_idx && t[i].dst_idx == s[t[i].idx as int].dst_idx by { assert(t[i] == s2[p[i]]); }
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == t[i].idx by { assert(t[i] == s2[p[i]]); }
    assert forall|i: int| 0 <= i < t.len() implies in_graph_c(g.n(), #[trigger] t[i]) by { assert(in_graph_c(g.n(), s[t[i].idx as int])); }
    assert forall|i: int| 0 <= i < t.len() implies g.fwd_dsts@[(#[trigger] t[i]).idx as int] == t[i].dst_idx by { assert(g.fwd_dsts@[t[i].idx as int] == s[t[i].idx as int].dst_idx); }
    let k = dsts(t);
    assert forall|i: int, j: int| 0 <= i <= j < k.len() implies #[trigger] k[i] <= #[trigger] k[j] by { if i < j { assert(bwd_le(g, t[i], t[j])); } }
}
proof fn lem_edges(g: &Graph, ids: Seq<i64>, ins: Seq<In>, b: Seq<ProtoEdgeB>, sc: Seq<[EdgeIdx; 2]>, w: Seq<int>, h: Seq<int>, s: Seq<ProtoEdgeC>)
    requires g.node_ids@ == ids, kept(ins, b.len() as int, w, h), all_from(ids, ins, b, sc, w, h), all_lean(b, s), filled(g, s, s.len() as int), 
        forall|e: int| 0 <= e < b.len() && (#[trigger] b[e]).sc_edges is None ==> g.sc_offsets@[e + 1] == g.sc_offsets@[e],
        forall|e: int| 0 <= e < b.len() && (#[trigger] b[e]).sc_edges is Some ==> g.sc_offsets@[e + 1] == g.sc_offsets@[e] + 1 && g.sc_offsets@[e] < g.sc_edges@.len() && g.sc_edges@[g.sc_offsets@[e] as int] == sc[b[e].sc_edges->0 as int],
    ensures forall|e: int| 0 <= e < g.m() ==> is_edge(g, e, ins[#[trigger] h[e]], w),
{
    assert forall|e: int| 0 <= e < g.m() implies is_edge(g, e, ins[#[trigger] h[e]], w) by {
        assert(from_in(ids, b[e], ins[h[e]], sc, w)); assert(lean(b[e], s[e])); assert(g.bwd_dsts@[e] == s[e].src_idx && g.fwd_dsts@[e] == s[e].dst_idx);
    }
}
proof fn lem_ends_ok(g: &Graph, s: Seq<ProtoEdgeC>) requires filled(g, s, s.len() as int), forall|i: int| 0 <= i < s.len() ==> in_graph_c(g.n(), #[trigger] s[i])
    ensures forall|e: int| 0 <= e < g.m() ==> (#[trigger] g.fwd_dsts@[e]).0 < g.n(), forall|e: int| 0 <= e < g.m() ==> (#[trigger] g.bwd_dsts@[e]).0 < g.n(), g.bwd_dsts@.len() == g.m(), g.m() == s.len(),
{
    assert forall|e: int| 0 <= e < g.m() implies (#[trigger] g.fwd_dsts@[e]).0 < g.n() by { assert(in_graph_c(g.n(), s[e])); assert(g.fwd_dsts@[e] == s[e].dst_idx); }
    assert forall|e: int| 0 <= e < g.m() implies (#[trigger] g.bwd_dsts@[e]).0 < g.n() by { assert(in_graph_c(g.n(), s[e])); assert(g.bwd_dsts@[e] == s[e].src_idx); }
}
proof fn lem_ends_same(g: &Graph, k: &Graph) requires g.bwd_dsts@.len() == g.m(), forall|e: int| 0 <= e < g.m() ==> (#[trigger] g.fwd_dsts@[e]).0 < g.n(), forall|e: int| 0 <= e < g.m() ==> (#[trigger] g.bwd_dsts@[e]).0 < g.n(), eq_nodes(k, g), eq_fwd(k, g), k.node_coords@.len() == k.n() ensures ends_ok(k) {}
pub open spec fn all_edges(g: &Graph, ins: Seq<In>, w: Seq<int>, h: Seq<int>) -> bool { forall|e: int| 0 <= e < g.m() ==> is_edge(g, e, ins[#[trigger] h[e]], w) }
pub open spec fn all_ids(v: Seq<Option<usize>>, ins: Seq<In>, h: Seq<int>) -> bool { v.len() == h.len() && forall|e: int| 0 <= e < v.len() ==> v[e] == ins[#[trigger] h[e]].id }
proof fn lem_built(ins: Seq<In>, cfg: ParsingConfig, gm: &Graph, g3: &Graph, g: &Graph, w: Seq<int>, h: Seq<int>, ms: Seq<Vec<F64>>, gp: Graph, gn: Graph, gs: Seq<Graph>)
    requires kept(ins, g3.m(), w, h), all_edges(g3, ins, w, h), eq_nodes(g, g3), eq_fwd(g, g3), eq_sc(g, g3), raised_from(ins, h, ms), big(gm), gm.metrics@ == ms, ms.len() == g3.m(),
        cfg.generating is None ==> g.edge_ids@ == g3.edge_ids@ && scaled(cfg, ms, g), all_ids(g3.edge_ids@, ins, h), g3.edge_ids@.len() == g3.m(), cfg.generating is Some ==> regen(ins, cfg, g, h, ms, gp, gn, gs),
    ensures built(ins, cfg, g, w, h, ms),
{
    assert forall|e: int| 0 <= e < g.m() implies is_edge(g, e, ins[#[trigger] h[e]], w) by { assert(is_edge(g3, e, ins[h[e]], w)); }
    assert forall|e: int| 0 <= e < g.m() implies raised(ins[#[trigger] h[e]].metrics, ms[e]@) && big1(ms[e]@) by { assert(big1(gm.metrics@[e]@)); }
    if cfg.generating is None { assert forall|e: int| 0 <= e < g.m() implies g.edge_ids@[e] == ins[#[trigger] h[e]].id by { assert(g3.edge_ids@[e] == ins[h[e]].id); } }
}
proof fn lem_scaled(cfg: ParsingConfig, ms: Seq<Vec<F64>>, g: &Graph)
    requires cfg.edges.metrics.are_normalized == g.cfg.edges.metrics.are_normalized, if !cfg.edges.metrics.are_normalized { g.metrics@ == ms && g.means is None } else { g.means is Some && (g.means->0)@.len() == g.dim() && g.m() > 0 && !mean_zero(ms, g.dim()) && (forall|j: int| 0 <= j < g.dim() ==> (#[trigger] (g.means->0)@[j])@ == cmean(ms, j))
        && (forall|e: int| 0 <= e < g.m() ==> normed(ms[e]@, (g.means->0)@, (#[trigger] g.metrics@[e])@)) },
    ensures scaled(cfg, ms, g),
{
    if cfg.edges.metrics.are_normalized { assert forall|j: int| 0 <= j < g.dim() implies (#[trigger] (g.means->0)@[j])@ == cmean(ms, j) && !aeq(cmean(ms, j), Ext::Fin(0real)) by { assert(!mean_zero(ms, g.dim())); } }
}
proof fn lem_regen(ins: Seq<In>, cfg: ParsingConfig, g: &Graph, h: Seq<int>, ms: Seq<Vec<F64>>, gp: Graph, gn: Graph, gs: Seq<Graph>)
    requires gp.cfg == cfg, gp.metrics@ == ms, all_ids(gp.edge_ids@, ins, h), eq_nodes(&gp, g), eq_fwd(&gp, g), generated(&gp, &gn, cfg.generating->0, gs), g.cfg == gn.cfg, eq_ids(g, &gn), scaled(cfg, gn.metrics@, g),
    ensures regen(ins, cfg, g, h, ms, gp, gn, gs) {}
/// the widths stay
proof fn lem_wide(ms: Seq<Vec<F64>>, d: int, g: &Graph)
    requires wide(ms, d), ms.len() == g.m(), d == g.dim(), g.metrics@ == ms || (g.metrics@.len() == g.m() && forall|e: int| 0 <= e < g.m() ==> normed(ms[e]@, (g.means->0)@, (#[trigger] g.metrics@[e])@)),
    ensures g.wf_metrics(),
{ if g.metrics@ != ms { assert forall|e: int| 0 <= e < g.m() implies (#[trigger] g.metrics@[e])@.len() == g.dim() by { assert(normed(ms[e]@, (g.means->0)@, g.metrics@[e]@)); assert(ms[e]@.len() == d); } } }
proof fn lem_same_level(g: &Graph, k: &Graph) requires eq_nodes(k, g), eq_fwd(k, g), eq_bwd(k, g), sorted_by_level(g) ensures sorted_by_level(k) { hide(by_lvl); }
impl GraphBuilder {
@@fn src/network/graph/building.rs :: GraphBuilder::finalize [id=GraphBuilder::finalize]
%cut: fin_nodes
    fin_nodes(&mut graph, self.node_ids, self.node_coords, self.node_ch_levels)?;
%cut: fin_indices
    let proto_edges = fin_indices(&graph, self.proto_edges);
%cut: fin_sort_fwd
    let proto_edges = fin_sort_fwd(&graph, proto_edges);
%cut: fin_remap
    let proto_shortcuts = fin_remap(&proto_edges, self.proto_shortcuts)?;
%cut: fin_dedup
    let (proto_edges, proto_shortcuts, sc_count) = fin_dedup(proto_edges, proto_shortcuts);
%cut: fin_metrics
    let (new_sc_edges, proto_edges) = fin_metrics(&mut graph, proto_edges, &proto_shortcuts, sc_count)?;
%cut: fin_check
    fin_check(&graph)?;
%cut: fin_sc
    fin_sc(&mut graph, &proto_edges, &new_sc_edges, sc_count);
%cut: fin_fwd
    let proto_edges = fin_fwd(&mut graph, proto_edges);
%cut: fin_ids
    fin_ids(&mut graph)?;
%cut: fin_sort_bwd
    let proto_edges = fin_sort_bwd(&graph, proto_edges);
%cut: fin_bwd
    fin_bwd(&mut graph, proto_edges);
%cut: fin_gen
    fin_gen(&mut graph)?;
%cut: fin_norm
    fin_norm(&mut graph)?;
%attr
#[verifier::spinoff_prover]
#[verifier::rlimit(100)]
%spec
    requires self.ok(), self.proto_edges@.len() < usize::MAX, self.node_ids@.len() < usize::MAX, of_dim(self.ins(), self.cfg.edges.metrics.units@.len() as int),
        self.cfg.edges.metrics.ids@.len() == self.cfg.edges.metrics.units@.len(), self.cfg.generating is Some ==> all_mergeable(self.cfg.generating->0),
    ensures r is Err ==> some_missing(self.node_coords@) || !refs_in(self.ins()) || some_small(self.ins()) || some_shared(self.ins())
            || exists|w: Seq<int>, h: Seq<int>, ms: Seq<Vec<F64>>, gp: Graph, gn: Graph| #[trigger] fails(self.ins(), self.cfg, w, h, ms, gp, gn),
        r is Ok ==> refs_in(self.ins()) && (r->Ok_0).node_ids@ == self.node_ids@ && (r->Ok_0).node_ch_levels@ == self.node_ch_levels@ && coords_of(self.node_coords@, (r->Ok_0).node_coords@),
        r is Ok && (r->Ok_0).n() >= 1 ==> (r->Ok_0).wf() && sorted_by_level(&r->Ok_0),
        r is Ok ==> ids_ok(&r->Ok_0) && exists|w: Seq<int>, h: Seq<int>, ms: Seq<Vec<F64>>| #[trigger] built(self.ins(), self.cfg, &r->Ok_0, w, h, ms),
%start
    hide(noted); hide(ends_are); hide(ends_in); hide(all_located); hide(kept); hide(all_from); hide(all_raised); hide(raised_from); hide(sc_in); hide(refs_in); hide(rearranged); hide(is_perm); hide(merged); hide(mapped_all); hide(sc_own); hide(fwd_sorted); hide(bwd_sorted); hide(c_sorted); hide(all_lean); hide(sc_list); hide(sc_placed); hide(filled); hide(numbered); hide(points); hide(csr); hide(by_level); hide(unique_ids); hide(sorted_ids); hide(ids_listed); hide(rising_keys); hide(wide); hide(big); hide(sorted_i64); hide(coords_of); hide(of_dim); hide(some_small); hide(some_shared); hide(mono); hide(cmean); hide(normed); hide(mean_zero); hide(all_edges); hide(all_ids); hide(built); hide(scaled); hide(regen); hide(generated); hide(all_mergeable); hide(rule); hide(refused); hide(mean_zero);
    let ghost a = self.proto_edges@; let ghost sc0 = self.proto_shortcuts@; let ghost ids = self.node_ids@; let ghost ins = self.ins(); let ghost norm = self.cfg.edges.metrics.are_normalized;
    proof { lem_ends_in(ids, a, sc0); lem_refs(a, sc0); }
%after: let proto_edges = fin_indices
    let ghost b0 = proto_edges@;
    proof { assert(all_located(ids, a, b0)) by { reveal(all_located); } lem_in_graph(ids, a, b0); }
%after: let proto_edges = fin_sort_fwd
    let ghost b1 = proto_edges@; let ghost (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] rearranged(p, q, b0, b1); let ghost g1 = graph;
    proof { lem_idx(a, sc0.len() as int, ids, b0, p, q, b1); assert(is_perm(p, q, b1.len() as int) && b1.len() == b0.len() && b0.len() == a.len()) by { reveal(rearranged); reveal(all_located); } assert(p.len() == b1.len()) by { reveal(is_perm); } assert(forall|i: int| 0 <= i < b1.len() ==> in_graph(ids.len() as int, #[trigger] b1[i])); }
%after: let proto_shortcuts = fin_remap
    let ghost sc1 = proto_shortcuts@;
    proof { assert(mapped_all(q, b1, sc0, sc1)); lem_fits(b1, p, q, sc0, sc1); assert(sc1.len() == sc0.len()) by { reveal(mapped_all); } }
%after: let (proto_edges, proto_shortcuts, sc_count)
    let ghost b2 = proto_edges@; let ghost sc2 = proto_shortcuts@; let ghost (c, f) = choose|c: Seq<int>, f: Seq<int>| #[trigger] merged(b1, b2, c, f) && mapped_all(c, b2, sc1, sc2);
    let ghost w = went(q, c); let ghost h = came(p, f);
    proof { lem_shorter(b1, b2, c, f); lem_own(b1, b2, c, f, sc0.len() as int); lem_kept(a, sc0, ids, b1, p, q, sc1, b2, c, f, sc2); assert(all_from(ids, ins, b2, sc2, w, h)) by { reveal(all_from); } assert(sc2.len() == sc0.len()) by { reveal(mapped_all); } }
%after: let (new_sc_edges, proto_edges)
    let ghost gm = graph; let ghost s = proto_edges@; let ghost ms = graph.metrics@; let ghost l = new_sc_edges@; let ghost m = b2.len() as int; let ghost d = self.cfg.edges.metrics.units@.len() as int;
    proof { assert(all_lean(b2, s)) by { reveal(all_lean); } assert(all_raised(b2, ms)) by { reveal(all_raised); } lem_metrics(ids, ins, b2, sc2, w, h, ms, d); lem_same_fwd(&g1, &graph, b1); lem_c(&graph, b1, b2, c, f, s); if !big(&graph) { lem_small(ins, w, h, &graph); } assert((forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 < m) && (forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 < (#[trigger] l[j]).0)) by { reveal(sc_list); } }
%after: fin_sc(
    let ghost g2 = graph;
    proof { lem_sc(&graph, b2, sc2, l, m); lem_wf_sc(ins, ids, w, h, b2, sc2, graph.sc_edges@); }
%after: let proto_edges = fin_fwd
    let ghost s2 = proto_edges@; let ghost g3 = graph;
    proof { assert(numbered(s, s2)) by { reveal(numbered); } lem_edges(&graph, ids, ins, b2, sc2, w, h, s); assert(all_edges(&graph, ins, w, h)) by { reveal(all_edges); } lem_filled(&graph, b2, s); lem_shared(ids, ins, b2, sc2, w, h, graph.edge_ids@); assert(h.len() == m) by { reveal(kept); } assert(all_ids(graph.edge_ids@, ins, h)) by { reveal(all_ids); } lem_ends_ok(&graph, s); }
%after: let proto_edges = fin_sort_bwd
    let ghost t = proto_edges@; let ghost (p2, q2) = choose|p: Seq<int>, q: Seq<int>| #[trigger] rearranged(p, q, s2, t); let ghost g4 = graph;
    proof { assert(filled(&graph, s, m)) by { reveal(filled); } assert(t.len() == m && is_perm(p2, q2, m)) by { reveal(rearranged); } assert(p2.len() == m) by { reveal(is_perm); } lem_t(&graph, s, s2, p2, q2, t); }
%after: fin_bwd(
    let ghost g5 = graph;
    proof { assert(filled(&graph, s, m)) by { reveal(filled); } lem_same_c(&gm, &graph, s); lem_same_c(&g4, &graph, t); if graph.n() >= 1 { lem_lvl_fwd(&graph, s); lem_lvl_bwd(&graph, s, t); assert(graph.wf_edges()); assert(sorted_by_level(&graph)); } }
%after: fin_gen(
    let ghost g6 = graph; let ghost mut gs: Seq<Graph> = seq![graph];
    proof { if self.cfg.generating is Some { gs = choose|gs: Seq<Graph>| #[trigger] generated(&gp, &g6, self.cfg.generating->0, gs); }
        if norm && norm_bad(&g6) { assert(fails(ins, self.cfg, w, h, ms, gp, g6)); } }
%before: fin_gen(
    let ghost gp = graph;
    proof { assert(graph.node_coords@.len() == graph.n()) by { reveal(coords_of); } lem_ends_same(&g4, &graph);
        if self.cfg.generating is Some && refused(&gp, self.cfg.generating->0) { assert(fails(ins, self.cfg, w, h, ms, gp, gp)); } }
%end
    proof {
        let g = out_->Ok_0;
        if self.cfg.generating is None { lem_scaled(self.cfg, ms, &g); } else { lem_scaled(self.cfg, g6.metrics@, &g); lem_regen(ins, self.cfg, &g, h, ms, gp, g6, gs); }
        lem_built(ins, self.cfg, &gm, &g3, &g, w, h, ms, gp, g6, gs);
        lem_wide(g6.metrics@, g6.dim(), &g);
        if g.n() >= 1 { lem_same_level(&g5, &g); assert(g.wf_sc()); assert(g.wf_nodes()) by { reveal(coords_of); } assert(g.wf_edges()); }
    }
@@end
}
// vacuity guard
fn must_fail_finalize(b: GraphBuilder) -> (r: Result<Graph, Msg>)
    requires b.ok(), b.proto_edges@.len() < usize::MAX, b.node_ids@.len() < usize::MAX, of_dim(b.ins(), b.cfg.edges.metrics.units@.len() as int), b.cfg.generating is None, b.cfg.edges.metrics.ids@.len() == b.cfg.edges.metrics.units@.len(),
    ensures r is Err,
{ b.finalize() }
