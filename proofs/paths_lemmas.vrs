// ---------------------------------------------------------------- C05: connectivity and cycles
pub open spec fn walk(g: &Graph, p: Seq<EdgeIdx>, s: int, t: int) -> bool decreases p.len() {
    if p.len() == 0 { s == t } else { g.src(p[0].0 as int) == s && walk(g, p.subrange(1, p.len() as int), g.dst(p[0].0 as int), t) } }
/// shortcuts refer to two consecutive edges between their own ends
pub open spec fn sc_conn(g: &Graph) -> bool { forall|e: int| 0 <= e < g.m() && #[trigger] is_sc(g, e) ==>
    g.src(sc0(g, e)) == g.src(e) && g.dst(sc0(g, e)) == g.src(sc1(g, e)) && g.dst(sc1(g, e)) == g.dst(e) }
pub proof fn lem_walk_cat(g: &Graph, p: Seq<EdgeIdx>, q: Seq<EdgeIdx>, s: int, u: int, t: int)
    requires walk(g, p, s, u), walk(g, q, u, t) ensures walk(g, p + q, s, t) decreases p.len()
{
    if p.len() == 0 { assert(p + q =~= q); }
    else { let r = p.subrange(1, p.len() as int); lem_walk_cat(g, r, q, g.dst(p[0].0 as int), u, t);
        assert((p + q).subrange(1, (p + q).len() as int) =~= r + q); }
}
pub proof fn lem_ex_walk(g: &Graph, e: int, k: int)
    requires g.wf_sc(), sc_conn(g), 0 <= e < g.fwd_dsts.len() ensures walk(g, ex(g, e, k), g.src(e), g.dst(e)) decreases k
{
    if is_sc(g, e) && k > 0 {
        lem_sc_range(g, e); lem_ex_walk(g, sc0(g, e), k - 1); lem_ex_walk(g, sc1(g, e), k - 1);
        lem_walk_cat(g, ex(g, sc0(g, e), k - 1), ex(g, sc1(g, e), k - 1), g.src(e), g.dst(sc0(g, e)), g.dst(e));
    } else {
        let x = seq![EdgeIdx(e as usize)]; assert(ex(g, e, k) == x); assert(x.subrange(1, 1) =~= Seq::<EdgeIdx>::empty()); assert((e as usize) as int == e);
        assert(walk(g, x.subrange(1, 1), g.dst(e), g.dst(e)));
    }
}
/// flattening keeps a walk a walk between the same nodes
pub proof fn lem_flat_walk(g: &Graph, p: Seq<EdgeIdx>, s: int, t: int, k: int)
    requires g.wf_sc(), sc_conn(g), edges_ok(g, p), walk(g, p, s, t) ensures walk(g, exs(g, p, k), s, t) decreases p.len()
{
    if p.len() > 0 {
        let r = p.subrange(1, p.len() as int);
        assert(forall|i: int| 0 <= i < r.len() ==> r[i] == p[i + 1]);
        lem_flat_walk(g, r, g.dst(p[0].0 as int), t, k); lem_ex_walk(g, p[0].0 as int, k);
        lem_walk_cat(g, ex(g, p[0].0 as int, k), exs(g, r, k), s, g.dst(p[0].0 as int), t);
    }
}
/// acyclic references (a rank below the number of edges decreases along them) are always expanded, i.e. try_flatten succeeds
pub proof fn lem_acyclic_ok(g: &Graph, rank: Seq<int>, e: int, k: int)
    requires g.wf_sc(), rank.len() == g.m(), 0 <= e < g.m(), forall|x: int| 0 <= x < g.m() ==> 0 <= #[trigger] rank[x],
        forall|x: int| 0 <= x < g.m() && #[trigger] is_sc(g, x) ==> rank[sc0(g, x)] < rank[x] && rank[sc1(g, x)] < rank[x], rank[e] <= k,
    ensures okx(g, e, k) decreases k
{
    if is_sc(g, e) { lem_sc_range(g, e); assert(rank[sc0(g, e)] >= 0); lem_acyclic_ok(g, rank, sc0(g, e), k - 1); lem_acyclic_ok(g, rank, sc1(g, e), k - 1); }
}
/// edges on a cycle of references are never expanded, i.e. try_flatten reports an error
pub proof fn lem_cycle_err(g: &Graph, c: spec_fn(int) -> int, i: int, k: int)
    requires forall|j: int| is_sc(g, #[trigger] c(j)) && (c(j + 1) == sc0(g, c(j)) || c(j + 1) == sc1(g, c(j))),
    ensures !okx(g, c(i), k) decreases k
{ assert(is_sc(g, c(i))); if k > 0 { lem_cycle_err(g, c, i + 1, k - 1); } }
