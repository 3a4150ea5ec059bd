// ---------------------------------------------------------------- the search itself
/// cost of an edge: weighted sum of its metrics
pub open spec fn wgt(g: &Graph, al: Seq<F64>, e: int) -> real { edge_dot(g, al, e)->Fin_0 }
pub open spec fn edge_dot(g: &Graph, al: Seq<F64>, e: int) -> Ext { dot(al, g.metrics@[e]@, if al.len() <= g.metrics@[e]@.len() { al.len() as int } else { g.metrics@[e]@.len() as int }) }
pub open spec fn net_of(g: &Graph, al: Seq<F64>, ch: bool, s: int, t: int) -> Net { Net { n: g.n(), m: g.m(), ch, src: Seq::new(g.m() as nat, |e: int| g.src(e)), dst: Seq::new(g.m() as nat, |e: int| g.dst(e)),
    w: Seq::new(g.m() as nat, |e: int| wgt(g, al, e)), lv: Seq::new(g.n() as nat, |u: int| g.node_ch_levels@[u] as int), s, t } }
pub open spec fn eidx(p: Seq<EdgeIdx>) -> Seq<int> { Seq::new(p.len(), |i: int| p[i].0 as int) }
pub proof fn lem_dot_fin(a: Seq<F64>, b: Seq<F64>, n: int) requires nonneg(a), nonneg(b), n <= a.len(), n <= b.len() ensures dot(a, b, n) is Fin, dot(a, b, n)->Fin_0 >= 0real decreases n
{ if n > 0 { lem_dot_fin(a, b, n - 1); let (x, y) = (val(a[n - 1]), val(b[n - 1])); assert(x * y >= 0real) by(nonlinear_arith) requires x >= 0real, y >= 0real; } }
pub proof fn lem_net_wf(g: &Graph, al: Seq<F64>, ch: bool, s: int, t: int) requires g.wf(), metrics_ok(g), nonneg(al), 0 <= s < g.n(), 0 <= t < g.n()
    ensures net_of(g, al, ch, s, t).wf(), forall|e: int| 0 <= e < g.m() ==> #[trigger] edge_dot(g, al, e) is Fin
{
    assert forall|e: int| 0 <= e < g.m() implies #[trigger] edge_dot(g, al, e) is Fin && wgt(g, al, e) >= 0real by { assert(nonneg(g.metrics@[e]@)); lem_dot_fin(al, g.metrics@[e]@, if al.len() <= g.metrics@[e]@.len() { al.len() as int } else { g.metrics@[e]@.len() as int }); }
    let n = net_of(g, al, ch, s, t);
    assert forall|e: int| 0 <= e < n.m implies 0 <= #[trigger] n.src[e] < n.n by { let x = g.bwd_dsts@[e]; }
    assert forall|e: int| 0 <= e < n.m implies 0 <= #[trigger] n.dst[e] < n.n by { let x = g.fwd_dsts@[e]; }
    assert forall|e: int| 0 <= e < n.m implies #[trigger] n.w[e] >= 0real by { let x = edge_dot(g, al, e); }
}
pub open spec fn cost_of(b: Option<(NodeIdx, F64)>) -> Option<real> { match b { Some(x) => Some(val(x.1)), None => None } }
pub open spec fn mka(c: [Vec<F64>; 2], p: [Vec<Option<EdgeIdx>>; 2], st: Seq<Seq<bool>>, tm: Seq<Seq<int>>, d: int) -> D { D { l: c@[d]@, pr: p@[d]@, st: st[d], tm: tm[d] } }
pub open spec fn mk(s: &Dijkstra, st: Seq<Seq<bool>>, tm: Seq<Seq<int>>, d: int) -> D { mka(s.costs, s.predecessors, st, tm, d) }
pub open spec fn both(g: Net, s: &Dijkstra, st: Seq<Seq<bool>>, tm: Seq<Seq<int>>, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, cd: int, cur: int) -> bool { botha(g, s.costs, s.predecessors, st, tm, q, lo, clk, best, cd, cur) }
pub open spec fn botha(g: Net, c: [Vec<F64>; 2], p: [Vec<Option<EdgeIdx>>; 2], st: Seq<Seq<bool>>, tm: Seq<Seq<int>>, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, cd: int, cur: int) -> bool {
    &&& dinv(g, 0, mka(c, p, st, tm, 0), q, lo, clk, best, if cd == 0 { cur } else { -1 }, g.ch || best is None)
    &&& dinv(g, 1, mka(c, p, st, tm, 1), q, lo, clk, best, if cd == 1 { cur } else { -1 }, g.ch || best is None)
    &&& met(g, mka(c, p, st, tm, 0), mka(c, p, st, tm, 1), best)
    &&& forall|e: QE| #[trigger] q.count(e) > 0 ==> e.0 == 0 || e.0 == 1
}
/// the best meeting so far
pub open spec fn best_ok(g: Net, s: &Dijkstra, q: Multiset<QE>, b: Option<(NodeIdx, F64)>) -> bool { best_oka(g, s.costs, q, b) }
pub open spec fn best_oka(g: Net, c: [Vec<F64>; 2], q: Multiset<QE>, b: Option<(NodeIdx, F64)>) -> bool {
    b is Some ==> (b->0).0.0 < g.n && fin((b->0).1) && fin(c@[0]@[(b->0).0.0 as int]) && fin(c@[1]@[(b->0).0.0 as int])
        && val(c@[0]@[(b->0).0.0 as int]) + val(c@[1]@[(b->0).0.0 as int]) <= val((b->0).1)
        && (!g.ch ==> frontier(g, c@[0]@, c@[1]@, q, val((b->0).1)))
        && (g.s == g.t ==> (b->0).0.0 == g.s && val((b->0).1) == 0real) }
pub open spec fn flags_ok(g: Net, s: &Dijkstra, st: Seq<Seq<bool>>, lo: real, best: Option<real>) -> bool {
    &&& s.is_ch_dijkstra == g.ch && st.len() == 2
    &&& !g.ch ==> s.is_visited@[0]@ == st[0] && s.is_visited@[1]@ == st[1]
    &&& (s.has_found_best_meeting_node@[0] || s.has_found_best_meeting_node@[1]) ==> best is Some && best->0 < lo
    &&& s.clean(0) && s.clean(1) && lo >= 0real
}
pub open spec fn unsettled(st: Seq<bool>, k: int) -> nat decreases k { if k <= 0 { 0 } else { unsettled(st, k - 1) + (if st[k - 1] { 0nat } else { 1 }) } }
pub proof fn lem_unsettled(st: Seq<bool>, v: int, k: int) requires 0 <= v < st.len(), !st[v], 0 <= k <= st.len()
    ensures unsettled(st.update(v, true), k) + (if v < k { 1nat } else { 0 }) == unsettled(st, k) decreases k { if k > 0 { lem_unsettled(st, v, k - 1); } }
/// what is guaranteed about costs of other routes when the search has stopped
pub open spec fn beats_all(g: Net, best: Option<real>) -> bool {
    &&& !g.ch ==> forall|es: Seq<int>| #[trigger] g.walk(0, g.s, es, g.t) ==> best is Some && best->0 <= g.cost(es)
    &&& g.ch ==> forall|v: int, ef: Seq<int>, eb: Seq<int>| #[trigger] g.walk(0, g.s, ef, v) && #[trigger] g.walk(1, g.t, eb, v) ==> best is Some && best->0 <= g.cost(ef) + g.cost(eb)
}
pub proof fn lem_stop(g: Net, s: &Dijkstra, st: Seq<Seq<bool>>, tm: Seq<Seq<int>>, q: Multiset<QE>, lo: real, clk: int, b: Option<(NodeIdx, F64)>)
    requires g.wf(), both(g, s, st, tm, q, lo, clk, cost_of(b), -1, -1), best_ok(g, s, q, b), over(q, lo, cost_of(b)),
    ensures beats_all(g, cost_of(b)),
{
    let (x, y) = (mk(s, st, tm, 0), mk(s, st, tm, 1)); let best = cost_of(b);
    if g.ch || best is None {
        assert forall|v: int, ef: Seq<int>, eb: Seq<int>| #[trigger] g.walk(0, g.s, ef, v) && #[trigger] g.walk(1, g.t, eb, v) implies best is Some && best->0 <= g.cost(ef) + g.cost(eb) by { lem_end(g, x, y, q, lo, clk, best, ef, eb, v); }
        assert forall|es: Seq<int>| #[trigger] g.walk(0, g.s, es, g.t) implies best is Some && best->0 <= g.cost(es) by { let o = Seq::<int>::empty(); assert(g.walk(1, g.t, o, g.t)); assert(g.cost(o) == 0real); }
    } else {
        assert forall|es: Seq<int>| #[trigger] g.walk(0, g.s, es, g.t) implies best is Some && best->0 <= g.cost(es) by { lem_front_end(g, x.l, y.l, q, best->0, es); }
    }
}
/// entry k is taken out but its node has a better label already
pub proof fn lem_stale(g: Net, s: &Dijkstra, st: Seq<Seq<bool>>, tm: Seq<Seq<int>>, q: Multiset<QE>, lo: real, clk: int, b: Option<(NodeIdx, F64)>, k: QE)
    requires g.wf(), both(g, s, st, tm, q, lo, clk, cost_of(b), -1, -1), best_ok(g, s, q, b), q.count(k) > 0, forall|e: QE| #[trigger] q.count(e) > 0 ==> k.2 <= e.2, lo <= k.2,
        val(s.costs@[k.0]@[k.1]) < k.2,
    ensures both(g, s, st, tm, q.remove(k), k.2, clk, cost_of(b), -1, -1), best_ok(g, s, q.remove(k), b),
{
    lem_pop_stale(g, 0, mk(s, st, tm, 0), q, lo, clk, cost_of(b), g.ch || b is None, k);
    lem_pop_stale(g, 1, mk(s, st, tm, 1), q, lo, clk, cost_of(b), g.ch || b is None, k);
    assert forall|e: QE| #[trigger] q.remove(k).count(e) > 0 implies e.0 == 0 || e.0 == 1 by { assert(q.count(e) > 0); }
    if b is Some && !g.ch { lem_front_pop(g, s.costs@[0]@, s.costs@[1]@, q, val((b->0).1), k, val((b->0).1)); }
}
/// entry k is taken out and its node is settled; b2 is the best meeting afterwards; `s` has the labels of before (visiting does not change them)
pub proof fn lem_settle(g: Net, s: &Dijkstra, st: Seq<Seq<bool>>, tm: Seq<Seq<int>>, q: Multiset<QE>, lo: real, clk: int, b: Option<(NodeIdx, F64)>, k: QE, b2: Option<(NodeIdx, F64)>)
    requires g.wf(), both(g, s, st, tm, q, lo, clk, cost_of(b), -1, -1), best_ok(g, s, q, b), q.count(k) > 0, forall|e: QE| #[trigger] q.count(e) > 0 ==> k.2 <= e.2, lo <= k.2, st.len() == 2,
        k.2 <= val(s.costs@[k.0]@[k.1]),
        // what the code does with the settled node v
        b is Some ==> b2 is Some && (b2 == b || (b2->0).0.0 == k.1),
        b is Some && k.2 > val((b->0).1) ==> b2 == b,
        b is Some && k.2 <= val((b->0).1) && s.costs@[1 - k.0]@[k.1]@ is PInf ==> b2 == b,
        b is Some && k.2 <= val((b->0).1) && fin(s.costs@[1 - k.0]@[k.1]) && !(val(s.costs@[0]@[k.1]) + val(s.costs@[1]@[k.1]) < val((b->0).1)) ==> b2 == b,
        b is Some && k.2 <= val((b->0).1) && fin(s.costs@[1 - k.0]@[k.1]) && val(s.costs@[0]@[k.1]) + val(s.costs@[1]@[k.1]) < val((b->0).1) ==> b2 != b,
        b2 is Some && b2 != b ==> (b2->0).0.0 == k.1 && (b2->0).1@ == Ext::Fin(val(s.costs@[0]@[k.1]) + val(s.costs@[1]@[k.1])),
        b is None ==> (b2 is Some == (if g.ch { fin(s.costs@[1 - k.0]@[k.1]) } else { st[1 - k.0][k.1] })),
    ensures both(g, s, st.update(k.0, st[k.0].update(k.1, true)), tm, q.remove(k), k.2, clk, cost_of(b2), k.0, k.1), best_ok(g, s, q.remove(k), b2),
        !st[k.0][k.1], val(s.costs@[k.0]@[k.1]) == k.2, fin(s.costs@[k.0]@[k.1]), 0 <= k.1 < g.n, k.0 == 0 || k.0 == 1,
        b is Some ==> b2 is Some && val((b2->0).1) <= val((b->0).1),
{
    let d = k.0; let o = 1 - k.0; let (x, y) = (mk(s, st, tm, d), mk(s, st, tm, o)); let (best, best2) = (cost_of(b), cost_of(b2)); let full = g.ch || b is None;
    assert(d == 0 || d == 1);
    let v = k.1;
    assert(dinv(g, d, x, q, lo, clk, best, -1, full) && dinv(g, o, y, q, lo, clk, best, -1, full));
    lem_pop_settle(g, d, x, q, lo, clk, best, full, k);
    lem_other_pop(g, o, y, q, lo, clk, best, full, k);
    let st2 = st.update(k.0, st[k.0].update(k.1, true)); let x2 = D { st: x.st.update(v, true), ..x }; let q2 = q.remove(k);
    assert(mk(s, st2, tm, d) == x2); assert(mk(s, st2, tm, o) == y);
    assert(y.st[v] ==> settled_ok(g, o, y, lo, best, -1, v));
    assert(x.l[v] == s.costs@[d]@[v] && y.l[v] == s.costs@[o]@[v]);
    assert(x.l[v]@ is PInf || fin(x.l[v])); assert(y.l[v]@ is PInf || fin(y.l[v]));
    assert(b is None && b2 is Some ==> fin(y.l[v]));
    assert(b2 is Some && b2 != b ==> fin(y.l[v]));
    let full2 = g.ch || b2 is None;
    lem_best(g, d, x2, q2, k.2, clk, best, best2, v, full, full2);
    lem_best(g, o, y, q2, k.2, clk, best, best2, -1, full, full2);
    assert forall|e: QE| #[trigger] q2.count(e) > 0 implies e.0 == 0 || e.0 == 1 by { assert(q.count(e) > 0); }
    let (a, c) = (mk(s, st2, tm, 0), mk(s, st2, tm, 1));
    assert(met(g, a, c, best2)) by {
        assert forall|u: int| 0 <= u < g.n && #[trigger] a.st[u] && c.st[u] implies best2 is Some && best2->0 <= val(a.l[u]) + val(c.l[u]) by {
            if u != v { assert(mk(s, st, tm, 0).st[u] && mk(s, st, tm, 1).st[u]); }
        }
    }
    assert(both(g, s, st2, tm, q2, k.2, clk, best2, k.0, k.1));
    if !g.ch && b2 is Some {
        if b is Some { lem_front_pop(g, s.costs@[0]@, s.costs@[1]@, q, val((b->0).1), k, val((b2->0).1)); }
        else { lem_meet(g, mk(s, st, tm, 0), mk(s, st, tm, 1), q, lo, clk, k, val((b2->0).1)); }
    }
    if g.s == g.t && b is None && b2 is Some {
        if v != g.s { assert(x.st[g.s]); assert(y.st[g.s]); assert(mk(s, st, tm, 0).st[g.s] && mk(s, st, tm, 1).st[g.s]); assert(false); }
    }
}
// ---------------------------------------------------------------- following the edges back
pub open spec fn lexb(l: Seq<F64>, tm: Seq<int>, c: real, t: int, k: int) -> nat decreases k {
    if k <= 0 { 0 } else { lexb(l, tm, c, t, k - 1) + (if fin(l[k - 1]) && (val(l[k - 1]) < c || (val(l[k - 1]) == c && tm[k - 1] < t)) { 1nat } else { 0 }) } }
pub proof fn lem_lexb_le(l: Seq<F64>, tm: Seq<int>, c: real, t: int, b: real, u: int, k: int) requires b < c || (b == c && u <= t) ensures lexb(l, tm, b, u, k) <= lexb(l, tm, c, t, k) decreases k
{ if k > 0 { lem_lexb_le(l, tm, c, t, b, u, k - 1); } }
pub proof fn lem_lexb(l: Seq<F64>, tm: Seq<int>, c: real, t: int, i: int, k: int) requires 0 <= i < k <= l.len(), fin(l[i]), val(l[i]) < c || (val(l[i]) == c && tm[i] < t)
    ensures lexb(l, tm, val(l[i]), tm[i], k) < lexb(l, tm, c, t, k) decreases k
{ if i < k - 1 { lem_lexb(l, tm, c, t, i, k - 1); } else { lem_lexb_le(l, tm, c, t, val(l[i]), tm[i], k - 1); } }
pub open spec fn left(x: D, u: int) -> nat { lexb(x.l, x.tm, val(x.l[u]), x.tm[u], x.l.len() as int) }
/// step from u to the node before it
pub proof fn lem_step(g: Net, d: int, x: D, clk: int, u: int) requires g.wf(), d == 0 || d == 1, labels(g, d, x, clk), 0 <= u < g.n, x.pr[u] is Some
    ensures ({ let e = (x.pr[u]->0).0 as int; let p = g.tail(d, e); g.usable(d, e) && g.head(d, e) == u && 0 <= p < g.n && fin(x.l[p]) && fin(x.l[u]) && val(x.l[p]) + g.w[e] <= val(x.l[u]) && left(x, p) < left(x, u) && u != g.root(d) })
{ assert(x.tm[u] < clk); assert(pred_ok(g, d, x, u)); let e = (x.pr[u]->0).0 as int; let p = g.tail(d, e); assert(g.w[e] >= 0real); assert(0 <= p < g.n);
  lem_lexb(x.l, x.tm, val(x.l[u]), x.tm[u], p, x.l.len() as int); }
pub proof fn lem_walk_step(n: Net, d: int, p: Seq<EdgeIdx>, e: EdgeIdx, u: int, m: int)
    requires n.walk(d, u, eidx(p).reverse(), m), n.usable(d, e.0 as int), n.head(d, e.0 as int) == u,
    ensures n.walk(d, n.tail(d, e.0 as int), eidx(p.push(e)).reverse(), m), n.cost(eidx(p.push(e)).reverse()) == n.cost(eidx(p).reverse()) + n.w[e.0 as int],
{
    let i = e.0 as int;
    lem_one(n, d, i); lem_concat(n, d, n.tail(d, i), seq![i], u, eidx(p).reverse(), m);
    assert(eidx(p.push(e)).reverse() =~= seq![i] + eidx(p).reverse());
}
pub proof fn lem_bwd_step(g: Net, p: Seq<EdgeIdx>, e: EdgeIdx, s: int, u: int)
    requires g.plain().walk(0, s, eidx(p), u), g.usable(1, e.0 as int), g.head(1, e.0 as int) == u,
    ensures g.plain().walk(0, s, eidx(p.push(e)), g.tail(1, e.0 as int)), g.plain().cost(eidx(p.push(e))) == g.plain().cost(eidx(p)) + g.w[e.0 as int],
{ let n = g.plain(); lem_push(n, 0, s, eidx(p), e.0 as int); assert(eidx(p.push(e)) =~= eidx(p).push(e.0 as int)); }
/// all edges of node u, and no others, appear among its listed edges
pub open spec fn lists(s: Seq<EdgeIdx>, here: Seq<NodeIdx>, u: int) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 < here.len() && here[s[j].0 as int].0 == u
    &&& forall|e: int| 0 <= e < here.len() && (#[trigger] here[e]).0 == u ==> has_edge(s, e) }
pub open spec fn has_edge(s: Seq<EdgeIdx>, e: int) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == e }
pub proof fn lem_mono(off: Seq<usize>, i: int, j: int) requires mono(off), 0 <= i <= j < off.len() ensures off[i] <= off[j] {}
pub proof fn lem_csr_len(off: Seq<usize>, map: Seq<EdgeIdx>, here: Seq<NodeIdx>, n: int, u: int)
    requires csr(off, map, here, n), 0 <= u < n, ensures off[u] <= off[u + 1] <= map.len(), 0 <= off[u], off.len() == n + 1, map.len() == here.len()
{ hide(mono); lem_mono(off, u, u + 1); lem_mono(off, u + 1, n); }
pub proof fn lem_csr_a(off: Seq<usize>, map: Seq<EdgeIdx>, here: Seq<NodeIdx>, n: int, u: int, i: int)
    requires csr(off, map, here, n), 0 <= u < n, off[u] <= i < off[u + 1], ensures 0 <= i < map.len(), map[i].0 < here.len(), here[map[i].0 as int].0 == u
{ hide(mono); lem_csr_len(off, map, here, n, u); let x = map[i]; let y = off[u]; }
pub proof fn lem_csr_b(off: Seq<usize>, map: Seq<EdgeIdx>, here: Seq<NodeIdx>, n: int, e: int)
    requires csr(off, map, here, n), 0 <= e < here.len(), ensures exists|i: int| off[here[e].0 as int] <= i < off[here[e].0 + 1] && (#[trigger] map[i]).0 == e
{ hide(mono); let x = here[e]; }
pub proof fn lem_csr(off: Seq<usize>, map: Seq<EdgeIdx>, here: Seq<NodeIdx>, n: int, u: int)
    requires csr(off, map, here, n), 0 <= u < n,
    ensures lists(map.subrange(off[u] as int, off[u + 1] as int), here, u), off[u] <= off[u + 1] <= map.len(),
{
    hide(mono); hide(csr);
    lem_csr_len(off, map, here, n, u);
    let s = map.subrange(off[u] as int, off[u + 1] as int);
    assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).0 < here.len() && here[s[j].0 as int].0 == u by { let i = off[u] + j; assert(s[j] == map[i]); lem_csr_a(off, map, here, n, u, i); }
    assert forall|e: int| 0 <= e < here.len() && (#[trigger] here[e]).0 == u implies has_edge(s, e) by {
        lem_csr_b(off, map, here, n, e);
        let i = choose|i: int| off[here[e].0 as int] <= i < off[here[e].0 + 1] && (#[trigger] map[i]).0 == e;
        assert(s[i - off[u]] == map[i]);
    }
}
pub open spec fn listed(g: &Graph, d: int, u: int) -> Seq<EdgeIdx> {
    if d == 0 { g.fwd_to_fwd_map@.subrange(g.fwd_offsets@[u] as int, g.fwd_offsets@[u + 1] as int) } else { g.bwd_to_fwd_map@.subrange(g.bwd_offsets@[u] as int, g.bwd_offsets@[u + 1] as int) } }
pub open spec fn nlists(n: Net, s: Seq<EdgeIdx>, d: int, u: int) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 < n.m && n.tail(d, s[j].0 as int) == u
    &&& forall|e: int| #[trigger] n.usable(d, e) && n.tail(d, e) == u ==> has_edge(s, e) }
pub proof fn lem_listed(g: &Graph, n: Net, al: Seq<F64>, d: int, u: int)
    requires g.wf_edges(), n == net_of(g, al, n.ch, n.s, n.t), d == 0 || d == 1, 0 <= u < n.n,
    ensures nlists(n, listed(g, d, u), d, u), u + 1 < g.fwd_offsets.len(), u + 1 < g.bwd_offsets.len(),
        d == 0 ==> g.fwd_offsets@[u] <= g.fwd_offsets@[u + 1] <= g.fwd_to_fwd_map@.len(), d == 1 ==> g.bwd_offsets@[u] <= g.bwd_offsets@[u + 1] <= g.bwd_to_fwd_map@.len(),
{
    hide(csr); hide(mono);
    let s = listed(g, d, u);
    lem_csr_len(g.fwd_offsets@, g.fwd_to_fwd_map@, g.bwd_dsts@, n.n, u); lem_csr_len(g.bwd_offsets@, g.bwd_to_fwd_map@, g.fwd_dsts@, n.n, u);
    if d == 0 {
        lem_csr(g.fwd_offsets@, g.fwd_to_fwd_map@, g.bwd_dsts@, n.n, u); assert(lists(s, g.bwd_dsts@, u));
        assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).0 < n.m && n.tail(d, s[j].0 as int) == u by { assert(g.bwd_dsts@[s[j].0 as int].0 == u); }
        assert forall|e: int| #[trigger] n.usable(d, e) && n.tail(d, e) == u implies has_edge(s, e) by { assert(g.bwd_dsts@[e].0 == u); }
    } else {
        lem_csr(g.bwd_offsets@, g.bwd_to_fwd_map@, g.fwd_dsts@, n.n, u); assert(lists(s, g.fwd_dsts@, u));
        assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).0 < n.m && n.tail(d, s[j].0 as int) == u by { assert(g.fwd_dsts@[s[j].0 as int].0 == u); }
        assert forall|e: int| #[trigger] n.usable(d, e) && n.tail(d, e) == u implies has_edge(s, e) by { assert(g.fwd_dsts@[e].0 == u); }
    }
}
/// the leaving edges after one leading down lead down, too
pub proof fn lem_lv(g: &Graph, off: Seq<usize>, map: Seq<EdgeIdx>, heads: Seq<NodeIdx>, u: int, i: int, j: int)
    requires by_level(g, off, map, heads), 0 <= u < g.n(), 0 <= i <= j < off[u + 1] - off[u], off[u + 1] <= map.len(),
    ensures lvl(g, heads, map.subrange(off[u] as int, off[u + 1] as int)[j]) <= lvl(g, heads, map.subrange(off[u] as int, off[u + 1] as int)[i]),
{ if i < j { let a = off[u] + i; let b = off[u] + j; assert(off[u] <= a < b < off[u + 1]); assert(lvl(g, heads, map[b]) <= lvl(g, heads, map[a])); } }
pub proof fn lem_lvl(g: &Graph, n: Net, al: Seq<F64>, d: int, e: EdgeIdx)
    requires n == net_of(g, al, n.ch, n.s, n.t), d == 0 || d == 1, 0 <= e.0 < n.m, 0 <= n.head(d, e.0 as int) < n.n,
    ensures n.lv[n.head(d, e.0 as int)] == lvl(g, if d == 0 { g.fwd_dsts@ } else { g.bwd_dsts@ }, e),
{}
pub proof fn lem_sorted(g: &Graph, d: int, u: int, i: int, j: int)
    requires sorted_by_level(g), d == 0 || d == 1, 0 <= u < g.n(), 0 <= i <= j < listed(g, d, u).len(),
        d == 0 ==> g.fwd_offsets@[u] <= g.fwd_offsets@[u + 1] <= g.fwd_to_fwd_map@.len(), d == 1 ==> g.bwd_offsets@[u] <= g.bwd_offsets@[u + 1] <= g.bwd_to_fwd_map@.len(),
    ensures lvl(g, if d == 0 { g.fwd_dsts@ } else { g.bwd_dsts@ }, listed(g, d, u)[j]) <= lvl(g, if d == 0 { g.fwd_dsts@ } else { g.bwd_dsts@ }, listed(g, d, u)[i]),
{
    if d == 0 { lem_lv(g, g.fwd_offsets@, g.fwd_to_fwd_map@, g.fwd_dsts@, u, i, j); }
    else { lem_lv(g, g.bwd_offsets@, g.bwd_to_fwd_map@, g.bwd_dsts@, u, i, j); }
}
pub proof fn lem_down(g: &Graph, n: Net, al: Seq<F64>, d: int, u: int, i: int, j: int, a: EdgeIdx, b: EdgeIdx)
    requires n == net_of(g, al, n.ch, n.s, n.t), n.wf(), d == 0 || d == 1, n.ch, 0 <= a.0 < n.m, 0 <= b.0 < n.m, n.tail(d, b.0 as int) == u,
        lvl(g, if d == 0 { g.fwd_dsts@ } else { g.bwd_dsts@ }, b) <= lvl(g, if d == 0 { g.fwd_dsts@ } else { g.bwd_dsts@ }, a),
        n.lv[u] > n.lv[n.head(d, a.0 as int)],
    ensures !n.usable(d, b.0 as int),
{
    assert(0 <= n.src[a.0 as int] < n.n && 0 <= n.dst[a.0 as int] < n.n && 0 <= n.src[b.0 as int] < n.n && 0 <= n.dst[b.0 as int] < n.n);
    lem_lvl(g, n, al, d, a); lem_lvl(g, n, al, d, b);
}
/// once a leaving edge leads down, it and all later ones are of no use
pub proof fn lem_listed_levels(g: &Graph, n: Net, al: Seq<F64>, d: int, u: int, i: int)
    requires nlists(n, listed(g, d, u), d, u), sorted_by_level(g), n == net_of(g, al, n.ch, n.s, n.t), n.wf(), d == 0 || d == 1, 0 <= u < n.n, 0 <= i < listed(g, d, u).len(), n.ch,
        n.lv[u] > n.lv[n.head(d, listed(g, d, u)[i].0 as int)],
        d == 0 ==> g.fwd_offsets@[u] <= g.fwd_offsets@[u + 1] <= g.fwd_to_fwd_map@.len(), d == 1 ==> g.bwd_offsets@[u] <= g.bwd_offsets@[u + 1] <= g.bwd_to_fwd_map@.len(),
    ensures forall|j: int| i <= j < listed(g, d, u).len() ==> !n.usable(d, (#[trigger] listed(g, d, u)[j]).0 as int),
{
    let s = listed(g, d, u);
    assert forall|j: int| i <= j < s.len() implies !n.usable(d, (#[trigger] s[j]).0 as int) by { lem_sorted(g, d, u, i, j); let x = s[i]; lem_down(g, n, al, d, u, i, j, s[i], s[j]); }
}
