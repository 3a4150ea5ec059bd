// ---------------------------------------------------------------- Dijkstra::compute_best_path: lemmas on whole states
pub proof fn lem_frame(g: Net, s: &Dijkstra, z: &Dijkstra, st: Seq<Seq<bool>>, tm: Seq<Seq<int>>, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, cd: int, cur: int)
    requires both(g, s, st, tm, q, lo, clk, best, cd, cur), z.costs == s.costs, z.predecessors == s.predecessors,
    ensures both(g, z, st, tm, q, lo, clk, best, cd, cur) {}
pub proof fn lem_lens(g: Net, s: &Dijkstra, st: Seq<Seq<bool>>, tm: Seq<Seq<int>>, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, cd: int, cur: int)
    requires both(g, s, st, tm, q, lo, clk, best, cd, cur),
    ensures s.costs@[0]@.len() == g.n, s.costs@[1]@.len() == g.n, s.predecessors@[0]@.len() == g.n, s.predecessors@[1]@.len() == g.n, st[0].len() == g.n, st[1].len() == g.n,
        labels(g, 0, mk(s, st, tm, 0), clk), labels(g, 1, mk(s, st, tm, 1), clk) {}
pub proof fn lem_entry(g: Net, s: &Dijkstra, st: Seq<Seq<bool>>, tm: Seq<Seq<int>>, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, k: QE)
    requires both(g, s, st, tm, q, lo, clk, best, -1, -1), q.count(k) > 0,
    ensures k.0 == 0 || k.0 == 1, 0 <= k.1 < g.n, fin(s.costs@[k.0]@[k.1]), val(s.costs@[k.0]@[k.1]) <= k.2, lo <= k.2,
        s.costs@[1 - k.0]@[k.1]@ is PInf || fin(s.costs@[1 - k.0]@[k.1]), st[1 - k.0][k.1] ==> fin(s.costs@[1 - k.0]@[k.1]),
{ if mk(s, st, tm, 1 - k.0).st[k.1] { assert(settled_ok(g, 1 - k.0, mk(s, st, tm, 1 - k.0), lo, best, -1, k.1)); } assert(entry_ok(g, k.0, mk(s, st, tm, k.0), lo, k)); assert(mk(s, st, tm, 1 - k.0).l[k.1]@ is PInf || fin(mk(s, st, tm, 1 - k.0).l[k.1])); }
/// both searches have passed the best meeting: so have all pending entries
pub proof fn lem_found(g: Net, s: &Dijkstra, st: Seq<Seq<bool>>, tm: Seq<Seq<int>>, q: Multiset<QE>, lo: real, clk: int, best: Option<real>)
    requires both(g, s, st, tm, q, lo, clk, best, -1, -1), best is Some, best->0 < lo, ensures over(q, lo, best)
{ assert forall|e: QE| #[trigger] q.count(e) > 0 implies best is Some && best->0 < e.2 by { lem_entry(g, s, st, tm, q, lo, clk, best, e); } }
pub open spec fn at_start(g: Net, d: int, x: D) -> bool {
    x.l.len() == g.n && x.pr.len() == g.n && x.st.len() == g.n && x.tm.len() == g.n && x.l[g.root(d)]@ == Ext::Fin(0real)
    && forall|u: int| 0 <= u < g.n ==> (u != g.root(d) ==> (#[trigger] x.l[u])@ is PInf) && x.pr[u] is None && !x.st[u] && x.tm[u] == 0 }
pub proof fn lem_start_d(g: Net, d: int, x: D, q: Multiset<QE>)
    requires g.wf(), d == 0 || d == 1, at_start(g, d, x), q == Multiset::<QE>::empty().insert((0, g.s, 0real)).insert((1, g.t, 0real)),
    ensures dinv(g, d, x, q, 0real, 1, None, -1, true),
{
    let r = g.root(d);
    assert(g.walk(d, r, Seq::<int>::empty(), r)); assert(g.cost(Seq::<int>::empty()) == 0real); assert(has_walk(g, d, r, 0real));
    assert forall|u: int| 0 <= u < g.n implies (#[trigger] x.l[u])@ is PInf || (fin(x.l[u]) && val(x.l[u]) >= 0real && has_walk(g, d, u, val(x.l[u]))) by { if u != r { assert(x.l[u]@ is PInf); } }
    assert forall|u: int| 0 <= u < g.n implies pred_ok(g, d, x, u) && #[trigger] x.tm[u] < 1 by { let a = x.l[u]; }
    assert forall|e: QE| #[trigger] q.count(e) > 0 && e.0 == d implies entry_ok(g, d, x, 0real, e) by { let a = x.l[r]; assert(e == (d, r, 0real)); }
    assert forall|u: int| 0 <= u < g.n && fin(#[trigger] x.l[u]) implies q.count((d, u, val(x.l[u]))) <= 1 by { assert(u == r); }
    assert forall|u: int| 0 <= u < g.n && fin(#[trigger] x.l[u]) implies x.st[u] || pending(d, x.l, q, u) by { assert(u == r); }
    assert forall|u: int| 0 <= u < g.n && #[trigger] x.st[u] implies settled_ok(g, d, x, 0real, None, -1, u) by { let a = x.l[u]; }
}
pub open spec fn no_st(g: Net) -> Seq<Seq<bool>> { seq![Seq::new(g.n as nat, |i: int| false), Seq::new(g.n as nat, |i: int| false)] }
pub open spec fn no_tm(g: Net) -> Seq<Seq<int>> { seq![Seq::new(g.n as nat, |i: int| 0int), Seq::new(g.n as nat, |i: int| 0int)] }
pub proof fn lem_start(g: Net, s: &Dijkstra, q: Multiset<QE>)
    requires g.wf(), q == Multiset::<QE>::empty().insert((0, g.s, 0real)).insert((1, g.t, 0real)),
        at_start(g, 0, mk(s, no_st(g), no_tm(g), 0)), at_start(g, 1, mk(s, no_st(g), no_tm(g), 1)),
    ensures both(g, s, no_st(g), no_tm(g), q, 0real, 1, None, -1, -1),
{ lem_start_d(g, 0, mk(s, no_st(g), no_tm(g), 0), q); lem_start_d(g, 1, mk(s, no_st(g), no_tm(g), 1), q);
  assert forall|e: QE| #[trigger] q.count(e) > 0 implies e.0 == 0 || e.0 == 1 by { } }
pub proof fn lem_all_done(g: Net, s: &Dijkstra, st: Seq<Seq<bool>>, tm: Seq<Seq<int>>, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, d: int, cur: int)
    requires both(g, s, st, tm, q, lo, clk, best, d, cur), d == 0 || d == 1, relaxed(g, d, s.costs@[d]@, cur) || (best is Some && best->0 < val(s.costs@[d]@[cur])),
    ensures both(g, s, st, tm, q, lo, clk, best, -1, -1),
{ lem_done(g, d, mk(s, st, tm, d), q, lo, clk, best, cur, g.ch || best is None); }
/// one improved label: state s becomes z
pub proof fn lem_relax(g: Net, s: &Dijkstra, z: &Dijkstra, st: Seq<Seq<bool>>, tm: Seq<Seq<int>>, q: Multiset<QE>, lo: real, clk: int, b: Option<(NodeIdx, F64)>, d: int, cur: int, e: EdgeIdx, c: F64)
    requires g.wf(), d == 0 || d == 1, both(g, s, st, tm, q, lo, clk, cost_of(b), d, cur), best_ok(g, s, q, b), 0 <= cur < g.n, st[d][cur], val(s.costs@[d]@[cur]) == lo, st.len() == 2, tm.len() == 2,
        g.usable(d, e.0 as int), g.tail(d, e.0 as int) == cur, fin(c), val(c) == lo + g.w[e.0 as int], elt(c@, s.costs@[d]@[g.head(d, e.0 as int)]@),
        z.costs@[d]@ == s.costs@[d]@.update(g.head(d, e.0 as int), c), z.costs@[1 - d] == s.costs@[1 - d],
        z.predecessors@[d]@ == s.predecessors@[d]@.update(g.head(d, e.0 as int), Some(e)), z.predecessors@[1 - d] == s.predecessors@[1 - d],
    ensures ({ let h = g.head(d, e.0 as int); let q2 = if g.ch || b is None { q.insert((d, h, val(c))) } else { q };
        both(g, z, st, tm.update(d, tm[d].update(h, clk)), q2, lo, clk + 1, cost_of(b), d, cur) && best_ok(g, z, q2, b) && relaxed_by(g, d, z.costs@[d]@, cur, e.0 as int) && h != cur }),
{
    let h = g.head(d, e.0 as int); let push = g.ch || b is None; let k = (d, h, val(c)); let q2 = if push { q.insert(k) } else { q };
    let (x, y) = (mk(s, st, tm, d), mk(s, st, tm, 1 - d)); let tm2 = tm.update(d, tm[d].update(h, clk)); let best = cost_of(b);
    lem_improve(g, d, x, q, lo, clk, best, cur, push, e, c, push);
    assert(mk(z, st, tm2, d) == upd(x, h, c, e, clk)); assert(mk(z, st, tm2, 1 - d) == y);
    if push { lem_other_push(g, 1 - d, y, q, lo, clk, best, -1, push, k); } else { lem_clk(g, 1 - d, y, q, lo, clk, best, -1, push); }
    let (a, o) = (mk(z, st, tm2, 0), mk(z, st, tm2, 1));
    assert(met(g, a, o, best)) by {
        assert forall|v: int| 0 <= v < g.n && #[trigger] a.st[v] && o.st[v] implies best is Some && best->0 <= val(a.l[v]) + val(o.l[v]) by {
            assert(mk(s, st, tm, 0).st[v] && mk(s, st, tm, 1).st[v]); assert(v != h); } }
    assert forall|f: QE| #[trigger] q2.count(f) > 0 implies f.0 == 0 || f.0 == 1 by { if f != k { assert(q.count(f) > 0); } }
    assert(0 <= h < g.n);
    if !g.ch && b is Some {
        let es = choose|es: Seq<int>| #[trigger] g.walk(d, g.root(d), es, cur) && g.cost(es) <= lo;
        assert(x.l[cur]@ is PInf || has_walk(g, d, cur, val(x.l[cur]))); assert(settled_ok(g, d, x, lo, best, cur, cur));
        lem_push(g, d, g.root(d), es, e.0 as int); assert(has_walk(g, d, h, val(c)));
        lem_front_label(g, d, s.costs@[0]@, s.costs@[1]@, q, val((b->0).1), h, c);
    }
    if b is Some { let m = (b->0).0.0 as int; if m == h { assert(elt(c@, x.l[m]@)); } }
}
pub proof fn lem_touch(s: &Dijkstra, z: &Dijkstra, d: int, h: int)
    requires d == 0 || d == 1, s.clean(d), 0 <= h < s.costs@[d]@.len(), z.costs@[d]@.len() == s.costs@[d]@.len(), z.predecessors@[d]@.len() == s.costs@[d]@.len(),
        forall|i: int| 0 <= i < s.costs@[d]@.len() && i != h ==> z.costs@[d]@[i] == s.costs@[d]@[i] && z.predecessors@[d]@[i] == s.predecessors@[d]@[i],
        z.touched@[d]@.len() == s.touched@[d]@.len() + 1, forall|i: int| 0 <= i < s.touched@[d]@.len() ==> z.touched@[d]@[i] == s.touched@[d]@[i], z.touched@[d]@[s.touched@[d]@.len() as int] == h,
    ensures z.clean(d),
{
    let (a, b) = (s.touched@[d]@, z.touched@[d]@);
    assert forall|i: int| tail_has(a, 0, i) implies tail_has(b, 0, i) by { let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == i; assert(b[k] == i); }
    assert(b[a.len() as int] == h); assert(tail_has(b, 0, h));
    assert forall|i: int| 0 <= i < z.costs@[d]@.len() && !tail_has(b, 0, i) implies #[trigger] z.costs@[d]@[i]@ == Ext::PInf by { assert(s.costs@[d]@[i]@ == Ext::PInf); }
    assert forall|i: int| 0 <= i < z.costs@[d]@.len() && !tail_has(b, 0, i) implies #[trigger] z.predecessors@[d]@[i] is None by { assert(s.predecessors@[d]@[i] is None); }
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] < z.costs@[d]@.len() by { if k < a.len() { assert(a[k] < s.costs@[d]@.len()); } }
}
pub proof fn lem_ext(g: Net, d: int, x: D, clk: int, u: int) requires labels(g, d, x, clk), 0 <= u < g.n ensures x.l[u]@ is PInf || fin(x.l[u]) {}
pub proof fn lem_best_none(g: Net, s: &Dijkstra, q: Multiset<QE>) ensures best_ok(g, s, q, None) {}
pub proof fn lem_fresh_clean(s: &Dijkstra, d: int, n: int) requires s.fresh(d, n) ensures s.clean(d) {}
pub proof fn lem_bfin(g: Net, s: &Dijkstra, q: Multiset<QE>, b: Option<(NodeIdx, F64)>) requires best_ok(g, s, q, b) ensures b is Some ==> fin((b->0).1) {}
pub proof fn lem_root(g: Net, d: int, x: D, clk: int, u: int) requires g.wf(), d == 0 || d == 1, labels(g, d, x, clk), 0 <= u < g.n, x.pr[u] is None, fin(x.l[u]) ensures u == g.root(d), val(x.l[u]) == 0real
{ assert(x.tm[u] < clk); assert(pred_ok(g, d, x, u)); }
pub open spec fn done_upto(n: Net, d: int, l: Seq<F64>, u: int, s: Seq<EdgeIdx>, k: int) -> bool { forall|j: int| 0 <= j < k ==> n.usable(d, (#[trigger] s[j]).0 as int) ==> relaxed_by(n, d, l, u, s[j].0 as int) }
pub proof fn lem_relaxed(n: Net, d: int, l: Seq<F64>, u: int, s: Seq<EdgeIdx>)
    requires nlists(n, s, d, u), done_upto(n, d, l, u, s, s.len() as int) ensures relaxed(n, d, l, u)
{ assert forall|e: int| #[trigger] n.usable(d, e) && n.tail(d, e) == u implies relaxed_by(n, d, l, u, e) by { assert(has_edge(s, e)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == e; } }
#[verifier::allow(assert_forall_implication)] pub proof fn lem_done_less(n: Net, d: int, l: Seq<F64>, h: int, c: F64, u: int, s: Seq<EdgeIdx>, k: int)
    requires n.wf(), done_upto(n, d, l, u, s, k), h != u, 0 <= h < l.len(), 0 <= u < l.len(), fin(c), elt(c@, l[h]@), l.len() == n.n, d == 0 || d == 1,
    ensures done_upto(n, d, l.update(h, c), u, s, k)
{ assert forall|j: int| 0 <= j < k implies (n.usable(d, (#[trigger] s[j]).0 as int) ==> relaxed_by(n, d, l.update(h, c), u, s[j].0 as int)) by { let e = s[j].0 as int; if n.usable(d, e) { assert(relaxed_by(n, d, l, u, e)); assert(0 <= n.head(d, e) < n.n); } } }
#[verifier::allow(assert_forall_implication)] pub proof fn lem_done_next(n: Net, d: int, l: Seq<F64>, u: int, s: Seq<EdgeIdx>, k: int)
    requires done_upto(n, d, l, u, s, k), n.usable(d, s[k].0 as int) ==> relaxed_by(n, d, l, u, s[k].0 as int) ensures done_upto(n, d, l, u, s, k + 1)
{ assert forall|j: int| 0 <= j < k + 1 implies (n.usable(d, (#[trigger] s[j]).0 as int) ==> relaxed_by(n, d, l, u, s[j].0 as int)) by { if j < k { let x = s[j]; } } }
#[verifier::allow(assert_forall_implication)] pub proof fn lem_done_skip(n: Net, d: int, l: Seq<F64>, u: int, s: Seq<EdgeIdx>, k: int)
    requires done_upto(n, d, l, u, s, k), forall|j: int| k <= j < s.len() ==> !n.usable(d, (#[trigger] s[j]).0 as int) ensures forall|i: int| #[trigger] done_upto(n, d, l, u, s, i) || i > s.len()
{ assert forall|i: int| i <= s.len() implies #[trigger] done_upto(n, d, l, u, s, i) by { assert forall|j: int| 0 <= j < i implies (n.usable(d, (#[trigger] s[j]).0 as int) ==> relaxed_by(n, d, l, u, s[j].0 as int)) by { if j < k { let x = s[j]; } } } }
#[verifier::allow(assert_forall_implication)] pub proof fn lem_done_none(n: Net, d: int, l: Seq<F64>, u: int, s: Seq<EdgeIdx>) ensures done_upto(n, d, l, u, s, 0) {}
pub proof fn lem_one_of(n: Net, d: int, u: int, s: Seq<EdgeIdx>, k: int) requires n.wf(), d == 0 || d == 1, nlists(n, s, d, u), 0 <= k < s.len()
    ensures s[k].0 < n.m, n.tail(d, s[k].0 as int) == u, 0 <= n.head(d, s[k].0 as int) < n.n { let x = s[k]; }
pub proof fn lem_from(n: Net, x: D, y: D, s: &Dijkstra, q: Multiset<QE>, b: Option<(NodeIdx, F64)>) requires best_ok(n, s, q, b), x.l == s.costs@[0]@, y.l == s.costs@[1]@, b is Some
    ensures ({ let m = (b->0).0.0 as int; 0 <= m < n.n && fin(x.l[m]) && fin(y.l[m]) && val(x.l[m]) + val(y.l[m]) <= val((b->0).1) && (n.s == n.t ==> m == n.s) }) {}
pub proof fn lem_nil(n: Net, u: int, p: Seq<int>) requires p.len() == 0 ensures n.walk(0, u, p.reverse(), u), n.walk(1, u, p.reverse(), u), n.cost(p.reverse()) == 0real {}
pub proof fn lem_cheaper(n: Net, a: real, c: real) requires beats_all(n, Some(a)), c <= a ensures beats_all(n, Some(c)) {}
pub proof fn lem_up_down(n: Net, d: int, z: Seq<int>, m: int) requires n.walk(d, n.root(d), z, m) ensures n.plain().walk(d, n.root(d), z, m), n.plain().cost(z) == n.cost(z) { lem_plain(n, d, n.root(d), z, m); }
/// p goes up from the source and down to the destination
pub open spec fn pairs(n: Net, p: Seq<int>) -> bool { exists|v: int, ef: Seq<int>, eb: Seq<int>| #[trigger] n.walk(0, n.s, ef, v) && #[trigger] n.walk(1, n.t, eb, v) && n.cost(ef) + n.cost(eb) == n.plain().cost(p) }
pub proof fn lem_pairs(n: Net, m: int, ef: Seq<int>, eb: Seq<int>, p: Seq<int>) requires n.walk(0, n.s, ef, m), n.walk(1, n.t, eb, m), n.cost(ef) + n.cost(eb) == n.plain().cost(p) ensures pairs(n, p) {}
/// the answer of a query
pub open spec fn answers(n: Net, r: Option<Seq<int>>) -> bool { match r {
    Some(p) => n.plain().walk(0, n.s, p, n.t) && (n.s == n.t ==> p.len() == 0) && pairs(n, p) && beats_all(n, Some(n.plain().cost(p))),
    None => beats_all(n, None) } }
pub open spec fn path_edges(r: Option<Path>) -> Option<Seq<int>> { match r { Some(p) => Some(eidx(p.edges@)), None => None } }
pub open spec fn is_ch(c: &RoutingConfig) -> bool { c.routing_algo is CHDijkstra }
pub open spec fn qnet(q: Query) -> Net { net_of(q.graph, q.routing_cfg.alphas@, is_ch(q.routing_cfg), q.src_idx.0 as int, q.dst_idx.0 as int) }
@@item src/routing/paths.rs :: Path
impl Path {
@@fn src/routing/paths.rs :: Path::new [id=Path::new]
%spec
    ensures r.src_idx == src_idx, r.src_id == src_id, r.dst_idx == dst_idx, r.dst_id == dst_id, r.edges == edges, r.costs is None,
@@end
}
impl Dijkstra {
@@fn src/routing/dijkstra.rs :: Dijkstra::compute_best_path
%attr
#[verifier::spinoff_prover] #[verifier::rlimit(100)]
%spec
    requires old(self).reusable(), query.graph.wf(), metrics_ok(query.graph), query.src_idx.0 < query.graph.n(), query.dst_idx.0 < query.graph.n(),
        forall|i: int| 0 <= i < query.routing_cfg.alphas@.len() ==> fin(#[trigger] query.routing_cfg.alphas@[i]), is_ch(query.routing_cfg) ==> sorted_by_level(query.graph),
    ensures final(self).reusable(),
        !nonneg(query.routing_cfg.alphas@) ==> r is None,
        nonneg(query.routing_cfg.alphas@) ==> answers(qnet(query), path_edges(r)),
        r is Some ==> r->0.src_idx == query.src_idx && r->0.dst_idx == query.dst_idx && r->0.src_id == query.graph.node_ids@[query.src_idx.0 as int] && r->0.dst_id == query.graph.node_ids@[query.dst_idx.0 as int],
%start
    hide(dinv); hide(botha); hide(frontier); hide(best_oka); hide(cleana); hide(csr); hide(by_level); hide(Net::walk); hide(Net::cost); hide(beats_all); hide(nlists); hide(done_upto); hide(labels); hide(pairs); hide(first);
    let ghost al = query.routing_cfg.alphas@; let ghost g = query.graph; let ghost nt = qnet(query); let ghost ch = is_ch(query.routing_cfg);
    let ghost mut st = no_st(nt); let ghost mut tm = no_tm(nt); let ghost mut gq = Multiset::<QE>::empty(); let ghost mut lo = 0real; let ghost mut clk = 1int;
%loop 0
        invariant i_0 <= al.len(), al == query.routing_cfg.alphas@, forall|i: int| 0 <= i < al.len() ==> fin(#[trigger] al[i]), forall|i: int| 0 <= i < i_0 ==> val(#[trigger] al[i]) >= 0real,
            *self == *old(self), old(self).reusable(),
        decreases al.len() - i_0,
%loop 0 start
    proof { let a = al[x_0 as int]; }
%after: self.init_query(
    let ghost s0 = *self;
%loop 1 before
    proof {
        gq = self.queue@;
        assert(nonneg(al)); lem_net_wf(g, al, ch, query.src_idx.0 as int, query.dst_idx.0 as int);
        assert(at_start(nt, 0, mk(self, st, tm, 0))); assert(at_start(nt, 1, mk(self, st, tm, 1)));
        lem_start(nt, self, gq); lem_fresh_clean(&s0, 0, nt.n); lem_fresh_clean(&s0, 1, nt.n); lem_touch(&s0, self, 0, query.src_idx.0 as int); lem_touch(&s0, self, 1, query.dst_idx.0 as int); lem_best_none(nt, self, gq);
        assert(!ch ==> self.is_visited@[0]@ =~= st[0] && self.is_visited@[1]@ =~= st[1]);
    }
%loop 1
        invariant_except_break self.queue@ == gq,
        invariant nt.wf(), g == query.graph, g.wf(), al == query.routing_cfg.alphas@, nonneg(al), metrics_ok(g), ch == is_ch(query.routing_cfg), nt == qnet(query), nt.ch == ch, nt.n == g.n(), nt.m == g.m(),
            ch ==> sorted_by_level(g), forall|e: int| 0 <= e < g.m() ==> #[trigger] edge_dot(g, al, e) is Fin,
            nodes.node_ids == &g.node_ids, nodes.node_ch_levels == &g.node_ch_levels, xwd_edges@[0].is_fwd(g), xwd_edges@[1].is_bwd(g),
            both(nt, self, st, tm, gq, lo, clk, cost_of(best_meeting), -1, -1), best_ok(nt, self, gq, best_meeting), flags_ok(nt, self, st, lo, cost_of(best_meeting)), tm.len() == 2,
        ensures over(gq, lo, cost_of(best_meeting)),
        decreases unsettled(st[0], nt.n) + unsettled(st[1], nt.n), gq.len(),
%loop 1 start
        let ghost k = qe(current); let ghost b = best_meeting; let ghost pre = *self;
        proof {
            lem_first_cheapest(current, gq);
            lem_entry(nt, self, st, tm, gq, lo, clk, cost_of(b), k); lem_lens(nt, self, st, tm, gq, lo, clk, cost_of(b), -1, -1);
            lem_bfin(nt, self, gq, b); lem_listed(g, nt, al, k.0, k.1);
            if self.has_found_best_meeting_node@[0] && self.has_found_best_meeting_node@[1] { lem_found(nt, self, st, tm, gq, lo, clk, cost_of(b)); }
        }
%before: if !self.has_costnode_improved(&current) {
        proof { if val(self.costs@[k.0]@[k.1]) < k.2 { lem_stale(nt, self, st, tm, gq, lo, clk, b, k); gq = gq.remove(k); lo = k.2; } }
%before: self.has_found_best_meeting_node[dir] = true
                let ghost mid = *self;
                proof {
                    lem_settle(nt, self, st, tm, gq, lo, clk, b, k, b);
                    lem_unsettled(st[k.0], k.1, nt.n);
                    let st2 = st.update(k.0, st[k.0].update(k.1, true));
                    lem_all_done(nt, self, st2, tm, gq.remove(k), k.2, clk, cost_of(b), k.0, k.1);
                    st = st2; gq = gq.remove(k); lo = k.2;
                }
%after: self.has_found_best_meeting_node[dir] = true
                proof { lem_frame(nt, &mid, self, st, tm, gq, lo, clk, cost_of(b), -1, -1); }
%loop 2 before
            proof {
                lem_settle(nt, self, st, tm, gq, lo, clk, b, k, best_meeting);
                lem_unsettled(st[k.0], k.1, nt.n);
                st = st.update(k.0, st[k.0].update(k.1, true)); gq = gq.remove(k); lo = k.2;
                lem_listed(g, nt, al, k.0, k.1);
            }
            let ghost es = listed(g, k.0, k.1);
            proof { lem_done_none(nt, k.0, self.costs@[k.0]@, k.1, es); }
%loop 2
                invariant_except_break done_upto(nt, k.0, self.costs@[k.0]@, k.1, es, i_2 as int),
                invariant nt.wf(), g == query.graph, g.wf(), al == query.routing_cfg.alphas@, nonneg(al), metrics_ok(g), ch == is_ch(query.routing_cfg), nt == qnet(query), nt.ch == ch, nt.n == g.n(), nt.m == g.m(),
                    ch ==> sorted_by_level(g), forall|e: int| 0 <= e < g.m() ==> #[trigger] edge_dot(g, al, e) is Fin,
                    nodes.node_ids == &g.node_ids, nodes.node_ch_levels == &g.node_ch_levels, xwd_edges@[0].is_fwd(g), xwd_edges@[1].is_bwd(g),
                    both(nt, self, st, tm, gq, lo, clk, cost_of(best_meeting), k.0, k.1), best_ok(nt, self, gq, best_meeting), flags_ok(nt, self, st, lo, cost_of(best_meeting)), tm.len() == 2,
                    self.queue@ == gq, k == qe(current), k.0 == dir, k.0 == 0 || k.0 == 1, 0 <= k.1 < nt.n, lo == k.2, st[k.0][k.1], self.costs@[k.0]@[k.1]@ == Ext::Fin(lo), current.cost@ == Ext::Fin(lo),
                    i_2 <= s_2@.len(), es == listed(g, k.0, k.1), nlists(nt, es, k.0, k.1), s_2@.len() == es.len(),
                    forall|i: int| 0 <= i < s_2@.len() ==> (#[trigger] s_2@[i]).idx == es[i] && s_2@[i].edge_accessor == &xwd_edges@[k.0],
                ensures done_upto(nt, k.0, self.costs@[k.0]@, k.1, es, es.len() as int),
                decreases s_2@.len() - i_2,
%loop 2 start
                let ghost e = es[x_2 as int]; let ghost h = nt.head(k.0, e.0 as int); let ghost pre2 = *self;
                proof {
                    lem_one_of(nt, k.0, k.1, es, x_2 as int); lem_lens(nt, self, st, tm, gq, lo, clk, cost_of(best_meeting), k.0, k.1);
                    assert(s_2@[x_2 as int].idx == e); assert(edge_dot(g, al, e.0 as int) is Fin);
                    lem_ext(nt, k.0, mk(self, st, tm, k.0), clk, h);
                    if ch && nt.lv[k.1] > nt.lv[h] { lem_listed(g, nt, al, k.0, k.1); lem_listed_levels(g, nt, al, k.0, k.1, x_2 as int); lem_done_skip(nt, k.0, self.costs@[k.0]@, k.1, es, x_2 as int); }
                }
%loop 2 end
                proof {
                    assert(g.metrics@[e.0 as int]@.len() == g.dim());
                    assert(new_cost@ == eadd(current.cost@, edge_dot(g, al, e.0 as int)));
                    assert(nt.w[e.0 as int] == wgt(g, al, e.0 as int));
                    assert(new_cost@ == Ext::Fin(lo + nt.w[e.0 as int]));
                    if elt(new_cost@, pre2.costs@[k.0]@[h]@) {
                        lem_relax(nt, &pre2, self, st, tm, gq, lo, clk, best_meeting, k.0, k.1, e, new_cost);
                        lem_touch(&pre2, self, k.0, h);
                        tm = tm.update(k.0, tm[k.0].update(h, clk)); clk = clk + 1; if nt.ch || best_meeting is None { gq = gq.insert((k.0, h, val(new_cost))); }
                        lem_done_less(nt, k.0, pre2.costs@[k.0]@, h, new_cost, k.1, es, x_2 as int);
                    }
                    lem_done_next(nt, k.0, self.costs@[k.0]@, k.1, es, x_2 as int);
                }
%loop 2 after
            proof { lem_relaxed(nt, k.0, self.costs@[k.0]@, k.1, es); lem_all_done(nt, self, st, tm, gq, lo, clk, cost_of(best_meeting), k.0, k.1); }
%before: let mut proto_path
        proof { lem_stop(nt, self, st, tm, gq, lo, clk, best_meeting); lem_lens(nt, self, st, tm, gq, lo, clk, cost_of(best_meeting), -1, -1); }
        let ghost meet = meeting_node_idx.0 as int; let ghost x0 = mk(self, st, tm, 0); let ghost x1 = mk(self, st, tm, 1); let ghost mut half = Seq::<EdgeIdx>::empty();
%loop 3 before
        proof { lem_from(nt, x0, x1, self, gq, best_meeting); lem_nil(nt, meet, eidx(proto_path@)); }
%loop 3
                invariant nt.wf(), nt == qnet(query), g == query.graph, nt.n == g.n(), nt.m == g.m(), dir == 0, opp_dir == 1, xwd_edges@[1].is_bwd(g), x0.l == self.costs@[0]@, x0.pr == self.predecessors@[0]@, labels(nt, 0, x0, clk), g.bwd_dsts@.len() == g.m(),
                    x0.pr.len() == nt.n, 0 <= cur_idx.0 < nt.n, fin(x0.l[cur_idx.0 as int]), nt.walk(0, cur_idx.0 as int, eidx(proto_path@).reverse(), meet),
                    nt.cost(eidx(proto_path@).reverse()) + val(x0.l[cur_idx.0 as int]) <= val(x0.l[meet]),
                    nt.s == nt.t ==> proto_path@.len() == 0 && cur_idx.0 == nt.s,
                ensures x0.pr[cur_idx.0 as int] is None,
                decreases left(x0, cur_idx.0 as int),
%loop 3 start
                proof { lem_step(nt, 0, x0, clk, cur_idx.0 as int); lem_walk_step(nt, 0, proto_path@, incoming_idx, cur_idx.0 as int, meet); }
%loop 3 after
        proof { lem_root(nt, 0, x0, clk, cur_idx.0 as int); }
        proof { half = proto_path@; }
%loop 4 before
        let ghost fst = eidx(half).reverse(); let ghost mut snd = Seq::<EdgeIdx>::empty();
        proof { assert(eidx(half.reverse()) =~= fst); lem_up_down(nt, 0, fst, meet); lem_nil(nt, meet, eidx(snd)); }
%loop 4
                invariant nt.wf(), nt == qnet(query), g == query.graph, nt.n == g.n(), nt.m == g.m(), dir == 1, opp_dir == 0, xwd_edges@[0].is_fwd(g), x1.l == self.costs@[1]@, x1.pr == self.predecessors@[1]@, labels(nt, 1, x1, clk),
                    x1.pr.len() == nt.n, 0 <= cur_idx.0 < nt.n, fin(x1.l[cur_idx.0 as int]), nt.plain().walk(0, nt.s, eidx(proto_path@), cur_idx.0 as int),
                    nt.walk(1, cur_idx.0 as int, eidx(snd).reverse(), meet), nt.plain().cost(eidx(proto_path@)) == nt.cost(fst) + nt.cost(eidx(snd).reverse()),
                    nt.plain().cost(eidx(proto_path@)) + val(x1.l[cur_idx.0 as int]) <= val(x0.l[meet]) + val(x1.l[meet]),
                    nt.s == nt.t ==> proto_path@.len() == 0 && cur_idx.0 == nt.s,
                ensures x1.pr[cur_idx.0 as int] is None,
                decreases left(x1, cur_idx.0 as int),
%loop 4 start
                proof { lem_step(nt, 1, x1, clk, cur_idx.0 as int); lem_bwd_step(nt, proto_path@, leaving_idx, nt.s, cur_idx.0 as int);
                    lem_walk_step(nt, 1, snd, leaving_idx, cur_idx.0 as int, meet); snd = snd.push(leaving_idx); }
%loop 4 after
        proof { lem_root(nt, 1, x1, clk, cur_idx.0 as int); lem_cheaper(nt, val((best_meeting->0).1), nt.plain().cost(eidx(proto_path@))); lem_pairs(nt, meet, fst, eidx(snd).reverse(), eidx(proto_path@)); }
%end
    proof { if best_meeting is None { lem_stop(nt, self, st, tm, gq, lo, clk, best_meeting); } }
@@end
}

// ---------------------------------------------------------------- consequences
/// C04: the answer's cost does not depend on anything but the query
pub proof fn lem_determined(n: Net, a: Option<Seq<int>>, b: Option<Seq<int>>)
    requires n.wf(), answers(n, a), answers(n, b), ensures a is Some == b is Some, a is Some ==> n.plain().cost(a->0) == n.plain().cost(b->0)
{
    if !n.ch { assert(n.plain() == n); if let Some(p) = a { assert(n.walk(0, n.s, p, n.t)); } if let Some(p) = b { assert(n.walk(0, n.s, p, n.t)); } }
    else { if let Some(p) = a { assert(pairs(n, p)); assert(b is Some); } if let Some(p) = b { assert(pairs(n, p)); assert(a is Some); } }
}
/// a hierarchy that preserves distances: every route can be replaced by one going up from both ends, at no higher cost
pub open spec fn up_down(n: Net, c: real) -> bool { exists|v: int, ef: Seq<int>, eb: Seq<int>| #[trigger] n.walk(0, n.s, ef, v) && #[trigger] n.walk(1, n.t, eb, v) && n.cost(ef) + n.cost(eb) <= c }
pub open spec fn preserving(n: Net) -> bool { forall|es: Seq<int>| #[trigger] n.plain().walk(0, n.s, es, n.t) ==> up_down(n, n.plain().cost(es)) }
/// C03: on such a hierarchy, the CH search answers like the plain search: the same queries have an answer, at the same cost
pub proof fn lem_ch_same(n: Net, a: Option<Seq<int>>, b: Option<Seq<int>>)
    requires n.wf(), n.ch, preserving(n), answers(n.plain(), a), answers(n, b), ensures a is Some == b is Some, a is Some ==> n.plain().cost(a->0) == n.plain().cost(b->0)
{
    let g = n.plain(); assert(g.plain() == g);
    if let Some(p) = a {
        assert(g.walk(0, g.s, p, g.t)); assert(up_down(n, g.cost(p)));
        let (v, ef, eb) = choose|v: int, ef: Seq<int>, eb: Seq<int>| #[trigger] n.walk(0, n.s, ef, v) && #[trigger] n.walk(1, n.t, eb, v) && n.cost(ef) + n.cost(eb) <= g.cost(p);
        assert(b is Some);
    }
    if let Some(p) = b { assert(g.walk(0, g.s, p, g.t)); }
}
pub proof fn lem_flat_walk(n: Net, d: int, a: int, es: Seq<int>, b: int)
    requires n.wf(), d == 0 || d == 1, forall|u: int, v: int| 0 <= u < n.n && 0 <= v < n.n ==> n.lv[u] == n.lv[v], n.plain().walk(d, a, es, b), ensures n.walk(d, a, es, b), n.cost(es) == n.plain().cost(es) decreases es.len()
{ if es.len() > 0 { let e = es.last(); assert(0 <= n.src[e] < n.n && 0 <= n.dst[e] < n.n); lem_flat_walk(n, d, a, es.drop_last(), n.tail(d, e)); } }
/// C03: so it does on a graph whose nodes have all the same level
pub proof fn lem_flat(n: Net) requires n.wf(), forall|u: int, v: int| 0 <= u < n.n && 0 <= v < n.n ==> n.lv[u] == n.lv[v], ensures preserving(n)
{
    let o = Seq::<int>::empty(); assert(n.walk(1, n.t, o, n.t)); assert(n.cost(o) == 0real);
    assert forall|es: Seq<int>| #[trigger] n.plain().walk(0, n.s, es, n.t) implies up_down(n, n.plain().cost(es)) by {
        lem_flat_walk(n, 0, n.s, es, n.t); assert(n.walk(0, n.s, es, n.t) && n.walk(1, n.t, o, n.t)); }
}
/// C02: a path's edges chain from the source to the destination
pub open spec fn chains(n: Net, p: Seq<int>) -> bool {
    if p.len() == 0 { n.s == n.t } else { (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < n.m) && n.src[p[0]] == n.s && n.dst[p.last()] == n.t && forall|i: int| 0 <= i < p.len() - 1 ==> n.dst[#[trigger] p[i]] == n.src[p[i + 1]] } }
pub proof fn lem_chain(n: Net, p: Seq<int>, z: int) requires n.plain().walk(0, n.s, p, z)
    ensures p.len() == 0 ==> z == n.s, p.len() > 0 ==> chains(Net { t: z, ..n }, p) decreases p.len()
{
    if p.len() > 0 {
        let q = p.drop_last(); let e = p.last(); lem_chain(n, q, n.src[e]);
        assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < n.m by { if i < q.len() { assert(q[i] == p[i]); } }
        assert forall|i: int| 0 <= i < p.len() - 1 implies n.dst[#[trigger] p[i]] == n.src[p[i + 1]] by { assert(q[i] == p[i]); if i + 1 < q.len() { assert(q[i + 1] == p[i + 1]); } else { assert(q.last() == p[i]); } }
        if q.len() > 0 { assert(q[0] == p[0]); }
    }
}
pub proof fn lem_route(n: Net, p: Seq<int>) requires answers(n, Some(p)) ensures chains(n, p), n.s == n.t ==> p.len() == 0 { lem_chain(n, p, n.t); }
/// C01: none is reported exactly if there is no route, and no route is cheaper than the reported one
pub proof fn lem_optimal(n: Net, r: Option<Seq<int>>) requires !n.ch, answers(n, r)
    ensures r is None ==> forall|es: Seq<int>| !#[trigger] n.walk(0, n.s, es, n.t), r is Some ==> n.walk(0, n.s, r->0, n.t) && forall|es: Seq<int>| #[trigger] n.walk(0, n.s, es, n.t) ==> n.cost(r->0) <= n.cost(es)
{ assert(n.plain() == n); }
// vacuity guards
proof fn must_fail_answers(n: Net, r: Option<Seq<int>>) requires n.wf(), answers(n, r) ensures false {}
fn must_fail_query(d: &mut Dijkstra, query: Query) -> (r: Option<Path>)
    requires old(d).reusable(), query.graph.wf(), metrics_ok(query.graph), query.src_idx.0 < query.graph.n(), query.dst_idx.0 < query.graph.n(),
        forall|i: int| 0 <= i < query.routing_cfg.alphas@.len() ==> fin(#[trigger] query.routing_cfg.alphas@[i]), is_ch(query.routing_cfg) ==> sorted_by_level(query.graph),
    ensures false,
{ d.compute_best_path(query) }
