// ---------------------------------------------------------------- walks (ghost)
/// the searched network: edges, weights, levels; with `ch` only edges to nodes of at least the same level are used
pub struct Net { pub n: int, pub m: int, pub ch: bool, pub src: Seq<int>, pub dst: Seq<int>, pub w: Seq<real>, pub lv: Seq<int>, pub s: int, pub t: int }
impl Net {
    pub open spec fn wf(self) -> bool {
        &&& 0 <= self.s < self.n && 0 <= self.t < self.n && self.src.len() == self.m && self.dst.len() == self.m && self.w.len() == self.m && self.lv.len() == self.n
        &&& forall|e: int| 0 <= e < self.m ==> 0 <= #[trigger] self.src[e] < self.n
        &&& forall|e: int| 0 <= e < self.m ==> 0 <= #[trigger] self.dst[e] < self.n
        &&& forall|e: int| 0 <= e < self.m ==> #[trigger] self.w[e] >= 0real
    }
    /// direction 0 follows the edges, direction 1 goes against them
    pub open spec fn tail(self, d: int, e: int) -> int { if d == 0 { self.src[e] } else { self.dst[e] } }
    pub open spec fn head(self, d: int, e: int) -> int { if d == 0 { self.dst[e] } else { self.src[e] } }
    pub open spec fn root(self, d: int) -> int { if d == 0 { self.s } else { self.t } }
    pub open spec fn usable(self, d: int, e: int) -> bool { 0 <= e < self.m && (self.ch ==> self.lv[self.tail(d, e)] <= self.lv[self.head(d, e)]) }
    pub open spec fn plain(self) -> Net { Net { ch: false, ..self } }
    pub open spec fn walk(self, d: int, a: int, es: Seq<int>, b: int) -> bool decreases es.len() {
        if es.len() == 0 { a == b } else { self.usable(d, es.last()) && self.head(d, es.last()) == b && self.walk(d, a, es.drop_last(), self.tail(d, es.last())) } }
    pub open spec fn cost(self, es: Seq<int>) -> real decreases es.len() {
        if es.len() == 0 { 0real } else { self.cost(es.drop_last()) + self.w[es.last()] } }
}
pub proof fn lem_cost_nonneg(g: Net, d: int, a: int, es: Seq<int>, b: int) requires g.wf(), g.walk(d, a, es, b) ensures g.cost(es) >= 0real decreases es.len()
{ if es.len() > 0 { lem_cost_nonneg(g, d, a, es.drop_last(), g.tail(d, es.last())); } }
pub proof fn lem_push(g: Net, d: int, a: int, es: Seq<int>, e: int) requires g.walk(d, a, es, g.tail(d, e)), g.usable(d, e)
    ensures g.walk(d, a, es.push(e), g.head(d, e)), g.cost(es.push(e)) == g.cost(es) + g.w[e]
{ assert(es.push(e).drop_last() =~= es); }
pub proof fn lem_concat(g: Net, d: int, a: int, x: Seq<int>, b: int, y: Seq<int>, c: int)
    requires g.walk(d, a, x, b), g.walk(d, b, y, c), ensures g.walk(d, a, x + y, c), g.cost(x + y) == g.cost(x) + g.cost(y) decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); } else {
        lem_concat(g, d, a, x, b, y.drop_last(), g.tail(d, y.last()));
        assert((x + y).drop_last() =~= x + y.drop_last()); assert((x + y).last() == y.last());
    }
}
pub proof fn lem_one(g: Net, d: int, e: int) requires g.usable(d, e) ensures g.walk(d, g.tail(d, e), seq![e], g.head(d, e)), g.cost(seq![e]) == g.w[e]
{ assert(seq![e].drop_last() =~= Seq::<int>::empty()); assert(g.walk(d, g.tail(d, e), Seq::<int>::empty(), g.tail(d, e))); assert(g.cost(Seq::<int>::empty()) == 0real); }
/// a walk against the edges, read backwards, is a walk along them
pub proof fn lem_rev(g: Net, d: int, a: int, es: Seq<int>, b: int)
    requires !g.ch, d == 0 || d == 1, g.walk(d, a, es, b), ensures g.walk(1 - d, b, es.reverse(), a), g.cost(es.reverse()) == g.cost(es) decreases es.len()
{
    if es.len() == 0 { assert(es.reverse() =~= es); } else {
        let e = es.last();
        lem_rev(g, d, a, es.drop_last(), g.tail(d, e));
        lem_one(g, 1 - d, e);
        lem_concat(g, 1 - d, b, seq![e], g.tail(d, e), es.drop_last().reverse(), a);
        assert(es.reverse() =~= seq![e] + es.drop_last().reverse());
    }
}
/// walks of the hierarchy are walks of the plain network
pub proof fn lem_plain(g: Net, d: int, a: int, es: Seq<int>, b: int) requires g.walk(d, a, es, b) ensures g.plain().walk(d, a, es, b), g.plain().cost(es) == g.cost(es) decreases es.len()
{ if es.len() > 0 { lem_plain(g, d, a, es.drop_last(), g.tail(d, es.last())); } }
// ---------------------------------------------------------------- search state (ghost)
/// one direction: labels, edges leading there, settled nodes, time of the last change of a label
pub struct D { pub l: Seq<F64>, pub pr: Seq<Option<EdgeIdx>>, pub st: Seq<bool>, pub tm: Seq<int> }
pub open spec fn relaxed_by(g: Net, d: int, l: Seq<F64>, u: int, e: int) -> bool { fin(l[g.head(d, e)]) && val(l[g.head(d, e)]) <= val(l[u]) + g.w[e] }
pub open spec fn relaxed(g: Net, d: int, l: Seq<F64>, u: int) -> bool {
    forall|e: int| #[trigger] g.usable(d, e) && g.tail(d, e) == u ==> relaxed_by(g, d, l, u, e) }
pub open spec fn has_walk(g: Net, d: int, u: int, c: real) -> bool { exists|es: Seq<int>| #[trigger] g.walk(d, g.root(d), es, u) && g.cost(es) <= c }
pub open spec fn pred_ok(g: Net, d: int, x: D, u: int) -> bool { match x.pr[u] {
    Some(e) => g.usable(d, e.0 as int) && g.head(d, e.0 as int) == u && fin(x.l[u]) && fin(x.l[g.tail(d, e.0 as int)])
        && val(x.l[g.tail(d, e.0 as int)]) + g.w[e.0 as int] <= val(x.l[u])
        && (val(x.l[g.tail(d, e.0 as int)]) < val(x.l[u]) || x.tm[g.tail(d, e.0 as int)] < x.tm[u]),
    None => !fin(x.l[u]) || u == g.root(d) } }
/// labels alone
pub open spec fn labels(g: Net, d: int, x: D, clk: int) -> bool {
    &&& x.l.len() == g.n && x.pr.len() == g.n && x.st.len() == g.n && x.tm.len() == g.n
    &&& forall|u: int| 0 <= u < g.n ==> (#[trigger] x.l[u])@ is PInf || (fin(x.l[u]) && val(x.l[u]) >= 0real && has_walk(g, d, u, val(x.l[u])))
    &&& fin(x.l[g.root(d)]) && val(x.l[g.root(d)]) == 0real && x.pr[g.root(d)] is None
    &&& forall|u: int| 0 <= u < g.n ==> pred_ok(g, d, x, u) && #[trigger] x.tm[u] < clk
}
/// settled nodes and pending entries; `best` is the cost of the best meeting so far, `cur` a node whose edges are being looked at
pub open spec fn pending(d: int, l: Seq<F64>, q: Multiset<QE>, u: int) -> bool { q.count((d, u, val(l[u]))) > 0 }
pub open spec fn entry_ok(g: Net, d: int, x: D, lo: real, e: QE) -> bool {
    0 <= e.1 < g.n && fin(x.l[e.1]) && val(x.l[e.1]) <= e.2 && lo <= e.2 && (x.st[e.1] ==> val(x.l[e.1]) < e.2) }
pub open spec fn settled_ok(g: Net, d: int, x: D, lo: real, best: Option<real>, cur: int, u: int) -> bool {
    fin(x.l[u]) && val(x.l[u]) <= lo && (u == cur || relaxed(g, d, x.l, u) || (best is Some && best->0 < val(x.l[u]))) }
pub open spec fn dinv(g: Net, d: int, x: D, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, cur: int, full: bool) -> bool {
    &&& labels(g, d, x, clk)
    &&& forall|e: QE| #[trigger] q.count(e) > 0 && e.0 == d ==> entry_ok(g, d, x, lo, e)
    &&& forall|u: int| 0 <= u < g.n && #[trigger] x.st[u] ==> settled_ok(g, d, x, lo, best, cur, u)
    &&& forall|u: int| 0 <= u < g.n && fin(#[trigger] x.l[u]) ==> q.count((d, u, val(x.l[u]))) <= 1
    &&& full ==> forall|u: int| 0 <= u < g.n && fin(#[trigger] x.l[u]) ==> x.st[u] || pending(d, x.l, q, u)
    // before the root is settled, nothing else has been seen
    &&& forall|u: int| 0 <= u < g.n && fin(#[trigger] x.l[u]) ==> u == g.root(d) || x.st[g.root(d)]
}
pub open spec fn upd(x: D, v: int, c: F64, e: EdgeIdx, clk: int) -> D { D { l: x.l.update(v, c), pr: x.pr.update(v, Some(e)), st: x.st, tm: x.tm.update(v, clk) } }
/// one improved label
pub proof fn lem_improve(g: Net, d: int, x: D, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, cur: int, full: bool, e: EdgeIdx, c: F64, push: bool)
    requires g.wf(), d == 0 || d == 1, dinv(g, d, x, q, lo, clk, best, cur, full), 0 <= cur < g.n, x.st[cur], val(x.l[cur]) == lo, full ==> push,
        g.usable(d, e.0 as int), g.tail(d, e.0 as int) == cur, fin(c), val(c) == lo + g.w[e.0 as int], elt(c@, x.l[g.head(d, e.0 as int)]@),
    ensures dinv(g, d, upd(x, g.head(d, e.0 as int), c, e, clk), if push { q.insert((d, g.head(d, e.0 as int), val(c))) } else { q }, lo, clk + 1, best, cur, full),
        relaxed_by(g, d, upd(x, g.head(d, e.0 as int), c, e, clk).l, cur, e.0 as int),
        g.head(d, e.0 as int) != g.root(d), !x.st[g.head(d, e.0 as int)], g.head(d, e.0 as int) != cur,
{
    let v = g.head(d, e.0 as int); let y = upd(x, v, c, e, clk); let r = if push { q.insert((d, v, val(c))) } else { q };
    assert(x.tm[v] < clk && x.tm[cur] < clk);
    assert(0 <= v < g.n);
    assert(v != g.root(d)) by { assert(x.l[g.root(d)]@ == Ext::Fin(0real)); assert(g.w[e.0 as int] >= 0real); assert(val(x.l[cur]) >= 0real); }
    assert(v != cur); assert(!x.st[v]);
    let es = choose|es: Seq<int>| #[trigger] g.walk(d, g.root(d), es, cur) && g.cost(es) <= lo;
    lem_push(g, d, g.root(d), es, e.0 as int);
    assert(has_walk(g, d, v, val(c)));
    assert forall|u: int| 0 <= u < g.n implies (#[trigger] y.l[u])@ is PInf || (fin(y.l[u]) && val(y.l[u]) >= 0real && has_walk(g, d, u, val(y.l[u]))) by { assert(x.l[u]@ is PInf || fin(x.l[u])); if u != v { assert(y.l[u] == x.l[u]); } }
    assert forall|u: int| 0 <= u < g.n implies pred_ok(g, d, y, u) && #[trigger] y.tm[u] < clk + 1 by {
        assert(x.tm[u] < clk);
        if u != v {
            if let Some(f) = x.pr[u] { let w = g.tail(d, f.0 as int); assert(0 <= w < g.n); assert(x.tm[w] < clk);
                if w == v { assert(g.w[f.0 as int] >= 0real); assert(val(c) < val(x.l[v])); } }
        }
    }
    assert forall|k: QE| #[trigger] r.count(k) > 0 && k.0 == d implies entry_ok(g, d, y, lo, k) by {
        if k == (d, v, val(c)) && push { } else { assert(q.count(k) > 0); assert(entry_ok(g, d, x, lo, k)); }
    }
    assert forall|u: int| 0 <= u < g.n && #[trigger] y.st[u] implies settled_ok(g, d, y, lo, best, cur, u) by {
        assert(x.st[u]); assert(settled_ok(g, d, x, lo, best, cur, u));
        if u != cur && relaxed(g, d, x.l, u) {
            assert forall|f: int| #[trigger] g.usable(d, f) && g.tail(d, f) == u implies relaxed_by(g, d, y.l, u, f) by { assert(relaxed_by(g, d, x.l, u, f)); assert(0 <= g.head(d, f) < g.n); }
            assert(relaxed(g, d, y.l, u));
        }
    }
    assert forall|u: int| 0 <= u < g.n && fin(#[trigger] y.l[u]) implies r.count((d, u, val(y.l[u]))) <= 1 by {
        if u == v {
            if q.count((d, v, val(c))) > 0 { assert(entry_ok(g, d, x, lo, (d, v, val(c)))); }
        } else { assert(fin(x.l[u])); assert(q.count((d, u, val(x.l[u]))) <= 1); }
    }
    if full {
        assert forall|u: int| 0 <= u < g.n && fin(#[trigger] y.l[u]) implies y.st[u] || pending(d, y.l, r, u) by {
            if u != v { assert(fin(x.l[u])); assert(x.st[u] || pending(d, x.l, q, u)); } }
    }
    assert forall|u: int| 0 <= u < g.n && fin(#[trigger] y.l[u]) implies u == g.root(d) || y.st[g.root(d)] by {
        assert(fin(x.l[cur])); assert(cur == g.root(d) || x.st[g.root(d)]); }
}
/// the other direction does not notice pushed entries
pub proof fn lem_other_push(g: Net, d: int, x: D, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, cur: int, full: bool, k: QE)
    requires dinv(g, d, x, q, lo, clk, best, cur, full), k.0 != d ensures dinv(g, d, x, q.insert(k), lo, clk + 1, best, cur, full)
{
    let r = q.insert(k);
    assert forall|e: QE| #[trigger] r.count(e) > 0 && e.0 == d implies entry_ok(g, d, x, lo, e) by { assert(q.count(e) > 0); }
    assert forall|u: int| 0 <= u < g.n && fin(#[trigger] x.l[u]) implies r.count((d, u, val(x.l[u]))) <= 1 by { assert(q.count((d, u, val(x.l[u]))) <= 1); }
    if full { assert forall|u: int| 0 <= u < g.n && fin(#[trigger] x.l[u]) implies x.st[u] || pending(d, x.l, r, u) by { assert(x.st[u] || pending(d, x.l, q, u)); } }
}
pub proof fn lem_clk(g: Net, d: int, x: D, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, cur: int, full: bool)
    requires dinv(g, d, x, q, lo, clk, best, cur, full) ensures dinv(g, d, x, q, lo, clk + 1, best, cur, full) {}
/// taking out a cheapest entry, which is not better than its node's label any more
pub proof fn lem_pop_stale(g: Net, d: int, x: D, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, full: bool, k: QE)
    requires dinv(g, d, x, q, lo, clk, best, -1, full), q.count(k) > 0, forall|e: QE| #[trigger] q.count(e) > 0 ==> k.2 <= e.2, lo <= k.2,
        k.0 == d ==> val(x.l[k.1]) < k.2,
    ensures dinv(g, d, x, q.remove(k), k.2, clk, best, -1, full),
{
    let r = q.remove(k);
    assert forall|e: QE| #[trigger] r.count(e) > 0 && e.0 == d implies entry_ok(g, d, x, k.2, e) by { assert(q.count(e) > 0); }
    assert forall|u: int| 0 <= u < g.n && fin(#[trigger] x.l[u]) implies r.count((d, u, val(x.l[u]))) <= 1 by { assert(q.count((d, u, val(x.l[u]))) <= 1); }
    if full { assert forall|u: int| 0 <= u < g.n && fin(#[trigger] x.l[u]) implies x.st[u] || pending(d, x.l, r, u) by { assert(x.st[u] || pending(d, x.l, q, u)); } }
    assert forall|u: int| 0 <= u < g.n && #[trigger] x.st[u] implies settled_ok(g, d, x, k.2, best, -1, u) by { assert(settled_ok(g, d, x, lo, best, -1, u)); }
}
/// taking out a cheapest entry that equals its node's label: the node gets settled
pub proof fn lem_pop_settle(g: Net, d: int, x: D, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, full: bool, k: QE)
    requires dinv(g, d, x, q, lo, clk, best, -1, full), q.count(k) > 0, forall|e: QE| #[trigger] q.count(e) > 0 ==> k.2 <= e.2, lo <= k.2,
        k.0 == d, k.2 <= val(x.l[k.1]),
    ensures dinv(g, d, D { st: x.st.update(k.1, true), ..x }, q.remove(k), k.2, clk, best, k.1, full), !x.st[k.1], val(x.l[k.1]) == k.2, fin(x.l[k.1]), 0 <= k.1 < g.n,
{
    let r = q.remove(k); let y = D { st: x.st.update(k.1, true), ..x };
    assert(entry_ok(g, d, x, lo, k)); assert(k == (d, k.1, val(x.l[k.1])));
    assert(q.count((d, k.1, val(x.l[k.1]))) <= 1);
    assert forall|e: QE| #[trigger] r.count(e) > 0 && e.0 == d implies entry_ok(g, d, y, k.2, e) by { assert(q.count(e) > 0); assert(entry_ok(g, d, x, lo, e)); }
    assert forall|u: int| 0 <= u < g.n && fin(#[trigger] y.l[u]) implies r.count((d, u, val(y.l[u]))) <= 1 by { assert(q.count((d, u, val(x.l[u]))) <= 1); }
    if full { assert forall|u: int| 0 <= u < g.n && fin(#[trigger] y.l[u]) implies y.st[u] || pending(d, y.l, r, u) by { assert(x.st[u] || pending(d, x.l, q, u)); } }
    assert forall|u: int| 0 <= u < g.n && #[trigger] y.st[u] implies settled_ok(g, d, y, k.2, best, k.1, u) by { if u != k.1 { assert(x.st[u]); assert(settled_ok(g, d, x, lo, best, -1, u)); } }
    assert forall|u: int| 0 <= u < g.n implies pred_ok(g, d, y, u) && #[trigger] y.tm[u] < clk by { assert(x.tm[u] < clk); }
    assert forall|u: int| 0 <= u < g.n && fin(#[trigger] y.l[u]) implies u == g.root(d) || y.st[g.root(d)] by { assert(u == g.root(d) || x.st[g.root(d)]); }
}
/// the current node's edges have all been looked at, or it is more expensive than the best meeting
pub proof fn lem_done(g: Net, d: int, x: D, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, cur: int, full: bool)
    requires dinv(g, d, x, q, lo, clk, best, cur, full), relaxed(g, d, x.l, cur) || (best is Some && best->0 < val(x.l[cur])),
    ensures dinv(g, d, x, q, lo, clk, best, -1, full),
{ assert forall|u: int| 0 <= u < g.n && #[trigger] x.st[u] implies settled_ok(g, d, x, lo, best, -1, u) by { assert(settled_ok(g, d, x, lo, best, cur, u)); } }
/// a cheaper meeting
pub proof fn lem_best(g: Net, d: int, x: D, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, b2: Option<real>, cur: int, full: bool, full2: bool)
    requires dinv(g, d, x, q, lo, clk, best, cur, full), best is Some ==> b2 is Some && b2->0 <= best->0, full2 ==> full,
    ensures dinv(g, d, x, q, lo, clk, b2, cur, full2),
{ assert forall|u: int| 0 <= u < g.n && #[trigger] x.st[u] implies settled_ok(g, d, x, lo, b2, cur, u) by { assert(settled_ok(g, d, x, lo, best, cur, u)); } }
/// pops of the other direction
pub proof fn lem_other_pop(g: Net, d: int, x: D, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, full: bool, k: QE)
    requires dinv(g, d, x, q, lo, clk, best, -1, full), q.count(k) > 0, forall|e: QE| #[trigger] q.count(e) > 0 ==> k.2 <= e.2, lo <= k.2, k.0 != d
    ensures dinv(g, d, x, q.remove(k), k.2, clk, best, -1, full)
{ lem_pop_stale(g, d, x, q, lo, clk, best, full, k); }
// ---------------------------------------------------------------- what the search has found when it stops
/// nodes settled from both sides are considered
pub open spec fn met(g: Net, x: D, y: D, best: Option<real>) -> bool {
    forall|v: int| 0 <= v < g.n && #[trigger] x.st[v] && y.st[v] ==> best is Some && best->0 <= val(x.l[v]) + val(y.l[v]) }
pub open spec fn over(q: Multiset<QE>, lo: real, best: Option<real>) -> bool { (forall|e: QE| #[trigger] q.count(e) > 0 ==> best is Some && best->0 < e.2) }
pub proof fn lem_end_d(g: Net, d: int, x: D, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, es: Seq<int>, v: int)
    requires g.wf(), d == 0 || d == 1, dinv(g, d, x, q, lo, clk, best, -1, true), over(q, lo, best), g.walk(d, g.root(d), es, v),
    ensures (0 <= v < g.n && x.st[v] && fin(x.l[v]) && val(x.l[v]) <= g.cost(es)) || (best is Some && best->0 <= g.cost(es))
    decreases es.len()
{
    if es.len() == 0 {
        assert(fin(x.l[v])); assert(x.st[v] || pending(d, x.l, q, v));
    } else {
        let e = es.last(); let u = g.tail(d, e);
        lem_end_d(g, d, x, q, lo, clk, best, es.drop_last(), u);
        assert(g.w[e] >= 0real);
        if !(best is Some && best->0 <= g.cost(es)) {
            assert(settled_ok(g, d, x, lo, best, -1, u)); assert(g.usable(d, e) && g.tail(d, e) == u); assert(relaxed_by(g, d, x.l, u, e));
            assert(0 <= v < g.n); assert(fin(x.l[v])); assert(x.st[v] || pending(d, x.l, q, v));
        }
    }
}
pub proof fn lem_end(g: Net, x: D, y: D, q: Multiset<QE>, lo: real, clk: int, best: Option<real>, ef: Seq<int>, eb: Seq<int>, v: int)
    requires g.wf(), dinv(g, 0, x, q, lo, clk, best, -1, true), dinv(g, 1, y, q, lo, clk, best, -1, true), over(q, lo, best), met(g, x, y, best),
        g.walk(0, g.s, ef, v), g.walk(1, g.t, eb, v),
    ensures best is Some && best->0 <= g.cost(ef) + g.cost(eb),
{
    lem_end_d(g, 0, x, q, lo, clk, best, ef, v); lem_end_d(g, 1, y, q, lo, clk, best, eb, v);
    lem_cost_nonneg(g, 0, g.s, ef, v); lem_cost_nonneg(g, 1, g.t, eb, v);
}
// ---------------------------------------------------------------- plain search: after the first meeting nothing is pushed any more
pub open spec fn opt(g: Net, v: int, c: real) -> bool { forall|es: Seq<int>| #[trigger] g.walk(0, g.s, es, v) ==> c <= g.cost(es) }
pub open spec fn wit(g: Net, lf: Seq<F64>, lb: Seq<F64>, q: Multiset<QE>, c: real, v: int, e: real) -> bool {
    q.count((0, v, e)) > 0 && 0 <= v < g.n && lf[v]@ == Ext::Fin(e) && opt(g, v, e) && fin(lb[v]) && e + val(lb[v]) <= c }
pub open spec fn covered(g: Net, lf: Seq<F64>, lb: Seq<F64>, q: Multiset<QE>, m: real, es: Seq<int>) -> bool {
    m <= g.cost(es) || exists|v: int, e: real| wit(g, lf, lb, q, g.cost(es), v, e) }
pub open spec fn frontier(g: Net, lf: Seq<F64>, lb: Seq<F64>, q: Multiset<QE>, m: real) -> bool {
    forall|es: Seq<int>| #[trigger] g.walk(0, g.s, es, g.t) ==> covered(g, lf, lb, q, m, es) }
/// labels are exact up to the cost of the cheapest pending entry
pub proof fn lem_exact(g: Net, d: int, x: D, q: Multiset<QE>, lo: real, clk: int, es: Seq<int>, v: int, c: real)
    requires g.wf(), d == 0 || d == 1, dinv(g, d, x, q, lo, clk, None, -1, true), g.walk(d, g.root(d), es, v), forall|e: QE| #[trigger] q.count(e) > 0 ==> c <= e.2,
    ensures (0 <= v < g.n && fin(x.l[v]) && val(x.l[v]) <= g.cost(es)) || c <= g.cost(es),
    decreases es.len()
{
    if es.len() == 0 { } else {
        let e = es.last(); let u = g.tail(d, e);
        lem_exact(g, d, x, q, lo, clk, es.drop_last(), u, c);
        assert(g.w[e] >= 0real);
        if !(c <= g.cost(es)) {
            assert(x.st[u] || pending(d, x.l, q, u));
            assert(x.st[u]); assert(settled_ok(g, d, x, lo, None, -1, u)); assert(g.usable(d, e)); assert(relaxed_by(g, d, x.l, u, e));
        }
    }
}
pub open spec fn splits(g: Net, x: D, es: Seq<int>, z: int, y: int, a: Seq<int>, b: Seq<int>) -> bool {
    0 <= y < g.n && !x.st[y] && fin(x.l[y]) && g.walk(0, g.s, a, y) && g.walk(0, y, b, z) && g.cost(a) + g.cost(b) == g.cost(es) && val(x.l[y]) <= g.cost(a) }
/// a walk to an unsettled node passes a first unsettled node, whose label is at most the cost of the walk so far;
/// a walk to a settled node either does, or the node's label is at most its cost
pub proof fn lem_first(g: Net, x: D, q: Multiset<QE>, lo: real, clk: int, es: Seq<int>, z: int) -> (r: (int, Seq<int>, Seq<int>))
    requires g.wf(), dinv(g, 0, x, q, lo, clk, None, -1, true), g.walk(0, g.s, es, z),
    ensures 0 <= z < g.n, splits(g, x, es, z, r.0, r.1, r.2) || (x.st[z] && fin(x.l[z]) && val(x.l[z]) <= g.cost(es)),
    decreases es.len()
{
    if es.len() == 0 {
        assert(es =~= Seq::<int>::empty());
        let o = Seq::<int>::empty(); assert(g.walk(0, z, o, z)); assert(g.cost(o) == 0real);
        (z, o, o)
    } else {
        let e = es.last(); let u = g.tail(0, e);
        let (y, a, b) = lem_first(g, x, q, lo, clk, es.drop_last(), u);
        if splits(g, x, es.drop_last(), u, y, a, b) { lem_push(g, 0, y, b, e); (y, a, b.push(e)) } else {
            assert(settled_ok(g, 0, x, lo, None, -1, u)); assert(g.usable(0, e)); assert(relaxed_by(g, 0, x.l, u, e));
            let o = Seq::<int>::empty(); assert(g.walk(0, z, o, z)); assert(g.cost(o) == 0real);
            (z, es, o)
        }
    }
}
/// number of labels below c
pub open spec fn below(l: Seq<F64>, c: real, k: int) -> nat decreases k { if k <= 0 { 0 } else { below(l, c, k - 1) + (if fin(l[k - 1]) && val(l[k - 1]) < c { 1nat } else { 0 }) } }
pub proof fn lem_below(l: Seq<F64>, c: real, b: real, k: int, i: int) requires b < c, 0 <= k <= l.len(), 0 <= i < k, fin(l[i]), b <= val(l[i]) < c
    ensures below(l, b, k) < below(l, c, k) decreases k
{ if i < k - 1 { lem_below(l, c, b, k - 1, i); } else { lem_below_le(l, c, b, k - 1); } }
pub proof fn lem_below_le(l: Seq<F64>, c: real, b: real, k: int) requires b <= c ensures below(l, b, k) <= below(l, c, k) decreases k { if k > 0 { lem_below_le(l, c, b, k - 1); } }
/// from an unsettled labelled node one gets to one with an optimal label, without loss
pub proof fn lem_opt(g: Net, x: D, q: Multiset<QE>, lo: real, clk: int, y: int, r: Seq<int>, z: int) -> (o: (int, Seq<int>))
    requires g.wf(), dinv(g, 0, x, q, lo, clk, None, -1, true), 0 <= y < g.n, !x.st[y], fin(x.l[y]), g.walk(0, y, r, z),
    ensures 0 <= o.0 < g.n, !x.st[o.0], fin(x.l[o.0]), opt(g, o.0, val(x.l[o.0])), g.walk(0, o.0, o.1, z), val(x.l[o.0]) + g.cost(o.1) <= val(x.l[y]) + g.cost(r),
    decreases below(x.l, val(x.l[y]), g.n)
{
    if opt(g, y, val(x.l[y])) { (y, r) } else {
        let es = choose|es: Seq<int>| #[trigger] g.walk(0, g.s, es, y) && !(val(x.l[y]) <= g.cost(es));
        let (y1, a, b) = lem_first(g, x, q, lo, clk, es, y);
        lem_cost_nonneg(g, 0, y1, b, y);
        lem_concat(g, 0, y1, b, y, r, z);
        lem_below(x.l, val(x.l[y]), val(x.l[y1]), g.n, y1);
        lem_opt(g, x, q, lo, clk, y1, b + r, z)
    }
}
/// the first meeting: k is the entry just taken out, whose node is settled from the other side
pub proof fn lem_meet(g: Net, x: D, y: D, q: Multiset<QE>, lo: real, clk: int, k: QE, m: real)
    requires g.wf(), !g.ch, dinv(g, 0, x, q, lo, clk, None, -1, true), dinv(g, 1, y, q, lo, clk, None, -1, true), met(g, x, y, None),
        q.count(k) > 0, forall|e: QE| #[trigger] q.count(e) > 0 ==> k.2 <= e.2, lo <= k.2, k.0 == 0 || k.0 == 1,
        k.2 <= val((if k.0 == 0 { x } else { y }).l[k.1]), (if k.0 == 0 { y } else { x }).st[k.1], m == val(x.l[k.1]) + val(y.l[k.1]),
    ensures frontier(g, x.l, y.l, q.remove(k), m),
{
    assert(entry_ok(g, k.0, if k.0 == 0 { x } else { y }, lo, k));
    assert(m <= 2real * k.2) by { if k.0 == 0 { assert(settled_ok(g, 1, y, lo, None, -1, k.1)); } else { assert(settled_ok(g, 0, x, lo, None, -1, k.1)); } }
    assert forall|es: Seq<int>| #[trigger] g.walk(0, g.s, es, g.t) implies covered(g, x.l, y.l, q.remove(k), m, es) by {
        lem_cost_nonneg(g, 0, g.s, es, g.t);
        let (v, a, b) = lem_first(g, x, q, lo, clk, es, g.t);
        if splits(g, x, es, g.t, v, a, b) {
            let (u, r) = lem_opt(g, x, q, lo, clk, v, b, g.t);
            let e = val(x.l[u]);
            assert(x.st[u] || pending(0, x.l, q, u)); assert(k.2 <= e);
            lem_rev(g, 0, u, r, g.t);
            lem_exact(g, 1, y, q, lo, clk, r.reverse(), u, k.2);
            if !(m <= g.cost(es)) {
                assert(fin(y.l[u]) && val(y.l[u]) <= g.cost(r));
                assert(q.count((0, u, e)) > 0);
                assert(wit(g, x.l, y.l, q, g.cost(es), u, e));
                if k == (0int, u, e) { assert(false); }
                assert(q.remove(k).count((0, u, e)) > 0);
                assert(wit(g, x.l, y.l, q.remove(k), g.cost(es), u, e));
            }
        } else {
            // the destination is settled forwards
            assert(fin(y.l[g.t]));
            assert(y.st[g.t] || pending(1, y.l, q, g.t));
        }
    }
}
/// after that: taking out an entry
pub proof fn lem_front_pop(g: Net, lf: Seq<F64>, lb: Seq<F64>, q: Multiset<QE>, m: real, k: QE, m2: real)
    requires frontier(g, lf, lb, q, m), m2 <= m, q.count(k) > 0, labels_nonneg(lb), lb.len() == g.n,
        // it is stale, too expensive, or considered
        k.0 != 0 || !(lf[k.1]@ == Ext::Fin(k.2)) || m2 <= k.2 || (fin(lb[k.1]) ==> m2 <= k.2 + val(lb[k.1])),
    ensures frontier(g, lf, lb, q.remove(k), m2),
{
    assert forall|es: Seq<int>| #[trigger] g.walk(0, g.s, es, g.t) implies covered(g, lf, lb, q.remove(k), m2, es) by {
        assert(covered(g, lf, lb, q, m, es));
        if !(m <= g.cost(es)) {
            let (v, e) = choose|v: int, e: real| wit(g, lf, lb, q, g.cost(es), v, e);
            if k == (0int, v, e) { assert(m2 <= g.cost(es)) by { assert(val(lb[v]) >= 0real); } } else { assert(wit(g, lf, lb, q.remove(k), g.cost(es), v, e)); }
        }
    }
}
pub open spec fn labels_nonneg(l: Seq<F64>) -> bool { forall|u: int| 0 <= u < l.len() && fin(#[trigger] l[u]) ==> val(l[u]) >= 0real }
/// after that: an improved label
pub proof fn lem_front_label(g: Net, d: int, lf: Seq<F64>, lb: Seq<F64>, q: Multiset<QE>, m: real, v: int, c: F64)
    requires frontier(g, lf, lb, q, m), d == 0 || d == 1, lf.len() == g.n, lb.len() == g.n, 0 <= v < g.n, fin(c), has_walk(g, d, v, val(c)), elt(c@, (if d == 0 { lf } else { lb })[v]@),
    ensures d == 0 ==> frontier(g, lf.update(v, c), lb, q, m), d == 1 ==> frontier(g, lf, lb.update(v, c), q, m),
{
    let lf2 = if d == 0 { lf.update(v, c) } else { lf }; let lb2 = if d == 0 { lb } else { lb.update(v, c) };
    assert forall|es: Seq<int>| #[trigger] g.walk(0, g.s, es, g.t) implies covered(g, lf2, lb2, q, m, es) by {
        assert(covered(g, lf, lb, q, m, es));
        if !(m <= g.cost(es)) {
            let (u, e) = choose|u: int, e: real| wit(g, lf, lb, q, g.cost(es), u, e);
            if d == 0 && u == v { let p = choose|p: Seq<int>| #[trigger] g.walk(0, g.s, p, v) && g.cost(p) <= val(c); assert(e <= g.cost(p)); }
            assert(wit(g, lf2, lb2, q, g.cost(es), u, e));
        }
    }
}
pub proof fn lem_front_end(g: Net, lf: Seq<F64>, lb: Seq<F64>, q: Multiset<QE>, m: real, es: Seq<int>)
    requires frontier(g, lf, lb, q, m), labels_nonneg(lb), lb.len() == g.n, forall|e: QE| #[trigger] q.count(e) > 0 ==> m < e.2, g.walk(0, g.s, es, g.t)
    ensures m <= g.cost(es)
{ assert(covered(g, lf, lb, q, m, es)); if !(m <= g.cost(es)) { let (v, e) = choose|v: int, e: real| wit(g, lf, lb, q, g.cost(es), v, e); assert(q.count((0, v, e)) > 0); assert(val(lb[v]) >= 0real); } }
