// ---------------------------------------------------------------- src/io/writing/routing/random_or_all.rs
@@item src/configs/writing/routing.rs :: Category [as=RoutesCategory]
@@item src/configs/writing/routing.rs :: Config [as=WRoutes; map=Category>RoutesCategory]
@@item src/io/writing/routing/random_or_all.rs :: Writer [as=RWriter]
// dependencies (assumed contracts)
#[verifier::external_body] pub struct HashSet { x: u8 }
impl HashSet {
    pub uninterp spec fn view(&self) -> Set<(int, int)>;
    #[verifier::external_body] pub fn new() -> (r: HashSet) ensures r@ == Set::<(int, int)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, p: (NodeIdx, NodeIdx)) -> (r: bool) ensures r == !old(self)@.contains((p.0.0 as int, p.1.0 as int)), final(self)@ == old(self)@.insert((p.0.0 as int, p.1.0 as int)) { unimplemented!() }
}
/// a generator and a uniform distribution: any sequence of numbers below the bound, so the result holds for every seed
#[verifier::external_body] pub struct Pcg32 { x: u8 }
#[verifier::external_body] pub fn pcg_seed(seed: u64) -> Pcg32 { unimplemented!() }
pub struct Die { pub n: usize }
pub fn die_below(n: usize) -> (r: Die) requires n > 0 ensures r.n == n { Die { n } }
impl Die { #[verifier::external_body] pub fn sample(&self, rng: &mut Pcg32) -> (r: usize) ensures r < self.n { unimplemented!() } }
/// crate progressing: counts successes and attempts
pub struct Progress { pub successes: usize, pub attempts: usize }
pub struct BernoulliBar { pub s: usize, pub a: usize }
impl BernoulliBar {
    pub fn with_goal(n: usize) -> (r: Self) ensures r.s == 0, r.a == 0 { BernoulliBar { s: 0, a: 0 } }
    pub fn timed(self) -> (r: Self) ensures r == self { self }
    pub fn progress(&self) -> (r: Progress) ensures r.successes == self.s, r.attempts == self.a { Progress { successes: self.s, attempts: self.a } }
    pub fn add(&mut self, b: bool) requires old(self).s < usize::MAX, old(self).a < usize::MAX ensures final(self).a == old(self).a + 1, final(self).s == old(self).s + (if b { 1int } else { 0 }) { self.a = self.a + 1; if b { self.s = self.s + 1; } }
}
pub type Pair = (i64, i64);
pub open spec fn plt(a: Pair, b: Pair) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
pub open spec fn no_dup(s: Seq<Pair>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
#[verifier::external_body] pub fn vec_sort(v: &mut Vec<Pair>)
    ensures final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> plt(#[trigger] final(v)@[i], #[trigger] final(v)@[j]) || final(v)@[i] == final(v)@[j],
        forall|x: Pair| #[trigger] final(v)@.contains(x) == old(v)@.contains(x), no_dup(old(v)@) ==> no_dup(final(v)@),
{ unimplemented!() }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
// ---------------------------------------------------------------- what a file of routes holds
pub open spec fn rnet(g: Graph, c: RoutingConfig, u: int, v: int) -> Net { net_of(&g, c.alphas@, is_ch(&c), u, v) }
/// there is a way from u to v
pub open spec fn reach(g: Graph, c: RoutingConfig, u: int, v: int) -> bool { exists|es: Seq<int>| #[trigger] rnet(g, c, u, v).plain().walk(0, u, es, v) }
/// there is one the search may use (with CH: first up, then down)
pub open spec fn meets(n: Net) -> bool { exists|x: int, ef: Seq<int>, eb: Seq<int>| #[trigger] n.walk(0, n.s, ef, x) && #[trigger] n.walk(1, n.t, eb, x) }
pub open spec fn conn(g: Graph, c: RoutingConfig, u: int, v: int) -> bool { nonneg(c.alphas@) && (if is_ch(&c) { meets(rnet(g, c, u, v)) } else { reach(g, c, u, v) }) }
pub open spec fn pid(g: Graph, u: int, v: int) -> Pair { (g.node_ids@[u], g.node_ids@[v]) }
/// a route between two different nodes
pub open spec fn route(g: Graph, c: RoutingConfig, u: int, v: int) -> bool { 0 <= u < g.n() && 0 <= v < g.n() && u != v && conn(g, c, u, v) }
pub open spec fn from_pairs(g: Graph, c: RoutingConfig, p: Pair) -> bool { exists|u: int, v: int| #[trigger] route(g, c, u, v) && reach(g, c, u, v) && p == pid(g, u, v) }
pub open spec fn only_routes(g: Graph, c: RoutingConfig, s: Seq<Pair>) -> bool { forall|i: int| 0 <= i < s.len() ==> from_pairs(g, c, #[trigger] s[i]) }
pub open spec fn all_routes(g: Graph, c: RoutingConfig, s: Seq<Pair>) -> bool { forall|u: int, v: int| #[trigger] route(g, c, u, v) ==> s.contains(pid(g, u, v)) }
pub open spec fn ascending(s: Seq<Pair>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> plt(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn rows(s: Seq<Pair>, n: int) -> Seq<Tok> decreases n { if n <= 0 { Seq::<Tok>::empty() } else { rows(s, n - 1) + seq![Tok::I(s[n - 1].0), Tok::Lit(STR(" ") as int), Tok::I(s[n - 1].1), Tok::Lit(STR(" ") as int), Tok::U(1), Tok::Nl] } }
pub open spec fn route_head(g: Graph, seed: u64, k: int) -> Seq<Tok> { seq![
    Tok::Lit(STR("# graph-file: ") as int), Tok::Any, Tok::Nl, Tok::Lit(STR("# node-count: ") as int), Tok::U(g.n() as usize), Tok::Nl, Tok::Lit(STR("# edge-count: ") as int), Tok::U(g.m() as usize), Tok::Nl, Tok::Nl,
    Tok::Lit(STR("# route-count") as int), Tok::Nl, Tok::U(k as usize), Tok::Nl, Tok::Nl,
    Tok::Lit(STR("# random routes: (src-id dst-id count) as (i64, i64, usize)") as int), Tok::Nl, Tok::Lit(STR("# seed: ") as int), Tok::U(seed as usize), Tok::Nl] }
pub open spec fn good_routes(g: Graph, c: RoutingConfig, max: usize, s: Seq<Pair>) -> bool {
    &&& ascending(s) && only_routes(g, c, s) && s.len() <= max
    &&& g.n() * g.n() <= max ==> all_routes(g, c, s)
}
pub open spec fn is_route_file(g: Graph, c: RoutingConfig, seed: u64, max: usize, l: Seq<Tok>, s: Seq<Pair>) -> bool { good_routes(g, c, max, s) && l == route_head(g, seed, s.len() as int) + rows(s, s.len() as int) }
/// the pair's nodes have been processed
pub open spec fn src_in(g: Graph, c: RoutingConfig, seen: Set<(int, int)>, p: Pair) -> bool { exists|u: int, v: int| #[trigger] route(g, c, u, v) && reach(g, c, u, v) && seen.contains((u, v)) && p == pid(g, u, v) }
pub open spec fn found_ok(g: Graph, c: RoutingConfig, seen: Set<(int, int)>, s: Seq<Pair>) -> bool {
    &&& no_dup(s) && forall|i: int| 0 <= i < s.len() ==> src_in(g, c, seen, #[trigger] s[i])
    &&& forall|u: int, v: int| #[trigger] route(g, c, u, v) && seen.contains((u, v)) ==> s.contains(pid(g, u, v))
}
pub open spec fn ord(n: int, u: int, v: int) -> int { u * n + v }
/// the first a pairs have been processed
pub open spec fn enumerated(n: int, seen: Set<(int, int)>, a: int) -> bool { forall|u: int, v: int| 0 <= u < n && 0 <= v < n ==> #[trigger] seen.contains((u, v)) == (ord(n, u, v) < a) }
proof fn lem_answer(g: Graph, c: RoutingConfig, u: int, v: int)
    ensures forall|r: Option<Seq<int>>| #[trigger] answers(rnet(g, c, u, v), r) && nonneg(c.alphas@) ==> (r is Some == conn(g, c, u, v)) && (r is Some ==> reach(g, c, u, v)), !nonneg(c.alphas@) ==> !conn(g, c, u, v), rnet(g, c, u, v) == net_of(&g, c.alphas@, is_ch(&c), u, v)
{
    let n = rnet(g, c, u, v);
    assert forall|r: Option<Seq<int>>| #[trigger] answers(n, r) && nonneg(c.alphas@) implies (r is Some == conn(g, c, u, v)) && (r is Some ==> reach(g, c, u, v)) by {
        if r is Some { assert(n.plain().walk(0, u, r->0, v)); if !n.ch { } else { assert(pairs(n, r->0)); assert(meets(n)); } }
        else { if !n.ch { assert(n.plain() == n); } }
    }
}
proof fn lem_div(n: int, a: int, u: int, v: int) requires 0 <= a < n * n, n > 0, 0 <= v < n ensures 0 <= a / n < n, 0 <= a % n < n, (ord(n, u, v) == a) == (u == a / n && v == a % n)
{
    assert(0 <= a / n < n && 0 <= a % n < n && (a / n) * n + a % n == a) by (nonlinear_arith) requires 0 <= a < n * n, n > 0;
    if u * n + v == a { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, n, u, v); }
}
proof fn lem_in_square(n: int, u: int, v: int) requires 0 <= u < n, 0 <= v < n ensures ord(n, u, v) < n * n { assert(u * n + v < n * n) by (nonlinear_arith) requires 0 <= u < n, 0 <= v < n; }
proof fn lem_enum(n: int, seen: Set<(int, int)>, a: int) requires 0 <= a < n * n, n > 0, enumerated(n, seen, a) ensures enumerated(n, seen.insert((a / n, a % n)), a + 1)
{ let t = seen.insert((a / n, a % n)); assert forall|u: int, v: int| 0 <= u < n && 0 <= v < n implies #[trigger] t.contains((u, v)) == (ord(n, u, v) < a + 1) by { lem_div(n, a, u, v); assert(seen.contains((u, v)) == (ord(n, u, v) < a)); } }
proof fn lem_seen(g: Graph, c: RoutingConfig, seen: Set<(int, int)>, s: Seq<Pair>, u: int, v: int)
    requires g.wf(), found_ok(g, c, seen, s), 0 <= u < g.n(), 0 <= v < g.n()
    ensures !route(g, c, u, v) || seen.contains((u, v)) ==> found_ok(g, c, seen.insert((u, v)), s),
        route(g, c, u, v) && reach(g, c, u, v) && !seen.contains((u, v)) ==> found_ok(g, c, seen.insert((u, v)), s.push(pid(g, u, v))),
{
    let t = seen.insert((u, v));
    assert forall|i: int| 0 <= i < s.len() implies src_in(g, c, t, #[trigger] s[i]) by { let (x, y) = choose|x: int, y: int| #[trigger] route(g, c, x, y) && reach(g, c, x, y) && seen.contains((x, y)) && s[i] == pid(g, x, y); assert(route(g, c, x, y) && t.contains((x, y))); }
    if route(g, c, u, v) && reach(g, c, u, v) && !seen.contains((u, v)) {
        let p = pid(g, u, v); let w = s.push(p);
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies #[trigger] w[i] != #[trigger] w[j] by {
            if j == s.len() { assert(src_in(g, c, seen, s[i])); let (x, y) = choose|x: int, y: int| #[trigger] route(g, c, x, y) && reach(g, c, x, y) && seen.contains((x, y)) && s[i] == pid(g, x, y);
                if w[i] == p { lem_same(g, x, u); lem_same(g, y, v); } } else { assert(w[i] == s[i] && w[j] == s[j]); } }
        assert forall|i: int| 0 <= i < w.len() implies src_in(g, c, t, #[trigger] w[i]) by { if i < s.len() { assert(w[i] == s[i]); } else { assert(route(g, c, u, v) && t.contains((u, v))); } }
        assert forall|x: int, y: int| #[trigger] route(g, c, x, y) && t.contains((x, y)) implies w.contains(pid(g, x, y)) by {
            if (x, y) == (u, v) { assert(w[s.len() as int] == p); } else { assert(s.contains(pid(g, x, y))); let k = choose|k: int| 0 <= k < s.len() && s[k] == pid(g, x, y); assert(w[k] == s[k]); } }
    }
}
proof fn lem_same(g: Graph, x: int, u: int) requires g.wf(), 0 <= x < g.n(), 0 <= u < g.n(), g.node_ids@[x] == g.node_ids@[u] ensures x == u { if x < u { assert(g.node_ids@[x] < g.node_ids@[u]); } else if u < x { assert(g.node_ids@[u] < g.node_ids@[x]); } }
proof fn lem_good_routes(g: Graph, c: RoutingConfig, seen: Set<(int, int)>, s: Seq<Pair>, t: Seq<Pair>, max: usize)
    requires g.wf(), found_ok(g, c, seen, s), g.n() * g.n() <= max ==> enumerated(g.n(), seen, g.n() * g.n()), s.len() <= max, t.len() == s.len(), no_dup(t),
        forall|i: int, j: int| 0 <= i < j < t.len() ==> plt(#[trigger] t[i], #[trigger] t[j]) || t[i] == t[j], forall|x: Pair| #[trigger] t.contains(x) == s.contains(x),
    ensures good_routes(g, c, max, t)
{
    assert forall|i: int| 0 <= i < t.len() implies from_pairs(g, c, #[trigger] t[i]) by { assert(t.contains(t[i])); assert(s.contains(t[i])); let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i]; assert(src_in(g, c, seen, s[k])); }
    if g.n() * g.n() <= max { assert forall|u: int, v: int| #[trigger] route(g, c, u, v) implies t.contains(pid(g, u, v)) by { lem_in_square(g.n(), u, v); assert(seen.contains((u, v))); assert(s.contains(pid(g, u, v))); } }
}
impl RWriter {
@@fn src/io/writing/routing/random_or_all.rs :: Writer::new [id=RWriter::new; map=Writer>RWriter]
%spec
    ensures r.seed == seed, r.max_count == max_count,
@@end
@@fn src/io/writing/routing/random_or_all.rs :: Writer::write [id=RWriter::write; keepbar; map=dijkstra::Query>Query]
%sig
    fn write(&self, graph: &Graph, routing_cfg: &RoutingConfig, writing_cfg: &WRoutes) -> err::Result<Out>
%attr
    #[verifier::spinoff_prover] #[verifier::rlimit(100)]
%rw: OpenOptions::new().write(true).create_new(true).open(&writing_cfg.file) => create_new(&writing_cfg.file)
%rw: rand_pcg::Pcg32::seed_from_u64(self.seed) => pcg_seed(self.seed)
%rw: Uniform::from(0..nodes.count()) => die_below(nodes.count())
%rw: Vec::with_capacity(max_count) => Vec::<Pair>::new()
%rw: graph.cfg().map_file.display() => Disp
%rw: Ok(()) => Ok(writer)
%spec
    requires graph.wf(), metrics_ok(graph), graph.n() * graph.n() <= usize::MAX,
        forall|i: int| 0 <= i < routing_cfg.alphas@.len() ==> fin(#[trigger] routing_cfg.alphas@[i]), is_ch(routing_cfg) ==> sorted_by_level(graph),
    ensures r is Ok == !exists_at(writing_cfg.file),
        r is Ok ==> (r->Ok_0).at() == writing_cfg.file && exists|s: Seq<Pair>| #[trigger] is_route_file(*graph, *routing_cfg, self.seed, self.max_count, (r->Ok_0).log(), s),
%start
    hide(found_ok); hide(good_routes); hide(enumerated); hide(conn); hide(reach); hide(answers); hide(csr); hide(by_level); hide(rnet); hide(net_of);
    let ghost g = *graph; let ghost c = *routing_cfg; let ghost n = g.n();
%before: let num_possible_routes
    proof { assert(0 <= n * n) by (nonlinear_arith) requires n >= 0; }
%loop 0 before
    proof { reveal(found_ok); reveal(enumerated); assert(found_ok(g, c, processed_indices@, found_route_pairs@));
        assert forall|u: int, v: int| 0 <= u < n && 0 <= v < n implies #[trigger] processed_indices@.contains((u, v)) == (ord(n, u, v) < 0) by { assert(u * n + v >= 0) by (nonlinear_arith) requires 0 <= u, 0 <= v, 0 <= n; } }
%loop 0
    invariant g == *graph, c == *routing_cfg, n == g.n(), g.wf(), metrics_ok(graph), forall|i: int| 0 <= i < c.alphas@.len() ==> fin(#[trigger] c.alphas@[i]), is_ch(&c) ==> sorted_by_level(graph), nodes.node_ids == &graph.node_ids, nodes.node_coords == &graph.node_coords, nodes.node_ch_levels == &graph.node_ch_levels,
        num_possible_routes == n * n, max_count == (if n * n <= self.max_count { (n * n) as usize } else { self.max_count }), dijkstra.reusable(),
        progress_bar.s == found_route_pairs@.len(), progress_bar.s <= max_count, progress_bar.s <= progress_bar.a, progress_bar.a <= n * n,
        found_ok(g, c, processed_indices@, found_route_pairs@), n * n <= self.max_count ==> enumerated(n, processed_indices@, progress_bar.a as int),
    decreases n * n - progress_bar.a,
%loop 0 start
    let ghost seen = processed_indices@; let ghost fp = found_route_pairs@; let ghost a = progress_bar.a as int; proof { assert(n > 0) by (nonlinear_arith) requires 0 <= a < n * n, n >= 0; lem_div(n, a, 0, 0); }
%before: for (src_id, dst_id) in found_route_pairs
    let ghost h = route_head(g, self.seed, found_route_pairs@.len() as int); let ghost rp = found_route_pairs@;
    proof { assert(writer.log() =~= h); assert(h + rows(rp, 0) =~= h); }
%before: if !src_equals_dst
    let ghost (u, v) = (src_idx.0 as int, dst_idx.0 as int);
    proof { lem_answer(g, c, u, v); if n * n <= self.max_count { lem_enum(n, seen, a); } lem_seen(g, c, seen, fp, u, v); }
%end
    proof { let s = rp; assert(is_route_file(g, c, self.seed, self.max_count, out_->Ok_0.log(), s)); }
%before: found_route_pairs.sort()
    let ghost sp = found_route_pairs@; let ghost seen = processed_indices@;
%after: found_route_pairs.sort()
    proof { assert(no_dup(sp)) by { reveal(found_ok); } lem_good_routes(g, c, seen, sp, found_route_pairs@, self.max_count); }
%loop 1
    invariant s_1@ == rp, i_1 <= rp.len(), writer.at() == writing_cfg.file, writer.log() == h + rows(rp, i_1 as int),
    decreases rp.len() - i_1,
%loop 1 start
    let ghost b = writer.log();
%loop 1 end
    proof { assert(writer.log() =~= h + rows(rp, i_1 as int)); }
@@end
}
fn must_fail_rall(w: &RWriter, graph: &Graph, routing_cfg: &RoutingConfig, writing_cfg: &WRoutes) -> (r: Result<Out, Msg>)
    requires graph.wf(), metrics_ok(graph), graph.n() == 2, graph.m() == 1, routing_cfg.alphas@.len() == 0, !is_ch(routing_cfg), !exists_at(writing_cfg.file), w.max_count == 9,
    ensures false,
{ w.write(graph, routing_cfg, writing_cfg) }
@@fn src/io/writing/routing/mod.rs :: Writer::write [as=write_routes; id=write_routes; map=configs::writing::routing::Category>RoutesCategory,random_or_all::Writer>RWriter]
%sig
    fn write(graph: &Graph, routing_cfg: &RoutingConfig, writing_cfg: &WRoutes) -> err::Result<Out>
%spec
    requires graph.wf(), metrics_ok(graph), graph.n() * graph.n() <= usize::MAX,
        forall|i: int| 0 <= i < routing_cfg.alphas@.len() ==> fin(#[trigger] routing_cfg.alphas@[i]), is_ch(routing_cfg) ==> sorted_by_level(graph),
    ensures r is Ok == !exists_at(writing_cfg.file),
        r is Ok ==> (r->Ok_0).at() == writing_cfg.file && ({ let RoutesCategory::RandomOrAll { seed, max_count } = writing_cfg.category; exists|s: Seq<Pair>| #[trigger] is_route_file(*graph, *routing_cfg, seed, max_count, (r->Ok_0).log(), s) }),
@@end
