// ---------------------------------------------------------------- src/io/parsing/routing/routes.rs
@@item src/configs/routing.rs :: Config [as=RoutingConfig; drop=routing_algo,alphas,tolerated_scales]
@@item src/network/routes.rs :: RoutePair [derive=Copy, Clone]
use core::ops::Range;
pub open spec fn rfits(f: Seq<int>) -> bool { counts_of(f).len() >= 1 ==> head(f) + counts_of(f).last() <= usize::MAX }
/// a route line: source, destination, count
pub open spec fn route_ok(w: Seq<int>) -> bool { w.len() == 3 && p_i64(w[0]) is Some && p_i64(w[1]) is Some && p_usize(w[2]) is Some }
pub open spec fn route_of(w: Seq<int>) -> (RoutePair<i64>, usize) { (RoutePair { src: p_i64(w[0])->0, dst: p_i64(w[1])->0 }, p_usize(w[2])->0) }
pub open spec fn routes_in(c: Seq<int>, lo: int, hi: int, n: int) -> Seq<(RoutePair<i64>, usize)> decreases n { if n <= 0 { Seq::<(RoutePair<i64>, usize)>::empty() } else if within(c, lo, hi, n - 1) { routes_in(c, lo, hi, n - 1).push(route_of(words(c[n - 1]))) } else { routes_in(c, lo, hi, n - 1) } }
pub open spec fn routes_ok(c: Seq<int>, lo: int, hi: int, n: int) -> bool { forall|k: int| 0 <= k < n && #[trigger] within(c, lo, hi, k) ==> route_ok(words(c[k])) }
@@item src/io/parsing/routing/routes.rs :: Parser
impl Parser {
@@fn src/io/parsing/routing/routes.rs :: Parser::new
@@end
@@fn src/io/parsing/routing/routes.rs :: Parser as super::Parsing::preprocess [map=configs::routing::Config>RoutingConfig,str>Str]
%rw: OpenOptions::new().read(true).open(route_pairs_file) => open_file(route_pairs_file)
%spec
    requires cfg.route_pairs_file is Some, readable(cfg.route_pairs_file->0), rfits(flines(cfg.route_pairs_file->0)),
    ensures r is Ok == (counts_of(flines(cfg.route_pairs_file->0)).len() >= 1),
        r is Ok ==> ({ let f = flines(cfg.route_pairs_file->0); final(self).route_lines.start == head(f) && final(self).route_lines.end == head(f) + counts_of(f).last() }),
%start
    let ghost c = content(cfg.route_pairs_file->0); let ghost f = flines(cfg.route_pairs_file->0);
%loop 0
    invariant_except_break line_number == fl(c, i_0 as int).len(),
    invariant c == content(cfg.route_pairs_file->0), f == flines(cfg.route_pairs_file->0), i_0 <= c.len(), s_0@.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] s_0@[i]) is Ok && code(s_0@[i]->Ok_0) == c[i],
        counts@ == cnts(f, line_number as int), 0 <= line_number <= f.len(), line_number <= c.len(),
        !is_taking_counts ==> fs(f, 0) == fs(f, line_number as int),
        is_taking_counts ==> fe(f, fs(f, 0)) == fe(f, line_number as int),
    ensures line_number == head(f),
    decreases c.len() - i_0,
%loop 0 start
    proof { lem_fl(c, x_0 as int, c.len() as int); lem_fl(c, x_0 + 1, c.len() as int); if functional(c[x_0 as int]) { assert(fl(c, x_0 + 1)[line_number as int] == c[x_0 as int]); assert(f[line_number as int] == c[x_0 as int]); } }
@@end
@@fn src/io/parsing/routing/routes.rs :: Parser as super::Parsing::parse_route_pairs [map=configs::routing::Config>RoutingConfig,str>Str,String>Msg]
%rw: OpenOptions::new().read(true).open(route_pairs_file) => open_file(route_pairs_file)
%rw: self.route_lines.contains(&line_number) => range_has(&self.route_lines, line_number)
%rw: Vec::with_capacity(self.route_lines.len()) => Vec::new()
%spec
    requires cfg.route_pairs_file is Some, readable(cfg.route_pairs_file->0),
    ensures ({ let c = content(cfg.route_pairs_file->0); let (lo, hi) = (self.route_lines.start as int, self.route_lines.end as int);
        &&& r is Ok == routes_ok(c, lo, hi, c.len() as int)
        &&& r is Ok ==> r->Ok_0@ == routes_in(c, lo, hi, c.len() as int)
    }),
%start
    let ghost c = content(cfg.route_pairs_file->0); let ghost lo = self.route_lines.start as int; let ghost hi = self.route_lines.end as int;
%loop 0
    invariant c == content(cfg.route_pairs_file->0), lo == self.route_lines.start, hi == self.route_lines.end, i_0 <= c.len(), s_0@.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] s_0@[i]) is Ok && code(s_0@[i]->Ok_0) == c[i],
        line_number == fl(c, i_0 as int).len(), line_number <= i_0, route_pairs@ == routes_in(c, lo, hi, i_0 as int), routes_ok(c, lo, hi, i_0 as int),
    decreases c.len() - i_0,
%loop 0 start
    proof { assert(within(c, lo, hi, x_0 as int) == (lo <= line_number < hi)); }
@@end
@@fn src/io/parsing/routing/mod.rs :: Parsing::parse [id=routing::Parsing::parse; map=configs::routing::Config>RoutingConfig]
%spec
    requires cfg.route_pairs_file is Some, readable(cfg.route_pairs_file->0), rfits(flines(cfg.route_pairs_file->0)),
    ensures ({ let (c, f) = (content(cfg.route_pairs_file->0), flines(cfg.route_pairs_file->0)); let hi = head(f) + counts_of(f).last();
        &&& r is Ok == (counts_of(f).len() >= 1 && routes_ok(c, head(f), hi, c.len() as int))
        &&& r is Ok ==> r->Ok_0@ == routes_in(c, head(f), hi, c.len() as int)
    }),
@@end
}
fn must_fail_routes(p: &mut Parser, cfg: &RoutingConfig) -> (r: Result<Vec<(RoutePair<i64>, usize)>, Msg>)
    requires cfg.route_pairs_file is Some, readable(cfg.route_pairs_file->0), rfits(flines(cfg.route_pairs_file->0)), counts_of(flines(cfg.route_pairs_file->0)).len() >= 1
    ensures r is Err,
{ p.parse(cfg) }
