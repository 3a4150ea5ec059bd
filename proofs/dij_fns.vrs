// ---------------------------------------------------------------- src/routing/dijkstra.rs
@@item src/defaults.rs :: IS_USING_CH_LEVEL_SPEEDUP [mod=routing]
@@item src/configs/routing.rs :: RoutingAlgo [derive=Copy, Clone]
@@item src/configs/routing.rs :: Config [as=RoutingConfig; drop=route_pairs_file]
@@item src/routing/dijkstra.rs :: Query [map=Config>RoutingConfig]
@@item src/routing/dijkstra.rs :: Direction [derive=Copy, Clone]
@@item src/routing/dijkstra.rs :: CostNode
/// a pending entry: direction, node, cost
pub type QE = (int, int, real);
pub open spec fn dnum(d: Direction) -> int { match d { Direction::FWD => 0int, Direction::BWD => 1int } }
pub open spec fn qe(c: CostNode) -> QE { (dnum(c.direction), c.idx.0 as int, c.cost@->Fin_0) }
// ---------------------------------------------------------------- order of pending entries
pub open spec fn icmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn then(a: Ordering, b: Ordering) -> Ordering { match a { Ordering::Equal => b, _ => a } }
/// cheapest first, up to the accuracy; ties by node and direction
pub open spec fn entry_cmp(a: CostNode, b: CostNode) -> Option<Ordering> { match acmp(a.cost@, b.cost@) {
    Some(o) => Some(then(o, then(icmp(a.idx.0 as int, b.idx.0 as int), icmp(dnum(b.direction), dnum(a.direction))))), None => None } }
// derive(Ord) of NodeIdx and Ord of integers
pub fn node_cmp(a: &NodeIdx, b: &NodeIdx) -> (r: Ordering) ensures r == icmp(a.0 as int, b.0 as int) { if a.0 < b.0 { Less } else if a.0 > b.0 { Greater } else { Equal } }
pub fn int_cmp(a: &i32, b: &i32) -> (r: Ordering) ensures r == icmp(*a as int, *b as int) { if *a < *b { Less } else if *a > *b { Greater } else { Equal } }
impl Direction {
@@fn src/routing/dijkstra.rs :: Direction as Ord::cmp [mod=costnode; nopub; id=Direction::cmp]
%rw: self_value.cmp(&other_value) => int_cmp(&self_value, &other_value)
%spec
    ensures r == icmp(dnum(*other), dnum(*self)),
@@end
}
impl CostNode {
@@fn src/routing/dijkstra.rs :: CostNode as PartialOrd::partial_cmp [mod=costnode; nopub; id=CostNode::partial_cmp]
%rw: self.idx.cmp(&other.idx) => node_cmp(&self.idx, &other.idx)
%spec
    ensures r == entry_cmp(*self, *other),
@@end
}
pub open spec fn cheaper_or_same(a: CostNode, b: CostNode) -> bool { entry_cmp(a, b) is Some && entry_cmp(a, b)->0 != Ordering::Greater }
/// assumption on executions (listed): pending costs that compare as equal are equal, so the accuracy of Approx does not matter
pub open spec fn apart(a: CostNode, b: CostNode) -> bool { aeq(a.cost@, b.cost@) ==> a.cost@ == b.cost@ }
pub open spec fn first(p: CostNode, e: QE) -> bool { exists|c: CostNode| #[trigger] qe(c) == e && c.cost@ is Fin && cheaper_or_same(p, c) && apart(p, c) }
pub proof fn lem_first_cheapest(p: CostNode, q: Multiset<QE>) requires p.cost@ is Fin, forall|e: QE| #[trigger] q.count(e) > 0 ==> first(p, e) ensures forall|e: QE| #[trigger] q.count(e) > 0 ==> qe(p).2 <= e.2
{ assert forall|e: QE| #[trigger] q.count(e) > 0 implies qe(p).2 <= e.2 by { assert(first(p, e)); let c = choose|c: CostNode| #[trigger] qe(c) == e && c.cost@ is Fin && cheaper_or_same(p, c) && apart(p, c); assert(cheaper_or_same(p, c)); } }
// std's priority queue of reversed entries (assumed): it hands out an entry than which no other is less
pub struct Reverse<T>(pub T);
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BinaryHeap<T> { h: Vec<T> }
impl BinaryHeap<Reverse<CostNode>> {
    pub uninterp spec fn view(&self) -> Multiset<QE>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Multiset::<QE>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Multiset::<QE>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, x: Reverse<CostNode>) requires x.0.cost@ is Fin ensures final(self)@ == old(self)@.insert(qe(x.0)) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: Option<Reverse<CostNode>>)
        ensures r is None ==> old(self)@ == Multiset::<QE>::empty() && final(self)@ == old(self)@,
            r is Some ==> (r->0).0.cost@ is Fin && old(self)@.count(qe((r->0).0)) > 0 && final(self)@ == old(self)@.remove(qe((r->0).0))
                && forall|e: QE| #[trigger] old(self)@.count(e) > 0 ==> first((r->0).0, e) { unimplemented!() }
}
@@item src/routing/dijkstra.rs :: Dijkstra
pub open spec fn tail_has(s: Seq<usize>, from: int, x: int) -> bool { exists|k: int| from <= k < s.len() && #[trigger] s[k] == x }
pub open spec fn cleana(c: Seq<F64>, p: Seq<Option<EdgeIdx>>, t: Seq<usize>) -> bool {
    &&& p.len() == c.len()
    &&& forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] < c.len()
    &&& forall|i: int| 0 <= i < c.len() && !tail_has(t, 0, i) ==> #[trigger] c[i]@ == Ext::PInf
    &&& forall|i: int| 0 <= i < c.len() && !tail_has(t, 0, i) ==> #[trigger] p[i] is None
}
impl Dijkstra {
    /// what a finished query leaves behind: everything not listed as touched is clean
    pub open spec fn clean(&self, d: int) -> bool { cleana(self.costs@[d]@, self.predecessors@[d]@, self.touched@[d]@) }
    pub open spec fn reusable(&self) -> bool { self.clean(0) && self.clean(1) }
    /// the state in which a query starts; it does not depend on the past
    pub open spec fn fresh(&self, d: int, n: int) -> bool {
        &&& self.costs@[d]@.len() == n && self.predecessors@[d]@.len() == n && self.touched@[d]@.len() == 0
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.costs@[d]@[i]@ == Ext::PInf
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.predecessors@[d]@[i] is None
        &&& !self.has_found_best_meeting_node@[d]
        &&& !self.is_ch_dijkstra ==> self.is_visited@[d]@.len() == n && forall|i: int| 0 <= i < n ==> !#[trigger] self.is_visited@[d]@[i]
    }
@@fn src/routing/dijkstra.rs :: Dijkstra::new [id=Dijkstra::new]
%spec
    ensures r.reusable(),
@@end
@@fn src/routing/dijkstra.rs :: Dijkstra::fwd_idx
%spec
    ensures r == 0,
@@end
@@fn src/routing/dijkstra.rs :: Dijkstra::bwd_idx
%spec
    ensures r == 1,
@@end
@@fn src/routing/dijkstra.rs :: Dijkstra::dir_idx
%spec
    ensures r == dnum(direction),
@@end
@@fn src/routing/dijkstra.rs :: Dijkstra::opp_dir_idx
%spec
    ensures r == 1 - dnum(direction),
@@end
@@fn src/routing/dijkstra.rs :: Dijkstra::init_query
%spec
    requires old(self).reusable(),
    ensures final(self).is_ch_dijkstra == old(self).is_ch_dijkstra, final(self).fresh(0, new_len as int), final(self).fresh(1, new_len as int),
        final(self).queue@ == Multiset::<QE>::empty(),
%loop 0
        invariant i_0 <= 2, s_0@.len() == 2, s_0@[0] == Direction::FWD, s_0@[1] == Direction::BWD, self.is_ch_dijkstra == old(self).is_ch_dijkstra, self.queue == q0.queue,
            forall|d: int| 0 <= d < i_0 ==> #[trigger] self.fresh(d, new_len as int), forall|d: int| i_0 <= d < 2 ==> #[trigger] self.clean(d),
        decreases 2 - i_0,
%loop 0 before
        let ghost q0 = *self;
%loop 0 start
            let ghost pre = *self; let ghost d = dir as int;
            proof { assert(d == 0 || d == 1); assert(d == x_0); assert(self.clean(d)); assert(x_0 == 0 ==> self.clean(1)); assert(x_0 == 1 ==> self.fresh(0, new_len as int)); }
%loop 1
                invariant i_1 <= s_1@.len(), d == dir, 0 <= d <= 1, s_1@ == pre.touched@[d]@, self.touched@[d]@.len() == 0, pre.clean(d),
                    self.costs@[d]@.len() == pre.costs@[d]@.len(), self.predecessors@[d]@.len() == pre.costs@[d]@.len(),
                    self.costs@[1 - d] == pre.costs@[1 - d], self.predecessors@[1 - d] == pre.predecessors@[1 - d], self.touched@[1 - d] == pre.touched@[1 - d],
                    self.is_visited == e1.is_visited, self.has_found_best_meeting_node == e1.has_found_best_meeting_node, self.is_ch_dijkstra == e1.is_ch_dijkstra, self.queue == e1.queue,
                    forall|i: int| 0 <= i < self.costs@[d]@.len() ==> #[trigger] self.costs@[d]@[i]@ == Ext::PInf || tail_has(s_1@, i_1 as int, i),
                    forall|i: int| 0 <= i < self.costs@[d]@.len() ==> #[trigger] self.predecessors@[d]@[i] is None || tail_has(s_1@, i_1 as int, i),
                decreases s_1@.len() - i_1,
%loop 1 before
                let ghost e1 = *self;
%loop 1 end
                    proof { assert forall|j: int| tail_has(s_1@, x_1 as int, j) && j != i implies tail_has(s_1@, i_1 as int, j) by { let k = choose|k: int| x_1 <= k < s_1@.len() && #[trigger] s_1@[k] == j; assert(k != x_1); } }
%loop 2
                    invariant i_2 <= self.is_visited@[d]@.len(), d == dir, 0 <= d <= 1, self.is_visited@[d]@.len() == new_len,
                        self.is_visited@[1 - d] == pre.is_visited@[1 - d], self.costs == mid.costs, self.predecessors == mid.predecessors, self.touched == mid.touched,
                        self.has_found_best_meeting_node == mid.has_found_best_meeting_node, self.is_ch_dijkstra == mid.is_ch_dijkstra, self.queue == mid.queue,
                        forall|i: int| 0 <= i < i_2 ==> !#[trigger] self.is_visited@[d]@[i],
                    decreases new_len - i_2,
%before: if !self.is_ch_dijkstra {
            let ghost mid = *self;
            proof {
                assert forall|i: int| 0 <= i < self.costs@[d]@.len() implies #[trigger] self.costs@[d]@[i]@ == Ext::PInf by {}
                assert forall|i: int| 0 <= i < self.costs@[d]@.len() implies #[trigger] self.predecessors@[d]@[i] is None by {}
            }
%loop 0 after
            proof { assert(self.fresh(0, new_len as int)); assert(self.fresh(1, new_len as int)); }
%loop 0 end
            proof {
                assert(self.fresh(d, new_len as int));
                if d == 0 { assert(self.clean(1)); } else { assert(self.fresh(0, new_len as int)); }
            }
@@end
@@fn src/routing/dijkstra.rs :: Dijkstra::visit
%spec
    requires !old(self).is_ch_dijkstra ==> costnode.idx.0 < old(self).is_visited@[dnum(costnode.direction)]@.len(),
    ensures final(self).queue@ == old(self).queue@, final(self).costs == old(self).costs, final(self).predecessors == old(self).predecessors,
        final(self).touched == old(self).touched, final(self).has_found_best_meeting_node == old(self).has_found_best_meeting_node, final(self).is_ch_dijkstra == old(self).is_ch_dijkstra,
        final(self).is_visited@[1 - dnum(costnode.direction)] == old(self).is_visited@[1 - dnum(costnode.direction)],
        !old(self).is_ch_dijkstra ==> final(self).is_visited@[dnum(costnode.direction)]@ == old(self).is_visited@[dnum(costnode.direction)]@.update(costnode.idx.0 as int, true),
@@end
@@fn src/routing/dijkstra.rs :: Dijkstra::is_meeting_costnode [debug_assert]
%spec
    requires self.is_ch_dijkstra ==> costnode.idx.0 < self.costs@[1 - dnum(costnode.direction)]@.len(),
        !self.is_ch_dijkstra ==> costnode.idx.0 < self.is_visited@[1 - dnum(costnode.direction)]@.len() && costnode.idx.0 < self.is_visited@[dnum(costnode.direction)]@.len()
            && self.is_visited@[dnum(costnode.direction)]@[costnode.idx.0 as int],
    ensures self.is_ch_dijkstra ==> r == !(self.costs@[1 - dnum(costnode.direction)]@[costnode.idx.0 as int]@ is PInf),
        !self.is_ch_dijkstra ==> r == self.is_visited@[1 - dnum(costnode.direction)]@[costnode.idx.0 as int],
@@end
@@fn src/routing/dijkstra.rs :: Dijkstra::has_found_best_meeting_node [id=Dijkstra::has_found]
%spec
    ensures r == (self.has_found_best_meeting_node@[0] && self.has_found_best_meeting_node@[1]),
@@end
@@fn src/routing/dijkstra.rs :: Dijkstra::has_costnode_improved
%spec
    requires costnode.idx.0 < self.costs@[dnum(costnode.direction)]@.len(),
    ensures r == ele(costnode.cost@, self.costs@[dnum(costnode.direction)]@[costnode.idx.0 as int]@),
@@end
@@fn src/routing/dijkstra.rs :: Dijkstra::total_cost
%spec
    requires costnode.idx.0 < self.costs@[0]@.len(), costnode.idx.0 < self.costs@[1]@.len(),
    ensures r@ == eadd(self.costs@[0]@[costnode.idx.0 as int]@, self.costs@[1]@[costnode.idx.0 as int]@),
@@end
}
