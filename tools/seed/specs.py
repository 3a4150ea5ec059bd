D = "src/routing/dijkstra.rs"; B = "src/network/graph/building.rs"
N3 = '["0 1.0 1.0 0", "1 1.1 1.0 0", "2 1.2 1.0 0"]'
seed("relax-on-tie", "C01", [(D, "if new_cost < self.costs[dir][*leaving_edge.dst_idx()] {", "if new_cost <= self.costs[dir][*leaving_edge.dst_idx()] {")],
 "all considered weights zero and a cycle", "routing does not terminate", """
fn main() {
    limited(20, || {
        let s = Scratch::new();
        let g = graph(&s, "g", 1, &["0 1.0 1.0 0", "1 1.1 1.0 0", "2 1.2 1.0 0", "3 1.3 1.0 0"], &["0 1 -1 -1 1.0", "1 0 -1 -1 1.0", "2 3 -1 -1 1.0"]).unwrap();
        let c = route_cfg(&g, "Dijkstra", &[0.0]);
        check(route(&mut Dijkstra::new(), &g, &c, 0, 3).is_none(), "route");
        check(route(&mut Dijkstra::new(), &g, &c, 0, 1).is_some(), "no route");
    });
}""")
seed("algo-set-after-init", "C04", [(D, """        self.is_ch_dijkstra = match query.routing_cfg.routing_algo {
            RoutingAlgo::Dijkstra => false,
            RoutingAlgo::CHDijkstra => true,
            #[cfg(feature = "gpl")]
            RoutingAlgo::Explorator { algo } => panic!(
                "Dijkstra is called with {:?} as specified routing-algorithm",
                RoutingAlgo::Explorator { algo }
            ),
        };

""", ""), (D, """        self.init_query(nodes.count());
""", """        self.init_query(nodes.count());
        self.is_ch_dijkstra = match query.routing_cfg.routing_algo {
            RoutingAlgo::Dijkstra => false,
            RoutingAlgo::CHDijkstra => true,
            #[cfg(feature = "gpl")]
            RoutingAlgo::Explorator { algo } => panic!(
                "Dijkstra is called with {:?} as specified routing-algorithm",
                RoutingAlgo::Explorator { algo }
            ),
        };
""")],
 "one router: a hierarchical query on a small graph, then a plain query on a larger one", "the router crashes because of its past", """
fn main() {
    limited(60, || {
        let s = Scratch::new();
        let a = graph(&s, "a", 1, &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 -1 -1 1.0", "1 0 -1 -1 1.0"]).unwrap();
        let b = graph(&s, "b", 1, &["0 1.0 1.0 0", "1 1.1 1.0 0", "2 1.2 1.0 0", "3 1.3 1.0 0"], &["0 1 -1 -1 1.0", "1 2 -1 -1 1.0", "2 3 -1 -1 1.0"]).unwrap();
        let mut d = Dijkstra::new();
        for (g, algo, x, y) in &[(&a, "CHDijkstra", 0, 1), (&b, "Dijkstra", 0, 3), (&a, "Dijkstra", 0, 1), (&b, "CHDijkstra", 0, 3), (&b, "Dijkstra", 1, 3)] {
            check(route(&mut d, g, &route_cfg(g, algo, &[1.0]), *x, *y).is_some(), "no route");
        }
    });
}""")
seed("flatten-keeps-costs", "C05", [("src/routing/paths.rs", "            costs: Some(smallvec![0.0; graph.metrics().dim()]),", "            costs: Some(\n                self.costs\n                    .unwrap_or_else(|| smallvec![0.0; graph.metrics().dim()]),\n            ),")],
 "calc_costs is called before flatten", "costs are counted twice", """
fn main() {
    let s = Scratch::new();
    let g = graph(&s, "g", 1, &["0 1.0 1.0 0", "1 1.1 1.0 0", "2 1.2 1.0 0"], &["0 1 -1 -1 1.0", "1 2 -1 -1 2.0", "0 2 0 1 3.0"]).unwrap();
    let c = route_cfg(&g, "Dijkstra", &[1.0]);
    let mut p = route(&mut Dijkstra::new(), &g, &c, 0, 2).unwrap();
    p.calc_costs(&g);
    let f = p.flatten(&g);
    check((f.costs()[0] - 3.0).abs() < 1e-9, "costs of the flattened route");
    check(ends(&g, &f) == vec![(0, 1), (1, 2)], "edges");
}""")
seed("dedup-ignores-id", "C06", [(B, "                    is_eq &= e0.id == e1.id;\n", "                    is_eq &= e0.id.is_some() == e1.id.is_some();\n")],
 "two parallel edges with equal metrics but different ids", "an inserted edge vanishes, lookup by its id fails", """
fn main() {
    let s = Scratch::new();
    let g = graph_with(&s, "g", &cols(1, true, false), "", &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["5 0 1 -1 -1 1.0", "6 0 1 -1 -1 1.0", "7 1 0 -1 -1 1.0"]);
    let g = match g { Ok(g) => g, Err(e) => bad(&e) };
    check(g.fwd_edges().count() == 3, "number of edges");
    for id in &[5, 6, 7] { check(g.fwd_edges().try_idx_from(*id).is_ok(), "edge not found by id"); }
}""")
seed("coord-check-skips-first", "C07", [(B, "for (idx, opt_coord) in self.node_coords.iter().enumerate() {", "for (idx, opt_coord) in self.node_coords.iter().enumerate().skip(1) {")],
 "the node with the smallest id has no coordinates", "building crashes instead of returning an error", """
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| {
        let s = Scratch::new();
        graph(&s, "g", 1, &["1 1.1 1.0 0", "2 1.2 1.0 0"], &["0 1 -1 -1 1.0", "1 2 -1 -1 1.0"]).is_err()
    });
    check(r.is_ok() && r.unwrap(), "no error for a missing coordinate");
}""")
seed("shortcut-of-removed", "C08", [(B, ".filter(|sc| ***sc >= *removed_idx)", ".filter(|sc| ***sc > *removed_idx)")],
 "a shortcut referring to the second of two equal edges", "the shortcut refers to a wrong edge after duplicates are removed", """
fn main() {
    let s = Scratch::new();
    let g = graph(&s, "g", 1, &["0 1.0 1.0 0", "1 1.1 1.0 0", "2 1.2 1.0 0"], &["0 1 -1 -1 1.0", "0 1 -1 -1 1.0", "1 2 -1 -1 2.0", "0 2 1 2 3.0"]).unwrap();
    let (f, b, n) = (g.fwd_edges(), g.bwd_edges(), g.nodes());
    let e = f.iter().find(|&e| f.is_shortcut(e)).unwrap();
    let r = f.sc_edges(e).unwrap();
    let x: Vec<(i64, i64)> = r.iter().map(|&e| (n.id(b.dst_idx(e)), n.id(f.dst_idx(e)))).collect();
    check(x == vec![(0, 1), (1, 2)], "shortcut refers to other edges");
}""")
seed("negative-metric-raised", "C09", [(B, "            if Approx(proto_edge.metrics[metric_idx]) == Approx(0.0) {", "            if Approx(proto_edge.metrics[metric_idx]) <= Approx(0.0) {")],
 "an edge with a negative metric", "a negative metric is silently raised to the accuracy instead of being an error", """
fn main() {
    let s = Scratch::new();
    check(graph(&s, "g", 1, &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 -1 -1 -3.0", "1 0 -1 -1 1.0"]).is_err(), "a negative metric is accepted");
}""")

seed("mean-over-nodes", "C10", [(B, "            let n = graph.fwd_edges().count() as f64;", "            let n = graph.metrics().dim().max(graph.fwd_edges().count()) as f64;")],
 "a graph with fewer edges than metrics", "normalised values and the mean are scaled wrongly", """
fn main() {
    let s = Scratch::new();
    let g = graph_with(&s, "g", &cols(3, false, true), "", &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 -1 -1 2.0 4.0 6.0"]).unwrap();
    for i in 0..3 { check((g.metrics()[EdgeIdx(0)][i] - 1.0).abs() < 1e-9, "normalised value of the only edge is not one"); }
}""")
seed("minutes-from-hours", "C11", [("src/configs/parsing/generating/edges/metrics.rs", """                UnitInfo::Seconds => Some(*Seconds::from(Hours(raw_value))),
                UnitInfo::Minutes => Some(*Minutes::from(Hours(raw_value))),""", """                UnitInfo::Seconds => Some(*Seconds::from(Hours(raw_value))),
                UnitInfo::Minutes => Some(*Minutes::from(Seconds(raw_value))),""")],
 "a rule converting hours to minutes", "the converted metric is wrong by a factor of 3600", """
fn main() {
    let s = Scratch::new();
    let cols = "  edges:\n    data:\n    - meta: { info: 'SrcId', id: 'src-id' }\n    - meta: { info: 'DstId', id: 'dst-id' }\n    - metric: { unit: 'Hours', id: 'h' }\n";
    let gen = "  generating:\n    nodes: []\n    edges:\n    - copy: { from: { unit: 'Hours', id: 'h' }, to: { unit: 'Minutes', id: 'min' } }\n";
    let g = graph_with(&s, "g", cols, gen, &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 2.5"]).unwrap();
    check((g.metrics()[EdgeIdx(0)][1] - 150.0).abs() < 1e-6, "2.5 hours are 150 minutes");
}""")
seed("picky-ped-bicycle", "C12", [("src/defaults.rs", """                StreetCategory::Cycleway => true,
                StreetCategory::Pedestrian => !is_driver_picky,
                StreetCategory::Path => !is_driver_picky,""", """                StreetCategory::Cycleway => true,
                StreetCategory::Pedestrian => is_driver_picky,
                StreetCategory::Path => !is_driver_picky,""")],
 "bicycles and pedestrian streets", "picky cyclists are routed through pedestrian streets, others are not", """
use osmgraphing::network::{StreetCategory, vehicles::Category};
fn main() {
    check(StreetCategory::Pedestrian.is_for(&Category::Bicycle, false), "not picky");
    check(!StreetCategory::Pedestrian.is_for(&Category::Bicycle, true), "picky");
}""")
seed("meeting-on-tie", "C02", [(D, "                if new_total_cost < best_total_cost {", "                if new_total_cost <= best_total_cost {")],
 "all considered weights are zero and source = destination lies on a cycle", "the route from a node to itself is not empty", """
fn main() {
    limited(60, || {
        let s = Scratch::new();
        let g = graph(&s, "g", 1, &["0 1.0 1.0 0", "1 1.1 1.0 0", "2 1.2 1.0 0"], &["0 1 -1 -1 1.0", "1 0 -1 -1 1.0", "1 2 -1 -1 1.0", "2 1 -1 -1 1.0", "2 0 -1 -1 1.0", "0 2 -1 -1 1.0"]).unwrap();
        let c = route_cfg(&g, "Dijkstra", &[0.0]);
        for i in 0..3 {
            let p = route(&mut Dijkstra::new(), &g, &c, i, i);
            check(p.is_some(), "no route");
            check(p.unwrap().iter().count() == 0, "a route from a node to itself is not empty");
        }
    });
}""")
F = "src/io/parsing/network/graph/fmi.rs"
seed("bad-shortcut-ignored", "C13", [(F, """                            let sc_edge_idx = {
                                param.parse::<usize>().ok().ok_or(format!(
                                    "Parsing {:?} '{}' of edge-param #{} didn't work.",
                                    category, param, param_idx
                                ))?
                            };

                            if sc_edge_1.is_none() {
                                sc_edge_1 = Some(sc_edge_idx);
                            } else {""", """                            if sc_edge_1.is_none() {
                                sc_edge_1 = param.parse::<usize>().ok();
                            } else {""")],
 "an edge line whose second shortcut column holds no number", "a malformed value is read as different data (no shortcut) instead of being an error", """
fn main() {
    let s = Scratch::new();
    let n = ["0 1.0 1.0 0", "1 1.1 1.0 0", "2 1.2 1.0 0"];
    check(graph(&s, "a", 1, &n, &["0 1 -1 -1 1.0", "1 2 -1 -1 2.0", "0 2 0 1 3.0"]).is_ok(), "good file");
    check(graph(&s, "b", 1, &n, &["0 1 -1 -1 1.0", "1 2 -1 -1 2.0", "0 2 0 1x 3.0"]).is_err(), "malformed shortcut column is no error");
    check(graph(&s, "c", 1, &n, &["0 1 -1 -1 1.0", "1 2 -1 -1 2.0", "0 2 0x 1 3.0"]).is_err(), "malformed shortcut column is no error");
}""")
seed("node-columns-lat-twice", "C13", [("src/io/parsing/network/graph/mod.rs", """            unit == &parsing::nodes::metrics::UnitInfo::Longitude
""", """            unit != &parsing::nodes::metrics::UnitInfo::Height
""")],
 "a configuration with latitude but without longitude, and a map file without node lines", "a configuration without longitude is accepted", """
fn main() {
    let s = Scratch::new();
    let m = s.f("x.fmi");
    fs::write(&m, "0\\n0\\n0\\n").unwrap();
    for (k, cs) in ["  - metric: { unit: 'Latitude', id: 'lat' }\\n", "  - metric: { unit: 'Longitude', id: 'lon' }\\n"].iter().enumerate() {
        let y = format!("parsing:\\n  map-file: '{}'\\n  nodes:\\n  - meta: {{ info: 'NodeId', id: 'node-id' }}\\n{}{}", m, cs, cols(1, false, false));
        let yp = s.f(&format!("{}.yaml", k));
        fs::write(&yp, y).unwrap();
        let cfg = configs::parsing::Config::try_from_yaml(&yp).unwrap();
        check(io::network::graph::Parser::parse(cfg).is_err(), "a configuration without full coordinates is accepted");
    }
}""")
seed("unknown-column-after-known", "C14", [("src/io/writing/network/mod.rs", """        for (i, next_id) in writing_cfg.ids.iter().enumerate() {
            if let Some(next_id) = next_id {
                let mut has_been_written = false;
""", """        let mut has_been_written = false;
        for (i, next_id) in writing_cfg.ids.iter().enumerate() {
            if let Some(next_id) = next_id {
""")],
 "an unknown edge column requested after a known one", "an unknown column is silently left out, so later columns shift", """
fn main() {
    let s = Scratch::new();
    let g = graph(&s, "g", 1, &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 -1 -1 1.0"]).unwrap();
    for (k, ids) in [("a", vec!["src-id", "nope", "dst-id"]), ("b", vec!["nope", "src-id"]), ("c", vec!["src-id", "dst-id"])].iter() {
        let cfg = configs::writing::network::edges::Config {
            file: PathBuf::from(s.f(&format!("{}.csv", k))),
            is_writing_shortcuts: true,
            is_writing_header: false,
            is_denormalizing: false,
            ids: ids.iter().map(|i| Some(configs::SimpleId(i.to_string()))).collect(),
        };
        check(io::network::edges::Writer::write(&g, &cfg).is_err() == (*k != "c"), "unknown column");
    }
}""")
seed("extra-route-values", "C15", [("src/io/parsing/routing/routes.rs", "            if params.len() != 3 {", "            if params.len() < 3 {")],
 "a route line with more than three values", "a malformed route line is accepted", """
fn main() {
    let s = Scratch::new();
    let g = graph(&s, "g", 1, &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 -1 -1 1.0"]).unwrap();
    for (k, l, ok) in [("a", "0 1 4", true), ("b", "0 1", false), ("c", "0 1 4 7", false)].iter() {
        let rp = s.f(&format!("{}.route-pairs", k));
        fs::write(&rp, format!("1\\n{}\\n", l)).unwrap();
        let y = format!("routing:\\n  route-pairs-file: '{}'\\n  algorithm: Dijkstra\\n  metrics:\\n  - {{ id: 'm0' }}\\n", rp);
        let c = configs::routing::Config::from_str(&y, g.cfg());
        let r = io::routing::Parser::parse(&c);
        check(r.is_ok() == *ok, "route line");
    }
}""")
seed("all-routes-off-by-one", "C15", [("src/io/writing/routing/random_or_all.rs", """                    if num_possible_routes <= self.max_count {
                        let i""", """                    if num_possible_routes < self.max_count {
                        let i""")],
 "exactly as many routes requested as there are pairs of nodes", "not all connected pairs are written", """
fn main() {
    let s = Scratch::new();
    let g = graph(&s, "g", 1, &["0 1.0 1.0 0", "1 1.1 1.0 0", "2 1.2 1.0 0", "3 1.3 1.0 0"], &["0 1 -1 -1 1.0", "1 2 -1 -1 1.0", "2 3 -1 -1 1.0", "3 0 -1 -1 1.0"]).unwrap();
    let c = route_cfg(&g, "Dijkstra", &[1.0]);
    for n in [16usize, 17, 40].iter() { for seed in 0..5 {
        let file = s.f(&format!("{}-{}.route-pairs", n, seed));
        let w = configs::writing::routing::Config { file: PathBuf::from(&file), category: configs::writing::routing::Category::RandomOrAll { seed, max_count: *n } };
        check(io::routing::Writer::write(&g, &c, &w).is_ok(), "writing");
        let t = fs::read_to_string(&file).unwrap();
        let lines: Vec<&str> = t.lines().filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
        check(lines.len() == 13 && lines[0] == "12", "not all pairs are written");
    } }
}""")
seed("zero-weight-is-default", "C16", [("src/configs/routing.rs", "            alpha: raw_entry.alpha.unwrap_or(defaults::routing::ALPHA),", "            alpha: raw_entry\n                .alpha\n                .filter(|alpha| alpha.is_normal())\n                .unwrap_or(defaults::routing::ALPHA),")],
 "an entry with the weight zero", "a metric with given weight zero gets the default weight", """
fn main() {
    let s = Scratch::new();
    let g = graph(&s, "g", 2, &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 -1 -1 1.0 2.0"]).unwrap();
    let c = route_cfg(&g, "Dijkstra", &[0.0, 3.0]);
    check(c.alphas[0] == 0.0 && c.alphas[1] == 3.0, "weights");
}""")
seed("compare-rounded", "C17", [("src/approximating.rs", "        Approx(self.0 - other.0).approx().abs() <= accuracy::F64_ABS", "        (self.approx() - other.approx()).abs() < accuracy::F64_ABS / 2.0")],
 "two values closer than the accuracy on different sides of a rounding boundary", "values differing by less than the accuracy do not compare equal", """
use osmgraphing::approximating::Approx;
fn main() {
    let a = osmgraphing::defaults::accuracy::F64_ABS;
    for k in 0..50 {
        let x = (k as f64 + 0.5) * a;
        for d in [0.1, 0.3, 0.6, 0.9].iter() {
            check(Approx(x) == Approx(x + d * a) && Approx(x) == Approx(x - d * a), "values closer than the accuracy differ");
        }
        check(Approx(x) != Approx(x + 10.0 * a), "clearly different values are equal");
    }
}""")

seed("dedup-first-metric", "C06", [(B, "                        for (e0_metric, e1_metric) in e0.metrics.iter().zip(e1.metrics.iter()) {", "                        for (e0_metric, e1_metric) in e0.metrics.iter().zip(e1.metrics.iter()).take(2) {")],
 "parallel edges with three metrics, differing in the third only", "an inserted edge vanishes", """
fn main() {
    let s = Scratch::new();
    let g = graph(&s, "g", 3, &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 -1 -1 1.0 1.0 1.0", "0 1 -1 -1 1.0 1.0 2.0"]).unwrap();
    check(g.fwd_edges().count() == 2, "number of edges");
}""")
seed("normalized-tiny-kept", "C10", [(B, """                        if Approx(*metric) == Approx(0.0) {
                            *metric = defaults::accuracy::F64_ABS
                        }
                    });""", """                        if *metric == 0.0 {
                            *metric = defaults::accuracy::F64_ABS
                        }
                    });""")],
 "metrics of very different sizes, so that a normalised one is below the accuracy", "a normalised metric is smaller than the accuracy", """
fn main() {
    let s = Scratch::new();
    let g = graph_with(&s, "g", &cols(1, false, true), "", &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 -1 -1 0.001", "1 0 -1 -1 1e9"]).unwrap();
    check((0..2).all(|i| g.metrics()[EdgeIdx(i)][0] >= 0.9e-6 && g.metrics()[EdgeIdx(i)][0] >= osmgraphing::defaults::accuracy::F64_ABS), "below the accuracy");
}""")
seed("converted-unit-kept", "C11", [(B, "graph.cfg.edges.metrics.units[*metric_idx] = to.unit.into();", "graph.cfg.edges.metrics.units[*metric_idx] = from.unit.into();")],
 "a conversion in place, then a look at the unit of the metric", "the metric's unit is not the one it was converted to", """
fn main() {
    let s = Scratch::new();
    let cols = "  edges:\n    data:\n    - meta: { info: 'SrcId', id: 'src-id' }\n    - meta: { info: 'DstId', id: 'dst-id' }\n    - metric: { unit: 'Meters', id: 'm' }\n";
    let gen = "  generating:\n    nodes: []\n    edges:\n    - convert: { from: { unit: 'Meters', id: 'm' }, to: { unit: 'Kilometers', id: 'km' } }\n";
    let g = graph_with(&s, "g", cols, gen, &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 2500"]).unwrap();
    check((g.metrics()[EdgeIdx(0)][0] - 2.5).abs() < 1e-6, "value");
    check(format!("{:?}", g.cfg().edges.metrics.units[0]) == "Kilometers", "unit");
}""")
seed("merge-skips-first", "C11", [(B, """                            // update graph with data

                            for (col_idx, category) in edges_info.iter().enumerate() {""", """                            // update graph with data

                            for (col_idx, category) in edges_info.iter().enumerate().skip(1) {""")],
 "a file to be merged whose first column is not the edge-id", "the values of the first column are not merged", """
fn main() {
    let s = Scratch::new();
    let f = s.f("vals.csv");
    fs::write(&f, "10.0 5 20.0\\n11.0 6 21.0\\n").unwrap();
    let gen = format!("  generating:\\n    nodes: []\\n    edges:\\n    - merge: {{ from: '{}', with_header-line: false, edge-id: 'edge-id', edges-info: [{{ id: 'm1' }}, {{ id: 'edge-id' }}, {{ id: 'm0' }}] }}\\n", f);
    let g = graph_with(&s, "g", &cols(2, true, false), &gen, &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["5 0 1 -1 -1 1.0 1.0", "6 1 0 -1 -1 1.0 1.0"]);
    let g = match g { Ok(g) => g, Err(e) => bad(&e) };
    for (id, m0, m1) in &[(5, 20.0, 10.0), (6, 21.0, 11.0)] {
        let m = &g.metrics()[g.fwd_edges().try_idx_from(*id).unwrap()];
        check(m[0] == *m0 && m[1] == *m1, "merged values");
    }
}""")
seed("only-first-weight-checked", "C01", [(D, "        for alpha in query.routing_cfg.alphas.iter() {", "        for alpha in query.routing_cfg.alphas.iter().take(2) {")],
 "a negative weight at the third metric", "a route is returned for negative weights", """
fn main() {
    limited(60, || {
        let s = Scratch::new();
        let g = graph(&s, "g", 3, &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 -1 -1 1.0 1.0 1.0", "1 0 -1 -1 1.0 1.0 1.0"]).unwrap();
        check(route(&mut Dijkstra::new(), &g, &route_cfg(&g, "Dijkstra", &[3.0, 1.0, -1.0]), 0, 1).is_none(), "negative weight");
    });
}""")
seed("denormalised-with-first-mean", "C14", [("src/io/writing/network/mod.rs", "if let Some(mean) = graph.metrics().mean(metric_idx) {", "if let Some(mean) = graph.metrics().mean(MetricIdx(i.min(*metric_idx))) {")],
 "denormalised writing of metrics in another order", "a written value is multiplied with another metric's mean", """
fn main() {
    let s = Scratch::new();
    let g = graph_with(&s, "g", &cols(2, false, true), "", &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 -1 -1 2.0 40.0", "1 0 -1 -1 4.0 80.0"]).unwrap();
    for (k, ids) in [("a", vec!["src-id", "m0", "m1"]), ("b", vec!["m1", "m0"])].iter() {
        let f = s.f(&format!("{}.csv", k));
        let cfg = configs::writing::network::edges::Config {
            file: PathBuf::from(&f),
            is_writing_shortcuts: true,
            is_writing_header: false,
            is_denormalizing: true,
            ids: ids.iter().map(|i| Some(configs::SimpleId(i.to_string()))).collect(),
        };
        check(io::network::edges::Writer::write(&g, &cfg).is_ok(), "write");
        let t = fs::read_to_string(&f).unwrap();
        let first: Vec<f64> = t.lines().next().unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
        for (c, i) in ids.iter().enumerate() {
            let want = match *i { "m0" => 2.0, "m1" => 40.0, _ => 0.0 };
            check((first[c] - want).abs() < 1e-6, "value");
        }
    }
}""")
seed("infinite-scale-of-first-only", "C16", [("src/configs/routing.rs", """                "inf" | "infinity" => Ok(defaults::routing::TOLERATED_SCALE_INF),
                snippet => snippet
                    .parse::<f64>()""", """                "inf" | "infinity" => Ok(defaults::routing::TOLERATED_SCALE_INF),
                snippet => snippet
                    .trim_end_matches(|c: char| c.is_alphabetic())
                    .parse::<f64>()""")],
 "a tolerated scale followed by letters", "an unreadable scale is accepted", """
fn main() {
    let s = Scratch::new();
    let g = graph(&s, "g", 1, &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 -1 -1 1.0"]).unwrap();
    for (x, ok) in &[("2.5", true), ("inf", true), ("nope", false), ("2.5x", false), ("5 percent", false)] {
        let y = format!("routing:\\n  algorithm: Dijkstra\\n  metrics:\\n  - {{ id: 'm0', tolerated-scale: '{}' }}\\n", x);
        check(configs::routing::Config::try_from_str(&y, g.cfg()).is_ok() == *ok, x);
    }
}""")

seed("level-order-truncated", "C03", [(B, "Reverse(nodes.level(edge.dst_idx)),", "Reverse(nodes.level(edge.dst_idx) as u8),")],
 "a hierarchy with more than 255 levels", "the hierarchical search stops at an edge to a lower node before it has seen one to a higher node", """
fn main() {
    limited(30, || {
        let s = Scratch::new();
        let g = graph(&s, "g", 1, &["0 1.0 1.0 100", "1 1.1 1.0 256", "2 1.2 1.0 1"], &["0 1 -1 -1 1.0", "0 2 -1 -1 1.0", "2 0 -1 -1 1.0"]).unwrap();
        let (p, c) = (route_cfg(&g, "Dijkstra", &[1.0]), route_cfg(&g, "CHDijkstra", &[1.0]));
        for (a, b) in &[(0, 1), (0, 2), (2, 1), (1, 0)] {
            let (x, y) = (route(&mut Dijkstra::new(), &g, &p, *a, *b), route(&mut Dijkstra::new(), &g, &c, *a, *b));
            check(x.is_some() == y.is_some(), &format!("{} -> {}", a, b));
        }
    });
}""")
seed("ch-stops-at-half", "C03", [(D, "if current.cost > best_total_cost {", "if current.cost + current.cost > best_total_cost {")],
 "a hierarchy whose best way has a long leg upwards and a short one downwards", "the hierarchical search stops as if both directions were in step and returns a longer route", """
fn main() {
    limited(30, || {
        let s = Scratch::new();
        // 0 -> 1 -> 3 costs 12; 0 -> 2 -> 4 -> 3 costs 10.1
        let g = graph(&s, "g", 1, &["0 1.0 1.0 0", "1 1.1 1.0 5", "2 1.2 1.0 1", "3 1.3 1.0 0", "4 1.4 1.0 4"],
            &["0 1 -1 -1 6.0", "1 3 -1 -1 6.0", "0 2 -1 -1 9.0", "2 4 -1 -1 1.0", "4 3 -1 -1 0.1"]).unwrap();
        for algo in &["Dijkstra", "CHDijkstra"] {
            let mut p = route(&mut Dijkstra::new(), &g, &route_cfg(&g, algo, &[1.0]), 0, 3).unwrap();
            let c = p.calc_costs(&g)[0];
            check((c - 10.1).abs() < 1e-9, &format!("{}: {}", algo, c));
        }
    });
}""")
seed("queue-kept", "C04", [(D, "        self.queue.clear();\n", "        if self.is_ch_dijkstra {\n            self.queue.clear();\n        }\n")],
 "one router, several plain queries", "entries left over from an earlier query enter the next one", """
fn main() {
    limited(60, || {
        let s = Scratch::new();
        let n: Vec<String> = (0..8).map(|i| format!("{} 1.{} 1.0 0", i, i)).collect();
        let e: Vec<String> = (0..7).map(|i| format!("{} {} -1 -1 {}.5", i, i + 1, i + 1)).chain((1..7).map(|i| format!("0 {} -1 -1 {}.25", i + 1, 4 * i))).collect();
        let g = graph(&s, "g", 1, &n.iter().map(|x| x.as_str()).collect::<Vec<_>>(), &e.iter().map(|x| x.as_str()).collect::<Vec<_>>()).unwrap();
        let c = route_cfg(&g, "Dijkstra", &[1.0]);
        let mut d = Dijkstra::new();
        for _ in 0..3 { for a in 0..8 { for b in (0..8).rev() {
            let x = route(&mut Dijkstra::new(), &g, &c, a, b).map(|mut p| p.calc_costs(&g)[0]);
            let y = route(&mut d, &g, &c, a, b).map(|mut p| p.calc_costs(&g)[0]);
            check(x == y, &format!("{} -> {}: {:?} {:?}", a, b, x, y));
        } } }
    });
}""")
seed("level-only-raised", "C07", [(B, "            if let Some(ch_level) = proto_node.ch_level {\n                self.node_ch_levels[idx] = ch_level;\n            }", "            if let Some(ch_level) = proto_node.ch_level {\n                self.node_ch_levels[idx] = ch_level.max(self.node_ch_levels[idx]);\n            }")],
 "a node given twice, with a lower level the second time", "the node keeps the level given first", """
fn main() {
    let s = Scratch::new();
    let g = graph(&s, "g", 1, &["0 1.0 1.0 3", "1 1.1 1.0 5", "1 1.2 1.0 2"], &["0 1 -1 -1 1.0"]).unwrap();
    let n = g.nodes();
    check(n.level(n.idx_from(1).unwrap()) == 2 && n.level(n.idx_from(0).unwrap()) == 3, "level");
}""")
seed("neighbouring-ids-equal", "C13", [("src/configs/parsing/edges/mod.rs", "for j in (i + 1)..proto_cfg.categories.len() {", "for j in (i + 2)..proto_cfg.categories.len() {")],
 "two columns next to each other with the same id", "a configuration with duplicate ids is accepted", """
fn main() {
    let s = Scratch::new();
    let nodes = ["0 1.0 1.0 0", "1 1.1 1.0 0"];
    let ids = |v: &[&str]| {
        let mut y = String::from("  edges:\\n    will_normalize_metrics_by_mean: false\\n    data:\\n    - meta: { info: 'SrcId', id: 'src-id' }\\n    - meta: { info: 'DstId', id: 'dst-id' }\\n");
        for x in v { y += &format!("    - metric: {{ unit: 'F64', id: '{}' }}\\n", x); }
        y
    };
    for (k, (v, ok)) in [(["a", "b", "c"], true), (["a", "b", "a"], false), (["a", "a", "b"], false), (["a", "b", "b"], false), (["dst-id", "b", "c"], false)].iter().enumerate() {
        check(graph_with(&s, &format!("g{}", k), &ids(v), "", &nodes, &["0 1 1 2 3"]).is_ok() == *ok, &format!("{:?}", v));
    }
}""")
seed("lines-beyond-count", "C15", [("src/io/parsing/routing/routes.rs", "                line_number += 1;\n                continue;\n            }\n            line_number += 1;\n", "                line_number += 1;\n                continue;\n            }\n")],
 "a route file with more lines than its count says", "lines beyond the counted ones are routes as well", """
fn main() {
    let s = Scratch::new();
    let g = graph(&s, "g", 1, &["0 1.0 1.0 0", "1 1.1 1.0 0"], &["0 1 -1 -1 1.0"]).unwrap();
    let f = s.f("r.route-pairs");
    for (t, want) in &[("2\\n0 1 1\\n1 0 2\\n", 2), ("1\\n0 1 1\\n1 0 2\\n", 1), ("# c\\n1\\n\\n0 1 1\\n0 1 3\\n1 0 2\\n", 1)] {
        fs::write(&f, t).unwrap();
        let mut c = route_cfg(&g, "Dijkstra", &[1.0]);
        c.route_pairs_file = Some(PathBuf::from(&f));
        check(io::routing::Parser::parse(&c).map(|v| v.len()).ok() == Some(*want), t);
    }
}""")
