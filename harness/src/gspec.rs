//! Input descriptions of graphs, random generation, building with the real library, oracles.
use crate::rng::Rng;
use osmgraphing::{
    configs::{
        parsing,
        routing::{Config as RoutingConfig, RoutingAlgo},
    },
    defaults::capacity::DimVec,
    network::{EdgeIdx, Graph, GraphBuilder, NodeIdx, ProtoEdge, ProtoNode, ProtoShortcut},
    routing::{
        dijkstra::{Dijkstra, Query},
        paths::Path,
    },
};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct NSpec {
    pub id: i64,
    pub lat: f64,
    pub lon: f64,
    pub level: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct ESpec {
    pub id: Option<usize>,
    pub src: i64,
    pub dst: i64,
    pub m: Vec<f64>,
    pub sc: Option<[usize; 2]>,
}
#[derive(Clone, Debug)]
pub struct GSpec {
    pub dim: usize,
    pub nodes: Vec<NSpec>,
    pub edges: Vec<ESpec>,
    pub norm: bool,
    /// yaml of the generating section (edges list), if any
    pub generating: Option<String>,
    pub units: Vec<&'static str>,
    /// generate the nodes' indices as a column
    pub node_idx: bool,
}

impl GSpec {
    pub fn new(dim: usize) -> GSpec {
        GSpec { dim, nodes: vec![], edges: vec![], norm: false, generating: None, units: vec!["F64"; dim], node_idx: false }
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        s += &format!("dim={} norm={}\n", self.dim, self.norm);
        for n in &self.nodes {
            s += &format!("node {} {} {} {:?}\n", n.id, n.lat, n.lon, n.level);
        }
        for (i, e) in self.edges.iter().enumerate().take(400) {
            s += &format!("edge#{} id={:?} {}->{} {:?} sc={:?}\n", i, e.id, e.src, e.dst, e.m, e.sc);
        }
        if let Some(g) = &self.generating {
            s += g;
        }
        s
    }
    pub fn cfg_yaml(&self, map_file: &str) -> String {
        let mut y = format!(
            "parsing:\n  map-file: '{}'\n  nodes:\n  - meta: {{ info: 'NodeId', id: 'node-id' }}\n  - metric: {{ unit: 'Latitude', id: 'lat' }}\n  - metric: {{ unit: 'Longitude', id: 'lon' }}\n  - meta: {{ info: 'CHLevel', id: 'lvl' }}\n  edges:\n    will_normalize_metrics_by_mean: {}\n    data:\n    - meta: {{ info: 'EdgeId', id: 'edge-id' }}\n    - meta: {{ info: 'SrcId', id: 'src-id' }}\n    - meta: {{ info: 'DstId', id: 'dst-id' }}\n    - meta: {{ info: 'ShortcutIdx0', id: 'sc0' }}\n    - meta: {{ info: 'ShortcutIdx1', id: 'sc1' }}\n",
            map_file, self.norm
        );
        for i in 0..self.dim {
            y += &format!("    - metric: {{ unit: '{}', id: 'm{}' }}\n", self.units[i], i);
        }
        if let Some(g) = &self.generating {
            y += "  generating:\n    nodes:";
            y += if self.node_idx { "\n    - meta: { info: 'NodeIdx', id: 'nodeidx' }\n" } else { " []\n" };
            y += "    edges:\n";
            y += g;
        }
        y
    }
    pub fn cfg(&self) -> Result<parsing::Config, String> {
        serde_yaml::from_str(&self.cfg_yaml("x.fmi")).map_err(|e| format!("cfg: {}", e))
    }
    pub fn build(&self) -> Result<Graph, String> {
        let mut b = GraphBuilder::new(self.cfg()?);
        for e in &self.edges {
            let pe = ProtoEdge {
                id: e.id,
                src_id: e.src,
                dst_id: e.dst,
                metrics: DimVec::from_slice(&e.m),
            };
            let r = match e.sc {
                None => b.insert(pe),
                Some(sc) => b.insert(ProtoShortcut {
                    proto_edge: pe,
                    sc_edges: Some([EdgeIdx(sc[0]), EdgeIdx(sc[1])]),
                }),
            };
            r.map_err(|m| format!("insert: {}", m))?;
        }
        let mut b = b.next();
        for n in &self.nodes {
            b.insert(ProtoNode {
                id: n.id,
                coord: kissunits::geo::Coordinate { lat: n.lat, lon: n.lon },
                ch_level: n.level,
            });
        }
        let b = b.next().map_err(|m| format!("next: {}", m))?;
        b.finalize().map_err(|m| format!("finalize: {}", m))
    }
    pub fn used_ids(&self) -> Vec<i64> {
        let mut s = BTreeSet::new();
        for e in &self.edges {
            s.insert(e.src);
            s.insert(e.dst);
        }
        s.into_iter().collect()
    }
}

/// the value the library must store for a given (ordinary) metric
pub fn corrected(x: f64) -> f64 {
    if x.abs() < 1e-6 {
        0.000_001
    } else {
        x
    }
}

pub fn random_ids(r: &mut Rng, n: usize) -> Vec<i64> {
    let mut s = BTreeSet::new();
    let mode = r.range(0, 3);
    if mode <= 1 {
        for i in 0..n {
            s.insert(i as i64);
        }
    } else {
        while s.len() < n {
            let x = if mode == 2 { r.next() as i64 % 1000 } else { r.next() as i64 };
            s.insert(x);
        }
        if mode == 3 && r.chance(1, 2) && n > 1 {
            let f = *s.iter().next().unwrap();
            s.remove(&f);
            s.insert(i64::MIN);
            let l = *s.iter().next_back().unwrap();
            if l != i64::MIN {
                s.remove(&l);
                s.insert(i64::MAX);
            }
        }
    }
    s.into_iter().collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// integer metrics: all comparisons are exact
    Ints,
    /// like Ints, but few values, so many ties
    Ties,
    /// halves
    Halves,
    /// arbitrary floats between 0.01 and 1000
    Floats,
    /// integers, some zeros (corrected to the accuracy)
    Zeros,
}
pub fn metric(r: &mut Rng, k: Kind) -> f64 {
    match k {
        Kind::Ints => r.range(1, 60) as f64,
        Kind::Ties => r.range(1, 3) as f64,
        Kind::Halves => r.range(1, 40) as f64 * 0.5,
        Kind::Floats => 0.01 * 10f64.powf(r.unit() * 5.0),
        Kind::Zeros => {
            if r.chance(1, 4) {
                0.0
            } else {
                r.range(1, 9) as f64
            }
        }
    }
}
pub fn coord(r: &mut Rng) -> (f64, f64) {
    ((r.unit() - 0.5) * 170.0, (r.unit() - 0.5) * 350.0)
}

/// random graph with all kinds of degenerate shapes
pub fn random_graph(r: &mut Rng, k: Kind, max_n: usize) -> GSpec {
    let dim = r.range(1, 4);
    let shape = r.range(0, 9);
    let n = match shape {
        0 => r.range(1, 3.min(max_n)),
        1 | 2 => r.range(1, 6.min(max_n)),
        3 | 4 | 5 => r.range(2, 14.min(max_n)),
        _ => r.range(2, max_n),
    };
    let ids = random_ids(r, n);
    let mut g = GSpec::new(dim);
    let mut pairs: Vec<(usize, usize)> = vec![];
    match shape {
        8 => {
            // bait: cheap long chain and expensive direct edges (both directions at random)
            for i in 0..n.saturating_sub(1) {
                pairs.push((i, i + 1));
                if r.chance(1, 3) {
                    pairs.push((i + 1, i));
                }
            }
            for _ in 0..r.range(0, n) {
                pairs.push((r.range(0, n - 1), r.range(0, n - 1)));
            }
        }
        9 => {
            // grid
            let w = (n as f64).sqrt().max(1.0) as usize;
            for i in 0..n {
                if i % w + 1 < w && i + 1 < n {
                    pairs.push((i, i + 1));
                    pairs.push((i + 1, i));
                }
                if i + w < n {
                    pairs.push((i, i + w));
                    if r.chance(4, 5) {
                        pairs.push((i + w, i));
                    }
                }
            }
        }
        7 => {
            // two layers of sources and sinks
            for _ in 0..r.range(1, 2 * n) {
                let a = r.range(0, n - 1);
                let b = r.range(0, n - 1);
                if r.chance(5, 6) {
                    pairs.push((a.min(b), a.max(b)));
                } else {
                    pairs.push((a, b));
                }
            }
        }
        _ => {
            let m = r.range(1, 1 + 3 * n);
            for _ in 0..m {
                pairs.push((r.range(0, n - 1), r.range(0, n - 1)));
            }
        }
    }
    if pairs.is_empty() {
        pairs.push((0, n - 1));
    }
    let mut perm: Vec<usize> = (0..n).collect();
    r.shuffle(&mut perm);
    r.shuffle(&mut pairs);
    for (a, b) in pairs {
        let far = if shape == 8 && (a as i64 - b as i64).abs() > 1 { (a as i64 - b as i64).abs() as f64 } else { 1.0 };
        let m = (0..dim).map(|_| metric(r, k) * far).collect();
        g.edges.push(ESpec { id: None, src: ids[perm[a]], dst: ids[perm[b]], m, sc: None });
        if r.chance(1, 12) {
            // parallel edge, maybe equal
            let mut e = g.edges.last().unwrap().clone();
            if r.chance(1, 2) {
                e.m = (0..dim).map(|_| metric(r, k)).collect();
            }
            g.edges.push(e);
        }
    }
    for id in g.used_ids() {
        let (lat, lon) = coord(r);
        g.nodes.push(NSpec { id, lat, lon, level: None });
    }
    r.shuffle(&mut g.nodes);
    g
}

pub fn random_alphas(r: &mut Rng, dim: usize, k: Kind) -> Vec<f64> {
    let mode = r.range(0, 5);
    (0..dim)
        .map(|i| match mode {
            0 => 1.0,
            1 => {
                if i == 0 {
                    1.0
                } else {
                    0.0
                }
            }
            2 => r.range(0, 4) as f64,
            3 => {
                if r.chance(1, 6) {
                    0.0
                } else {
                    r.range(1, 9) as f64
                }
            }
            4 => {
                if k == Kind::Floats {
                    r.unit()
                } else {
                    r.range(0, 2) as f64
                }
            }
            _ => {
                if i + 1 == dim {
                    2.0
                } else {
                    0.0
                }
            }
        })
        .collect()
}

pub fn routing_cfg(alphas: &[f64], ch: bool) -> RoutingConfig {
    RoutingConfig {
        route_pairs_file: None,
        routing_algo: if ch { RoutingAlgo::CHDijkstra } else { RoutingAlgo::Dijkstra },
        alphas: DimVec::from_slice(alphas),
        tolerated_scales: DimVec::from_slice(&vec![std::f64::INFINITY; alphas.len()]),
    }
}

pub fn dot(a: &[f64], m: &[f64]) -> f64 {
    a.iter().zip(m).map(|(x, y)| x * y).sum()
}

/// Bellman-Ford on the input description; None: unreachable
pub fn oracle(g: &GSpec, alphas: &[f64], src: i64) -> BTreeMap<i64, f64> {
    let ids = g.used_ids();
    let pos: BTreeMap<i64, usize> = ids.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    let es: Vec<(usize, usize, f64)> = g
        .edges
        .iter()
        .map(|e| {
            let m: Vec<f64> = e.m.iter().map(|x| corrected(*x)).collect();
            (pos[&e.src], pos[&e.dst], dot(alphas, &m))
        })
        .collect();
    let mut d = vec![std::f64::INFINITY; ids.len()];
    let mut reach = vec![false; ids.len()];
    d[pos[&src]] = 0.0;
    reach[pos[&src]] = true;
    loop {
        let mut ch = false;
        for (u, v, c) in &es {
            if reach[*u] {
                if !reach[*v] || d[*u] + c < d[*v] {
                    d[*v] = d[*u] + c;
                    reach[*v] = true;
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    (0..ids.len()).filter(|i| reach[*i]).map(|i| (ids[i], d[i])).collect()
}

pub fn query(dij: &mut Dijkstra, graph: &Graph, cfg: &RoutingConfig, s: NodeIdx, t: NodeIdx) -> Option<Path> {
    dij.compute_best_path(Query { src_idx: s, dst_idx: t, graph, routing_cfg: cfg })
}

/// checks that the route is a walk in the graph; returns its weighted cost
pub fn check_walk(graph: &Graph, p: &Path, s: NodeIdx, t: NodeIdx, alphas: &[f64]) -> Result<f64, String> {
    if p.src_idx() != s || p.dst_idx() != t {
        return Err(format!("route reports ends {} -> {}, queried {} -> {}", p.src_idx(), p.dst_idx(), s, t));
    }
    let fwd = graph.fwd_edges();
    let bwd = graph.bwd_edges();
    let mut cur = s;
    let mut cost = 0.0;
    for (i, e) in p.iter().enumerate() {
        if **e >= fwd.count() {
            return Err(format!("edge {} of the route does not exist", e));
        }
        if bwd.dst_idx(*e) != cur {
            return Err(format!("edge #{} of the route starts in node-idx {}, expected {}", i, bwd.dst_idx(*e), cur));
        }
        cur = fwd.dst_idx(*e);
        cost += dot(alphas, &graph.metrics()[*e]);
    }
    if cur != t {
        return Err(format!("route ends in node-idx {}, expected {}", cur, t));
    }
    if s == t && p.iter().count() != 0 {
        return Err("route from a node to itself is not empty".into());
    }
    Ok(cost)
}

/// contracts nodes in a random order and adds all non-dominated shortcuts; levels are ranks
pub fn contract(r: &mut Rng, g: &GSpec) -> GSpec {
    let mut g = g.clone();
    for e in g.edges.iter_mut() {
        for m in e.m.iter_mut() {
            *m = corrected(*m);
        }
    }
    let mut order = g.used_ids();
    r.shuffle(&mut order);
    let base = r.range(0, 2);
    let gap = r.range(1, 3);
    let mut level: BTreeMap<i64, usize> = BTreeMap::new();
    let mut alive: BTreeSet<i64> = order.iter().cloned().collect();
    for (rank, v) in order.iter().enumerate() {
        level.insert(*v, base + rank * gap);
        alive.remove(v);
        let ins: Vec<usize> = (0..g.edges.len()).filter(|i| g.edges[*i].dst == *v && alive.contains(&g.edges[*i].src)).collect();
        let outs: Vec<usize> = (0..g.edges.len()).filter(|i| g.edges[*i].src == *v && alive.contains(&g.edges[*i].dst)).collect();
        for i in &ins {
            for o in &outs {
                let (u, w) = (g.edges[*i].src, g.edges[*o].dst);
                if u == w {
                    continue;
                }
                let m: Vec<f64> = g.edges[*i].m.iter().zip(&g.edges[*o].m).map(|(a, b)| a + b).collect();
                let dominated = g.edges.iter().any(|e| e.src == u && e.dst == w && e.m.iter().zip(&m).all(|(a, b)| a <= b));
                if !dominated {
                    g.edges.push(ESpec { id: None, src: u, dst: w, m, sc: Some([*i, *o]) });
                }
            }
        }
    }
    for n in g.nodes.iter_mut() {
        n.level = Some(level[&n.id]);
    }
    permute_edges(r, &mut g);
    g
}

pub fn permute_edges(r: &mut Rng, g: &mut GSpec) {
    let m = g.edges.len();
    let mut perm: Vec<usize> = (0..m).collect();
    r.shuffle(&mut perm);
    let mut inv = vec![0; m];
    for (new, old) in perm.iter().enumerate() {
        inv[*old] = new;
    }
    let mut es: Vec<ESpec> = perm.iter().map(|o| g.edges[*o].clone()).collect();
    for e in es.iter_mut() {
        if let Some(sc) = e.sc.as_mut() {
            sc[0] = inv[sc[0]];
            sc[1] = inv[sc[1]];
        }
    }
    g.edges = es;
}

/// flat view of a built graph's edges
#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub struct FlatEdge {
    pub id: Option<usize>,
    pub src: i64,
    pub dst: i64,
    pub m: Vec<f64>,
    pub sc: Option<[usize; 2]>,
}
pub fn flat(graph: &Graph) -> Vec<FlatEdge> {
    let fwd = graph.fwd_edges();
    let bwd = graph.bwd_edges();
    let nodes = graph.nodes();
    fwd.iter()
        .map(|e| FlatEdge {
            id: fwd.try_id(e),
            src: nodes.id(bwd.dst_idx(e)),
            dst: nodes.id(fwd.dst_idx(e)),
            m: graph.metrics()[e].to_vec(),
            sc: fwd.sc_edges(e).map(|s| [*s[0], *s[1]]),
        })
        .collect()
}
