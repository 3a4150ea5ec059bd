//! C06..C10
use crate::gspec::*;
use crate::p_route::size;
use crate::{Case, R};
use osmgraphing::network::{MetricIdx, NodeIdx, RoutePair};
use std::collections::BTreeMap;

fn give_ids(c: &mut Case, g: &mut GSpec) {
    let mode = c.rng.range(0, 3);
    if mode == 0 {
        return;
    }
    let m = g.edges.len();
    let mut ids: Vec<usize> = (0..m).map(|i| i * c.rng.range(1, 1).max(1)).collect();
    if mode >= 2 {
        let mut s = std::collections::BTreeSet::new();
        while s.len() < m {
            s.insert(if mode == 2 { c.rng.range(0, 4 * m) } else { c.rng.next() as usize >> c.rng.range(0, 40) });
        }
        ids = s.into_iter().collect();
    }
    c.rng.shuffle(&mut ids);
    let partial = c.rng.chance(1, 3);
    for i in 0..m {
        if !partial || c.rng.chance(1, 2) {
            g.edges[i].id = Some(ids[i]);
        }
    }
}
fn add_duplicates(c: &mut Case, g: &mut GSpec) {
    for _ in 0..*c.rng.pick(&[0usize, 0, 1, 2, 6]) {
        let e = c.rng.pick(&g.edges).clone();
        let pos = c.rng.range(0, g.edges.len());
        g.edges.insert(pos, e);
    }
}
type K = (i64, i64, Option<usize>, Vec<u64>);
fn key_of(src: i64, dst: i64, id: Option<usize>, m: &[f64]) -> K {
    (src, dst, id, m.iter().map(|x| x.to_bits()).collect())
}

pub fn c06(c: &mut Case) -> R {
    let k = *c.rng.pick(&[Kind::Ints, Kind::Ties, Kind::Halves]);
    let mx = size(c);
    let mut g = random_graph(&mut c.rng, k, mx);
    give_ids(c, &mut g);
    add_duplicates(c, &mut g);
    if c.rng.chance(1, 3) {
        for n in g.nodes.iter_mut() {
            n.level = Some(c.rng.range(0, 4));
        }
    }
    if c.rng.chance(1, 12) {
        // two copies of a larger one
        let es = g.edges.clone();
        g.edges.extend(es);
    }
    c.note(|| g.dump());
    c.key(&format!("{:?}", g.edges));
    let graph = g.build()?;
    let mut want: BTreeMap<K, usize> = BTreeMap::new();
    for e in &g.edges {
        let m: Vec<f64> = e.m.iter().map(|x| corrected(*x)).collect();
        *want.entry(key_of(e.src, e.dst, e.id, &m)).or_insert(0) += 1;
    }
    let (fwd, bwd, nodes) = (graph.fwd_edges(), graph.bwd_edges(), graph.nodes());
    if fwd.count() != bwd.count() {
        return Err("forward and backward edge counts differ".into());
    }
    if fwd.iter().count() != fwd.count() || bwd.iter().count() != fwd.count() {
        return Err("iterating over edges yields another number than count()".into());
    }
    let mut got: BTreeMap<K, usize> = BTreeMap::new();
    let fl = flat(&graph);
    for e in &fl {
        *got.entry(key_of(e.src, e.dst, e.id, &e.m)).or_insert(0) += 1;
        if e.sc.is_some() {
            return Err(format!("edge {:?} became a shortcut", e));
        }
    }
    for (k, n) in &got {
        match want.get(k) {
            None => return Err(format!("the graph has the edge {:?}, which was not given", k)),
            Some(w) if n > w => return Err(format!("the graph has the edge {:?} {} times, given {} times", k, n, w)),
            _ => (),
        }
    }
    for k in want.keys() {
        if !got.contains_key(k) {
            return Err(format!("the given edge {:?} is missing in the graph", k));
        }
    }
    // per node
    for v in 0..nodes.count() {
        let v = NodeIdx(v);
        c.evals += 1;
        let mut a: Vec<usize> = fwd.starting_from(v).map(|h| *h.idx()).collect();
        let mut b: Vec<usize> = bwd.starting_from(v).map(|h| *h.idx()).collect();
        for h in fwd.starting_from(v) {
            if h.dst_idx() != fwd.dst_idx(h.idx()) || h.metrics().to_vec() != fl[*h.idx()].m || h.is_shortcut() {
                return Err(format!("leaving half-edge {} disagrees with the edge accessor", h.idx()));
            }
        }
        for h in bwd.starting_from(v) {
            if h.dst_idx() != bwd.dst_idx(h.idx()) || h.metrics().to_vec() != fl[*h.idx()].m {
                return Err(format!("entering half-edge {} disagrees with the edge accessor", h.idx()));
            }
        }
        a.sort();
        b.sort();
        let ea: Vec<usize> = (0..fl.len()).filter(|e| fl[*e].src == nodes.id(v)).collect();
        let eb: Vec<usize> = (0..fl.len()).filter(|e| fl[*e].dst == nodes.id(v)).collect();
        if a != ea {
            return Err(format!("leaving edges of node {} are {:?}, expected {:?}", nodes.id(v), a, ea));
        }
        if b != eb {
            return Err(format!("entering edges of node {} are {:?}, expected {:?}", nodes.id(v), b, eb));
        }
        for w in 0..nodes.count() {
            let w = NodeIdx(w);
            for (acc, s, t, n) in [(&fwd, v, w, "fwd"), (&bwd, w, v, "bwd")].iter() {
                let ex = fl.iter().any(|e| e.src == nodes.id(*s) && e.dst == nodes.id(*t));
                match acc.between(v, w) {
                    None if ex => return Err(format!("{} lookup {} -> {} finds no edge, but one exists", n, nodes.id(v), nodes.id(w))),
                    Some(h) => {
                        let e = &fl[*h.idx()];
                        if e.src != nodes.id(*s) || e.dst != nodes.id(*t) {
                            return Err(format!("{} lookup {} -> {} finds the edge {:?}", n, nodes.id(v), nodes.id(w), e));
                        }
                    }
                    _ => (),
                }
            }
        }
    }
    // ids
    for (i, e) in fl.iter().enumerate() {
        if let Some(id) = e.id {
            match fwd.try_idx_from(id) {
                Ok(x) if *x == i => (),
                Ok(x) => return Err(format!("lookup of edge-id {} yields edge {}, expected {}", id, x, i)),
                Err(m) => return Err(format!("lookup of edge-id {} fails: {}", id, m)),
            }
        }
    }
    for _ in 0..5 {
        let id = c.rng.range(0, 4 * fl.len() + 3);
        if !fl.iter().any(|e| e.id == Some(id)) && fwd.try_idx_from(id).is_ok() {
            return Err(format!("lookup of unknown edge-id {} finds an edge", id));
        }
    }
    Ok(())
}

pub fn c07(c: &mut Case) -> R {
    let mx = size(c);
    let mut g = random_graph(&mut c.rng, Kind::Ints, mx);
    // revisit the same few nodes in patterns which exercise the duplicate suppression
    if c.rng.chance(1, 2) {
        let ids = g.used_ids();
        let mut es = vec![];
        let mut cur = *c.rng.pick(&ids);
        for _ in 0..c.rng.range(1, 10) {
            let nxt = if c.rng.chance(1, 3) { cur } else { *c.rng.pick(&ids) };
            es.push(ESpec { id: None, src: cur, dst: nxt, m: vec![1.0; g.dim], sc: None });
            if c.rng.chance(1, 3) {
                es.push(ESpec { id: None, src: nxt, dst: cur, m: vec![1.0; g.dim], sc: None });
            }
            cur = nxt;
        }
        if c.rng.chance(1, 2) {
            g.edges = es;
        } else {
            g.edges.extend(es);
        }
    }
    let used = g.used_ids();
    g.nodes.clear();
    let mut want: BTreeMap<i64, (f64, f64, usize)> = BTreeMap::new();
    for id in &used {
        let (lat, lon) = coord(&mut c.rng);
        let level = if c.rng.chance(1, 2) { Some(c.rng.range(0, 9)) } else { None };
        g.nodes.push(NSpec { id: *id, lat, lon, level });
        want.insert(*id, (lat, lon, level.unwrap_or(0)));
    }
    for _ in 0..*c.rng.pick(&[0usize, 1, 4]) {
        let id = if c.rng.chance(1, 2) { c.rng.next() as i64 } else { c.rng.range(0, 60) as i64 - 5 };
        if !want.contains_key(&id) {
            let (lat, lon) = coord(&mut c.rng);
            g.nodes.push(NSpec { id, lat, lon, level: Some(3) });
        }
    }
    // repeat some node (identically)
    if c.rng.chance(1, 3) {
        let n = c.rng.pick(&g.nodes).clone();
        g.nodes.push(n);
    }
    c.rng.shuffle(&mut g.nodes);
    let missing = c.rng.chance(1, 6);
    if missing {
        let id = *c.rng.pick(&used);
        g.nodes.retain(|n| n.id != id);
    }
    c.note(|| g.dump());
    c.key(&format!("{:?}{:?}", g.edges, g.nodes));
    // what inserting nodes reports
    {
        use osmgraphing::network::{GraphBuilder, ProtoEdge, ProtoNode};
        let mut b = GraphBuilder::new(g.cfg()?);
        for e in &g.edges {
            b.insert(ProtoEdge { id: None, src_id: e.src, dst_id: e.dst, metrics: osmgraphing::defaults::capacity::DimVec::from_slice(&e.m) })
                .map_err(|m| format!("{}", m))?;
        }
        let mut b = b.next();
        for n in &g.nodes {
            let r = b.insert(ProtoNode { id: n.id, coord: kissunits::geo::Coordinate { lat: n.lat, lon: n.lon }, ch_level: n.level });
            if r != want.contains_key(&n.id) {
                return Err(format!("inserting node {} reports {}", n.id, r));
            }
        }
    }
    let graph = match (g.build(), missing) {
        (Err(_), true) => return Ok(()),
        (Ok(_), true) => return Err("building succeeds though a node has no coordinate".into()),
        (r, false) => r?,
    };
    let nodes = graph.nodes();
    if nodes.count() != want.len() || nodes.iter().count() != want.len() {
        return Err(format!("graph has {} nodes, expected {}", nodes.count(), want.len()));
    }
    for (i, (id, (lat, lon, lvl))) in want.iter().enumerate() {
        let v = NodeIdx(i);
        c.evals += 1;
        if nodes.id(v) != *id {
            return Err(format!("node #{} has id {}, expected {}", i, nodes.id(v), id));
        }
        if nodes.coord(v).lat != *lat || nodes.coord(v).lon != *lon {
            return Err(format!("node {} has coordinate {:?}, expected ({}, {})", id, nodes.coord(v), lat, lon));
        }
        if nodes.level(v) != *lvl {
            return Err(format!("node {} has level {}, expected {}", id, nodes.level(v), lvl));
        }
        if nodes.idx_from(*id) != Ok(v) {
            return Err(format!("lookup of node {} yields {:?}", id, nodes.idx_from(*id)));
        }
        for n in [nodes.create(v), nodes.create_from(*id).ok_or("create_from fails")?].iter() {
            if n.id() != *id || n.idx() != v || n.coord().lat != *lat || n.coord().lon != *lon || n.ch_level() != *lvl {
                return Err(format!("node object of {} is {:?}", id, n));
            }
        }
        let rp = RoutePair { src: *id, dst: *id }.into_idx(&graph);
        if rp.src != v || rp.dst != v {
            return Err("RoutePair::into_idx is wrong".into());
        }
        let rn = RoutePair { src: *id, dst: used[0] }.into_node(&graph);
        if rn.src.id() != *id || rn.dst.id() != used[0] {
            return Err("RoutePair::into_node is wrong".into());
        }
        for d in [-1i64, 1].iter() {
            let x = id.wrapping_add(*d);
            if !want.contains_key(&x) && (nodes.idx_from(x).is_ok() || nodes.create_from(x).is_some()) {
                return Err(format!("lookup of unknown node {} succeeds", x));
            }
        }
    }
    for x in [i64::MIN, i64::MAX, 0, -1].iter() {
        if nodes.idx_from(*x).is_ok() != want.contains_key(x) {
            return Err(format!("lookup of node {} is wrong", x));
        }
    }
    Ok(())
}

pub fn c08(c: &mut Case) -> R {
    let mx = size(c).min(20);
    let mut g = random_graph(&mut c.rng, Kind::Ties, mx);
    let with_ids = c.rng.chance(1, 3);
    if with_ids {
        give_ids(c, &mut g);
    }
    add_duplicates(c, &mut g);
    let ids = g.used_ids();
    let base = g.edges.len();
    let nsc = *c.rng.pick(&[1usize, 1, 2, 3, 6, 12]);
    let mut fresh = 1_000_000;
    for j in 0..nsc {
        let (s, t) = (*c.rng.pick(&ids), *c.rng.pick(&ids));
        let m = g.edges.len();
        let hi = if c.rng.chance(1, 2) { base - 1 } else { m - 1 };
        let sc = [c.rng.range(0, hi), c.rng.range(0, hi)];
        let mut mm: Vec<f64> = (0..g.dim).map(|_| c.rng.range(1, 3) as f64).collect();
        mm[0] = 1000.0 + j as f64;
        let id = if with_ids && c.rng.chance(1, 2) {
            fresh += 1;
            Some(fresh)
        } else {
            None
        };
        let e = ESpec { id, src: s, dst: t, m: mm, sc: Some(sc) };
        g.edges.push(e.clone());
        if c.rng.chance(1, 6) {
            g.edges.push(e);
        }
    }
    // references may point to any position, also to later ones
    if c.rng.chance(1, 2) {
        permute_edges(&mut c.rng, &mut g);
    }
    if c.rng.chance(1, 3) {
        for n in g.nodes.iter_mut() {
            n.level = Some(c.rng.range(0, 4));
        }
    }
    let bad = c.rng.chance(1, 12);
    if bad {
        let m = g.edges.len();
        let scs: Vec<usize> = (0..m).filter(|i| g.edges[*i].sc.is_some()).collect();
        let v = *c.rng.pick(&scs);
        let slot = c.rng.range(0, 1);
        let mut sc = g.edges[v].sc.unwrap();
        sc[slot] = m + *c.rng.pick(&[0usize, 1, 1000, usize::MAX / 2]);
        g.edges[v].sc = Some(sc);
    }
    c.note(|| g.dump());
    c.key(&format!("{:?}", g.edges));
    let graph = match (g.build(), bad) {
        (Err(_), true) => return Ok(()),
        (Ok(_), true) => return Err("building succeeds though a shortcut refers to an edge that does not exist".into()),
        (r, false) => r?,
    };
    let fl = flat(&graph);
    let kf = |i: usize| key_of(fl[i].src, fl[i].dst, fl[i].id, &fl[i].m);
    let ki = |i: usize| {
        let e = &g.edges[i];
        key_of(e.src, e.dst, e.id, &e.m.iter().map(|x| corrected(*x)).collect::<Vec<_>>())
    };
    let mut want: BTreeMap<K, Vec<(K, K)>> = BTreeMap::new();
    for (i, e) in g.edges.iter().enumerate() {
        if let Some(sc) = e.sc {
            want.entry(ki(i)).or_default().push((ki(sc[0]), ki(sc[1])));
        }
    }
    let fwd = graph.fwd_edges();
    for e in fwd.iter() {
        c.evals += 1;
        let k = kf(*e);
        let h = fwd.half_edge(e);
        if fwd.is_shortcut(e) != fwd.sc_edges(e).is_some() || h.is_shortcut() != fwd.is_shortcut(e) || h.sc_edges() != fwd.sc_edges(e) {
            return Err(format!("shortcut accessors of edge {} disagree", e));
        }
        match (fl[*e].sc, want.get(&k)) {
            (None, None) => (),
            (None, Some(_)) => return Err(format!("the shortcut {:?} is no shortcut any more", k)),
            (Some(_), None) => return Err(format!("the edge {:?} became a shortcut", k)),
            (Some(sc), Some(w)) => {
                if sc[0] >= fl.len() || sc[1] >= fl.len() {
                    return Err(format!("the shortcut {:?} refers to edges {:?}, which do not exist", k, sc));
                }
                let g2 = (kf(sc[0]), kf(sc[1]));
                if !w.contains(&g2) {
                    return Err(format!("the shortcut {:?} refers to {:?}, expected one of {:?}", k, g2, w));
                }
            }
        }
    }
    for k in want.keys() {
        if !(0..fl.len()).any(|i| kf(i) == *k) {
            return Err(format!("the shortcut {:?} is missing", k));
        }
    }
    Ok(())
}

pub fn c09(c: &mut Case) -> R {
    let mut g = random_graph(&mut c.rng, Kind::Ints, 8);
    let mut bad = false;
    let many = c.rng.chance(1, 3);
    let m = g.edges.len();
    for i in 0..m {
        for d in 0..g.dim {
            if !(many || c.rng.chance(1, 6)) {
                continue;
            }
            let special = [0.0, -0.0, 1e-6, 0.9e-6, -0.9e-6, 2e-6, 1.4e-6, 1e-7, 5e-324, 1e300, f64::INFINITY, f64::MAX, 3.0, 1e-5, 1.6e-6, 0.5e-6, -1e-300];
            g.edges[i].m[d] = *c.rng.pick(&special);
            if c.rng.chance(1, 5) {
                g.edges[i].m[d] = 10f64.powf(c.rng.unit() * 16.0 - 9.0);
            }
        }
    }
    if c.rng.chance(1, 3) {
        bad = true;
        let i = c.rng.range(0, m - 1);
        let d = c.rng.range(0, g.dim - 1);
        g.edges[i].m[d] = *c.rng.pick(&[-2e-6, -3e-6, -1.0, -1e300, f64::NEG_INFINITY, f64::NAN, -f64::NAN, -1e-5]);
    }
    // ids keep edges apart, so every stored value can be attributed
    for i in 0..m {
        g.edges[i].id = Some(i);
    }
    c.note(|| g.dump());
    c.key(&format!("{:?}", g.edges));
    c.evals = (m * g.dim) as u64;
    let graph = match (g.build(), bad) {
        (Err(_), true) => return Ok(()),
        (Ok(_), true) => return Err("a graph with a negative or not-a-number metric was built".into()),
        (r, false) => r?,
    };
    for e in &g.edges {
        let got = &graph.metrics()[graph.fwd_edges().idx_from(e.id.unwrap())];
        if got.len() != g.dim {
            return Err(format!("edge {:?} has {} metrics", e.id, got.len()));
        }
        for d in 0..g.dim {
            let (x, y) = (e.m[d], got[d]);
            let ok = if x >= 2e-6 {
                y == x
            } else if x.abs() <= 0.9e-6 {
                y == 1e-6
            } else {
                y >= 1e-6 && y <= x.max(1e-6)
            };
            if !ok {
                return Err(format!("metric {} is stored as {}", x, y));
            }
        }
    }
    Ok(())
}

pub fn c10(c: &mut Case) -> R {
    let k = *c.rng.pick(&[Kind::Ints, Kind::Floats, Kind::Zeros, Kind::Ties]);
    let mx = size(c);
    let mut g = random_graph(&mut c.rng, k, mx);
    let mode = c.rng.range(0, 11);
    let mut expect_err = false;
    if mode == 0 {
        g.edges.clear();
        g.nodes.clear();
        expect_err = true;
    } else if mode == 1 {
        g.generating = Some("    - custom: { unit: 'F64', id: 'cst', default: 0.0 }\n".into());
        g.dim = g.dim;
        expect_err = true;
    } else if mode == 2 {
        g.generating = Some("    - custom: { unit: 'F64', id: 'cst', default: 2.5 }\n    - copy: { from: { unit: 'F64', id: 'm0' }, to: { unit: 'F64', id: 'cp' } }\n".into());
        if g.dim > 3 {
            g.generating = None;
        }
    } else if mode == 3 {
        // one dominating value
        let i = c.rng.range(0, g.edges.len() - 1);
        g.edges[i].m[0] = 1e9;
    } else if mode == 4 {
        for e in g.edges.iter_mut() {
            e.m[0] = 0.000_001 * c.rng.range(3, 20) as f64;
        }
    }
    if g.dim > 4 {
        g.generating = None;
        expect_err = mode == 0;
    }
    c.note(|| g.dump());
    c.key(&format!("{:?}", g.edges));
    let plain = g.build();
    g.norm = true;
    let norm = g.build();
    let plain = match plain {
        Ok(p) => p,
        Err(e) if g.edges.is_empty() => return Err(format!("an empty graph without normalisation can not be built: {}", e)),
        Err(e) => return Err(e),
    };
    for i in 0..plain.metrics().dim() {
        if plain.metrics().mean(MetricIdx(i)).is_some() {
            return Err("a mean is reported without normalisation".into());
        }
    }
    // a mean around the accuracy counts as zero or not
    let tiny = (0..plain.metrics().dim()).any(|d| {
        let n = plain.fwd_edges().count() as f64;
        plain.fwd_edges().iter().map(|e| plain.metrics()[e][d]).sum::<f64>() / n < 2e-6
    });
    let norm = match (norm, expect_err) {
        (Err(_), false) if tiny => return Ok(()),
        (Err(_), true) => return Ok(()),
        (Ok(_), true) => return Err("normalising with a zero mean or without edges succeeds".into()),
        (r, false) => r?,
    };
    let dim = plain.metrics().dim();
    if norm.metrics().dim() != dim || norm.fwd_edges().count() != plain.fwd_edges().count() {
        return Err("normalisation changes the shape of the graph".into());
    }
    let n = plain.fwd_edges().count() as f64;
    for d in 0..dim {
        c.evals += 1;
        let mean = plain.fwd_edges().iter().map(|e| plain.metrics()[e][d]).sum::<f64>() / n;
        let got = norm.metrics().mean(MetricIdx(d)).ok_or("no mean is reported")?;
        if (got - mean).abs() > 1e-9 * mean.abs() {
            return Err(format!("remembered mean of metric {} is {}, expected {}", d, got, mean));
        }
        for e in plain.fwd_edges().iter() {
            let x = plain.metrics()[e][d];
            let y = norm.metrics()[e][d];
            let w = x / mean;
            let ok = if w >= 2e-6 { (y - w).abs() <= 1e-9 * w } else if w <= 0.9e-6 { y == 1e-6 } else { y >= 1e-6 && y <= w.max(1e-6) * (1.0 + 1e-9) };
            if !ok {
                return Err(format!("metric {} of edge {} is {}, original {} and mean {}", d, e, y, x, mean));
            }
        }
    }
    Ok(())
}
