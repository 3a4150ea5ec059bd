//! C01..C05
use crate::gspec::*;
use crate::{Case, R};
use osmgraphing::network::{EdgeIdx, NodeIdx};
use osmgraphing::routing::{dijkstra::Dijkstra, paths::Path};

pub fn kind(c: &mut Case) -> Kind {
    *c.rng.pick(&[Kind::Ints, Kind::Ties, Kind::Halves, Kind::Floats, Kind::Zeros])
}
pub fn size(c: &mut Case) -> usize {
    if c.rng.chance(1, 20) {
        60
    } else {
        14
    }
}
fn exact(k: Kind) -> bool {
    k == Kind::Ints || k == Kind::Ties || k == Kind::Halves
}
fn tol(k: Kind, x: f64) -> f64 {
    if exact(k) {
        1e-9
    } else {
        1e-4 + 1e-9 * x.abs()
    }
}

pub fn c01(c: &mut Case) -> R {
    let k = kind(c);
    let mx = size(c);
    let mut g = random_graph(&mut c.rng, k, mx);
    g.norm = false;
    c.note(|| g.dump());
    let graph = g.build()?;
    let ids = g.used_ids();
    let n = ids.len();
    for _ in 0..c.rng.range(1, 3) {
        let mut al = random_alphas(&mut c.rng, g.dim, k);
        if c.rng.chance(1, 25) {
            let i = c.rng.range(0, g.dim - 1);
            al[i] = -0.5;
            let cfg = routing_cfg(&al, false);
            let (s, t) = (c.rng.range(0, n - 1), c.rng.range(0, n - 1));
            if query(&mut Dijkstra::new(), &graph, &cfg, NodeIdx(s), NodeIdx(t)).is_some() {
                return Err("a route was returned for negative weights".into());
            }
            continue;
        }
        let cfg = routing_cfg(&al, false);
        let all = n <= 6;
        let srcs: Vec<usize> = if all { (0..n).collect() } else { (0..3).map(|_| c.rng.range(0, n - 1)).collect() };
        for s in srcs {
            let best = oracle(&g, &al, ids[s]);
            let dsts: Vec<usize> = if all { (0..n).collect() } else { (0..6).map(|_| c.rng.range(0, n - 1)).collect() };
            for t in dsts {
                c.evals += 1;
                c.key(&(s, t, &al, g.edges.len()));
                c.note(|| format!("query {} -> {} alphas {:?}", ids[s], ids[t], al));
                let si = graph.nodes().idx_from(ids[s]).map_err(|_| "node not found".to_string())?;
                let ti = graph.nodes().idx_from(ids[t]).map_err(|_| "node not found".to_string())?;
                let p = query(&mut Dijkstra::new(), &graph, &cfg, si, ti);
                match (p, best.get(&ids[t])) {
                    (None, None) => (),
                    (Some(_), None) => return Err(format!("a route {} -> {} was returned, but none exists", ids[s], ids[t])),
                    (None, Some(d)) => return Err(format!("no route {} -> {} was returned, but one of cost {} exists", ids[s], ids[t], d)),
                    (Some(p), Some(d)) => {
                        let mut cost = 0.0;
                        for e in p.iter() {
                            cost += dot(&al, &graph.metrics()[*e]);
                        }
                        if (cost - d).abs() > tol(k, *d) {
                            return Err(format!("route {} -> {} with weights {:?} costs {}, cheapest is {}", ids[s], ids[t], al, cost, d));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c02(c: &mut Case) -> R {
    let k = kind(c);
    let mx = size(c).min(24);
    let mut g = random_graph(&mut c.rng, k, mx);
    let ch = c.rng.chance(1, 2);
    if ch && c.rng.chance(2, 3) {
        let mut r = c.rng.clone();
        if g.used_ids().len() > 14 {
            g = random_graph(&mut r, k, 12);
        }
        g = contract(&mut r, &g);
        c.rng = r;
    }
    c.note(|| g.dump());
    let graph = g.build()?;
    let n = graph.nodes().count();
    let al = random_alphas(&mut c.rng, g.dim, k);
    let cfg = routing_cfg(&al, ch);
    let all = n <= 6;
    let mut pairs: Vec<(usize, usize)> = vec![];
    if all {
        for s in 0..n {
            for t in 0..n {
                pairs.push((s, t));
            }
        }
    } else {
        for _ in 0..12 {
            pairs.push((c.rng.range(0, n - 1), c.rng.range(0, n - 1)));
        }
        pairs.push((n - 1, n - 1));
    }
    for (s, t) in pairs {
        c.evals += 1;
        c.note(|| format!("query idx {} -> {} alphas {:?} ch={}", s, t, al, ch));
        c.key(&(s, t, &al, g.edges.len()));
        let p = query(&mut Dijkstra::new(), &graph, &cfg, NodeIdx(s), NodeIdx(t));
        if let Some(p) = p {
            check_walk(&graph, &p, NodeIdx(s), NodeIdx(t), &al)?;
            let shown = format!("{}", p);
            let want = format!("src-id: {}, dst-id: {},", graph.nodes().id(NodeIdx(s)), graph.nodes().id(NodeIdx(t)));
            if !shown.contains(&want) {
                return Err(format!("route reports {}, expected {}", shown, want));
            }
        } else if s == t {
            return Err("no (empty) route from a node to itself".into());
        }
    }
    Ok(())
}

pub fn c03(c: &mut Case) -> R {
    let k = *c.rng.pick(&[Kind::Ints, Kind::Ties, Kind::Halves, Kind::Zeros]);
    let mx = if c.rng.chance(1, 10) { 16 } else { 9 };
    let base = random_graph(&mut c.rng, k, mx);
    let contracted = c.rng.chance(4, 5);
    let g = if contracted { contract(&mut c.rng, &base) } else { base.clone() };
    c.note(|| g.dump());
    let graph = g.build()?;
    let n = graph.nodes().count();
    for _ in 0..2 {
        let al = random_alphas(&mut c.rng, g.dim, k);
        let (plain, ch) = (routing_cfg(&al, false), routing_cfg(&al, true));
        for s in 0..n {
            let best = oracle(&base, &al, graph.nodes().id(NodeIdx(s)));
            for t in 0..n {
                if n > 8 && !c.rng.chance(1, 4) {
                    continue;
                }
                c.evals += 1;
                c.key(&(s, t, &al, g.edges.len()));
                c.note(|| format!("query idx {} -> {} alphas {:?}", s, t, al));
                let a = query(&mut Dijkstra::new(), &graph, &plain, NodeIdx(s), NodeIdx(t));
                let b = query(&mut Dijkstra::new(), &graph, &ch, NodeIdx(s), NodeIdx(t));
                let w = best.get(&graph.nodes().id(NodeIdx(t)));
                let cost = |p: &Path| p.iter().map(|e| dot(&al, &graph.metrics()[*e])).sum::<f64>();
                match (&a, &b) {
                    (None, None) => (),
                    (Some(a), Some(b)) => {
                        if (cost(a) - cost(b)).abs() > tol(k, cost(a)) {
                            return Err(format!("idx {} -> {} weights {:?}: plain routing costs {}, hierarchical costs {}", s, t, al, cost(a), cost(b)));
                        }
                        if let Some(w) = w {
                            if (cost(b) - w).abs() > tol(k, *w) {
                                return Err(format!("idx {} -> {} weights {:?}: hierarchical route costs {}, cheapest {}", s, t, al, cost(b), w));
                            }
                        }
                    }
                    _ => return Err(format!("idx {} -> {}: plain routing finds {:?}, hierarchical finds {:?}", s, t, a, b)),
                }
            }
        }
    }
    Ok(())
}

pub fn c04(c: &mut Case) -> R {
    let mut specs = vec![];
    for _ in 0..c.rng.range(2, 5) {
        let k = kind(c);
        let mx = *c.rng.pick(&[2usize, 3, 5, 9, 20]);
        let mut g = random_graph(&mut c.rng, k, mx);
        if c.rng.chance(1, 3) && g.used_ids().len() <= 9 {
            let mut r = c.rng.clone();
            g = contract(&mut r, &g);
            c.rng = r;
        }
        specs.push((g, k));
    }
    for (g, _) in &specs {
        let d = g.dump();
        c.note(|| d);
    }
    let mut graphs = vec![];
    for (g, _) in &specs {
        graphs.push(g.build()?);
    }
    let mut reused = Dijkstra::new();
    let stay = c.rng.chance(1, 2);
    let mut gi = 0;
    for q in 0..c.rng.range(4, 40) {
        if !stay || c.rng.chance(1, 4) {
            gi = c.rng.range(0, graphs.len() - 1);
        }
        let (spec, k) = &specs[gi];
        let graph = &graphs[gi];
        let n = graph.nodes().count();
        let mut al = random_alphas(&mut c.rng, spec.dim, *k);
        if c.rng.chance(1, 15) {
            al[0] = -1.0;
        }
        let ch = c.rng.chance(1, 2);
        let cfg = routing_cfg(&al, ch);
        let (s, t) = (NodeIdx(c.rng.range(0, n - 1)), NodeIdx(c.rng.range(0, n - 1)));
        c.evals += 1;
        c.key(&(s, t, &al, gi, n, ch));
        c.note(|| format!("query #{} graph #{} idx {} -> {} alphas {:?} ch={}", q, gi, s, t, al, ch));
        let a = query(&mut reused, graph, &cfg, s, t);
        let b = query(&mut Dijkstra::new(), graph, &cfg, s, t);
        let same = match (&a, &b) {
            (None, None) => true,
            (Some(a), Some(b)) => a == b && a.src_idx() == b.src_idx() && a.dst_idx() == b.dst_idx(),
            _ => false,
        };
        if !same {
            return Err(format!("query #{} (graph #{}, idx {} -> {}): reused router gives {:?}, fresh router gives {:?}", q, gi, s, t, a, b));
        }
    }
    Ok(())
}

pub fn c05(c: &mut Case) -> R {
    let dim = c.rng.range(1, 4);
    let n = c.rng.range(2, 8);
    let mut g = GSpec::new(dim);
    let mut id = 0;
    let mut push = |c: &mut Case, g: &mut GSpec, s: usize, t: usize, sc: Option<[usize; 2]>| {
        let m = match sc {
            // shortcuts carry the sum, as real ones do, or something else (then only the flat costs count)
            Some([a, b]) if a < g.edges.len() && b < g.edges.len() => g.edges[a].m.iter().zip(&g.edges[b].m).map(|(x, y)| x + y).collect(),
            _ => (0..dim).map(|_| c.rng.range(1, 50) as f64).collect(),
        };
        g.edges.push(ESpec { id: Some(id), src: s as i64, dst: t as i64, m, sc });
        id += 1;
    };
    for i in 0..n - 1 {
        push(c, &mut g, i, i + 1, None);
    }
    push(c, &mut g, n - 1, 0, None);
    let nsc = *c.rng.pick(&[0usize, 1, 2, 4, 8, 14]);
    let mut tries = 0;
    let mut made = 0;
    let deep = c.rng.chance(1, 3);
    let mut len: Vec<f64> = vec![1.0; g.edges.len()];
    while made < nsc && tries < 500 {
        tries += 1;
        let m = g.edges.len();
        let a = if deep && c.rng.chance(1, 2) { m - 1 } else { c.rng.range(0, m - 1) };
        let b = if deep && c.rng.chance(1, 2) { m - 1 } else { c.rng.range(0, m - 1) };
        if g.edges[a].dst == g.edges[b].src && len[a] + len[b] < 5000.0 {
            let (s, t) = (g.edges[a].src as usize, g.edges[b].dst as usize);
            push(c, &mut g, s, t, Some([a, b]));
            len.push(len[a] + len[b]);
            made += 1;
        }
    }
    let cyclic = made > 0 && c.rng.chance(1, 4);
    let mut in_cycle = vec![false; g.edges.len()];
    if cyclic {
        // make some shortcuts refer to themselves, directly or via others
        let scs: Vec<usize> = (0..g.edges.len()).filter(|i| g.edges[*i].sc.is_some()).collect();
        let v = *c.rng.pick(&scs);
        let w = *c.rng.pick(&scs);
        let slot = c.rng.range(0, 1);
        if c.rng.chance(1, 8) {
            g.edges[v].sc = Some([v, v]);
        } else {
            let mut sc = g.edges[v].sc.unwrap();
            sc[slot] = w.max(v);
            g.edges[v].sc = Some(sc);
        }
    }
    // which edges reach a cycle of references?
    fn reaches(g: &GSpec, e: usize, seen: &mut Vec<u8>) -> bool {
        match seen[e] {
            1 => return true,
            2 => return false,
            3 => return true,
            _ => (),
        }
        seen[e] = 1;
        let mut r = false;
        if let Some(sc) = g.edges[e].sc {
            for x in sc.iter() {
                if reaches(g, *x, seen) {
                    r = true;
                }
            }
        }
        seen[e] = if r { 3 } else { 2 };
        r
    }
    for e in 0..g.edges.len() {
        let mut seen = vec![0u8; g.edges.len()];
        in_cycle[e] = reaches(&g, e, &mut seen);
    }
    permute_edges2(c, &mut g, &mut in_cycle);
    for i in g.used_ids() {
        let (lat, lon) = coord(&mut c.rng);
        g.nodes.push(NSpec { id: i, lat, lon, level: None });
    }
    c.note(|| g.dump());
    let graph = g.build()?;
    let fwd = graph.fwd_edges();
    let byid: std::collections::BTreeMap<usize, usize> = g.edges.iter().enumerate().map(|(i, e)| (e.id.unwrap(), i)).collect();
    fn expand(g: &GSpec, e: usize, out: &mut Vec<usize>) {
        match g.edges[e].sc {
            None => out.push(e),
            Some(sc) => {
                expand(g, sc[0], out);
                expand(g, sc[1], out);
            }
        }
    }
    for _ in 0..3 {
        // a walk: follow connected edges
        let m = g.edges.len();
        let mut walk = vec![];
        let want = *c.rng.pick(&[0usize, 1, 1, 2, 3, 5, 10, 30]);
        let mut cur = c.rng.range(0, m - 1);
        let start = g.edges[cur].src;
        for _ in 0..want {
            walk.push(cur);
            let nexts: Vec<usize> = (0..m).filter(|i| g.edges[*i].src == g.edges[cur].dst).collect();
            if nexts.is_empty() {
                break;
            }
            // prefer shortcuts
            let scs: Vec<usize> = nexts.iter().cloned().filter(|i| g.edges[*i].sc.is_some()).collect();
            cur = if !scs.is_empty() && c.rng.chance(1, 2) { *c.rng.pick(&scs) } else { *c.rng.pick(&nexts) };
        }
        let end = walk.last().map(|e| g.edges[*e].dst).unwrap_or(start);
        let idxs: Vec<EdgeIdx> = walk.iter().map(|e| fwd.idx_from(g.edges[*e].id.unwrap())).collect();
        let bad = walk.iter().any(|e| in_cycle[*e]);
        let mut exp = vec![];
        if !bad {
            for e in &walk {
                expand(&g, *e, &mut exp);
                if exp.len() > 20000 {
                    break;
                }
            }
            if exp.len() > 20000 {
                continue;
            }
        }
        c.evals += 1;
        c.key(&(&walk, &exp, bad));
        c.note(|| format!("walk (edge-ids) {:?}", walk.iter().map(|e| g.edges[*e].id.unwrap()).collect::<Vec<_>>()));
        let nodes = graph.nodes();
        let (si, ti) = (nodes.idx_from(start).unwrap(), nodes.idx_from(end).unwrap());
        let mk = || Path::new(si, start, ti, end, idxs.clone());
        // unflattened costs
        let mut p = mk();
        let mut sum = vec![0.0; dim];
        for e in &walk {
            for d in 0..dim {
                sum[d] += g.edges[*e].m[d];
            }
        }
        if p.calc_costs(&graph).to_vec() != sum || p.calc_costs(&graph).to_vec() != sum || p.costs().to_vec() != sum {
            return Err(format!("costs of the route are {:?}, expected {:?}", p.costs(), sum));
        }
        if p.iter().cloned().collect::<Vec<_>>() != idxs || p.src_idx() != si || p.dst_idx() != ti {
            return Err("calculating costs changed the route".into());
        }
        let had = c.rng.chance(1, 2);
        match (if had { p } else { mk() }).try_flatten(&graph) {
            Err(m) => {
                if !bad {
                    return Err(format!("flattening fails ({}), although shortcuts are not cyclic", m));
                }
            }
            Ok(f) => {
                if bad {
                    return Err("flattening a cyclic shortcut succeeded".into());
                }
                let got: Vec<usize> = f.iter().map(|e| byid[&fwd.id(*e)]).collect();
                if got != exp {
                    return Err(format!("flattened edges are {:?}, expected {:?} (input positions)", got, exp));
                }
                if f.src_idx() != si || f.dst_idx() != ti {
                    return Err("flattening changed the ends of the route".into());
                }
                let mut sum = vec![0.0; dim];
                for e in &exp {
                    for d in 0..dim {
                        sum[d] += g.edges[*e].m[d];
                    }
                }
                if f.costs().to_vec() != sum {
                    return Err(format!("costs of the flattened route are {:?}, expected {:?}", f.costs(), sum));
                }
                let mut f2 = f.clone();
                if f2.calc_costs(&graph).to_vec() != sum {
                    return Err("recalculated costs of the flattened route differ".into());
                }
                let again = f.try_flatten(&graph).map_err(|m| format!("flattening twice fails: {}", m))?;
                if again.iter().map(|e| byid[&fwd.id(*e)]).collect::<Vec<_>>() != exp {
                    return Err("flattening twice changes the route".into());
                }
            }
        }
    }
    Ok(())
}

fn permute_edges2(c: &mut Case, g: &mut GSpec, flags: &mut Vec<bool>) {
    for (i, e) in g.edges.iter_mut().enumerate() {
        e.m.push(if flags[i] { 1.0 } else { 0.0 });
    }
    permute_edges(&mut c.rng, g);
    for (i, e) in g.edges.iter_mut().enumerate() {
        flags[i] = e.m.pop().unwrap() == 1.0;
    }
}
