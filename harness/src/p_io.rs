//! C13 reading text maps, C14 writing graphs, C15 route files
use crate::gspec::*;
use crate::rng::Rng;
use crate::{Case, R};
use osmgraphing::configs::{
    parsing,
    routing::Config as RoutingConfig,
    writing::{network as wnet, routing as wrouting},
    SimpleId,
};
use osmgraphing::defaults::writing::{IGNORE_STR, NO_SHORTCUT_IDX};
use osmgraphing::io::{self, network::graph::Parser};
use osmgraphing::network::{Graph, ProtoNode, ProtoShortcut};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Debug)]
enum NC {
    Id,
    Lat,
    Lon,
    Lvl,
    /// a second column of the same unit
    Lat2,
    Lon2,
    Ign,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum EC {
    Id,
    Src,
    Dst,
    S0,
    S1,
    M(usize),
    Ign,
}
fn ncol(x: NC) -> String {
    match x {
        NC::Id => "  - meta: { info: 'NodeId', id: 'node-id' }\n".into(),
        NC::Lat => "  - metric: { unit: 'Latitude', id: 'lat' }\n".into(),
        NC::Lon => "  - metric: { unit: 'Longitude', id: 'lon' }\n".into(),
        NC::Lvl => "  - meta: { info: 'CHLevel', id: 'lvl' }\n".into(),
        NC::Lat2 => "  - metric: { unit: 'Latitude', id: 'lat2' }\n".into(),
        NC::Lon2 => "  - metric: { unit: 'Longitude', id: 'lon2' }\n".into(),
        NC::Ign => "  - ignored\n".into(),
    }
}
fn ecol(x: EC) -> String {
    match x {
        EC::Id => "    - meta: { info: 'EdgeId', id: 'edge-id' }\n".into(),
        EC::Src => "    - meta: { info: 'SrcId', id: 'src-id' }\n".into(),
        EC::Dst => "    - meta: { info: 'DstId', id: 'dst-id' }\n".into(),
        EC::S0 => "    - meta: { info: 'ShortcutIdx0', id: 'sc0' }\n".into(),
        EC::S1 => "    - meta: { info: 'ShortcutIdx1', id: 'sc1' }\n".into(),
        EC::M(i) => format!("    - metric: {{ unit: 'F64', id: 'm{}' }}\n", i),
        EC::Ign => "    - ignored\n".into(),
    }
}
fn yaml(file: &Path, ns: &[NC], es: &[EC], norm: bool, extra: &str) -> String {
    format!(
        "parsing:\n  map-file: '{}'\n  nodes:\n{}  edges:\n    will_normalize_metrics_by_mean: {}\n    data:\n{}{}",
        file.display(),
        ns.iter().map(|x| ncol(*x)).collect::<String>(),
        norm,
        es.iter().map(|x| ecol(*x)).collect::<String>(),
        extra
    )
}
/// a file with the given extension in any case
fn named(c: &mut Case, stem: &str, ext: &str) -> std::path::PathBuf {
    let e: String = if c.rng.chance(1, 10) {
        ext.chars().map(|x| if c.rng.chance(1, 2) { x.to_ascii_uppercase() } else { x }).collect()
    } else {
        ext.into()
    };
    c.file(&format!("{}.{}", stem, e))
}
/// a file with an extension nobody knows
fn misnamed(c: &mut Case, stem: &str, ext: &str) -> std::path::PathBuf {
    let n = match c.rng.range(0, 4) {
        0 => stem.to_string(),
        1 => format!("{}.txt", stem),
        2 => format!("{}.{}x", stem, ext),
        3 => format!("{}.{}.gz", stem, ext),
        _ => format!("{}.{}", stem, &ext[1..]),
    };
    c.file(&n)
}
fn pcfg(y: &str) -> Result<parsing::Config, String> {
    serde_yaml::from_str(y).map_err(|e| format!("{}", e))
}

fn sep(r: &mut Rng) -> &'static str {
    *r.pick(&[" ", " ", " ", "\t", "  ", " \t "])
}
fn junk(r: &mut Rng) -> String {
    String::from(*r.pick(&["junk", "0", "-1", "#", "3.5", "ch1", "é", "_"]))
}
fn noise_lines(r: &mut Rng, t: &mut String) {
    while r.chance(1, 8) {
        *t += *r.pick(&["\n", "# comment 1 2 3\n", "#\n", "#1 2 3 4 5 6\n", "#7\n"]);
    }
}
fn fl(r: &mut Rng, x: f64) -> String {
    match r.range(0, 3) {
        0 => format!("{:?}", x),
        1 => format!("{:e}", x),
        _ => format!("{}", x),
    }
}

/// sorted view that is independent of the order of edges
type View = (Vec<(i64, u64, u64, usize)>, Vec<String>);
fn ekey(e: &FlatEdge) -> String {
    format!("{:?} {} {} {:?}", e.id, e.src, e.dst, e.m.iter().map(|x| x.to_bits()).collect::<Vec<_>>())
}
fn view(nodes: Vec<(i64, f64, f64, usize)>, edges: &[FlatEdge]) -> Result<View, String> {
    let mut ns: Vec<_> = nodes.into_iter().map(|(i, a, b, l)| (i, a.to_bits(), b.to_bits(), l)).collect();
    ns.sort();
    let mut es = vec![];
    for e in edges {
        let mut s = ekey(e);
        if let Some(sc) = e.sc {
            for k in &sc {
                s += " <- ";
                s += &ekey(edges.get(*k).ok_or("shortcut refers to a missing edge")?);
            }
        }
        es.push(s);
    }
    es.sort();
    es.dedup();
    Ok((ns, es))
}
fn nodes_of(g: &Graph) -> Vec<(i64, f64, f64, usize)> {
    let n = g.nodes();
    n.iter().map(|i| (n.id(i), n.coord(i).lat, n.coord(i).lon, n.level(i))).collect()
}
fn has_near_duplicates(es: &[FlatEdge]) -> bool {
    for i in 0..es.len() {
        for j in 0..i {
            if es[i].src == es[j].src && es[i].dst == es[j].dst && es[i].id == es[j].id && es[i].m.iter().zip(&es[j].m).all(|(a, b)| (a - b).abs() < 5e-6) {
                return true;
            }
        }
    }
    false
}

fn spec_graph(r: &mut Rng) -> GSpec {
    let kind = *r.pick(&[Kind::Ints, Kind::Halves, Kind::Floats]);
    let mut g = random_graph(r, kind, 9);
    if r.chance(1, 3) && g.edges.len() < 30 {
        g = contract(r, &g);
        g.edges.truncate(400);
        if g.edges.iter().any(|e| e.sc.map_or(false, |s| s[0] >= 400 || s[1] >= 400)) {
            g.edges.clear();
            g.nodes.clear();
        }
    }
    if r.chance(2, 3) {
        let m = g.edges.len();
        let mut ids: BTreeSet<usize> = BTreeSet::new();
        let wide = r.chance(1, 3);
        while ids.len() < m {
            ids.insert(if wide { r.next() as usize >> r.range(0, 50) } else { r.range(0, 3 * m) });
        }
        let mut ids: Vec<usize> = ids.into_iter().collect();
        r.shuffle(&mut ids);
        for (e, i) in g.edges.iter_mut().zip(ids) {
            e.id = Some(i);
        }
    }
    if !g.nodes.is_empty() {
        // nodes without edges
        let used: BTreeSet<i64> = g.nodes.iter().map(|n| n.id).collect();
        for _ in 0..*r.pick(&[0usize, 0, 0, 1, 3]) {
            let id = if r.chance(1, 2) { r.range(0, 40) as i64 - 10 } else { r.next() as i64 };
            if !used.contains(&id) && g.nodes.iter().all(|n| n.id != id) {
                let (lat, lon) = coord(r);
                let k = r.range(0, g.nodes.len());
                g.nodes.insert(k, NSpec { id, lat, lon, level: Some(r.range(0, 5)) });
            }
        }
    }
    g.norm = false;
    g.generating = None;
    g
}
fn flat_of(g: &GSpec, with_id: bool, with_sc: bool) -> Vec<FlatEdge> {
    g.edges
        .iter()
        .map(|e| FlatEdge {
            id: if with_id { e.id } else { None },
            src: e.src,
            dst: e.dst,
            m: e.m.iter().map(|x| corrected(*x)).collect(),
            sc: if with_sc { e.sc } else { None },
        })
        .collect()
}

pub fn c13(c: &mut Case) -> R {
    match c.idx % 4 {
        0 => lines(c),
        _ => map_file(c),
    }
}

/// single lines against single configurations
fn lines(c: &mut Case) -> R {
    for _ in 0..30 {
        // edges
        let dim = c.rng.range(0, 5);
        let mut cols: Vec<EC> = (0..dim).map(EC::M).collect();
        cols.push(EC::Src);
        cols.push(EC::Dst);
        if c.rng.chance(2, 3) {
            cols.push(EC::Id);
        }
        let sc = c.rng.chance(1, 2);
        if sc {
            cols.push(EC::S0);
            cols.push(EC::S1);
        }
        for _ in 0..c.rng.range(0, 2) {
            cols.push(EC::Ign);
        }
        c.rng.shuffle(&mut cols);
        // metrics are stored in the order of their columns
        let order: Vec<usize> = cols.iter().filter_map(|x| if let EC::M(i) = x { Some(*i) } else { None }).collect();
        let cfg = pcfg(&yaml(Path::new("x.fmi"), &[NC::Id, NC::Lat, NC::Lon], &cols, false, ""))?;
        let id = c.rng.range(0, 5000);
        let (src, dst) = (c.rng.next() as i64, c.rng.next() as i64 % 50);
        let ms: Vec<f64> = (0..dim).map(|_| metric(&mut c.rng, Kind::Floats)).collect();
        let is_sc = sc && c.rng.chance(1, 2);
        let (s0, s1) = (c.rng.range(0, 99), c.rng.range(0, 99));
        let mut toks: Vec<String> = vec![];
        for x in &cols {
            let t = match x {
                EC::Id => format!("{}{}", if c.rng.chance(1, 3) { "ch" } else { "" }, id),
                EC::Src => src.to_string(),
                EC::Dst => dst.to_string(),
                EC::S0 if is_sc => s0.to_string(),
                EC::S1 if is_sc => s1.to_string(),
                EC::S0 | EC::S1 => "-1".into(),
                EC::M(i) => fl(&mut c.rng, ms[*i]),
                EC::Ign => junk(&mut c.rng),
            };
            toks.push(t);
        }
        let mut bad = None;
        match c.rng.range(0, 5) {
            0 => {
                let k = c.rng.range(0, toks.len() - 1);
                let t: Option<&str> = match cols[k] {
                    EC::Id => Some(*c.rng.pick(&["x", "c", "é", "-1", "ch", "chx", "c1", "1.5", "éé", "Ch1", "1ch", "€"])),
                    EC::Src | EC::Dst => Some(*c.rng.pick(&["x", "1.0", "99999999999999999999", "ch1", "é", "-"])),
                    EC::S0 | EC::S1 => Some(*c.rng.pick(&["x", "-2", "1.0", "ch1", "é", "-"])),
                    EC::M(_) => Some(*c.rng.pick(&["x", "1,5", "1.0km", "é", "-", "--1"])),
                    EC::Ign => None,
                };
                if let Some(t) = t {
                    bad = Some(format!("malformed {:?}", cols[k]));
                    toks[k] = t.into();
                }
            }
            1 => {
                toks.truncate(c.rng.range(0, toks.len() - 1));
                bad = Some("missing value".into());
            }
            2 => {
                for _ in 0..c.rng.range(1, 3) {
                    let j = junk(&mut c.rng);
                    toks.push(j);
                }
            }
            _ => (),
        }
        let line = toks.join(sep(&mut c.rng));
        c.note(|| format!("{:?}\n{}", cols, line));
        c.key(&line);
        c.evals += 1;
        let got = ProtoShortcut::try_from_str(&line, &cfg.edges.categories);
        match (got, bad) {
            (Err(_), Some(_)) => (),
            (Err(m), None) => return Err(format!("{:?}: '{}' is rejected: {}", cols, line, m)),
            (Ok(_), Some(b)) => return Err(format!("{:?}: '{}' ({}) is accepted", cols, line, b)),
            (Ok(e), None) => {
                let want_m: Vec<f64> = order.iter().map(|i| ms[*i]).collect();
                let want_id = if cols.contains(&EC::Id) { Some(id) } else { None };
                let want_sc = if is_sc { Some([s0, s1]) } else { None };
                let got_sc = e.sc_edges.map(|s| [*s[0], *s[1]]);
                if e.proto_edge.id != want_id || e.proto_edge.src_id != src || e.proto_edge.dst_id != dst || e.proto_edge.metrics.to_vec() != want_m || got_sc != want_sc {
                    return Err(format!(
                        "{:?}: '{}' is read as id {:?} {} -> {} {:?} sc {:?}",
                        cols, line, e.proto_edge.id, e.proto_edge.src_id, e.proto_edge.dst_id, e.proto_edge.metrics, got_sc
                    ));
                }
            }
        }
        // nodes
        let mut cols = vec![NC::Id, NC::Lat, NC::Lon];
        let with_lvl = c.rng.chance(1, 2);
        if with_lvl {
            cols.push(NC::Lvl);
        }
        for _ in 0..c.rng.range(0, 2) {
            cols.push(NC::Ign);
        }
        c.rng.shuffle(&mut cols);
        let cfg = pcfg(&yaml(Path::new("x.fmi"), &cols, &[EC::Src, EC::Dst], false, ""))?;
        let id = c.rng.next() as i64;
        let (lat, lon) = coord(&mut c.rng);
        let lvl = c.rng.range(0, 9000);
        let mut toks = vec![];
        for x in &cols {
            let t = match x {
                NC::Id => id.to_string(),
                NC::Lat | NC::Lat2 => fl(&mut c.rng, lat),
                NC::Lon | NC::Lon2 => fl(&mut c.rng, lon),
                NC::Lvl => lvl.to_string(),
                NC::Ign => junk(&mut c.rng),
            };
            toks.push(t);
        }
        let mut bad = None;
        match c.rng.range(0, 5) {
            0 => {
                let k = c.rng.range(0, toks.len() - 1);
                let t: Option<&str> = match cols[k] {
                    NC::Id => Some(*c.rng.pick(&["x", "1.0", "99999999999999999999", "é"])),
                    NC::Lat | NC::Lon | NC::Lat2 | NC::Lon2 => Some(*c.rng.pick(&["x", "1,5", "é", "-"])),
                    NC::Lvl => Some(*c.rng.pick(&["x", "-1", "1.0"])),
                    NC::Ign => None,
                };
                if let Some(t) = t {
                    bad = Some(format!("malformed {:?}", cols[k]));
                    toks[k] = t.into();
                }
            }
            1 => {
                toks.truncate(c.rng.range(0, toks.len() - 1));
                bad = Some("missing value".into());
            }
            2 => {
                let j = junk(&mut c.rng);
                toks.push(j);
            }
            _ => (),
        }
        let line = toks.join(sep(&mut c.rng));
        c.note(|| format!("{:?}\n{}", cols, line));
        c.evals += 1;
        match (ProtoNode::from_str(&line, &cfg.nodes), bad) {
            (Err(_), Some(_)) => (),
            (Err(m), None) => return Err(format!("{:?}: '{}' is rejected: {}", cols, line, m)),
            (Ok(_), Some(b)) => return Err(format!("{:?}: '{}' ({}) is accepted", cols, line, b)),
            (Ok(n), None) => {
                if n.id != id || n.coord.lat != lat || n.coord.lon != lon || n.ch_level != (if with_lvl { Some(lvl) } else { None }) {
                    return Err(format!("{:?}: '{}' is read as {} {:?} {:?}", cols, line, n.id, n.coord, n.ch_level));
                }
            }
        }
    }
    Ok(())
}

fn map_file(c: &mut Case) -> R {
    let mut g = spec_graph(&mut c.rng);
    let with_id = g.edges.iter().all(|e| e.id.is_some()) && c.rng.chance(2, 3);
    let with_sc = g.edges.iter().any(|e| e.sc.is_some()) || c.rng.chance(1, 3);
    let with_lvl = g.nodes.iter().any(|n| n.level.is_some()) || c.rng.chance(1, 4);
    let mut ns = vec![NC::Id, NC::Lat, NC::Lon];
    if with_lvl {
        ns.push(NC::Lvl);
    }
    for _ in 0..c.rng.range(0, 2) {
        ns.push(NC::Ign);
    }
    c.rng.shuffle(&mut ns);
    let mut es: Vec<EC> = vec![EC::Src, EC::Dst];
    if with_id {
        es.push(EC::Id);
    }
    if with_sc {
        es.push(EC::S0);
        es.push(EC::S1);
    }
    for _ in 0..c.rng.range(0, 2) {
        es.push(EC::Ign);
    }
    es.extend((0..g.dim).map(EC::M));
    c.rng.shuffle(&mut es);
    let order: Vec<usize> = es.iter().filter_map(|x| if let EC::M(i) = x { Some(*i) } else { None }).collect();

    // broken configurations
    let mut want_err = None;
    let mut extra = String::new();
    let mut renamed: Option<(String, String)> = None;
    if c.rng.chance(1, 8) {
        let k = c.rng.range(0, 7);
        let drop = [NC::Id, NC::Lat, NC::Lon];
        if k < 3 {
            for n in ns.iter_mut() {
                if *n == drop[k] {
                    // the place may be taken by another column
                    *n = *c.rng.pick(&match k {
                        0 => [NC::Ign, NC::Lat2, NC::Lon2],
                        1 => [NC::Ign, NC::Lon2, NC::Lon2],
                        _ => [NC::Ign, NC::Lat2, NC::Lat2],
                    });
                }
            }
            if c.rng.chance(1, 2) {
                // refused whatever the map contains
                g.nodes.clear();
                g.edges.clear();
            }
            want_err = Some("config without node-id or coordinate");
        } else if k == 3 && with_sc {
            let which = *c.rng.pick(&[EC::S0, EC::S1]);
            for e in es.iter_mut() {
                if *e == which {
                    *e = EC::Ign;
                }
            }
            want_err = Some("config with a single shortcut-column");
        } else if k == 4 {
            extra += "  generating:\n    nodes: []\n    edges:\n";
            for i in 0..(6 - g.dim.min(5)) {
                extra += &match c.rng.range(0, 2) {
                    1 if g.dim > 0 => format!("    - copy: {{ from: {{ unit: 'F64', id: 'm0' }}, to: {{ unit: 'F64', id: 'gen{}' }} }}\n", i),
                    2 => format!("    - haversine: {{ unit: 'Kilometers', id: 'gen{}' }}\n", i),
                    _ => format!("    - custom: {{ id: 'gen{}', default: 1.0 }}\n", i),
                };
            }
            want_err = Some("config with too many metrics");
        } else if k == 5 && !g.edges.is_empty() {
            let which = *c.rng.pick(&[EC::Src, EC::Dst]);
            for e in es.iter_mut() {
                if *e == which {
                    *e = EC::Ign;
                }
            }
            want_err = Some("config without source or destination");
        } else if k >= 6 {
            // two columns of the same id, wherever they are
            let mut named: Vec<String> = es.iter().map(|e| ecol(*e)).filter(|s| s.contains("id: '")).map(|s| s.split("id: '").nth(1).unwrap().split('\'').next().unwrap().into()).collect();
            let i = c.rng.range(0, named.len() - 1);
            let a = named.remove(i);
            renamed = Some((a, c.rng.pick(&named).clone()));
            want_err = Some("config with a duplicate id");
        }
    }
    // rules which leave the number of metrics, and rules up to the capacity
    let mut ids: Vec<String> = order.iter().map(|k| format!("m{}", k)).collect();
    let mut added = 0;
    if want_err.is_none() && c.rng.chance(1, 6) {
        extra += "  generating:\n    nodes: []\n    edges:\n    - meta: { info: 'SrcIdx', id: 'src-idx' }\n";
        if g.dim > 0 && c.rng.chance(2, 3) {
            let i = c.rng.range(0, g.dim - 1);
            extra += &format!("    - convert: {{ from: {{ unit: 'F64', id: '{}' }}, to: {{ unit: 'F64', id: 'conv' }} }}\n", ids[i]);
            ids[i] = "conv".into();
        }
        if g.dim > 0 && c.rng.chance(1, 2) {
            let mf = c.file("merge.csv");
            std::fs::write(&mf, "some header\n").map_err(|e| e.to_string())?;
            extra += &format!("    - merge: {{ from: '{}', edge-id: 'the-edge', edges-info: [{{ id: 'the-edge' }}, {{ id: '{}' }}] }}\n", mf.display(), ids[0]);
        }
        if c.rng.chance(1, 2) {
            while g.dim + added < 5 {
                extra += &format!("    - custom: {{ id: 'gen{}', default: 2.5 }}\n", added);
                ids.push(format!("gen{}", added));
                added += 1;
            }
        }
    }

    let mut t = String::new();
    noise_lines(&mut c.rng, &mut t);
    if c.rng.chance(1, 3) {
        t += "# header\n\n";
    }
    let counts = if c.rng.chance(1, 20) && !g.edges.is_empty() { c.rng.range(0, 1) } else { 3 };
    if counts < 3 {
        want_err = want_err.or(Some("missing counts"));
    }
    if counts >= 3 {
        if c.rng.chance(2, 3) {
            t += &format!("{}\n", g.dim);
        }
        noise_lines(&mut c.rng, &mut t);
        t += &format!("{}\n", g.nodes.len());
        noise_lines(&mut c.rng, &mut t);
        t += &format!("{}\n", g.edges.len());
    } else if counts == 1 {
        t += &format!("{}\n", g.nodes.len());
    }
    noise_lines(&mut c.rng, &mut t);
    let mut nodes = g.nodes.clone();
    c.rng.shuffle(&mut nodes);
    let bad_node = if c.rng.chance(1, 20) && want_err.is_none() && !nodes.is_empty() { Some(c.rng.range(0, nodes.len() - 1)) } else { None };
    for (k, n) in nodes.iter().enumerate() {
        let mut toks = vec![];
        for x in &ns {
            toks.push(match x {
                NC::Id => n.id.to_string(),
                NC::Lat | NC::Lat2 => fl(&mut c.rng, n.lat),
                NC::Lon | NC::Lon2 => fl(&mut c.rng, n.lon),
                NC::Lvl => n.level.unwrap_or(0).to_string(),
                NC::Ign => junk(&mut c.rng),
            });
        }
        // a leading # would be a comment
        if toks[0].starts_with('#') {
            toks[0] = "z".into();
        }
        if bad_node == Some(k) {
            let i = c.rng.range(0, ns.len() - 1);
            if ns[i] != NC::Ign {
                toks[i] = "nope".into();
                want_err = Some("malformed node");
            }
        }
        t += &toks.join(sep(&mut c.rng));
        t += "\n";
        noise_lines(&mut c.rng, &mut t);
    }
    let bad_edge = if c.rng.chance(1, 20) && want_err.is_none() && !g.edges.is_empty() { Some(c.rng.range(0, g.edges.len() - 1)) } else { None };
    for (k, e) in g.edges.iter().enumerate() {
        let mut toks = vec![];
        for x in &es {
            toks.push(match x {
                EC::Id => format!("{}{}", if c.rng.chance(1, 4) { "ch" } else { "" }, e.id.unwrap()),
                EC::Src => e.src.to_string(),
                EC::Dst => e.dst.to_string(),
                EC::S0 => e.sc.map_or("-1".to_string(), |s| s[0].to_string()),
                EC::S1 => e.sc.map_or("-1".to_string(), |s| s[1].to_string()),
                EC::M(i) => fl(&mut c.rng, e.m[*i]),
                EC::Ign => junk(&mut c.rng),
            });
        }
        if toks[0].starts_with('#') {
            toks[0] = "z".into();
        }
        if bad_edge == Some(k) {
            if c.rng.chance(1, 2) {
                let i = c.rng.range(0, es.len() - 1);
                if es[i] != EC::Ign {
                    toks[i] = "n".into();
                    want_err = Some("malformed edge");
                }
            } else {
                toks.pop();
                // a single value looks like a count, but not after the node-lines
                want_err = Some("edge with a missing value");
                if toks.is_empty() {
                    return Ok(());
                }
            }
        }
        if c.rng.chance(1, 10) && bad_edge != Some(k) {
            toks.push(junk(&mut c.rng));
        }
        t += &toks.join(sep(&mut c.rng));
        t += "\n";
        noise_lines(&mut c.rng, &mut t);
    }
    if c.rng.chance(1, 8) {
        t += "some trailing line beyond the counts\n";
    }
    let f = if want_err.is_none() && c.rng.chance(1, 60) {
        want_err = Some("unsupported extension");
        misnamed(c, "map", "fmi")
    } else {
        named(c, "map", "fmi")
    };
    let mut y = yaml(&f, &ns, &es, false, &extra);
    if let Some((a, b)) = renamed {
        y = y.replace(&format!("id: '{}'", a), &format!("id: '{}'", b));
    }
    c.note(|| format!("{}\n----\n{}----\nexpected error: {:?}", y, t, want_err));
    c.key(&t);
    std::fs::write(&f, &t).map_err(|e| e.to_string())?;
    let cfg = match pcfg(&y) {
        Ok(x) => x,
        Err(m) => {
            let _ = std::fs::remove_file(&f);
            return if want_err.is_some() { Ok(()) } else { Err(format!("config is rejected: {}\n{}", m, y)) };
        }
    };
    c.evals += 1;
    let res = Parser::parse_and_finalize(cfg);
    let _ = std::fs::remove_file(&f);
    let graph = match (res, want_err) {
        (Err(_), Some(_)) => return Ok(()),
        (Err(m), None) => return Err(format!("map is rejected: {}\n{}\n----\n{}", m, y, t)),
        (Ok(_), Some(w)) => return Err(format!("expected an error ({})\n{}\n----\n{}", w, y, t)),
        (Ok(x), None) => x,
    };
    let mut want = flat_of(&g, with_id, with_sc);
    for e in want.iter_mut() {
        e.m = order.iter().map(|i| e.m[*i]).collect();
        for _ in 0..added {
            e.m.push(2.5);
        }
    }
    let used: BTreeSet<i64> = g.used_ids().into_iter().collect();
    let wn = g.nodes.iter().filter(|n| used.contains(&n.id)).map(|n| (n.id, n.lat, n.lon, if with_lvl { n.level.unwrap_or(0) } else { 0 })).collect();
    if has_near_duplicates(&want) {
        return Ok(());
    }
    let w = view(wn, &want)?;
    let h = view(nodes_of(&graph), &flat(&graph))?;
    if w != h {
        return Err(format!("read {:#?}\nexpected {:#?}\n{}\n----\n{}", h, w, y, t));
    }
    for (i, id) in ids.iter().enumerate() {
        if graph.cfg().edges.metrics.ids[i].0 != *id {
            return Err(format!("metric {} is {:?}", i, graph.cfg().edges.metrics.ids[i]));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn sid(s: &str) -> Option<SimpleId> {
    Some(SimpleId(s.to_string()))
}

fn edge_value(g: &Graph, e: &FlatEdge, idx: usize, id: &Option<SimpleId>, coords: &BTreeMap<i64, (f64, f64, usize)>, denorm: bool) -> Option<String> {
    let id = match id {
        None => return Some(IGNORE_STR.into()),
        Some(x) => x,
    };
    let sc = |k: usize| e.sc.map_or(NO_SHORTCUT_IDX.to_string(), |s| s[k].to_string());
    let (s, d) = (coords[&e.src], coords[&e.dst]);
    Some(match id.0.as_str() {
        "edge-id" => e.id.unwrap().to_string(),
        "src-id" => e.src.to_string(),
        "dst-id" => e.dst.to_string(),
        "sc0" => sc(0),
        "sc1" => sc(1),
        "srcidx" => s.2.to_string(),
        "dstidx" => d.2.to_string(),
        "srclat" => s.0.to_string(),
        "srclon" => s.1.to_string(),
        "dstlat" => d.0.to_string(),
        "dstlon" => d.1.to_string(),
        x if x.starts_with('m') => {
            let k: usize = x[1..].parse().ok()?;
            let mut v = *e.m.get(k)?;
            if denorm {
                if let Some(mean) = g.metrics().mean(osmgraphing::network::MetricIdx(k)) {
                    v *= mean;
                }
            }
            let _ = idx;
            v.to_string()
        }
        _ => return None,
    })
}

fn ids_yaml(ids: &[Option<SimpleId>]) -> String {
    if ids.is_empty() {
        return " []\n".into();
    }
    ids.iter().fold(String::from("\n"), |t, i| t + &match i {
        Some(i) => format!("    - id: '{}'\n", i.0),
        None => "    - ignored\n".into(),
    })
}
/// options may be left out if they have the default's value
fn options_yaml(c: &mut Case, write_sc: bool, denorm: bool, indent: &str) -> String {
    let mut y = String::new();
    if write_sc || c.rng.chance(1, 2) {
        y += &format!("{}with_shortcuts: {}\n", indent, write_sc);
    }
    if denorm || c.rng.chance(1, 2) {
        y += &format!("{}will_denormalize_metrics_by_mean: {}\n", indent, denorm);
    }
    y
}
fn edges_cfg(c: &mut Case, f: &Path, write_sc: bool, header: bool, denorm: bool, ids: &[Option<SimpleId>]) -> Result<wnet::edges::Config, String> {
    if header && c.rng.chance(1, 2) {
        let y = format!("writing:\n  edges-info:\n    file: '{}'\n{}    ids:{}", f.display(), options_yaml(c, write_sc, denorm, "    "), ids_yaml(ids));
        return serde_yaml::from_str(&y).map_err(|e| format!("config is not accepted: {}\n{}", e, y));
    }
    Ok(wnet::edges::Config { file: f.to_path_buf(), is_writing_shortcuts: write_sc, is_writing_header: header, is_denormalizing: denorm, ids: ids.to_vec() })
}
fn map_cfg(c: &mut Case, f: &Path, write_sc: bool, denorm: bool, nids: &[Option<SimpleId>], eids: &[Option<SimpleId>]) -> Result<wnet::graph::Config, String> {
    if c.rng.chance(1, 2) {
        let y = format!("writing:\n  graph:\n    map-file: '{}'\n    nodes:{}    edges:\n{}      ids:{}", f.display(), ids_yaml(nids), options_yaml(c, write_sc, denorm, "      "), ids_yaml(eids).replace("    - ", "      - "));
        return serde_yaml::from_str(&y).map_err(|e| format!("config is not accepted: {}\n{}", e, y));
    }
    Ok(wnet::graph::Config {
        map_file: f.to_path_buf(),
        nodes: wnet::graph::nodes::Config { ids: nids.to_vec() },
        edges: wnet::edges::Config { file: f.to_path_buf(), is_writing_shortcuts: write_sc, is_writing_header: false, is_denormalizing: denorm, ids: eids.to_vec() },
    })
}
pub fn c14(c: &mut Case) -> R {
    let mut g = spec_graph(&mut c.rng);
    if g.edges.is_empty() {
        return Ok(());
    }
    g.norm = c.rng.chance(1, 3);
    let all_ids = g.edges.iter().all(|e| e.id.is_some());
    let metas = ["SrcIdx", "SrcLat", "SrcLon", "DstIdx", "DstLat", "DstLon"];
    let mut y = String::new();
    for m in metas.iter() {
        y += &format!("    - meta: {{ info: '{}', id: '{}' }}\n", m, m.to_ascii_lowercase());
    }
    g.generating = Some(y);
    g.node_idx = c.rng.chance(1, 2);
    c.note(|| g.dump());
    c.key(&g);
    let graph = g.build().map_err(|m| format!("building fails: {}\n{}", m, g.dump()))?;
    let fe = flat(&graph);
    let n = graph.nodes();
    let coords: BTreeMap<i64, (f64, f64, usize)> = n.iter().map(|i| (n.id(i), (n.coord(i).lat, n.coord(i).lon, *i))).collect();
    let write_sc = c.rng.chance(2, 3);
    let denorm = c.rng.chance(1, 2);
    let has_sc = fe.iter().any(|e| e.sc.is_some());

    // edge-list
    {
        let mut ids: Vec<Option<SimpleId>> = vec![];
        let mut pool: Vec<String> = ["src-id", "dst-id", "sc0", "sc1", "srcidx", "srclat", "srclon", "dstidx", "dstlat", "dstlon"].iter().map(|s| s.to_string()).collect();
        pool.extend((0..g.dim).map(|i| format!("m{}", i)));
        if all_ids {
            pool.push("edge-id".into());
        }
        for _ in 0..c.rng.range(1, 9) {
            if c.rng.chance(1, 6) {
                ids.push(None);
            } else {
                let s = c.rng.pick(&pool).clone();
                ids.push(sid(&s));
            }
        }
        let unknown = c.rng.chance(1, 8);
        if unknown {
            let k = c.rng.range(0, ids.len() - 1);
            ids[k] = sid(*c.rng.pick(&["m17", "nope", "SRC-ID", ""]));
        }
        let header = c.rng.chance(1, 2);
        if c.rng.chance(1, 60) {
            let f = misnamed(c, "edges", "csv");
            let cfg = wnet::edges::Config { file: f.clone(), is_writing_shortcuts: write_sc, is_writing_header: header, is_denormalizing: denorm, ids: ids.clone() };
            let vals: Vec<f64> = fe.iter().map(|_| 1.0).collect();
            let ok = io::network::edges::Writer::write(&graph, &cfg).is_ok() || io::network::edges::Writer::write_external_values(&vals, &graph, &cfg).is_ok();
            if ok || f.exists() {
                let _ = std::fs::remove_file(&f);
                return Err(format!("edges are written to {}", f.display()));
            }
        }
        let f = named(c, "edges", "csv");
        let cfg = edges_cfg(c, &f, write_sc, header, denorm, &ids)?;
        c.evals += 1;
        let written = fe.iter().any(|e| write_sc || e.sc.is_none());
        let res = io::network::edges::Writer::write(&graph, &cfg);
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        match (res, unknown) {
            (Err(_), true) => {
                let _ = std::fs::remove_file(&f);
            }
            (Ok(_), true) => {
                let _ = std::fs::remove_file(&f);
                if written {
                    return Err(format!("unknown column in {:?} is accepted\n{}", ids, g.dump()));
                }
            }
            (Err(m), false) => {
                let _ = std::fs::remove_file(&f);
                return Err(format!("writing {:?} fails: {}\n{}", ids, m, g.dump()));
            }
            (Ok(_), false) => {
                let mut want = vec![];
                if header {
                    want.push(ids.iter().map(|i| i.as_ref().map_or(IGNORE_STR.to_string(), |s| s.0.clone())).collect::<Vec<_>>().join(" "));
                }
                for (i, e) in fe.iter().enumerate() {
                    if e.sc.is_some() && !write_sc {
                        continue;
                    }
                    let vs: Option<Vec<String>> = ids.iter().map(|id| edge_value(&graph, e, i, id, &coords, denorm)).collect();
                    want.push(vs.ok_or("oracle")?.join(" "));
                }
                let got: Vec<&str> = text.lines().collect();
                let ok = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a == b || same_line(a, b));
                let again = io::network::edges::Writer::write(&graph, &cfg);
                let after = std::fs::read_to_string(&f).unwrap_or_default();
                let _ = std::fs::remove_file(&f);
                if !ok {
                    return Err(format!("written edges {:?} (shortcuts {}, denormalised {}):\n{}\nexpected\n{}\n{}", ids, write_sc, denorm, text, want.join("\n"), g.dump()));
                }
                if again.is_ok() || after != text {
                    return Err("an existing file of edges is overwritten".into());
                }
            }
        }
    }
    // external values
    if all_ids {
        let f = c.file("values.csv");
        let vals: Vec<usize> = (0..fe.len()).map(|i| 3 * i + 1).collect();
        let cfg = edges_cfg(c, &f, write_sc, true, denorm, &[sid("edge-id"), sid("val")])?;
        c.evals += 1;
        let res = io::network::edges::Writer::write_external_values(&vals, &graph, &cfg);
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        let again = io::network::edges::Writer::write_external_values(&vals, &graph, &cfg);
        let after = std::fs::read_to_string(&f).unwrap_or_default();
        let _ = std::fs::remove_file(&f);
        res.map_err(|m| format!("writing values fails: {}", m))?;
        let mut want = String::from("edge-id val\n");
        for (i, e) in fe.iter().enumerate() {
            if e.sc.is_none() || write_sc {
                want += &format!("{} {}\n", e.id.unwrap(), vals[i]);
            }
        }
        if text != want {
            return Err(format!("written values\n{}\nexpected\n{}\n{}", text, want, g.dump()));
        }
        if again.is_ok() || after != text {
            return Err("an existing file of values is overwritten".into());
        }
    }
    // map
    {
        let mut ns = vec![NC::Id, NC::Lat, NC::Lon, NC::Lvl];
        let mut es = vec![EC::Src, EC::Dst, EC::S0, EC::S1];
        if all_ids {
            es.push(EC::Id);
        }
        es.extend((0..g.dim).map(EC::M));
        for _ in 0..c.rng.range(0, 2) {
            es.push(EC::Ign);
            ns.push(NC::Ign);
        }
        c.rng.shuffle(&mut ns);
        c.rng.shuffle(&mut es);
        let mut nids: Vec<Option<SimpleId>> = ns
            .iter()
            .map(|x| match x {
                NC::Id => sid("node-id"),
                NC::Lat => sid("lat"),
                NC::Lon => sid("lon"),
                NC::Lvl => sid("lvl"),
                _ => None,
            })
            .collect();
        // an ignored column may hold the index instead
        for x in nids.iter_mut() {
            if g.node_idx && x.is_none() && c.rng.chance(1, 2) {
                *x = sid("nodeidx");
            }
        }
        let mut eids: Vec<Option<SimpleId>> = es
            .iter()
            .map(|x| match x {
                EC::Id => sid("edge-id"),
                EC::Src => sid("src-id"),
                EC::Dst => sid("dst-id"),
                EC::S0 => sid("sc0"),
                EC::S1 => sid("sc1"),
                EC::M(i) => sid(&format!("m{}", i)),
                EC::Ign => None,
            })
            .collect();
        let unknown = c.rng.range(0, 15);
        if unknown == 0 {
            let k = c.rng.range(0, nids.len() - 1);
            nids[k] = sid("what");
        } else if unknown == 1 {
            let k = c.rng.range(0, eids.len() - 1);
            eids[k] = sid("what");
        }
        if c.rng.chance(1, 60) {
            let f = if c.rng.chance(1, 4) { c.file("out.pbf") } else { misnamed(c, "out", "fmi") };
            let cfg = wnet::graph::Config {
                map_file: f.clone(),
                nodes: wnet::graph::nodes::Config { ids: nids.clone() },
                edges: wnet::edges::Config { file: f.clone(), is_writing_shortcuts: write_sc, is_writing_header: false, is_denormalizing: denorm, ids: eids.clone() },
            };
            if io::network::graph::Writer::write(&graph, &cfg).is_ok() || f.exists() {
                let _ = std::fs::remove_file(&f);
                return Err(format!("a map is written to {}", f.display()));
            }
        }
        let f = named(c, "out", "fmi");
        let cfg = map_cfg(c, &f, write_sc, denorm, &nids, &eids)?;
        c.evals += 1;
        let res = io::network::graph::Writer::write(&graph, &cfg);
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        if unknown < 2 {
            let _ = std::fs::remove_file(&f);
            let written = unknown == 0 || fe.iter().any(|e| write_sc || e.sc.is_none());
            if res.is_ok() && written {
                return Err(format!("unknown column in map {:?} {:?} is accepted", nids, eids));
            }
            return Ok(());
        }
        if let Err(m) = res {
            let _ = std::fs::remove_file(&f);
            return Err(format!("writing the map fails: {}\n{}", m, g.dump()));
        }
        let again = io::network::graph::Writer::write(&graph, &cfg);
        let after = std::fs::read_to_string(&f).unwrap_or_default();
        if again.is_ok() || after != text {
            let _ = std::fs::remove_file(&f);
            return Err("an existing map is overwritten".into());
        }
        let back = Parser::parse_and_finalize(pcfg(&yaml(&f, &ns, &es, false, ""))?);
        let _ = std::fs::remove_file(&f);
        // the text
        {
            let mut want = vec![];
            want.push(eids.iter().filter(|i| i.as_ref().map_or(false, |s| s.0.starts_with('m'))).count().to_string());
            want.push(coords.len().to_string());
            want.push(fe.iter().filter(|e| write_sc || e.sc.is_none()).count().to_string());
            for i in n.iter() {
                let v: Vec<String> = nids
                    .iter()
                    .map(|x| match x.as_ref().map(|s| s.0.as_str()) {
                        Some("node-id") => n.id(i).to_string(),
                        Some("lat") => n.coord(i).lat.to_string(),
                        Some("lon") => n.coord(i).lon.to_string(),
                        Some("lvl") => n.level(i).to_string(),
                        Some("nodeidx") => (*i).to_string(),
                        _ => IGNORE_STR.into(),
                    })
                    .collect();
                want.push(v.join(" "));
            }
            for (i, e) in fe.iter().enumerate() {
                if write_sc || e.sc.is_none() {
                    let vs: Option<Vec<String>> = eids.iter().map(|id| edge_value(&graph, e, i, id, &coords, denorm)).collect();
                    want.push(vs.ok_or("oracle")?.join(" "));
                }
            }
            let got: Vec<&str> = text.lines().filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
            if got.len() != want.len() || !got.iter().zip(&want).all(|(a, b)| a == b || same_line(a, b)) {
                return Err(format!("written map\n{}\nexpected lines\n{}\n{}", text, want.join("\n"), g.dump()));
            }
        }
        let back = back.map_err(|m| format!("the written map isn't readable: {}\n{}", m, text))?;
        let order: Vec<usize> = es.iter().filter_map(|x| if let EC::M(i) = x { Some(*i) } else { None }).collect();
        let mut want: Vec<FlatEdge> = fe.clone();
        for e in want.iter_mut() {
            let m: Vec<f64> = order
                .iter()
                .map(|i| {
                    let mut v = e.m[*i];
                    if denorm {
                        if let Some(mean) = graph.metrics().mean(osmgraphing::network::MetricIdx(*i)) {
                            v *= mean;
                        }
                    }
                    v
                })
                .collect();
            e.m = m;
        }
        if !write_sc {
            want.retain(|e| e.sc.is_none());
        }
        if has_near_duplicates(&want) || want.iter().any(|e| e.m.iter().any(|x| *x < 1e-6)) {
            return Ok(());
        }
        let used: BTreeSet<i64> = want.iter().flat_map(|e| vec![e.src, e.dst]).collect();
        let wn: Vec<_> = nodes_of(&graph).into_iter().filter(|x| used.contains(&x.0)).collect();
        let got = flat(&back);
        if got.len() != want.len() {
            return Err(format!("{} edges are read back, {} written\n{}", got.len(), want.len(), text));
        }
        let exact = !(g.norm && denorm);
        if exact {
            let (w, h) = (view(wn, &want)?, view(nodes_of(&back), &got)?);
            if w != h {
                return Err(format!("map read back differs\ngot {:#?}\nexpected {:#?}\nfile:\n{}", h, w, text));
            }
        } else {
            let (mut a, mut b) = (nodes_of(&back), wn);
            a.sort_by_key(|x| x.0);
            b.sort_by_key(|x| x.0);
            if a != b {
                return Err(format!("nodes read back differ\n{}", text));
            }
            // order of equal keys may change: compare as a matching
            let mut left = want.clone();
            for e in &got {
                let k = left.iter().position(|x| {
                    x.src == e.src && x.dst == e.dst && x.id == e.id && x.sc.is_some() == e.sc.is_some() && x.m.iter().zip(&e.m).all(|(a, b)| (a - b).abs() <= 1e-9 * a.abs().max(1.0))
                });
                match k {
                    Some(k) => {
                        left.swap_remove(k);
                    }
                    None => return Err(format!("read back edge {:?} isn't in the graph\n{}", e, text)),
                }
            }
        }
        let _ = has_sc;
    }
    Ok(())
}
fn same_line(a: &str, b: &str) -> bool {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.split(' ').collect(), b.split(' ').collect());
    x.len() == y.len()
        && x.iter().zip(&y).all(|(p, q)| {
            p == q
                || match (p.parse::<f64>(), q.parse::<f64>()) {
                    (Ok(p), Ok(q)) => p == q || ((p - q).abs() <= 1e-12 * p.abs() && p.fract() != 0.0),
                    _ => false,
                }
        })
}

// ---------------------------------------------------------------- C15

fn route_cfg(file: &Path, alphas: &[f64]) -> RoutingConfig {
    let mut r = routing_cfg(alphas, false);
    r.route_pairs_file = Some(file.to_path_buf());
    r
}

pub fn c15(c: &mut Case) -> R {
    if c.idx % 2 == 0 {
        read_routes(c)
    } else {
        gen_routes(c)
    }
}

fn read_routes(c: &mut Case) -> R {
    let n = c.rng.range(0, 12);
    let mut want = vec![];
    let mut t = String::new();
    noise_lines(&mut c.rng, &mut t);
    let no_count = c.rng.chance(1, 15) && n > 0;
    if !no_count {
        t += &format!("{}\n", n);
    }
    noise_lines(&mut c.rng, &mut t);
    let bad = if c.rng.chance(1, 6) && n > 0 { Some(c.rng.range(0, n - 1)) } else { None };
    for i in 0..n {
        let s = if c.rng.chance(1, 4) { c.rng.next() as i64 } else { c.rng.range(0, 40) as i64 - 20 };
        let d = if c.rng.chance(1, 4) { c.rng.next() as i64 } else { c.rng.range(0, 40) as i64 };
        let k = c.rng.range(0, 300);
        let mut toks = vec![s.to_string(), d.to_string(), k.to_string()];
        if bad == Some(i) {
            match c.rng.range(0, 5) {
                0 => {
                    toks.pop();
                }
                1 => toks.push("1".into()),
                2 => toks[0] = c.rng.pick(&["x", "1.5", "é"]).to_string(),
                3 => toks[1] = c.rng.pick(&["x", "1.5", "99999999999999999999"]).to_string(),
                _ => toks[2] = c.rng.pick(&["x", "1.5", "-1"]).to_string(),
            }
        }
        want.push((s, d, k));
        t += &toks.join(sep(&mut c.rng));
        t += "\n";
        noise_lines(&mut c.rng, &mut t);
    }
    if !no_count && c.rng.chance(1, 6) {
        // the counted lines are the routes
        t += *c.rng.pick::<&str>(&["1 2 3\n", "some trailing line beyond the count\n", "8 8 1\n7\n5 6 1\n"]);
    }
    let misnaming = c.rng.chance(1, 60);
    let f = if misnaming { misnamed(c, "in", "route-pairs") } else { named(c, "in", "route-pairs") };
    std::fs::write(&f, &t).map_err(|e| e.to_string())?;
    c.note(|| t.clone());
    c.key(&t);
    c.evals += 1;
    let res = io::routing::Parser::parse(&route_cfg(&f, &[1.0]));
    let _ = std::fs::remove_file(&f);
    match (res, bad.is_some() || no_count || misnaming) {
        (Err(_), true) => Ok(()),
        (Err(m), false) => Err(format!("routes are rejected: {}\n{}", m, t)),
        (Ok(_), true) => Err(format!("malformed routes are accepted\n{}", t)),
        (Ok(r), false) => {
            let got: Vec<(i64, i64, usize)> = r.iter().map(|(p, n)| (p.src, p.dst, *n)).collect();
            if got != want {
                return Err(format!("routes {:?}, expected {:?}\n{}", got, want, t));
            }
            Ok(())
        }
    }
}

fn gen_routes(c: &mut Case) -> R {
    let g = {
        let mut g = random_graph(&mut c.rng, Kind::Ints, 9);
        g.norm = false;
        g.generating = None;
        g
    };
    let mut g = g;
    if c.rng.chance(1, 40) {
        g.edges.clear();
        g.nodes.clear();
    }
    let graph = g.build().map_err(|m| format!("building fails: {}\n{}", m, g.dump()))?;
    let alphas: Vec<f64> = (0..g.dim).map(|_| *c.rng.pick(&[1.0, 1.0, 0.0, 2.5])).collect();
    let n = graph.nodes().count();
    let max = match c.rng.range(0, 4) {
        0 => 0,
        1 => c.rng.range(1, 5),
        2 => (n * n).saturating_sub(1),
        3 => n * n,
        _ => c.rng.range(0, n * n + 5),
    };
    let seed = c.rng.next();
    let f = c.file("out.route-pairs");
    let wcfg = if c.rng.chance(1, 2) {
        let s = if c.rng.chance(1, 2) { format!("seed: {}, ", seed) } else { String::new() };
        let y = format!("writing:\n  route-pairs:\n    file: '{}'\n    random_or_all: {{ {}max_count: {} }}\n", f.display(), s, max);
        serde_yaml::from_str(&y).map_err(|e| format!("config is not accepted: {}\n{}", e, y))?
    } else {
        wrouting::Config { file: f.clone(), category: wrouting::Category::RandomOrAll { seed, max_count: max } }
    };
    c.note(|| format!("{}\nmax {} seed {}", g.dump(), max, seed));
    c.key(&(g.dump(), max, seed));
    c.evals += 1;
    let rc = route_cfg(&f, &alphas);
    let res = io::routing::Writer::write(&graph, &rc, &wcfg);
    let text = std::fs::read_to_string(&f).unwrap_or_default();
    if let Err(m) = res {
        let _ = std::fs::remove_file(&f);
        return Err(format!("generating routes fails: {}\n{}", m, g.dump()));
    }
    let again = io::routing::Writer::write(&graph, &rc, &wcfg);
    let after = std::fs::read_to_string(&f).unwrap_or_default();
    let back = io::routing::Parser::parse(&rc);
    let _ = std::fs::remove_file(&f);
    if again.is_ok() || after != text {
        return Err("an existing route-file is overwritten".into());
    }
    let mut lines = text.lines().filter(|l| !l.is_empty() && !l.starts_with('#'));
    let count: usize = lines.next().and_then(|l| l.trim().parse().ok()).ok_or(format!("no count line\n{}", text))?;
    let mut pairs = vec![];
    for l in lines {
        let t: Vec<&str> = l.split_whitespace().collect();
        if t.len() != 3 || t[2] != "1" {
            return Err(format!("line '{}'\n{}", l, text));
        }
        pairs.push((t[0].parse::<i64>().map_err(|e| e.to_string())?, t[1].parse::<i64>().map_err(|e| e.to_string())?));
    }
    let err = |s: &str| Err(format!("{} (max {})\n{}\n{}", s, max, text, g.dump()));
    if count != pairs.len() {
        return err("count line differs from the number of routes");
    }
    if count > max {
        return err("more routes than requested");
    }
    if pairs.windows(2).any(|w| w[0] >= w[1]) {
        return err("routes aren't distinct and sorted");
    }
    let mut reach = BTreeSet::new();
    for s in g.used_ids() {
        for (t, _) in oracle(&g, &alphas, s) {
            if s != t {
                reach.insert((s, t));
            }
        }
    }
    if pairs.iter().any(|p| !reach.contains(p)) {
        return err("a pair isn't connected");
    }
    if max >= n * n && pairs.len() != reach.len() {
        return err(&format!("only {} of {} connected pairs, though all are requested", pairs.len(), reach.len()));
    }
    let back = back.map_err(|m| format!("generated route-file isn't readable: {}\n{}", m, text))?;
    if back.iter().map(|(p, k)| (p.src, p.dst, *k)).collect::<Vec<_>>() != pairs.iter().map(|p| (p.0, p.1, 1)).collect::<Vec<_>>() {
        return err("reading the route-file back yields other routes");
    }
    Ok(())
}
