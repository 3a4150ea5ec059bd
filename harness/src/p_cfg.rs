//! C11 units and generated metrics, C16 routing configuration, C17 tolerant comparison
use crate::gspec::*;
use crate::rng::Rng;
use crate::{Case, R};
use osmgraphing::approximating::Approx;
use osmgraphing::configs::{
    parsing,
    parsing::edges::metrics::UnitInfo as PUnit,
    parsing::generating::edges::metrics::UnitInfo as GUnit,
    routing::{Config as RoutingConfig, RoutingAlgo},
    SimpleId,
};
use osmgraphing::defaults::capacity::DimVec;
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum U {
    M,
    Km,
    S,
    Min,
    H,
    Kmh,
    Lane,
    F,
}
pub const US: [U; 8] = [U::M, U::Km, U::S, U::Min, U::H, U::Kmh, U::Lane, U::F];
impl U {
    pub fn name(self) -> &'static str {
        match self {
            U::M => "Meters",
            U::Km => "Kilometers",
            U::S => "Seconds",
            U::Min => "Minutes",
            U::H => "Hours",
            U::Kmh => "KilometersPerHour",
            U::Lane => "LaneCount",
            U::F => "F64",
        }
    }
    fn p(self) -> PUnit {
        match self {
            U::M => PUnit::Meters,
            U::Km => PUnit::Kilometers,
            U::S => PUnit::Seconds,
            U::Min => PUnit::Minutes,
            U::H => PUnit::Hours,
            U::Kmh => PUnit::KilometersPerHour,
            U::Lane => PUnit::LaneCount,
            U::F => PUnit::F64,
        }
    }
    fn g(self) -> GUnit {
        match self {
            U::M => GUnit::Meters,
            U::Km => GUnit::Kilometers,
            U::S => GUnit::Seconds,
            U::Min => GUnit::Minutes,
            U::H => GUnit::Hours,
            U::Kmh => GUnit::KilometersPerHour,
            U::Lane => GUnit::LaneCount,
            U::F => GUnit::F64,
        }
    }
}
/// (kind, size in base units)
fn scale(u: U) -> (u8, f64) {
    match u {
        U::M => (0, 1.0),
        U::Km => (0, 1000.0),
        U::S => (1, 1.0),
        U::Min => (1, 60.0),
        U::H => (1, 3600.0),
        U::Kmh => (2, 1.0),
        U::Lane => (3, 1.0),
        U::F => (4, 1.0),
    }
}
pub fn convert(a: U, b: U, x: f64) -> Option<f64> {
    if a == U::F || b == U::F || a == b {
        return Some(x);
    }
    let (ka, sa) = scale(a);
    let (kb, sb) = scale(b);
    if ka != kb {
        return None;
    }
    Some(x * sa / sb)
}
pub fn calc(r: U, a: U, x: f64, b: U, y: f64) -> Option<f64> {
    match (r, a, b) {
        (U::S, U::Km, U::Kmh) => Some(x / y * 3600.0),
        (U::Min, U::Km, U::Kmh) => Some(x / y * 60.0),
        (U::H, U::Km, U::Kmh) => Some(x / y),
        (U::Kmh, U::Km, U::H) => Some(x / y),
        _ => None,
    }
}
pub fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

fn val(r: &mut Rng) -> f64 {
    match r.range(0, 5) {
        0 => r.range(0, 400) as f64,
        1 => r.unit(),
        2 => r.unit() * 1e-3,
        3 => r.unit() * 1e7,
        4 => -r.unit() * 100.0,
        _ => (r.range(1, 2000) as f64) / 8.0,
    }
}

fn units(c: &mut Case) -> R {
    for &a in &US {
        for &b in &US {
            for _ in 0..3 {
                let x = val(&mut c.rng);
                c.evals += 2;
                let want = convert(a, b, x);
                let got1 = a.p().try_convert(&b.p(), x);
                let got2 = a.g().try_convert(&b.g(), x);
                for (n, got) in vec![("parsing", got1.ok()), ("generating", got2.ok())] {
                    let ok = match (want, got) {
                        (None, None) => true,
                        (Some(w), Some(g)) => close(w, g),
                        _ => false,
                    };
                    if !ok {
                        return Err(format!("{} unit {} -> {} of {}: got {:?}, expected {:?}", n, a.name(), b.name(), x, got, want));
                    }
                }
                for &r in &US {
                    let y = val(&mut c.rng);
                    if y == 0.0 {
                        continue;
                    }
                    c.evals += 1;
                    let want = calc(r, a, x, b, y);
                    let got = r.g().try_calc(&a.g(), x, &b.g(), y).ok();
                    let ok = match (want, got) {
                        (None, None) => true,
                        (Some(w), Some(g)) => close(w, g),
                        _ => false,
                    };
                    if !ok {
                        return Err(format!("calc {} from {} {} and {} {}: got {:?}, expected {:?}", r.name(), a.name(), x, b.name(), y, got, want));
                    }
                }
            }
        }
    }
    Ok(())
}

fn great_circle(a: (f64, f64), b: (f64, f64)) -> f64 {
    // on a sphere of radius 6371 km
    let (dy, dx) = ((b.0 - a.0).to_radians() / 2.0, (b.1 - a.1).to_radians() / 2.0);
    let h = dy.sin().powi(2) + a.0.to_radians().cos() * b.0.to_radians().cos() * dx.sin().powi(2);
    2.0 * 6371.0 * h.sqrt().atan2((1.0 - h).max(0.0).sqrt())
}

fn pipeline(c: &mut Case) -> R {
    let kind = *c.rng.pick(&[Kind::Ints, Kind::Halves]);
    let mut g = random_graph(&mut c.rng, kind, 8);
    if g.dim > 3 {
        g.dim = 3;
        for e in g.edges.iter_mut() {
            e.m.truncate(3);
        }
    }
    g.norm = false;
    // unique edge-ids for merging
    let with_ids = c.rng.chance(2, 3);
    if with_ids {
        let base = c.rng.range(0, 50);
        let mut ids: Vec<usize> = (0..g.edges.len()).map(|i| base + 3 * i).collect();
        c.rng.shuffle(&mut ids);
        for (e, i) in g.edges.iter_mut().zip(ids) {
            e.id = Some(i);
        }
    }
    let mut us: Vec<U> = (0..g.dim).map(|_| *c.rng.pick(&US)).collect();
    g.units = us.iter().map(|u| u.name()).collect();
    let mut ids: Vec<String> = (0..g.dim).map(|i| format!("m{}", i)).collect();
    let base = match g.build() {
        Ok(b) => b,
        Err(m) => return Err(format!("building fails: {}\n{}", m, g.dump())),
    };
    let bf = flat(&base);
    let coords: std::collections::BTreeMap<i64, (f64, f64)> = g.nodes.iter().map(|n| (n.id, (n.lat, n.lon))).collect();
    let mut vals: Vec<Vec<f64>> = bf.iter().map(|e| e.m.clone()).collect();
    let mut edge_ids: Vec<Option<usize>> = bf.iter().map(|e| e.id).collect();
    let mut y = String::new();
    let mut want_err = None;
    let mut fresh = 0;
    let mut files = vec![];
    let mut generated_ids = false;
    for _ in 0..c.rng.range(1, 6) {
        let op = c.rng.range(0, 8);
        let new_id = {
            fresh += 1;
            if c.rng.chance(1, 40) && (op < 2 || op == 2 && !us.is_empty() || op == 6) {
                want_err = Some("duplicate id");
                String::from(*c.rng.pick(&["edge-id", "src-id", "sc0", "sc1"]))
            } else {
                format!("x{}", fresh)
            }
        };
        let dup = want_err == Some("duplicate id");
        match op {
            0 => {
                let u = *c.rng.pick(&US);
                let d = val(&mut c.rng);
                let (mut ut, mut dt) = (u, d);
                let mut s = String::new();
                if c.rng.chance(1, 3) {
                    ut = U::F
                } else {
                    s += &format!("unit: '{}', ", u.name());
                }
                if c.rng.chance(1, 3) {
                    dt = 0.0
                } else {
                    s += &format!("default: {:?}, ", d);
                }
                y += &format!("    - custom: {{ {}id: '{}' }}\n", s, new_id);
                us.push(ut);
                ids.push(new_id);
                for v in vals.iter_mut() {
                    v.push(dt);
                }
            }
            1 => {
                let u = if c.rng.chance(1, 10) { *c.rng.pick(&US) } else { U::Km };
                y += &format!("    - haversine: {{ unit: '{}', id: '{}' }}\n", u.name(), new_id);
                if u != U::Km && !dup {
                    want_err = Some("haversine unit");
                }
                us.push(U::Km);
                ids.push(new_id);
                for (i, v) in vals.iter_mut().enumerate() {
                    let e = &bf[i];
                    v.push(great_circle(coords[&e.src], coords[&e.dst]));
                }
            }
            2 | 3 => {
                if us.is_empty() {
                    continue;
                }
                let i = c.rng.range(0, us.len() - 1);
                let to = if c.rng.chance(1, 8) {
                    *c.rng.pick(&US)
                } else {
                    let from = us[i];
                    let ok: Vec<U> = US.iter().cloned().filter(|t| convert(from, *t, 1.0).is_some()).collect();
                    *c.rng.pick(&ok)
                };
                let copy = op == 2;
                y += &format!(
                    "    - {}: {{ from: {{ unit: '{}', id: '{}' }}, to: {{ unit: '{}', id: '{}' }} }}\n",
                    if copy { "copy" } else { "convert" },
                    us[i].name(),
                    ids[i],
                    to.name(),
                    new_id
                );
                if convert(us[i], to, 1.0).is_none() {
                    if want_err.is_none() && !bf.is_empty() {
                        want_err = Some("impossible conversion");
                    }
                    if want_err.is_none() {
                        break;
                    }
                }
                for v in vals.iter_mut() {
                    let w = convert(us[i], to, v[i]).unwrap_or(0.0);
                    if copy {
                        v.push(w);
                    } else {
                        v[i] = w;
                    }
                }
                if copy {
                    us.push(to);
                    ids.push(new_id);
                } else {
                    us[i] = to;
                    ids[i] = new_id;
                }
            }
            4 | 5 => {
                let mut found = None;
                for a in 0..us.len() {
                    for b in 0..us.len() {
                        for &r in &US {
                            if calc(r, us[a], 1.0, us[b], 1.0).is_some() && (found.is_none() || c.rng.chance(1, 3)) {
                                found = Some((a, b, r));
                            }
                        }
                    }
                }
                if us.is_empty() {
                    continue;
                }
                let (a, b, r) = match found {
                    Some(f) if c.rng.chance(9, 10) => f,
                    _ => {
                        if c.rng.chance(9, 10) {
                            continue;
                        }
                        (c.rng.range(0, us.len() - 1), c.rng.range(0, us.len() - 1), *c.rng.pick(&US))
                    }
                };
                y += &format!(
                    "    - calc: {{ result: {{ unit: '{}', id: '{}' }}, a: {{ unit: '{}', id: '{}' }}, b: {{ unit: '{}', id: '{}' }} }}\n",
                    r.name(), new_id, us[a].name(), ids[a], us[b].name(), ids[b]
                );
                if calc(r, us[a], 1.0, us[b], 1.0).is_none() {
                    if want_err.is_none() && !bf.is_empty() {
                        want_err = Some("impossible calculation");
                    }
                    if want_err.is_none() {
                        break;
                    }
                }
                for v in vals.iter_mut() {
                    let w = calc(r, us[a], v[a], us[b], v[b]).unwrap_or(0.0);
                    v.push(w);
                }
                us.push(r);
                ids.push(new_id);
            }
            6 => {
                let info = *c.rng.pick(&["EdgeId", "SrcIdx", "SrcLat", "SrcLon", "DstIdx", "DstLat", "DstLon"]);
                y += &format!("    - meta: {{ info: '{}', id: '{}' }}\n", info, new_id);
                if info == "EdgeId" {
                    generated_ids = true;
                    for (i, e) in edge_ids.iter_mut().enumerate() {
                        *e = Some(i);
                    }
                }
            }
            _ => {
                if us.is_empty() || edge_ids.iter().any(|i| i.is_none()) {
                    continue;
                }
                let misnaming = c.rng.chance(1, 20);
                let ext = if misnaming { *c.rng.pick::<&str>(&["", ".txt", ".csvx", ".csv.gz", ".sv", ".fmi"]) } else { *c.rng.pick::<&str>(&[".csv", ".csv", ".csv", ".CSV", ".Csv"]) };
                if misnaming && want_err.is_none() {
                    want_err = Some("merge-file with another extension");
                }
                let path = c.file(&format!("merge{}{}", files.len(), ext));
                // columns: metrics, edge-id, ignored in any order
                let mut cols: Vec<Option<usize>> = vec![None; c.rng.range(0, 2)];
                let id_mark = 1000;
                cols.push(Some(id_mark));
                let mut ms: Vec<usize> = (0..us.len()).collect();
                c.rng.shuffle(&mut ms);
                ms.truncate(c.rng.range(1, us.len()));
                cols.extend(ms.into_iter().map(Some));
                c.rng.shuffle(&mut cols);
                let header = c.rng.chance(1, 2);
                let mut txt = String::new();
                if c.rng.chance(1, 2) {
                    txt += "# a comment\n\n";
                }
                if header {
                    txt += "some header line\n";
                }
                let mut order: Vec<usize> = (0..vals.len()).collect();
                c.rng.shuffle(&mut order);
                order.truncate(c.rng.range(0, vals.len()));
                if !order.is_empty() && c.rng.chance(1, 4) {
                    // an edge given twice: the later line counts
                    let again = *c.rng.pick(&order);
                    order.push(again);
                }
                let bad = c.rng.chance(1, 12);
                for (k, &ei) in order.iter().enumerate() {
                    if c.rng.chance(1, 6) {
                        txt += "\n#x 1 2\n";
                    }
                    let mut toks = vec![];
                    for col in &cols {
                        match col {
                            None => toks.push(String::from("junk")),
                            Some(x) if *x == id_mark => {
                                let mut id = edge_ids[ei].unwrap();
                                if bad && k == 0 {
                                    id = 1_000_000;
                                    if want_err.is_none() {
                                        want_err = Some("unknown edge-id in merge-file");
                                    }
                                }
                                toks.push(id.to_string())
                            }
                            Some(x) => {
                                let v = val(&mut c.rng);
                                vals[ei][*x] = v;
                                toks.push(format!("{:?}", v));
                            }
                        }
                    }
                    txt += &toks.join(*c.rng.pick(&[" ", "\t", "  "]));
                    txt += "\n";
                }
                std::fs::write(&path, txt.clone()).map_err(|e| e.to_string())?;
                let infos: Vec<String> = cols
                    .iter()
                    .map(|x| match x {
                        None => "ignored".to_string(),
                        Some(x) if *x == id_mark => "{ id: 'the-edge' }".to_string(),
                        Some(x) => format!("{{ id: '{}' }}", ids[*x]),
                    })
                    .collect();
                let h = if header && c.rng.chance(1, 2) { String::new() } else { format!("with_header-line: {}, ", header) };
                y += &format!("    - merge: {{ from: '{}', {}edge-id: 'the-edge', edges-info: [{}] }}\n", path.display(), h, infos.join(", "));
                c.note(|| format!("merge file:\n{}", txt));
                files.push(path);
            }
        }
        if want_err.is_some() {
            break;
        }
    }
    if y.is_empty() {
        return Ok(());
    }
    g.generating = Some(y);
    c.note(|| g.dump());
    c.key(&g);
    c.evals += 1;
    let res = g.build();
    for f in files {
        let _ = std::fs::remove_file(f);
    }
    let graph = match (res, want_err) {
        (Err(_), Some(_)) => return Ok(()),
        (Ok(_), Some(w)) => return Err(format!("expected an error ({}), but the graph is built\n{}", w, g.dump())),
        (Err(m), None) => return Err(format!("generating fails: {}\n{}", m, g.dump())),
        (Ok(x), None) => x,
    };
    let ff = flat(&graph);
    if ff.len() != bf.len() {
        return Err("edge-count changes".into());
    }
    let cfg = &graph.cfg().edges.metrics;
    if cfg.ids.len() != ids.len() || cfg.units.len() != ids.len() || graph.metrics().dim() != ids.len() {
        return Err(format!("{} ids and {} units for {} metrics\n{}", cfg.ids.len(), cfg.units.len(), ids.len(), g.dump()));
    }
    for i in 0..ids.len() {
        if cfg.ids[i] != SimpleId(ids[i].clone()) || cfg.units[i] != us[i].p() {
            return Err(format!("metric {} is {:?} {:?}, expected {} {}\n{}", i, cfg.ids[i], cfg.units[i], ids[i], us[i].name(), g.dump()));
        }
        match cfg.try_idx_of(&SimpleId(ids[i].clone())) {
            Ok(x) if *x == i => (),
            _ => return Err(format!("metric {} isn't found at {}", ids[i], i)),
        }
        let mut n = 0;
        for cat in &graph.cfg().edges.categories {
            if let parsing::edges::Category::Metric { unit, id } = cat {
                if id.0 == ids[i] {
                    n += 1;
                    if *unit != us[i].p() {
                        return Err(format!("category of {} has unit {:?}", ids[i], unit));
                    }
                }
            }
        }
        if n != 1 {
            return Err(format!("{} categories for metric {}\n{}", n, ids[i], g.dump()));
        }
    }
    for i in 0..ff.len() {
        if ff[i].src != bf[i].src || ff[i].dst != bf[i].dst || ff[i].sc != bf[i].sc || ff[i].id != edge_ids[i] {
            return Err(format!("edge {} changes from {:?} to {:?} (expected id {:?})\n{}", i, bf[i], ff[i], edge_ids[i], g.dump()));
        }
        for k in 0..ids.len() {
            let (a, b) = (ff[i].m[k], vals[i][k]);
            if !(close(a, b) || (a - b).abs() < 1e-7) {
                return Err(format!("edge {} metric {}: got {}, expected {}\n{}", i, ids[k], a, b, g.dump()));
            }
        }
        if let Some(id) = edge_ids[i] {
            if generated_ids {
                match graph.fwd_edges().try_idx_from(id) {
                    Ok(x) if *x == i => (),
                    _ => return Err(format!("generated edge-id {} isn't found", id)),
                }
            }
        }
    }
    Ok(())
}

pub fn c11(c: &mut Case) -> R {
    if c.idx % 50 == 0 {
        let i = c.idx; c.key(&i);
        units(c)?;
    }
    pipeline(c)
}

// ---------------------------------------------------------------- C16

pub fn c16(c: &mut Case) -> R {
    let dim = c.rng.range(1, 5);
    let mut g = GSpec::new(dim);
    g.norm = c.rng.chance(1, 2);
    let pcfg = g.cfg()?;
    let ch = c.rng.chance(1, 2);
    let mut y = format!("routing:\n  algorithm: {}\n", if ch { "CHDijkstra" } else { "Dijkstra" });
    let mut file = None;
    if c.rng.chance(1, 2) {
        y += "  route-pairs-file: 'a/b.route-pairs'\n";
        file = Some(std::path::PathBuf::from("a/b.route-pairs"));
    }
    let mut listed: Vec<usize> = (0..dim).collect();
    c.rng.shuffle(&mut listed);
    listed.truncate(c.rng.range(0, dim));
    let mut alphas = vec![0.0; dim];
    let mut scales = vec![std::f64::INFINITY; dim];
    let mut err = None;
    if listed.is_empty() {
        y += "  metrics: []\n";
    } else {
        y += "  metrics:\n";
    }
    let bad = if c.rng.chance(1, 4) && !listed.is_empty() { Some(c.rng.range(0, listed.len() - 1)) } else { None };
    for (k, &m) in listed.iter().enumerate() {
        let mut id = format!("m{}", m);
        alphas[m] = 1.0;
        let mut s = String::new();
        if c.rng.chance(2, 3) {
            alphas[m] = match c.rng.range(0, 4) {
                0 => 0.0,
                1 => c.rng.range(0, 50) as f64,
                2 => -1.5,
                _ => c.rng.unit() * 10.0,
            };
            s += &format!(", alpha: {:?}", alphas[m]);
        }
        if c.rng.chance(2, 3) {
            let v = c.rng.unit() * 3.0;
            let t = match c.rng.range(0, 5) {
                0 => String::from(*c.rng.pick(&["inf", "Inf", "INF", "infinity", "Infinity", "INFINITY", "iNfInItY"])),
                _ => {
                    scales[m] = v;
                    format!("{:?}", v)
                }
            };
            s += &format!(", tolerated-scale: '{}'", t);
        }
        if bad == Some(k) {
            match c.rng.range(0, 2) {
                0 => {
                    id = String::from(*c.rng.pick(&["m9", "M0", "edge-id", "", "m0 ", "src-id"]));
                    err = Some("unknown metric");
                }
                1 => {
                    s = format!(", tolerated-scale: '{}'", c.rng.pick(&["", "abc", "1,5", "1.0x", "infi", "0x10", "1 2", "--1"]));
                    err = Some("unreadable scale");
                }
                _ => {
                    s = format!(", alpha: {}", c.rng.pick(&["abc", "'1,5'", "[1]"]));
                    err = Some("unreadable weight");
                }
            }
        }
        y += &format!("  - {{ id: '{}'{} }}\n", id, s);
    }
    c.note(|| y.clone());
    c.key(&y);
    c.evals += 1;
    let from_file = c.rng.chance(1, 4);
    let res = if from_file {
        let p = c.file("routing.yaml");
        std::fs::write(&p, y.clone()).map_err(|e| e.to_string())?;
        let r = RoutingConfig::try_from_yaml(&p, &pcfg);
        let _ = std::fs::remove_file(&p);
        r
    } else {
        RoutingConfig::try_from_str(&y, &pcfg)
    };
    match (res, err) {
        (Err(_), Some(_)) => Ok(()),
        (Err(m), None) => Err(format!("config is rejected: {}\n{}", m, y)),
        (Ok(_), Some(w)) => Err(format!("config with {} is accepted\n{}", w, y)),
        (Ok(r), None) => {
            let algo = if ch { RoutingAlgo::CHDijkstra } else { RoutingAlgo::Dijkstra };
            if r.routing_algo != algo {
                return Err(format!("algorithm {:?}\n{}", r.routing_algo, y));
            }
            if r.route_pairs_file != file {
                return Err(format!("file {:?}\n{}", r.route_pairs_file, y));
            }
            if r.alphas.to_vec() != alphas {
                return Err(format!("weights {:?}, expected {:?}\n{}", r.alphas, alphas, y));
            }
            if r.tolerated_scales.to_vec() != scales {
                return Err(format!("scales {:?}, expected {:?}\n{}", r.tolerated_scales, scales, y));
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C17

fn fin(r: &mut Rng) -> f64 {
    match r.range(0, 8) {
        0 => 0.0,
        1 => -0.0,
        2 => r.unit() * 1e-6,
        3 => (r.unit() - 0.5) * 1e-5,
        4 => r.range(0, 5) as f64,
        5 => (r.unit() - 0.5) * 2e3,
        6 => (r.unit() - 0.5) * 2e15,
        7 => {
            let x = f64::from_bits(r.next());
            if x.is_finite() {
                x
            } else {
                1.0
            }
        }
        _ => r.unit(),
    }
}
fn near(r: &mut Rng, a: f64) -> f64 {
    let x = match r.range(0, 9) {
        0 => a,
        1 => a + 1e-6,
        2 => a - 1e-6,
        3 => a + r.unit() * 4e-6,
        4 => a - r.unit() * 4e-6,
        5 => -a,
        6 => a + 1.5e-6,
        7 => a + 1e-6 * (r.range(0, 8) as f64 - 4.0) / 2.0,
        8 => a * (1.0 + 1e-15),
        _ => fin(r),
    };
    if x.is_finite() {
        x
    } else {
        fin(r)
    }
}
/// what must hold for comparing two finite numbers
fn scalar(a: f64, b: f64) -> Result<Ordering, String> {
    let e = Approx(a) == Approx(b);
    let o = Approx(a).partial_cmp(&Approx(b));
    let o2 = Approx(b).partial_cmp(&Approx(a));
    let e2 = Approx(b) == Approx(a);
    let msg = |s: &str| Err(format!("{} for {:?} and {:?}: eq {} cmp {:?} / reverse {} {:?}", s, a, b, e, o, e2, o2));
    if e != e2 {
        return msg("equality isn't symmetric");
    }
    if o.is_none() || o2 != o.map(|x| x.reverse()) {
        return msg("ordering isn't antisymmetric");
    }
    let o = o.unwrap();
    if (o == Ordering::Equal) != e {
        return msg("ordering disagrees with equality");
    }
    if (Approx(a).cmp(&Approx(b))) != o || Approx(&a).partial_cmp(&Approx(&b)) != Some(o) || (Approx(&a) == Approx(&b)) != e {
        return msg("cmp, partial_cmp and comparison of references differ");
    }
    if (Approx(a) < Approx(b)) != (o == Ordering::Less)
        || (Approx(a) > Approx(b)) != (o == Ordering::Greater)
        || (Approx(a) <= Approx(b)) != (o != Ordering::Greater)
        || (Approx(a) >= Approx(b)) != (o != Ordering::Less)
    {
        return msg("operators differ from cmp");
    }
    let d = (a - b).abs();
    if d > 2.1e-6 && o != a.partial_cmp(&b).unwrap() {
        return msg("clearly different numbers don't compare like numbers");
    }
    if d < 0.999e-6 && !e {
        return msg("numbers differing by less than the accuracy aren't equal");
    }
    if o != Ordering::Equal && Some(o) != a.partial_cmp(&b) {
        return msg("ordering contradicts the numbers");
    }
    if !(Approx(a) == Approx(a)) || Approx(a).partial_cmp(&Approx(a)) != Some(Ordering::Equal) {
        return msg("not reflexive");
    }
    let (x, y) = (Approx(Some(a)), Approx(Some(b)));
    if (x == y) != e || Approx(Some(a)) == Approx(None) || !(Approx(None::<f64>) == Approx(None)) {
        return msg("options compare differently");
    }
    if x.partial_cmp(&y) != Some(o) || x.partial_cmp(&Approx(None::<f64>)) != Some(Ordering::Greater) || Approx(None::<f64>).partial_cmp(&x) != Some(Ordering::Less) || Approx(None::<f64>).partial_cmp(&Approx(None)) != Some(Ordering::Equal) {
        return msg("options are ordered differently");
    }
    let co = |lat, lon| Approx(kissunits::geo::Coordinate { lat, lon });
    for (p, q, want) in vec![(co(a, a), co(b, b), e), (co(a, b), co(a, a), e), (co(a, b), co(b, b), e), (co(a, b), co(b, a), e), (co(a, b), co(a, b), true)] {
        if (p == q) != want || (q == p) != want {
            return msg("coordinates don't compare component-wise");
        }
    }
    let (c, r) = (co(a, b).approx(), (Approx(a).approx(), Approx(b).approx()));
    if c.lat.to_bits() != r.0.to_bits() || c.lon.to_bits() != r.1.to_bits() {
        return msg("coordinates aren't rounded component-wise");
    }
    Ok(o)
}

pub fn c17(c: &mut Case) -> R {
    for _ in 0..40 {
        let a = fin(&mut c.rng);
        let b = near(&mut c.rng, a);
        c.key(&(a.to_bits(), b.to_bits()));
        c.evals += 1;
        scalar(a, b)?;
    }
    for _ in 0..15 {
        let n = c.rng.range(0, 6);
        let mode = c.rng.range(0, 3);
        let a: Vec<f64> = (0..n).map(|_| fin(&mut c.rng)).collect();
        let b: Vec<f64> = a
            .iter()
            .map(|x| match mode {
                0 => *x,
                1 => x + c.rng.unit() * 3e-6,
                2 => x - c.rng.unit() * 3e-6,
                _ => near(&mut c.rng, *x),
            })
            .collect();
        let mut os = vec![];
        for i in 0..n {
            if !b[i].is_finite() {
                return Ok(());
            }
            os.push(scalar(a[i], b[i])?);
        }
        c.evals += 1;
        let le = os.iter().all(|o| *o != Ordering::Greater);
        let ge = os.iter().all(|o| *o != Ordering::Less);
        let eq = os.iter().all(|o| *o == Ordering::Equal);
        let (sa, sb): (&[f64], &[f64]) = (&a, &b);
        let (va, vb) = (DimVec::from_slice(&a), DimVec::from_slice(&b));
        let got = [
            (Approx(sa) <= Approx(sb), Approx(sa) >= Approx(sb), Approx(sa) == Approx(sb)),
            (Approx(&va) <= Approx(&vb), Approx(&va) >= Approx(&vb), Approx(&va) == Approx(&vb)),
        ];
        for x in got.iter() {
            if *x != (le, ge, eq) {
                return Err(format!("lists {:?} and {:?}: (at most, at least, equal) is {:?}, expected {:?}", a, b, x, (le, ge, eq)));
            }
        }
        if n > 0 {
            let want = if os.iter().all(|o| *o == os[0]) { Some(os[0]) } else { None };
            if Approx(sa).partial_cmp(&Approx(sb)) != want || Approx(&va).partial_cmp(&Approx(&vb)) != want {
                return Err(format!("lists {:?} and {:?}: partial_cmp is {:?}, expected {:?}", a, b, Approx(sa).partial_cmp(&Approx(sb)), want));
            }
        }
    }
    Ok(())
}
