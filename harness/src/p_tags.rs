//! C12 street tags
use crate::gspec::flat;
use crate::pbf::{self, PNode, PWay};
use crate::rng::Rng;
use crate::{Case, R};
use osmgraphing::{io::network::graph::Parser, network::{vehicles::Category as V, StreetCategory}};
use osmpbfreader::{Tags, Way, WayId};
use std::collections::BTreeMap;

/// (tag value, default speed, cars, bicycles, pedestrians); y: yes, n: no, s: uncomfortable,
/// u: uncomfortable, used at most if drivers aren't picky (the library documents the category as uncomfortable, but is free to ignore it)
const T: [(&str, u16, char, char, char); 19] = [
    ("motorway", 130, 'y', 'n', 'n'),
    ("motorway_link", 50, 'y', 'n', 'n'),
    ("trunk", 100, 'y', 'n', 'n'),
    ("trunk_link", 50, 'y', 'n', 'n'),
    ("primary", 100, 'y', 's', 'n'),
    ("primary_link", 30, 'y', 's', 'n'),
    ("secondary", 70, 'y', 's', 'n'),
    ("secondary_link", 30, 'y', 's', 'n'),
    ("tertiary", 70, 'y', 'y', 'n'),
    ("tertiary_link", 30, 'y', 'y', 'n'),
    ("unclassified", 50, 'y', 'y', 'n'),
    ("residential", 50, 'y', 'y', 'y'),
    ("living_street", 15, 'y', 'y', 'y'),
    ("service", 20, 'u', 'y', 'y'),
    ("track", 30, 's', 's', 'y'),
    ("road", 50, 'u', 'u', 'u'),
    ("cycleway", 25, 'n', 'y', 'n'),
    ("pedestrian", 5, 'n', 's', 'y'),
    ("path", 15, 'n', 's', 'y'),
];
fn way(tags: &[(String, String)], refs: &[i64]) -> Way {
    let mut t = Tags::new();
    for (k, v) in tags {
        t.insert(k.clone().into(), v.clone().into());
    }
    Way { id: WayId(7), tags: t, nodes: refs.iter().map(|i| osmpbfreader::NodeId(*i)).collect() }
}
const YES: [&str; 8] = ["1", "left;through", "motor_vehicle", "recommended", "shelter", "use_sidepath", "yes + oneway:bicycle=no", "yes"];
const REV: [&str; 3] = ["-1", "´-1", "-1;no"];
const NO: [&str; 16] = ["no", "alternating", "bicycle", "cycle_barrier", "fixme", "reversible", "undefined", "unknown", "yes;no", "abc", "", "0", "2", "-2", "yesno", "true?"];
fn noise(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        if r.chance(1, 4) {
            o.extend(ch.to_uppercase());
        } else {
            o.push(ch);
        }
    }
    // keep non-ascii as it is
    if !s.is_ascii() {
        o = s.to_string();
    }
    match r.range(0, 4) {
        0 => format!(" {}", o),
        1 => format!("{}\t", o),
        _ => o,
    }
}
/// (tag value, (oneway, reverse))
fn oneway(r: &mut Rng) -> (Option<String>, (bool, bool)) {
    match r.range(0, 9) {
        0 | 1 => (None, (false, false)),
        2 | 3 => {
            let s = *r.pick(&NO);
            (Some(noise(r, s)), (false, false))
        }
        4 => {
            let n = r.range(1, 6);
            let s: String = (0..n).map(|_| *r.pick(&['y', 'e', 's', 'n', 'o', ' ', ';', '1', 'ü', '-'])).collect();
            let t = s.trim().to_ascii_lowercase();
            if YES.contains(&t.as_str()) || REV.contains(&t.as_str()) {
                (None, (false, false))
            } else {
                (Some(s), (false, false))
            }
        }
        5 | 6 => {
            let s = *r.pick(&REV);
            (Some(noise(r, s)), (true, true))
        }
        _ => {
            let s = *r.pick(&YES);
            (Some(noise(r, s)), (true, false))
        }
    }
}
/// (tag value, expected speed or the default)
fn speed(r: &mut Rng) -> (Option<String>, Option<f64>) {
    match r.range(0, 8) {
        0 => (None, None),
        1 => {
            let x = r.range(0, 8);
            (Some(x.to_string()), Some(x.max(5) as f64))
        }
        2 | 3 => {
            let x = r.range(0, 300);
            (Some(x.to_string()), Some(x.max(5) as f64))
        }
        4 => {
            let x = *r.pick(&[65535usize, 65534, 32768, 32767, 1000, 256, 255, 4, 5, 6]);
            (Some(x.to_string()), Some(x.max(5) as f64))
        }
        5 => (Some(String::from(*r.pick(&["none", "signals", "variable", "signal", "de:rural"]))), None),
        _ => {
            let x = *r.pick(&["fast", "", "-", "70000", "65536", "-30", "50.5", "12a", "äöü", "999999999999999999999", "0x20", "NaN", "inf", "fifty"]);
            (Some(String::from(x)), None)
        }
    }
}
fn allowed(t: char, picky: bool) -> Option<bool> {
    match (t, picky) {
        ('y', _) => Some(true),
        ('n', _) => Some(false),
        ('s', p) => Some(!p),
        ('u', true) => Some(false),
        _ => None,
    }
}

fn direct(c: &mut Case) -> R {
    for t in T.iter() {
        let (ow, wow) = oneway(&mut c.rng);
        let (sp, wsp) = speed(&mut c.rng);
        let mut tags = vec![(String::from("highway"), noise(&mut c.rng, t.0).trim_start().to_string())];
        if let Some(x) = &ow {
            tags.push(("oneway".into(), x.clone()));
        }
        if let Some(x) = &sp {
            tags.push(("maxspeed".into(), x.clone()));
        }
        if c.rng.chance(1, 3) {
            tags.push(("lanes".into(), c.rng.pick(&["0", "1", "2", "x"]).to_string()));
        }
        c.note(|| format!("{:?}", tags));
        c.key(&tags);
        c.evals += 1;
        let w = way(&tags, &[1, 2]);
        let cat = match StreetCategory::from(&w) {
            Some(x) => x,
            None => return Err(format!("{:?}: no street category", tags)),
        };
        let bare = way(&tags[..1], &[1, 2]);
        if *cat.parse_maxspeed(&bare) != t.1 as f64 {
            return Err(format!("{}: default speed {}, documented {}", t.0, *cat.parse_maxspeed(&bare), t.1));
        }
        let got = *cat.parse_maxspeed(&w);
        let want = wsp.unwrap_or(t.1 as f64);
        if got != want {
            return Err(format!("{:?}: speed {}, expected {}", tags, got, want));
        }
        if cat.parse_oneway(&w) != wow {
            return Err(format!("{:?}: (oneway, reverse) is {:?}, expected {:?}", tags, cat.parse_oneway(&w), wow));
        }
        if cat.parse_lane_count(&w) < 1 {
            return Err(format!("{:?}: no lane", tags));
        }
        for &picky in &[true, false] {
            for (v, a) in vec![(V::Car, t.2), (V::Bicycle, t.3), (V::Pedestrian, t.4)] {
                if let Some(want) = allowed(a, picky) {
                    if cat.is_for(&v, picky) != want {
                        return Err(format!("{} for {:?} (picky: {}) is {}", t.0, v, picky, !want));
                    }
                }
            }
        }
    }
    let w = way(&[("highways".into(), "motorway".into())], &[1, 2]);
    if StreetCategory::from(&w).is_some() {
        return Err("a way without highway-tag is a street".into());
    }
    let w = way(&[("highway".into(), c.rng.pick(&["motorwayy", "street?", "-", "construction"]).to_string())], &[1, 2]);
    if StreetCategory::from(&w).is_some() {
        return Err("a way with unusable highway-tag is a street".into());
    }
    Ok(())
}

fn end_to_end(c: &mut Case) -> R {
    let n = c.rng.range(2, 8);
    let base = *c.rng.pick(&[1i64, 1 << 35, -40]);
    let mut nodes = vec![];
    let mut coords = BTreeMap::new();
    for i in 0..n {
        let (lat, lon) = ((c.rng.unit() * 1.7e9 - 8.5e8) as i32, (c.rng.unit() * 3.4e9 - 1.7e9) as i64 as i32);
        let id = base + 7 * i as i64;
        nodes.push(PNode { id, lat, lon });
        coords.insert(id, (lat, lon));
    }
    let ids: Vec<i64> = nodes.iter().map(|x| x.id).collect();
    c.rng.shuffle(&mut nodes);
    let (v, vn) = *c.rng.pick(&[('c', "Car"), ('b', "Bicycle"), ('p', "Pedestrian")]);
    let picky = c.rng.chance(1, 2);
    let mut ways = vec![];
    // (src, dst, speed)
    let mut want: Vec<(i64, i64, f64)> = vec![];
    for k in 0..c.rng.range(1, 5) {
        let t = *c.rng.pick(&T);
        let a = match v {
            'c' => t.2,
            'b' => t.3,
            _ => t.4,
        };
        let use_it = match allowed(a, picky) {
            Some(u) => u,
            None => continue,
        };
        let len = if c.rng.chance(1, 8) { c.rng.range(0, 1) } else { c.rng.range(2, 6) };
        let mut refs: Vec<i64> = (0..len).map(|_| *c.rng.pick(&ids)).collect();
        refs.dedup();
        let (ow, wow) = oneway(&mut c.rng);
        let (sp, wsp) = speed(&mut c.rng);
        let mut tags = vec![];
        let has_highway = !c.rng.chance(1, 10);
        if has_highway {
            tags.push((String::from("highway"), t.0.to_string()));
        }
        if let Some(x) = &ow {
            tags.push(("oneway".into(), x.clone()));
        }
        if let Some(x) = &sp {
            tags.push(("maxspeed".into(), x.clone()));
        }
        ways.push(PWay { id: k as i64 + 1, refs: refs.clone(), tags });
        if !use_it || !has_highway || refs.len() < 2 {
            continue;
        }
        let s = wsp.unwrap_or(t.1 as f64);
        for p in refs.windows(2) {
            if !(wow.0 && wow.1) {
                want.push((p[0], p[1], s));
            }
            if !wow.0 || wow.1 {
                want.push((p[1], p[0], s));
            }
        }
    }
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    want.dedup();
    let p = c.file("map.osm.pbf");
    std::fs::write(&p, pbf::write(&nodes, &ways)).map_err(|e| e.to_string())?;
    let y = format!(
        "parsing:\n  map-file: '{}'\n  vehicles: {{ category: '{}', are_drivers_picky: {} }}\n  nodes:\n  - meta: {{ info: 'NodeId', id: 'node-id' }}\n  - metric: {{ unit: 'Latitude', id: 'lat' }}\n  - metric: {{ unit: 'Longitude', id: 'lon' }}\n  edges:\n    will_normalize_metrics_by_mean: false\n    data:\n    - meta: {{ info: 'SrcId', id: 'src-id' }}\n    - metric: {{ unit: 'KilometersPerHour', id: 'v' }}\n    - meta: {{ info: 'DstId', id: 'dst-id' }}\n    - metric: {{ unit: 'LaneCount', id: 'lanes' }}\n",
        p.display(), vn, picky
    );
    c.note(|| format!("{}\n{:?}", y, ways.iter().map(|w| (w.refs.clone(), w.tags.clone())).collect::<Vec<_>>()));
    let cfg = serde_yaml::from_str(&y).map_err(|e| e.to_string())?;
    c.evals += 1;
    c.key(&want);
    let g = Parser::parse_and_finalize(cfg);
    let _ = std::fs::remove_file(&p);
    let g = g.map_err(|m| format!("reading the pbf-file fails: {}", m))?;
    let mut got: Vec<(i64, i64, f64)> = flat(&g).iter().map(|e| (e.src, e.dst, e.m[0])).collect();
    got.sort_by(|a, b| a.partial_cmp(b).unwrap());
    // equal edges may be merged, but ways of equal speed and different lanes may not
    got.dedup();
    if got != want {
        return Err(format!("edges {:?}\nexpected {:?}\n{:?}", got, want, ways.iter().map(|w| (w.refs.clone(), w.tags.clone())).collect::<Vec<_>>()));
    }
    for i in g.nodes().iter() {
        let (lat, lon) = coords[&g.nodes().id(i)];
        let k = g.nodes().coord(i);
        if (k.lat - lat as f64 * 1e-7).abs() > 1e-9 || (k.lon - lon as f64 * 1e-7).abs() > 1e-9 {
            return Err(format!("node {} is at {:?}, expected {} {}", g.nodes().id(i), k, lat, lon));
        }
    }
    Ok(())
}

pub fn c12(c: &mut Case) -> R {
    direct(c)?;
    if c.idx % 4 == 0 {
        end_to_end(c)?;
    }
    Ok(())
}
