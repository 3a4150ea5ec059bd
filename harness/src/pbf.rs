//! minimal writer of osm.pbf files (uncompressed blobs)
fn varint(o: &mut Vec<u8>, mut x: u64) {
    loop {
        let b = (x & 0x7f) as u8;
        x >>= 7;
        if x == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
fn zz(x: i64) -> u64 {
    ((x << 1) ^ (x >> 63)) as u64
}
fn bytes(o: &mut Vec<u8>, field: u64, b: &[u8]) {
    varint(o, field << 3 | 2);
    varint(o, b.len() as u64);
    o.extend_from_slice(b);
}
fn num(o: &mut Vec<u8>, field: u64, x: u64) {
    varint(o, field << 3);
    varint(o, x);
}
pub struct PNode {
    pub id: i64,
    pub lat: i32,
    pub lon: i32,
}
pub struct PWay {
    pub id: i64,
    pub refs: Vec<i64>,
    pub tags: Vec<(String, String)>,
}
fn blob(o: &mut Vec<u8>, ty: &str, payload: &[u8]) {
    let mut b = vec![];
    bytes(&mut b, 1, payload);
    let mut h = vec![];
    bytes(&mut h, 1, ty.as_bytes());
    num(&mut h, 3, b.len() as u64);
    o.extend_from_slice(&(h.len() as u32).to_be_bytes());
    o.extend_from_slice(&h);
    o.extend_from_slice(&b);
}
pub fn write(nodes: &[PNode], ways: &[PWay]) -> Vec<u8> {
    let mut out = vec![];
    let mut hb = vec![];
    bytes(&mut hb, 4, b"OsmSchema-V0.6");
    blob(&mut out, "OSMHeader", &hb);

    let mut strings: Vec<String> = vec![String::new()];
    let mut sid = |s: &String| -> u64 {
        if let Some(i) = strings.iter().position(|x| x == s) {
            return i as u64;
        }
        strings.push(s.clone());
        (strings.len() - 1) as u64
    };
    let mut groups = vec![];
    if !nodes.is_empty() {
        let mut g = vec![];
        for n in nodes {
            let mut m = vec![];
            num(&mut m, 1, zz(n.id));
            num(&mut m, 8, zz(n.lat as i64));
            num(&mut m, 9, zz(n.lon as i64));
            bytes(&mut g, 1, &m);
        }
        groups.push(g);
    }
    if !ways.is_empty() {
        let mut g = vec![];
        for w in ways {
            let mut m = vec![];
            num(&mut m, 1, w.id as u64);
            let (mut ks, mut vs) = (vec![], vec![]);
            for (k, v) in &w.tags {
                varint(&mut ks, sid(k));
                varint(&mut vs, sid(v));
            }
            bytes(&mut m, 2, &ks);
            bytes(&mut m, 3, &vs);
            let mut rs = vec![];
            let mut last = 0;
            for r in &w.refs {
                varint(&mut rs, zz(r - last));
                last = *r;
            }
            bytes(&mut m, 8, &rs);
            bytes(&mut g, 3, &m);
        }
        groups.push(g);
    }
    let mut pb = vec![];
    let mut st = vec![];
    for s in &strings {
        bytes(&mut st, 1, s.as_bytes());
    }
    bytes(&mut pb, 1, &st);
    for g in groups {
        bytes(&mut pb, 2, &g);
    }
    blob(&mut out, "OSMData", &pb);
    out
}
