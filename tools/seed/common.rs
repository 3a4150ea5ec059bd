extern crate osmgraphing;
use osmgraphing::{configs, io, network::*, routing::{dijkstra::{Dijkstra, Query}, paths::Path}};
use std::{fs, path::PathBuf};

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("demo-{}-{:?}", std::process::id(), std::time::Instant::now()).replace(|c: char| !c.is_ascii_alphanumeric() && c != '-', ""));
        fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn f(&self, n: &str) -> String { self.0.join(n).display().to_string() }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }

/// columns of nodes: id lat lon level; of edges: given by `cols`
pub fn graph_with(s: &Scratch, name: &str, cols: &str, extra: &str, nodes: &[&str], edges: &[&str]) -> Result<Graph, String> {
    let map = s.f(&format!("{}.fmi", name));
    let mut t = String::from("# comment\n0\n");
    t += &format!("{}\n{}\n", nodes.len(), edges.len());
    for l in nodes.iter().chain(edges) { t += l; t += "\n"; }
    fs::write(&map, t).unwrap();
    let y = format!("parsing:\n  map-file: '{}'\n  nodes:\n  - meta: {{ info: 'NodeId', id: 'node-id' }}\n  - metric: {{ unit: 'Latitude', id: 'lat' }}\n  - metric: {{ unit: 'Longitude', id: 'lon' }}\n  - meta: {{ info: 'CHLevel', id: 'lvl' }}\n{}{}", map, cols, extra);
    let yp = s.f(&format!("{}.yaml", name));
    fs::write(&yp, y).unwrap();
    let cfg = configs::parsing::Config::try_from_yaml(&yp).map_err(|m| format!("{}", m))?;
    io::network::graph::Parser::parse_and_finalize(cfg).map_err(|m| format!("{}", m))
}
/// edge columns: src dst sc0 sc1 m0 .. m(dim-1)
pub fn cols(dim: usize, with_id: bool, norm: bool) -> String {
    let mut y = format!("  edges:\n    will_normalize_metrics_by_mean: {}\n    data:\n", norm);
    if with_id { y += "    - meta: { info: 'EdgeId', id: 'edge-id' }\n"; }
    y += "    - meta: { info: 'SrcId', id: 'src-id' }\n    - meta: { info: 'DstId', id: 'dst-id' }\n    - meta: { info: 'ShortcutIdx0', id: 'sc0' }\n    - meta: { info: 'ShortcutIdx1', id: 'sc1' }\n";
    for i in 0..dim { y += &format!("    - metric: {{ unit: 'F64', id: 'm{}' }}\n", i); }
    y
}
pub fn graph(s: &Scratch, name: &str, dim: usize, nodes: &[&str], edges: &[&str]) -> Result<Graph, String> {
    graph_with(s, name, &cols(dim, false, false), "", nodes, edges)
}
pub fn route_cfg(g: &Graph, algo: &str, alphas: &[f64]) -> configs::routing::Config {
    let mut y = format!("routing:\n  algorithm: {}\n  metrics:\n", algo);
    for (i, a) in alphas.iter().enumerate() { y += &format!("  - {{ id: 'm{}', alpha: {:?} }}\n", i, a); }
    configs::routing::Config::from_str(&y, g.cfg())
}
pub fn route(d: &mut Dijkstra, g: &Graph, cfg: &configs::routing::Config, s: i64, t: i64) -> Option<Path> {
    let n = g.nodes();
    d.compute_best_path(Query { src_idx: n.idx_from(s).unwrap(), dst_idx: n.idx_from(t).unwrap(), graph: g, routing_cfg: cfg })
}
/// (src-id, dst-id) of the edges of a path
pub fn ends(g: &Graph, p: &Path) -> Vec<(i64, i64)> {
    let (f, b, n) = (g.fwd_edges(), g.bwd_edges(), g.nodes());
    p.iter().map(|&e| (n.id(b.dst_idx(e)), n.id(f.dst_idx(e)))).collect()
}
pub fn bad(msg: &str) -> ! { eprintln!("DEMO: {}", msg); std::process::exit(1) }
pub fn check(ok: bool, msg: &str) { if !ok { bad(msg) } }
/// run with a time limit, in case the code does not terminate
pub fn limited<F: FnOnce() + Send + 'static>(secs: u64, f: F) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { f(); let _ = tx.send(()); });
    if rx.recv_timeout(std::time::Duration::from_secs(secs)).is_err() { bad("crash or no answer") }
}
