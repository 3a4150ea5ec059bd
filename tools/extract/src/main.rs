//! extract REPO PROOFS UNIT OUT.rs INFO.json [--record]
//!
//! Reads proofs/UNIT.vrs (Verus text with `@@` directives), takes the named functions, structs, enums and
//! constants from REPO's current source, rewrites them by the fixed rules in rules.rs into Verus' dialect,
//! joins them with the contracts of the directive and writes one Verus file.
mod rules;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;

pub fn die(m: &str) -> ! {
    eprintln!("{}", m);
    std::process::exit(3)
}
/// string literals are represented by a number (checked to be injective on the literals of a unit)
pub fn str_code(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let h = h & 0xffff_ffff_ffff;
    let mut m = CODES.lock().unwrap();
    if let Some(o) = m.insert(h, s.to_string()) {
        if o != s {
            die("string codes collide")
        }
    }
    h
}
static CODES: std::sync::Mutex<BTreeMap<u64, String>> = std::sync::Mutex::new(BTreeMap::new());
/// STR("..") in contracts
fn subst_codes(t: &str) -> String {
    let mut o = String::new();
    let mut r = t;
    while let Some(k) = r.find("STR(\"") {
        o.push_str(&r[..k]);
        let e = k + 5 + r[k + 5..].find("\")").unwrap_or_else(|| die("STR"));
        o.push_str(&format!("{}", str_code(&r[k + 5..e])));
        r = &r[e + 2..];
    }
    o + r
}
pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
pub fn toks<T: ToTokens>(t: &T) -> String {
    norm(&t.to_token_stream().to_string())
}

#[derive(Default, Clone, Debug)]
pub struct Dir {
    pub kind: String,
    pub file: String,
    pub path: String,
    pub opts: HashMap<String, String>,
    /// (section header, text)
    pub secs: Vec<(String, String)>,
}
impl Dir {
    pub fn sec(&self, k: &str) -> Option<&str> {
        self.secs.iter().find(|(h, _)| h == k).map(|(_, t)| t.as_str())
    }
    pub fn opt(&self, k: &str) -> Option<&str> {
        self.opts.get(k).map(|s| s.as_str())
    }
}

enum Piece {
    Text(String),
    Dir(Dir),
}

fn read_template(dir: &Path, name: &str) -> Vec<Piece> {
    let f = dir.join(name);
    let src = std::fs::read_to_string(&f).unwrap_or_else(|e| die(&format!("cannot read {:?}: {}", f, e)));
    let mut out = vec![];
    let mut cur: Option<Dir> = None;
    // `%include FILE` inside a directive: its sections come from FILE
    let src: String = src
        .lines()
        .map(|l| match l.strip_prefix("%include ") {
            Some(r) => std::fs::read_to_string(dir.join(r.trim())).unwrap_or_else(|e| die(&format!("cannot read {}: {}", r, e))),
            None => format!("{}\n", l),
        })
        .collect();
    for l in src.lines() {
        let t = l.trim_start();
        if let Some(d) = &mut cur {
            if t.starts_with("@@end") {
                out.push(Piece::Dir(cur.take().unwrap()));
            } else if let Some(h) = t.strip_prefix('%') {
                d.secs.push((h.trim().to_string(), String::new()));
            } else if let Some((_, b)) = d.secs.last_mut() {
                b.push_str(l);
                b.push('\n');
            } else if !t.is_empty() {
                die(&format!("{}: text before first section: {}", name, l));
            }
            continue;
        }
        if let Some(r) = t.strip_prefix("@@include ") {
            out.extend(read_template(dir, r.trim()));
        } else if let Some(r) = t.strip_prefix("@@assume ") {
            // contracts only: the bodies are verified in another unit
            for mut p in read_template(dir, r.trim()) {
                if let Piece::Dir(d) = &mut p {
                    if d.kind != "item" {
                        d.opts.insert("stub".into(), "1".into());
                    }
                }
                out.push(p);
            }
        } else if t.starts_with("@@") {
            let r = &t[2..];
            let (kind, rest) = r.split_once(' ').unwrap_or_else(|| die(&format!("bad directive {}", l)));
            let (file, rest) = rest.split_once(" :: ").unwrap_or_else(|| die(&format!("bad directive {}", l)));
            let (path, opts) = match rest.split_once(" [") {
                Some((p, o)) => (p, o.trim_end().trim_end_matches(']')),
                None => (rest, ""),
            };
            let mut d = Dir { kind: kind.to_string(), file: file.trim().to_string(), path: path.trim().to_string(), ..Default::default() };
            for o in opts.split(';').map(|s| s.trim()).filter(|s| !s.is_empty()) {
                let (k, v) = o.split_once('=').unwrap_or((o, "1"));
                d.opts.insert(k.trim().to_string(), v.trim().to_string());
            }
            if kind == "item" {
                out.push(Piece::Dir(d));
            } else {
                cur = Some(d);
            }
        } else {
            match out.last_mut() {
                Some(Piece::Text(s)) => {
                    s.push_str(l);
                    s.push('\n');
                }
                _ => out.push(Piece::Text(format!("{}\n", l))),
            }
        }
    }
    if cur.is_some() {
        die(&format!("{}: directive without @@end", name));
    }
    out
}

fn is_test_cfg(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = toks(a);
        s == "#[cfg(test)]" || s == "#[cfg(feature=\"gpl\")]"
    })
}

/// all items of a file, nested modules flattened
fn flatten(items: &[syn::Item], out: &mut Vec<(Vec<String>, syn::Item)>, path: &[String]) {
    for i in items {
        match i {
            syn::Item::Mod(m) if !is_test_cfg(&m.attrs) => {
                if let Some((_, c)) = &m.content {
                    let mut p = path.to_vec();
                    p.push(m.ident.to_string());
                    flatten(c, out, &p)
                }
            }
            _ => out.push((path.to_vec(), i.clone())),
        }
    }
}

pub struct Found {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub line: usize,
}

fn ty_matches(t: &syn::Type, want: &str) -> bool {
    let s = toks(t);
    if s == norm(want) {
        return true;
    }
    if let syn::Type::Path(p) = t {
        return !want.contains('<') && p.path.segments.last().map(|x| x.ident == want).unwrap_or(false);
    }
    false
}

fn find_fn(items: &[(Vec<String>, syn::Item)], path: &str, modname: Option<&str>) -> Vec<Found> {
    let mut r = vec![];
    let (ty, tr, name) = if let Some((t, rest)) = path.split_once(" as ") {
        let k = rest.rfind("::").unwrap_or_else(|| die("trait path without fn"));
        (Some(t.to_string()), Some(rest[..k].to_string()), rest[k + 2..].to_string())
    } else if let Some(k) = path.rfind("::") {
        (Some(path[..k].to_string()), None, path[k + 2..].to_string())
    } else {
        (None, None, path.to_string())
    };
    for (mp, i) in items {
        if let Some(m) = modname {
            if mp.join("::") != m {
                continue;
            }
        }
        match i {
            syn::Item::Fn(f) if ty.is_none() && f.sig.ident == name && !is_test_cfg(&f.attrs) => r.push(Found { sig: f.sig.clone(), block: (*f.block).clone(), line: f.sig.span().start().line }),
            // default methods of a trait
            syn::Item::Trait(it) if tr.is_none() && ty.as_deref() == Some(it.ident.to_string().as_str()) => {
                for ti in &it.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if let (true, Some(b)) = (f.sig.ident == name, &f.default) {
                            r.push(Found { sig: f.sig.clone(), block: b.clone(), line: f.sig.span().start().line });
                        }
                    }
                }
            }
            syn::Item::Impl(im) if ty.is_some() => {
                if !ty_matches(&im.self_ty, ty.as_ref().unwrap()) {
                    continue;
                }
                match (&tr, &im.trait_) {
                    (None, None) => {}
                    (Some(t), Some((_, p, _))) => {
                        let s = toks(p);
                        let last = p.segments.last().unwrap().ident.to_string();
                        if s != norm(t) && &last != t {
                            continue;
                        }
                    }
                    _ => continue,
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == name && !is_test_cfg(&f.attrs) {
                            r.push(Found { sig: f.sig.clone(), block: f.block.clone(), line: f.sig.span().start().line });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    r
}

pub fn rustfmt(code: &str) -> String {
    use std::io::Write;
    let mut c = std::process::Command::new("rustfmt");
    c.env_remove("RUSTUP_TOOLCHAIN");
    c.args(["--edition", "2021", "--config", "max_width=160,use_small_heuristics=Max"]);
    let mut p = c
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| die(&format!("rustfmt: {}", e)));
    p.stdin.take().unwrap().write_all(code.as_bytes()).unwrap();
    let o = p.wait_with_output().unwrap();
    if !o.status.success() {
        die(&format!("rustfmt failed: {}\n{}", String::from_utf8_lossy(&o.stderr), code));
    }
    String::from_utf8(o.stdout).unwrap()
}

fn json_s(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let repo = PathBuf::from(&a[1]);
    let proofs = PathBuf::from(&a[2]);
    let unit = &a[3];
    let record = a.iter().any(|x| x == "--record");
    let pieces = read_template(&proofs, &format!("{}.vrs", unit));
    let mut files: BTreeMap<String, Vec<(Vec<String>, syn::Item)>> = BTreeMap::new();
    let mut out = String::new();
    let mut fns = vec![];
    let mut dropped: Vec<String> = vec![];
    let mut soft: Vec<String> = vec![];
    let mut shapes: Vec<(String, String)> = vec![];
    let shapefile = proofs.join("shapes").join(format!("{}.txt", unit));
    let base: HashMap<String, String> = std::fs::read_to_string(&shapefile)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.split_once('\t').map(|(a, b)| (a.to_string(), b.to_string())))
        .collect();
    let mut blocks: HashMap<String, (String, String, String, String)> = HashMap::new();
    for p in &pieces {
        if let Piece::Dir(d) = p {
            if d.kind == "block" {
                let id = d.opt("id").or(d.opt("as")).map(|s| s.to_string()).unwrap_or_default();
                blocks.insert(id, (d.file.clone(), d.path.clone(), d.sec("from").unwrap_or("").to_string(), d.sec("to").unwrap_or("").to_string()));
            }
        }
    }
    for p in pieces {
        match p {
            Piece::Text(t) => out.push_str(&t),
            Piece::Dir(d) => {
                let items = files.entry(d.file.clone()).or_insert_with(|| {
                    let f = repo.join(&d.file);
                    let s = std::fs::read_to_string(&f).unwrap_or_else(|e| die(&format!("cannot read {:?}: {}", f, e)));
                    let f = syn::parse_file(&s).unwrap_or_else(|e| die(&format!("cannot parse {:?}: {}", f, e)));
                    let mut v = vec![];
                    flatten(&f.items, &mut v, &[]);
                    v
                });
                if d.kind == "item" {
                    let mut done = false;
                    for (mp, i) in items.iter() {
                        if let Some(m) = d.opt("mod") {
                            if mp.join("::") != m {
                                continue;
                            }
                        }
                        if let Some(t) = rules::item(i, &d, &mut dropped) {
                            let mut txt = rustfmt(&t.to_string());
                            if let Some(a) = txt.find("SCONST_CODE(") {
                                // a string constant: a function returning the string with this code
                                let c = txt[a + 12..a + txt[a..].find(')').unwrap()].to_string();
                                txt = format!("#[verifier::external_body] pub fn {}() -> (r: &'static Str) ensures code(*r) == {} {{ unimplemented!() }}\n", d.opt("as").unwrap_or(&d.path), c.trim());
                            }
                            if d.opt("fconst").is_some() {
                                // pub fn NAME() -> F64 { f64_lit(n, d) }  =>  with its value as postcondition
                                if txt.contains("F64::inf()") {
                                    txt = format!("pub fn {0}() -> (r: F64)\n    ensures r@ == Ext::PInf,\n{{ F64::inf() }}\n", d.path);
                                    out.push_str(&txt);
                                    done = true;
                                    break;
                                }
                                let a = txt.find("f64_lit(").unwrap_or_else(|| die("fconst"));
                                let args = &txt[a + 8..a + txt[a..].find(')').unwrap()];
                                let (n, dd) = args.split_once(',').unwrap();
                                txt = format!(
                                    "pub open spec fn {0}_r() -> real {{ {1}real / {2}real }}\npub fn {0}() -> (r: F64)\n    ensures r@ == Ext::Fin({0}_r()),\n{{ f64_lit({1}, {2}) }}\n",
                                    d.path,
                                    n.trim(),
                                    dd.trim()
                                );
                            }
                            out.push_str(&txt);
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        die(&format!("lost anchor: item {} in {}", d.path, d.file));
                    }
                    continue;
                }
                // fn or block
                let found = find_fn(items, &d.path, d.opt("mod"));
                if found.is_empty() {
                    die(&format!("lost anchor: {} in {}", d.path, d.file));
                }
                let nth: usize = d.opt("nth").map(|x| x.parse().unwrap()).unwrap_or(0);
                let f = found.into_iter().nth(nth).unwrap_or_else(|| die(&format!("lost anchor: {} in {}", d.path, d.file)));
                let name = d.opt("as").map(|s| s.to_string()).unwrap_or(f.sig.ident.to_string());
                let line = f.line;
                let mut cx = rules::Cx::new(&d, &name);
                cx.blocks = blocks.clone();
                let stub = d.opt("stub").is_some();
                let (text, shape) = cx.function(f);
                if stub {
                    dropped.push(format!("{}: body (contract assumed here, verified in its own unit)", name));
                    out.push_str(&text);
                    if !text.ends_with('\n') {
                        out.push('\n');
                    }
                    continue;
                }
                dropped.extend(cx.dropped.drain(..).map(|x| format!("{}: {}", name, x)));
                let uname = d.opt("id").unwrap_or(&name).to_string();
                if let Some(b) = base.get(&uname) {
                    if !rules::covers(b, &shape) {
                        soft.push(name.clone());
                    }
                }
                if !cx.lost.is_empty() && !soft.contains(&name) {
                    soft.push(name.clone());
                    dropped.push(format!("{}: proof hints without anchor: {:?}", name, cx.lost));
                }
                if record && !cx.lost.is_empty() {
                    eprintln!("{}: lost hints {:?}", name, cx.lost);
                }
                shapes.push((uname, shape));
                let st = out.matches('\n').count() + 1;
                out.push_str(&text);
                if !text.ends_with('\n') {
                    out.push('\n');
                }
                let en = out.matches('\n').count();
                fns.push(format!(
                    "{{\"name\":{},\"src\":{},\"out_start\":{},\"out_end\":{}}}",
                    json_s(&name),
                    json_s(&format!("{}:{} {}", d.file, line, d.path)),
                    st,
                    en
                ));
            }
        }
    }
    let _: Option<TokenStream> = None;
    if record {
        std::fs::create_dir_all(proofs.join("shapes")).unwrap();
        std::fs::write(&shapefile, shapes.iter().map(|(a, b)| format!("{}\t{}\n", a, b)).collect::<String>()).unwrap();
    }
    let out = subst_codes(&out);
    std::fs::write(&a[4], out).unwrap();
    dropped.sort();
    dropped.dedup();
    std::fs::write(
        &a[5],
        format!(
            "{{\"fns\":[{}],\"dropped\":[{}],\"structure_changed\":[{}]}}\n",
            fns.join(","),
            dropped.iter().map(|s| json_s(s)).collect::<Vec<_>>().join(","),
            soft.iter().map(|s| json_s(s)).collect::<Vec<_>>().join(",")
        ),
    )
    .unwrap();
}
