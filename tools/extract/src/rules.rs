//! The rewriting rules. Each keeps the meaning of the code, except where DESIGN.md ("What the extraction drops
//! or changes") says otherwise.
use crate::{die, norm, rustfmt, toks, Dir, Found};
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const LOGS: &[&str] = &["debug", "info", "warn", "trace", "error", "println", "print", "eprintln"];
const DASSERT: &[&str] = &["debug_assert", "debug_assert_eq", "debug_assert_ne"];
const PRIMS: &[&str] = &["f64", "f32", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool", "str", "char", "core"];

pub struct Cx<'a> {
    d: &'a Dir,
    pub dropped: Vec<String>,
    pub lost: Vec<String>,
    nloop: usize,
    depth: usize,
    shape: Vec<String>,
    anchors: Vec<(bool, String, usize)>, // after?, pattern, section idx
    used: Vec<bool>,
    rws: Vec<(String, Expr)>,
    paths: Vec<(String, Path)>,
    index: Vec<String>,
    pub blocks: std::collections::HashMap<String, (String, String, String, String)>,
    keep_dassert: bool,
    keep_err: bool,
}

fn cfg_out(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = toks(a);
        s == "#[cfg(feature=\"gpl\")]" || s == "#[cfg(feature=\"custom\")]" || s == "#[cfg(test)]"
    })
}

fn mac_name(m: &Macro) -> String {
    m.path.segments.last().unwrap().ident.to_string()
}
fn marker(name: &str, k: usize) -> Stmt {
    let i = format_ident!("{}", name);
    let k = LitInt::new(&k.to_string(), Span::call_site());
    parse_quote!(#i!(#k);)
}
fn is_marker(e: &Macro) -> bool {
    mac_name(e).starts_with("__")
}

#[derive(Clone)]
enum Src {
    Range(Expr, Expr),
    Seq(Expr, char), // r(ef) m(ut) o(wn)
}
#[derive(Clone)]
enum St {
    Enumerate,
    Zip(Chain),
    Map(ExprClosure),
    Filter(ExprClosure),
    Rev,
    Cloned,
}
#[derive(Clone)]
struct Chain {
    src: Src,
    st: Vec<St>,
}

impl<'a> Cx<'a> {
    pub fn new(d: &'a Dir, name: &str) -> Cx<'a> {
        let mut c = Cx {
            d,
            dropped: vec![],
            lost: vec![],
            nloop: 0,
            depth: 0,
            shape: vec![],
            anchors: vec![],
            used: vec![],
            rws: vec![],
            paths: vec![],
            index: vec![],
            blocks: Default::default(),
            keep_dassert: d.opt("debug_assert").is_some(),
            keep_err: d.opt("keep_err").is_some(),
        };
        for o in d.opt("map").unwrap_or("").split(',').filter(|s| !s.trim().is_empty()) {
            let (a, b) = o.rsplit_once('>').unwrap_or_else(|| die("map=A>B"));
            c.paths.push((norm(a), parse_str::<Path>(b).unwrap()));
        }
        for (i, (h, t)) in d.secs.iter().enumerate() {
            if let Some(p) = h.strip_prefix("before:") {
                c.anchors.push((false, norm(p), i));
            } else if let Some(p) = h.strip_prefix("after:") {
                c.anchors.push((true, norm(p), i));
            } else if let Some(p) = h.strip_prefix("rw:") {
                let (a, b) = p.split_once("=>").unwrap_or_else(|| die("rw needs =>"));
                let b = parse_str::<Expr>(b).unwrap_or_else(|e| die(&format!("{}: rw {}: {}", name, p, e)));
                c.rws.push((norm(a), b));
            } else if let Some(p) = h.strip_prefix("path:") {
                let (a, b) = p.split_once("=>").unwrap_or_else(|| die("path needs =>"));
                c.paths.push((norm(a), parse_str::<Path>(b).unwrap()));
            } else if let Some(p) = h.strip_prefix("index:") {
                c.index = p.split('|').map(norm).collect();
            }
            let _ = t;
        }
        c.used = vec![false; c.anchors.len()];
        c
    }

    fn strip_path(&self, p: &mut Path) {
        let full = toks(p);
        for (a, b) in &self.paths {
            if &full == a {
                *p = b.clone();
                return;
            }
            // a variant or an associated item of the mapped type
            let n = p.segments.len();
            if n > 1 && full.starts_with(&format!("{}::", a)) && !full[a.len() + 2..].contains("::") && !full.contains('<') {
                let last = p.segments[n - 1].clone();
                *p = b.clone();
                p.segments.push(last);
                return;
            }
        }
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        let mut k = 0;
        while k + 1 < segs.len() {
            let s = segs[k].ident.to_string();
            let lower = s.chars().next().map(|c| c.is_lowercase()).unwrap_or(false);
            if lower && !(PRIMS.contains(&s.as_str()) && k == 0) {
                k += 1;
            } else {
                break;
            }
        }
        if k > 0 {
            p.leading_colon = None;
            p.segments = segs[k..].iter().cloned().collect();
        }
        if p.segments.len() >= 1 && p.segments[0].ident == "f64" {
            p.segments[0].ident = format_ident!("F64");
        }
    }

    pub fn map_type(&self, t: &mut Type) {
        let full = toks(t);
        if full == "err::Feedback" {
            *t = parse_quote!(Result<(), Msg>);
            return;
        }
        if let Type::ImplTrait(it) = t {
            for b in &it.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    let s = tb.path.segments.last().unwrap();
                    if s.ident == "Iterator" || s.ident == "IntoIterator" {
                        if let PathArguments::AngleBracketed(ab) = &s.arguments {
                            for a in &ab.args {
                                if let GenericArgument::AssocType(at) = a {
                                    let mut inner = at.ty.clone();
                                    self.map_type(&mut inner);
                                    *t = parse_quote!(Vec<#inner>);
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
        if let Type::Path(p) = t {
            if p.path.segments.len() >= 2 {
                let n = p.path.segments.len();
                if p.path.segments[n - 2].ident == "err" && p.path.segments[n - 1].ident == "Result" {
                    if let PathArguments::AngleBracketed(ab) = &p.path.segments[n - 1].arguments {
                        let mut inner = match &ab.args[0] {
                            GenericArgument::Type(x) => x.clone(),
                            _ => die("err::Result"),
                        };
                        self.map_type(&mut inner);
                        *t = parse_quote!(Result<#inner, Msg>);
                        return;
                    }
                }
                if p.path.segments[n - 2].ident == "err" && p.path.segments[n - 1].ident == "Msg" {
                    *t = parse_quote!(Msg);
                    return;
                }
            }
            let last = p.path.segments.last().unwrap().clone();
            if last.ident == "DimVec" || last.ident == "SmallVec" {
                if let PathArguments::AngleBracketed(ab) = &last.arguments {
                    if let GenericArgument::Type(x) = &ab.args[0] {
                        let mut inner = x.clone();
                        if let Type::Array(a) = &inner {
                            inner = (*a.elem).clone();
                        }
                        self.map_type(&mut inner);
                        *t = parse_quote!(Vec<#inner>);
                        return;
                    }
                }
            }
            if p.path.segments.len() == 1 && last.ident == "f64" {
                *t = parse_quote!(F64);
                return;
            }
            self.strip_path(&mut p.path);
            for s in p.path.segments.iter_mut() {
                if let PathArguments::AngleBracketed(ab) = &mut s.arguments {
                    for a in ab.args.iter_mut() {
                        if let GenericArgument::Type(x) = a {
                            self.map_type(x)
                        }
                    }
                }
            }
            return;
        }
        match t {
            Type::Reference(r) => self.map_type(&mut r.elem),
            Type::Slice(s) => self.map_type(&mut s.elem),
            Type::Array(s) => self.map_type(&mut s.elem),
            Type::Tuple(s) => s.elems.iter_mut().for_each(|x| self.map_type(x)),
            Type::Paren(s) => self.map_type(&mut s.elem),
            _ => {}
        }
    }

    // ------------------------------------------------------------------ function
    pub fn function(&mut self, f: Found) -> (String, String) {
        let mut block = f.block;
        let mut sig = f.sig;
        if self.d.kind == "block" {
            self.outline(&mut block, &mut sig);
        }
        if self.d.opt("stub").is_some() {
            block.stmts.clear();
        }
        self.cuts(&mut block);
        if self.d.kind == "block" {
        } else if let Some(t) = self.d.sec("sig") {
            // instantiation of generic parameters
            sig = parse_str::<Signature>(t.trim()).unwrap_or_else(|e| die(&format!("sig {}: {}", t, e)));
            self.dropped.push(format!("signature instantiated: {}", t.trim()));
        }
        if let ReturnType::Type(_, t) = &sig.output {
            if toks(t).starts_with("implIterator") {
                if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
                    let x = e.clone();
                    *e = parse_quote!(#x.collect());
                    self.dropped.push("lazy iterator made eager".into());
                }
            }
        }
        // the locals a loop refers to: its invariants speak about these only
        let mut fp = FreePass::default();
        syn::visit::Visit::visit_block(&mut fp, &block);
        // anchors on source text
        let mut av = AnchorPass { cx: self };
        av.visit_block_mut(&mut block);
        for k in 0..self.anchors.len() {
            if !self.used[k] {
                self.lost.push(self.anchors[k].1.clone());
            }
        }
        self.visit_block_mut(&mut block);
        // `mut self` -> `self`, moved to the local `self_`
        for a in sig.inputs.iter_mut() {
            if let FnArg::Receiver(r) = a {
                if r.reference.is_none() && r.mutability.is_some() {
                    r.mutability = None;
                    SelfPass.visit_block_mut(&mut block);
                    block.stmts.insert(0, parse_quote!(let mut self_ = self;));
                }
            }
        }
        // tail
        if self.d.sec("end").is_some() {
            let ends_in_expr = matches!(block.stmts.last(), Some(Stmt::Expr(_, None)));
            if ends_in_expr {
                let e = match block.stmts.pop() {
                    Some(Stmt::Expr(e, None)) => e,
                    _ => unreachable!(),
                };
                block.stmts.push(parse_quote!(let out_ = #e;));
                block.stmts.push(marker("__end", 0));
                block.stmts.push(Stmt::Expr(parse_quote!(out_), None));
            } else {
                block.stmts.push(marker("__end", 0));
            }
        }
        if self.d.sec("start").is_some() {
            block.stmts.insert(0, marker("__start", 0));
        }
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                self.map_type(&mut t.ty);
            }
            if let FnArg::Receiver(r) = a {
                r.attrs.clear();
            }
        }
        let body = rustfmt(&format!("fn __x() {}", block.to_token_stream()));
        let body = body[body.find('{').unwrap()..].to_string();
        let mut body = self.subst(body);
        let mut s = String::new();
        if self.d.opt("stub").is_some() {
            // only the contract: the body is not part of this unit
            s += "#[verifier::external_body]\n";
            body = "{ unimplemented!() }\n".into();
        }
        if let Some(a) = self.d.sec("attr") {
            s += a;
        }
        if self.d.opt("nopub").is_none() {
            s += "pub ";
        }
        let name = self.d.opt("as").map(|x| x.to_string()).unwrap_or(sig.ident.to_string());
        for p in sig.generics.type_params_mut() {
            for b in p.bounds.iter_mut() {
                if let TypeParamBound::Trait(t) = b {
                    self.strip_path(&mut t.path);
                }
            }
        }
        let g = &sig.generics;
        let (ig, _, wc) = g.split_for_impl();
        let inputs = sig.inputs.to_token_stream().to_string();
        s += &format!("fn {}{}({})", name, ig.to_token_stream(), inputs);
        if let ReturnType::Type(_, t) = &sig.output {
            let mut t = (**t).clone();
            if let Some(o) = self.d.opt("retty") {
                t = parse_str(o).unwrap();
            }
            self.map_type(&mut t);
            s += &format!(" -> ({}: {})", self.d.opt("ret").unwrap_or("r"), t.to_token_stream());
        }
        s += &format!(" {}\n", if self.d.opt("nowhere").is_some() { String::new() } else { wc.to_token_stream().to_string() });
        if let Some(t) = self.d.sec("spec") {
            s += t;
        }
        s += &body;
        let mut shape = self.shape.clone();
        shape.extend(fp.segs);
        (s, shape.join(" "))
    }

    fn subst(&self, mut b: String) -> String {
        loop {
            let p = match b.find("__") {
                None => break,
                Some(_) => {
                    // find a marker
                    let mut at = None;
                    for m in ["__inv!(", "__before!(", "__lstart!(", "__lend!(", "__after!(", "__anc!(", "__start!(", "__end!("] {
                        if let Some(x) = b.find(m) {
                            if at.map(|(y, _)| x < y).unwrap_or(true) {
                                at = Some((x, m));
                            }
                        }
                    }
                    match at {
                        None => break,
                        Some(x) => x,
                    }
                }
            };
            let (x, m) = p;
            let e = x + b[x..].find(';').unwrap() + 1;
            let k: usize = b[x + m.len()..e - 2].trim().parse().unwrap();
            let sec = |h: String| self.d.sec(&h).unwrap_or("").to_string();
            match m {
                "__inv!(" => {
                    let o = b[..x].rfind('{').unwrap();
                    let t = sec(format!("loop {}", k));
                    let t = if t.trim().is_empty() { String::new() } else { format!("\n{}", t) };
                    b = format!("{}{}{{{}", &b[..o], t, &b[e..]);
                }
                _ => {
                    let t = match m {
                        "__before!(" => sec(format!("loop {} before", k)),
                        "__lstart!(" => sec(format!("loop {} start", k)),
                        "__lend!(" => sec(format!("loop {} end", k)),
                        "__after!(" => sec(format!("loop {} after", k)),
                        "__start!(" => sec("start".into()),
                        "__end!(" => sec("end".into()),
                        _ => self.d.secs[k].1.clone(),
                    };
                    b = format!("{}{}{}", &b[..x], t.trim_end(), &b[e..]);
                }
            }
        }
        b
    }

    // ------------------------------------------------------------------ block outlining
    /// `%cut: ID`: the statements which the block ID outlines are replaced by the given statements (a call of ID)
    fn cuts(&mut self, block: &mut Block) {
        for (h, t) in &self.d.secs {
            if let Some(id) = h.strip_prefix("cut:") {
                let id = id.trim();
                let (file, path, from, to) = self.blocks.get(id).unwrap_or_else(|| die(&format!("cut: no block {}", id))).clone();
                if file != self.d.file || path != self.d.path {
                    die(&format!("cut: block {} belongs to {} in {}", id, path, file));
                }
                let call: Block = parse_str(&format!("{{ {} }}", t)).unwrap_or_else(|e| die(&format!("cut {}: {}", id, e)));
                let mut f = Finder::new(&from, &to, Some(call.stmts));
                f.visit_block_mut(block);
                if f.got.is_none() {
                    die(&format!("lost anchor: block {} of {}", id, path));
                }
                self.dropped.push(format!("statements outlined as {} (verified there)", id));
            }
        }
    }

    /// `@@block FILE :: FN [from=.. ; to=.. ; sig=..]`: the statements of FN's body from the first one whose text
    /// starts with %from up to (excluding) the one starting with %to become a function with signature %sig.
    fn outline(&mut self, block: &mut Block, sig: &mut Signature) {
        let from = self.d.sec("from").unwrap_or("");
        let to = self.d.sec("to").unwrap_or("");
        let s = self.d.sec("sig").unwrap_or_else(|| die("block without %sig"));
        *sig = parse_str::<Signature>(s.trim()).unwrap_or_else(|e| die(&format!("sig {}: {}", s, e)));
        let mut f = Finder::new(from, to, None);
        f.visit_block_mut(block);
        let mut st = f.got.unwrap_or_else(|| die(&format!("lost anchor: block of {}", self.d.path)));
        if self.d.opt("unwrap").is_some() {
            // the statements inside a single block statement
            if st.len() == 1 {
                if let Stmt::Expr(Expr::Block(b), _) = &st[0] {
                    st = b.block.stmts.clone();
                }
            }
        }
        if let Some(t) = self.d.sec("tail") {
            let t: Block = parse_str(&format!("{{ {} }}", t)).unwrap_or_else(|e| die(&format!("tail: {}", e)));
            st.extend(t.stmts);
        }
        if let Some(t) = self.d.sec("head") {
            let t: Block = parse_str(&format!("{{ {} }}", t)).unwrap_or_else(|e| die(&format!("head: {}", e)));
            let mut v = t.stmts;
            v.extend(st);
            st = v;
        }
        block.stmts = st;
    }

    // ------------------------------------------------------------------ chains
    fn peel(&self, e: &Expr) -> Option<Chain> {
        let t = toks(e);
        for (a, b) in &self.rws {
            if &t == a {
                return Some(Chain { src: Src::Seq(b.clone(), 'o'), st: vec![] });
            }
        }
        match e {
            Expr::Paren(p) => self.peel(&p.expr),
            Expr::Group(p) => self.peel(&p.expr),
            Expr::Range(r) => {
                let a = r.start.as_ref()?;
                let b = r.end.as_ref()?;
                let b: Expr = match r.limits {
                    RangeLimits::HalfOpen(_) => (**b).clone(),
                    _ => parse_quote!(#b + 1),
                };
                Some(Chain { src: Src::Range((**a).clone(), b), st: vec![] })
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = &m.receiver;
                match n.as_str() {
                    // functions of /repo that return `impl Iterator` are extracted eagerly (returning a Vec)
                    "lines" if m.args.is_empty() => Some(Chain { src: Src::Seq(e.clone(), 'v'), st: vec![] }),
                    "offset_indices" | "starting_from" => Some(Chain { src: Src::Seq(e.clone(), 'o'), st: vec![] }),
                    "iter" if m.args.is_empty() => Some(Chain { src: Src::Seq((**r).clone(), 'r'), st: vec![] }),
                    "iter_mut" if m.args.is_empty() => Some(Chain { src: Src::Seq((**r).clone(), 'm'), st: vec![] }),
                    "into_iter" if m.args.is_empty() => self.peel(r).or(Some(Chain { src: Src::Seq((**r).clone(), 'o'), st: vec![] })),
                    "drain" => {
                        if m.args.len() == 1 && toks(&m.args[0]) == ".." {
                            let x = (**r).clone();
                            Some(Chain { src: Src::Seq(parse_quote!(vec_drain(&mut #x)), 'o'), st: vec![] })
                        } else {
                            None
                        }
                    }
                    "enumerate" | "rev" | "cloned" | "copied" if m.args.is_empty() => {
                        let mut c = self.peel(r)?;
                        c.st.push(match n.as_str() {
                            "enumerate" => St::Enumerate,
                            "rev" => St::Rev,
                            _ => St::Cloned,
                        });
                        Some(c)
                    }
                    "zip" => {
                        let mut c = self.peel(r)?;
                        let z = self.peel(&m.args[0]).unwrap_or(Chain { src: Src::Seq(m.args[0].clone(), 'r'), st: vec![] });
                        c.st.push(St::Zip(z));
                        Some(c)
                    }
                    "filter_map" if matches!(&m.args[0], Expr::Closure(_)) => {
                        let mut c = self.peel(r)?;
                        if let Expr::Closure(cl) = &m.args[0] {
                            c.st.push(St::Map(cl.clone()));
                            c.st.push(St::Filter(parse_quote!(|o_| o_.is_some())));
                            c.st.push(St::Map(parse_quote!(|o_| o_.unwrap())));
                        }
                        Some(c)
                    }
                    "filter_map" if toks(&m.args[0]) == "Result::ok" => {
                        let mut c = self.peel(r)?;
                        c.st.push(St::Map(parse_quote!(|o_| o_.ok())));
                        c.st.push(St::Filter(parse_quote!(|o_| o_.is_some())));
                        c.st.push(St::Map(parse_quote!(|o_| o_.unwrap())));
                        Some(c)
                    }
                    "map" | "filter" => {
                        let mut c = self.peel(r)?;
                        if let Expr::Closure(cl) = &m.args[0] {
                            c.st.push(if n == "map" { St::Map(cl.clone()) } else { St::Filter(cl.clone()) });
                            Some(c)
                        } else if n == "filter" && matches!(&m.args[0], Expr::Path(_)) {
                            let f = &m.args[0];
                            c.st.push(St::Filter(parse_quote!(|it_| #f(it_))));
                            Some(c)
                        } else if n == "map" && ["Option::unwrap", "Result::unwrap"].contains(&toks(&m.args[0]).as_str()) {
                            c.st.push(St::Map(parse_quote!(|o_| o_.unwrap())));
                            Some(c)
                        } else if matches!(&m.args[0], Expr::Path(_)) {
                            // a constructor or function
                            let f = &m.args[0];
                            c.st.push(St::Map(parse_quote!(|it_| #f(it_))));
                            Some(c)
                        } else {
                            None
                        }
                    }
                    _ => None,
                }
            }
            Expr::Reference(r) => {
                // `for x in &v`; not for slices of ranges
                Some(Chain { src: Src::Seq((*r.expr).clone(), if r.mutability.is_some() { 'm' } else { 'r' }), st: vec![] })
            }
            _ => None,
        }
    }

    fn is_place(e: &Expr) -> bool {
        match e {
            Expr::Path(_) => true,
            Expr::Field(f) => Self::is_place(&f.base),
            Expr::Paren(p) => Self::is_place(&p.expr),
            Expr::Index(i) => Self::is_place(&i.expr) && Self::is_place(&i.index),
            _ => false,
        }
    }

    fn bind(&self, p: &Pat, e: &Expr, out: &mut Vec<Stmt>) {
        match p {
            Pat::Wild(_) => {}
            Pat::Paren(q) => self.bind(&q.pat, e, out),
            Pat::Type(t) => {
                let mut ty = (*t.ty).clone();
                self.map_type(&mut ty);
                let q = &t.pat;
                out.push(parse_quote!(let #q: #ty = #e;));
            }
            Pat::Reference(r) => {
                let q = &r.pat;
                if let Expr::Reference(x) = e {
                    let inner = &x.expr;
                    self.bind(q, inner, out);
                } else {
                    self.bind(q, &parse_quote!(*#e), out);
                }
            }
            Pat::Tuple(t) => {
                if let Expr::Tuple(et) = e {
                    for (a, b) in t.elems.iter().zip(et.elems.iter()) {
                        self.bind(a, b, out);
                    }
                } else if t.elems.iter().any(|x| matches!(x, Pat::Reference(_) | Pat::Tuple(_))) {
                    let tmp = format_ident!("tup_{}", self.nloop);
                    out.push(parse_quote!(let #tmp = #e;));
                    for (k, a) in t.elems.iter().enumerate() {
                        let k = Index::from(k);
                        self.bind(a, &parse_quote!(#tmp.#k), out);
                    }
                } else {
                    out.push(parse_quote!(let #p = #e;));
                }
            }
            _ => {
                if let (Pat::Ident(i), Expr::Path(q)) = (p, e) {
                    if toks(i) == toks(q) {
                        return;
                    }
                }
                out.push(parse_quote!(let #p = #e;))
            }
        }
    }

    /// returns (setup statements, while-condition, statements binding the item, item expression)
    fn chain_parts(&mut self, c: &Chain, k: usize, tag: &str, setup: &mut Vec<Stmt>, conds: &mut Vec<Expr>, binds: &mut Vec<Stmt>) -> Expr {
        let i = format_ident!("i_{}", k);
        let x = format_ident!("x_{}", k);
        let revd = c.st.iter().filter(|s| matches!(s, St::Rev)).count() % 2 == 1;
        let hint = self.d.secs.iter().find_map(|(h, _)| {
            let w: Vec<&str> = h.split_whitespace().collect();
            if w.len() == 3 && w[0] == "hint" && w[1] == format!("{}", k) {
                w[2].chars().next()
            } else {
                None
            }
        });
        let mut raw = x.clone().into_token_stream();
        let mut item: Expr = match &c.src {
            Src::Range(a, b) => {
                if tag == "s" {
                    let n = format_ident!("n_{}", k);
                    setup.push(parse_quote!(let n_tmp = #b;));
                    setup.pop();
                    if revd {
                        let a0 = format_ident!("a_{}", k);
                        setup.push(parse_quote!(let #a0 = #a;));
                        setup.push(parse_quote!(let #n = #b;));
                        setup.push(parse_quote!(let mut #i = #a0;));
                        conds.push(parse_quote!(#i < #n));
                        parse_quote!((#n - 1 - (#x - #a0)))
                    } else {
                        setup.push(parse_quote!(let mut #i = #a;));
                        setup.push(parse_quote!(let #n = #b;));
                        conds.push(parse_quote!(#i < #n));
                        parse_quote!(#x)
                    }
                } else {
                    die("zip with a range is not supported by the extraction")
                }
            }
            Src::Seq(e, mode) => {
                let mode = if tag == "s" { hint.unwrap_or(*mode) } else { *mode };
                let s = format_ident!("{}_{}", tag, k);
                let place: Expr = if mode != 'o' && Self::is_place(e) {
                    e.clone()
                } else if mode == 'm' {
                    setup.push(parse_quote!(let mut #s = #e;));
                    parse_quote!(#s)
                } else {
                    match e {
                        Expr::MethodCall(_) | Expr::Call(_) => setup.push(parse_quote!(let #s = #e;)),
                        _ if mode == 'o' => setup.push(parse_quote!(let #s = #e;)),
                        _ => setup.push(parse_quote!(let #s = &#e;)),
                    }
                    parse_quote!(#s)
                };
                if tag == "s" {
                    setup.push(parse_quote!(let mut #i: usize = 0;));
                }
                conds.push(parse_quote!(#i < #place.len()));
                if revd {
                    raw = quote!((#place.len() - 1 - #x));
                }
                match mode {
                    'r' => parse_quote!(&#place[#raw]),
                    'm' => parse_quote!(&mut #place[#raw]),
                    'v' => parse_quote!(moved(&#place, #raw)),
                    _ => parse_quote!(#place[#raw]),
                }
            }
        };
        let mut seen_rev = false;
        for st in &c.st {
            match st {
                St::Rev => seen_rev = true,
                St::Enumerate => {
                    let ix: TokenStream = if revd && !seen_rev { raw.clone() } else { quote!(#x) };
                    // enumerate over a range counts from zero: only ranges starting at 0 are supported
                    if let Src::Range(a, _) = &c.src {
                        if toks(a) != "0" {
                            die("enumerate over a range not starting at 0")
                        }
                    }
                    item = parse_quote!((#ix, #item));
                }
                St::Cloned => {
                    item = match &item {
                        Expr::Reference(r) => {
                            let q = &r.expr;
                            if self.d.opt("clone").is_some() { parse_quote!(#q.clone()) } else { (**q).clone() }
                        }
                        o => parse_quote!(*#o),
                    }
                }
                St::Zip(z) => {
                    let it = self.chain_parts(z, k, "z", setup, conds, binds);
                    item = parse_quote!((#item, #it));
                }
                St::Map(cl) => {
                    if cl.inputs.len() != 1 {
                        die("map closure")
                    }
                    self.bind(&cl.inputs[0], &item, binds);
                    let b = &cl.body;
                    let m = format_ident!("m_{}", k);
                    // simple expression bodies stay inline
                    if matches!(**b, Expr::Tuple(_) | Expr::Path(_) | Expr::Reference(_)) {
                        item = (**b).clone();
                    } else {
                        binds.push(parse_quote!(let #m = #b;));
                        item = parse_quote!(#m);
                    }
                }
                St::Filter(cl) => {
                    let mut b2 = vec![];
                    // the closure gets a reference to the item
                    let it = format_ident!("f_{}", k);
                    if !matches!(item, Expr::Path(_)) {
                        binds.push(parse_quote!(let #it = #item;));
                        item = parse_quote!(#it);
                    }
                    let refd: Expr = parse_quote!(&#item);
                    self.bind(&cl.inputs[0], &refd, &mut b2);
                    let b = &cl.body;
                    let stmts = b2;
                    binds.push(parse_quote!(let keep_ = { #(#stmts)* #b };));
                    binds.push(parse_quote!(if !keep_ { continue; }));
                }
            }
        }
        item
    }

    fn mk_loop(&mut self, c: &Chain, kind: &str, mk: &mut dyn FnMut(&mut Self, usize, Expr) -> (Vec<Stmt>, Vec<Stmt>, Option<Expr>)) -> Expr {
        let k = self.nloop;
        self.nloop += 1;
        self.shape.push(format!("{}{}@{}", kind, k, self.depth));
        let (mut setup, mut conds, mut binds) = (vec![], vec![], vec![]);
        let item = self.chain_parts(c, k, "s", &mut setup, &mut conds, &mut binds);
        let (pre, body, res) = mk(self, k, item);
        let i = format_ident!("i_{}", k);
        let x = format_ident!("x_{}", k);
        let mut cond = conds[0].clone();
        for o in &conds[1..] {
            cond = parse_quote!(#cond && #o);
        }
        let (inv, ls, le, bf, af) = (marker("__inv", k), marker("__lstart", k), marker("__lend", k), marker("__before", k), marker("__after", k));
        let (ls2, le2) = (ls, le);
        let res: TokenStream = match res {
            Some(e) => quote!(#e),
            None => quote!(),
        };
        parse_quote!({
            #(#pre)*
            #(#setup)*
            #bf
            while #cond {
                #inv
                let #x = #i;
                #i = #i + 1;
                #(#binds)*
                #ls2
                #(#body)*
                #le2
            }
            #af
            #res
        })
    }

    /// `%ty K TYPE`: type of the accumulator of loop K
    fn acc_ty(&self, k: usize) -> TokenStream {
        for (h, _) in &self.d.secs {
            if let Some(r) = h.strip_prefix("ty ") {
                if let Some((n, t)) = r.split_once(' ') {
                    if n == k.to_string() {
                        let t: Type = parse_str(t).unwrap_or_else(|e| die(&format!("ty: {}", e)));
                        return quote!(: #t);
                    }
                }
            }
        }
        quote!()
    }

    /// `A.chain(B).f()..` with element-wise f only: `A.f()..` and `B.f()..`
    fn unchain(e: &Expr) -> Option<(Expr, Expr)> {
        let m = match e {
            Expr::MethodCall(m) => m,
            _ => return None,
        };
        match m.method.to_string().as_str() {
            "chain" if m.args.len() == 1 => Some(((*m.receiver).clone(), m.args[0].clone())),
            "map" | "filter" | "filter_map" | "cloned" | "copied" => {
                let (a, b) = Self::unchain(&m.receiver)?;
                let (mut ma, mut mb) = (m.clone(), m.clone());
                ma.receiver = Box::new(a);
                mb.receiver = Box::new(b);
                Some((Expr::MethodCall(ma), Expr::MethodCall(mb)))
            }
            _ => None,
        }
    }

    fn consumer(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        if !["for_each", "collect", "fold", "any", "all", "count", "position", "sum"].contains(&n.as_str()) {
            return None;
        }
        if n == "collect" {
            if let Some((a, b)) = Self::unchain(&m.receiver) {
                // the elements of the first, then those of the second
                return Some(parse_quote!(vec_concat(#a.collect(), #b.collect())));
            }
        }
        let c = self.peel(&m.receiver)?;
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let cl = |e: &Expr| -> ExprClosure {
            match e {
                Expr::Closure(c) => c.clone(),
                _ => die("closure expected"),
            }
        };
        Some(match n.as_str() {
            "for_each" => {
                let cl = cl(&args[0]);
                self.mk_loop(&c, "each", &mut |s, _k, item| {
                    let mut b = vec![];
                    s.bind(&cl.inputs[0], &item, &mut b);
                    let body = &cl.body;
                    b.push(parse_quote!(#body;));
                    (vec![], b, None)
                })
            }
            "collect" => self.mk_loop(&c, "collect", &mut |s, k, item| {
                let r = format_ident!("r_{}", k);
                let t = s.acc_ty(k);
                (vec![parse_quote!(let mut #r #t = Vec::new();)], vec![parse_quote!(#r.push(#item);)], Some(parse_quote!(#r)))
            }),
            "fold" => {
                let cl = cl(&args[1]);
                let init = args[0].clone();
                self.mk_loop(&c, "fold", &mut |s, k, item| {
                    let r = format_ident!("r_{}", k);
                    let mut b = vec![];
                    s.bind(&cl.inputs[0], &parse_quote!(#r), &mut b);
                    s.bind(&cl.inputs[1], &item, &mut b);
                    let body = &cl.body;
                    b.push(parse_quote!(#r = #body;));
                    let t = s.acc_ty(k);
                    (vec![parse_quote!(let mut #r #t = #init;)], b, Some(parse_quote!(#r)))
                })
            }
            "any" | "all" => {
                let cl = cl(&args[0]);
                let any = n == "any";
                self.mk_loop(&c, &n, &mut |s, k, item| {
                    let r = format_ident!("r_{}", k);
                    let mut b = vec![];
                    s.bind(&cl.inputs[0], &item, &mut b);
                    let body = &cl.body;
                    if any {
                        b.push(parse_quote!(if #body { #r = true; break; }));
                    } else {
                        b.push(parse_quote!(if !(#body) { #r = false; break; }));
                    }
                    let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                    (vec![parse_quote!(let mut #r = #init;)], b, Some(parse_quote!(#r)))
                })
            }
            "position" => {
                let cl = cl(&args[0]);
                self.mk_loop(&c, &n, &mut |s, k, item| {
                    let r = format_ident!("r_{}", k);
                    let x = format_ident!("x_{}", k);
                    let mut b = vec![];
                    s.bind(&cl.inputs[0], &item, &mut b);
                    let body = &cl.body;
                    b.push(parse_quote!(if #body { #r = Some(#x); break; }));
                    (vec![parse_quote!(let mut #r: Option<usize> = None;)], b, Some(parse_quote!(#r)))
                })
            }
            "count" => self.mk_loop(&c, &n, &mut |_s, k, item| {
                let r = format_ident!("r_{}", k);
                (vec![parse_quote!(let mut #r: usize = 0;)], vec![parse_quote!(let _ = #item;), parse_quote!(#r = #r + 1;)], Some(parse_quote!(#r)))
            }),
            _ => self.mk_loop(&c, &n, &mut |_s, k, item| {
                let r = format_ident!("r_{}", k);
                (vec![parse_quote!(let mut #r = sum_zero();)], vec![parse_quote!(#r = #r + #item;)], Some(parse_quote!(#r)))
            }),
        })
    }

    /// `v.sort_by_key(|e| K)`: the keys are computed first, then `v` is sorted along them
    fn sorter(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let f = match n.as_str() {
            "sort_by_key" | "sort_unstable_by_key" => format_ident!("sort_by_keys"),
            "dedup_by_key" => format_ident!("dedup_by_keys"),
            _ => return None,
        };
        let cl = match m.args.first() {
            Some(Expr::Closure(c)) if m.args.len() == 1 && c.inputs.len() == 1 => c.clone(),
            _ => return None,
        };
        let v = (*m.receiver).clone();
        let c = Chain { src: Src::Seq(v.clone(), 'r'), st: vec![] };
        Some(self.mk_loop(&c, &n, &mut |s, k, item| {
            let r = format_ident!("r_{}", k);
            let t = s.acc_ty(k);
            let mut b = vec![];
            s.bind(&cl.inputs[0], &item, &mut b);
            let body = &cl.body;
            b.push(parse_quote!(#r.push(#body);));
            (vec![parse_quote!(let mut #r #t = Vec::new();)], b, Some(parse_quote!(#f(&mut #v, &#r))))
        }))
    }

    fn msg_expr() -> Expr {
        parse_quote!(crate::msg())
    }

    fn float_lit(s: &str, neg: bool) -> Expr {
        let s = s.replace('_', "");
        let (m, e) = match s.split_once(|c| c == 'e' || c == 'E') {
            Some((m, e)) => (m.to_string(), e.parse::<i32>().unwrap()),
            None => (s.clone(), 0),
        };
        let (a, b) = m.split_once('.').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((m.clone(), String::new()));
        let b = b.trim_end_matches('0').to_string();
        let mut num: i128 = format!("{}{}", a, b).parse().unwrap_or(0);
        let mut den: i128 = 10i128.pow(b.len() as u32);
        if e > 0 {
            num *= 10i128.pow(e as u32);
        } else {
            den *= 10i128.pow((-e) as u32);
        }
        if neg {
            num = -num;
        }
        let n = LitInt::new(&num.abs().to_string(), Span::call_site());
        let d = LitInt::new(&den.to_string(), Span::call_site());
        if num < 0 {
            parse_quote!(f64_lit(-#n, #d))
        } else {
            parse_quote!(f64_lit(#n, #d))
        }
    }

    /// write!/writeln!: the format string's literal parts and values, one after the other, to the writer's log.
    /// Other formats than `{}` and values built from string literals are logged as `any`.
    fn write_expr(&mut self, m: &Macro) -> Option<Expr> {
        let n = mac_name(m);
        if n != "write" && n != "writeln" {
            return None;
        }
        struct L(punctuated::Punctuated<Expr, Token![,]>);
        impl parse::Parse for L {
            fn parse(i: parse::ParseStream) -> Result<Self> {
                Ok(L(i.parse_terminated(Expr::parse, Token![,])?))
            }
        }
        let l: Vec<Expr> = parse2::<L>(m.tokens.clone()).ok()?.0.into_iter().collect();
        let w = l[0].clone();
        let f = match l.get(1)? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let mut out: Vec<Expr> = vec![];
        let mut lit = String::new();
        let mut k = 2;
        let mut it = f.chars().peekable();
        while let Some(c) = it.next() {
            if c == '{' && it.peek() == Some(&'{') || c == '}' && it.peek() == Some(&'}') {
                it.next();
                lit.push(c);
            } else if c == '{' {
                let mut spec = String::new();
                for d in it.by_ref() {
                    if d == '}' {
                        break;
                    }
                    spec.push(d);
                }
                if !lit.is_empty() {
                    let code = crate::str_code(&lit);
                    out.push(parse_quote!(#w.lit(#code)));
                    lit.clear();
                }
                if !spec.is_empty() && !spec.starts_with(':') {
                    return None; // named or numbered argument
                }
                let a = l.get(k)?;
                k += 1;
                if spec.is_empty() && !toks(a).contains('"') {
                    out.push(parse_quote!(#w.show(&#a)));
                } else {
                    self.dropped.push(format!("written value `{}`", toks(a)));
                    out.push(parse_quote!(#w.any()));
                }
            } else {
                lit.push(c);
            }
        }
        if !lit.is_empty() {
            let code = crate::str_code(&lit);
            out.push(parse_quote!(#w.lit(#code)));
        }
        if n == "writeln" {
            out.push(parse_quote!(#w.nl()));
        }
        let last = out.pop()?;
        Some(if out.is_empty() { last } else { parse_quote!({ #(#out?;)* #last }) })
    }

    fn mac_expr(&mut self, m: &Macro) -> Option<Expr> {
        let n = mac_name(m);
        match n.as_str() {
            "format" => Some(Self::msg_expr()),
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(parse_quote!(panic_())),
            "vec" | "smallvec" => {
                if m.tokens.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                struct Rep(Expr, Expr);
                impl parse::Parse for Rep {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let a = i.parse()?;
                        i.parse::<Token![;]>()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                if let Ok(Rep(a, b)) = parse2::<Rep>(m.tokens.clone()) {
                    return Some(parse_quote!(vec_rep(#a, #b)));
                }
                struct L(punctuated::Punctuated<Expr, Token![,]>);
                impl parse::Parse for L {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        Ok(L(i.parse_terminated(Expr::parse, Token![,])?))
                    }
                }
                let l = parse2::<L>(m.tokens.clone()).ok()?.0;
                let l: Vec<Expr> = l.into_iter().collect();
                Some(parse_quote!({ let mut v_ = Vec::new(); #(v_.push(#l);)* v_ }))
            }
            "assert" | "debug_assert" => {
                struct A(Expr);
                impl parse::Parse for A {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let a = i.parse()?;
                        let _: TokenStream = i.parse()?;
                        Ok(A(a))
                    }
                }
                let a = parse2::<A>(m.tokens.clone()).ok()?.0;
                Some(parse_quote!(if !(#a) { panic_() }))
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                struct A(Expr, Expr);
                impl parse::Parse for A {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let a = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let b = i.parse()?;
                        let _: TokenStream = i.parse()?;
                        Ok(A(a, b))
                    }
                }
                let A(a, b) = parse2::<A>(m.tokens.clone()).ok()?;
                if n.ends_with("eq") {
                    Some(parse_quote!(if !(#a == #b) { panic_() }))
                } else {
                    Some(parse_quote!(if !(#a != #b) { panic_() }))
                }
            }
            "matches" => {
                struct A(Expr, Pat);
                impl parse::Parse for A {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let a = i.parse()?;
                        i.parse::<Token![,]>()?;
                        Ok(A(a, Pat::parse_multi_with_leading_vert(i)?))
                    }
                }
                let A(a, p) = parse2::<A>(m.tokens.clone()).ok()?;
                Some(parse_quote!(match #a { #p => true, _ => false }))
            }
            _ => None,
        }
    }

    /// replaces reference patterns (`Some(&x)`) by plain ones; returns the lets to insert
    fn unref_pat(p: &mut Pat, out: &mut Vec<Stmt>) {
        struct V<'b>(&'b mut Vec<Stmt>, usize);
        impl<'b> VisitMut for V<'b> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    let q = (*r.pat).clone();
                    let id = format_ident!("ref_{}", self.1);
                    self.1 += 1;
                    if !matches!(q, Pat::Wild(_)) {
                        self.0.push(parse_quote!(let #q = *#id;));
                    }
                    *p = parse_quote!(#id);
                    return;
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        V(out, 0).visit_pat_mut(p);
    }

    fn is_str_pat(p: &Pat) -> bool {
        match p {
            Pat::Lit(l) => matches!(l.lit, Lit::Str(_)),
            Pat::Or(o) => o.cases.iter().all(Self::is_str_pat),
            _ => false,
        }
    }
    fn str_conds(p: &Pat, v: &Ident) -> Expr {
        match p {
            Pat::Lit(l) => {
                let l = match &l.lit { Lit::Str(s) => crate::str_code(&s.value()), _ => die("str pattern") };
                parse_quote!(str_is(#v, #l))
            }
            Pat::Or(o) => {
                let mut it = o.cases.iter();
                let mut e = Self::str_conds(it.next().unwrap(), v);
                for q in it {
                    let f = Self::str_conds(q, v);
                    e = parse_quote!(#e || #f);
                }
                e
            }
            _ => die("str pattern"),
        }
    }

    fn drop_stmt(&mut self, s: &Stmt) -> bool {
        let mac = match s {
            Stmt::Macro(m) => Some(&m.mac),
            Stmt::Expr(Expr::Macro(m), _) => Some(&m.mac),
            _ => None,
        };
        if let Some(m) = mac {
            let n = mac_name(m);
            if LOGS.contains(&n.as_str()) {
                self.dropped.push(format!("{}!", n));
                return true;
            }
            if DASSERT.contains(&n.as_str()) && !self.keep_dassert {
                self.dropped.push(format!("{}!", n));
                return true;
            }
            return false;
        }
        let t = toks(s);
        let compound_init = matches!(s, Stmt::Local(Local { init: Some(i), .. }) if matches!(&*i.expr, Expr::Block(_) | Expr::If(_) | Expr::Match(_)));
        if t.contains("progress_bar") && self.d.opt("keepbar").is_none() && !compound_init && !matches!(s, Stmt::Expr(Expr::ForLoop(_) | Expr::Block(_) | Expr::While(_) | Expr::If(_), _)) {
            self.dropped.push("progress_bar statement".into());
            return true;
        }
        if let Stmt::Expr(Expr::If(i), _) = s {
            if toks(&i.cond).starts_with("progress_bar.") && i.else_branch.is_none() {
                self.dropped.push("progress_bar statement".into());
                return true;
            }
        }
        if let Stmt::Item(Item::Use(_)) = s {
            return true;
        }
        let at: &[Attribute] = match s {
            Stmt::Local(l) => &l.attrs,
            Stmt::Expr(Expr::Block(b), _) => &b.attrs,
            _ => &[],
        };
        if cfg_out(at) {
            self.dropped.push("cfg'd-out statement".into());
            return true;
        }
        for (h, _) in &self.d.secs {
            if let Some(p) = h.strip_prefix("drop:") {
                if t.starts_with(&norm(p)) {
                    self.dropped.push(format!("statement `{}`", p.trim()));
                    return true;
                }
            }
        }
        false
    }
}

/// `%from` is the start of a statement's text, or `arm PATTERN`: the start of a match arm's pattern (the block is the arm's body)
struct Finder {
    from: String,
    to: String,
    arm: Option<String>,
    got: Option<Vec<Stmt>>,
    put: Option<Vec<Stmt>>,
}
impl Finder {
    fn new(from: &str, to: &str, put: Option<Vec<Stmt>>) -> Finder {
        Finder { from: norm(from), to: norm(to), arm: from.trim().strip_prefix("arm ").map(norm), got: None, put }
    }
}
impl VisitMut for Finder {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if self.got.is_some() {
            return;
        }
        if let Some(p) = &self.arm {
            if a.guard.is_none() && toks(&a.pat).starts_with(p) {
                self.got = Some(match &*a.body {
                    Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
                    e => vec![Stmt::Expr(e.clone(), None)],
                });
                if let Some(st) = self.put.take() {
                    let b: ExprBlock = parse_quote!({ #(#st)* });
                    *a.body = Expr::Block(b);
                }
                return;
            }
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        if self.got.is_some() {
            return;
        }
        if self.arm.is_some() {
            visit_mut::visit_block_mut(self, b);
            return;
        }
        if let Some(i) = b.stmts.iter().position(|s| toks(s).starts_with(&self.from)) {
            let j = if self.to.is_empty() { Some(b.stmts.len()) } else { (i + 1..b.stmts.len()).find(|&j| toks(&b.stmts[j]).starts_with(&self.to)) };
            if let Some(j) = j {
                self.got = Some(b.stmts[i..j].to_vec());
                if let Some(p) = self.put.take() {
                    b.stmts.splice(i..j, p);
                }
                return;
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

struct AnchorPass<'b, 'a> {
    cx: &'b mut Cx<'a>,
}
impl<'b, 'a> VisitMut for AnchorPass<'b, 'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in b.stmts.drain(..) {
            let t = toks(&s);
            let mut after = vec![];
            for k in 0..self.cx.anchors.len() {
                let (af, pat, sec) = self.cx.anchors[k].clone();
                if !self.cx.used[k] && t.starts_with(&pat) {
                    self.cx.used[k] = true;
                    if af {
                        after.push(marker("__anc", sec));
                    } else {
                        out.push(marker("__anc", sec));
                    }
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
    }
}

impl<'a> VisitMut for Cx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let st: Vec<Stmt> = b.stmts.drain(..).collect();
        let mut keep = vec![];
        for mut s in st {
            if self.drop_stmt(&s) {
                continue;
            }
            // let with reference patterns
            if let Stmt::Local(l) = &s {
                if let (Some(init), Pat::Reference(_) | Pat::Tuple(_)) = (&l.init, &l.pat) {
                    if toks(&l.pat).contains('&') && init.diverge.is_none() {
                        let mut o = vec![];
                        self.bind(&l.pat, &init.expr, &mut o);
                        keep.extend(o);
                        continue;
                    }
                }
            }
            // `eager`: an iterator kept in a variable hands out what it would when used
            if self.d.opt("eager").is_some() {
                if let Stmt::Local(l) = &mut s {
                    if let Some(init) = &mut l.init {
                        let lazy = matches!(&*init.expr, Expr::MethodCall(m) if m.method == "filter" || m.method == "map");
                        if lazy && self.peel(&init.expr).is_some() {
                            let e = &init.expr;
                            *init.expr = parse_quote!(#e.collect());
                            self.dropped.push("iterator in a variable evaluated eagerly".into());
                        }
                    }
                }
            }
            if let Stmt::Macro(m) = &s {
                if !is_marker(&m.mac) {
                    if let Some(e) = self.mac_expr(&m.mac) {
                        let semi = m.semi_token;
                        keep.push(Stmt::Expr(e, semi));
                        continue;
                    }
                }
            }
            keep.push(s);
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        self.map_type(t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.strip_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}

    fn visit_macro_mut(&mut self, _: &mut Macro) {}

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = self.write_expr(&m.mac.clone()) {
                *e = n;
            }
        }
        // attributes on expressions
        if let Expr::Match(m) = e {
            let arms: Vec<Arm> = m.arms.drain(..).filter(|a| !cfg_out(&a.attrs)).collect();
            m.arms = arms;
        }
        // lists of string-literals
        if let Expr::Reference(ExprReference { expr, .. }) = e {
            if let Expr::Array(a) = &**expr {
                let codes: Vec<u64> = a.elems.iter().filter_map(|x| if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = x { Some(crate::str_code(&s.value())) } else { None }).collect();
                if !codes.is_empty() && codes.len() == a.elems.len() {
                    *e = parse_quote!({ let mut lits_ = Vec::new(); #(lits_.push(str_lit(#codes));)* lits_ });
                    return;
                }
            }
        }
        let t = toks(e);
        for (a, b) in &self.rws {
            if &t == a {
                self.dropped.push(format!("rewritten: {}", a));
                *e = b.clone();
                return;
            }
        }
        // loops
        match e {
            Expr::ForLoop(f) => {
                let c = self.peel(&f.expr).unwrap_or_else(|| Chain { src: Src::Seq((*f.expr).clone(), 'o'), st: vec![] });
                let (pat, body) = ((*f.pat).clone(), f.body.stmts.clone());
                let label = f.label.clone();
                if label.is_some() {
                    die("labelled loop");
                }
                let mut n = self.mk_loop(&c, "for", &mut |s, _k, item| {
                    let mut b = vec![];
                    s.bind(&pat, &item, &mut b);
                    b.extend(body.iter().cloned());
                    (vec![], b, None)
                });
                // the marker for the loop start goes behind the pattern's bindings
                move_lstart(&mut n, &pat);
                *e = n;
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
            Expr::While(w) => {
                let done = matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if mac_name(&m.mac) == "__inv");
                if !done {
                    let k = self.nloop;
                    self.nloop += 1;
                    self.shape.push(format!("while{}@{}", k, self.depth));
                    w.body.stmts.insert(0, marker("__inv", k));
                    w.body.stmts.insert(1, marker("__lstart", k));
                    w.body.stmts.push(marker("__lend", k));
                    let (b, a) = (marker("__before", k), marker("__after", k));
                    let has = |h: &str| self.d.sec(&format!("loop {} {}", k, h)).is_some();
                    if has("before") || has("after") {
                        let w2 = w.clone();
                        *e = parse_quote!({ #b #w2 #a });
                        // children are visited with the marker present
                        self.depth += 1;
                        visit_mut::visit_expr_mut(self, e);
                        self.depth -= 1;
                        return;
                    }
                }
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
            Expr::Loop(w) => {
                let k = self.nloop;
                self.nloop += 1;
                self.shape.push(format!("loop{}@{}", k, self.depth));
                w.body.stmts.insert(0, marker("__inv", k));
                w.body.stmts.insert(1, marker("__lstart", k));
                w.body.stmts.push(marker("__lend", k));
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
            _ => {}
        }
        if let Expr::MethodCall(m) = e {
            let m = m.clone();
            if let Some(n) = self.consumer(&m) {
                *e = n;
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
            if let Some(n) = self.sorter(&m) {
                *e = n;
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
            let n = m.method.to_string();
            match n.as_str() {
                // the model's split_whitespace is eager
                "collect" if toks(&m.receiver).ends_with(".split_whitespace()") => {
                    *e = (*m.receiver).clone();
                }
                "starts_with" if matches!(&m.args[0], Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) => {
                    let r = &m.receiver;
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &m.args[0] {
                        let (c, l) = (crate::str_code(&s.value()), s.value().len());
                        *e = parse_quote!(#r.starts_with_lit(#c, #l));
                    }
                }
                "collect" if toks(&m.receiver).ends_with(".rev()") && toks(&m.receiver).contains(".splice(") => {
                    // v.splice(a.., vec![]).rev().collect()
                    if let Expr::MethodCall(r) = &*m.receiver {
                        if let Expr::MethodCall(sp) = &*r.receiver {
                            if sp.method == "splice" && sp.args.len() == 2 && toks(&sp.args[1]) == "vec![]" {
                                if let Expr::Range(rg) = &sp.args[0] {
                                    if let (Some(a), None) = (&rg.start, &rg.end) {
                                        let v = &sp.receiver;
                                        *e = parse_quote!({ let at_ = #a; splice_tail_rev(&mut #v, at_) });
                                    }
                                }
                            }
                        }
                    }
                }
                "swap" if m.args.len() == 2 => {
                    let (r, a, b) = (&m.receiver, &m.args[0], &m.args[1]);
                    *e = parse_quote!(vec_swap(&mut #r, #a, #b));
                }
                "sort_unstable" | "sort" if m.args.is_empty() => {
                    let r = &m.receiver;
                    *e = parse_quote!(vec_sort(&mut #r));
                }
                "dedup" if m.args.is_empty() => {
                    let r = &m.receiver;
                    *e = parse_quote!(vec_dedup(&mut #r));
                }
                "contains" if m.args.len() == 1 && matches!(&*m.receiver, Expr::Index(i) if matches!(&*i.index, Expr::Range(_))) => {
                    if let Expr::Index(i) = &*m.receiver {
                        if let Expr::Range(rg) = &*i.index {
                            if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                                let (v, x) = (&i.expr, &m.args[0]);
                                *e = parse_quote!(range_contains(&#v, #a, #b, #x));
                            }
                        }
                    }
                }
                "expect" => {
                    let r = &m.receiver;
                    *e = parse_quote!(#r.unwrap());
                }
                "ok_or" | "ok_or_else" if !self.keep_err => {
                    let r = &m.receiver;
                    *e = parse_quote!(#r.ok_or(crate::msg()));
                    // do not visit msg()
                }
                "resize" if m.args.len() == 2 => {
                    let (r, a, b) = (&m.receiver, &m.args[0], &m.args[1]);
                    *e = parse_quote!(vec_resize(&mut #r, #a, #b));
                }
                "and_then" if matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() == 1) => {
                    let r = &m.receiver;
                    if let Expr::Closure(c) = &m.args[0] {
                        let (p, b) = (&c.inputs[0], &c.body);
                        *e = parse_quote!(match #r { Some(#p) => #b, None => None });
                    }
                }
                // of an Option (on anything else the result is not well-typed)
                "map" if matches!(&m.args[0], Expr::Path(_)) => {
                    let (r, f) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(match #r { Some(o_) => Some(#f(o_)), None => None });
                }
                "reverse" if m.args.is_empty() => {
                    let r = &m.receiver;
                    *e = parse_quote!(vec_reverse(&mut #r));
                }
                "then_with" if m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(c) if c.inputs.is_empty()) => {
                    let r = &m.receiver;
                    let b = match &m.args[0] { Expr::Closure(c) => &c.body, _ => unreachable!() };
                    *e = parse_quote!(match #r { Ordering::Equal => #b, o_ => o_ });
                }
                "binary_search" => {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(bsearch(&#r, #a));
                }
                "parse" if m.turbofish.is_some() => {
                    let mut r = (*m.receiver).clone();
                    if let Expr::Index(i) = &r {
                        if let Expr::Range(rg) = &*i.index {
                            if let (Some(a), None) = (&rg.start, &rg.end) {
                                let b = &i.expr;
                                r = parse_quote!(#b.tail_from(#a));
                            }
                        }
                    }
                    let r = &r;
                    let t = toks(&m.turbofish.as_ref().unwrap().args);
                    let id = format_ident!("parse_{}", t);
                    *e = parse_quote!(#r.#id());
                }
                "get" if m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) => {
                    let r = &m.receiver;
                    let c = match &m.args[0] { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => crate::str_code(&s.value()), _ => unreachable!() };
                    *e = parse_quote!(#r.get(#c));
                }
                "map_err" => {
                    let r = &m.receiver;
                    *e = parse_quote!(map_err_msg(#r));
                }
                "into" | "to_owned" | "to_string" if matches!(&*m.receiver, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) && n == "into" => {
                    *e = Self::msg_expr();
                }
                _ => {}
            }
        }
        match e {
            Expr::Macro(m) if !is_marker(&m.mac) => {
                if let Some(n) = self.mac_expr(&m.mac.clone()) {
                    *e = n;
                }
            }
            Expr::Call(c) => {
                if toks(&c.func) == "Err" && !self.keep_err {
                    c.args = punctuated::Punctuated::new();
                    c.args.push(Self::msg_expr());
                    return;
                }
            }
            Expr::Lit(l) => {
                if let Lit::Float(f) = &l.lit {
                    *e = Self::float_lit(f.base10_digits(), false);
                    return;
                }
            }
            Expr::Unary(u) => {
                if let (UnOp::Neg(_), Expr::Lit(ExprLit { lit: Lit::Float(f), .. })) = (&u.op, &*u.expr) {
                    *e = Self::float_lit(f.base10_digits(), true);
                    return;
                }
            }
            Expr::Path(p) => {
                let t = toks(p);
                let c = match t.as_str() {
                    "std::f64::INFINITY" | "f64::INFINITY" => Some("inf"),
                    "std::f64::NEG_INFINITY" | "f64::NEG_INFINITY" => Some("neg_inf"),
                    "std::f64::NAN" | "f64::NAN" => Some("nan"),
                    "std::f64::MAX" | "f64::MAX" => Some("max_value"),
                    _ => None,
                };
                if let Some(c) = c {
                    let c = format_ident!("{}", c);
                    *e = parse_quote!(F64::#c());
                    return;
                }
                if t.starts_with("DimVec::") || t.starts_with("SmallVec::") {
                    let l = &p.path.segments.last().unwrap().ident;
                    *e = parse_quote!(Vec::#l);
                    return;
                }
                if t.ends_with("F64_ABS") {
                    *e = parse_quote!(F64_ABS());
                    return;
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_)) && matches!((&*b.left, &*b.right), (Expr::Tuple(x), Expr::Tuple(y)) if x.elems.len() == y.elems.len() && x.elems.len() > 0)
                || matches!(b.op, BinOp::Eq(_)) && matches!((&*b.left, &*b.right), (Expr::Paren(_), Expr::Paren(_)) if false) => {
                if let (Expr::Tuple(x), Expr::Tuple(y)) = (&*b.left, &*b.right) {
                    let mut acc: Option<Expr> = None;
                    for (p, q) in x.elems.iter().zip(y.elems.iter()) {
                        acc = Some(match acc { None => parse_quote!((#p == #q)), Some(a) => parse_quote!(#a && (#p == #q)) });
                    }
                    let acc = acc.unwrap();
                    *e = parse_quote!((#acc));
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitAndAssign(_)) => {
                // booleans; both sides are evaluated
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!({ let and_ = #r; #l = #l && and_; });
            }
            // a comparison of references compares what they refer to
            Expr::Binary(b) if matches!(b.op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) && matches!(&*b.right, Expr::Reference(_)) => {
                let (l, op, r) = (&b.left, &b.op, match &*b.right { Expr::Reference(r) => &r.expr, _ => unreachable!() });
                *e = parse_quote!(*#l #op #r);
            }
            Expr::Binary(b) if self.d.opt("derefeq").is_some() && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && matches!(&*b.right, Expr::Reference(_)) => {
                let (l, op, r) = (&b.left, &b.op, match &*b.right { Expr::Reference(r) => &r.expr, _ => unreachable!() });
                *e = parse_quote!(*#l #op #r);
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (toks(&b.left).starts_with("Some(Ordering::") || toks(&b.right).starts_with("Some(Ordering::")) => {
                let (l, r) = (&b.left, &b.right);
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(opt_ord_eq(#l, #r)) } else { parse_quote!((!opt_ord_eq(#l, #r))) };
            }
            Expr::Cast(c) => {
                if toks(&c.ty) == "f64" {
                    let x = &c.expr;
                    *e = parse_quote!(to_f64(#x));
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(i) = &*r.expr {
                    if toks(&i.index) == ".." {
                        let b = &i.expr;
                        *e = parse_quote!(#b.as_slice());
                    } else if self.index.contains(&toks(&i.expr)) {
                        let (b, x) = (&i.expr, &i.index);
                        *e = parse_quote!(#b.index(#x));
                    }
                }
            }
            Expr::Index(i) => {
                if self.index.contains(&toks(&i.expr)) {
                    let (b, x) = (&i.expr, &i.index);
                    *e = parse_quote!((*#b.index(#x)));
                }
            }
            Expr::Match(m) => {
                if m.arms.iter().any(|a| Self::is_str_pat(&a.pat)) {
                    let v = format_ident!("str_m");
                    let x = &m.expr;
                    let mut acc: Option<Expr> = None;
                    for a in m.arms.iter().rev() {
                        let b = &a.body;
                        if Self::is_str_pat(&a.pat) {
                            let mut c = Self::str_conds(&a.pat, &v);
                            if let Some((_, g)) = &a.guard {
                                c = parse_quote!((#c) && #g);
                            }
                            let el = acc.unwrap_or_else(|| die("string match without default"));
                            acc = Some(parse_quote!(if #c { #b } else { #el }));
                        } else {
                            match &a.pat {
                                Pat::Wild(_) => acc = Some(parse_quote!({ #b })),
                                Pat::Ident(i) => {
                                    let i = &i.ident;
                                    acc = Some(parse_quote!({ let #i = #v; #b }))
                                }
                                _ => die("string match pattern"),
                            }
                        }
                    }
                    let acc = acc.unwrap();
                    *e = parse_quote!(match #x { #v => { #acc } });
                } else {
                    for a in m.arms.iter_mut() {
                        let mut o = vec![];
                        Self::unref_pat(&mut a.pat, &mut o);
                        if !o.is_empty() {
                            let b = &a.body;
                            a.body = parse_quote!({ #(#o)* #b });
                        }
                    }
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut o = vec![];
                    Self::unref_pat(&mut l.pat, &mut o);
                    for s in o.into_iter().rev() {
                        i.then_branch.stmts.insert(0, s);
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// puts the `__lstart` marker of a `for` behind the lets that bind its pattern
fn move_lstart(e: &mut Expr, pat: &Pat) {
    if let Expr::Block(b) = e {
        for s in b.block.stmts.iter_mut() {
            if let Stmt::Expr(Expr::While(w), _) = s {
                let st = &mut w.body.stmts;
                if let Some(p) = st.iter().position(|s| matches!(s, Stmt::Macro(m) if mac_name(&m.mac) == "__lstart")) {
                    let m = st.remove(p);
                    let mut q = p;
                    let want = pat_idents(pat);
                    while q < st.len() {
                        match &st[q] {
                            Stmt::Local(l) if pat_idents(&l.pat).iter().any(|x| want.contains(x)) && q < p + want.len() => q += 1,
                            _ => break,
                        }
                    }
                    st.insert(q, m);
                }
            }
        }
    }
}
struct SelfPass;
impl VisitMut for SelfPass {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            p.path.segments[0].ident = format_ident!("self_");
        }
    }
}
fn pat_idents(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl VisitMut for V {
        fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
            self.0.push(i.ident.to_string());
        }
    }
    let mut v = V(vec![]);
    v.visit_pat_mut(&mut p.clone());
    v.0
}

// ---------------------------------------------------------------------- items
pub fn item(i: &Item, d: &Dir, dropped: &mut Vec<String>) -> Option<TokenStream> {
    let drop: Vec<String> = d.opt("drop").unwrap_or("").split(',').map(|s| s.trim().to_string()).collect();
    let cx = Cx::new(d, &d.path);
    let vis: Visibility = parse_quote!(pub);
    let rename = |id: &Ident| -> Ident { d.opt("as").map(|s| format_ident!("{}", s)).unwrap_or(id.clone()) };
    let derive: TokenStream = match d.opt("derive") {
        Some(x) => {
            let t: TokenStream = x.parse().unwrap();
            quote!(#[derive(#t)])
        }
        None => quote!(),
    };
    match i {
        Item::Struct(s) if s.ident == d.path => {
            let mut s = s.clone();
            s.attrs.clear();
            s.vis = vis.clone();
            s.ident = rename(&s.ident);
            match &mut s.fields {
                Fields::Named(n) => {
                    let f: Vec<Field> = n
                        .named
                        .iter()
                        .cloned()
                        .filter(|f| {
                            let k = !drop.contains(&f.ident.as_ref().unwrap().to_string());
                            if !k {
                                dropped.push(format!("field {}::{}", s.ident, f.ident.as_ref().unwrap()));
                            }
                            k
                        })
                        .collect();
                    n.named = f.into_iter().collect();
                }
                _ => {}
            }
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = vis.clone();
                cx.map_type(&mut f.ty);
            }
            Some(quote!(#derive #s))
        }
        Item::Enum(s) if s.ident == d.path => {
            let mut s = s.clone();
            s.attrs.clear();
            s.vis = vis;
            s.ident = rename(&s.ident);
            s.variants = s.variants.iter().cloned().filter(|v| !cfg_out(&v.attrs)).collect();
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                    cx.map_type(&mut f.ty);
                }
            }
            Some(quote!(#derive #s))
        }
        Item::Const(c) if c.ident == d.path => {
            let mut c = c.clone();
            c.attrs.clear();
            c.vis = vis;
            c.ident = rename(&c.ident);
            if toks(&c.ty) == "f64" {
                // a float constant becomes a function
                let mut e = (*c.expr).clone();
                let mut cx = Cx::new(d, &d.path);
                cx.visit_expr_mut(&mut e);
                let id = &c.ident;
                return Some(format!("/*FCONST*/ pub fn {}() -> F64 {{ {} }}", id, e.to_token_stream()).parse().unwrap());
            }
            if toks(&c.ty) == "&str" {
                // a string constant becomes a function returning the string with this code
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr {
                    let code = crate::str_code(&s.value());
                    let id = &c.ident;
                    return Some(format!("pub fn {}() -> &'static Str {{ SCONST_CODE({}) }}", id, code).parse().unwrap());
                }
            }
            Some(quote!(#c))
        }
        Item::Type(c) if c.ident == d.path => {
            let mut c = c.clone();
            c.attrs.clear();
            c.vis = vis;
            cx.map_type(&mut c.ty);
            Some(quote!(#c))
        }
        _ => None,
    }
}

/// Collects, per loop of the source text, the local variables (lower-case identifiers) used but not bound in it.
#[derive(Default)]
pub struct FreePass {
    pub segs: Vec<String>,
}
#[derive(Default)]
struct UsePass {
    used: std::collections::BTreeSet<String>,
    bound: std::collections::BTreeSet<String>,
}
impl<'ast> syn::visit::Visit<'ast> for UsePass {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.bound.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if !matches!(&*c.func, Expr::Path(_)) {
            self.visit_expr(&c.func);
        }
        c.args.iter().for_each(|a| self.visit_expr(a));
    }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if let Some(i) = p.path.get_ident() {
            let i = i.to_string();
            if i.chars().all(|c| !c.is_uppercase()) && i != "progress_bar" {
                self.used.insert(i);
            }
        }
    }
}
impl FreePass {
    fn of(&mut self, f: &dyn Fn(&mut UsePass)) {
        let mut u = UsePass::default();
        f(&mut u);
        self.segs.push(format!("{{{}}}", u.used.difference(&u.bound).cloned().collect::<Vec<_>>().join(",")));
    }
}
impl<'ast> syn::visit::Visit<'ast> for FreePass {
    fn visit_expr_for_loop(&mut self, e: &'ast ExprForLoop) {
        // a range from a literal is told apart from one starting elsewhere
        let mut it = &*e.expr;
        loop {
            match it {
                Expr::Paren(x) => it = &x.expr,
                Expr::MethodCall(x) => it = &x.receiver,
                _ => break,
            }
        }
        let start = match it {
            Expr::Range(r) => match r.start.as_deref() {
                None | Some(Expr::Lit(_)) => Some("RANGE-LIT"),
                _ => Some("RANGE-EXPR"),
            },
            _ => None,
        };
        self.of(&|u| {
            if let Some(x) = start {
                u.used.insert(x.to_string());
            }
            syn::visit::visit_expr_for_loop(u, e)
        });
        syn::visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast ExprWhile) {
        self.of(&|u| syn::visit::visit_expr_while(u, e));
        syn::visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast ExprLoop) {
        self.of(&|u| syn::visit::visit_expr_loop(u, e));
        syn::visit::visit_expr_loop(self, e);
    }
}

/// Does the recorded loop structure (and what the loops refer to) still cover this one?
pub fn covers(old: &str, new: &str) -> bool {
    let split = |s: &str| -> (Vec<String>, Vec<std::collections::BTreeSet<String>>) {
        let (a, b): (Vec<&str>, Vec<&str>) = s.split_whitespace().partition(|x| !x.starts_with('{'));
        (
            a.iter().map(|x| x.to_string()).collect(),
            b.iter().map(|x| x.trim_matches(|c| c == '{' || c == '}').split(',').filter(|y| !y.is_empty()).map(|y| y.to_string()).collect()).collect(),
        )
    };
    let (a, b) = split(old);
    let (c, d) = split(new);
    a == c && b.len() == d.len() && b.iter().zip(&d).all(|(x, y)| y.is_subset(x))
}
