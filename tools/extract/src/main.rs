//! Mechanical extractor: reads functions, structs, enums and constants from the
//! repository's *current* source and rewrites them into the dialect Verus accepts, attaching the
//! contracts written in a unit file. See README.md beside this crate for the full list of what
//! the rewriting changes and what it drops.
//!
//! usage: vextract REPO UNIT.vrs OUT.rs REPORT.json [--probe]
//! exit codes: 0 ok; 3 anchor lost or construct outside the supported subset (message on stderr).
mod desugar;
mod find;

use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::fs;
use std::process::exit;
use syn::visit_mut::VisitMut;

pub fn fail(msg: impl AsRef<str>) -> ! {
    eprintln!("EXTRACT-ERROR: {}", msg.as_ref());
    exit(3)
}

#[derive(Default, Clone, Debug)]
pub struct ItemSpec {
    pub file: String,
    pub kind: Vec<String>,
    pub line: usize,
    pub sections: Vec<(String, String)>,
}

impl ItemSpec {
    pub fn get(&self, k: &str) -> Option<String> {
        let v: Vec<&str> = self.sections.iter().filter(|(n, _)| n == k).map(|(_, b)| b.trim()).collect();
        if v.is_empty() {
            None
        } else {
            Some(v.join("\n"))
        }
    }
    pub fn words(&self, k: &str) -> Vec<String> {
        self.get(k).unwrap_or_default().split_whitespace().map(|s| s.to_string()).collect()
    }
    pub fn has(&self, k: &str) -> bool {
        self.sections.iter().any(|(n, _)| n == k)
    }
}

#[derive(Default, Clone)]
pub struct Config {
    pub typemap: HashMap<String, String>,
    pub pathmap: Vec<(String, String)>,
    pub keep_err: Vec<String>,
    pub float_consts: Vec<String>,
    /// methods that return a reference to a collection
    pub refcalls: Vec<String>,
    /// (file, head, method) of methods that return an iterator chain, expanded where they are iterated
    pub iterfns: Vec<(String, String, String)>,
    /// names of functions that exist in the unit (extracted or declared): never inlined
    pub known: std::collections::HashSet<String>,
}

enum Piece {
    Text(String),
    Item(ItemSpec),
}

const KEYS: &[&str] = &[
    "as", "ret", "requires", "ensures", "decreases", "selfty", "implgen", "keep", "drop", "derive", "dropparam", "param",
    "rettype", "floatcast", "sub", "bitwise", "attr", "dropgenerics", "sumtype", "byval", "moveout", "resultmap", "rename",
    "noinline", "inline", "addfield", "only", "addparam", "free", "mapfield", "mapiter", "dropvariant", "acctype", "idxtype", "pub", "stop",
    "trusted", "iterof",
];

fn parse_unit(text: &str, cfg: &mut Config, dir: &std::path::Path) -> Vec<Piece> {
    let mut pieces = Vec::new();
    let mut buf = String::new();
    let mut cur: Option<ItemSpec> = None;
    for (ln, line) in text.lines().enumerate() {
        let t = line.trim_start();
        if let Some(rest) = t.strip_prefix("//@|") {
            let Some(item) = cur.as_mut() else { fail(format!("unit line {}: section outside item", ln + 1)) };
            let indent = rest.len() - rest.trim_start().len();
            let body = rest.trim();
            if body.is_empty() {
                continue;
            }
            if indent >= 4 {
                let Some(last) = item.sections.last_mut() else { fail(format!("unit line {}", ln + 1)) };
                last.1.push('\n');
                last.1.push_str(body);
                continue;
            }
            let mut w = body.splitn(2, char::is_whitespace);
            let key = w.next().unwrap().to_string();
            let rem = w.next().unwrap_or("").trim().to_string();
            if key == "loop" {
                // loop N kind rest
                let mut p = rem.splitn(3, char::is_whitespace);
                let n = p.next().unwrap_or("");
                let k = p.next().unwrap_or("");
                let r = p.next().unwrap_or("");
                item.sections.push((format!("loop {n} {k}"), r.to_string()));
            } else if key == "at" {
                let mut p = rem.splitn(2, char::is_whitespace);
                let n = p.next().unwrap_or("");
                let r = p.next().unwrap_or("");
                item.sections.push((format!("at {n}"), r.to_string()));
            } else if KEYS.contains(&key.as_str()) {
                item.sections.push((key, rem));
            } else {
                fail(format!("unit line {}: unknown section {key}", ln + 1));
            }
            continue;
        }
        if let Some(item) = cur.take() {
            pieces.push(Piece::Text(std::mem::take(&mut buf)));
            pieces.push(Piece::Item(item));
        }
        if let Some(rest) = t.strip_prefix("//@ ") {
            let mut w = rest.split_whitespace();
            match w.next().unwrap_or("") {
                "extract" => {
                    let file = w.next().unwrap_or("").to_string();
                    let kind: Vec<String> = w.map(|s| s.to_string()).collect();
                    cur = Some(ItemSpec { file, kind, line: ln + 1, sections: vec![] });
                }
                "map" => {
                    let k = w.next().unwrap().to_string();
                    let v = w.collect::<Vec<_>>().join(" ");
                    cfg.typemap.insert(k, v);
                }
                "mappath" => {
                    let s = w.collect::<Vec<_>>().join(" ");
                    let (a, b) = s.split_once("=>").unwrap_or_else(|| fail("mappath"));
                    cfg.pathmap.push((a.trim().replace(' ', ""), b.trim().to_string()));
                }
                "iterfn" => {
                    let file = w.next().unwrap_or("").to_string();
                    let rest = w.collect::<Vec<_>>().join(" ");
                    let (h, n) = rest.rsplit_once("::").unwrap_or_else(|| fail("iterfn"));
                    cfg.iterfns.push((file, h.trim().to_string(), n.trim().to_string()));
                }
                // the functions of the included file are declared with their contracts only; they are
                // verified in the unit named after the file
                "include-trusted" => {
                    let p = dir.join(w.next().unwrap());
                    let by = w.next().unwrap_or_else(|| fail("include-trusted FILE UNIT")).to_string();
                    let t = fs::read_to_string(&p).unwrap_or_else(|e| fail(format!("{}: {e}", p.display())));
                    pieces.push(Piece::Text(std::mem::take(&mut buf)));
                    let mut sub = parse_unit(&t, cfg, dir);
                    for x in sub.iter_mut() {
                        if let Piece::Item(i) = x {
                            if matches!(i.kind.first().map(|s| s.as_str()), Some("fn") | Some("impl")) {
                                i.sections.push(("trusted".into(), by.clone()));
                            }
                        }
                    }
                    pieces.extend(sub);
                }
                "keep_err" => cfg.keep_err.extend(w.map(|s| s.to_string())),
                "refcalls" => cfg.refcalls.extend(w.map(|s| s.to_string())),
                "float_const" => cfg.float_consts.extend(w.map(|s| s.to_string())),
                "include" => {
                    let p = dir.join(w.next().unwrap());
                    let t = fs::read_to_string(&p).unwrap_or_else(|e| fail(format!("{}: {e}", p.display())));
                    pieces.push(Piece::Text(std::mem::take(&mut buf)));
                    pieces.extend(parse_unit(&t, cfg, dir));
                }
                x => fail(format!("unit line {}: unknown directive {x}", ln + 1)),
            }
            continue;
        }
        buf.push_str(line);
        buf.push('\n');
    }
    if let Some(item) = cur.take() {
        pieces.push(Piece::Text(std::mem::take(&mut buf)));
        pieces.push(Piece::Item(item));
    }
    pieces.push(Piece::Text(buf));
    pieces
}

pub fn print_item(item: syn::Item) -> String {
    prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![item] })
}

pub fn parse_type(s: &str) -> syn::Type {
    syn::parse_str::<syn::Type>(s).unwrap_or_else(|e| fail(format!("bad type `{s}`: {e}")))
}

/// Type rewriting: f64 -> R, error types -> E_, unit maps; lifetimes kept.
pub struct TypeMapper<'a> {
    pub cfg: &'a Config,
}
impl VisitMut for TypeMapper<'_> {
    fn visit_type_mut(&mut self, ty: &mut syn::Type) {
        if let syn::Type::Path(tp) = ty {
            if tp.qself.is_none() {
                let last = tp.path.segments.last().unwrap();
                let id = last.ident.to_string();
                if let Some(m) = self.cfg.typemap.get(&id) {
                    // `map X Y<..>` keeps the type arguments
                    if let Some(n) = m.strip_suffix("<..>") {
                        let args = last.arguments.clone();
                        let mut t: syn::TypePath = syn::parse_str(n).unwrap_or_else(|e| fail(format!("bad type `{n}`: {e}")));
                        t.path.segments.last_mut().unwrap().arguments = args;
                        syn::visit_mut::visit_path_arguments_mut(self, &mut t.path.segments.last_mut().unwrap().arguments);
                        *ty = syn::Type::Path(t);
                        return;
                    }
                    *ty = parse_type(m);
                    return;
                }
                if id == "f64" {
                    *ty = parse_type("R");
                    return;
                }
                if id.ends_with("Error") && !self.cfg.keep_err.contains(&id) {
                    *ty = parse_type("E_");
                    return;
                }
                // drop module qualification
                let l = last.clone();
                if tp.path.segments.len() > 1 {
                    tp.path.segments = std::iter::once(l).collect();
                    tp.path.leading_colon = None;
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, ty);
    }
    // the bound of a type parameter, named by `map X Y<..>`
    fn visit_trait_bound_mut(&mut self, b: &mut syn::TraitBound) {
        let last = b.path.segments.last_mut().unwrap();
        if let Some(n) = self.cfg.typemap.get(&last.ident.to_string()).and_then(|m| m.strip_suffix("<..>")) {
            last.ident = syn::parse_str(n).unwrap_or_else(|e| fail(format!("bad bound `{n}`: {e}")));
        }
        syn::visit_mut::visit_trait_bound_mut(self, b);
    }
    fn visit_attribute_mut(&mut self, _a: &mut syn::Attribute) {}
}

fn strip_fields(fields: &mut syn::Fields, spec: &ItemSpec, dropped: &mut Vec<String>) {
    let keep = spec.words("keep");
    let drop = spec.words("drop");
    let maps: Vec<(String, String)> = spec
        .get("mapfield")
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.split_once(':').map(|(a, b)| (a.trim().to_string(), b.trim().to_string())))
        .collect();
    match fields {
        syn::Fields::Named(n) => {
            let mut out = syn::punctuated::Punctuated::<syn::Field, syn::Token![,]>::new();
            for f in n.named.iter() {
                let id = f.ident.as_ref().unwrap().to_string();
                if (!keep.is_empty() && !keep.contains(&id)) || drop.contains(&id) {
                    dropped.push(id);
                    continue;
                }
                let mut f = f.clone();
                f.attrs.clear();
                f.vis = syn::Visibility::Inherited;
                if let Some((_, t)) = maps.iter().find(|(a, _)| *a == id) {
                    f.ty = parse_type(t);
                }
                out.push(f);
            }
            for k in &keep {
                if !out.iter().any(|f| f.ident.as_ref().unwrap() == k) {
                    fail(format!("lost anchor: field {k} not found"));
                }
            }
            n.named = out;
        }
        syn::Fields::Unnamed(u) => {
            for f in u.unnamed.iter_mut() {
                f.attrs.clear();
                f.vis = syn::Visibility::Inherited;
            }
        }
        syn::Fields::Unit => {}
    }
}

/// Insert `text` right after the generated marker macro position, and remove the marker.
fn replace_marker(text: &str, marker: &str, rep: &str) -> String {
    text.replace(&format!("{marker}!();"), rep)
}

fn clause(kw: &str, body: Option<String>) -> String {
    match body {
        Some(b) if !b.trim().is_empty() => {
            let b = b.trim().trim_end_matches(',').to_string();
            format!("    {kw}\n        {},\n", b.replace('\n', "\n        "))
        }
        _ => String::new(),
    }
}

pub struct FnOut {
    pub text: String,
    pub name: String,
    pub loops: usize,
    pub inlined: Vec<String>,
    pub dropped: Vec<String>,
}

fn emit_fn(
    cfg: &Config,
    spec: &ItemSpec,
    mut f: syn::ItemFn,
    files: &find::Files,
    probe: bool,
) -> FnOut {
    let mut dropped = Vec::new();
    let orig = f.sig.ident.to_string();
    let name = spec.get("as").unwrap_or(orig.clone());
    f.sig.ident = syn::Ident::new(&name, proc_macro2::Span::call_site());
    f.attrs.clear();
    f.vis = syn::Visibility::Inherited;
    f.sig.constness = None;
    if f.sig.generics.where_clause.is_some() {
        f.sig.generics.where_clause = None;
    }
    if spec.has("dropgenerics") {
        f.sig.generics = Default::default();
    }
    // parameters
    let dp = spec.words("dropparam");
    let overrides: Vec<(String, String)> = spec
        .get("param")
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.split_once(':').map(|(a, b)| (a.trim().to_string(), b.trim().to_string())))
        .collect();
    let mut inputs = syn::punctuated::Punctuated::<syn::FnArg, syn::Token![,]>::new();
    for a in f.sig.inputs.iter() {
        let mut a = a.clone();
        if let syn::FnArg::Typed(pt) = &mut a {
            pt.attrs.clear();
            if let syn::Pat::Ident(pi) = &mut *pt.pat {
                let id = pi.ident.to_string();
                if dp.contains(&id) {
                    dropped.push(format!("param {id}"));
                    continue;
                }
                if let Some((_, t)) = overrides.iter().find(|(n, _)| *n == id) {
                    *pt.ty = parse_type(t);
                }
            }
        }
        inputs.push(a);
    }
    if let Some(ap) = spec.get("addparam") {
        for l in ap.lines() {
            let a: syn::FnArg = syn::parse_str(l.trim()).unwrap_or_else(|e| fail(format!("addparam {l}: {e}")));
            inputs.push(a);
        }
    }
    f.sig.inputs = inputs;
    if let Some(rt) = spec.get("rettype") {
        let t = parse_type(&rt);
        f.sig.output = syn::parse_quote!(-> #t);
    }
    let trusted = spec.has("trusted");
    if trusted {
        if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
            if r.reference.is_none() {
                r.mutability = None;
            }
        }
        *f.block = syn::parse_quote!({ unimplemented!() });
    }
    // `mut self` becomes a local copy
    if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            struct RenameSelf;
            impl syn::visit_mut::VisitMut for RenameSelf {
                fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
                    if i == "self" {
                        *i = syn::Ident::new("self_", proc_macro2::Span::call_site());
                    }
                }
            }
            syn::visit_mut::VisitMut::visit_block_mut(&mut RenameSelf, &mut f.block);
            f.block.stmts.insert(0, syn::parse_quote!(let mut self_ = self;));
        }
    }
    // desugar body
    let mut ds = desugar::Desugar::new(cfg, spec, files);
    for a in &f.sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            if let (syn::Pat::Ident(p), syn::Type::Reference(_)) = (&*t.pat, &*t.ty) {
                ds.refs.insert(p.ident.to_string());
            }
        }
    }
    if !trusted {
        ds.block_mut(&mut f.block);
    }
    let mut tm = TypeMapper { cfg };
    tm.visit_item_fn_mut(&mut f);

    let ret = spec.get("ret").unwrap_or("r".into());
    if let syn::ReturnType::Type(_, t) = &mut f.sig.output {
        let inner = t.clone();
        **t = syn::parse_quote!(RET__<#inner>);
    }
    // markers
    let m: syn::Stmt = syn::parse_quote!(__fn_spec!(););
    // ghost code at the end of the body: the value of the body is named `_ret` first
    if !trusted && spec.has("at fn.end") {
        let stmts = std::mem::take(&mut f.block.stmts);
        f.block.stmts = match (&f.sig.output, stmts.last()) {
            (syn::ReturnType::Default, _) => {
                let mut st = stmts;
                if let Some(syn::Stmt::Expr(_, semi @ None)) = st.last_mut() {
                    *semi = Some(Default::default());
                }
                st.push(syn::parse_quote!(__fn_end!();));
                st
            }
            (_, Some(syn::Stmt::Expr(_, None))) => {
                let mut st = stmts;
                let Some(syn::Stmt::Expr(tail, _)) = st.pop() else { unreachable!() };
                st.push(syn::parse_quote!(let _ret = #tail;));
                st.push(syn::parse_quote!(__fn_end!();));
                st.push(syn::Stmt::Expr(syn::parse_quote!(_ret), None));
                st
            }
            _ => fail("no value at the end of the body for `at fn.end`"),
        };
    }
    f.block.stmts.insert(0, m);
    let mut text = print_item(syn::Item::Fn(f));
    if let Some(c) = spec.get("stop") {
        let c = format!("{{ proof {{ assert({c}); }} vstop() }}");
        text = text.replace("__stop__!()", &c);
    }
    // return naming
    if let Some(p) = text.find("RET__<") {
        let b = text.as_bytes();
        let mut depth = 0i32;
        let mut end = None;
        let mut i = p + 5;
        while i < b.len() {
            match b[i] {
                b'<' => depth += 1,
                b'>' if b[i - 1] != b'-' => {
                    depth -= 1;
                    if depth == 0 {
                        end = Some(i);
                        break;
                    }
                }
                _ => {}
            }
            i += 1;
        }
        let e = end.unwrap();
        let inner = text[p + 6..e].trim().trim_end_matches(',').to_string();
        text = format!("{}({ret}: {inner}){}", &text[..p], &text[e + 1..]);
    }
    // fn contract
    let mut contract = String::new();
    contract.push_str(&clause("requires", spec.get("requires")));
    contract.push_str(&clause("ensures", spec.get("ensures")));
    contract.push_str(&clause("decreases", spec.get("decreases")));
    let top = if trusted { String::new() } else { spec.get("at fn.top").unwrap_or_default() };
    let probe_txt = if probe && !trusted { "proof { assert(false); }" } else { "" };
    let Some(p) = text.find("__fn_spec!();") else { fail("internal: marker lost") };
    let Some(bp) = text[..p].rfind('{') else { fail("internal: brace lost") };
    text = format!(
        "{}\n{}{{ {} {}{}",
        text[..bp].trim_end(),
        contract,
        probe_txt,
        top,
        &text[p + "__fn_spec!();".len()..]
    );
    if let (false, Some(h)) = (trusted, spec.get("at fn.end")) {
        text = replace_marker(&text, "__fn_end", &h);
    }
    // loops
    let n = ds.loops;
    for k in 0..n {
        let mk = format!("__loop_{k}!();");
        let Some(p) = text.find(&mk) else { fail("internal: loop marker lost") };
        let bp = text[..p].rfind('{').unwrap();
        let auto = ds.auto_inv.get(&k).cloned().unwrap_or_default();
        let mut inv = auto;
        if let Some(u) = spec.get(&format!("loop {k} invariant")) {
            let u = u.trim().trim_end_matches(',').to_string();
            if !inv.is_empty() {
                inv.push_str(",\n        ");
            }
            inv.push_str(&u);
        }
        let dec = spec.get(&format!("loop {k} decreases")).or_else(|| ds.auto_dec.get(&k).cloned());
        let mut c = String::new();
        c.push_str(&clause("invariant", if inv.is_empty() { None } else { Some(inv) }));
        c.push_str(&clause("ensures", spec.get(&format!("loop {k} ensures"))));
        c.push_str(&clause("decreases", dec));
        text = format!("{}\n{}{{{}", text[..bp].trim_end(), c, &text[p + mk.len()..]);
        for pos in ["before", "top", "end", "after"] {
            let h = spec.get(&format!("at loop{k}.{pos}")).unwrap_or_default();
            text = replace_marker(&text, &format!("__{pos}_{k}"), &h);
        }
    }
    for (k, _) in spec.sections.iter().filter(|_| !trusted) {
        if let Some(r) = k.strip_prefix("loop ") {
            let num: usize = r.split_whitespace().next().unwrap().parse().unwrap();
            if num >= n {
                fail(format!("lost anchor: {orig} has {n} loops, contract speaks of loop {num}"));
            }
        }
        if let Some(r) = k.strip_prefix("at loop") {
            let num: usize = r.split('.').next().unwrap().parse().unwrap();
            if num >= n {
                fail(format!("lost anchor: {orig} has {n} loops, contract speaks of loop {num}"));
            }
        }
    }
    let attr = spec.get("attr").unwrap_or_default();
    if trusted {
        return FnOut { text: format!("#[verifier::external_body]\n{text}"), name, loops: 0, inlined: vec![], dropped };
    }
    text = format!("#[verifier::loop_isolation(false)]\n{attr}\n{text}");
    for s in spec.get("sub").unwrap_or_default().lines() {
        if let Some((a, b)) = s.split_once("=>") {
            let a = a.trim().trim_matches('`');
            let b = b.trim().trim_matches('`');
            if !text.contains(a) {
                fail(format!("lost anchor: sub `{a}` not found in {orig}"));
            }
            text = text.replace(a, b);
        }
    }
    FnOut { text, name, loops: n, inlined: ds.inlined, dropped }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        fail("usage: vextract REPO UNIT OUT REPORT [--probe]");
    }
    let probe = args.iter().any(|a| a == "--probe");
    let repo = &args[1];
    let unit_path = std::path::Path::new(&args[2]);
    let unit = fs::read_to_string(unit_path).unwrap_or_else(|e| fail(format!("{}: {e}", args[2])));
    let mut cfg = Config::default();
    let pieces = parse_unit(&unit, &mut cfg, unit_path.parent().unwrap());
    let files = find::Files::new(repo);
    // functions present in the unit are called through their contracts, never inlined
    for p in &pieces {
        match p {
            Piece::Text(t) => {
                let mut rest = t.as_str();
                while let Some(i) = rest.find("fn ") {
                    rest = &rest[i + 3..];
                    let n: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    cfg.known.insert(n);
                }
            }
            Piece::Item(s) => {
                if s.kind.first().map(|k| k == "fn").unwrap_or(false) {
                    cfg.known.insert(s.kind[1].clone());
                }
                if let Some(l) = s.kind.last() {
                    if let Some((_, n)) = l.rsplit_once("::") {
                        cfg.known.insert(n.to_string());
                    }
                }
                if let Some(a) = s.get("as") {
                    cfg.known.insert(a);
                }
            }
        }
    }
    let mut out = String::new();
    let mut report: Vec<BTreeMap<&'static str, String>> = Vec::new();
    // names of float constants must be known before bodies are rewritten
    for p in &pieces {
        if let Piece::Item(s) = p {
            if s.kind.first().map(|k| k == "const").unwrap_or(false) {
                if let Some(c) = find::find_const(&files, &s.file, &s.kind[1]) {
                    if c.ty.to_token_stream().to_string() == "f64" {
                        cfg.float_consts.push(s.kind[1].clone());
                    }
                }
            }
        }
    }
    for p in pieces {
        match p {
            Piece::Text(t) => out.push_str(&t),
            Piece::Item(spec) => {
                let mut rep = BTreeMap::new();
                rep.insert("file", spec.file.clone());
                rep.insert("item", spec.kind.join(" "));
                let kind: Vec<&str> = spec.kind.iter().map(|s| s.as_str()).collect();
                match kind.as_slice() {
                    ["const", name] => {
                        let Some(c) = find::find_const(&files, &spec.file, name) else {
                            fail(format!("lost anchor: const {name} in {}", spec.file))
                        };
                        if c.ty.to_token_stream().to_string() == "f64" {
                            let v = desugar::const_real(&c.expr)
                                .unwrap_or_else(|| fail(format!("const {name}: not a float literal")));
                            let _ = write!(
                                out,
                                "pub open spec fn {name}_s() -> real {{ {v} }}\n#[verifier::external_body]\nfn {name}() -> (r: R) ensures r@ == {name}_s() {{ unimplemented!() }}\n"
                            );
                        } else {
                            let mut c = c.clone();
                            c.attrs.clear();
                            out.push_str(&print_item(syn::Item::Const(c)));
                        }
                        rep.insert("line", format!("{}", 0));
                    }
                    ["struct", name] => {
                        let Some((mut s, line)) = find::find_struct(&files, &spec.file, name) else {
                            fail(format!("lost anchor: struct {name} in {}", spec.file))
                        };
                        let mut dropped = vec![];
                        s.attrs.clear();
                        s.vis = syn::Visibility::Inherited;
                        if spec.has("dropgenerics") {
                            s.generics = Default::default();
                        }
                        s.generics.where_clause = None;
                        strip_fields(&mut s.fields, &spec, &mut dropped);
                        if spec.has("pub") {
                            s.vis = syn::parse_quote!(pub);
                            for f in s.fields.iter_mut() {
                                f.vis = syn::parse_quote!(pub);
                            }
                        }
                        let mut tm = TypeMapper { cfg: &cfg };
                        tm.visit_item_struct_mut(&mut s);
                        if let Some(n) = spec.get("as") {
                            s.ident = syn::Ident::new(&n, proc_macro2::Span::call_site());
                        }
                        if let Some(a) = spec.get("attr") {
                            let _ = writeln!(out, "{a}");
                        }
                        let d = spec.words("derive");
                        if !d.is_empty() {
                            let _ = writeln!(out, "#[derive({})]", d.join(", "));
                        }
                        out.push_str(&print_item(syn::Item::Struct(s)));
                        rep.insert("line", line.to_string());
                        rep.insert("dropped", dropped.join(" "));
                    }
                    ["enum", name] => {
                        let Some((mut e, line)) = find::find_enum(&files, &spec.file, name) else {
                            fail(format!("lost anchor: enum {name} in {}", spec.file))
                        };
                        let mut dropped = vec![];
                        e.attrs.clear();
                        e.vis = syn::Visibility::Inherited;
                        if spec.has("dropgenerics") {
                            e.generics = Default::default();
                        }
                        let dv = spec.words("dropvariant");
                        let kept: Vec<syn::Variant> =
                            e.variants.iter().filter(|v| !dv.contains(&v.ident.to_string())).cloned().collect();
                        e.variants = kept.into_iter().collect();
                        for v in e.variants.iter_mut() {
                            v.attrs.clear();
                            strip_fields(&mut v.fields, &spec, &mut dropped);
                        }
                        dropped.extend(dv);
                        if spec.has("pub") {
                            e.vis = syn::parse_quote!(pub);
                        }
                        let mut tm = TypeMapper { cfg: &cfg };
                        tm.visit_item_enum_mut(&mut e);
                        if let Some(a) = spec.get("attr") {
                            let _ = writeln!(out, "{a}");
                        }
                        let d = spec.words("derive");
                        if !d.is_empty() {
                            let _ = writeln!(out, "#[derive({})]", d.join(", "));
                        }
                        out.push_str(&print_item(syn::Item::Enum(e)));
                        rep.insert("line", line.to_string());
                        rep.insert("dropped", dropped.join(" "));
                    }
                    ["fn", name] => {
                        let Some((f, line)) = find::find_fn(&files, &spec.file, name) else {
                            fail(format!("lost anchor: fn {name} in {}", spec.file))
                        };
                        let fo = emit_fn(&cfg, &spec, f, &files, probe);
                        out.push_str(&fo.text);
                        rep.insert("line", line.to_string());
                        rep.insert("fn", fo.name);
                        rep.insert("loops", fo.loops.to_string());
                        rep.insert("inlined", fo.inlined.join(" "));
                        rep.insert("dropped", fo.dropped.join(" "));
                        rep.insert("trusted", spec.get("trusted").unwrap_or_default());
                        rep.insert("contract", if spec.has("ensures") || spec.has("requires") { "yes".into() } else { "safety".into() });
                    }
                    _ if kind.first() == Some(&"impl") => {
                        // impl [Trait for] Type :: name
                        let s = kind[1..].join(" ");
                        let Some((head, name)) = s.rsplit_once("::") else { fail("impl anchor needs `::name`") };
                        let (f, line, selfty) = find::find_method(&files, &spec.file, head.trim(), name.trim())
                            .unwrap_or_else(|| fail(format!("lost anchor: {s} in {}", spec.file)));
                        let fo = emit_fn(&cfg, &spec, f, &files, probe);
                        let st = spec.get("selfty").unwrap_or_else(|| cfg.typemap.get(&selfty).cloned().unwrap_or(selfty));
                        let ig = spec.get("implgen").unwrap_or_default();
                        if spec.has("free") {
                            out.push_str(&fo.text);
                        } else {
                            let _ = writeln!(out, "impl{ig} {st} {{\n{}}}", fo.text);
                        }
                        rep.insert("line", line.to_string());
                        rep.insert("fn", format!("{st}::{}", fo.name));
                        rep.insert("loops", fo.loops.to_string());
                        rep.insert("inlined", fo.inlined.join(" "));
                        rep.insert("dropped", fo.dropped.join(" "));
                        rep.insert("trusted", spec.get("trusted").unwrap_or_default());
                        rep.insert("contract", if spec.has("ensures") || spec.has("requires") { "yes".into() } else { "safety".into() });
                    }
                    _ => fail(format!("unit line {}: bad item", spec.line)),
                }
                report.push(rep);
            }
        }
    }
    fs::write(&args[3], out).unwrap_or_else(|e| fail(format!("{e}")));
    let mut j = String::from("[\n");
    for (i, r) in report.iter().enumerate() {
        if i > 0 {
            j.push_str(",\n");
        }
        j.push_str("  {");
        let f: Vec<String> = r.iter().map(|(k, v)| format!("{}: {}", json_str(k), json_str(v))).collect();
        j.push_str(&f.join(", "));
        j.push('}');
    }
    j.push_str("\n]\n");
    fs::write(&args[4], j).unwrap_or_else(|e| fail(format!("{e}")));
    let _: TokenStream = quote! {};
}
