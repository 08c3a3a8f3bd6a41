//! vx: mechanical extraction of functions from the Rust sources into a Verus file.
//!
//! usage: vx TEMPLATE_DIR ROOT.vrs OUT.rs MAP.json [--mode A|B] [--stub KEY]... --src AREA=FILE ...
//!
//! The template holds contracts, loop invariants and lemmas; every executable line of a function under
//! contract comes from the sources.  See /verif/DESIGN.md ("Extraction") for the rewriting rules.
mod rewrite;
mod sources;

use proc_macro2::{TokenStream, TokenTree};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::io::Write as _;
use sources::*;

pub fn flat(ts: TokenStream) -> Vec<String> {
    let mut out = vec![];
    fn go(ts: TokenStream, out: &mut Vec<String>) {
        let mut quote = false;
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    if !a.is_empty() { out.push(a.into()); }
                    go(g.stream(), out);
                    if !b.is_empty() { out.push(b.into()); }
                }
                TokenTree::Punct(p) if p.as_char() == '\'' => { quote = true; }
                TokenTree::Ident(i) => {
                    if quote { out.push(format!("'{}", i)); quote = false; } else { out.push(i.to_string()) }
                }
                t => out.push(t.to_string()),
            }
        }
    }
    go(ts, &mut out);
    out
}

/// Functions of the template, resolved
struct FnOut { key: String, text: String, file: String, line: usize, error: Option<String>, loops: usize, stub: bool }

struct FnDirective {
    name: String,
    sig: String,
    params: Vec<String>,
    spec: String,
    entry: String,
    loops: BTreeMap<usize, (String, String)>,
    attrs: String,
    area: String,
    opts: Vec<String>,
    closures: BTreeMap<usize, String>,
    pre_tail: String,
}

fn split_top(s: &str, sep: char) -> Vec<String> {
    let mut depth = 0i32;
    let mut out = vec![];
    let mut cur = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        match c {
            '(' | '[' | '{' | '<' => depth += 1,
            ')' | ']' | '}' => depth -= 1,
            '>' if i > 0 && cs[i - 1] == '-' => {}
            '>' => depth -= 1,
            _ => {}
        }
        if c == sep && depth == 0 { out.push(cur.trim().to_string()); cur = String::new(); } else { cur.push(c) }
        i += 1;
    }
    if !cur.trim().is_empty() { out.push(cur.trim().to_string()) }
    out
}

/// parse "fn name<G>(a: T, b: U) -> (r: R) where W" of the template
struct SigParts { name: String, generics: Vec<String>, params: Vec<(String, String)>, ret: String }
fn sig_parts(sig: &str) -> SigParts {
    let s = sig.trim();
    let at = s.find("fn ").expect("fn in sig") + 3;
    let rest = &s[at..];
    let open = rest.find(|c| c == '(' || c == '<').unwrap();
    let name = rest[..open].trim().to_string();
    // generics
    let mut i = open;
    let cs: Vec<char> = rest.chars().collect();
    let mut generics = vec![];
    if cs[i] == '<' {
        let mut d = 0; let st = i + 1;
        loop {
            if cs[i] == '<' { d += 1 }
            if cs[i] == '>' && cs[i - 1] != '-' { d -= 1; if d == 0 { break } }
            i += 1;
        }
        generics = split_top(&cs[st..i].iter().collect::<String>(), ',');
        i += 1;
    }
    assert_eq!(cs[i], '(', "sig {}", sig);
    let mut d = 0; let st = i + 1;
    loop {
        if cs[i] == '(' { d += 1 }
        if cs[i] == ')' { d -= 1; if d == 0 { break } }
        i += 1;
    }
    let params = split_top(&cs[st..i].iter().collect::<String>(), ',').into_iter().map(|p| match p.find(':') {
        Some(k) => (p[..k].trim().to_string(), p[k + 1..].trim().to_string()),
        None => (p.clone(), String::new()),
    }).collect();
    let tail: String = cs[i + 1..].iter().collect();
    let tail = match tail.find(" where ") { Some(k) => tail[..k].to_string(), None => tail };
    let ret = match tail.find("->") {
        None => "()".into(),
        Some(k) => {
            let r = tail[k + 2..].trim();
            if r.starts_with('(') && r.contains(':') {
                let inner = &r[1..r.len() - 1];
                inner[inner.find(':').unwrap() + 1..].trim().to_string()
            } else { r.to_string() }
        }
    };
    SigParts { name, generics, params, ret }
}
fn nows(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

fn norm_ty(s: &str) -> String {
    // the vocabulary the extraction translates: see DESIGN.md
    let mut t = nows(s);
    for (a, b) in [("::nommy::", ""), ("eyre::Result", "Result"), ("::eyre::", ""), ("crate::", ""), ("&'zmut", "&mut"), ("Cursor<'z,", "Cursor<"), ("'static", "")] {
        t = t.replace(a, b);
    }
    t
}

struct Gen<'a> {
    db: &'a Db,
    stubs: Vec<String>,
    fns: Vec<FnOut>,
    problems: Vec<(String, String)>,
    probe: bool,
}

/// line by line, without rustfmt
fn print_body(b: &syn::Block) -> String {
    fn go(ts: TokenStream, ind: usize, o: &mut String) {
        let mut joint = true;
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    if !joint && g.delimiter() != proc_macro2::Delimiter::Parenthesis { o.push(' ') }
                    let (a, z) = match g.delimiter() { proc_macro2::Delimiter::Parenthesis => ("(", ")"), proc_macro2::Delimiter::Brace => ("{", "}"), proc_macro2::Delimiter::Bracket => ("[", "]"), _ => (" ", " ") };
                    o.push_str(a);
                    let brace = g.delimiter() == proc_macro2::Delimiter::Brace && !g.stream().is_empty();
                    if brace { o.push('\n'); o.push_str(&"    ".repeat(ind + 1)) }
                    go(g.stream(), ind + brace as usize, o);
                    if brace { o.push('\n'); o.push_str(&"    ".repeat(ind)) }
                    o.push_str(z);
                    if brace { o.push('\n'); o.push_str(&"    ".repeat(ind)); joint = true } else { joint = false }
                }
                TokenTree::Punct(p) => {
                    if p.as_char() == '\'' && !joint { o.push(' ') }
                    o.push(p.as_char());
                    if p.as_char() == ';' { o.push('\n'); o.push_str(&"    ".repeat(ind)); joint = true }
                    else if p.spacing() == proc_macro2::Spacing::Alone && p.as_char() != ':' && p.as_char() != '.' { o.push(' '); joint = true } else { joint = true }
                }
                t => { if !joint { o.push(' ') } o.push_str(&t.to_string()); joint = false }
            }
        }
    }
    use quote::ToTokens;
    let mut o = String::new();
    go(b.to_token_stream(), 0, &mut o);
    o.trim_end().to_string()
}
fn render_body(b: &syn::Block) -> Result<String, String> {
    let ts = quote::quote!(fn __f() #b);
    let mut child = std::process::Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=140"])
        .stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped())
        .spawn().map_err(|e| e.to_string())?;
    child.stdin.take().unwrap().write_all(ts.to_string().as_bytes()).map_err(|e| e.to_string())?;
    let o = child.wait_with_output().map_err(|e| e.to_string())?;
    let text = if o.status.success() { String::from_utf8_lossy(&o.stdout).to_string() } else { return Err(format!("rustfmt: {}", String::from_utf8_lossy(&o.stderr))) };
    let i = text.find('{').unwrap();
    Ok(text[i..].trim_end().to_string())
}

impl<'a> Gen<'a> {
    fn emit_fn(&mut self, implkey: &str, found: Result<(FnSrc, HashMap<String, String>), String>, d: FnDirective) -> String {
        let key = if implkey.is_empty() { format!("{}::{}", d.area, d.name) } else { format!("{}::<{}>::{}", d.area, implkey, d.name) };
        let sp = sig_parts(&d.sig);
        let stubbed = self.stubs.iter().any(|s| *s == key);
        let mut file = String::new(); let mut line = 0; let mut loops = 0;
        let res: Result<String, String> = (|| {
            let (f, mut ren) = found?;
            if d.name.contains("__default__") { ren.insert("Self".into(), "P".into()); }
            file = f.file.clone(); line = f.line;
            for o in &d.opts { if let Some((a, b)) = o.strip_prefix("ren:").and_then(|x| x.split_once('=')) { ren.insert(a.into(), b.into()); } }
            // signature agreement
            let real = rewrite::sig_norm(&f.sig, &mut ren, &sp.generics, &sp.params.iter().map(|p| p.0.clone()).collect::<Vec<_>>())?;
            if real.params.len() != sp.params.len() { return Err(format!("signature: expected {} parameters, found {}", sp.params.len(), real.params.len())) }
            // `mut self` is a copy of `self`
            let mutself = real.params.first().map_or(false, |p| p.0 == "mut self") && sp.params.first().map_or(false, |p| p.0 == "self");
            if mutself { ren.insert("self".into(), "this_".into()); }
            for (a, b) in real.params.iter().zip(&sp.params) {
                if mutself && a.0 == "mut self" { continue }
                if norm_ty(&a.1) != norm_ty(&b.1) { return Err(format!("signature: parameter `{}` has type `{}`, contract expects `{}`", b.0, a.1, b.1)) }
                if nows(&a.0) != nows(&b.0).replace("'z", "") { return Err(format!("signature: parameter pattern `{}`, contract expects `{}`", a.0, b.0)) }
            }
            if norm_ty(&real.ret) != norm_ty(&sp.ret) { return Err(format!("signature: returns `{}`, contract expects `{}`", real.ret, sp.ret)) }
            let mut rw = rewrite::Rw::new(self.db, &d.area, implkey, &real.ret, f.consts.clone(), f.self_struct.clone(), &d.opts);
            let block = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rw.run(&f.block, &ren))).unwrap_or_else(|_| Err("the rewriting rules do not cover this body".into()))?;
            loops = rw.loops;
            let mut block = block;
            if mutself { block.stmts.insert(0, syn::parse_quote!(let mut this_ = self;)) }
            let mut body = if rw.loops == 0 && d.area.starts_with("derive") { print_body(&block) } else { render_body(&block)? };
            // loop invariants
            if d.loops.len() != rw.loops && !(d.loops.contains_key(&99)) {
                return Err(format!("loops: the contract annotates {} loops, the function has {}", d.loops.len(), rw.loops));
            }
            for k in 0..rw.loops {
                let marker = format!("__VLOOP_{}__;", k);
                let (inv, hint) = d.loops.get(&k).cloned().unwrap_or_default();
                let pos = body.find(&marker).ok_or(format!("loop marker {} lost", k))?;
                let brace = body[..pos].rfind('{').unwrap();
                if body[brace + 1..pos].trim() != "" { return Err("loop marker not first".into()) }
                let inv = self.roles(&inv, &rw)?; let hint = self.roles(&hint, &rw)?;
                body = format!("{}\n{}\n{{\n{}{}", &body[..brace].trim_end(), inv, hint, &body[pos + marker.len()..]);
            }
            for k in 0..rw.closures {
                let marker = format!("__VCLOSURE_{}__;", k);
                let pos = body.find(&marker).ok_or(format!("closure marker {} lost", k))?;
                let brace = body[..pos].rfind('{').unwrap();
                let spec = d.closures.get(&k).ok_or(format!("the contract says nothing of closure {}", k))?;
                let at = body[..brace].trim_end().strip_suffix('|').and_then(|b| b.rfind('|')).ok_or("closure head")?;
                body = format!("{}{}\n{{{}", &body[..at], spec, &body[pos + marker.len()..]);
            }
            let entry = self.roles(&d.entry, &rw)?;
            if !entry.trim().is_empty() {
                body = format!("{{\n{}{}", entry, &body[1..]);
            }
            // vacuity probe: the body must be reachable under its precondition
            if self.probe { body = format!("{{ proof {{ assert(false); }}\n{}", &body[1..]); }
            if !d.pre_tail.trim().is_empty() {
                let t = self.roles(&d.pre_tail, &rw)?;
                body = rewrite::insert_before_tail(&body, &t, sp.ret != "()")?;
            }
            Ok(body)
        })();
        let (body, error) = match res {
            Ok(b) => (b, None),
            Err(e) => (String::new(), Some(e)),
        };
        let stub = stubbed || error.is_some();
        let sig = &d.sig;
        let text = if stub {
            format!("#[verifier::external_body]\n{}{}\n{}\n{{ unimplemented!() }}\n", d.attrs, sig, d.spec)
        } else {
            format!("{}{}\n{}\n{}\n", d.attrs, sig, d.spec, body)
        };
        self.fns.push(FnOut { key, text: text.clone(), file, line, error, loops, stub });
        format!("/*FN {}*/\n{}/*END*/\n", self.fns.len() - 1, text)
    }
    fn roles(&self, s: &str, rw: &rewrite::Rw) -> Result<String, String> {
        let mut s = s.to_string();
        if s.contains("$acc") {
            match rw.acc() { Some(a) => s = s.replace("$acc", &a), None => return Err("role $acc: no unique local receives push".into()) }
        }
        for k in 0..6 {
            for (role, v, what) in [(format!("$it{}", k), rw.iters.get(&k), "the loop draws from no iterator"), (format!("$new{}", k), rw.news.get(k), "no such fresh local")] {
                if s.contains(&role) { match v { Some(v) => s = s.replace(&role, v), None => return Err(format!("role {}: {}", role, what)) } }
            }
            for (pre, which) in [("$c", 0), ("$n", 1)] {
            let a = format!("{}{}", pre, k);
            if s.contains(&a) {
                match rw.counters.get(&k) { Some((c, n)) => s = s.replace(&a, if which == 0 { c } else { n }), None => return Err(format!("role {}: loop is not a counting loop", a)) }
            }
            }
        }
        Ok(s)
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tdir = &args[1]; let root = &args[2]; let out = &args[3]; let mapf = &args[4];
    let mut mode = "A".to_string();
    let mut probe = false;
    let mut stubs = vec![]; let mut srcs = vec![]; let mut defs = vec![];
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--mode" => { mode = args[i + 1].clone(); i += 2 }
            "--stub" => { stubs.push(args[i + 1].clone()); i += 2 }
            "--probe" => { probe = true; i += 2 }
            "--def" => { defs.push(args[i + 1].clone()); i += 2 }
            "--src" => { let (a, f) = args[i + 1].split_once('=').unwrap(); srcs.push((a.to_string(), f.to_string())); i += 2 }
            x => panic!("unknown argument {}", x),
        }
    }
    let mut db = Db::load(&srcs).unwrap_or_else(|e| { eprintln!("vx: {}", e); std::process::exit(3) });
    let mut lines: Vec<String> = vec![];
    fn include(tdir: &str, f: &str, lines: &mut Vec<String>) {
        let p = if f.starts_with('/') { f.to_string() } else { format!("{}/{}", tdir, f) };
        for l in std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {}", p, e)).lines() {
            if let Some(r) = l.trim().strip_prefix("//@include ") { include(tdir, r.trim(), lines) } else { lines.push(l.to_string()) }
        }
    }
    include(tdir, root, &mut lines);
    for l in &lines {
        if let Some(r) = l.trim().strip_prefix("//@quote ") { if let Err(e) = db.quotes.add(r) { panic!("{}", e) } }
        if let Some(r) = l.trim().strip_prefix("//@fn ") { let r = &r[r.find("fn ").unwrap()..]; db.contracted.insert(sig_parts(r).name); }
    }
    let mut g = Gen { db: &db, stubs, fns: vec![], problems: vec![], probe };
    let mut o = String::new();
    let mut area = String::new();
    let mut cur_impl: Option<(String, Result<ImplSrc, String>, HashMap<String, String>)> = None;
    let mut li = 0;
    while li < lines.len() {
        let raw = lines[li].clone();
        let l = raw.trim().to_string();
        li += 1;
        if let Some(r) = l.strip_prefix("//@area ") { area = r.trim().to_string(); }
        else if let Some(r) = l.strip_prefix("//@impl ") {
            // //@impl <real header> [=> <emitted header>]
            let (realh, emit) = match r.split_once(" => ") { Some((a, b)) => (a.trim().to_string(), b.trim().to_string()), None => (r.trim().to_string(), r.trim().to_string()) };
            match db.find_impl(&area, &realh) {
                Ok((im, ren)) => { cur_impl = Some((im.key.clone(), Ok(im), ren)) }
                Err(e) => { g.problems.push((realh.clone(), e.clone())); cur_impl = Some((header_key(&realh), Err(e), HashMap::new())) }
            }
            let _ = writeln!(o, "{} {{", emit);
        }
        else if l == "//@endimpl" { cur_impl = None; o.push_str("}\n"); }
        else if let Some(r) = l.strip_prefix("//@struct ") {
            match db.emit_struct(&area, r.trim()) { Ok(t) => { o.push_str(&t); o.push('\n') } Err(e) => { g.problems.push((format!("struct {}", r), e)); } }
        }
        else if let Some(r) = l.strip_prefix("//@default ") {
            // //@default NAME | spec : what derive(Default) makes of the struct, spelled out; without the derive nothing is known of it
            let (n, spec) = r.split_once('|').unwrap();
            match db.derived_default(&area, n.trim()) {
                Ok(b) => { let _ = writeln!(o, "pub fn default() -> (r: Self) {}\n{}", spec, b); }
                Err(e) => { g.problems.push((format!("default {}", n), e)); o.push_str("#[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() }\n"); }
            }
        }
        else if let Some(r) = l.strip_prefix("//@trait ") {
            // //@trait Name: sig ; sig   -- checks that the real trait declares exactly these methods
            if let Err(e) = db.check_trait(&area, r.trim()) { g.problems.push((format!("trait {}", r), e)); }
        }
        else if let Some(r) = l.strip_prefix("//@fn ") {
            let mut sig = r.trim().to_string();
            let mut opts = vec![];
            while sig.starts_with('[') { let k = sig.find(']').unwrap(); opts.push(sig[1..k].to_string()); sig = sig[k + 1..].trim().to_string(); }
            let sp = sig_parts(&sig);
            let mut d = FnDirective { name: sp.name.clone(), sig, params: vec![], spec: String::new(), entry: String::new(), loops: BTreeMap::new(), attrs: String::new(), area: area.clone(), opts, closures: BTreeMap::new(), pre_tail: String::new() };
            d.params = sp.params.iter().map(|p| p.0.clone()).collect();
            let mut sect = "spec".to_string();
            loop {
                let x = lines[li].clone(); li += 1;
                let t = x.trim();
                if t == "//@end" { break }
                if let Some(s) = t.strip_prefix("//@opts ") { d.opts.extend(s.split_whitespace().map(|x| x.to_string())); continue }
                if let Some(s) = t.strip_prefix("//@") { sect = s.trim().to_string(); continue }
                let w: Vec<&str> = sect.split_whitespace().collect();
                match w[0] {
                    "spec" => { d.spec.push_str(&x); d.spec.push('\n') }
                    "entry" => { d.entry.push_str(&x); d.entry.push('\n') }
                    "tail" => { d.pre_tail.push_str(&x); d.pre_tail.push('\n') }
                    "opts" => {}
                    "attr" => { d.attrs.push_str(&x); d.attrs.push('\n') }
                    "loop" => { let e = d.loops.entry(w[1].parse().unwrap()).or_default(); e.0.push_str(&x); e.0.push('\n') }
                    "closure" => { let e = d.closures.entry(w[1].parse().unwrap()).or_default(); e.push_str(&x); e.push('\n') }
                    "body" => { let e = d.loops.entry(w[1].parse().unwrap()).or_default(); e.1.push_str(&x); e.1.push('\n') }
                    s => panic!("section {}", s),
                }
            }
            let (ik, found) = match &cur_impl {
                None => (String::new(), db.find_fn(&area, &d.name).map(|f| (f, HashMap::new()))),
                Some((k, Ok(im), ren)) => (k.clone(), im.method(&d.name).map(|f| (f, ren.clone()))),
                Some((k, Err(e), _)) => (k.clone(), Err(e.clone())),
            };
            let t = g.emit_fn(&ik, found, d);
            o.push_str(&t);
        }
        else if let Some(r) = l.strip_prefix("//@if ") {
            // //@if NAME ... //@fi : kept when --def NAME
            if !defs.iter().any(|d| d == r.trim()) {
                while lines[li].trim() != "//@fi" { li += 1 }
            }
        }
        else if l == "//@fi" {}
        else { o.push_str(&raw); o.push('\n') }
    }
    let o = o.replace("__MODE_B__", if mode == "B" { "true" } else { "false" });
    // line map
    let mut text = String::new(); let mut map = vec![]; let mut ln = 1; let mut start = 0; let mut cur = 0usize;
    for l in o.lines() {
        if let Some(r) = l.trim().strip_prefix("/*FN ") { cur = r.trim_end_matches("*/").parse().unwrap(); start = ln; continue }
        if l.trim() == "/*END*/" {
            let f = &g.fns[cur];
            map.push(json!({"key": f.key, "start": start, "end": ln - 1, "file": f.file, "line": f.line, "error": f.error, "stub": f.stub, "loops": f.loops,
              "text": f.text}));
            continue
        }
        text.push_str(l); text.push('\n'); ln += 1;
    }
    std::fs::write(out, text).unwrap();
    let uncovered = db.uncovered(&g.fns.iter().map(|f| (f.file.clone(), f.line)).collect::<Vec<_>>());
    std::fs::write(mapf, serde_json::to_string_pretty(&json!({"functions": map, "problems": g.problems, "not_under_contract": uncovered})).unwrap()).unwrap();
}
