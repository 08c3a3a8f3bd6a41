//! The rewriting rules that turn a Rust function body into the subset Verus accepts.
//! Every rule preserves meaning (see DESIGN.md, "Extraction"); what no rule covers is left alone and
//! either verifies as it stands or makes the function "not extracted".
use crate::sources::Db;
use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeSet, HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Expr};

pub struct SigNorm { pub params: Vec<(String, String)>, pub ret: String }

pub fn rename(ts: TokenStream, ren: &HashMap<String, String>) -> TokenStream {
    let mut dot = false;
    let mut tick = false;
    ts.into_iter().map(|t| {
        let r = match t {
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), rename(g.stream(), ren)); n.set_span(g.span()); TokenTree::Group(n) }
            TokenTree::Ident(i) if !dot => {
                let k = if tick { format!("'{}", i) } else { i.to_string() };
                match ren.get(&k) { Some(n) => TokenTree::Ident(Ident::new(n.trim_start_matches('\''), i.span())), None => TokenTree::Ident(i) }
            }
            t => t,
        };
        dot = matches!(&r, TokenTree::Punct(p) if p.as_char() == '.');
        tick = matches!(&r, TokenTree::Punct(p) if p.as_char() == '\'');
        r
    }).collect()
}

fn toks(t: impl ToTokens) -> String { crate::flat(t.to_token_stream()).join(" ").replace("' ", "'") }

pub fn sig_norm(sig: &syn::Signature, ren: &mut HashMap<String, String>, tgen: &[String], tparams: &[String]) -> Result<SigNorm, String> {
    // function generics, by position (lifetimes and the names that stand for `impl Trait` come extra in the template)
    let real: Vec<String> = sig.generics.params.iter().filter_map(|p| match p { syn::GenericParam::Type(t) => Some(t.ident.to_string()), syn::GenericParam::Const(c) => Some(c.ident.to_string()), _ => None }).collect();
    let tnames: Vec<(String, String)> = tgen.iter().filter(|g| !g.starts_with('\'')).map(|g| match g.find(':') {
        Some(k) => (g[..k].trim().to_string(), g[k + 1..].chars().filter(|c| !c.is_whitespace()).collect()), None => (g.clone(), String::new()) }).collect();
    if tnames.len() < real.len() { return Err("signature: more generic parameters than the contract".into()) }
    for (r, (t, _)) in real.iter().zip(&tnames) { if r != t { ren.insert(r.clone(), t.clone()); } }
    let extra = &tnames[real.len()..];
    let mut used = 0;
    let mut params = vec![];
    for (k, p) in sig.inputs.iter().enumerate() {
        match p {
            syn::FnArg::Receiver(r) => { params.push((crate::flat(r.to_token_stream()).join(" "), String::new())) }
            syn::FnArg::Typed(t) => {
                let mut pat = toks(&t.pat);
                let mutp = pat.starts_with("mut ");
                let base = pat.trim_start_matches("mut ").trim().to_string();
                if let Some(tp) = tparams.get(k) {
                    let tb = tp.trim_start_matches("mut ").trim().to_string();
                    if base != tb && syn::parse_str::<Ident>(&base).is_ok() && base != "_" { ren.insert(base.clone(), tb.clone()); pat = if mutp { format!("mut {}", tb) } else { tb } }
                    else if base == "_" { pat = tp.clone() }
                }
                let ty = rename(t.ty.to_token_stream(), ren);
                let mut s: String = toks(ty);
                if let Some(i) = s.find("impl ") {
                    let bound: String = s[i + 5..].chars().filter(|c| !c.is_whitespace()).collect();
                    let nb = |x: &str| x.replace("::nommy::", "").replace("crate::", "");
                    let k = (used..extra.len()).find(|k| nb(&extra[*k].1) == nb(&bound)).ok_or_else(|| format!("signature: `impl {}` without a counterpart in the contract", bound))?;
                    used = k + 1;
                    let g = &extra[k].0;
                    s = format!("{}{}", &s[..i], g);
                }
                params.push((pat, s));
            }
        }
    }
    let ret = match &sig.output { syn::ReturnType::Default => "()".to_string(), syn::ReturnType::Type(_, t) => toks(rename(t.to_token_stream(), ren)) };
    Ok(SigNorm { params, ret })
}

pub struct Rw<'a> {
    db: &'a Db,
    area: String,
    implkey: String,
    ret: String,
    consts: HashSet<String>,
    self_struct: Option<String>,
    pub loops: usize,
    pub closures: usize,
    pub counters: HashMap<usize, (String, String)>,
    accs: BTreeSet<String>,
    /// the iterator each loop draws from
    pub iters: HashMap<usize, String>,
    /// locals of the function's own block that start as a `new()` or `default()`
    pub news: Vec<String>,
    errors: Vec<String>,
    tmp: usize,
    depth: usize,
    #[allow(dead_code)]
    opts: Vec<String>,
    inline_stack: Vec<String>,
}

fn path1(e: &Expr) -> Option<String> {
    match e { Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() => Some(p.path.segments[0].ident.to_string()), _ => None }
}
fn lastseg(p: &syn::Path) -> String { p.segments.last().unwrap().ident.to_string() }
fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), _ => e } }

struct HasLoop(bool);
impl<'ast> syn::visit::Visit<'ast> for HasLoop {
    fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) { self.0 = true }
    fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) { self.0 = true }
    fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) { self.0 = true }
}
struct HasReturn(bool);
impl<'ast> syn::visit::Visit<'ast> for HasReturn {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.0 = true }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_macro(&mut self, m: &'ast syn::Macro) { let n = m.path.segments.last().unwrap().ident.to_string(); if n == "bail" || n == "ensure" { self.0 = true } }
}

impl<'a> Rw<'a> {
    pub fn new(db: &'a Db, area: &str, implkey: &str, ret: &str, consts: HashSet<String>, self_struct: Option<String>, opts: &[String]) -> Self {
        Rw { db, area: area.into(), implkey: implkey.into(), ret: ret.into(), consts, self_struct, loops: 0, closures: 0, counters: HashMap::new(), accs: BTreeSet::new(), iters: HashMap::new(), news: vec![], errors: vec![], tmp: 0, depth: 0, opts: opts.to_vec(), inline_stack: vec![] }
    }
    pub fn run(&mut self, b: &syn::Block, ren: &HashMap<String, String>) -> Result<syn::Block, String> {
        let mut b: syn::Block = syn::parse2(rename(b.to_token_stream(), ren)).map_err(|e| e.to_string())?;
        for s in &b.stmts {
            if let syn::Stmt::Local(l) = s {
                let p = match &l.pat { syn::Pat::Type(t) => &*t.pat, p => p };
                if let (syn::Pat::Ident(i), Some((_, x))) = (p, &l.init) {
                    if let Expr::Call(c) = strip(x) { if let Expr::Path(f) = &*c.func { if (c.args.is_empty() || self.tok()) && matches!(lastseg(&f.path).as_str(), "new" | "default") { self.news.push(i.ident.to_string()) } } }
                }
            }
        }
        self.visit_block_mut(&mut b);
        if !self.errors.is_empty() { return Err(self.errors.join("; ")) }
        Ok(b)
    }
    pub fn acc(&self) -> Option<String> { if self.accs.len() == 1 { self.accs.iter().next().cloned() } else { None } }
    fn err(&mut self, s: impl Into<String>) { let s = s.into(); self.errors.push(s) }
    fn fresh(&mut self, p: &str) -> Ident { self.tmp += 1; Ident::new(&format!("__{}{}", p, self.tmp), Span::call_site()) }
    fn is_const(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Path(_) => path1(strip(e)).map_or(false, |n| self.consts.contains(&n)),
            Expr::Call(c) => match &*c.func { Expr::Path(p) => p.path.segments.len() == 2 && self.consts.contains(&p.path.segments[0].ident.to_string()) && p.path.segments[1].ident == "get", _ => false },
            _ => false,
        }
    }
    /// the ghost value of a format argument
    fn dv(&mut self, e: &Expr) -> TokenStream {
        match strip(e) {
            x if self.is_const(x) => { let id = path1(strip(x)).unwrap(); let id = Ident::new(&id, Span::call_site()); quote!(#id::dvs()) }
            Expr::Path(_) => quote!((#e).dv()),
            Expr::Field(_) => quote!((#e).dv()),
            Expr::Reference(r) => { let e = &r.expr; self.dv(e) }
            _ => { self.err(format!("format argument `{}`", toks(e))); quote!(DV::Other) }
        }
    }
    fn fmt(&mut self, ts: TokenStream) -> Option<TokenStream> {
        let args = match syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated, ts) {
            Ok(a) => a, Err(e) => { self.err(format!("format arguments: {}", e)); return None } };
        let mut it = args.into_iter();
        let lit = match it.next() { Some(Expr::Lit(l)) => l, Some(e) => { self.err(format!("format string `{}`", toks(e))); return None } None => { self.err("empty format"); return None } };
        let mut dvs = vec![];
        for a in it { let d = self.dv(&a); dvs.push(d) }
        Some(quote!(lit_(#lit), seq![#(#dvs),*]))
    }
    /// the message of wrap_err / wrap_err_with, as an executable expression of type `Msg`
    fn msg(&mut self, e: &Expr) -> Option<TokenStream> {
        match strip(e) {
            Expr::Lit(l) => Some(quote!(msg_(Ghost((lit_(#l), seq![]))))),
            Expr::Call(c) if path1(&c.func).as_deref() == Some("__vx_format") => { let f = self.fmt(c.args.to_token_stream())?; Some(quote!(msg_(Ghost((#f))))) }
            Expr::Macro(m) if lastseg(&m.mac.path) == "format" => { let f = self.fmt(m.mac.tokens.clone())?; Some(quote!(msg_(Ghost((#f))))) }
            Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { syn::Stmt::Expr(e) => { let e = e.clone(); self.msg(&e) } _ => { self.err("message block"); None } },
            _ => { self.err(format!("error message `{}`", toks(e))); None }
        }
    }
    fn macro_(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = lastseg(&m.path);
        let ts = m.tokens.clone();
        Some(match name.as_str() {
            "seq" => return None,
            "parse_macro_input" if self.tok() => {
                let mut it = ts.into_iter();
                let mut x = TokenStream::new(); let mut ty = TokenStream::new(); let mut seen = false;
                while let Some(t) = it.next() { if !seen { if let TokenTree::Ident(i) = &t { if i == "as" { seen = true; continue } } } if seen { ty.extend(Some(t)) } else { x.extend(Some(t)) } }
                if !seen { self.err("parse_macro_input!"); return None }
                let v = self.fresh("v"); let ev = self.fresh("e");
                parse_quote!(match parse_input_::<#ty>(#x) { Ok(#v) => #v, Err(#ev) => { return #ev; } })
            }
            "quote" if self.tok() => { let q = self.quoted(ts)?; parse_quote!(quote_(Ghost(#q))) }
            "format" if self.tok() => { self.text(ts, quote!(format_))? }
            "format_ident" if self.tok() => { self.text(ts, quote!(ident_))? }
            n if self.db.macros.contains_key(n) => match self.db.expand(n, ts) {
                Ok(x) => match syn::parse2::<Expr>(x) { Ok(e) => e, Err(e) => { self.err(format!("macro {}!: {}", n, e)); return None } },
                Err(e) => { self.err(e); return None } },
            "panic" => parse_quote!(panic_()),
            "unreachable" | "unimplemented" | "todo" => parse_quote!(unreached_()),
            "cfg" => { if ts.to_string().trim() == "debug_assertions" { parse_quote!(debug_assertions_()) } else { self.err("cfg!"); return None } }
            "eyre" => { let f = self.fmt(ts)?; parse_quote!(report_(Ghost(ErrV::Fmt(#f)))) }
            "bail" => { let f = self.fmt(ts)?; parse_quote!(return Err(report_(Ghost(ErrV::Fmt(#f))))) }
            "matches" => {
                struct M { e: Expr, p: syn::Pat, g: Option<Expr> }
                impl syn::parse::Parse for M { fn parse(i: syn::parse::ParseStream) -> syn::Result<M> {
                    let e = i.parse()?; i.parse::<syn::Token![,]>()?;
                    let p = { let _: Option<syn::Token![|]> = i.parse()?; let mut ps: syn::punctuated::Punctuated<syn::Pat, syn::Token![|]> = Default::default(); ps.push_value(i.parse()?); while i.peek(syn::Token![|]) { ps.push_punct(i.parse()?); ps.push_value(i.parse()?) } if ps.len() == 1 { ps.into_iter().next().unwrap() } else { syn::Pat::Or(syn::PatOr { attrs: vec![], leading_vert: None, cases: ps }) } };
                    let g = if i.peek(syn::Token![if]) { i.parse::<syn::Token![if]>()?; Some(i.parse()?) } else { None };
                    let _: Option<syn::Token![,]> = i.parse()?; Ok(M { e, p, g }) } }
                match syn::parse2::<M>(ts) {
                    Ok(M { e, p, g: None }) => parse_quote!(match #e { #p => true, _ => false }),
                    Ok(M { e, p, g: Some(g) }) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    Err(e) => { self.err(format!("matches!: {}", e)); return None }
                }
            }
            "vec" => {
                match syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated, ts) {
                    Ok(a) if a.is_empty() => parse_quote!(Vec::new()),
                    Ok(a) if a.len() == 1 => { let x = &a[0]; parse_quote!(vec1_(#x)) }
                    _ => { self.err("vec!"); return None }
                }
            }
            "assert" | "debug_assert" => { match syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated, ts) { Ok(a) if !a.is_empty() => { let c = &a[0]; parse_quote!(assert_(#c)) } _ => { self.err("assert!"); return None } } }
            "assert_eq" | "debug_assert_eq" => { match syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated, ts) { Ok(a) if a.len() >= 2 => { let c = &a[0]; let d = &a[1]; parse_quote!(assert_(#c == #d)) } _ => { self.err("assert_eq!"); return None } } }
            _ => { self.err(format!("macro {}!", name)); return None }
        })
    }
    /// apply a closure or function value to arguments
    fn beta(&mut self, f: &Expr, args: &[Expr]) -> Option<Expr> {
        match strip(f) {
            Expr::Closure(c) => {
                if c.inputs.len() != args.len() { self.err("closure arity"); return None }
                let b = &c.body;
                let mut lets = vec![];
                for (p, a) in c.inputs.iter().zip(args) { let p = match p { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() }; lets.push(quote!(let #p = #a;)) }
                let mut h = HasReturn(false);
                syn::visit::Visit::visit_expr(&mut h, b);
                if h.0 { self.err("closure with early exit"); return None }
                if lets.is_empty() { Some((**b).clone()) } else { Some(parse_quote!({ #(#lets)* #b })) }
            }
            Expr::Path(p) => Some(parse_quote!(#p(#(#args),*))),
            _ => { self.err(format!("function value `{}`", toks(f))); None }
        }
    }
    /// sources that work on token streams
    fn tok(&self) -> bool { self.area.starts_with("attr") || self.area.starts_with("gen") }
    /// `format!` as the ghost text it produces
    fn text(&mut self, ts: TokenStream, f: TokenStream) -> Option<Expr> {
        let args = match syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated, ts) {
            Ok(a) => a, Err(e) => { self.err(format!("format arguments: {}", e)); return None } };
        let mut it = args.into_iter();
        let lit = match it.next() { Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(), _ => { self.err("format string"); return None } };
        let mut parts: Vec<TokenStream> = vec![];
        let mut lets: Vec<TokenStream> = vec![];
        let mut cur = String::new();
        let mut cs = lit.chars().peekable();
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => { cs.next(); cur.push('{') }
                '}' if cs.peek() == Some(&'}') => { cs.next(); cur.push('}') }
                '{' => {
                    let mut n = String::new();
                    loop { match cs.next() { Some('}') => break, Some(x) => n.push(x), None => { self.err("format string"); return None } } }
                    let e: Expr = if n.is_empty() { match it.next() { Some(e) => e, None => { self.err("format string"); return None } } }
                        else { match syn::parse_str::<Ident>(&n) { Ok(i) => parse_quote!(#i), Err(_) => { self.err("format string"); return None } } };
                    let e = match strip(&e) { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() };
                    let e = if matches!(e, Expr::Path(_) | Expr::Field(_)) { e } else { let v = Ident::new(&format!("f{}_", lets.len()), proc_macro2::Span::call_site()); lets.push(quote!(let #v = #e;)); parse_quote!(#v) };
                    if !cur.is_empty() { let l = std::mem::take(&mut cur); parts.push(quote!(lit_(#l))) }
                    parts.push(quote!((#e).text_()));
                }
                c => cur.push(c),
            }
        }
        if it.next().is_some() { self.err("format arguments"); return None }
        if !cur.is_empty() || parts.is_empty() { parts.push(quote!(lit_(#cur))) }
        let mut p = parts.into_iter();
        let mut r = p.next().unwrap();
        for x in p { r = quote!(#r + #x) }
        Some(if lets.is_empty() { parse_quote!(#f(Ghost(#r))) } else { parse_quote!({ #(#lets)* #f(Ghost(#r)) }) })
    }
    /// `quote!` as the statements its text stands for
    fn quoted(&mut self, ts: TokenStream) -> Option<TokenStream> {
        match self.db.quotes.read(&ts) {
            Ok(v) if v.is_empty() => Some(quote!(Seq::<Stmt>::empty())),
            Ok(v) => { let mut p = v.into_iter(); let mut r = p.next().unwrap(); for x in p { r = quote!(#r + #x) } Some(r) }
            Err(e) => { self.err(e); None }
        }
    }
    fn is_option_ret(&self) -> bool { self.ret.replace(' ', "").starts_with("Option<") }

    /// Inline a call to a function of the sources that has no contract of its own.
    fn try_inline(&mut self, e: &Expr) -> Option<Expr> {
        if self.depth > 3 { return None }
        let (f, args, recv): (crate::sources::FnSrc, Vec<Expr>, Option<Expr>) = match e {
            Expr::Call(c) => {
                let p = match &*c.func { Expr::Path(p) if p.qself.is_none() => &p.path, _ => return None };
                let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last().unwrap().clone();
                let f = if segs.len() == 1 || segs[0] == "crate" || segs[0] == "super" || segs[0] == "self" {
                    if !self.db.inlinable_fn(&self.area, &name) { return None }
                    self.db.find_fn(&self.area, &name).ok().or_else(|| self.db.find_fn("core", &name).ok())?
                } else if segs.len() == 2 && (segs[0] == "Self" || Some(&segs[0]) == self.self_struct.as_ref()) {
                    self.db.inherent(&self.area, &self.implkey, self.self_struct.as_deref().unwrap_or(""), &name)?
                } else { return None };
                (f, c.args.iter().cloned().collect(), None)
            }
            Expr::MethodCall(m) => {
                let r = path1(strip(&m.receiver));
                if r.as_deref() != Some("self") { return None }
                let f = self.db.inherent(&self.area, &self.implkey, self.self_struct.as_deref().unwrap_or(""), &m.method.to_string())?;
                (f, m.args.iter().cloned().collect(), Some((*m.receiver).clone()))
            }
            _ => return None,
        };
        let name = f.sig.ident.to_string();
        if self.inline_stack.contains(&name) { return None }
        let mut h = HasReturn(false);
        syn::visit::Visit::visit_block(&mut h, &f.block);
        if h.0 { self.err(format!("helper `{}` exits early", name)); return None }
        self.tmp += 1;
        let k = self.tmp;
        let mut ren = HashMap::new();
        let mut lets = vec![];
        let mut ai = args.into_iter();
        for p in &f.sig.inputs {
            match p {
                syn::FnArg::Receiver(_) => { if recv.is_none() { return None } }
                syn::FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let pid = match &*t.pat { syn::Pat::Ident(i) => i.clone(), _ => { self.err(format!("helper `{}`: parameter pattern", name)); return None } };
                    let from = pid.ident.to_string();
                    // a parameter that is a plain variable (or a reborrow of one) is renamed, anything else is bound first
                    let to = match strip(&a) {
                        x if path1(x).is_some() && pid.mutability.is_none() => path1(x).unwrap(),
                        _ => {
                            let n = Ident::new(&format!("__h{}_{}", k, from), Span::call_site());
                            let m = pid.mutability;
                            lets.push(quote!(let #m #n = #a;));
                            n.to_string()
                        }
                    };
                    ren.insert(from, to);
                }
            }
        }
        // locals of the helper get fresh names
        struct Locals(Vec<String>);
        impl<'ast> syn::visit::Visit<'ast> for Locals { fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) { let s = p.ident.to_string(); if s.chars().next().unwrap().is_lowercase() { self.0.push(s) } } }
        let mut l = Locals(vec![]);
        syn::visit::Visit::visit_block(&mut l, &f.block);
        for x in l.0 { ren.entry(x.clone()).or_insert(format!("__h{}_{}", k, x)); }
        // generics of the helper with explicit names are only handled when they need no renaming
        let mut b: syn::Block = syn::parse2(rename(f.block.to_token_stream(), &ren)).ok()?;
        self.inline_stack.push(name);
        self.depth += 1;
        self.visit_block_mut(&mut b);
        self.depth -= 1;
        self.inline_stack.pop();
        let stmts = &b.stmts;
        if lets.is_empty() && stmts.len() == 1 { if let syn::Stmt::Expr(x) = &stmts[0] { return Some(parse_quote!((#x))) } }
        Some(parse_quote!({ #(#lets)* #(#stmts)* }))
    }
}
impl<'a> VisitMut for Rw<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        for (k, s) in stmts.into_iter().enumerate() {
            // a macro call in braces reads as an item
            let s = match s { syn::Stmt::Item(syn::Item::Macro(m)) if m.ident.is_none() => {
                let x = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac });
                if k + 1 == n && m.semi_token.is_none() { syn::Stmt::Expr(x) } else { syn::Stmt::Semi(x, Default::default()) } }
                s => s };
            match s {
                syn::Stmt::Item(syn::Item::Use(_)) | syn::Stmt::Item(syn::Item::Struct(_)) | syn::Stmt::Item(syn::Item::Impl(_)) => {}
                syn::Stmt::Item(i) => { self.err(format!("local item `{}`", toks(i))) }
                s => b.stmts.push(s),
            }
        }
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // in expanded code the macros are calls of stand-ins
        if let Expr::Call(c) = e {
            if let Some(n) = path1(&c.func) { if let Some(n) = n.strip_prefix("__vx_") {
                let a = &c.args;
                let n = Ident::new(n, Span::call_site());
                let nn = n.to_string();
                let m: Option<Expr> = match nn.as_str() {
                    "eyre" | "panic" | "unreached" | "format" | "matches" | "assert" => { let n = if n == "unreached" { Ident::new("unreachable", Span::call_site()) } else { n.clone() }; Some(parse_quote!(#n!(#a))) }
                    "cfg" => match a.first() { Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => { let t: TokenStream = s.value().parse().unwrap_or_default(); Some(parse_quote!(cfg!(#t))) } _ => None },
                    _ => None,
                };
                match m { Some(m) => *e = m, None => { self.err(format!("stand-in `{}`", n)); return } }
            } }
        }
        // a match against string literals: comparisons in order
        if let Expr::Match(m) = e {
            fn lits(p: &syn::Pat, out: &mut Vec<syn::Lit>) -> bool {
                match p {
                    syn::Pat::Lit(l) => match &*l.expr { Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => { out.push(l.lit.clone()); true } _ => false },
                    syn::Pat::Or(o) => o.cases.iter().all(|c| lits(c, out)),
                    _ => false,
                }
            }
            let mut any = vec![];
            if m.arms.iter().any(|a| lits(&a.pat, &mut any)) {
                let s = self.fresh("s");
                let mut chain: Option<Expr> = None;
                for a in m.arms.iter().rev() {
                    let mut ls = vec![];
                    let b = &a.body;
                    let g = a.guard.as_ref().map(|g| &g.1);
                    if lits(&a.pat, &mut ls) {
                        let mut c: Expr = { let l = &ls[0]; parse_quote!(#s.eq_str_(#l)) };
                        for l in &ls[1..] { c = parse_quote!(#c || #s.eq_str_(#l)) }
                        if let Some(g) = g { c = parse_quote!((#c) && #g) }
                        match chain { Some(x) => chain = Some(parse_quote!(if #c { #b } else { #x })), None => { self.err("string match without a catch-all"); return } }
                    } else {
                        match (&a.pat, g) {
                            (syn::Pat::Wild(_), None) => chain = Some(parse_quote!({ #b })),
                            (syn::Pat::Wild(_), Some(g)) => { let x = chain; chain = Some(parse_quote!(if #g { #b } else { #x })) }
                            (syn::Pat::Ident(i), None) if i.subpat.is_none() && i.by_ref.is_none() => { let i = &i.ident; chain = Some(parse_quote!({ let #i = #s.as_str(); #b })) }
                            _ => { self.err("string match pattern"); return }
                        }
                    }
                }
                let mut x = strip(&m.expr).clone();
                loop { match &x {
                    Expr::MethodCall(c) if c.args.is_empty() && (c.method == "as_ref" || c.method == "as_str" || c.method == "deref") => x = strip(&c.receiver).clone(),
                    Expr::Reference(r) => match strip(&r.expr) { Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => x = strip(&u.expr).clone(),
                        Expr::Index(i) if matches!(&*i.index, Expr::Range(r) if r.from.is_none() && r.to.is_none()) => x = strip(&i.expr).clone(), _ => break },
                    _ => break } }
                let c = chain.unwrap();
                *e = parse_quote!({ let #s = #x; #c });
            }
        }
        // a guarded arm in front of a catch-all: the guard becomes an `if`
        if let Expr::Match(m) = e {
            if m.arms.len() == 2 && m.arms[0].guard.is_some() && matches!(m.arms[1].pat, syn::Pat::Wild(_)) && m.arms[1].guard.is_none() {
                let (p, g, a, b) = (&m.arms[0].pat, &m.arms[0].guard.as_ref().unwrap().1, &m.arms[0].body, &m.arms[1].body);
                let mut h = HasLoop(false);
                syn::visit::Visit::visit_expr(&mut h, b);
                if !h.0 && !matches!(p, syn::Pat::Or(_)) { let x = &m.expr; *e = parse_quote!(match #x { #p => { if #g { #a } else { #b } } _ => { #b } }); }
            }
        }
        // `&format!(..)` is used as text
        if self.tok() { if let Expr::Reference(r) = e { if let Expr::Macro(m) = strip(&r.expr) { if lastseg(&m.mac.path) == "format" {
            let ts = m.mac.tokens.clone();
            match self.text(ts, quote!(format_s_)) { Some(q) => { *e = q; return } None => return }
        } } } }
        // macros first: their arguments are tokens
        for _ in 0..4 { if let Expr::Macro(m) = e {
            let m = m.mac.clone();
            match self.macro_(&m) { Some(x) => { *e = x; } None => return }
        } }
        // combinators whose closures are expanded before their bodies are visited
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let r = (*m.receiver).clone();
            let args: Vec<Expr> = m.args.iter().cloned().collect();
            let v = self.fresh("v"); let ev = self.fresh("e");
            let vx: Expr = parse_quote!(#v); let ex: Expr = parse_quote!(#ev);
            let new: Option<Expr> = match (name.as_str(), args.len()) {
                ("map_or_else", 2) => {
                    let zero = match strip(&args[0]) { Expr::Closure(c) => c.inputs.is_empty(), _ => false };
                    if zero { let a = self.beta(&args[0], &[]); let b = self.beta(&args[1], &[vx]); match (a, b) { (Some(a), Some(b)) => Some(parse_quote!(match #r { Some(#v) => #b, None => #a })), _ => None } }
                    else { let a = self.beta(&args[0], &[ex]); let b = self.beta(&args[1], &[vx]); match (a, b) { (Some(a), Some(b)) => Some(parse_quote!(match #r { Ok(#v) => #b, Err(#ev) => #a })), _ => None } }
                }
                ("or_else", 1) => { let zero = match strip(&args[0]) { Expr::Closure(c) => c.inputs.is_empty(), _ => false };
                    if zero { self.beta(&args[0], &[]).map(|a| parse_quote!(match #r { Some(#v) => Some(#v), None => #a })) } else { self.beta(&args[0], &[ex]).map(|a| parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#ev) => #a })) } }
                ("ok_or_else", 1) => self.beta(&args[0], &[]).map(|a| parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#a) })),
                ("unwrap_or_else", 1) => { let zero = match strip(&args[0]) { Expr::Closure(c) => c.inputs.is_empty(), _ => false };
                    if zero { self.beta(&args[0], &[]).map(|a| parse_quote!(match #r { Some(#v) => #v, None => #a })) } else { self.beta(&args[0], &[ex]).map(|a| parse_quote!(match #r { Ok(#v) => #v, Err(#ev) => #a })) } }
                ("map_err", 1) => self.beta(&args[0], &[ex]).map(|a| parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#ev) => Err(#a) })),
                ("wrap_err", 1) | ("context", 1) => { let a = args[0].clone(); self.msg(&a).map(|m| parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#ev) => Err(wrap_(#ev, #m)) })) }
                ("wrap_err_with", 1) | ("with_context", 1) => match self.beta(&args[0], &[]) { Some(a) => self.msg(&a).map(|m| parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#ev) => Err(wrap_(#ev, #m)) })), None => None },
                ("expect", 1) => Some(parse_quote!(unwrap_(#r))),
                ("unwrap", 0) => Some(parse_quote!(unwrap_(#r))),
                ("map", 1) if self.tok() && matches!(strip(&args[0]), Expr::Closure(_)) => {
                    let k = self.closures; self.closures += 1;
                    let c = match strip(&args[0]) { Expr::Closure(c) => c.clone(), _ => unreachable!() };
                    if c.inputs.len() != 1 { self.err("closure arity"); return }
                    let mk = Ident::new(&format!("__VCLOSURE_{}__", k), Span::call_site());
                    let pn = Ident::new(&format!("p{}_", k), Span::call_site());
                    let p = match &c.inputs[0] { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                    let mut ret = self.ret.clone();
                    let mut b = (*c.body).clone();
                    std::mem::swap(&mut self.ret, &mut ret);
                    self.visit_expr_mut(&mut b);
                    std::mem::swap(&mut self.ret, &mut ret);
                    let bind = match &p { syn::Pat::Ident(i) if i.subpat.is_none() => quote!(let #i = #pn;), p => quote!(let #p = #pn;) };
                    let mut r = r;
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(#r.map_(|#pn| { #mk; #bind #b }));
                    return;
                }
                ("push", 1) => { if let Some(p) = path1(strip(&r)) { self.accs.insert(p); } None }
                _ => None,
            };
            if let Some(n) = new { *e = n }
        }
        // loops: number them in source order, normalise to `loop`
        let id = match e { Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => { let k = self.loops; self.loops += 1; Some(k) } _ => None };
        // calls of the tuple constructor of a struct that got a marker field
        if let Expr::Call(c) = e {
            if let Some(n) = path1(&c.func) {
                let me = n == "Self" && self.self_struct.as_ref().map_or(false, |s| self.db.const_structs.contains(&(self.area.clone(), s.clone())));
                if me || self.db.const_structs.contains(&(self.area.clone(), n)) {
                    for a in c.args.iter_mut() { self.visit_expr_mut(a) }
                    c.args.push(parse_quote!(PhantomData));
                    return;
                }
            }
        }
        if let Expr::Let(_) = e { /* conditions of if let / while let */ }
        syn::visit_mut::visit_expr_mut(self, e);
        if let Some(k) = id {
            let marker = Ident::new(&format!("__VLOOP_{}__", k), Span::call_site());
            *e = match e.clone() {
                Expr::Loop(l) => { let s = &l.body.stmts; let lb = &l.label; parse_quote!(#lb loop { #marker; #(#s)* }) }
                Expr::While(w) => {
                    let s = &w.body.stmts; let lb = &w.label;
                    if let Expr::Let(l) = &*w.cond { if let Expr::MethodCall(m) = strip(&l.expr) { if m.method == "next" { if let Some(n) = path1(strip(&m.receiver)) { self.iters.insert(k, n); } } } }
                    match &*w.cond {
                        Expr::Let(l) => { let p = &l.pat; let x = &l.expr; parse_quote!(#lb loop { #marker; match #x { #p => { #(#s)* } _ => { break; } } }) }
                        c => parse_quote!(#lb loop { #marker; if !(#c) { break; } #(#s)* }),
                    }
                }
                Expr::ForLoop(f) => {
                    let s = &f.body.stmts; let lb = &f.label; let pat = &f.pat;
                    match strip(&f.expr) {
                        Expr::Range(r) if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) && r.from.is_some() && r.to.is_some() => {
                            let c = Ident::new(&format!("__c{}", k), Span::call_site()); let n = Ident::new(&format!("__n{}", k), Span::call_site());
                            self.counters.insert(k, (c.to_string(), n.to_string()));
                            let (a, b) = (&r.from, &r.to);
                            parse_quote!({ let mut #c = #a; let #n = #b; #lb loop { #marker; if !(#c < #n) { break; } let #pat = #c; #c += 1; #(#s)* } })
                        }
                        x => {
                            let it = self.fresh("it");
                            self.iters.insert(k, it.to_string());
                            let x: Expr = if self.tok() { parse_quote!(iter_(#x)) } else { x.clone() };
                            parse_quote!({ let mut #it = #x; #lb loop { #marker; match #it.next() { Some(#pat) => { #(#s)* } None => { break; } } } })
                        }
                    }
                }
                x => x,
            };
            return;
        }
        let new: Option<Expr> = match &*e {
            Expr::Try(t) => {
                let x = &t.expr; let v = self.fresh("v"); let ev = self.fresh("e");
                Some(if self.is_option_ret() { parse_quote!(match #x { Some(#v) => #v, None => { return None; } }) }
                else { parse_quote!(match #x { Ok(#v) => #v, Err(#ev) => { return Err(into_report_(#ev)); } }) })
            }
            Expr::Path(p) if p.qself.is_none() => match path1(e) {
                Some(n) if self.consts.contains(&n) => { let i = Ident::new(&n, Span::call_site()); Some(parse_quote!(#i::get())) }
                Some(n) if n == "Self" || Some(&n) == self.self_struct.as_ref() => {
                    if self.self_struct.as_ref().map_or(false, |s| self.db.const_structs.contains(&(self.area.clone(), s.clone()))) { Some(parse_quote!(Self(PhantomData))) } else { None }
                }
                _ => None,
            },
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) => {
                let (l, r) = (&*b.left, &*b.right);
                let is_str = |x: &Expr| matches!(strip(x), Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)));
                let opt = |x: &Expr| match strip(x) { Expr::Call(c) => path1(&c.func).as_deref() == Some("Some"), Expr::Path(_) => path1(strip(x)).as_deref() == Some("None"), _ => false };
                let base: Option<Expr> = if self.is_const(l) { Some(parse_quote!(#l.same_(&(#r)))) } else if self.is_const(r) { Some(parse_quote!(#r.same_(&(#l)))) }
                    else if self.tok() && is_str(r) { Some(parse_quote!(#l.eq_str_(#r))) } else if self.tok() && is_str(l) { Some(parse_quote!(#r.eq_str_(#l))) }
                    else if opt(l) || opt(r) { Some(parse_quote!(opt_eq_(&(#l), &(#r)))) } else { None };
                match (base, &b.op) { (Some(x), syn::BinOp::Ne(_)) => Some(parse_quote!(!(#x))), (x, _) => x }
            }
            Expr::Index(i) => match strip(&i.expr) { Expr::Field(_) => { let b = &i.expr; let k = &i.index; Some(parse_quote!((*#b.at_(#k)))) } _ => None },
            Expr::MethodCall(m) => {
                let r = &m.receiver;
                match (m.method.to_string().as_str(), m.args.len()) {
                    ("into", 0) => Some(parse_quote!(Into::into(#r))),
                    ("try_into", 0) => Some(parse_quote!(TryInto::try_into(#r))),
                    ("clone", 0) => Some(parse_quote!(clone_(&(#r)))),
                    ("saturating_add", 1) => { let a = &m.args[0]; Some(parse_quote!(sat_add_(#r, #a))) }
                    ("saturating_sub", 1) => { let a = &m.args[0]; Some(parse_quote!(sat_sub_(#r, #a))) }
                    ("iter", 0) if self.tok() => Some(parse_quote!(iter_(&#r))),
                    ("to_lowercase", 0) if self.tok() => Some(parse_quote!(lower_(#r))),
                    ("into_iter", 0) if self.tok() => Some(parse_quote!(iter_(#r))),
                    ("extend_from_slice", 1) => { let a = &m.args[0]; Some(parse_quote!(ext_slice_(&mut #r, #a))) }
                    ("min", 1) => { let a = &m.args[0]; Some(parse_quote!(min_(#r, #a))) }
                    ("max", 1) => { let a = &m.args[0]; Some(parse_quote!(max_(#r, #a))) }
                    _ => self.try_inline(e),
                }
            }
            Expr::Call(c) => {
                let segs: Vec<String> = match &*c.func { Expr::Path(p) if p.qself.is_none() => p.path.segments.iter().map(|s| s.ident.to_string()).collect(), _ => vec![] };
                let n = segs.len();
                let a = &c.args;
                if n >= 2 && segs[n - 2] == "mem" && segs[n - 1] == "take" { Some(parse_quote!(take_(#a))) }
                else if n >= 2 && segs[n - 2] == "mem" && segs[n - 1] == "replace" { Some(parse_quote!(replace_(#a))) }
                else if n >= 2 && segs[n - 2] == "mem" && segs[n - 1] == "swap" { Some(parse_quote!(swap_(#a))) }
                else { self.try_inline(e) }
            }
            Expr::Unsafe(_) => { self.err("unsafe block"); None }
            Expr::Closure(_) => { self.err("closure"); None }
            Expr::Async(_) | Expr::Await(_) | Expr::Yield(_) => { self.err("async"); None }
            _ => None,
        };
        if let Some(n) = new { *e = n }
    }
}

/// insert proof text in front of the final expression of a rendered body
pub fn insert_before_tail(body: &str, text: &str, has_tail: bool) -> Result<String, String> {
    let b: syn::Block = match syn::parse_str(body) { Ok(b) => b, Err(_) => return Err("tail hint needs a body without loops".into()) };
    let _ = (b, has_tail);
    // the last statement at brace depth 1, by line
    let lines: Vec<&str> = body.lines().collect();
    let mut last = 0;
    for (i, l) in lines.iter().enumerate() { if l.starts_with("    ") && !l.starts_with("     ") && !l.trim_start().starts_with('}') { last = i } }
    let mut out: Vec<String> = lines[..last].iter().map(|s| s.to_string()).collect();
    out.push(text.to_string());
    out.extend(lines[last..].iter().map(|s| s.to_string()));
    Ok(out.join("\n"))
}
