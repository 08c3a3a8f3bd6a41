//! Index of the Rust sources: impls, functions, structs and traits outside #[cfg(test)].
use crate::flat;
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::spanned::Spanned;

#[derive(Clone)]
pub struct FnSrc {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub file: String,
    pub line: usize,
    /// const generics holding text or bytes, in scope
    pub consts: HashSet<String>,
    pub self_struct: Option<String>,
}
#[derive(Clone)]
pub struct ImplSrc { pub key: String, pub item: syn::ItemImpl, pub file: String }
pub struct Db {
    pub impls: Vec<(String, String, syn::ItemImpl)>,
    pub fns: Vec<(String, String, syn::ItemFn)>,
    pub structs: Vec<(String, String, syn::ItemStruct)>,
    pub enums: Vec<(String, String, syn::ItemEnum)>,
    pub traits: Vec<(String, String, syn::ItemTrait)>,
    /// structs with a text/byte const generic
    pub const_structs: HashSet<(String, String)>,
    /// names of functions under contract: never inlined
    pub contracted: HashSet<String>,
    /// what the texts of `quote!` stand for
    pub quotes: Quotes,
    /// `macro_rules!` with one rule
    pub macros: HashMap<String, (Vec<proc_macro2::TokenTree>, proc_macro2::TokenStream)>,
}
#[derive(Clone, PartialEq)]
enum QT { Lit(String), Var(String) }
#[derive(Default)]
pub struct Quotes(Vec<(String, Vec<String>, Vec<QT>)>);
fn qtoks(ts: proc_macro2::TokenStream) -> Vec<QT> {
    let f = flat(ts);
    let mut o = vec![]; let mut i = 0;
    while i < f.len() {
        if f[i] == "#" && i + 1 < f.len() && syn::parse_str::<syn::Ident>(&f[i + 1]).is_ok() { o.push(QT::Var(f[i + 1].clone())); i += 2 } else { o.push(QT::Lit(f[i].clone())); i += 1 }
    }
    o
}
impl Quotes {
    /// `CTOR(a, b) | text`
    pub fn add(&mut self, d: &str) -> Result<(), String> {
        let (h, text) = d.split_once('|').ok_or("quote directive")?;
        let h = h.trim();
        let (c, args) = match h.find('(') { Some(k) => (h[..k].to_string(), h[k + 1..h.len() - 1].split(',').map(|x| x.trim().to_string()).collect()), None => (h.to_string(), vec![]) };
        let ts: proc_macro2::TokenStream = text.parse().map_err(|e| format!("quote directive {}: {}", c, e))?;
        self.0.push((c, args, qtoks(ts)));
        self.0.sort_by_key(|x| std::cmp::Reverse(x.2.len()));
        Ok(())
    }
    pub fn read(&self, ts: &proc_macro2::TokenStream) -> Result<Vec<proc_macro2::TokenStream>, String> {
        use quote::quote;
        let id = |n: &str| syn::Ident::new(n, proc_macro2::Span::call_site());
        let v = qtoks(ts.clone());
        let mut out = vec![]; let mut i = 0;
        'next: while i < v.len() {
            for (c, args, pat) in &self.0 {
                if pat.len() > v.len() - i { continue }
                let mut m: HashMap<String, String> = HashMap::new();
                let ok = pat.iter().zip(&v[i..]).all(|(p, x)| match (p, x) {
                    (QT::Lit(a), QT::Lit(b)) => a == b,
                    (QT::Var(a), QT::Var(b)) => m.entry(a.clone()).or_insert(b.clone()) == b,
                    _ => false });
                if !ok { continue }
                let cp: syn::Path = syn::parse_str(c).map_err(|e| e.to_string())?;
                if args.is_empty() { out.push(quote!(q1_(#cp))) } else {
                    let a: Vec<_> = args.iter().map(|a| { let x = id(m.get(a).map(|s| s.as_str()).unwrap_or("missing_")); quote!((#x).q()) }).collect();
                    out.push(quote!(q1_(#cp(#(#a),*))));
                }
                i += pat.len();
                continue 'next;
            }
            match &v[i] { QT::Var(x) => { let x = id(x); out.push(quote!((#x).q())); i += 1 } QT::Lit(l) => return Err(format!("quoted text near `{}` is none the contracts know", l)) }
        }
        Ok(out)
    }
}
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let t = a.to_token_stream().to_string(); t.contains("cfg") && t.contains("test") || t.replace(' ', "") == "#[test]" })
}
fn is_text_const(c: &syn::ConstParam) -> bool { matches!(c.ty, syn::Type::Reference(_)) }
pub fn text_consts(g: &syn::Generics) -> HashSet<String> {
    g.params.iter().filter_map(|p| match p { syn::GenericParam::Const(c) if is_text_const(c) => Some(c.ident.to_string()), _ => None }).collect()
}
pub fn generic_names(g: &syn::Generics) -> Vec<String> {
    g.params.iter().map(|p| match p {
        syn::GenericParam::Const(c) => c.ident.to_string(),
        syn::GenericParam::Type(t) => t.ident.to_string(),
        syn::GenericParam::Lifetime(l) => l.lifetime.to_string(),
    }).collect()
}
/// canonical key of an impl header: generic names replaced by order of first appearance
fn canon(it: &syn::ItemImpl) -> (String, Vec<String>) {
    let names = generic_names(&it.generics);
    let mut order: Vec<String> = vec![];
    let mut s = String::new();
    let mut push = |toks: Vec<String>, s: &mut String| for t in toks {
        if names.contains(&t) {
            let k = match order.iter().position(|x| *x == t) { Some(k) => k, None => { order.push(t.clone()); order.len() - 1 } };
            s.push_str(&format!("${} ", k));
        } else if t != "eyre" { s.push_str(&t); s.push(' ') }
    };
    if let Some((_, p, _)) = &it.trait_ { push(flat(strip_path(p).to_token_stream()), &mut s); s.push_str("for "); }
    push(flat(it.self_ty.to_token_stream()), &mut s);
    (s.replace("< > ", ""), order)
}
const ROOTS: [&str; 4] = ["nommy", "std", "core", "alloc"];
const PRIM: [&str; 8] = ["usize", "u8", "char", "str", "bool", "u32", "u64", "isize"];
/// `::nommy::vec::f` becomes `f`, `::std::vec::Vec` becomes `Vec`; `text` and `bytes` are kept
pub fn short_paths(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree as T};
    let v: Vec<T> = ts.into_iter().collect();
    let colon = |k: usize| matches!((v.get(k), v.get(k + 1)), (Some(T::Punct(a)), Some(T::Punct(b))) if a.as_char() == ':' && b.as_char() == ':' && a.spacing() == proc_macro2::Spacing::Joint);
    let ident = |k: usize| match v.get(k) { Some(T::Ident(i)) => Some(i.to_string()), _ => None };
    let mut out: Vec<T> = vec![];
    let mut i = 0;
    while i < v.len() {
        let lead = if colon(i) { 2 } else { 0 };
        let before = !out.is_empty() && lead == 0 && i >= 2 && colon(i - 2);
        if !before {
            if let Some(r) = ident(i + lead) {
                if ROOTS.contains(&r.as_str()) && colon(i + lead + 1) {
                    let mut k = i + lead + 3;
                    while let Some(n) = ident(k) {
                        let module = n.chars().next().unwrap().is_lowercase() && !PRIM.contains(&n.as_str()) && n != "text" && n != "bytes" && colon(k + 1);
                        // `f::<T>` is a function, not a module
                        if !module || matches!(v.get(k + 3), Some(T::Punct(p)) if p.as_char() == '<') { break }
                        k += 3;
                    }
                    i = k;
                    continue;
                }
            }
        }
        out.push(match &v[i] { T::Group(g) => { let mut n = Group::new(g.delimiter(), short_paths(g.stream())); n.set_span(g.span()); T::Group(n) } t => t.clone() });
        i += 1;
    }
    out.into_iter().collect()
}
fn strip_path(p: &syn::Path) -> syn::Path {
    let mut p = p.clone();
    p.leading_colon = None;
    let last = p.segments.last().unwrap().clone();
    p.segments = std::iter::once(last).collect();
    p
}
pub fn parse_header(h: &str) -> Result<syn::ItemImpl, String> {
    syn::parse_str::<syn::ItemImpl>(&format!("{} {{}}", h)).map_err(|e| format!("template header `{}`: {}", h, e))
}
pub fn header_key(h: &str) -> String { parse_header(h).map(|i| pretty_key(&i)).unwrap_or(h.to_string()) }
fn pretty_key(it: &syn::ItemImpl) -> String {
    let t = |x: proc_macro2::TokenStream| flat(x).join("");
    match &it.trait_ { Some((_, p, _)) => format!("{} for {}", t(strip_path(p).to_token_stream()), t(it.self_ty.to_token_stream())), None => t(it.self_ty.to_token_stream()) }
}

impl ImplSrc {
    pub fn method(&self, name: &str) -> Result<FnSrc, String> {
        for i in &self.item.items {
            if let syn::ImplItem::Method(m) = i {
                if m.sig.ident == name {
                    let mut consts = text_consts(&self.item.generics);
                    consts.extend(text_consts(&m.sig.generics));
                    let ss = match &*self.item.self_ty { syn::Type::Path(p) => Some(p.path.segments.last().unwrap().ident.to_string()), _ => None };
                    return Ok(FnSrc { sig: m.sig.clone(), block: m.block.clone(), file: self.file.clone(), line: m.sig.span().start().line, consts, self_struct: ss });
                }
            }
        }
        Err(format!("no method `{}` in impl {}", name, self.key))
    }
}

impl Db {
    pub fn load(srcs: &[(String, String)]) -> Result<Db, String> {
        let mut db = Db { impls: vec![], fns: vec![], structs: vec![], enums: vec![], traits: vec![], const_structs: HashSet::new(), contracted: HashSet::new(), quotes: Quotes::default(), macros: HashMap::new() };
        for (area, f) in srcs {
            let text = std::fs::read_to_string(f).map_err(|e| format!("{}: {}", f, e))?;
            let mut file = syn::parse_file(&text).map_err(|e| format!("{}: {}", f, e))?;
            if area == "derive" {
                // expanded code names everything by its full path: keep the last part, which the template has in scope
                let ts = short_paths(file.to_token_stream());
                file = syn::parse2(ts).map_err(|e| format!("{}: {}", f, e))?;
            }
            db.items(area, f, file.items);
        }
        Ok(db)
    }
    fn items(&mut self, area: &str, f: &str, items: Vec<syn::Item>) {
        for it in items {
            match it {
                syn::Item::Impl(i) if !is_test(&i.attrs) => {
                    for x in &i.items { if let syn::ImplItem::Method(m) = x { self.local_items(area, f, &m.block, &i.generics, &i, &m.sig) } }
                    self.impls.push((area.into(), f.into(), i));
                }
                syn::Item::Fn(i) if !is_test(&i.attrs) => self.fns.push((area.into(), f.into(), i)),
                syn::Item::Struct(i) if !is_test(&i.attrs) => {
                    if !text_consts(&i.generics).is_empty() { self.const_structs.insert((area.into(), i.ident.to_string())); }
                    self.structs.push((area.into(), f.into(), i))
                }
                syn::Item::Enum(i) if !is_test(&i.attrs) => self.enums.push((area.into(), f.into(), i)),
                syn::Item::Trait(i) if !is_test(&i.attrs) => self.traits.push((area.into(), f.into(), i)),
                syn::Item::Macro(m) if m.mac.path.is_ident("macro_rules") && m.ident.is_some() => {
                    use proc_macro2::TokenTree as T;
                    let v: Vec<T> = m.mac.tokens.clone().into_iter().collect();
                    // ( pattern ) => { body } ;
                    if let (Some(T::Group(p)), Some(T::Group(b))) = (v.get(0), v.get(3)) {
                        if v.len() <= 5 { self.macros.insert(m.ident.unwrap().to_string(), (p.stream().into_iter().collect(), b.stream())); }
                    }
                }
                syn::Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, its)) = m.content {
                        let a = format!("{}::{}", area, m.ident);
                        self.items(&a, f, its)
                    }
                }
                _ => {}
            }
        }
    }
    /// items declared inside a method body are indexed under "<area>/<self type>::<method>"
    fn local_items(&mut self, area: &str, f: &str, b: &syn::Block, _g: &syn::Generics, im: &syn::ItemImpl, sig: &syn::Signature) {
        let st = flat(im.self_ty.to_token_stream()).join("");
        let st = st.split('<').next().unwrap().to_string();
        let a = format!("{}/{}::{}", area, st, sig.ident);
        let its: Vec<syn::Item> = b.stmts.iter().filter_map(|s| match s { syn::Stmt::Item(i) => Some(i.clone()), _ => None }).collect();
        if !its.is_empty() { self.items(&a, f, its) }
    }
    pub fn find_impl(&self, area: &str, header: &str) -> Result<(ImplSrc, HashMap<String, String>), String> {
        let want = parse_header(header)?;
        let (ck, names) = canon(&want);
        let mut hits = vec![];
        for (a, f, i) in &self.impls {
            if a != area { continue }
            let (k, rn) = canon(i);
            if k == ck { hits.push((f, i, rn)) }
        }
        if hits.is_empty() { return Err(format!("impl not found: {}", header)) }
        let ren: HashMap<String, String> = hits[0].2.iter().cloned().zip(names.iter().cloned()).filter(|(a, b)| a != b).collect();
        // several inherent impl blocks of one type: merge
        let mut item = hits[0].1.clone();
        for h in &hits[1..] { item.items.extend(h.1.items.clone()); }
        Ok((ImplSrc { key: pretty_key(&want), item, file: hits[0].0.clone() }, ren))
    }
    pub fn find_fn(&self, area: &str, name: &str) -> Result<FnSrc, String> {
        for (a, f, i) in &self.fns {
            if a == area && i.sig.ident == name {
                return Ok(FnSrc { sig: i.sig.clone(), block: (*i.block).clone(), file: f.clone(), line: i.sig.span().start().line, consts: text_consts(&i.sig.generics), self_struct: None });
            }
        }
        // trait default method: "Trait.method"
        if let Some((t, m)) = name.split_once("__default__") {
            for (a, f, i) in &self.traits {
                if a == area && i.ident == t {
                    for x in &i.items { if let syn::TraitItem::Method(me) = x { if me.sig.ident == m {
                        if let Some(b) = &me.default {
                            return Ok(FnSrc { sig: me.sig.clone(), block: b.clone(), file: f.clone(), line: me.sig.span().start().line, consts: HashSet::new(), self_struct: None });
                        }
                    } } }
                }
            }
        }
        Err(format!("function not found: {}::{}", area, name))
    }
    pub fn emit_struct(&self, area: &str, name: &str) -> Result<String, String> {
        for (a, _f, s) in &self.structs {
            if a == area && s.ident == name {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                let consts = text_consts(&s.generics);
                let mut g = s.generics.clone();
                for p in g.params.iter_mut() {
                    if let syn::GenericParam::Const(c) = p {
                        if consts.contains(&c.ident.to_string()) {
                            let id = c.ident.clone();
                            let tr: syn::Path = if flat(c.ty.to_token_stream()).contains(&"str".to_string()) { syn::parse_quote!(StrConst) } else { syn::parse_quote!(BytesConst) };
                            *p = syn::GenericParam::Type(syn::parse_quote!(#id: #tr));
                        }
                    }
                }
                s.generics = g;
                for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = syn::parse_quote!(pub); }
                if !consts.is_empty() {
                    let ids: Vec<syn::Ident> = consts.iter().map(|c| syn::Ident::new(c, proc_macro2::Span::call_site())).collect();
                    let ph: syn::Type = syn::parse_quote!(PhantomData<(#(#ids),*)>);
                    match &mut s.fields {
                        syn::Fields::Unnamed(u) => { let fs: Vec<_> = u.unnamed.iter().map(|f| f.ty.clone()).collect(); s.fields = syn::Fields::Unnamed(syn::parse_quote!((#(pub #fs,)* pub #ph))) }
                        syn::Fields::Unit => { s.fields = syn::Fields::Unnamed(syn::parse_quote!((pub #ph))); s.semi_token = Some(Default::default()); }
                        syn::Fields::Named(_) => return Err("named struct with a text const generic".into()),
                    }
                }
                let t = s.to_token_stream().to_string();
                let t = if area == "core" { t.replace("B : Buffer < T >", "B : Buffer0 < T >") } else { t };
                return Ok(t);
            }
        }
        for (a, _f, s) in &self.enums {
            if a == area && s.ident == name {
                let mut s = s.clone(); s.attrs.clear(); s.vis = syn::parse_quote!(pub);
                for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear() } }
                return Ok(s.to_token_stream().to_string());
            }
        }
        Err(format!("struct not found: {}::{}", area, name))
    }
    /// the body derive(Default) gives a struct
    pub fn derived_default(&self, area: &str, name: &str) -> Result<String, String> {
        for (a, _f, s) in &self.structs {
            if a == area && s.ident == name {
                let d = s.attrs.iter().any(|x| x.path.is_ident("derive") && flat(x.tokens.clone()).contains(&"Default".to_string()));
                if !d { return Err("no derive(Default)".into()) }
                let mut fs = vec![];
                for f in &s.fields {
                    let ty = match &f.ty { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => return Err("field type".into()) };
                    let v = match ty.as_str() { "Vec" => "Vec::new()".to_string(), "bool" => "false".into(), "Option" => "None".into(), "usize" => "0".into(), t => format!("{}::default()", t) };
                    fs.push(format!("{}: {}", f.ident.as_ref().ok_or("tuple struct")?, v));
                }
                return Ok(format!("{{ Self {{ {} }} }}", fs.join(", ")));
            }
        }
        Err(format!("struct not found: {}::{}", area, name))
    }
    pub fn check_trait(&self, area: &str, d: &str) -> Result<(), String> {
        let (name, sigs) = d.split_once(':').ok_or("trait directive")?;
        let want: Vec<String> = sigs.split(';').map(|s| s.chars().filter(|c| !c.is_whitespace()).collect()).collect();
        for (a, _f, t) in &self.traits {
            if a == area && t.ident == name.trim() {
                let mut have: Vec<String> = t.items.iter().filter_map(|i| match i {
                    syn::TraitItem::Method(m) => Some(format!("{}{}", flat(m.sig.to_token_stream()).join(""), if m.default.is_some() { "{}" } else { "" })), _ => None }).collect();
                let mut want2 = want.clone(); have.sort(); want2.sort();
                if have != want2 { return Err(format!("trait {} declares {:?}, contract expects {:?}", name, have, want2)) }
                return Ok(());
            }
        }
        Err(format!("trait not found: {}", name))
    }
    /// functions of the sources that no directive claimed
    pub fn uncovered(&self, used: &[(String, usize)]) -> Vec<String> {
        let mut out = vec![];
        let has = |f: &str, l: usize| used.iter().any(|(a, b)| a == f && *b == l);
        for (_, f, i) in &self.fns { if !has(f, i.sig.span().start().line) { out.push(format!("{}:{} fn {}", f, i.sig.span().start().line, i.sig.ident)) } }
        for (_, f, i) in &self.impls { for x in &i.items { if let syn::ImplItem::Method(m) = x {
            if !has(f, m.sig.span().start().line) { out.push(format!("{}:{} {}::{}", f, m.sig.span().start().line, pretty_key(i), m.sig.ident)) }
        } } }
        out
    }
}

impl Db {
    pub fn expand(&self, name: &str, ts: proc_macro2::TokenStream) -> Result<proc_macro2::TokenStream, String> {
        use proc_macro2::{Delimiter, Group, TokenTree as T, TokenStream};
        let (pat, body) = &self.macros[name];
        let inp: Vec<T> = ts.into_iter().collect();
        let dollar = |t: Option<&T>| matches!(t, Some(T::Punct(p)) if p.as_char() == '$');
        let same = |a: &T, b: &T| match (a, b) { (T::Punct(x), T::Punct(y)) => x.as_char() == y.as_char(), (T::Ident(x), T::Ident(y)) => x == y, _ => false };
        let mut m: HashMap<String, TokenStream> = HashMap::new();
        let (mut i, mut j) = (0, 0);
        let bad = || format!("macro {}!: not expanded", name);
        while i < pat.len() {
            if dollar(pat.get(i)) {
                let n = match pat.get(i + 1) { Some(T::Ident(n)) => n.to_string(), _ => return Err(bad()) };
                let k = match pat.get(i + 3) { Some(T::Ident(k)) => k.to_string(), _ => return Err(bad()) };
                i += 4;
                match k.as_str() {
                    "ident" | "tt" => { m.insert(n, std::iter::once(inp.get(j).ok_or_else(bad)?.clone()).collect()); j += 1 }
                    "expr" => {
                        let st = j;
                        while j < inp.len() && !(i < pat.len() && same(&pat[i], &inp[j])) { j += 1 }
                        m.insert(n, std::iter::once(T::Group(Group::new(Delimiter::Parenthesis, inp[st..j].iter().cloned().collect()))).collect());
                    }
                    _ => return Err(bad()),
                }
            } else {
                if j >= inp.len() || !same(&pat[i], &inp[j]) { return Err(bad()) }
                i += 1; j += 1;
            }
        }
        if j != inp.len() { return Err(bad()) }
        fn subst(ts: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
            let v: Vec<T> = ts.into_iter().collect();
            let mut o: Vec<T> = vec![]; let mut i = 0;
            while i < v.len() {
                if let (T::Punct(p), Some(T::Ident(n))) = (&v[i], v.get(i + 1)) { if p.as_char() == '$' { if let Some(x) = m.get(&n.to_string()) { o.extend(x.clone()); i += 2; continue } } }
                o.push(match &v[i] { T::Group(g) => T::Group(Group::new(g.delimiter(), subst(g.stream(), m))), t => t.clone() });
                i += 1;
            }
            o.into_iter().collect()
        }
        Ok(subst(body.clone(), &m))
    }
    /// a free function without a contract, a candidate for inlining
    pub fn inlinable_fn(&self, area: &str, name: &str) -> bool {
        !self.contracted.contains(name) && self.fns.iter().any(|(a, _, i)| (a == area || a == "core") && i.sig.ident == name)
    }
    /// an inherent method that has no contract of its own
    pub fn inherent(&self, area: &str, _implkey: &str, ty: &str, name: &str) -> Option<FnSrc> {
        if self.contracted.contains(name) { return None }
        for (a, f, i) in &self.impls {
            if a != area || i.trait_.is_some() { continue }
            let st = match &*i.self_ty { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => continue };
            if st != ty { continue }
            for x in &i.items { if let syn::ImplItem::Method(m) = x { if m.sig.ident == name {
                let mut consts = text_consts(&i.generics); consts.extend(text_consts(&m.sig.generics));
                return Some(FnSrc { sig: m.sig.clone(), block: m.block.clone(), file: f.clone(), line: m.sig.span().start().line, consts, self_struct: Some(st) });
            } } }
        }
        None
    }
}
