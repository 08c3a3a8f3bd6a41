//! What the definitions mean, worked out from a table of their parts and from nothing else.
use crate::mocks::{conv, lex, lexerr, lexval, text};
use crate::util::Rng;
use std::collections::HashMap;

#[derive(Debug)]
pub enum Comp { Lex(&'static str), Shape(&'static str), Many(&'static Comp), Opt(&'static Comp), Bx(&'static Comp), Arr(&'static Comp, usize) }
#[derive(Debug)]
pub struct Fd { pub label: &'static str, pub comp: Comp, pub conv: Option<&'static str>, pub list: bool, pub sep: Option<Comp>, pub trail: u8, pub prefix: Option<Comp>, pub suffix: Option<Comp> }
#[derive(Debug)]
pub struct Sq { pub name: &'static str, pub kind: u8, pub prefix: Option<Comp>, pub suffix: Option<Comp>, pub fields: &'static [Fd], pub ignore: &'static [Comp] }
#[derive(Debug)]
pub enum Sh { Struct(Sq), Enum { name: &'static str, prefix: Option<Comp>, suffix: Option<Comp>, ignore: &'static [Comp], variants: &'static [Sq] } }

/// which part failed
#[derive(Debug, Clone, PartialEq)]
pub enum Er { Fix(&'static str, &'static str), Field(&'static str, Box<Er>), NoVar(&'static str), Conv(String), Own(String), Any }
/// `Zero`: an ignore type (or a repeated part) succeeds without consuming
#[derive(Debug, Clone, PartialEq)]
pub enum Out { Ok(usize, String), Err(Er), Zero }
type R = Result<(usize, String), Option<Er>>;   // Err(None): zero-width

pub struct Oracle { shapes: HashMap<&'static str, &'static Sh> }
impl Oracle {
    pub fn new() -> Self { Oracle { shapes: crate::shapes::SHAPES.iter().map(|(n, s)| (*n, s)).collect() } }
    pub fn run(&self, shape: &str, s: &[char], peek: bool) -> Out {
        let r = if peek { self.pk_shape(self.shapes[shape], s).map(|n| (n, String::new())) } else { self.shape(self.shapes[shape], s) };
        match r { Ok((n, v)) => Out::Ok(n, v), Err(Some(e)) => Out::Err(e), Err(None) => Out::Zero }
    }
    fn parse(&self, c: &Comp, s: &[char]) -> R {
        match c {
            Comp::Lex(n) => match lex(n, s) { Some(k) => Ok((k, lexval(n, s))), None => Err(Some(Er::Own(lexerr(n)))) },
            Comp::Shape(n) => self.shape(self.shapes[n], s),
            Comp::Bx(c) => self.parse(c, s),
            Comp::Opt(c) => match self.parse(c, s) { Ok((0, _)) => Err(None), Ok((k, v)) => Ok((k, format!("Some({})", v))), Err(None) => Err(None), Err(_) => Ok((0, "None".into())) },
            Comp::Many(c) => { let (mut n, mut v) = (0, vec![]); loop { match self.parse(c, &s[n..]) { Ok((0, _)) | Err(None) => return Err(None), Ok((k, x)) => { n += k; v.push(x) } Err(_) => break } } Ok((n, format!("[{}]", v.join(", ")))) }
            Comp::Arr(c, k) => { let (mut n, mut v) = (0, vec![]); for _ in 0..*k { match self.parse(c, &s[n..]) { Ok((k, x)) => { n += k; v.push(x) } Err(None) => return Err(None), Err(_) => return Err(Some(Er::Any)) } } Ok((n, format!("[{}]", v.join(", ")))) }
        }
    }
    fn peek(&self, c: &Comp, s: &[char]) -> Result<usize, Option<Er>> {
        match c {
            Comp::Lex(n) => lex(n, s).ok_or(Some(Er::Any)),
            Comp::Shape(n) => self.pk_shape(self.shapes[n], s),
            Comp::Bx(c) => self.peek(c, s),
            Comp::Opt(c) => match self.peek(c, s) { Ok(0) | Err(None) => Err(None), Ok(k) => Ok(k), Err(_) => Ok(0) },
            Comp::Many(c) => { let mut n = 0; loop { match self.peek(c, &s[n..]) { Ok(0) | Err(None) => return Err(None), Ok(k) => n += k, Err(_) => break } } Ok(n) }
            Comp::Arr(c, k) => { let mut n = 0; for _ in 0..*k { n += self.peek(c, &s[n..])?; } Ok(n) }
        }
    }
    /// the longest run of ignored items
    fn skip(&self, ig: &[&Comp], s: &[char]) -> Result<usize, Option<Er>> {
        let mut n = 0;
        'l: loop {
            for i in ig { match self.peek(i, &s[n..]) { Ok(0) | Err(None) => return Err(None), Ok(k) => { n += k; continue 'l } Err(_) => {} } }
            return Ok(n);
        }
    }
    fn list(&self, f: &Fd, conv_to: Option<&'static str>, ig: &[&Comp], s: &[char]) -> Result<(usize, Vec<String>), Option<Er>> {
        let cv = |v: String| match conv_to { Some(c) => conv(c, &v).map_err(|m| Some(Er::Conv(m))), None => Ok(v) };
        // an element at `at`
        let el = |at: usize| -> Result<Option<(usize, String)>, Option<Er>> { match self.parse(&f.comp, &s[at..]) { Ok((k, v)) => Ok(Some((at + k, v))), Err(None) => Err(None), Err(_) => Ok(None) } };
        let sp = |at: usize| -> Result<Option<usize>, Option<Er>> { match self.peek(f.sep.as_ref().unwrap(), &s[at..]) { Ok(k) => Ok(Some(at + k)), Err(None) => Err(None), Err(_) => Ok(None) } };
        let ig = |at: usize| -> Result<usize, Option<Er>> { Ok(at + self.skip(ig, &s[at..])?) };
        let mut vals = vec![];
        match (&f.sep, f.trail) {
            (None, _) => {
                let mut end = match el(0)? { Some((e, v)) => { vals.push(cv(v)?); e } None => return Ok((0, vals)) };
                loop { match el(ig(end)?)? { Some((e, v)) => { vals.push(cv(v)?); end = e } None => return Ok((end, vals)) } }
            }
            (_, 0) => {
                let mut end = match el(0)? { Some((e, v)) => { vals.push(cv(v)?); e } None => return Ok((0, vals)) };
                loop {
                    let b = match sp(ig(end)?)? { Some(b) => b, None => return Ok((end, vals)) };
                    match el(ig(b)?)? { Some((e, v)) => { vals.push(cv(v)?); end = e } None => return Ok((end, vals)) }
                }
            }
            (_, 1) => {
                // element, separator; behind the last separator and what is ignored after it
                let mut end = 0;
                loop {
                    let (e, v) = match el(end)? { Some(x) => x, None => return Ok((end, vals)) };
                    match sp(ig(e)?)? { Some(b) => { vals.push(cv(v)?); end = ig(b)? } None => return Ok((end, vals)) }
                }
            }
            _ => {
                let mut end = 0;
                loop {
                    let (e, v) = match el(end)? { Some(x) => x, None => return Ok((end, vals)) };
                    vals.push(cv(v)?);
                    match sp(ig(e)?)? { Some(b) => end = ig(b)?, None => return Ok((e, vals)) }
                }
            }
        }
    }
    fn seq(&self, q: &Sq, s: &[char]) -> R {
        let ig: Vec<&Comp> = q.ignore.iter().collect();
        let mut n = 0; let mut vals = vec![];
        let fix = |c: &Option<Comp>, e: Er, n: &mut usize| -> Result<(), Option<Er>> {
            if let Some(c) = c { match self.peek(c, &s[*n..]) { Ok(k) => { *n += k; *n += self.skip(&ig, &s[*n..])?; Ok(()) } Err(None) => Err(None), Err(_) => Err(Some(e)) } } else { Ok(()) } };
        fix(&q.prefix, Er::Fix("prefix", q.name), &mut n)?;
        for f in q.fields {
            fix(&f.prefix, Er::Fix("prefix", f.label), &mut n)?;
            let (k, v) = if f.list { let (k, v) = self.list(f, f.conv, &ig, &s[n..])?; (k, format!("[{}]", v.join(", "))) } else {
                let (k, v) = match self.parse(&f.comp, &s[n..]) { Ok(x) => x, Err(None) => return Err(None), Err(Some(e)) => return Err(Some(Er::Field(f.label, Box::new(e)))) };
                (k, match f.conv { Some(c) => conv(c, &v).map_err(|m| Some(Er::Conv(m)))?, None => v })
            };
            n += k; n += self.skip(&ig, &s[n..])?;
            vals.push(v);
            fix(&f.suffix, Er::Fix("suffix", f.label), &mut n)?;
        }
        fix(&q.suffix, Er::Fix("suffix", q.name), &mut n)?;
        let v = match q.kind { 0 => format!("{} {{ {} }}", q.name, q.fields.iter().zip(&vals).map(|(f, v)| format!("{}: {}", f.label, v)).collect::<Vec<_>>().join(", ")), 1 => format!("{}({})", q.name, vals.join(", ")), _ => q.name.to_string() };
        Ok((n, v))
    }
    fn pk_seq(&self, q: &Sq, s: &[char]) -> Result<usize, Option<Er>> {
        let ig: Vec<&Comp> = q.ignore.iter().collect();
        let mut n = 0;
        let fix = |c: &Option<Comp>, n: &mut usize| -> Result<(), Option<Er>> { if let Some(c) = c { *n += self.peek(c, &s[*n..])?; *n += self.skip(&ig, &s[*n..])?; } Ok(()) };
        fix(&q.prefix, &mut n)?;
        for f in q.fields {
            fix(&f.prefix, &mut n)?;
            n += if f.list { self.list(f, None, &ig, &s[n..])?.0 } else { self.peek(&f.comp, &s[n..])? };
            n += self.skip(&ig, &s[n..])?;
            fix(&f.suffix, &mut n)?;
        }
        fix(&q.suffix, &mut n)?;
        Ok(n)
    }
    fn shape(&self, sh: &Sh, s: &[char]) -> R {
        match sh {
            Sh::Struct(q) => self.seq(q, s),
            Sh::Enum { name, prefix, suffix, ignore, variants } => {
                let ig: Vec<&Comp> = ignore.iter().collect();
                let mut n = 0;
                if let Some(c) = prefix { match self.peek(c, s) { Ok(k) => { n += k; n += self.skip(&ig, &s[n..])? } Err(None) => return Err(None), Err(_) => return Err(Some(Er::Fix("prefix", name))) } }
                let mut hit = None;
                for q in *variants { match self.seq(q, &s[n..]) { Ok(x) => { hit = Some(x); break } Err(None) => return Err(None), Err(_) => {} } }
                let (k, v) = match hit { Some(x) => x, None => return Err(Some(Er::NoVar(name))) };
                n += k;
                if let Some(c) = suffix { match self.peek(c, &s[n..]) { Ok(k) => { n += k; n += self.skip(&ig, &s[n..])? } Err(None) => return Err(None), Err(_) => return Err(Some(Er::Fix("suffix", name))) } }
                Ok((n, v))
            }
        }
    }
    fn pk_shape(&self, sh: &Sh, s: &[char]) -> Result<usize, Option<Er>> {
        match sh {
            Sh::Struct(q) => self.pk_seq(q, s),
            Sh::Enum { prefix, suffix, ignore, variants, .. } => {
                let ig: Vec<&Comp> = ignore.iter().collect();
                let mut n = 0;
                if let Some(c) = prefix { n += self.peek(c, s)?; n += self.skip(&ig, &s[n..])? }
                let mut hit = None;
                for q in *variants { match self.pk_seq(q, &s[n..]) { Ok(x) => { hit = Some(x); break } Err(None) => return Err(None), Err(_) => {} } }
                n += hit.ok_or(Some(Er::Any))?;
                if let Some(c) = suffix { n += self.peek(c, &s[n..])?; n += self.skip(&ig, &s[n..])? }
                Ok(n)
            }
        }
    }
    // ---- texts made from the grammar
    pub fn text(&self, shape: &str, r: &mut Rng) -> String { let mut o = String::new(); self.t_shape(self.shapes[shape], r, &mut o, 0); o }
    fn t_comp(&self, c: &Comp, r: &mut Rng, o: &mut String, d: usize) {
        match c {
            Comp::Lex(n) => o.push_str(text(n, r.below(5))),
            Comp::Shape(n) => if d < 5 { self.t_shape(self.shapes[n], r, o, d + 1) },
            Comp::Bx(c) => self.t_comp(c, r, o, d),
            Comp::Opt(c) => if r.below(2) == 0 { self.t_comp(c, r, o, d) },
            Comp::Many(c) => { for _ in 0..r.below(if d > 3 { 1 } else { 4 }) { self.t_comp(c, r, o, d) } }
            Comp::Arr(c, n) => { for _ in 0..*n { self.t_comp(c, r, o, d) } }
        }
    }
    fn t_ig(&self, ig: &[Comp], r: &mut Rng, o: &mut String, d: usize) { if !ig.is_empty() && r.below(3) == 0 { for _ in 0..1 + r.below(2) { let k = r.below(ig.len()); self.t_comp(&ig[k], r, o, d) } } }
    fn t_seq(&self, q: &Sq, r: &mut Rng, o: &mut String, d: usize) {
        if let Some(c) = &q.prefix { self.t_comp(c, r, o, d); self.t_ig(q.ignore, r, o, d) }
        for f in q.fields {
            if let Some(c) = &f.prefix { self.t_comp(c, r, o, d); self.t_ig(q.ignore, r, o, d) }
            if f.list {
                let n = r.below(if d > 2 { 2 } else { 4 });
                for k in 0..n {
                    self.t_comp(&f.comp, r, o, d); self.t_ig(q.ignore, r, o, d);
                    if let Some(s) = &f.sep { if k + 1 < n || f.trail == 1 || (f.trail == 2 && r.below(2) == 0) || r.below(8) == 0 { self.t_comp(s, r, o, d); self.t_ig(q.ignore, r, o, d) } }
                }
            } else { self.t_comp(&f.comp, r, o, d) }
            self.t_ig(q.ignore, r, o, d);
            if let Some(c) = &f.suffix { self.t_comp(c, r, o, d); self.t_ig(q.ignore, r, o, d) }
        }
        if let Some(c) = &q.suffix { self.t_comp(c, r, o, d); self.t_ig(q.ignore, r, o, d) }
    }
    fn t_shape(&self, sh: &Sh, r: &mut Rng, o: &mut String, d: usize) {
        match sh {
            Sh::Struct(q) => self.t_seq(q, r, o, d),
            Sh::Enum { prefix, suffix, ignore, variants, .. } => {
                if let Some(c) = prefix { self.t_comp(c, r, o, d); self.t_ig(ignore, r, o, d) }
                let k = r.below(variants.len()); self.t_seq(&variants[k], r, o, d);
                if let Some(c) = suffix { self.t_comp(c, r, o, d); self.t_ig(ignore, r, o, d) }
            }
        }
    }
    /// the characters the shape's own parts are made of
    pub fn alphabet(&self, shape: &str) -> Vec<char> { let mut o = String::new(); let mut seen = vec![]; self.a_shape(self.shapes[shape], &mut o, &mut seen); let mut v: Vec<char> = o.chars().collect(); v.sort_unstable(); v.dedup(); v }
    fn a_comp(&self, c: &Comp, o: &mut String, seen: &mut Vec<*const Sh>) {
        match c { Comp::Lex("AN") => o.push_str("abn"), Comp::Lex("Z") => o.push('b'), Comp::Lex(n) => o.push_str(text(n, 0)), Comp::Shape(n) => self.a_shape(self.shapes[n], o, seen), Comp::Bx(c) | Comp::Opt(c) | Comp::Many(c) | Comp::Arr(c, _) => self.a_comp(c, o, seen) }
    }
    fn a_seq(&self, q: &Sq, o: &mut String, seen: &mut Vec<*const Sh>) {
        for c in q.prefix.iter().chain(&q.suffix).chain(q.ignore) { self.a_comp(c, o, seen) }
        for f in q.fields { self.a_comp(&f.comp, o, seen); for c in f.prefix.iter().chain(&f.suffix).chain(&f.sep) { self.a_comp(c, o, seen) } }
    }
    fn a_shape(&self, sh: &'static Sh, o: &mut String, seen: &mut Vec<*const Sh>) {
        if seen.contains(&(sh as *const Sh)) { return } seen.push(sh);
        match sh { Sh::Struct(q) => self.a_seq(q, o, seen), Sh::Enum { prefix, suffix, ignore, variants, .. } => { for c in prefix.iter().chain(suffix).chain(*ignore) { self.a_comp(c, o, seen) } for q in *variants { self.a_seq(q, o, seen) } } }
    }
}
/// does the chain of messages say that this part failed?
pub fn says(e: &Er, chain: &[String]) -> Result<(), String> {
    let first = match chain.first() { Some(f) => f.clone(), None => return Err("an empty error".into()) };
    let word = |w: &str| first.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == w);
    match e {
        Er::Any => Ok(()),
        Er::Own(m) => if chain.len() == 1 && &first == m { Ok(()) } else { Err(format!("expected the component's own error {:?}", m)) },
        Er::Conv(m) => if chain.last() == Some(m) { Ok(()) } else { Err(format!("expected the conversion's error {:?}", m)) },
        Er::Fix(w, n) => { let o = if *w == "prefix" { "suffix" } else { "prefix" }; if word(w) && word(n) && !word(o) { Ok(()) } else { Err(format!("expected the {} of `{}` to be named", w, n)) } }
        Er::NoVar(n) => if word(n) && (word("variants") || word("variant")) { Ok(()) } else { Err(format!("expected: no variant of `{}` could be parsed", n)) },
        Er::Field(n, c) => if !word(n) || word("prefix") || word("suffix") { Err(format!("expected field `{}` to be named", n)) } else { says(c, &chain[1..]).map_err(|m| format!("{} as the cause of field `{}`'s error", m, n)) },
    }
}
