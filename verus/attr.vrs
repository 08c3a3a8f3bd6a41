// Contracts of nommy-derive/src/attr.rs.  The items of syn and proc_macro2 it works on are opaque here:
// what is marked external_body states what is assumed of them.
#![allow(unused_imports, unused_variables, unused_mut, unused_parens, dead_code, unused_braces, non_camel_case_types, unused_must_use, unreachable_code, unused_assignments, irrefutable_let_patterns, unreachable_patterns)]
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {

// ---------------------------------------------------------------- standard library pieces
#[verifier::external_body]
pub fn clone_<T: Clone>(t: &T) -> (r: T) ensures r == *t { t.clone() }
pub fn vec1_<T>(t: T) -> (r: Vec<T>) ensures r@ == seq![t] { let mut v = Vec::new(); v.push(t); v }
#[verifier::external_body]
pub fn ext_slice_<T: Clone>(v: &mut Vec<T>, s: &Vec<T>) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s) }
#[verifier::external_body]
pub fn swap_<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { std::mem::swap(a, b) }
pub trait Fresh: Sized { spec fn is_fresh(&self) -> bool; }
#[verifier::external_body]
pub fn take_<T: Fresh>(a: &mut T) -> (r: T) ensures r == *old(a), final(a).is_fresh() { unimplemented!() }
#[verifier::external_body]
pub fn replace_<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { std::mem::replace(a, b) }
#[verifier::external_body]
pub fn unreached_() -> ! requires false ensures false { unimplemented!() }
pub fn panic_() -> ! requires false ensures false { unreached_() }
pub trait Unwrap { type O; spec fn has(&self) -> bool; spec fn get_(&self) -> Self::O; fn unwrap__(self) -> (r: Self::O) requires self.has() ensures r == self.get_(); }
impl<T> Unwrap for Option<T> { type O = T; open spec fn has(&self) -> bool { *self is Some } open spec fn get_(&self) -> T { self->0 }
    fn unwrap__(self) -> (r: T) { match self { Some(v) => v, None => unreached_() } } }
pub fn unwrap_<U: Unwrap>(u: U) -> (r: U::O) requires u.has() ensures r == u.get_() { u.unwrap__() }
pub fn into_report_(e: syn::Error) -> (r: syn::Error) ensures r == e { e }
pub trait EqStr { fn eq_str_(&self, s: &str) -> (r: bool) ensures r == (self.text_() == s@); spec fn text_(&self) -> Seq<char>; }
impl EqStr for String { open spec fn text_(&self) -> Seq<char> { self@ } #[verifier::external_body] fn eq_str_(&self, s: &str) -> (r: bool) { self.as_str() == s } }
impl EqStr for &str { open spec fn text_(&self) -> Seq<char> { self@ } #[verifier::external_body] fn eq_str_(&self, s: &str) -> (r: bool) { *self == s } }
impl EqStr for proc_macro2::Ident { open spec fn text_(&self) -> Seq<char> { self.name() } #[verifier::external_body] fn eq_str_(&self, s: &str) -> (r: bool) { unimplemented!() } }

/// what a `for` loop runs over
pub trait Iter_: Sized { type It; spec fn left(it: Self::It) -> Seq<Self::Item_>; type Item_; spec fn items_(self) -> Seq<Self::Item_>; fn iter_(self) -> (r: Self::It) ensures Self::left(r) == self.items_(); }
pub fn iter_<I: Iter_>(i: I) -> (r: I::It) ensures I::left(r) == i.items_() { i.iter_() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecIter<T> { _p: PhantomData<T> }
impl<T> VecIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map_<U, C: Fn(T) -> U>(self, f: C) -> (r: VecIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), r@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: Self) ensures r@ == Seq::new(self@.len(), |i: int| self@[self@.len() - 1 - i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VecIter<(usize, T)>) ensures self@.len() <= usize::MAX, r@ == Seq::new(self@.len(), |i: int| (i as usize, self@[i])) { unimplemented!() }
}
impl<T> Iter_ for Vec<T> { type It = VecIter<T>; type Item_ = T; open spec fn left(it: VecIter<T>) -> Seq<T> { it@ } open spec fn items_(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn iter_(self) -> (r: VecIter<T>) { unimplemented!() } }
impl<T> Iter_ for VecIter<T> { type It = VecIter<T>; type Item_ = T; open spec fn left(it: VecIter<T>) -> Seq<T> { it@ } open spec fn items_(self) -> Seq<T> { self@ } fn iter_(self) -> (r: VecIter<T>) { self } }
impl Iter_ for proc_macro2::TokenStream { type It = proc_macro2::token_stream::IntoIter; type Item_ = TokenTree; open spec fn left(it: proc_macro2::token_stream::IntoIter) -> Seq<TokenTree> { it@ } open spec fn items_(self) -> Seq<TokenTree> { self@ }
    fn iter_(self) -> (r: proc_macro2::token_stream::IntoIter) { self.into_iter() } }
impl Iter_ for proc_macro2::token_stream::IntoIter { type It = proc_macro2::token_stream::IntoIter; type Item_ = TokenTree; open spec fn left(it: proc_macro2::token_stream::IntoIter) -> Seq<TokenTree> { it@ } open spec fn items_(self) -> Seq<TokenTree> { self@ }
    fn iter_(self) -> (r: proc_macro2::token_stream::IntoIter) { self } }

impl<'b, T> Iter_ for &'b [T] { type It = VecIter<&'b T>; type Item_ = &'b T; open spec fn left(it: VecIter<&'b T>) -> Seq<&'b T> { it@ } open spec fn items_(self) -> Seq<&'b T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body] fn iter_(self) -> (r: VecIter<&'b T>) { unimplemented!() } }
impl<'b, 'c, T> Iter_ for &'c &'b [T] { type It = VecIter<&'b T>; type Item_ = &'b T; open spec fn left(it: VecIter<&'b T>) -> Seq<&'b T> { it@ } open spec fn items_(self) -> Seq<&'b T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body] fn iter_(self) -> (r: VecIter<&'b T>) { unimplemented!() } }
impl<'b, T> Iter_ for &'b Vec<T> { type It = VecIter<&'b T>; type Item_ = &'b T; open spec fn left(it: VecIter<&'b T>) -> Seq<&'b T> { it@ } open spec fn items_(self) -> Seq<&'b T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body] fn iter_(self) -> (r: VecIter<&'b T>) { unimplemented!() } }
impl<'b, 'c, T> Iter_ for &'c &'b Vec<T> { type It = VecIter<&'b T>; type Item_ = &'b T; open spec fn left(it: VecIter<&'b T>) -> Seq<&'b T> { it@ } open spec fn items_(self) -> Seq<&'b T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body] fn iter_(self) -> (r: VecIter<&'b T>) { unimplemented!() } }
/// equality of the derive's optional settings that are plain data
pub fn opt_eq_(a: &Option<bool>, b: &Option<bool>) -> (r: bool) ensures r == (*a == *b)
{ match (a, b) { (Some(x), Some(y)) => *x == *y, (None, None) => true, _ => false } }
#[verifier::external_body]
pub struct TypeText { _p: () }
impl TypeText { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }

// ---------------------------------------------------------------- proc_macro2
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Delimiter { Parenthesis, Brace, Bracket, None }
pub mod proc_macro2 {
    use vstd::prelude::*;
    pub use super::Delimiter;
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct Span { _p: () }
    #[verifier::external_body]
    pub struct Group { _p: () }
    impl Group {
        pub uninterp spec fn delim(&self) -> Delimiter;
        pub uninterp spec fn inner(&self) -> Seq<TokenTree>;
        #[verifier::external_body] pub fn delimiter(&self) -> (r: Delimiter) ensures r == self.delim() { unimplemented!() }
        #[verifier::external_body] pub fn stream(&self) -> (r: TokenStream) ensures r@ == self.inner() { unimplemented!() }
        #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Ident { _p: () }
    impl Ident {
        pub uninterp spec fn name(&self) -> Seq<char>;
        #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.name() { unimplemented!() }
        #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() }
    }
    impl Clone for Ident { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    #[verifier::external_body]
    pub struct Punct { _p: () }
    impl Punct {
        pub uninterp spec fn ch(&self) -> char;
        #[verifier::external_body] pub fn as_char(&self) -> (r: char) ensures r == self.ch() { unimplemented!() }
        #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Literal { _p: () }
    impl Literal {
        pub uninterp spec fn text(&self) -> Seq<char>;
        #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
        #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() }
    }
    pub enum TokenTree { Group(Group), Ident(Ident), Punct(Punct), Literal(Literal) }
    impl TokenTree { #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() } }
    /// `toks`: the tokens; `prog_`: the statements of code quoted by the generator
    pub trait Tokens { spec fn toks(self) -> Seq<TokenTree>; spec fn prog_(self) -> Seq<super::Stmt>; }
    impl Tokens for Vec<TokenTree> { uninterp spec fn prog_(self) -> Seq<super::Stmt>; open spec fn toks(self) -> Seq<TokenTree> { self@ } }
    impl Tokens for TokenStream { open spec fn prog_(self) -> Seq<super::Stmt> { self.prog() } open spec fn toks(self) -> Seq<TokenTree> { self@ } }
    impl Tokens for token_stream::IntoIter { uninterp spec fn prog_(self) -> Seq<super::Stmt>; open spec fn toks(self) -> Seq<TokenTree> { self@ } }
    impl Tokens for Option<TokenTree> { uninterp spec fn prog_(self) -> Seq<super::Stmt>; open spec fn toks(self) -> Seq<TokenTree> { match self { Some(t) => seq![t], None => seq![] } } }
    impl<const N: usize> Tokens for [TokenTree; N] { uninterp spec fn prog_(self) -> Seq<super::Stmt>; open spec fn toks(self) -> Seq<TokenTree> { self@ } }
    #[verifier::external_body]
    pub struct TokenStream { _p: () }
    impl TokenStream {
        pub uninterp spec fn view(&self) -> Seq<TokenTree>;
        /// the statements it holds, when the generator quoted it
        pub uninterp spec fn prog(&self) -> Seq<super::Stmt>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<TokenTree>::empty(), r.prog() == Seq::<super::Stmt>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Seq::<TokenTree>::empty(), r.prog() == Seq::<super::Stmt>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
        #[verifier::external_body] pub fn into_iter(self) -> (r: token_stream::IntoIter) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn extend<I: Tokens>(&mut self, i: I) ensures final(self)@ == old(self)@ + i.toks(), final(self).prog() == old(self).prog() + i.prog_() { unimplemented!() }
    }
    impl Clone for TokenStream { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl super::Fresh for TokenStream { open spec fn is_fresh(&self) -> bool { self@ == Seq::<TokenTree>::empty() && self.prog() == Seq::<super::Stmt>::empty() } }
    pub mod token_stream {
        use vstd::prelude::*;
        use super::*;
        #[verifier::external_body]
        pub struct IntoIter { _p: () }
        impl IntoIter {
            pub uninterp spec fn view(&self) -> Seq<TokenTree>;
            #[verifier::external_body]
            pub fn next(&mut self) -> (r: Option<TokenTree>)
                ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
                    old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
            { unimplemented!() }
        }
    }
}
pub use proc_macro2::{Span, TokenStream, TokenTree};

// ---------------------------------------------------------------- syn
pub mod syn {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct Error { _p: () }
    impl Error {
        #[verifier::external_body] pub fn new(s: Span, m: &str) -> (r: Error) { unimplemented!() }
        #[verifier::external_body] pub fn new_spanned<T>(t: T, m: &str) -> (r: Error) { unimplemented!() }
    }
    pub type Result<T> = core::result::Result<T, Error>;
    pub use super::proc_macro2::Ident;
    #[verifier::external_body]
    pub struct Type { _p: () }
    impl Type { #[verifier::external_body] #[allow(non_snake_case)] pub fn Path(p: TypePath) -> (r: Type) ensures r == super::path_type(p) { unimplemented!() } }
    impl Type { #[verifier::external_body] pub fn to_token_stream(&self) -> (r: super::TypeText) { unimplemented!() } }
    impl Clone for Type { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    #[verifier::external_body]
    pub struct Expr { _p: () }
    impl Clone for Expr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    /// what a piece of source text means, when it means anything
    pub trait Parse: Sized { spec fn of(s: Seq<TokenTree>) -> Option<Self>; }
    impl Parse for Type { uninterp spec fn of(s: Seq<TokenTree>) -> Option<Self>; }
    impl Parse for Expr { uninterp spec fn of(s: Seq<TokenTree>) -> Option<Self>; }
    #[verifier::external_body]
    pub fn parse2<T: Parse>(s: TokenStream) -> (r: Result<T>) ensures r is Ok <==> T::of(s@) is Some, r is Ok ==> r->Ok_0 == T::of(s@)->0 { unimplemented!() }
    pub struct Path { pub leading_colon: Option<super::Rest>, pub segments: super::Punctuated<PathSegment> }
    impl Path {
        pub uninterp spec fn ident(&self) -> Option<Seq<char>>;
        #[verifier::external_body] pub fn is_ident(&self, s: &str) -> (r: bool) ensures r == (self.ident() == Some(s@)) { unimplemented!() }
    }
    pub struct Attribute { pub path: Path, pub tokens: TokenStream }
    pub use super::tree::{Data, DataEnum, DataStruct, DeriveInput, Field, Fields, FieldsNamed, FieldsUnnamed, Generics, PathSegment, TypeParam, TypePath, Variant};
    pub mod punctuated { pub use super::super::tree::Punctuated; }
}
pub type TT = TokenTree;

// ================================================================ what the settings mean
//@area attr
//@struct GlobalAttr
//@struct FieldAttr
//@struct VecFieldAttr
impl GlobalAttr {
//@default GlobalAttr | ensures r.st() == g_none()
    pub open spec fn st(&self) -> G { G { ignore: self.ignore@, debug: self.debug, prefix: self.prefix, suffix: self.suffix, parse_type: self.parse_type } }
}
impl FieldAttr {
//@default FieldAttr | ensures r.st() == f_none()
    pub open spec fn st(&self) -> F { F { prefix: self.prefix, suffix: self.suffix, parser: self.parser, elem: self.vec.parser, sep: self.vec.seperated_by, trailing: self.vec.trailing,
        count: self.vec.count, min: self.vec.min, max: self.vec.max } }
}
impl VecFieldAttr {
    /// as the settings of a field
    pub open spec fn sv(&self) -> F { F { prefix: None, suffix: None, parser: None, elem: self.parser, sep: self.seperated_by, trailing: self.trailing, count: self.count, min: self.min, max: self.max } }
//@default VecFieldAttr | ensures r.count is None, r.min is None, r.max is None, r.parser is None, r.seperated_by is None, r.trailing is None
}
/// what the settings of a type or variant come to
pub struct G { pub ignore: Seq<syn::Type>, pub debug: bool, pub prefix: Option<syn::Type>, pub suffix: Option<syn::Type>, pub parse_type: Option<syn::Type> }
pub open spec fn g_none() -> G { G { ignore: Seq::empty(), debug: false, prefix: None, suffix: None, parse_type: None } }
/// what the settings of a field come to
pub struct F { pub prefix: Option<syn::Type>, pub suffix: Option<syn::Type>, pub parser: Option<syn::Type>, pub elem: Option<syn::Type>, pub sep: Option<syn::Type>, pub trailing: Option<bool>,
    pub count: Option<syn::Expr>, pub min: Option<syn::Expr>, pub max: Option<syn::Expr> }
pub open spec fn f_none() -> F { F { prefix: None, suffix: None, parser: None, elem: None, sep: None, trailing: None, count: None, min: None, max: None } }

pub open spec fn is_punct(t: TT, c: char) -> bool { t matches TokenTree::Punct(p) && p.ch() == c }
/// `= type`
pub open spec fn type_of(s: Seq<TT>) -> Option<syn::Type> { if s.len() > 0 && is_punct(s[0], '=') { <syn::Type as syn::Parse>::of(s.skip(1)) } else { None } }
/// `= "yes"`, `= "no"`, `= "maybe"`; nothing at all leaves the setting as it is
pub open spec fn trailing_of(s: Seq<TT>, old: Option<bool>) -> Option<Option<bool>> {
    if s.len() == 0 { Some(old) }
    else if s.len() == 2 && is_punct(s[0], '=') {
        match s[1] {
            TokenTree::Literal(l) => if l.text() == "\"yes\""@ { Some(Some(true)) } else if l.text() == "\"no\""@ { Some(None) } else if l.text() == "\"maybe\""@ { Some(Some(false)) } else { None },
            _ => None,
        }
    } else { None }
}
/// one setting, `name …`; None when it is malformed
pub open spec fn g_set(g: G, s: Seq<TT>) -> Option<G> {
    if s.len() == 0 { None } else { match s[0] {
        TokenTree::Ident(i) => {
            let t = type_of(s.skip(1));
            if i.name() == "debug"@ { Some(G { debug: true, ..g }) }
            else if t is None { None }
            else if i.name() == "ignore"@ { Some(G { ignore: g.ignore.push(t->0), ..g }) }
            else if i.name() == "prefix"@ { Some(G { prefix: t, ..g }) }
            else if i.name() == "suffix"@ { Some(G { suffix: t, ..g }) }
            else if i.name() == "parse_type"@ { Some(G { parse_type: t, ..g }) }
            else { None }
        }
        _ => None,
    } }
}
pub open spec fn f_set(f: F, s: Seq<TT>) -> Option<F> {
    if s.len() == 0 { None } else { match s[0] {
        TokenTree::Ident(i) => {
            let t = type_of(s.skip(1));
            if i.name() == "trailing"@ { match trailing_of(s.skip(1), f.trailing) { Some(x) => Some(F { trailing: x, ..f }), None => None } }
            else if t is None { None }
            else if i.name() == "prefix"@ { Some(F { prefix: t, ..f }) }
            else if i.name() == "suffix"@ { Some(F { suffix: t, ..f }) }
            else if i.name() == "parser"@ { Some(F { parser: t, ..f }) }
            else if i.name() == "inner_parser"@ { Some(F { elem: t, ..f }) }
            else if i.name() == "seperated_by"@ { Some(F { sep: t, ..f }) }
            else { None }
        }
        _ => None,
    } }
}
/// settings one after another
pub open spec fn g_all(g: G, ss: Seq<Seq<TT>>) -> Option<G> decreases ss.len() {
    if ss.len() == 0 { Some(g) } else { match g_all(g, ss.drop_last()) { Some(x) => g_set(x, ss.last()), None => None } }
}
pub open spec fn f_all(f: F, ss: Seq<Seq<TT>>) -> Option<F> decreases ss.len() {
    if ss.len() == 0 { Some(f) } else { match f_all(f, ss.drop_last()) { Some(x) => f_set(x, ss.last()), None => None } }
}
/// a parenthesised list is cut at its commas
pub open spec fn split(s: Seq<TT>) -> Seq<Seq<TT>> decreases s.len() {
    if s.len() == 0 { seq![seq![]] }
    else { let p = split(s.drop_last()); if is_punct(s.last(), ',') { p.push(seq![]) } else { p.drop_last().push(p.last().push(s.last())) } }
}
pub open spec fn is_paren(t: TT) -> bool { t matches TokenTree::Group(g) && g.delim() == Delimiter::Parenthesis }
/// the settings of one attribute: those of its parenthesised lists in order; None when there is anything else
pub open spec fn settings1(s: Seq<TT>) -> Option<Seq<Seq<TT>>> decreases s.len() {
    if s.len() == 0 { Some(seq![]) }
    else { match settings1(s.drop_last()) { Some(p) if is_paren(s.last()) => Some(p + split(s.last()->Group_0.inner())), _ => None } }
}
pub open spec fn is_ours(a: syn::Attribute) -> bool { a.path.ident() == Some("nommy"@) }
/// the settings of an item: those of its `nommy` attributes in order
pub open spec fn settings(a: Seq<syn::Attribute>) -> Option<Seq<Seq<TT>>> decreases a.len() {
    if a.len() == 0 { Some(seq![]) }
    else { match (settings(a.drop_last()), is_ours(a.last())) {
        (Some(p), true) => match settings1(a.last().tokens@) { Some(q) => Some(p + q), None => None },
        (Some(p), false) => Some(p),
        (None, _) => None,
    } }
}
pub open spec fn g_of(g: G, ss: Option<Seq<Seq<TT>>>) -> Option<G> { match ss { Some(ss) => g_all(g, ss), None => None } }
pub open spec fn f_of(f: F, ss: Option<Seq<Seq<TT>>>) -> Option<F> { match ss { Some(ss) => f_all(f, ss), None => None } }

// ---------------------------------------------------------------- lemmas
pub proof fn g_all_add(g: G, a: Seq<Seq<TT>>, b: Seq<Seq<TT>>)
    ensures g_all(g, a + b) == (match g_all(g, a) { Some(x) => g_all(x, b), None => None })
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { g_all_add(g, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn f_all_add(g: F, a: Seq<Seq<TT>>, b: Seq<Seq<TT>>)
    ensures f_all(g, a + b) == (match f_all(g, a) { Some(x) => f_all(x, b), None => None })
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { f_all_add(g, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn split_len(s: Seq<TT>) ensures split(s).len() > 0 decreases s.len() { if s.len() > 0 { split_len(s.drop_last()); } }
pub proof fn split_add(a: Seq<TT>, c: TT, b: Seq<TT>)
    requires is_punct(c, ',')
    ensures split(a.push(c) + b) == split(a) + split(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a.push(c) + b =~= a.push(c)); assert(a.push(c).drop_last() =~= a);
        assert(split(a) + split(b) =~= split(a).push(seq![]));
    } else {
        split_add(a, c, b.drop_last()); split_len(b.drop_last()); split_len(a);
        let s = a.push(c) + b;
        assert(s.drop_last() =~= a.push(c) + b.drop_last()); assert(s.last() == b.last());
        let p = split(b.drop_last()); let q = split(a);
        if is_punct(b.last(), ',') { assert((q + p).push(seq![]) =~= q + p.push(seq![])); }
        else { assert((q + p).last() == p.last()); assert((q + p).drop_last().push(p.last().push(b.last())) =~= q + p.drop_last().push(p.last().push(b.last()))); }
    }
}
/// one bad setting spoils all
pub proof fn settings_prefix(a: Seq<syn::Attribute>, n: int)
    requires 0 <= n <= a.len(), settings(a.take(n)) is None
    ensures settings(a) is None
    decreases a.len() - n
{
    if n < a.len() { assert(a.take(n + 1).drop_last() =~= a.take(n)); settings_prefix(a, n + 1); } else { assert(a.take(n) =~= a); }
}
pub proof fn settings1_prefix(a: Seq<TT>, n: int)
    requires 0 <= n <= a.len(), settings1(a.take(n)) is None
    ensures settings1(a) is None
    decreases a.len() - n
{
    if n < a.len() { assert(a.take(n + 1).drop_last() =~= a.take(n)); settings1_prefix(a, n + 1); } else { assert(a.take(n) =~= a); }
}
pub proof fn names()
    ensures "ignore"@ != "prefix"@, "ignore"@ != "suffix"@, "ignore"@ != "parse_type"@, "ignore"@ != "debug"@, "prefix"@ != "suffix"@, "prefix"@ != "parse_type"@, "prefix"@ != "debug"@,
        "suffix"@ != "parse_type"@, "suffix"@ != "debug"@, "parse_type"@ != "debug"@,
        "prefix"@ != "parser"@, "prefix"@ != "inner_parser"@, "prefix"@ != "seperated_by"@, "prefix"@ != "trailing"@, "suffix"@ != "parser"@, "suffix"@ != "inner_parser"@, "suffix"@ != "seperated_by"@, "suffix"@ != "trailing"@,
        "parser"@ != "inner_parser"@, "parser"@ != "seperated_by"@, "parser"@ != "trailing"@, "inner_parser"@ != "seperated_by"@, "inner_parser"@ != "trailing"@, "seperated_by"@ != "trailing"@,
        "\"yes\""@ != "\"no\""@, "\"yes\""@ != "\"maybe\""@, "\"no\""@ != "\"maybe\""@,
{
    reveal_strlit("ignore"); reveal_strlit("prefix"); reveal_strlit("suffix"); reveal_strlit("parse_type"); reveal_strlit("debug");
    reveal_strlit("parser"); reveal_strlit("inner_parser"); reveal_strlit("seperated_by"); reveal_strlit("trailing");
    reveal_strlit("\"yes\""); reveal_strlit("\"no\""); reveal_strlit("\"maybe\"");
    assert("ignore"@[0] == 'i'); assert("prefix"@[0] == 'p'); assert("suffix"@[0] == 's'); assert("parse_type"@[0] == 'p'); assert("debug"@[0] == 'd');
    assert("prefix"@[1] == 'r'); assert("parse_type"@[1] == 'a');
    assert("\"yes\""@[1] == 'y'); assert("\"no\""@[1] == 'n'); assert("\"maybe\""@[1] == 'm');
    assert("parse_type"@.len() == 10); assert("parser"@.len() == 6); assert("parser"@[1] == 'a'); assert("inner_parser"@.len() == 12); assert("inner_parser"@[0] == 'i'); assert("seperated_by"@.len() == 12); assert("seperated_by"@[0] == 's');
    assert("trailing"@.len() == 8); assert("suffix"@.len() == 6); assert("prefix"@.len() == 6); assert("parser"@[0] == 'p');
}

// ================================================================ the functions
//@fn fn parse_type(span: Span, mut tokens: proc_macro2::token_stream::IntoIter) -> (r: syn::Result<syn::Type>)
    ensures
        r is Ok <==> type_of(tokens@) is Some, // @clause verdict
        r is Ok ==> r->Ok_0 == type_of(tokens@)->0, // @clause value
//@entry
    let ghost t0 = tokens@;
    proof { assert(seq![] + t0.skip(1) =~= t0.skip(1)); }
//@end

//@impl impl VecFieldAttr
//@fn pub fn is_some(&self) -> (r: bool)
    ensures self.count is Some || self.min is Some || self.max is Some || self.parser is Some <==> r, // @clause value
//@end
//@endimpl

pub proof fn g_settings_stuck(a: Seq<syn::Attribute>, n: int)
    requires 0 <= n <= a.len(), settings(a.take(n)) is Some, g_of(g_none(), settings(a.take(n))) is None
    ensures g_of(g_none(), settings(a)) is None
    decreases a.len() - n
{
    if n < a.len() {
        assert(a.take(n + 1).drop_last() =~= a.take(n)); assert(a.take(n + 1).last() == a[n]);
        if settings(a.take(n + 1)) is None { settings_prefix(a, n + 1); }
        else {
            if is_ours(a[n]) { g_all_add(g_none(), settings(a.take(n))->0, settings1(a[n].tokens@)->0); }
            g_settings_stuck(a, n + 1);
        }
    } else { assert(a.take(n) =~= a); }
}
pub proof fn g_settings1_stuck(s: G, a: Seq<TT>, n: int)
    requires 0 <= n <= a.len(), settings1(a.take(n)) is Some, g_of(s, settings1(a.take(n))) is None
    ensures g_of(s, settings1(a)) is None
    decreases a.len() - n
{
    if n < a.len() {
        assert(a.take(n + 1).drop_last() =~= a.take(n)); assert(a.take(n + 1).last() == a[n]);
        if settings1(a.take(n + 1)) is None { settings1_prefix(a, n + 1); }
        else { g_all_add(s, settings1(a.take(n))->0, split(a[n]->Group_0.inner())); g_settings1_stuck(s, a, n + 1); }
    } else { assert(a.take(n) =~= a); }
}
/// what comes behind a bad setting does not mend it
pub proof fn g_split_stuck(s: G, a: Seq<TT>, n: int)
    requires 0 < n <= a.len(), is_punct(a[n - 1], ','), g_all(s, split(a.take(n - 1))) is None
    ensures g_all(s, split(a)) is None
{
    split_add(a.take(n - 1), a[n - 1], a.skip(n)); assert(a.take(n - 1).push(a[n - 1]) + a.skip(n) =~= a); g_all_add(s, split(a.take(n - 1)), split(a.skip(n)));
}

pub proof fn f_settings_stuck(a: Seq<syn::Attribute>, n: int)
    requires 0 <= n <= a.len(), settings(a.take(n)) is Some, f_of(f_none(), settings(a.take(n))) is None
    ensures f_of(f_none(), settings(a)) is None
    decreases a.len() - n
{
    if n < a.len() {
        assert(a.take(n + 1).drop_last() =~= a.take(n)); assert(a.take(n + 1).last() == a[n]);
        if settings(a.take(n + 1)) is None { settings_prefix(a, n + 1); }
        else {
            if is_ours(a[n]) { f_all_add(f_none(), settings(a.take(n))->0, settings1(a[n].tokens@)->0); }
            f_settings_stuck(a, n + 1);
        }
    } else { assert(a.take(n) =~= a); }
}
pub proof fn f_settings1_stuck(s: F, a: Seq<TT>, n: int)
    requires 0 <= n <= a.len(), settings1(a.take(n)) is Some, f_of(s, settings1(a.take(n))) is None
    ensures f_of(s, settings1(a)) is None
    decreases a.len() - n
{
    if n < a.len() {
        assert(a.take(n + 1).drop_last() =~= a.take(n)); assert(a.take(n + 1).last() == a[n]);
        if settings1(a.take(n + 1)) is None { settings1_prefix(a, n + 1); }
        else { f_all_add(s, settings1(a.take(n))->0, split(a[n]->Group_0.inner())); f_settings1_stuck(s, a, n + 1); }
    } else { assert(a.take(n) =~= a); }
}
/// what comes behind a bad setting does not mend it
pub proof fn f_split_stuck(s: F, a: Seq<TT>, n: int)
    requires 0 < n <= a.len(), is_punct(a[n - 1], ','), f_all(s, split(a.take(n - 1))) is None
    ensures f_all(s, split(a)) is None
{
    split_add(a.take(n - 1), a[n - 1], a.skip(n)); assert(a.take(n - 1).push(a[n - 1]) + a.skip(n) =~= a); f_all_add(s, split(a.take(n - 1)), split(a.skip(n)));
}

//@impl impl GlobalAttr
//@fn pub fn extend_with(self, extend: &Self) -> (r: Self)
    ensures
        r.st() == (G { ignore: self.st().ignore + extend.st().ignore, parse_type: extend.st().parse_type, ..self.st() }), // @clause value
//@end
//@fn pub fn parse_attrs(attrs: Vec<syn::Attribute>) -> (r: syn::Result<Self>)
    ensures
        r is Ok <==> g_of(g_none(), settings(attrs@)) is Some, // @clause verdict
        r is Ok ==> r->Ok_0.st() == g_of(g_none(), settings(attrs@))->0, // @clause value
//@attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@entry
    let ghost a0 = attrs@;
    proof { assert(a0.take(0) =~= Seq::<syn::Attribute>::empty()); }
//@loop 0
    invariant
        $it0@.len() <= a0.len(), $it0@ == a0.skip(a0.len() - $it0@.len()),
        g_of(g_none(), settings(a0.take(a0.len() - $it0@.len()))) == Some($new0.st()),
    ensures
        $it0@.len() == 0,
        g_of(g_none(), settings(a0.take(a0.len() - $it0@.len()))) == Some($new0.st()),
    decreases $it0@.len()
//@body 0
    proof {
        let n = a0.len() - $it0@.len();
        if n < a0.len() {
            assert(a0.take(n + 1).drop_last() =~= a0.take(n)); assert(a0.take(n + 1).last() == a0[n]); assert($it0@[0] == a0[n]); assert($it0@.skip(1) =~= a0.skip(n + 1));
            let p = settings(a0.take(n))->0;
            if settings1(a0[n].tokens@) is Some { g_all_add(g_none(), p, settings1(a0[n].tokens@)->0); }
            if settings(a0.take(n + 1)) is None { settings_prefix(a0, n + 1); }
            else if g_of(g_none(), settings(a0.take(n + 1))) is None { g_settings_stuck(a0, n + 1); }
        } else { assert(a0.take(n) =~= a0); }
    }
//@end
//@fn pub fn parse_attr(&mut self, tokens: TokenStream) -> (r: syn::Result<()>)
    ensures
        r is Ok <==> g_of(old(self).st(), settings1(tokens@)) is Some, // @clause verdict
        r is Ok ==> final(self).st() == g_of(old(self).st(), settings1(tokens@))->0, // @clause value
//@attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@entry
    let ghost t0 = tokens@; let ghost s0 = self.st();
    proof { assert(t0.take(0) =~= Seq::<TT>::empty()); }
//@loop 0
    invariant
        $it0@.len() <= t0.len(), $it0@ == t0.skip(t0.len() - $it0@.len()), s0 == old(self).st(),
        g_of(s0, settings1(t0.take(t0.len() - $it0@.len()))) == Some(self.st()),
    ensures
        $it0@.len() == 0, s0 == old(self).st(),
        g_of(s0, settings1(t0.take(t0.len() - $it0@.len()))) == Some(self.st()),
    decreases $it0@.len()
//@body 0
    proof {
        let n = t0.len() - $it0@.len();
        if n < t0.len() {
            assert(t0.take(n + 1).drop_last() =~= t0.take(n)); assert(t0.take(n + 1).last() == t0[n]); assert($it0@[0] == t0[n]); assert($it0@.skip(1) =~= t0.skip(n + 1));
            let p = settings1(t0.take(n))->0;
            if is_paren(t0[n]) { g_all_add(s0, p, split(t0[n]->Group_0.inner())); }
            if settings1(t0.take(n + 1)) is None { settings1_prefix(t0, n + 1); }
            else if g_of(s0, settings1(t0.take(n + 1))) is None { g_settings1_stuck(s0, t0, n + 1); }
        } else { assert(t0.take(n) =~= t0); }
    }
//@end
//@fn pub fn parse_args(&mut self, mut span: Span, tokens: TokenStream) -> (r: syn::Result<()>)
    ensures
        r is Ok <==> g_all(old(self).st(), split(tokens@)) is Some, // @clause verdict
        r is Ok ==> final(self).st() == g_all(old(self).st(), split(tokens@))->0, // @clause value
//@attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@entry
    let ghost t0 = tokens@; let ghost s0 = self.st(); let ghost mut done: Seq<Seq<TT>> = seq![];
    proof { assert(t0.take(0) =~= Seq::<TT>::empty()); }
//@loop 0
    invariant
        $it0@.len() <= t0.len(), $it0@ == t0.skip(t0.len() - $it0@.len()), s0 == old(self).st(),
        split(t0.take(t0.len() - $it0@.len())) =~= done.push($new0@),
        g_all(s0, done) == Some(self.st()),
    ensures
        $it0@.len() == 0, s0 == old(self).st(),
        split(t0).len() > 0, split(t0).drop_last() == done, split(t0).last() == $new0@,
        g_all(s0, done) == Some(self.st()),
    decreases $it0@.len()
//@body 0
    proof {
        let n = t0.len() - $it0@.len();
        if n < t0.len() {
            assert(t0.take(n + 1).drop_last() =~= t0.take(n)); assert(t0.take(n + 1).last() == t0[n]); assert($it0@[0] == t0[n]); assert($it0@.skip(1) =~= t0.skip(n + 1));
            let d = done;
            assert(d.push($new0@).drop_last() =~= d); assert(d.push($new0@).last() == $new0@);
            assert($new0@.push(t0[n]) =~= $new0@ + seq![t0[n]]);
            if is_punct(t0[n], ',') {
                done = done.push($new0@);
                assert(done.drop_last() =~= d);
                assert(split(t0.take(n + 1)) =~= done.push(seq![]));
                if g_all(s0, done) is None { g_split_stuck(s0, t0, n + 1); }
            }
        } else { assert(t0.take(n) =~= t0); assert(done.push($new0@).drop_last() =~= done); }
    }
//@end
//@fn pub fn parse_arg(&mut self, span: Span, tokens: TokenStream) -> (r: syn::Result<()>)
    ensures
        r is Ok <==> g_set(old(self).st(), tokens@) is Some, // @clause verdict
        r is Ok ==> final(self).st() == g_set(old(self).st(), tokens@)->0, // @clause value
//@entry
    proof { names(); }
//@end
//@endimpl

//@impl impl FieldAttr

//@fn pub fn parse_attrs(attrs: Vec<syn::Attribute>) -> (r: syn::Result<Self>)
    ensures
        r is Ok <==> f_of(f_none(), settings(attrs@)) is Some, // @clause verdict
        r is Ok ==> r->Ok_0.st() == f_of(f_none(), settings(attrs@))->0, // @clause value
//@attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@entry
    let ghost a0 = attrs@;
    proof { assert(a0.take(0) =~= Seq::<syn::Attribute>::empty()); }
//@loop 0
    invariant
        $it0@.len() <= a0.len(), $it0@ == a0.skip(a0.len() - $it0@.len()),
        f_of(f_none(), settings(a0.take(a0.len() - $it0@.len()))) == Some($new0.st()),
    ensures
        $it0@.len() == 0,
        f_of(f_none(), settings(a0.take(a0.len() - $it0@.len()))) == Some($new0.st()),
    decreases $it0@.len()
//@body 0
    proof {
        let n = a0.len() - $it0@.len();
        if n < a0.len() {
            assert(a0.take(n + 1).drop_last() =~= a0.take(n)); assert(a0.take(n + 1).last() == a0[n]); assert($it0@[0] == a0[n]); assert($it0@.skip(1) =~= a0.skip(n + 1));
            let p = settings(a0.take(n))->0;
            if settings1(a0[n].tokens@) is Some { f_all_add(f_none(), p, settings1(a0[n].tokens@)->0); }
            if settings(a0.take(n + 1)) is None { settings_prefix(a0, n + 1); }
            else if f_of(f_none(), settings(a0.take(n + 1))) is None { f_settings_stuck(a0, n + 1); }
        } else { assert(a0.take(n) =~= a0); }
    }
//@end
//@fn pub fn parse_attr(&mut self, tokens: TokenStream) -> (r: syn::Result<()>)
    ensures
        r is Ok <==> f_of(old(self).st(), settings1(tokens@)) is Some, // @clause verdict
        r is Ok ==> final(self).st() == f_of(old(self).st(), settings1(tokens@))->0, // @clause value
//@attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@entry
    let ghost t0 = tokens@; let ghost s0 = self.st();
    proof { assert(t0.take(0) =~= Seq::<TT>::empty()); }
//@loop 0
    invariant
        $it0@.len() <= t0.len(), $it0@ == t0.skip(t0.len() - $it0@.len()), s0 == old(self).st(),
        f_of(s0, settings1(t0.take(t0.len() - $it0@.len()))) == Some(self.st()),
    ensures
        $it0@.len() == 0, s0 == old(self).st(),
        f_of(s0, settings1(t0.take(t0.len() - $it0@.len()))) == Some(self.st()),
    decreases $it0@.len()
//@body 0
    proof {
        let n = t0.len() - $it0@.len();
        if n < t0.len() {
            assert(t0.take(n + 1).drop_last() =~= t0.take(n)); assert(t0.take(n + 1).last() == t0[n]); assert($it0@[0] == t0[n]); assert($it0@.skip(1) =~= t0.skip(n + 1));
            let p = settings1(t0.take(n))->0;
            if is_paren(t0[n]) { f_all_add(s0, p, split(t0[n]->Group_0.inner())); }
            if settings1(t0.take(n + 1)) is None { settings1_prefix(t0, n + 1); }
            else if f_of(s0, settings1(t0.take(n + 1))) is None { f_settings1_stuck(s0, t0, n + 1); }
        } else { assert(t0.take(n) =~= t0); }
    }
//@end
//@fn pub fn parse_args(&mut self, mut span: Span, tokens: TokenStream) -> (r: syn::Result<()>)
    ensures
        r is Ok <==> f_all(old(self).st(), split(tokens@)) is Some, // @clause verdict
        r is Ok ==> final(self).st() == f_all(old(self).st(), split(tokens@))->0, // @clause value
//@attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@entry
    let ghost t0 = tokens@; let ghost s0 = self.st(); let ghost mut done: Seq<Seq<TT>> = seq![];
    proof { assert(t0.take(0) =~= Seq::<TT>::empty()); }
//@loop 0
    invariant
        $it0@.len() <= t0.len(), $it0@ == t0.skip(t0.len() - $it0@.len()), s0 == old(self).st(),
        split(t0.take(t0.len() - $it0@.len())) =~= done.push($new0@),
        f_all(s0, done) == Some(self.st()),
    ensures
        $it0@.len() == 0, s0 == old(self).st(),
        split(t0).len() > 0, split(t0).drop_last() == done, split(t0).last() == $new0@,
        f_all(s0, done) == Some(self.st()),
    decreases $it0@.len()
//@body 0
    proof {
        let n = t0.len() - $it0@.len();
        if n < t0.len() {
            assert(t0.take(n + 1).drop_last() =~= t0.take(n)); assert(t0.take(n + 1).last() == t0[n]); assert($it0@[0] == t0[n]); assert($it0@.skip(1) =~= t0.skip(n + 1));
            let d = done;
            assert(d.push($new0@).drop_last() =~= d); assert(d.push($new0@).last() == $new0@);
            assert($new0@.push(t0[n]) =~= $new0@ + seq![t0[n]]);
            if is_punct(t0[n], ',') {
                done = done.push($new0@);
                assert(done.drop_last() =~= d);
                assert(split(t0.take(n + 1)) =~= done.push(seq![]));
                if f_all(s0, done) is None { f_split_stuck(s0, t0, n + 1); }
            }
        } else { assert(t0.take(n) =~= t0); assert(done.push($new0@).drop_last() =~= done); }
    }
//@end
//@fn pub fn parse_arg(&mut self, span: Span, tokens: TokenStream) -> (r: syn::Result<()>)
    ensures
        r is Ok <==> f_set(old(self).st(), tokens@) is Some, // @clause verdict
        r is Ok ==> final(self).st() == f_set(old(self).st(), tokens@)->0, // @clause value
//@entry
    proof { names(); }
//@end
//@fn pub fn parse_trailing(&mut self, mut tokens: proc_macro2::token_stream::IntoIter) -> (r: syn::Result<()>)
    ensures
        r is Ok <==> trailing_of(tokens@, old(self).st().trailing) is Some, // @clause verdict
        r is Ok ==> final(self).st() == (F { trailing: trailing_of(tokens@, old(self).st().trailing)->0, ..old(self).st() }), // @clause value
//@entry
    let ghost t0 = tokens@;
    proof { names(); }
//@end
//@endimpl

// ================================================================ C17
pub proof fn settings1_add(a: Seq<TT>, b: Seq<TT>)
    ensures settings1(a + b) == (match (settings1(a), settings1(b)) { (Some(p), Some(q)) => Some(p + q), _ => None::<Seq<Seq<TT>>> })
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); if settings1(a) is Some { assert(settings1(a)->0 + seq![] =~= settings1(a)->0); } }
    else {
        settings1_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
        if settings1(a) is Some && settings1(b) is Some {
            let p = settings1(a)->0; let q = settings1(b.drop_last())->0; let x = split(b.last()->Group_0.inner());
            assert((p + q) + x =~= p + (q + x));
        }
    }
}
pub proof fn settings_add(a: Seq<syn::Attribute>, b: Seq<syn::Attribute>)
    ensures settings(a + b) == (match (settings(a), settings(b)) { (Some(p), Some(q)) => Some(p + q), _ => None::<Seq<Seq<TT>>> })
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); if settings(a) is Some { assert(settings(a)->0 + seq![] =~= settings(a)->0); } }
    else {
        settings_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
        if settings(a) is Some && settings(b) is Some && is_ours(b.last()) {
            let p = settings(a)->0; let q = settings(b.drop_last())->0; let x = settings1(b.last().tokens@)->0;
            assert((p + q) + x =~= p + (q + x));
        }
    }
}
pub proof fn settings_one(a: syn::Attribute) ensures is_ours(a) ==> settings(seq![a]) == settings1(a.tokens@), !is_ours(a) ==> settings(seq![a]) == Some(Seq::<Seq<TT>>::empty())
{ reveal_with_fuel(settings, 2); assert(seq![a].drop_last() =~= seq![]); if settings1(a.tokens@) is Some { assert(Seq::<Seq<TT>>::empty() + settings1(a.tokens@)->0 =~= settings1(a.tokens@)->0); } }
pub proof fn settings1_one(t: TT) ensures settings1(seq![t]) == (if is_paren(t) { Some(split(t->Group_0.inner())) } else { None })
{ reveal_with_fuel(settings1, 2); assert(seq![t].drop_last() =~= seq![]); assert(Seq::<Seq<TT>>::empty() + split(t->Group_0.inner()) =~= split(t->Group_0.inner())); }
/// an attribute, or several, anywhere in the list may be exchanged for others with the same settings
//@thm attributes_by_settings C17
pub proof fn attributes_by_settings(pre: Seq<syn::Attribute>, a: Seq<syn::Attribute>, b: Seq<syn::Attribute>, post: Seq<syn::Attribute>)
    requires settings(a) == settings(b)
    ensures settings(pre + a + post) == settings(pre + b + post)
{ settings_add(pre + a, post); settings_add(pre + b, post); settings_add(pre, a); settings_add(pre, b); }
//@endthm
/// #[nommy(x)] #[nommy(y)] is #[nommy(x, y)]
//@thm two_attributes_are_one C17
pub proof fn two_attributes_are_one(a: syn::Attribute, b: syn::Attribute, ab: syn::Attribute, ga: TT, gb: TT, gab: TT, comma: TT)
    requires is_ours(a), is_ours(b), is_ours(ab), a.tokens@ == seq![ga], b.tokens@ == seq![gb], ab.tokens@ == seq![gab], is_paren(ga), is_paren(gb), is_paren(gab), is_punct(comma, ','),
        gab->Group_0.inner() == ga->Group_0.inner().push(comma) + gb->Group_0.inner()
    ensures settings(seq![a, b]) == settings(seq![ab])
{
    assert(seq![a, b] =~= seq![a] + seq![b]); settings_add(seq![a], seq![b]); settings_one(a); settings_one(b); settings_one(ab);
    settings1_one(ga); settings1_one(gb); settings1_one(gab); split_add(ga->Group_0.inner(), comma, gb->Group_0.inner());
}
//@endthm
/// #[nommy(x) (y)], if it could be written, would be #[nommy(x, y)]
//@thm two_lists_are_one C17
pub proof fn two_lists_are_one(ga: TT, gb: TT, gab: TT, comma: TT)
    requires is_paren(ga), is_paren(gb), is_paren(gab), is_punct(comma, ','), gab->Group_0.inner() == ga->Group_0.inner().push(comma) + gb->Group_0.inner()
    ensures settings1(seq![ga, gb]) == settings1(seq![gab])
{
    assert(seq![ga, gb] =~= seq![ga] + seq![gb]); settings1_add(seq![ga], seq![gb]); settings1_one(ga); settings1_one(gb); settings1_one(gab); split_add(ga->Group_0.inner(), comma, gb->Group_0.inner());
}
//@endthm
/// attributes of others say nothing
//@thm others_say_nothing C17
pub proof fn others_say_nothing(pre: Seq<syn::Attribute>, a: syn::Attribute, post: Seq<syn::Attribute>)
    requires !is_ours(a)
    ensures settings(pre + seq![a] + post) == settings(pre + post)
{
    settings_one(a); attributes_by_settings(pre, seq![a], seq![], post); assert(pre + Seq::<syn::Attribute>::empty() + post =~= pre + post);
}
//@endthm
pub open spec fn g_known(n: Seq<char>) -> bool { n == "ignore"@ || n == "prefix"@ || n == "suffix"@ || n == "parse_type"@ || n == "debug"@ }
pub open spec fn f_known(n: Seq<char>) -> bool { n == "prefix"@ || n == "suffix"@ || n == "parser"@ || n == "inner_parser"@ || n == "seperated_by"@ || n == "trailing"@ }
/// a setting that no configuration accepts: an unknown name, a malformed type, a malformed trailing rule
pub open spec fn g_bad(s: Seq<TT>) -> bool { s.len() == 0 || !(s[0] is Ident) || !g_known(s[0]->Ident_0.name()) || s[0]->Ident_0.name() != "debug"@ && type_of(s.skip(1)) is None }
pub open spec fn f_bad(s: Seq<TT>) -> bool { s.len() == 0 || !(s[0] is Ident) || !f_known(s[0]->Ident_0.name()) || s[0]->Ident_0.name() != "trailing"@ && type_of(s.skip(1)) is None
    || s[0]->Ident_0.name() == "trailing"@ && trailing_of(s.skip(1), None) is None }
/// a bad setting anywhere is an error
//@thm bad_settings_are_errors C17
pub proof fn g_bad_is_error(g: G, a: Seq<syn::Attribute>, i: int)
    requires settings(a) is Some, 0 <= i < settings(a)->0.len(), g_bad(settings(a)->0[i])
    ensures g_of(g, settings(a)) is None
{
    let ss = settings(a)->0; let p = ss.take(i + 1);
    assert(ss =~= p + ss.skip(i + 1)); g_all_add(g, p, ss.skip(i + 1));
    assert(p.last() == ss[i]); if g_all(g, p.drop_last()) is Some { assert(g_set(g_all(g, p.drop_last())->0, ss[i]) is None); }
}
pub proof fn f_bad_is_error(g: F, a: Seq<syn::Attribute>, i: int)
    requires settings(a) is Some, 0 <= i < settings(a)->0.len(), f_bad(settings(a)->0[i])
    ensures f_of(g, settings(a)) is None
{
    let ss = settings(a)->0; let p = ss.take(i + 1);
    assert(ss =~= p + ss.skip(i + 1)); f_all_add(g, p, ss.skip(i + 1));
    assert(p.last() == ss[i]); if f_all(g, p.drop_last()) is Some { assert(f_set(f_all(g, p.drop_last())->0, ss[i]) is None); }
}
//@endthm
/// and nothing else is
//@thm good_settings_are_accepted C17
pub proof fn g_good_is_ok(g: G, ss: Seq<Seq<TT>>)
    requires forall|i: int| 0 <= i < ss.len() ==> !g_bad(#[trigger] ss[i])
    ensures g_all(g, ss) is Some
    decreases ss.len()
{
    if ss.len() > 0 { assert forall|i: int| 0 <= i < ss.drop_last().len() implies !g_bad(#[trigger] ss.drop_last()[i]) by { assert(!g_bad(ss[i])); } g_good_is_ok(g, ss.drop_last()); assert(!g_bad(ss[ss.len() - 1])); }
}
pub proof fn f_good_is_ok(g: F, ss: Seq<Seq<TT>>)
    requires forall|i: int| 0 <= i < ss.len() ==> !f_bad(#[trigger] ss[i])
    ensures f_all(g, ss) is Some
    decreases ss.len()
{
    if ss.len() > 0 { assert forall|i: int| 0 <= i < ss.drop_last().len() implies !f_bad(#[trigger] ss.drop_last()[i]) by { assert(!f_bad(ss[i])); } f_good_is_ok(g, ss.drop_last()); assert(!f_bad(ss[ss.len() - 1])); }
}
//@endthm
/// the types a list of settings ignores, in order
pub open spec fn ignores(ss: Seq<Seq<TT>>) -> Seq<syn::Type> decreases ss.len() {
    if ss.len() == 0 { seq![] } else {
        let s = ss.last(); let p = ignores(ss.drop_last());
        if s.len() > 0 && s[0] is Ident && s[0]->Ident_0.name() == "ignore"@ && type_of(s.skip(1)) is Some { p.push(type_of(s.skip(1))->0) } else { p }
    }
}
/// the last type given for `name`
pub open spec fn last_of(ss: Seq<Seq<TT>>, name: Seq<char>) -> Option<syn::Type> decreases ss.len() {
    if ss.len() == 0 { None } else {
        let s = ss.last();
        if s.len() > 0 && s[0] is Ident && s[0]->Ident_0.name() == name { type_of(s.skip(1)) } else { last_of(ss.drop_last(), name) }
    }
}
/// ignore types accumulate in order, the other settings take their last value
//@thm ignores_accumulate_last_value_wins C17
pub proof fn g_last(ss: Seq<Seq<TT>>)
    requires g_all(g_none(), ss) is Some
    ensures ({ let g = g_all(g_none(), ss)->0; g.ignore == ignores(ss) && g.prefix == last_of(ss, "prefix"@) && g.suffix == last_of(ss, "suffix"@) && g.parse_type == last_of(ss, "parse_type"@) })
    decreases ss.len()
{ names(); if ss.len() > 0 { g_last(ss.drop_last()); } }
pub proof fn f_last(ss: Seq<Seq<TT>>)
    requires f_all(f_none(), ss) is Some
    ensures ({ let f = f_all(f_none(), ss)->0; f.prefix == last_of(ss, "prefix"@) && f.suffix == last_of(ss, "suffix"@) && f.parser == last_of(ss, "parser"@)
        && f.elem == last_of(ss, "inner_parser"@) && f.sep == last_of(ss, "seperated_by"@) })
    decreases ss.len()
{ names(); if ss.len() > 0 { f_last(ss.drop_last()); } }
//@endthm
