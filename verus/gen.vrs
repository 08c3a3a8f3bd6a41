// Contracts of the derive's code generator: nommy-derive/src/{fn_impl,parsers}.rs, struct_impl/ and enum_impl/.
// A token stream the generator builds is read as statements: `//@quote NAME(args) | text` names the statement a quoted text stands for.

// ---------------------------------------------------------------- quoted text
/// a piece of generated code; its parts are pieces themselves
pub enum Stmt {
    Ty(syn::Type), Id(Seq<char>), Str(Seq<char>), Ex(syn::Expr), Zero, UMax, Infer, Where(Seq<Stmt>, Seq<Stmt>),
    FixParse(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>), FixPeek(Seq<Stmt>, Seq<Stmt>), FieldParse(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>),
    ListPlain(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>), ListSep(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>),
    ListTrail(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>), ListMaybe(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>),
    VecParse(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>), VecPeek(Seq<Stmt>, Seq<Stmt>),
    IgTry(Seq<Stmt>, Seq<Stmt>), IgHead(Seq<Stmt>), IgDecl(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>), Skip(Seq<Stmt>),
    VStart, VTry(Seq<Stmt>), VEnd(Seq<Stmt>), PStart, PTry(Seq<Stmt>), PEnd,
    Head(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>), ImplNamed(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>), ImplTuple(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>),
    ImplUnit(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>),
    ResNamed(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>), ResTuple(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>), ResUnit(Seq<Stmt>, Seq<Stmt>), FnParse(Seq<Stmt>, Seq<Stmt>), FnPeek(Seq<Stmt>, Seq<Stmt>),
    VImpl(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>), EImpl(Seq<Stmt>, Seq<Stmt>, Seq<Stmt>, Seq<Stmt>),
}
pub type Q = Seq<Stmt>;
//@quote Stmt::Where(ty, generic) | #ty: ::nommy::Parse<#generic>,
//@quote Stmt::Zero | 0
//@quote Stmt::UMax | usize::MAX
//@quote Stmt::Infer | _
//@quote Stmt::FixParse(ty, generic, error) | if !(<#ty as ::nommy::Parse<#generic>>::peek(input)) { return Err(::nommy::eyre::eyre!(#error)) }
//@quote Stmt::FixPeek(ty, generic) | if !(<#ty as ::nommy::Parse<#generic>>::peek(input)) { return false }
//@quote Stmt::FieldParse(name, ty, generic, error) | let #name = <#ty as ::nommy::Parse<#generic>>::parse(input).wrap_err(#error)?.try_into()?;
//@quote Stmt::ListPlain(parser, target, generic, max) | ::nommy::vec::parse_vec::<#parser, #target, __ParseIgnore, #generic, _>(#max, input)
//@quote Stmt::ListSep(parser, target, sep, generic, max) | ::nommy::vec::parse_vec_seperated_by::<#parser, #target, #sep, __ParseIgnore, #generic, _>(#max, input)
//@quote Stmt::ListTrail(parser, target, sep, generic, max) | ::nommy::vec::parse_vec_seperated_by_trailing::<#parser, #target, #sep, __ParseIgnore, #generic, _>(#max, input)
//@quote Stmt::ListMaybe(parser, target, sep, generic, max) | ::nommy::vec::parse_vec_seperated_by_maybe_trailing::<#parser, #target, #sep, __ParseIgnore, #generic, _>(#max, input)
//@quote Stmt::VecParse(name, call, min) | let #name = #call?; if #name.len() < #min { return Err(::nommy::eyre::eyre!("could not parse enough for vec")); }
//@quote Stmt::VecPeek(call, min) | match #call { Ok(list) if list.len() >= #min => {} _ => return false, }
//@quote Stmt::IgTry(ty, generic) | { let mut cursor = input.cursor(); if <#ty as ::nommy::Parse<#generic>>::peek(&mut cursor) { let pos = cursor.position(); if ::std::cfg!(debug_assertions) && pos == 0 { panic!("ignore type `{}` passed but read 0 elements. Please ensure it reads at least 1 element otherwise it will cause an infinite loop", #text); } input.fast_forward(pos); return true } }
//@quote Stmt::IgHead(generic) | impl ::nommy::Parse<#generic> for __ParseIgnore
//@quote Stmt::IgHead(generic) | impl<#generic> ::nommy::Parse<#generic> for __ParseIgnore where #wc
//@quote Stmt::IgDecl(head, generic, body) | struct __ParseIgnore; #head { fn parse(_: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> { unimplemented!() } fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool { #body false } }
//@quote Stmt::Skip(generic) | <::std::vec::Vec<__ParseIgnore> as ::nommy::Parse<#generic>>::peek(input);
//@quote Stmt::VStart | let mut cursor = input.cursor(); let result =
//@quote Stmt::VTry(name) | if let (true, Ok(result)) = (cursor.reset_internal(), Self::#name(&mut cursor)) { result } else
//@quote Stmt::VEnd(error) | { return Err(::nommy::eyre::eyre!(#error)); }; let pos = cursor.position(); input.fast_forward(pos);
//@quote Stmt::PStart | let mut cursor = input.cursor(); if
//@quote Stmt::PTry(name) | !Self::#name(&mut cursor) && cursor.reset_internal() &&
//@quote Stmt::PEnd | true { return false; } let pos = cursor.position(); input.fast_forward(pos);
//@quote Stmt::Head(generic, name, args) | impl<#(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*>
//@quote Stmt::Head(generic, name, args) | impl<#generic, #(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*> where #wc
//@quote Stmt::ImplNamed(impl_line, generic, parse_impl, name, names, peek_impl) | #[automatically_derived] #impl_line { fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> { use ::nommy::eyre::WrapErr; use ::std::convert::TryInto; #parse_impl Ok(#name {#( #names, )*}) } fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool { #peek_impl true } }
//@quote Stmt::ImplTuple(impl_line, generic, parse_impl, name, names, peek_impl) | #[automatically_derived] #impl_line { fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> { use ::nommy::eyre::WrapErr; use ::std::convert::TryInto; #parse_impl Ok(#name (#( #names, )*)) } fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool { #peek_impl true } }
//@quote Stmt::ImplUnit(impl_line, generic, parse_impl, name, peek_impl) | #[automatically_derived] #impl_line { fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> { use ::nommy::eyre::WrapErr; use ::std::convert::TryInto; #parse_impl Ok(#name) } fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool { #peek_impl true } }
//@quote Stmt::EImpl(impl_line, generic, parse_impl, peek_impl) | #[automatically_derived] #impl_line { fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> { use ::nommy::eyre::WrapErr; use ::std::convert::TryInto; #parse_impl Ok(result) } fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool { #peek_impl true } }
//@quote Stmt::VImpl(args, name, parse_fn, parse_impl, parse_result, peek_fn, peek_impl) | #[automatically_derived] impl<#(#args),*> #name<#(#args),*> { #parse_fn { use ::nommy::eyre::WrapErr; use ::std::convert::TryInto; #parse_impl #parse_result } #peek_fn { #peek_impl true } }
//@quote Stmt::FnParse(name, generic) | fn #name(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self>
//@quote Stmt::FnParse(name, generic) | fn #name<#generic>(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> where #wc
//@quote Stmt::FnPeek(name, generic) | fn #name(input: &mut impl ::nommy::Buffer<#generic>) -> bool
//@quote Stmt::FnPeek(name, generic) | fn #name<#generic>(input: &mut impl ::nommy::Buffer<#generic>) -> bool where #wc
//@quote Stmt::ResNamed(enum_name, variant_name, names) | Ok(#enum_name::#variant_name {#( #names: #names, )*})
//@quote Stmt::ResTuple(enum_name, variant_name, names) | Ok(#enum_name::#variant_name (#( #names, )*))
//@quote Stmt::ResUnit(enum_name, variant_name) | Ok(#enum_name::#variant_name)

/// the same statements, whatever the texts of their errors
pub open spec fn same(a: Q, b: Q) -> bool { a =~= b || bare(a) =~= bare(b) }
/// both (tagged apart, so that a failure says which)
pub open spec fn all_same(a: Q, b: Q) -> bool { a =~= b }
/// the same texts too, when the statements are the same
pub open spec fn same_errors(a: Q, b: Q) -> bool { bare(a) == bare(b) ==> a =~= b }
pub open spec fn same_impl(a: Q, b: Q) -> bool { a =~= b || bare_impl(a) =~= bare_impl(b) }
pub open spec fn same_impl_errors(a: Q, b: Q) -> bool { bare_impl(a) == bare_impl(b) ==> a =~= b || peekless(a) =~= peekless(b) }
pub open spec fn same_impl_peek(a: Q, b: Q) -> bool { peekless(a) == peekless(b) ==> a =~= b }

pub mod bare_lib {
    use vstd::prelude::*;
    use super::*;
    /// a statement without the texts of its errors
    pub open spec fn bare1(s: Stmt) -> Stmt { match s {
        Stmt::FixParse(t, g, e) => Stmt::FixParse(t, g, seq![]),
        Stmt::FieldParse(n, t, g, e) => Stmt::FieldParse(n, t, g, seq![]),
        Stmt::VEnd(e) => Stmt::VEnd(seq![]),
        s => s } }
    #[verifier::opaque]
    pub open spec fn bare(q: Q) -> Q { Seq::new(q.len(), |i: int| bare1(q[i])) }
    pub open spec fn bare_impl1(s: Stmt) -> Stmt { match s {
        Stmt::ImplNamed(h, g, p, n, ns, k) => Stmt::ImplNamed(h, g, bare(p), n, ns, seq![]),
        Stmt::ImplTuple(h, g, p, n, ns, k) => Stmt::ImplTuple(h, g, bare(p), n, ns, seq![]),
        Stmt::ImplUnit(h, g, p, n, k) => Stmt::ImplUnit(h, g, bare(p), n, seq![]),
        Stmt::EImpl(h, g, p, k) => Stmt::EImpl(h, g, bare(p), seq![]),
        Stmt::VImpl(a, n, f, p, r, kf, k) => Stmt::VImpl(a, n, f, bare(p), r, seq![], seq![]),
        s => s } }
    /// without its peek
    pub open spec fn peekless1(s: Stmt) -> Stmt { match s {
        Stmt::ImplNamed(h, g, p, n, ns, k) => Stmt::ImplNamed(h, g, p, n, ns, seq![]),
        Stmt::ImplTuple(h, g, p, n, ns, k) => Stmt::ImplTuple(h, g, p, n, ns, seq![]),
        Stmt::ImplUnit(h, g, p, n, k) => Stmt::ImplUnit(h, g, p, n, seq![]),
        Stmt::EImpl(h, g, p, k) => Stmt::EImpl(h, g, p, seq![]),
        Stmt::VImpl(a, n, f, p, r, kf, k) => Stmt::VImpl(a, n, f, p, r, seq![], seq![]),
        s => s } }
    #[verifier::opaque]
    pub open spec fn peekless(q: Q) -> Q { Seq::new(q.len(), |i: int| peekless1(q[i])) }
    #[verifier::opaque]
    pub open spec fn bare_impl(q: Q) -> Q { Seq::new(q.len(), |i: int| bare_impl1(q[i])) }
    pub broadcast proof fn bare_impl_one(s: Stmt) ensures #[trigger] bare_impl(seq![s]) == seq![bare_impl1(s)] { reveal(bare_impl); assert(bare_impl(seq![s]) =~= seq![bare_impl1(s)]); }
    pub broadcast proof fn peekless_one(s: Stmt) ensures #[trigger] peekless(seq![s]) == seq![peekless1(s)] { reveal(peekless); assert(peekless(seq![s]) =~= seq![peekless1(s)]); }
    pub broadcast proof fn peekless_add(a: Q, b: Q) ensures #[trigger] peekless(a + b) == peekless(a) + peekless(b) { reveal(peekless); assert(peekless(a + b) =~= peekless(a) + peekless(b)); }
    pub broadcast proof fn bare_add(a: Q, b: Q) ensures #[trigger] bare(a + b) == bare(a) + bare(b) { reveal(bare); assert(bare(a + b) =~= bare(a) + bare(b)); }
    pub broadcast proof fn bare_one(s: Stmt) ensures #[trigger] bare(seq![s]) == seq![bare1(s)] { reveal(bare); assert(bare(seq![s]) =~= seq![bare1(s)]); }
    pub broadcast proof fn bare_impl_add(a: Q, b: Q) ensures #[trigger] bare_impl(a + b) == bare_impl(a) + bare_impl(b) { reveal(bare_impl); assert(bare_impl(a + b) =~= bare_impl(a) + bare_impl(b)); }
}
pub use bare_lib::*;

/// what an interpolated value contributes
pub trait ToQ { spec fn q(&self) -> Q; }
impl ToQ for syn::Type { open spec fn q(&self) -> Q { seq![Stmt::Ty(*self)] } }
impl ToQ for syn::Expr { open spec fn q(&self) -> Q { seq![Stmt::Ex(*self)] } }
impl ToQ for proc_macro2::Ident { open spec fn q(&self) -> Q { seq![Stmt::Id(self.name())] } }
impl ToQ for String { open spec fn q(&self) -> Q { seq![Stmt::Str(self@)] } }
impl<'a> ToQ for &'a str { open spec fn q(&self) -> Q { seq![Stmt::Str(self@)] } }
impl ToQ for TokenStream { open spec fn q(&self) -> Q { self.prog() } }
impl<'a, T: ToQ> ToQ for &'a T { open spec fn q(&self) -> Q { (**self).q() } }
impl<T: ToQ> ToQ for Option<T> { open spec fn q(&self) -> Q { match *self { Some(t) => t.q(), None => seq![] } } }
pub open spec fn ids(s: Seq<proc_macro2::Ident>) -> Q { Seq::new(s.len(), |i: int| Stmt::Id(s[i].name())) }
impl ToQ for Vec<proc_macro2::Ident> { open spec fn q(&self) -> Q { ids(self@) } }
impl<'a> ToQ for VecIter<&'a proc_macro2::Ident> { open spec fn q(&self) -> Q { Seq::new(self@.len(), |i: int| Stmt::Id(self@[i].name())) } }
impl ToQ for VecIter<proc_macro2::Ident> { open spec fn q(&self) -> Q { ids(self@) } }
#[verifier::external_body]
pub fn quote_(g: Ghost<Q>) -> (r: TokenStream) ensures r.prog() == g@ { unimplemented!() }
#[verifier::external_body]
pub fn format_(g: Ghost<Seq<char>>) -> (r: String) ensures r@ == g@ { unimplemented!() }
#[verifier::external_body]
pub fn format_s_(g: Ghost<Seq<char>>) -> (r: &'static str) ensures r@ == g@ { unimplemented!() }
#[verifier::external_body]
pub fn ident_(g: Ghost<Seq<char>>) -> (r: proc_macro2::Ident) ensures r.name() == g@ { unimplemented!() }
pub open spec fn q1_(s: Stmt) -> Q { seq![s] }
pub open spec fn lit_(s: &str) -> Seq<char> { s@ }
pub uninterp spec fn num_text(n: usize) -> Seq<char>;
pub trait Text_ { spec fn text_(&self) -> Seq<char>; }
impl Text_ for usize { open spec fn text_(&self) -> Seq<char> { num_text(*self) } }
/// `(&option).into()`
pub trait Into<T>: Sized { spec fn into_spec(self) -> T; fn into(self) -> (r: T) ensures r == self.into_spec(); }
impl<'a, T> Into<Option<&'a T>> for &'a Option<T> {
    open spec fn into_spec(self) -> Option<&'a T> { match *self { Some(ref t) => Some(t), None => None } }
    fn into(self) -> (r: Option<&'a T>) { match self { Some(t) => Some(t), None => None } }
}
pub mod ty {
    use vstd::prelude::*;
    use super::*;
    pub uninterp spec fn has(t: syn::Type, n: syn::Ident) -> bool;
    #[verifier::external_body]
    pub fn contains(ty: &syn::Type, type_name: &syn::Ident) -> (r: bool) ensures r == has(*ty, *type_name) { unimplemented!() }
}

// ---------------------------------------------------------------- what a definition spells
/// one field: its name, its type, its settings
pub struct Fd { pub name: Seq<char>, pub ty: syn::Type, pub a: F }
/// one struct, or one variant of an enum
pub struct Def { pub what: Seq<char>, pub name: Seq<char>, pub g: syn::Type, pub ignore: Seq<syn::Type>, pub prefix: Option<syn::Type>, pub suffix: Option<syn::Type>, pub fields: Seq<Fd> }
pub open spec fn quiet(d: Def) -> Def { Def { what: seq![], ..d } }
pub open spec fn qt(t: syn::Type) -> Q { seq![Stmt::Ty(t)] }
pub open spec fn qs(s: Seq<char>) -> Q { seq![Stmt::Str(s)] }
pub open spec fn skip(g: syn::Type) -> Q { seq![Stmt::Skip(qt(g))] }
pub open spec fn ig_tries(ig: Seq<syn::Type>, g: syn::Type) -> Q decreases ig.len() { if ig.len() == 0 { seq![] } else { ig_tries(ig.drop_last(), g) + seq![Stmt::IgTry(qt(ig.last()), qt(g))] } }
pub open spec fn ig_decl(ig: Seq<syn::Type>, g: syn::Type) -> Q { seq![Stmt::IgDecl(seq![Stmt::IgHead(qt(g))], qt(g), ig_tries(ig, g))] }
pub open spec fn fix_msg(kind: Seq<char>, of: Seq<char>) -> Seq<char> { "failed to parse "@ + kind + " for "@ + of }
pub open spec fn fix_parse(f: Option<syn::Type>, kind: Seq<char>, of: Seq<char>, g: syn::Type) -> Q { match f { Some(t) => seq![Stmt::FixParse(qt(t), qt(g), qs(fix_msg(kind, of)))] + skip(g), None => seq![] } }
pub open spec fn fix_peek(f: Option<syn::Type>, g: syn::Type) -> Q { match f { Some(t) => seq![Stmt::FixPeek(qt(t), qt(g))] + skip(g), None => seq![] } }
pub open spec fn of_field(n: Seq<char>) -> Seq<char> { "field `"@ + n + "`"@ }
pub open spec fn of_item(what: Seq<char>, n: Seq<char>) -> Seq<char> { what + " `"@ + n + "`"@ }
pub open spec fn list_max(a: F) -> Q { match a.count { Some(c) => seq![Stmt::Ex(c)], None => match a.max { Some(m) => seq![Stmt::Ex(m)], None => seq![Stmt::UMax] } } }
pub open spec fn list_min(a: F) -> Q { match a.count { Some(c) => seq![Stmt::Ex(c)], None => match a.min { Some(m) => seq![Stmt::Ex(m)], None => seq![Stmt::Zero] } } }
pub open spec fn list_call(a: F, target: Q, g: syn::Type) -> Q {
    let p = qt(a.elem->0);
    match a.sep {
        None => seq![Stmt::ListPlain(p, target, qt(g), list_max(a))],
        Some(s) => match a.trailing {
            None => seq![Stmt::ListSep(p, target, qt(s), qt(g), list_max(a))],
            Some(true) => seq![Stmt::ListTrail(p, target, qt(s), qt(g), list_max(a))],
            Some(false) => seq![Stmt::ListMaybe(p, target, qt(s), qt(g), list_max(a))],
        },
    }
}
pub open spec fn is_list(a: F) -> bool { a.count is Some || a.min is Some || a.max is Some || a.elem is Some }
pub open spec fn field_parser(f: Fd) -> syn::Type { match f.a.parser { Some(p) => p, None => f.ty } }
pub open spec fn field_parse(f: Fd, g: syn::Type) -> Q {
    fix_parse(f.a.prefix, "prefix"@, of_field(f.name), g)
    + (if is_list(f.a) { seq![Stmt::VecParse(seq![Stmt::Id(f.name)], list_call(f.a, seq![Stmt::Infer], g), list_min(f.a))] }
       else { seq![Stmt::FieldParse(seq![Stmt::Id(f.name)], qt(field_parser(f)), qt(g), qs("failed to parse field `"@ + f.name + "`"@))] })
    + skip(g)
    + fix_parse(f.a.suffix, "suffix"@, of_field(f.name), g)
}
pub open spec fn field_peek(f: Fd, g: syn::Type) -> Q {
    fix_peek(f.a.prefix, g)
    + (if is_list(f.a) { seq![Stmt::VecPeek(list_call(f.a, qt(f.a.elem->0), g), list_min(f.a))] } else { seq![Stmt::FixPeek(qt(field_parser(f)), qt(g))] })
    + skip(g)
    + fix_peek(f.a.suffix, g)
}
pub open spec fn fields_parse(fs: Seq<Fd>, g: syn::Type) -> Q decreases fs.len() { if fs.len() == 0 { seq![] } else { fields_parse(fs.drop_last(), g) + field_parse(fs.last(), g) } }
pub open spec fn fields_peek(fs: Seq<Fd>, g: syn::Type) -> Q decreases fs.len() { if fs.len() == 0 { seq![] } else { fields_peek(fs.drop_last(), g) + field_peek(fs.last(), g) } }
pub open spec fn def_parse(d: Def) -> Q {
    ig_decl(d.ignore, d.g) + fix_parse(d.prefix, "prefix"@, of_item(d.what, d.name), d.g) + fields_parse(d.fields, d.g) + fix_parse(d.suffix, "suffix"@, of_item(d.what, d.name), d.g)
}
pub open spec fn def_peek(d: Def) -> Q { ig_decl(d.ignore, d.g) + fix_peek(d.prefix, d.g) + fields_peek(d.fields, d.g) + fix_peek(d.suffix, d.g) }

// ---------------------------------------------------------------- the builder
broadcast use {bare_lib::bare_impl_one, bare_lib::peekless_one, bare_lib::bare_add, bare_lib::bare_one, bare_lib::bare_impl_add, bare_lib::peekless_add};
//@area gen
//@struct BuildOutput
//@struct Builder
impl<'a> Builder<'a> {
    /// only the programs differ
    pub open spec fn like(&self, o: &Builder<'a>) -> bool { self.generic == o.generic && self.type_name == o.type_name && self.parse_type == o.parse_type && self.after_each.prog() == o.after_each.prog() }
}
//@trait FieldType: fn ty(&self)->&syn::Type; fn name(&self,i:usize)->syn::Ident; fn attrs(&self)->&FieldAttr
pub trait FieldType {
    spec fn fty(&self) -> syn::Type;
    spec fn fname(&self, i: usize) -> Seq<char>;
    spec fn fat(&self) -> FieldAttr;
    fn ty(&self) -> (r: &syn::Type) ensures *r == self.fty();
    fn name(&self, i: usize) -> (r: syn::Ident) ensures r.name() == self.fname(i);
    fn attrs(&self) -> (r: &FieldAttr) ensures *r == self.fat();
}
pub open spec fn fd<X: FieldType>(f: X, i: int) -> Fd { Fd { name: f.fname(i as usize), ty: f.fty(), a: f.fat().st() } }
pub open spec fn fds<X: FieldType>(fs: Seq<X>) -> Seq<Fd> { Seq::new(fs.len(), |i: int| fd(fs[i], i)) }
/// a list has the parser of its elements
pub open spec fn listed(a: FieldAttr) -> bool { is_list(a.st()) ==> a.st().elem is Some }

//@impl impl<'a> Builder<'a>
//@fn pub fn new(generic: &'a syn::Type, type_name: &'a syn::Ident, parse_type: &'a Option<syn::Type>) -> (r: Self)
    ensures r.generic == generic, r.type_name == type_name, r.parse_type == parse_type, r.peek_impl.prog() == Q::empty(), r.parse_impl.prog() == Q::empty(), r.after_each.prog() == Q::empty() // @clause program
//@end
//@fn pub fn build(self) -> (r: BuildOutput)
    ensures r.peek_impl.prog() == self.peek_impl.prog(), // @clause peek_program
        r.parse_impl.prog() == self.parse_impl.prog(), // @clause program
//@end
//@fn pub fn create_ignore(&mut self, ignore: &[syn::Type])
    ensures final(self).generic == old(self).generic, final(self).type_name == old(self).type_name, final(self).parse_type == old(self).parse_type,
        final(self).after_each.prog() == skip(*old(self).generic), // @clause program
        final(self).parse_impl.prog() == old(self).parse_impl.prog() + ig_decl(ignore@, *old(self).generic), // @clause program
        final(self).peek_impl.prog() == old(self).peek_impl.prog() + ig_decl(ignore@, *old(self).generic), // @clause peek_program
//@end
//@fn pub fn ignore(&mut self)
    ensures final(self).like(old(self)),
        final(self).parse_impl.prog() == old(self).parse_impl.prog() + old(self).after_each.prog(), // @clause program
        final(self).peek_impl.prog() == old(self).peek_impl.prog() + old(self).after_each.prog(), // @clause peek_program
//@end
//@fn pub fn add_where(&mut self, ty: &syn::Type)
    ensures final(self).like(old(self)), final(self).parse_impl.prog() == old(self).parse_impl.prog(), final(self).peek_impl.prog() == old(self).peek_impl.prog() // @clause program
//@end
//@fn pub fn add_where_raw(&mut self, tokens: TokenStream)
    ensures final(self).like(old(self)), final(self).parse_impl.prog() == old(self).parse_impl.prog(), final(self).peek_impl.prog() == old(self).peek_impl.prog() // @clause program
//@end
//@fn pub fn add_fix(&mut self, fix: &Option<syn::Type>, fix_type: &'static str, name: String)
    requires old(self).after_each.prog() == skip(*old(self).generic)
    ensures final(self).like(old(self)),
        same(final(self).parse_impl.prog(), old(self).parse_impl.prog() + fix_parse(*fix, fix_type@, name@, *old(self).generic)), // @clause program
        same_errors(final(self).parse_impl.prog(), old(self).parse_impl.prog() + fix_parse(*fix, fix_type@, name@, *old(self).generic)), // @clause error
        all_same(final(self).parse_impl.prog(), old(self).parse_impl.prog() + fix_parse(*fix, fix_type@, name@, *old(self).generic)), // @clause both
        final(self).peek_impl.prog() =~= old(self).peek_impl.prog() + fix_peek(*fix, *old(self).generic), // @clause peek_program
//@end
//@fn pub fn add_field<X: FieldType>(&mut self, field: &X, field_num: usize)
    requires old(self).after_each.prog() == skip(*old(self).generic), listed(field.fat())
    ensures final(self).like(old(self)),
        same(final(self).parse_impl.prog(), old(self).parse_impl.prog() + field_parse(fd(*field, field_num as int), *old(self).generic)), // @clause program
        same_errors(final(self).parse_impl.prog(), old(self).parse_impl.prog() + field_parse(fd(*field, field_num as int), *old(self).generic)), // @clause error
        all_same(final(self).parse_impl.prog(), old(self).parse_impl.prog() + field_parse(fd(*field, field_num as int), *old(self).generic)), // @clause both
        final(self).peek_impl.prog() =~= old(self).peek_impl.prog() + field_peek(fd(*field, field_num as int), *old(self).generic), // @clause peek_program
//@end
//@fn pub fn start_variants(&mut self)
    ensures final(self).like(old(self)),
        final(self).parse_impl.prog() == old(self).parse_impl.prog() + seq![Stmt::VStart], // @clause program
        final(self).peek_impl.prog() == old(self).peek_impl.prog() + seq![Stmt::PStart], // @clause peek_program
//@end
//@fn pub fn add_variant(&mut self, peek_name: &syn::Ident, parse_name: &syn::Ident)
    ensures final(self).like(old(self)),
        final(self).parse_impl.prog() == old(self).parse_impl.prog() + seq![Stmt::VTry(parse_name.q())], // @clause program
        final(self).peek_impl.prog() == old(self).peek_impl.prog() + seq![Stmt::PTry(peek_name.q())], // @clause peek_program
//@end
//@fn pub fn finish_variants(&mut self, error: String)
    ensures final(self).like(old(self)),
        same(final(self).parse_impl.prog(), old(self).parse_impl.prog() + seq![Stmt::VEnd(qs(error@))]), // @clause program
        same_errors(final(self).parse_impl.prog(), old(self).parse_impl.prog() + seq![Stmt::VEnd(qs(error@))]), // @clause error
        all_same(final(self).parse_impl.prog(), old(self).parse_impl.prog() + seq![Stmt::VEnd(qs(error@))]), // @clause both
        final(self).peek_impl.prog() == old(self).peek_impl.prog() + seq![Stmt::PEnd], // @clause peek_program
//@end
//@fn fn where_tokens(&self, ty: &syn::Type) -> (r: TokenStream)
//@end
//@fn fn parser_peek_tokens(&self, ty: &syn::Type, error: &str) -> (r: TokenStream)
    ensures same(r.prog(), seq![Stmt::FixParse(qt(*ty), qt(*self.generic), qs(error@))]), // @clause program
        same_errors(r.prog(), seq![Stmt::FixParse(qt(*ty), qt(*self.generic), qs(error@))]), // @clause error
        all_same(r.prog(), seq![Stmt::FixParse(qt(*ty), qt(*self.generic), qs(error@))]), // @clause both
//@end
//@fn fn parser_parse_tokens(&self, name: &syn::Ident, ty: &syn::Type, error: &str) -> (r: TokenStream)
    ensures same(r.prog(), seq![Stmt::FieldParse(name.q(), qt(*ty), qt(*self.generic), qs(error@))]), // @clause program
        same_errors(r.prog(), seq![Stmt::FieldParse(name.q(), qt(*ty), qt(*self.generic), qs(error@))]), // @clause error
        all_same(r.prog(), seq![Stmt::FieldParse(name.q(), qt(*ty), qt(*self.generic), qs(error@))]), // @clause both
//@end
//@fn fn peeker_peek_tokens(&self, ty: &syn::Type) -> (r: TokenStream)
    ensures r.prog() == seq![Stmt::FixPeek(qt(*ty), qt(*self.generic))], // @clause peek_program
//@end
//@fn fn vec_call_tokens(&self, attrs: &VecFieldAttr, target: &TokenStream) -> (r: (TokenStream, TokenStream))
    requires attrs.parser is Some
    ensures r.0.prog() == list_call(attrs.sv(), target.prog(), *self.generic), // @clause program
        r.1.prog() == list_min(attrs.sv()), // @clause program
//@end
//@fn fn parser_parse_vec_tokens(&self, name: &syn::Ident, attrs: &VecFieldAttr) -> (r: TokenStream)
    requires attrs.parser is Some
    ensures r.prog() == seq![Stmt::VecParse(name.q(), list_call(attrs.sv(), seq![Stmt::Infer], *self.generic), list_min(attrs.sv()))], // @clause program
//@end
//@fn pub fn peeker_peek_vec_tokens(&self, attrs: &VecFieldAttr) -> (r: TokenStream)
    requires attrs.parser is Some
    ensures r.prog() == seq![Stmt::VecPeek(list_call(attrs.sv(), qt(attrs.parser->0), *self.generic), list_min(attrs.sv()))], // @clause peek_program
//@end
//@fn fn ignore_impl(&mut self, ignore: &[syn::Type]) -> (r: (TokenStream, TokenStream))
    ensures final(self).like(old(self)), final(self).parse_impl.prog() == old(self).parse_impl.prog(), final(self).peek_impl.prog() == old(self).peek_impl.prog(),
        r.0.prog() == ig_decl(ignore@, *old(self).generic), // @clause program
        r.1.prog() == skip(*old(self).generic), // @clause program
//@entry
    let ghost i0 = ignore@; let ghost this = *self;
    proof { assert(i0.take(0) =~= Seq::<syn::Type>::empty()); }
//@attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@loop 0
    invariant
        $it0@.len() <= i0.len(), forall|k: int| 0 <= k < $it0@.len() ==> *(#[trigger] $it0@[k]) == i0[i0.len() - $it0@.len() + k], this == *old(self),
        self.like(&this), self.parse_impl.prog() == this.parse_impl.prog(), self.peek_impl.prog() == this.peek_impl.prog(),
        $new0.prog() == ig_tries(i0.take(i0.len() - $it0@.len()), *this.generic),
    ensures $it0@.len() == 0
    decreases $it0@.len()
//@body 0
    proof {
        let n = i0.len() - $it0@.len();
        if n < i0.len() { assert(i0.take(n + 1).drop_last() =~= i0.take(n)); assert(i0.take(n + 1).last() == i0[n]); assert(*$it0@[0] == i0[n]); } else { assert(i0.take(n) =~= i0); }
    }
//@end
//@endimpl

// ---------------------------------------------------------------- one struct or variant
//@struct FnImpl
/// the definition it was made from
impl<'a, X: FieldType> FnImpl<'a, X> {
    pub open spec fn def(&self) -> Def {
        Def { what: self.ty@, name: self.name.name(), g: *self.generic, ignore: self.attrs.ignore@, prefix: self.attrs.prefix, suffix: self.attrs.suffix, fields: fds(self.fields@) }
    }
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.fields@.len() ==> listed(#[trigger] self.fields@[i].fat()) }
}
//@impl impl<'a, X: FieldType> FnImpl<'a, X>
//@fn pub fn build(&self, type_name: &syn::Ident) -> (r: BuildOutput)
    requires self.wf()
    ensures same(r.parse_impl.prog(), def_parse(self.def())), // @clause program
        same_errors(r.parse_impl.prog(), def_parse(self.def())), // @clause error
        all_same(r.parse_impl.prog(), def_parse(self.def())), // @clause both
        r.peek_impl.prog() =~= def_peek(self.def()), // @clause peek_program
//@attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@entry
    let ghost f0 = self.fields@; let ghost d0 = self.def(); let ghost fs0 = fds(f0);
    proof { assert(fs0.take(0) =~= Seq::<Fd>::empty()); assert(d0.fields == fs0); }
//@loop 0
    invariant
        $it0@.len() <= f0.len(), forall|k: int| 0 <= k < $it0@.len() ==> (#[trigger] $it0@[k]).0 == f0.len() - $it0@.len() + k && *$it0@[k].1 == f0[f0.len() - $it0@.len() + k],
        $new0.generic == self.generic, $new0.after_each.prog() == skip(d0.g),
        same($new0.parse_impl.prog(), ig_decl(d0.ignore, d0.g) + fix_parse(d0.prefix, "prefix"@, of_item(d0.what, d0.name), d0.g) + fields_parse(fs0.take(f0.len() - $it0@.len()), d0.g)), // @clause program
        same_errors($new0.parse_impl.prog(), ig_decl(d0.ignore, d0.g) + fix_parse(d0.prefix, "prefix"@, of_item(d0.what, d0.name), d0.g) + fields_parse(fs0.take(f0.len() - $it0@.len()), d0.g)), // @clause error
        all_same($new0.parse_impl.prog(), ig_decl(d0.ignore, d0.g) + fix_parse(d0.prefix, "prefix"@, of_item(d0.what, d0.name), d0.g) + fields_parse(fs0.take(f0.len() - $it0@.len()), d0.g)), // @clause both
        $new0.peek_impl.prog() =~= ig_decl(d0.ignore, d0.g) + fix_peek(d0.prefix, d0.g) + fields_peek(fs0.take(f0.len() - $it0@.len()), d0.g), // @clause peek_program
    ensures $it0@.len() == 0
    decreases $it0@.len()
//@body 0
    proof {
        let n = f0.len() - $it0@.len();
        if n < f0.len() {
            assert(fs0.take(n + 1).drop_last() =~= fs0.take(n)); assert(fs0.take(n + 1).last() == fs0[n]); assert(*$it0@[0].1 == f0[n]); assert(fs0[n] == fd(f0[n], n)); assert($it0@[0].0 == n);
            assert(listed(f0[n].fat()));
        } else { assert(fs0.take(n) =~= fs0); }
    }
//@end
//@endimpl

// ---------------------------------------------------------------- fields
//@struct NamedField
//@struct UnnamedField
//@impl impl FieldType for NamedField
    open spec fn fty(&self) -> syn::Type { self.ty }
    open spec fn fname(&self, i: usize) -> Seq<char> { self.name.name() }
    open spec fn fat(&self) -> FieldAttr { self.attrs }
    //@fn fn ty(&self) -> (r: &syn::Type)
    //@end
    //@fn fn name(&self, i: usize) -> (r: syn::Ident)
    //@end
    //@fn fn attrs(&self) -> (r: &FieldAttr)
    //@end
//@endimpl
//@impl impl FieldType for UnnamedField
    open spec fn fty(&self) -> syn::Type { self.ty }
    open spec fn fname(&self, i: usize) -> Seq<char> { "elem"@ + num_text(i) }
    open spec fn fat(&self) -> FieldAttr { self.attrs }
    //@fn fn ty(&self) -> (r: &syn::Type)
    //@end
    //@fn fn name(&self, i: usize) -> (r: syn::Ident)
    //@end
    //@fn fn attrs(&self) -> (r: &FieldAttr)
    //@end
//@endimpl

// ---------------------------------------------------------------- structs
//@struct Named
//@struct Unnamed
//@struct Unit
pub open spec fn fnames(fs: Seq<Fd>) -> Q { Seq::new(fs.len(), |i: int| Stmt::Id(fs[i].name)) }
pub open spec fn wf_fields<X: FieldType>(fs: Seq<X>) -> bool { fs.len() <= usize::MAX && forall|i: int| 0 <= i < fs.len() ==> listed(#[trigger] fs[i].fat()) }
pub open spec fn mk_def<X: FieldType>(what: Seq<char>, name: syn::Ident, g: syn::Type, a: GlobalAttr, fs: Seq<X>) -> Def { Def { what, name: name.name(), g, ignore: a.ignore@, prefix: a.prefix, suffix: a.suffix, fields: fds(fs) } }
pub open spec fn head(g: syn::Type, name: syn::Ident, args: Seq<syn::Ident>) -> Q { seq![Stmt::Head(qt(g), name.q(), ids(args))] }
pub proof fn named_ids(fs: Seq<NamedField>)
    ensures forall|v: VecIter<&syn::Ident>| v@.len() == fs.len() && (forall|i: int| 0 <= i < fs.len() ==> (#[trigger] v@[i]).name() == fs[i].name.name()) ==> #[trigger] v.q() == fnames(fds(fs))
{
    assert forall|v: VecIter<&syn::Ident>| v@.len() == fs.len() && (forall|i: int| 0 <= i < fs.len() ==> (#[trigger] v@[i]).name() == fs[i].name.name()) implies #[trigger] v.q() == fnames(fds(fs)) by { assert(v.q() =~= fnames(fds(fs))); }
}
pub proof fn unnamed_ids(fs: Seq<UnnamedField>)
    ensures forall|v: VecIter<syn::Ident>| v@.len() == fs.len() && (forall|i: int| 0 <= i < fs.len() ==> (#[trigger] v@[i]).name() == fs[i].fname(i as usize)) ==> #[trigger] v.q() == fnames(fds(fs))
{
    assert forall|v: VecIter<syn::Ident>| v@.len() == fs.len() && (forall|i: int| 0 <= i < fs.len() ==> (#[trigger] v@[i]).name() == fs[i].fname(i as usize)) implies #[trigger] v.q() == fnames(fds(fs)) by { assert(v.q() =~= fnames(fds(fs))); }
}
impl Named { pub open spec fn def(&self) -> Def { mk_def("struct"@, self.name, self.generic, self.attrs, self.fields@) } }
impl Unnamed { pub open spec fn def(&self) -> Def { mk_def("struct"@, self.name, self.generic, self.attrs, self.fields@) } }
impl Unit { pub open spec fn def(&self) -> Def { mk_def("struct"@, self.name, self.generic, self.attrs, Seq::<NamedField>::empty()) } }
//@impl impl ToTokens for Named => impl Named
//@fn pub fn to_tokens(&self, tokens: &mut TokenStream)
    requires wf_fields(self.fields@)
    ensures same_impl(final(tokens).prog(), old(tokens).prog() + seq![Stmt::ImplNamed(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), fnames(self.def().fields), def_peek(self.def()))]), // @clause program
        same_impl_errors(final(tokens).prog(), old(tokens).prog() + seq![Stmt::ImplNamed(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), fnames(self.def().fields), def_peek(self.def()))]), // @clause error
        same_impl_peek(final(tokens).prog(), old(tokens).prog() + seq![Stmt::ImplNamed(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), fnames(self.def().fields), def_peek(self.def()))]), // @clause peek_program
        all_same(final(tokens).prog(), old(tokens).prog() + seq![Stmt::ImplNamed(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), fnames(self.def().fields), def_peek(self.def()))]), // @clause both
//@entry
    proof { named_ids(self.fields@); }
//@closure 0
|p0_| -> (r_: &syn::Ident) ensures *r_ == p0_.name
//@end
//@endimpl
//@impl impl ToTokens for Unnamed => impl Unnamed
//@fn pub fn to_tokens(&self, tokens: &mut TokenStream)
    requires wf_fields(self.fields@)
    ensures same_impl(final(tokens).prog(), old(tokens).prog() + seq![Stmt::ImplTuple(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), fnames(self.def().fields), def_peek(self.def()))]), // @clause program
        same_impl_errors(final(tokens).prog(), old(tokens).prog() + seq![Stmt::ImplTuple(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), fnames(self.def().fields), def_peek(self.def()))]), // @clause error
        same_impl_peek(final(tokens).prog(), old(tokens).prog() + seq![Stmt::ImplTuple(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), fnames(self.def().fields), def_peek(self.def()))]), // @clause peek_program
        all_same(final(tokens).prog(), old(tokens).prog() + seq![Stmt::ImplTuple(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), fnames(self.def().fields), def_peek(self.def()))]), // @clause both
//@entry
    proof { unnamed_ids(self.fields@); }
//@closure 0
|p0_| -> (r_: syn::Ident) ensures r_.name() == p0_.1.fname(p0_.0)
//@end
//@endimpl
//@impl impl ToTokens for Unit => impl Unit
//@fn pub fn to_tokens(&self, tokens: &mut TokenStream)
    ensures same_impl(final(tokens).prog(), old(tokens).prog() + seq![Stmt::ImplUnit(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), def_peek(self.def()))]), // @clause program
        same_impl_errors(final(tokens).prog(), old(tokens).prog() + seq![Stmt::ImplUnit(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), def_peek(self.def()))]), // @clause error
        same_impl_peek(final(tokens).prog(), old(tokens).prog() + seq![Stmt::ImplUnit(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), def_peek(self.def()))]), // @clause peek_program
        all_same(final(tokens).prog(), old(tokens).prog() + seq![Stmt::ImplUnit(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), def_peek(self.def()))]), // @clause both
//@end
//@endimpl

// ---------------------------------------------------------------- enums
//@struct Enum
//@struct EnumVariant
//@struct EnumVariantNamed
//@struct EnumVariantUnnamed
//@struct EnumVariantUnit
#[verifier::external_body]
pub fn lower_(s: String) -> (r: String) ensures r@ == lower(s@) { s.to_lowercase() }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
impl EnumVariantNamed { pub open spec fn def(&self, e: Enum) -> Def { mk_def("struct variant"@, self.name, e.generic, self.attrs, self.fields@) } }
impl EnumVariantUnnamed { pub open spec fn def(&self, e: Enum) -> Def { mk_def("tuple variant"@, self.name, e.generic, self.attrs, self.fields@) } }
impl EnumVariantUnit { pub open spec fn def(&self, e: Enum) -> Def { mk_def("unit variant"@, self.name, e.generic, self.attrs, Seq::<NamedField>::empty()) } }
impl EnumVariant {
    pub open spec fn id(&self) -> syn::Ident { match *self { EnumVariant::Named(n) => n.name, EnumVariant::Unnamed(n) => n.name, EnumVariant::Unit(n) => n.name } }
    pub open spec fn def(&self, e: Enum) -> Def { match *self { EnumVariant::Named(n) => n.def(e), EnumVariant::Unnamed(n) => n.def(e), EnumVariant::Unit(n) => n.def(e) } }
    pub open spec fn wf(&self) -> bool { match *self { EnumVariant::Named(n) => wf_fields(n.fields@), EnumVariant::Unnamed(n) => wf_fields(n.fields@), EnumVariant::Unit(n) => true } }
    /// the value: the variant with its fields in their places
    pub open spec fn res(&self, e: Enum) -> Q { match *self {
        EnumVariant::Named(n) => seq![Stmt::ResNamed(e.name.q(), n.name.q(), fnames(n.def(e).fields))],
        EnumVariant::Unnamed(n) => seq![Stmt::ResTuple(e.name.q(), n.name.q(), fnames(n.def(e).fields))],
        EnumVariant::Unit(n) => seq![Stmt::ResUnit(e.name.q(), n.name.q())] } }
    /// the pair of functions it gets, whatever they are called
    pub open spec fn vimpl(&self, e: Enum, made: Stmt) -> Stmt {
        Stmt::VImpl(ids(e.args@), e.name.q(), seq![Stmt::FnParse(made_parse(made), qt(e.generic))], def_parse(self.def(e)), self.res(e), seq![Stmt::FnPeek(made_peek(made), qt(e.generic))], def_peek(self.def(e)))
    }
}
pub open spec fn vimpls(vs: Seq<EnumVariant>, e: Enum, made: Q) -> Q { Seq::new(vs.len(), |i: int| vs[i].vimpl(e, made[i])) }
pub mod made_lib {
    use vstd::prelude::*;
    use super::*;
    /// the names of the functions that were made
    pub open spec fn made_parse(s: Stmt) -> Q { s->VImpl_2[0]->FnParse_0 }
    pub open spec fn made_peek(s: Stmt) -> Q { s->VImpl_5[0]->FnPeek_0 }
    pub open spec fn vtries(made: Q) -> Q { Seq::new(made.len(), |i: int| Stmt::VTry(made_parse(made[i]))) }
    pub open spec fn ptries(made: Q) -> Q { Seq::new(made.len(), |i: int| Stmt::PTry(made_peek(made[i]))) }
    pub open spec fn since(q: Q, n: nat) -> Q { q.subrange(n as int, q.len() as int) }
    pub open spec fn most(q: Q) -> Q { q.subrange(0, q.len() - 1) }
    pub broadcast proof fn most_add(a: Q, b: Q) requires b.len() == 1 ensures #[trigger] most(a + b) == a { assert(most(a + b) =~= a); }
    pub broadcast proof fn vtries_add(a: Q, b: Q) ensures #[trigger] vtries(a + b) == vtries(a) + vtries(b) { assert(vtries(a + b) =~= vtries(a) + vtries(b)); }
    pub broadcast proof fn ptries_add(a: Q, b: Q) ensures #[trigger] ptries(a + b) == ptries(a) + ptries(b) { assert(ptries(a + b) =~= ptries(a) + ptries(b)); }
    pub broadcast proof fn since_add(a: Q, b: Q, n: nat) requires n <= a.len() ensures #[trigger] since(a + b, n) == since(a, n) + b { assert(since(a + b, n) =~= since(a, n) + b); }
}
pub use made_lib::*;
pub open spec fn of_enum(n: Seq<char>) -> Seq<char> { "enum `"@ + n + "`"@ }
pub open spec fn no_variant(n: Seq<char>) -> Seq<char> { "no variants of "@ + n + " could be parsed"@ }
impl Enum {
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.variants@.len() ==> (#[trigger] self.variants@[i]).wf() }
    /// everything that is made of it
    pub open spec fn made(&self, made: Q) -> Q {
        vimpls(self.variants@, *self, most(made)) + seq![Stmt::EImpl(head(self.generic, self.name, self.args@), qt(self.generic), self.parse(most(made)), self.peek(most(made)))]
    }
    pub open spec fn parse0(&self) -> Q { ig_decl(self.attrs.ignore@, self.generic) + fix_parse(self.attrs.prefix, "prefix"@, of_enum(self.name.name()), self.generic) + seq![Stmt::VStart] }
    pub open spec fn peek0(&self) -> Q { ig_decl(self.attrs.ignore@, self.generic) + fix_peek(self.attrs.prefix, self.generic) + seq![Stmt::PStart] }
    pub open spec fn parse(&self, made: Q) -> Q { self.parse0() + vtries(made) + seq![Stmt::VEnd(qs(no_variant(self.name.name())))] + fix_parse(self.attrs.suffix, "suffix"@, of_enum(self.name.name()), self.generic) }
    pub open spec fn peek(&self, made: Q) -> Q { self.peek0() + ptries(made) + seq![Stmt::PEnd] + fix_peek(self.attrs.suffix, self.generic) }
}
//@impl impl EnumVariantNamed
//@fn pub fn fn_impl<'a>(&'a self, enum_: &'a Enum) -> (r: FnImpl<'a, NamedField>)
    ensures quiet(r.def()) =~= quiet(self.def(*enum_)), r.fields@ == self.fields@, // @clause program
        r.def().what == self.def(*enum_).what, // @clause error
//@end
//@fn pub fn result(&self, enum_: &Enum) -> (r: TokenStream)
    ensures r.prog() == EnumVariant::Named(*self).res(*enum_), // @clause program
//@entry
    proof { named_ids(self.fields@); }
//@closure 0
|p0_| -> (r_: &syn::Ident) ensures *r_ == p0_.name
//@end
//@endimpl
//@impl impl EnumVariantUnnamed
//@fn pub fn fn_impl<'a>(&'a self, enum_: &'a Enum) -> (r: FnImpl<'a, UnnamedField>)
    ensures quiet(r.def()) =~= quiet(self.def(*enum_)), r.fields@ == self.fields@, // @clause program
        r.def().what == self.def(*enum_).what, // @clause error
//@end
//@fn pub fn result(&self, enum_: &Enum) -> (r: TokenStream)
    requires self.fields@.len() <= usize::MAX
    ensures r.prog() == EnumVariant::Unnamed(*self).res(*enum_), // @clause program
//@entry
    proof { unnamed_ids(self.fields@); }
//@closure 0
|p0_| -> (r_: syn::Ident) ensures r_.name() == p0_.1.fname(p0_.0)
//@end
//@endimpl
//@impl impl EnumVariantUnit
//@fn pub fn fn_impl<'a>(&'a self, enum_: &'a Enum) -> (r: FnImpl<'a, NamedField>)
    ensures r.fields@ =~= Seq::<NamedField>::empty(), quiet(r.def()) =~= quiet(self.def(*enum_)), // @clause program
        r.def().what == self.def(*enum_).what, // @clause error
//@end
//@fn pub fn result(&self, enum_: &Enum) -> (r: TokenStream)
    ensures r.prog() == EnumVariant::Unit(*self).res(*enum_), // @clause program
//@end
//@endimpl
//@impl impl ToTokens for Enum => impl Enum
//@fn pub fn to_tokens(&self, tokens: &mut TokenStream)
    requires self.wf()
    ensures same_impl(final(tokens).prog(), old(tokens).prog() + self.made(since(final(tokens).prog(), old(tokens).prog().len()))), // @clause program
        same_impl_errors(final(tokens).prog(), old(tokens).prog() + self.made(since(final(tokens).prog(), old(tokens).prog().len()))), // @clause error
        same_impl_peek(final(tokens).prog(), old(tokens).prog() + self.made(since(final(tokens).prog(), old(tokens).prog().len()))), // @clause peek_program
        all_same(final(tokens).prog(), old(tokens).prog() + self.made(since(final(tokens).prog(), old(tokens).prog().len()))), // @clause both
//@attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@entry
    hide(def_parse); hide(def_peek); hide(fix_parse); hide(fix_peek); hide(ig_decl); hide(fds);
    let ghost v0 = self.variants@; let ghost e0 = *self; let ghost t0 = tokens.prog();
    broadcast use {made_lib::vtries_add, made_lib::ptries_add, made_lib::since_add, made_lib::most_add};
    proof { assert(since(t0, t0.len()) =~= Q::empty()); assert(vtries(Q::empty()) =~= Q::empty()); assert(ptries(Q::empty()) =~= Q::empty()); assert(vimpls(v0.take(0), e0, Q::empty()) =~= Q::empty()); }
//@loop 0
    invariant
        $it0@.len() <= v0.len(), forall|k: int| 0 <= k < $it0@.len() ==> *(#[trigger] $it0@[k]) == v0[v0.len() - $it0@.len() + k],
        *$new0.generic == e0.generic, $new0.after_each.prog() == skip(e0.generic),
        same($new0.parse_impl.prog(), e0.parse0() + vtries(since(tokens.prog(), t0.len()))), // @clause program
        same_errors($new0.parse_impl.prog(), e0.parse0() + vtries(since(tokens.prog(), t0.len()))), // @clause error
        all_same($new0.parse_impl.prog(), e0.parse0() + vtries(since(tokens.prog(), t0.len()))), // @clause both
        $new0.peek_impl.prog() =~= e0.peek0() + ptries(since(tokens.prog(), t0.len())), // @clause peek_program
        same_impl(tokens.prog(), t0 + vimpls(v0.take(v0.len() - $it0@.len()), e0, since(tokens.prog(), t0.len()))), // @clause program
        same_impl_errors(tokens.prog(), t0 + vimpls(v0.take(v0.len() - $it0@.len()), e0, since(tokens.prog(), t0.len()))), // @clause error
        same_impl_peek(tokens.prog(), t0 + vimpls(v0.take(v0.len() - $it0@.len()), e0, since(tokens.prog(), t0.len()))), // @clause peek_program
        all_same(tokens.prog(), t0 + vimpls(v0.take(v0.len() - $it0@.len()), e0, since(tokens.prog(), t0.len()))), // @clause both
    ensures $it0@.len() == 0
    decreases $it0@.len()
//@body 0
    proof {
        let n = v0.len() - $it0@.len();
        if n < v0.len() {
            assert(*$it0@[0] == v0[n]); assert(v0[n].wf());
            let m = since(tokens.prog(), t0.len());
            assert forall|x: Stmt| #[trigger] vimpls(v0.take(n + 1), e0, m + seq![x]) =~= vimpls(v0.take(n), e0, m) + seq![v0[n].vimpl(e0, x)] by {}
        } else { assert(v0.take(n) =~= v0); }
    }
//@end
//@endimpl
