// Contracts of the functions that make the derive's definitions from syn's tree, and of the derive itself.

// ---------------------------------------------------------------- syn's tree
pub mod tree {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Punctuated<T> { _p: PhantomData<T> }
    impl<T> Punctuated<T> {
        pub uninterp spec fn view(&self) -> Seq<T>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn push(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    }
    impl<T> Iter_ for Punctuated<T> { type It = VecIter<T>; type Item_ = T; open spec fn left(it: VecIter<T>) -> Seq<T> { it@ } open spec fn items_(self) -> Seq<T> { self@ }
        #[verifier::external_body] fn iter_(self) -> (r: VecIter<T>) { unimplemented!() } }
    pub struct TypeParam { pub ident: syn::Ident, pub rest_: Rest }
    #[verifier::external_body]
    pub struct Rest { _p: () }
    #[verifier::external_body]
    pub struct Generics { _p: () }
    impl Generics {
        /// the type parameters
        pub uninterp spec fn tps(&self) -> Seq<TypeParam>;
        #[verifier::external_body] pub fn type_params(&self) -> (r: VecIter<&TypeParam>) ensures r@ == Seq::new(self.tps().len(), |i: int| &self.tps()[i]) { unimplemented!() }
    }
    pub struct Field { pub attrs: Vec<syn::Attribute>, pub vis: Rest, pub ident: Option<syn::Ident>, pub colon_token: Rest, pub ty: syn::Type }
    pub struct FieldsNamed { pub brace_token: Rest, pub named: Punctuated<Field> }
    pub struct FieldsUnnamed { pub paren_token: Rest, pub unnamed: Punctuated<Field> }
    pub enum Fields { Named(FieldsNamed), Unnamed(FieldsUnnamed), Unit }
    pub struct Variant { pub attrs: Vec<syn::Attribute>, pub ident: syn::Ident, pub fields: Fields, pub discriminant: Rest }
    pub struct DataStruct { pub struct_token: Rest, pub fields: Fields, pub semi_token: Rest }
    pub struct DataEnum { pub enum_token: Rest, pub brace_token: Rest, pub variants: Punctuated<Variant> }
    pub struct DataUnion { pub union_token: Rest, pub fields: FieldsNamed }
    pub enum Data { Struct(DataStruct), Enum(DataEnum), Union(DataUnion) }
    pub struct DeriveInput { pub attrs: Vec<syn::Attribute>, pub vis: Rest, pub ident: syn::Ident, pub generics: Generics, pub data: Data }
    /// what syn guarantees of a tree it parsed: named fields have names
    pub open spec fn named_ok(f: FieldsNamed) -> bool { forall|i: int| 0 <= i < f.named@.len() ==> (#[trigger] f.named@[i]).ident is Some }
    pub open spec fn variant_ok(v: Variant) -> bool { match v.fields { Fields::Named(f) => named_ok(f), _ => true } }
    pub open spec fn tree_ok(d: DeriveInput) -> bool { match d.data {
        Data::Struct(s) => match s.fields { Fields::Named(f) => named_ok(f), _ => true },
        Data::Enum(e) => forall|i: int| 0 <= i < e.variants@.len() ==> variant_ok(#[trigger] e.variants@[i]),
        Data::Union(_) => true } }
    pub struct PathSegment { pub ident: syn::Ident, pub arguments: Rest }
    pub struct TypePath { pub qself: Option<Rest>, pub path: syn::Path }
    /// the type that a path names
    pub uninterp spec fn path_type(p: TypePath) -> syn::Type;
    pub trait Default: Sized { fn default() -> Self; }
    impl Default for Rest { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
}
pub use tree::*;

// ---------------------------------------------------------------- std pieces
impl<'a, T> VecIter<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VecIter<T>) ensures r@ == Seq::new(self@.len(), |i: int| *self@[i]) { unimplemented!() }
}
impl<T> VecIter<T> {
    #[verifier::external_body]
    pub fn collect<B: FromIter_<T>>(self) -> (r: B) ensures B::made_of(self@, r) { unimplemented!() }
}
/// `collect`: a list takes everything; a Result the first error, when there is one
pub trait FromIter_<T>: Sized { spec fn made_of(s: Seq<T>, r: Self) -> bool; }
impl<T> FromIter_<T> for Vec<T> { open spec fn made_of(s: Seq<T>, r: Self) -> bool { r@ == s } }
impl<T, E, B: FromIter_<T>> FromIter_<core::result::Result<T, E>> for core::result::Result<B, E> {
    open spec fn made_of(s: Seq<core::result::Result<T, E>>, r: Self) -> bool { match r {
        Ok(b) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok) && B::made_of(Seq::new(s.len(), |i: int| s[i]->Ok_0), b),
        Err(e) => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err && s[i]->Err_0 == e && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is Ok } }
}
pub trait TryFrom<A>: Sized {
    type Error;
    spec fn takes(a: A) -> bool;
    spec fn good(a: A) -> bool;
    spec fn is_of(a: A, r: Self) -> bool;
    spec fn set_of(a: A, r: Self) -> bool;
    fn try_from(a: A) -> (r: core::result::Result<Self, Self::Error>)
        requires Self::takes(a)
        ensures r is Ok <==> Self::good(a), // @clause verdict
            r is Ok ==> Self::is_of(a, r->Ok_0), // @clause program
            r is Ok ==> Self::set_of(a, r->Ok_0); // @clause value
}
pub trait TryInto<T: TryFrom<Self>>: Sized {
    fn try_into(self) -> (r: core::result::Result<T, T::Error>) requires T::takes(self) ensures r is Ok <==> T::good(self), r is Ok ==> T::is_of(self, r->Ok_0) && T::set_of(self, r->Ok_0);
}
impl<A, T: TryFrom<A>> TryInto<T> for A { fn try_into(self) -> (r: core::result::Result<T, T::Error>) { T::try_from(self) } }

// ---------------------------------------------------------------- what is made of what
pub open spec fn g_good(a: Seq<syn::Attribute>) -> bool { g_of(g_none(), settings(a)) is Some }
pub open spec fn g_got(a: Seq<syn::Attribute>) -> G { g_of(g_none(), settings(a))->0 }
pub open spec fn f_good(a: Seq<syn::Attribute>) -> bool { f_of(f_none(), settings(a)) is Some }
pub open spec fn f_got(a: Seq<syn::Attribute>) -> F { f_of(f_none(), settings(a))->0 }
pub open spec fn is_args(g: Generics, a: Seq<syn::Ident>) -> bool { a =~= Seq::new(g.tps().len(), |i: int| g.tps()[i].ident) }
pub open spec fn all_good<X: TryFrom<Field>>(fs: Seq<Field>) -> bool { forall|i: int| 0 <= i < fs.len() ==> X::good(#[trigger] fs[i]) }
pub open spec fn fields_of<X: TryFrom<Field>>(fs: Seq<Field>, r: Seq<X>) -> bool { r.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> X::is_of(fs[i], #[trigger] r[i]) && X::set_of(fs[i], r[i]) }
/// the items it parses: those of `parse_type`, or any
pub open spec fn is_generic(p: Option<syn::Type>, g: syn::Type) -> bool { match p { Some(t) => g == t, None => exists|q: TypePath| g == #[trigger] path_type(q) && q.path.segments@.len() == 1 && q.qself is None && q.path.leading_colon is None } }
pub broadcast proof fn vec_fits<T>(v: Vec<T>) ensures #[trigger] v@.len() <= usize::MAX { assert(v.len() == v@.len()); }
/// the settings only ever say what an element is, not how many
pub proof fn f_all_listed(f: F, ss: Seq<Seq<TT>>)
    requires f.count is None, f.min is None, f.max is None
    ensures f_all(f, ss) matches Some(x) ==> x.count is None && x.min is None && x.max is None
    decreases ss.len()
{ if ss.len() > 0 { f_all_listed(f, ss.drop_last()); } }

//@impl impl TryFrom<syn::Field> for NamedField => impl TryFrom<Field> for NamedField
    type Error = syn::Error;
    open spec fn takes(a: Field) -> bool { a.ident is Some }
    open spec fn good(a: Field) -> bool { f_good(a.attrs@) }
    open spec fn is_of(a: Field, r: Self) -> bool { r.name == a.ident->0 && r.ty == a.ty }
    open spec fn set_of(a: Field, r: Self) -> bool { r.attrs.st() == f_got(a.attrs@) && listed(r.attrs) }
//@fn fn try_from(field: syn::Field) -> (r: syn::Result<Self>)
//@entry
    proof { if settings(field.attrs@) is Some { f_all_listed(f_none(), settings(field.attrs@)->0); } }
//@end
//@endimpl
//@impl impl TryFrom<syn::Field> for UnnamedField => impl TryFrom<Field> for UnnamedField
    type Error = syn::Error;
    open spec fn takes(a: Field) -> bool { true }
    open spec fn good(a: Field) -> bool { f_good(a.attrs@) }
    open spec fn is_of(a: Field, r: Self) -> bool { r.ty == a.ty }
    open spec fn set_of(a: Field, r: Self) -> bool { r.attrs.st() == f_got(a.attrs@) && listed(r.attrs) }
//@fn fn try_from(field: syn::Field) -> (r: syn::Result<Self>)
//@entry
    proof { if settings(field.attrs@) is Some { f_all_listed(f_none(), settings(field.attrs@)->0); } }
//@end
//@endimpl

//@fn pub fn parse_or(parse_type: &Option<syn::Type>) -> (r: syn::Type)
    ensures is_generic(*parse_type, r), // @clause program
//@end

//@impl impl Named
//@fn pub fn new(name: syn::Ident, generics: syn::Generics, attrs: Vec<syn::Attribute>, fields: syn::FieldsNamed) -> (r: syn::Result<Self>)
    requires named_ok(fields)
    ensures
        r is Ok <==> g_good(attrs@) && all_good::<NamedField>(fields.named@), // @clause verdict
        r is Ok ==> r->Ok_0.name == name && is_args(generics, r->Ok_0.args@) && fields_of(fields.named@, r->Ok_0.fields@) && is_generic(r->Ok_0.attrs.parse_type, r->Ok_0.generic), // @clause program
        r is Ok ==> r->Ok_0.attrs.st() == g_got(attrs@), // @clause value
        r is Ok ==> wf_fields(r->Ok_0.fields@), // @clause both
//@entry
    broadcast use vec_fits;
//@closure 0
|p0_| -> (r_: syn::Ident)
    ensures r_ == p0_.ident, // @clause program
//@closure 1
|p1_| -> (r_: syn::Result<NamedField>)
    requires NamedField::takes(p1_)
    ensures r_ is Ok <==> NamedField::good(p1_), // @clause verdict
        r_ is Ok ==> NamedField::is_of(p1_, r_->Ok_0) && NamedField::set_of(p1_, r_->Ok_0), // @clause program
//@end
//@endimpl
//@impl impl Unnamed
//@fn pub fn new(name: syn::Ident, generics: syn::Generics, attrs: Vec<syn::Attribute>, fields: syn::FieldsUnnamed) -> (r: syn::Result<Self>)
    ensures
        r is Ok <==> g_good(attrs@) && all_good::<UnnamedField>(fields.unnamed@), // @clause verdict
        r is Ok ==> r->Ok_0.name == name && is_args(generics, r->Ok_0.args@) && fields_of(fields.unnamed@, r->Ok_0.fields@) && is_generic(r->Ok_0.attrs.parse_type, r->Ok_0.generic), // @clause program
        r is Ok ==> r->Ok_0.attrs.st() == g_got(attrs@), // @clause value
        r is Ok ==> wf_fields(r->Ok_0.fields@), // @clause both
//@entry
    broadcast use vec_fits;
//@closure 0
|p0_| -> (r_: syn::Ident)
    ensures r_ == p0_.ident, // @clause program
//@closure 1
|p1_| -> (r_: syn::Result<UnnamedField>)
    requires UnnamedField::takes(p1_)
    ensures r_ is Ok <==> UnnamedField::good(p1_), // @clause verdict
        r_ is Ok ==> UnnamedField::is_of(p1_, r_->Ok_0) && UnnamedField::set_of(p1_, r_->Ok_0), // @clause program
//@end
//@endimpl
//@impl impl Unit
//@fn pub fn new(name: syn::Ident, generics: syn::Generics, attrs: Vec<syn::Attribute>) -> (r: syn::Result<Self>)
    ensures
        r is Ok <==> g_good(attrs@), // @clause verdict
        r is Ok ==> r->Ok_0.name == name && is_args(generics, r->Ok_0.args@) && is_generic(r->Ok_0.attrs.parse_type, r->Ok_0.generic), // @clause program
        r is Ok ==> r->Ok_0.attrs.st() == g_got(attrs@), // @clause value
//@closure 0
|p0_| -> (r_: syn::Ident)
    ensures r_ == p0_.ident, // @clause program
//@end
//@endimpl

/// a variant's settings: its own, its enum's ignore types behind its own, its enum's item type
pub open spec fn variant_got(v: Seq<syn::Attribute>, e: G) -> G { G { ignore: g_got(v).ignore + e.ignore, parse_type: e.parse_type, ..g_got(v) } }
pub open spec fn variant_good(v: Variant) -> bool { g_good(v.attrs@) && match v.fields { Fields::Named(f) => all_good::<NamedField>(f.named@), Fields::Unnamed(f) => all_good::<UnnamedField>(f.unnamed@), Fields::Unit => true } }
pub open spec fn variant_is(v: Variant, r: EnumVariant) -> bool {
    match (v.fields, r) {
        (Fields::Named(f), EnumVariant::Named(n)) => n.name == v.ident && fields_of(f.named@, n.fields@),
        (Fields::Unnamed(f), EnumVariant::Unnamed(n)) => n.name == v.ident && fields_of(f.unnamed@, n.fields@),
        (Fields::Unit, EnumVariant::Unit(n)) => n.name == v.ident,
        _ => false,
    }
}
impl EnumVariant { pub open spec fn gs(&self) -> G { match *self { EnumVariant::Named(n) => n.attrs.st(), EnumVariant::Unnamed(n) => n.attrs.st(), EnumVariant::Unit(n) => n.attrs.st() } } }
//@impl impl Enum
//@fn pub fn new(name: syn::Ident, generics: syn::Generics, attrs: Vec<syn::Attribute>, enum_data: syn::DataEnum) -> (r: syn::Result<Self>)
    requires forall|i: int| 0 <= i < enum_data.variants@.len() ==> variant_ok(#[trigger] enum_data.variants@[i])
    ensures
        r is Ok <==> g_good(attrs@) && forall|i: int| 0 <= i < enum_data.variants@.len() ==> variant_good(#[trigger] enum_data.variants@[i]), // @clause verdict
        r is Ok ==> r->Ok_0.name == name && is_args(generics, r->Ok_0.args@) && is_generic(r->Ok_0.attrs.parse_type, r->Ok_0.generic), // @clause program
        r is Ok ==> r->Ok_0.variants@.len() == enum_data.variants@.len() && forall|i: int| 0 <= i < enum_data.variants@.len() ==> variant_is(enum_data.variants@[i], #[trigger] r->Ok_0.variants@[i]), // @clause program
        r is Ok ==> r->Ok_0.attrs.st() == g_got(attrs@) && forall|i: int| 0 <= i < enum_data.variants@.len() ==> (#[trigger] r->Ok_0.variants@[i]).gs() == variant_got(enum_data.variants@[i].attrs@, g_got(attrs@)), // @clause value
        r is Ok ==> r->Ok_0.wf(), // @clause both
//@entry
    broadcast use vec_fits;
//@closure 0
|p0_| -> (r_: syn::Ident)
    ensures r_ == p0_.ident, // @clause program
//@closure 1
|p1_| -> (r_: syn::Result<EnumVariant>)
    requires variant_ok(p1_)
    ensures r_ is Ok <==> variant_good(p1_), // @clause verdict
        r_ is Ok ==> variant_is(p1_, r_->Ok_0), // @clause program
        r_ is Ok ==> r_->Ok_0.gs() == variant_got(p1_.attrs@, attrs.st()), // @clause value
//@closure 2
|p2_| -> (r_: syn::Result<NamedField>)
    requires NamedField::takes(p2_)
    ensures r_ is Ok <==> NamedField::good(p2_), // @clause verdict
        r_ is Ok ==> NamedField::is_of(p2_, r_->Ok_0) && NamedField::set_of(p2_, r_->Ok_0), // @clause program
//@closure 3
|p3_| -> (r_: syn::Result<UnnamedField>)
    requires UnnamedField::takes(p3_)
    ensures r_ is Ok <==> UnnamedField::good(p3_), // @clause verdict
        r_ is Ok ==> UnnamedField::is_of(p3_, r_->Ok_0) && UnnamedField::set_of(p3_, r_->Ok_0), // @clause program
//@end
//@endimpl

// ---------------------------------------------------------------- the derive
pub mod proc_macro {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct TokenStream { _p: () }
    impl TokenStream {
        /// the definition it spells
        pub uninterp spec fn tree(&self) -> Option<DeriveInput>;
        pub uninterp spec fn prog(&self) -> Seq<Stmt>;
    }
}
/// that the compiler shows an error
pub uninterp spec fn refuses(q: Q) -> bool;
#[verifier::external_body]
pub fn parse_input_<T>(s: proc_macro::TokenStream) -> (r: core::result::Result<DeriveInput, proc_macro::TokenStream>)
    ensures r is Ok <==> s.tree() is Some, r is Ok ==> s.tree() == Some(r->Ok_0) && tree_ok(r->Ok_0), r is Err ==> refuses(r->Err_0.prog())
{ unimplemented!() }
impl DeriveInput { #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() } }
impl syn::Error {
    #[verifier::external_body] pub fn to_compile_error(&self) -> (r: TokenStream) ensures refuses(r.prog()) { unimplemented!() }
    #[verifier::external_body] pub fn into_compile_error(self) -> (r: TokenStream) ensures refuses(r.prog()) { unimplemented!() }
}
impl Into<proc_macro::TokenStream> for TokenStream {
    uninterp spec fn into_spec(self) -> proc_macro::TokenStream;
    #[verifier::external_body]
    fn into(self) -> (r: proc_macro::TokenStream) { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn into_keeps(t: TokenStream) ensures #[trigger] <TokenStream as Into<proc_macro::TokenStream>>::into_spec(t).prog() == t.prog() {}
// ToTokens::into_token_stream
impl Named { pub fn into_token_stream(self) -> (r: TokenStream) requires wf_fields(self.fields@) ensures r.prog() == self.all() { let mut t = TokenStream::new(); self.to_tokens(&mut t); proof { assert(t.prog() =~= self.all()); } t } }
impl Unnamed { pub fn into_token_stream(self) -> (r: TokenStream) requires wf_fields(self.fields@) ensures r.prog() == self.all() { let mut t = TokenStream::new(); self.to_tokens(&mut t); proof { assert(t.prog() =~= self.all()); } t } }
impl Unit { pub fn into_token_stream(self) -> (r: TokenStream) ensures r.prog() == self.all() { let mut t = TokenStream::new(); self.to_tokens(&mut t); proof { assert(t.prog() =~= self.all()); } t } }
impl Enum { pub fn into_token_stream(self) -> (r: TokenStream) requires self.wf() ensures r.prog() == self.made(r.prog()) { let mut t = TokenStream::new(); self.to_tokens(&mut t); proof { assert(t.prog() =~= self.made(t.prog())) by { assert(since(t.prog(), 0) =~= t.prog()); } } t } }
impl Named { pub open spec fn all(&self) -> Q { seq![Stmt::ImplNamed(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), fnames(self.def().fields), def_peek(self.def()))] } }
impl Unnamed { pub open spec fn all(&self) -> Q { seq![Stmt::ImplTuple(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), fnames(self.def().fields), def_peek(self.def()))] } }
impl Unit { pub open spec fn all(&self) -> Q { seq![Stmt::ImplUnit(head(self.generic, self.name, self.args@), qt(self.generic), def_parse(self.def()), self.name.q(), def_peek(self.def()))] } }

pub open spec fn named_good(d: DeriveInput, f: FieldsNamed) -> bool { g_good(d.attrs@) && all_good::<NamedField>(f.named@) }
pub open spec fn named_is(d: DeriveInput, f: FieldsNamed, r: Named) -> bool { r.name == d.ident && is_args(d.generics, r.args@) && fields_of(f.named@, r.fields@) && r.attrs.st() == g_got(d.attrs@) && is_generic(r.attrs.parse_type, r.generic) }
pub open spec fn unnamed_good(d: DeriveInput, f: FieldsUnnamed) -> bool { g_good(d.attrs@) && all_good::<UnnamedField>(f.unnamed@) }
pub open spec fn unnamed_is(d: DeriveInput, f: FieldsUnnamed, r: Unnamed) -> bool { r.name == d.ident && is_args(d.generics, r.args@) && fields_of(f.unnamed@, r.fields@) && r.attrs.st() == g_got(d.attrs@) && is_generic(r.attrs.parse_type, r.generic) }
pub open spec fn unit_is(d: DeriveInput, r: Unit) -> bool { r.name == d.ident && is_args(d.generics, r.args@) && r.attrs.st() == g_got(d.attrs@) && is_generic(r.attrs.parse_type, r.generic) }
pub open spec fn enum_good(d: DeriveInput, e: DataEnum) -> bool { g_good(d.attrs@) && forall|i: int| 0 <= i < e.variants@.len() ==> variant_good(#[trigger] e.variants@[i]) }
pub open spec fn enum_is(d: DeriveInput, e: DataEnum, r: Enum) -> bool {
    r.name == d.ident && is_args(d.generics, r.args@) && r.attrs.st() == g_got(d.attrs@) && is_generic(r.attrs.parse_type, r.generic) && r.variants@.len() == e.variants@.len()
    && forall|i: int| 0 <= i < e.variants@.len() ==> variant_is(e.variants@[i], #[trigger] r.variants@[i]) && r.variants@[i].gs() == variant_got(e.variants@[i].attrs@, g_got(d.attrs@))
}
/// what the derive makes of a definition
pub open spec fn derived(d: DeriveInput, q: Q) -> bool { match d.data {
    Data::Struct(s) => match s.fields {
        Fields::Named(f) => named_good(d, f) ==> exists|x: Named| named_is(d, f, x) && q == #[trigger] x.all(),
        Fields::Unnamed(f) => unnamed_good(d, f) ==> exists|x: Unnamed| unnamed_is(d, f, x) && q == #[trigger] x.all(),
        Fields::Unit => g_good(d.attrs@) ==> exists|x: Unit| unit_is(d, x) && q == #[trigger] x.all() },
    Data::Enum(e) => enum_good(d, e) ==> exists|x: Enum| enum_is(d, e, x) && q == #[trigger] x.made(q),
    Data::Union(_) => true } }
/// a definition that has a meaning
pub open spec fn sound(d: DeriveInput) -> bool { match d.data {
    Data::Struct(s) => match s.fields { Fields::Named(f) => named_good(d, f), Fields::Unnamed(f) => unnamed_good(d, f), Fields::Unit => g_good(d.attrs@) },
    Data::Enum(e) => enum_good(d, e),
    Data::Union(_) => false } }
pub type ProcStream = proc_macro::TokenStream;
//@fn pub fn derive_parse(input: ProcStream) -> (r: ProcStream)
    ensures
        input.tree() matches Some(d) ==> derived(d, r.prog()), // @clause program
        input.tree() is None || !sound(input.tree()->0) ==> refuses(r.prog()), // @clause verdict
//@entry
    hide(def_parse); hide(def_peek); hide(g_of); hide(f_of); hide(settings);
    broadcast use into_keeps;
//@opts ren:TokenStream=ProcStream
//@end
pub mod struct_impl { pub use super::{Named, Unit, Unnamed}; }
pub mod enum_impl { pub use super::{Enum, EnumVariant, EnumVariantNamed, EnumVariantUnit, EnumVariantUnnamed}; }
pub mod attr { pub use super::{FieldAttr, GlobalAttr, VecFieldAttr}; }
pub mod parsers { pub use super::{FieldType, NamedField, UnnamedField}; }
pub mod fn_impl { pub use super::{parse_or, BuildOutput, Builder, FnImpl}; }
