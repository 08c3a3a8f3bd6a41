"""Which functions and clauses decide which property (see DESIGN.md, "Attribution")."""
import re
LEX_T = r"text::<Parse<char> for %s(<\w+>)?>::%s$"
def lex(names, m): return [LEX_T % ("(" + "|".join(names) + ")", m), r"bytes::<Parse<u8> for (%s)(<\w+>)?>::%s$" % ("|".join(names), m)]
CUR = r"core::<(Iterator|Buffer<T>) for Cursor<'a,T,B>>::(next|fast_forward|peek_ahead)$"
RESET = r"core::<Cursor<'a,T,B>>::reset_internal$"
BUF = r"core::<(Iterator|Buffer<I::Item>) for Buf<I>>::(next|fast_forward|peek_ahead)$"
ANYCL = None
# the derive's generator: what structs and variants share, what only structs have, what only enums have
GEN_ENUM = r"gen::(<(ToTokens for )?Enum\w*>|<Builder<'a>>::\w*variants?\b)"
GEN_STRUCT = r"gen::<(ToTokens for )?(Named|Unnamed|Unit)>"
GEN_ALL = r"gen::(?!<(ToTokens for )?Enum\w*>|<Builder<'a>>::\w*variants?\b|<(ToTokens for )?(Named|Unnamed|Unit)>)"
# property -> [(function key regex, clause kinds or None for all, or "not" + kinds)]
OWN = {
 "C01": [(r"core::<Buffer<.*> for (Buf<I>|Cursor<'a,T,B>)>::cursor$", None), (r"core::<Cursor<'a,T,B>>::new$", None), (CUR, {"frame"}), (RESET, {"frame"}), (r"core::<Buffer<I::Item> for Buf<I>>::peek_ahead$", {"frame", "view", "pos"})],
 "C02": [(BUF, None), (r"core::<Buf<I>>::new$", None), (r"core::<IntoBuf for I>::into_buf$", None), (CUR, {"lazy", "result"})],
 "C03": [(CUR, {"pos", "view", "overflow", "other"}), (RESET, {"pos", "view", "result", "overflow", "other"}), (r"core::<Cursor<'a,T,B>>::position$", None), (r"core::<Cursor<'a,T,B>>::new$", {"pos"}), (r"core::<Buffer<.*> for (Buf<I>|Cursor<'a,T,B>)>::cursor$", {"pos", "overflow", "other"}), (r"core::<Buffer<I::Item> for Buf<I>>::fast_forward$", None)],
 "C05": [(k, {"frame", "verdict", "rest", "value", "other", "overflow"}) for m in ("parse", "peek") for k in lex(["Tag"], m)],
 "C06": [(k, {"frame", "verdict", "rest", "value", "other", "overflow"}) for m in ("parse", "peek") for k in lex(["OneOf", "AnyOf", "AnyOf1", "WhileNot1"], m)] + [(r"(text|bytes)::<From<.*> for (String|char|u8|Vec<u8>)>::from$", None), (r"text::<TryFrom<.*> for usize>::try_from$", None)],
 "C07": [(k, {"frame", "verdict", "rest", "value", "other", "overflow"}) for m in ("parse", "peek") for k in lex(["Space", "WhiteSpace", "LineEnding"], m)],
 "C08": [(r"core::<Parse<T> for Vec1?<P>>::parse$", {"frame", "verdict", "rest", "value", "other"}), (r"core::<From<Vec1<P>> for Vec<P>>::from$", None), (r"core::<AsRef<Vec<P>> for Vec1<P>>::as_ref$", None), (r"core::<AsMut<Vec<P>> for Vec1<P>>::as_mut$", None)],
 "C09": [(r"core::<Parse<T> for Option<P>>::parse$", {"frame", "verdict", "rest", "value", "other"}), (r"core::<Parse<T> for Box<P>>::(parse|peek)$", None)],
 "C10": [(r"core::<Parse<T> for \[P;N\]>::parse$", {"frame", "verdict", "rest", "value", "other", "overflow"})],
 "C11": [(r"vec::parse_vec", {"frame", "verdict", "rest", "value", "other", "overflow"})],
 "C12": [(r"core::parse(_terminated)?$", None), (r"core::<IntoBuf for I>::into_buf$", None), (r"core::<Buf<I>>::new$", None)],
 "C16": [(r".*", {"decreases", "panic", "overflow", "zero"})],
 "C13": [(GEN_ALL, {"program", "other"}), (GEN_STRUCT, {"program", "other"})],
 "C14": [(GEN_ALL, {"program", "other"}), (GEN_ENUM, {"program", "other"}), (r"gen::<Enum>::new$", {"value"})],
 "C17": [(r"attr::", {"verdict", "value", "other", "overflow"}), (r"gen::", {"verdict", "value"})],
 "C18": [(r"(?!attr::).*::parse\w*$", {"error"}), (r"gen::", {"error"})],
}
THMS = {}
def kind(d):
    """what sort of obligation a diagnostic is about"""
    m = d["message"]; t = d["clause_text"] or ""
    if "decreases" in m or "termination" in m.lower(): return "decreases"
    if "overflow" in m or "division by zero" in m: return "overflow"
    if "precondition" in m and re.search(r"fn (panic_|unreached_|assert_|unwrap__|unwrap_)\b|mode_b\(\)|requires false|self\.has\(\)|u\.has\(\)", t): return "panic"
    if d["clause"]: return d["clause"]
    if "postcondition" in m or "invariant" in m or "loop ensures" in m:
        if re.search(r"err", t): return "error"
        if "look()" in t or "iter.view()" in t or "iter ==" in t: return "lazy"
        if "ctx()" in t or "final(" in t and ".buf)" in t and "==" in t and "look" not in t and "*final(" in t: return "frame"
        if "pos()" in t or ".index" in t: return "pos"
        if re.search(r"\br\b *(==|is)|==> *r\b|\br ==", t): return "result"
        if "view()" in t or "start()" in t: return "view"
    return "other"
def owns(prop, key, d):
    k = kind(d)
    if prop in ("C04", "C15"): return None   # decided from pairs, see check.py
    for rx, cl in OWN.get(prop, []):
        if re.match(rx, key) and (cl is None or k in cl or (k == "result" and "other" in cl) or (k == "view" and "rest" in (cl or ()))): return k
    return None
def own_keys(prop, keys):
    if prop == "C04": return [k for k in keys if re.search(r"Parse.*::(peek|parse)$", k) or k.endswith("Parse__default__peek")]
    if prop == "C15": return [k for k in keys if k.startswith("gen::")]
    return [k for k in keys if any(re.match(rx, k) for rx, _ in OWN.get(prop, []))]
DERIVE = {"C13", "C14", "C15", "C16", "C17", "C18"}
ASSUMPTIONS = [
 "A source is a std Iterator whose end is final, whose items can be cloned into equal values, and which holds no more than usize::MAX items",
 "Verus, its Rust front end and Z3 are right; Rust's own type and borrow checking is done again by Verus on the extracted text",
 "The extraction (extract/src) translates faithfully what it translates; what it drops is listed in DESIGN.md (attributes, doc comments, where-clauses, wrapping of error text into eyre)",
 "The contracts of std and eyre items in verus/prelude.vrs (trusted_base) describe the real items",
 "Conversions (TryInto, From) and component parsers are deterministic functions of the items they read; component parsers meet the Parse contract (they report exactly the items they consumed)",
 "Memory allocation does not fail and collections hold at most usize::MAX elements",
]
GEN_ASSUMPTIONS = [
 "Each quoted text of the generator means the statement verus/gen.vrs names for it (//@quote table); that the statements then parse as the property says is decided on the listed definitions, whose expansions are verified one by one",
 "The contracts of syn, quote and proc_macro2 items in verus/attr.vrs and verus/gen.vrs describe the real ones; quote! puts the parts in the order written",
 "syn parses the derive's input into the tree the input spells, with names on named fields; ToTokens::into_token_stream is to_tokens on an empty stream; to_compile_error makes the compiler report an error",
]
EXTRA_ASSUMPTIONS = {
 "C10": ["Rust's ownership rules: the array code contains no unsafe block (Verus rejects it), so every element is owned by exactly one place; destructors themselves are exercised only by the bounded replay"],
 "C13": GEN_ASSUMPTIONS, "C14": GEN_ASSUMPTIONS, "C15": GEN_ASSUMPTIONS,
 "C18": GEN_ASSUMPTIONS,
 "C17": ["The contracts of syn and proc_macro2 items in verus/attr.vrs describe the real ones; whether tokens spell a type is syn's decision (uninterpreted)", "syn parses the derive's input into the tree the input spells, with names on named fields; to_compile_error makes the compiler report an error"],
 "C16": ["debug_assertions_() is cfg!(debug_assertions); mode B is verified with it true, mode A with it unknown"],
}
