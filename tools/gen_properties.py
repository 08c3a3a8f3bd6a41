#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

BUF = "nommy/src/buffer.rs"
BUFSTATE = [("Buf.buffer", "items pulled from the source and not yet consumed", BUF),
            ("Buf.iter", "the source; its items follow those in the buffer", BUF),
            ("Cursor.base / Cursor.index", "offset of the cursor's start, and of its read head, from the front of the shared buffer", BUF)]

p("C01", "Reading through a cursor never disturbs its parent",
  "Whatever sequence of reads, peeks, skips, resets and child cursors is performed through a cursor, once the cursor is gone the buffer or cursor it was made from yields exactly the items, from exactly the position, it would have yielded had the cursor never existed. This holds at every nesting depth and also when the cursor runs into or past the end of the input. A new cursor starts at its parent's current read position.",
  ["inputs", "histories"], "every source sequence, every parent state, every sequence of operations through the cursor and its descendants",
  "The two buffer tests walk one fixed history each; isolation is a statement about every history of operations on arbitrarily nested cursors.",
  [BUF], [("Cursor reads only through peek_ahead", BUF + ": impl Iterator/Buffer for Cursor"), ("Cursor::cursor rebases onto the shared base buffer", BUF), ("Buf::peek_ahead keeps what it pulls", BUF)], BUFSTATE, ["Buffer::cursor", "Iterator::next"])

p("C02", "Buffers replay their source faithfully, in order and lazily",
  "For a source whose end is final, any interleaving of next, peek_ahead and fast_forward on a buffer observes the source's items in order, with none lost, duplicated or invented: peek_ahead(i) returns the item that i+1 calls of next would return last and changes nothing, and fast_forward(n) has the effect of n calls of next for every n. Nothing is taken from the source until a call needs it, and a call takes no more items than it has to in order to reach the item or position asked for.",
  ["inputs", "histories"], "every source sequence (any length), every interleaving of the operations, every index and count that a usize can hold",
  "Unit tests exercise a few calls on one string; off-by-one errors in the split between buffered and unread items only show for particular combinations of buffered length, index and end of input.",
  [BUF], [("Buf::next / fast_forward / peek_ahead", BUF), ("Buf::new", BUF)], BUFSTATE, ["Buffer", "Iterator::next"])

p("C03", "A cursor's position is exactly how far it has read",
  "A cursor's position is the number of items it has consumed since it was created or last reset, plus any count it was told to skip; reading at the end of the input adds nothing to it, and very large skips saturate instead of wrapping round or panicking. Advancing the parent by a cursor's position leaves the parent yielding exactly what the cursor would have yielded next, at any nesting depth. Resetting a cursor returns it to where it started.",
  ["inputs", "histories"], "every source sequence, every history of operations on nested cursors, every skip count a usize can hold",
  "Committing by position is how every combinator backtracks; the tests check the position for two fixed histories, none of them at the end of the input or with large counts.",
  [BUF], [("Cursor::next / fast_forward / position / reset_internal", BUF), ("Buf::fast_forward", BUF)], BUFSTATE, ["Cursor::position", "Buffer::fast_forward"])

p("C04", "peek and parse agree for every library parser",
  "For every parser the library provides (text and byte lexemes, Option, Vec, Vec1, Box, arrays) and every input, peek returns true exactly when parse would succeed, and when they succeed both have consumed exactly the same items. For parsers built from other parsers this holds whenever it holds for the parts, and a parser that does not override peek agrees by default.",
  ["inputs", "configurations"], "every input sequence, every choice of tag/character set, every component parser",
  "peek and parse are written separately and tests call one or the other on a few strings; agreement quantifies over all inputs and component parsers.",
  ["nommy/src/lib.rs", "nommy/src/impls.rs", "nommy/src/text/tag.rs", "nommy/src/text/many.rs", "nommy/src/text/one_of.rs", "nommy/src/text/mod.rs", "nommy/src/bytes/tag.rs", "nommy/src/bytes/many.rs", "nommy/src/bytes/one_of.rs"],
  [("every impl of Parse::peek", "nommy/src"), ("default Parse::peek", "nommy/src/lib.rs")], None, ["Parse::peek", "Parse::parse"])

p("C05", "Tag matches exactly its text or bytes",
  "Parsing or peeking a text or byte tag succeeds exactly when the remaining input begins with the whole tag, for every tag (empty, ASCII or any other Unicode text) and whatever follows it. On success exactly the tag's characters or bytes have been consumed and nothing after them has been touched.",
  ["inputs", "configurations"], "every tag and every input sequence",
  "Tests use one-character ASCII tags; the property ranges over all tags (multi-byte characters included) and all continuations of the input.",
  ["nommy/src/text/tag.rs", "nommy/src/bytes/tag.rs"], [("Tag::parse / Tag::peek", "nommy/src/text/tag.rs, nommy/src/bytes/tag.rs")], None, ["Tag::parse", "Tag::peek"])

p("C06", "Character-class parsers take exactly the longest matching run",
  "OneOf succeeds exactly when the next item is in its set, consumes just that item and returns it. AnyOf and AnyOf1 consume and return exactly the longest prefix of items in the set, WhileNot1 the longest prefix of items not in the set; AnyOf always succeeds, the other two fail exactly when that prefix is empty, and the input ending ends the run. Peeking succeeds and consumes likewise. The parsed value converts into exactly the matched text or bytes, and AnyOf1's into a number exactly when that text spells one.",
  ["inputs", "configurations"], "every set of characters or bytes and every input sequence",
  "The doc-tests each parse one string that does not end within the run; longest-match and end-of-input behaviour quantify over all inputs and sets.",
  ["nommy/src/text/one_of.rs", "nommy/src/text/many.rs", "nommy/src/bytes/one_of.rs", "nommy/src/bytes/many.rs"],
  [("run loops", "nommy/src/text/many.rs, nommy/src/bytes/many.rs"), ("set membership", "nommy/src/text/one_of.rs, nommy/src/bytes/one_of.rs")], None, ["Parse::parse", "From<AnyOf> for String", "From<OneOf> for char", "TryFrom<AnyOf1> for usize"])

p("C07", "Space, WhiteSpace and LineEnding accept exactly their lexemes",
  "Space accepts exactly one space or tab; LineEnding accepts exactly a newline or a carriage return followed by a newline; WhiteSpace accepts exactly one space, tab, newline, or carriage return followed by a newline. Each, parsed or peeked, consumes just that lexeme on success and fails on everything else, including other Unicode white space, a lone carriage return and the end of input.",
  ["inputs"], "every input sequence",
  "Tests parse three fixed strings and never a rejected one.",
  ["nommy/src/text/mod.rs"], [("Space/WhiteSpace/LineEnding::peek and parse", "nommy/src/text/mod.rs")], None, ["Parse::parse", "Parse::peek"])

p("C08", "Vec and Vec1 collect every consecutive match and give back the rest",
  "For a component parser that never succeeds without consuming, Vec parses it repeatedly until it first fails, always succeeds, and returns the parsed values in input order; Vec1 does the same but fails exactly when the first attempt fails. After success the input stands exactly behind the last successful element: the failed attempt that ended the repetition leaves no trace, however much it read. Peeking them succeeds and consumes likewise.",
  ["inputs", "configurations"], "every component parser and every input sequence",
  "Tests repeat a one-character tag, which reads a single item before it fails; the property is about every component, including those that read far before failing.",
  ["nommy/src/impls.rs"], [("Vec / Vec1 parse and peek loops", "nommy/src/impls.rs"), ("cursor per attempt, commit by position", "nommy/src/impls.rs")], None, ["Vec::<P>::parse", "Vec1::<P>::parse"])

p("C09", "Option never fails and Box is transparent",
  "For a component parser that never succeeds without consuming, parsing an Option always succeeds: it is Some of the component's value, having consumed what the component consumed, exactly when the component succeeds, and otherwise None with nothing consumed, however much the failed attempt read. Peeking an Option succeeds and consumes likewise. Parsing or peeking a Box behaves exactly as the boxed type does.",
  ["inputs", "configurations"], "every component parser and every input sequence",
  "Two tests cover Option of a one-character tag, on a match and on the empty input.",
  ["nommy/src/impls.rs"], [("impl Parse for Option<P> and Box<P>", "nommy/src/impls.rs")], None, ["Option::<P>::parse", "Box::<P>::parse"])

p("C10", "Fixed-size arrays parse exactly N elements and handle memory soundly",
  "Parsing an array of N elements succeeds exactly when the component parser succeeds N times in a row, consumes exactly what those parses consume and holds their values in order; it fails at the first failing element. Peeking succeeds and consumes likewise. Every element parsed is dropped exactly once, by whoever owns the array or, when a later element fails, during that failure; memory that was never initialised is never read, dropped or returned.",
  ["inputs", "configurations"], "every N, every component parser (with or without a destructor) and every input sequence",
  "The one test parses three zero-sized values without a destructor; uninitialised drops and leaks are invisible for those.",
  ["nommy/src/impls.rs"], [("impl Parse for [P; N]", "nommy/src/impls.rs")], None, ["<[P; N]>::parse"])

p("C11", "List helpers honour separators, trailing rule, ignore and maximum",
  "The four list parsers (plain, separated, separated with mandatory trailing separator, separated with optional trailing separator) return, in order and converted, exactly the elements of the longest list of at most max elements that their grammar allows at the input's position, skipping ignored items only between the parts of the list. On success the input stands exactly behind that list: behind the last element (plain and separated), behind the last separator and ignored items after it (mandatory trailing), or behind the last element with the ignored items, separator and further ignored items that follow it (optional trailing). They fail only if an element's conversion fails.",
  ["inputs", "configurations"], "every element, separator and ignore parser that does not succeed without consuming, every conversion, every max and every input sequence",
  "Six tests parse six strings with three fixed parsers; what is left over after a partial element, separator or ignored run quantifies over all inputs and parsers.",
  ["nommy/src/vec.rs"], [("parse_vec, parse_vec_seperated_by, parse_vec_seperated_by_trailing, parse_vec_seperated_by_maybe_trailing", "nommy/src/vec.rs")], None, ["nommy::vec"])

p("C12", "parse and parse_terminated report exactly the parser's verdict",
  "parse returns exactly what the chosen parser returns on the given items from their start. parse_terminated succeeds, with the same value, exactly when that parser succeeds and no item of the input is left over, and otherwise fails.",
  ["inputs", "configurations"], "every parser and every input sequence",
  "One doc-test each.",
  ["nommy/src/lib.rs", BUF], [("parse, parse_terminated", "nommy/src/lib.rs"), ("IntoBuf", BUF)], None, ["nommy::parse", "nommy::parse_terminated"])

D = ["nommy-derive/src/fn_impl.rs", "nommy-derive/src/attr.rs", "nommy-derive/src/struct_impl/named.rs", "nommy-derive/src/struct_impl/unnamed.rs", "nommy-derive/src/struct_impl/unit.rs"]
p("C13", "A derived struct parser is the sequence its definition spells",
  "The parser derived for a struct (named, tuple or unit) succeeds exactly when the input holds, in this order, the type's prefix, then for each field in declaration order its prefix, its value and its suffix, then the type's suffix, where each part that is present is followed by the longest run of ignored items and nothing is ignored before the first part. A field's value is what its parser (the field's type, or the one named by parser or inner_parser with its separator and trailing rule) yields on that part of the input, converted to the field's type. On success exactly that much has been consumed.",
  ["programs", "inputs"], "every struct definition the macro accepts and every input sequence",
  "The trybuild programs parse one or two strings with eight definitions; the property quantifies over definitions, component parsers and inputs.",
  D + ["nommy-derive/src/parsers.rs"], [("Builder::add_fix / add_field / create_ignore", "nommy-derive/src/fn_impl.rs"), ("FnImpl::build", "nommy-derive/src/fn_impl.rs"), ("result construction", "nommy-derive/src/struct_impl")], None, ["derived Parse::parse"])

p("C14", "A derived enum parser takes the first variant that parses",
  "The parser derived for an enum, after the enum's prefix, yields the first variant in declaration order whose own sequence (variant prefix, fields, variant suffix, with the ignored items of both variant and enum skipped after each part) parses at that position, then requires the enum's suffix; it fails when no variant parses. A variant that was tried and failed leaves no trace on the input, however much it read.",
  ["programs", "inputs"], "every enum definition the macro accepts and every input sequence",
  "The enum programs have at most four variants that differ in their first item, so that no variant fails after reading much and order never matters.",
  ["nommy-derive/src/fn_impl.rs", "nommy-derive/src/enum_impl/mod.rs", "nommy-derive/src/enum_impl/named.rs", "nommy-derive/src/enum_impl/unnamed.rs", "nommy-derive/src/enum_impl/unit.rs", "nommy-derive/src/attr.rs"],
  [("Builder::start_variants / add_variant / finish_variants", "nommy-derive/src/fn_impl.rs"), ("GlobalAttr::extend_with", "nommy-derive/src/attr.rs"), ("Cursor::reset_internal", BUF)], None, ["derived Parse::parse"])

p("C15", "Derived peek agrees with derived parse",
  "For every derived struct and enum whose component parsers agree with their own peek and whose conversions cannot fail, the derived peek returns true exactly when the derived parse would succeed, and when they succeed both have consumed exactly the same items. This includes list fields with every separator and trailing setting.",
  ["programs", "inputs"], "every definition the macro accepts and every input sequence",
  "peek and parse are generated by separate templates and no test calls a derived peek except through another parser on one string.",
  ["nommy-derive/src/fn_impl.rs", "nommy-derive/src/enum_impl/mod.rs"], [("peek_impl templates", "nommy-derive/src/fn_impl.rs")], None, ["derived Parse::peek"])

p("C16", "Repetition always ends, and zero-width matches are caught",
  "On every finite input each library parser ends without panicking whenever the parsers it is built from never succeed without consuming. In builds with debug assertions, Vec, Vec1, Option and a derived parser's ignore types end on every finite input for every component parser that does not skip past the end of the input, by panicking when the component succeeds without consuming an item, also at the end of the input.",
  ["inputs", "configurations"], "every component parser and every finite input sequence",
  "Termination for every component and input cannot be sampled; one should_panic doc-test covers Vec of an Option in mid-input.",
  ["nommy/src/impls.rs", "nommy/src/text/many.rs", "nommy/src/vec.rs", "nommy-derive/src/fn_impl.rs", BUF], [("cfg!(debug_assertions) position checks", "nommy/src/impls.rs, nommy-derive/src/fn_impl.rs"), ("Cursor::next counts only items read", BUF)], None, ["Parse::parse", "Parse::peek"])

p("C17", "Derive attributes mean the same however they are grouped",
  "The configuration a derive takes from nommy attributes does not depend on how the settings are spread over attribute blocks: settings in one block, or in several blocks in the same order, mean the same, ignore types accumulate in order and other settings take their last value. A variant's ignore types are its own followed by its enum's. A setting with an unknown name, or with a malformed type or trailing rule, is rejected at compile time rather than skipped.",
  ["programs"], "every list of attribute blocks and settings",
  "The test programs use a dozen fixed attribute spellings and none that must be rejected.",
  ["nommy-derive/src/attr.rs"], [("GlobalAttr / FieldAttr parse_attrs, parse_attr, parse_args, parse_arg, parse_trailing", "nommy-derive/src/attr.rs"), ("GlobalAttr::extend_with", "nommy-derive/src/attr.rs")], None, ["derive(Parse)"])

p("C18", "Parse errors say which part failed",
  "When a derived parser fails, the error reported is that of the first part that failed, in order: the prefix or suffix of the type or of a field, named as such with the type's or field's name; a field, named, with the component's own error as its cause; or, for an enum, that no variant of it could be parsed. An array's error names the index of the first element that failed, with that element's error as its cause, and a failing tag or character class reports itself and what it found instead.",
  ["inputs", "programs"], "every failing input, every definition the macro accepts",
  "Tests compare four error messages.",
  ["nommy-derive/src/fn_impl.rs", "nommy/src/impls.rs", "nommy/src/text/tag.rs", "nommy/src/text/one_of.rs", "nommy/src/bytes/tag.rs", "nommy/src/bytes/one_of.rs"],
  [("wrap_err / eyre! at each step", "nommy-derive/src/fn_impl.rs, nommy/src")], None, ["eyre::Report"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
assert all(len(d["title"]) <= 80 for d in P)
