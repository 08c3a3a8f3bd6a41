// ================================================================ theorems about buffers: clients verified against the contracts
/// any way of using a buffer or cursor, with child cursors nested to any depth
pub enum Script { End, Next(Box<Script>), Peek(usize, Box<Script>), Skip(usize, Box<Script>), Reset(Box<Script>), Child(Box<Script>, Box<Script>) }
/// where a cursor that started at `s` and stands at position `i` stands after the script
pub open spec fn after<T>(sc: Script, s: Seq<T>, i: int) -> int decreases sc {
    match sc {
        Script::End => i,
        Script::Next(r) => after(*r, s, if i < s.len() { i + 1 } else { i }),
        Script::Peek(_, r) => after(*r, s, i),
        Script::Skip(n, r) => after(*r, s, if i + n <= usize::MAX { i + n } else { usize::MAX as int }),
        Script::Reset(r) => after(*r, s, 0),
        Script::Child(_, r) => after(*r, s, i),
    }
}
//@thm thm_cursor_history C01 C03
/// C01, C03: a cursor used in any way stands where the script says, and leaves everything else alone
pub fn thm_cursor_history<'z, T, B: Buffer0<T>>(c: &mut Cursor<'z, T, B>, sc: &Script)
    requires old(c).wf()
    ensures final(c).wf(), final(c).ctx() == old(c).ctx(), final(c).start() == old(c).start(),
        final(c).index == after(*sc, old(c).start(), old(c).index as int),
        final(c).view() == skip(old(c).start(), final(c).index as int),
    decreases *sc
{
    match sc {
        Script::End => {}
        Script::Next(r) => { let _ = c.next(); thm_cursor_history(c, r) }
        Script::Peek(i, r) => { let _ = c.peek_ahead(*i); thm_cursor_history(c, r) }
        Script::Skip(n, r) => { c.fast_forward(*n); thm_cursor_history(c, r) }
        Script::Reset(r) => { let _ = c.reset_internal(); thm_cursor_history(c, r) }
        Script::Child(k, r) => { { let mut d = c.cursor(); thm_cursor_history(&mut d, k) } thm_cursor_history(c, r) }
    }
}
//@endthm
//@thm thm_cursor_gone C01
/// C01: once the cursor is gone its parent (a buffer, or a cursor at any depth) is as if it had never existed
pub fn thm_cursor_gone<T, B: Buffer<T>>(b: &mut B, sc: &Script)
    requires old(b).wf()
    ensures final(b).wf(), final(b).view() == old(b).view(), final(b).pos() == old(b).pos(), final(b).ctx() == old(b).ctx(),
{
    let mut c = b.cursor();
    thm_cursor_history(&mut c, sc)
}
//@endthm
//@thm thm_commit C03
/// C03: the parent advanced by a cursor's position yields what the cursor would have yielded next
pub fn thm_commit<T, B: Buffer<T>>(b: &mut B, sc: &Script)
    requires old(b).wf()
    ensures final(b).wf(), final(b).view() == skip(old(b).view(), after(*sc, old(b).view(), 0)), final(b).ctx() == old(b).ctx(),
{
    let mut c = b.cursor();
    thm_cursor_history(&mut c, sc);
    let p = c.position();
    assert(c.view() == skip(b.view(), p as int)) by { assert(c.start() == b.view()); }
    b.fast_forward(p);
}
//@endthm
/// position reached, and furthest item asked for, by a history of calls on a buffer
pub open spec fn used(sc: Script, p: int) -> int decreases sc {
    match sc { Script::Next(r) => used(*r, p + 1), Script::Skip(k, r) => used(*r, p + k), Script::Peek(_, r) => used(*r, p), _ => p }
}
pub open spec fn asked(sc: Script, p: int, d: int) -> int decreases sc {
    match sc {
        Script::Next(r) => asked(*r, p + 1, max(d, p + 1)),
        Script::Skip(k, r) => asked(*r, p + k, max(d, p + k)),
        Script::Peek(i, r) => asked(*r, p, max(d, p + i + 1)),
        _ => d,
    }
}
//@thm thm_buffer_history C02
/// C02: after any history the buffer replays its source from the items consumed on, having taken from the source exactly the items asked for
pub fn thm_buffer_history<I: Iterator>(b: &mut Buf<I>, sc: &Script, Ghost(src): Ghost<Seq<I::Item>>, Ghost(p): Ghost<int>, Ghost(d): Ghost<int>) where I::Item: Clone
    requires old(b).wf(), 0 <= p <= d, old(b).view() == skip(src, p), old(b).buffer.view().len() == max(0, min(d, src.len() as int) - p),
    ensures final(b).wf(), final(b).view() == skip(src, used(*sc, p)),
        final(b).iter.view().len() == max(0, src.len() - asked(*sc, p, d)),
    decreases *sc
{
    match sc {
        Script::Next(r) => {
            let x = b.next();
            assert(x == if p < src.len() { Some(src[p]) } else { None });
            thm_buffer_history(b, r, Ghost(src), Ghost(p + 1), Ghost(max(d, p + 1)))
        }
        Script::Skip(n, r) => {
            b.fast_forward(*n);
            thm_buffer_history(b, r, Ghost(src), Ghost(p + *n), Ghost(max(d, p + *n)))
        }
        Script::Peek(i, r) => {
            let x = b.peek_ahead(*i);
            assert(x == if p + *i < src.len() { Some(src[p + *i]) } else { None });
            thm_buffer_history(b, r, Ghost(src), Ghost(p), Ghost(max(d, p + *i + 1)))
        }
        _ => {}
    }
}
//@endthm
//@thm thm_into_buf C02
/// C02: a new buffer has taken nothing from its source and will replay all of it
pub fn thm_into_buf<X: IntoBuf>(x: X) -> (b: Buf<X::Iter>)
    requires x.iwf_()
    ensures b.wf(), b.view() == x.items_(), b.buffer.view().len() == 0, b.iter.view() =~= x.items_(),
{ let b = x.into_buf(); assert(b.buffer.view() =~= Seq::empty()); b }
//@endthm
