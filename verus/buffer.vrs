// ================================================================ buffers (nommy/src/buffer.rs)
//@area core
//@trait Buffer: fncursor(&mutself)->Cursor<T,Self::CursorBase>;fnfast_forward(&mutself,n:usize);fnpeek_ahead(&mutself,i:usize)->Option<T>
//@trait IntoBuf: fninto_buf(self)->Buf<Self::Iter>
/// The real `Buffer` trait, split in two because its associated type refers back to it (Verus rejects the cycle)
pub trait Buffer0<T>: Iterator<Item = T> + Sized {
    /// how many of the items still to come have been taken from the source already
    spec fn look(&self) -> int;
    proof fn look_len(&self) requires self.wf() ensures 0 <= self.look() <= self.view().len();
    fn fast_forward(&mut self, n: usize)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).ctx() == old(self).ctx(),
            final(self).view() == skip(old(self).view(), n as int),
            n <= old(self).view().len() ==> final(self).pos() == old(self).pos() + n,
            // @clause lazy
            final(self).look() == (if old(self).look() > n { old(self).look() - n } else { 0 });
    fn peek_ahead(&mut self, i: usize) -> (r: Option<T>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).ctx() == old(self).ctx(),
            final(self).view() == old(self).view(),
            final(self).pos() == old(self).pos(),
            r == if i < old(self).view().len() { Some(old(self).view()[i as int]) } else { None },
            // @clause lazy: the source is read just far enough to reach item i
            final(self).look() == max(old(self).look(), min(i + 1, old(self).view().len() as int));
}
pub trait Buffer<T>: Buffer0<T> {
    type CursorBase: Buffer0<T>;
    /// A cursor starts where its parent stands; whatever is done through it, if the shared buffer ends up
    /// with the state it had (which every cursor operation promises through `ctx`), the parent is unchanged.
    fn cursor<'z>(&'z mut self) -> (c: Cursor<'z, T, Self::CursorBase>)
        requires old(self).wf(),
        ensures c.wf(), c.view() == old(self).view(), c.pos() == 0, c.index == 0, c.start() == old(self).view(),
            ((*c.buf).ctx() == (*final(c.buf)).ctx() && (*c.buf).pos() == (*final(c.buf)).pos() && (*c.buf).view() == (*final(c.buf)).view() && (*final(c.buf)).wf())
              ==> (final(self).ctx() == old(self).ctx() && final(self).wf() && final(self).view() == old(self).view() && final(self).pos() == old(self).pos());
}
pub trait IntoBuf: Sized {
    type Iter: Iterator;
    spec fn items_(&self) -> Seq<<Self::Iter as Iterator>::Item>;
    spec fn iwf_(&self) -> bool;
    fn into_buf(self) -> (r: Buf<Self::Iter>) requires self.iwf_() ensures r.wf(), r.view() == self.items_(), r.buffer.view().len() == 0;
}
//@impl impl<I: IntoIterator> IntoBuf for I
    //@if never
    //@fi
    type Iter = <Self as IntoIterator>::IntoIter;
    open spec fn items_(&self) -> Seq<<Self::Iter as Iterator>::Item> { self.items() }
    open spec fn iwf_(&self) -> bool { self.iwf() && self.items().len() <= usize::MAX }
    //@fn fn into_buf(self) -> (r: Buf<Self::Iter>)
    //@end
//@endimpl

//@struct Buf
//@struct Cursor

//@impl impl<I: Iterator> Buf<I>
    //@fn pub fn new<II: IntoIterator<IntoIter = I>>(iter: II) -> (r: Self)
        requires iter.iwf()
        ensures r.view() == iter.items(), r.buffer.view().len() == 0, r.iter.wf(), r.iter.view() == iter.items(), iter.items().len() <= usize::MAX ==> r.wf()
    //@tail
        proof { assert(Seq::<I::Item>::empty() + iter.items() =~= iter.items()); }
    //@end
//@endimpl

//@impl impl<I: Iterator> Iterator for Buf<I>
    type Item = I::Item;
    type Ctx = I::Ctx;
    /// items pulled but not consumed, then the source
    open spec fn view(&self) -> Seq<I::Item> { self.buffer.view() + self.iter.view() }
    open spec fn wf(&self) -> bool { self.iter.wf() && self.buffer.view().len() + self.iter.view().len() <= usize::MAX }
    open spec fn pos(&self) -> int { -(self.view().len() as int) }
    #[verifier::prophetic]
    open spec fn ctx(&self) -> Self::Ctx { self.iter.ctx() }
    proof fn wf_len(&self) {}
    //@fn fn next(&mut self) -> (r: Option<Self::Item>)
        ensures
            // lazy: the source is touched only when nothing is buffered, and then for one item
            old(self).buffer.view().len() > 0 ==> final(self).iter == old(self).iter,
            final(self).iter.view() == skip(old(self).iter.view(), if old(self).buffer.view().len() > 0 { 0 } else { 1 }),
    //@entry
        proof {
            let b = self.buffer.view(); let s = self.iter.view();
            assert(skip(b + s, 1) =~= if b.len() > 0 { b.skip(1) + s } else { skip(s, 1) });
            assert(Seq::<I::Item>::empty() + skip(s, 1) =~= skip(s, 1));
            assert(b.len() == 0 ==> b =~= Seq::<I::Item>::empty());
            assert(b.len() == 0 ==> b + s =~= s);
        }
    //@end
//@endimpl

//@impl impl<I: Iterator> Buffer<I::Item> for Buf<I> => impl<I: Iterator> Buffer0<I::Item> for Buf<I> where I::Item: Clone
    open spec fn look(&self) -> int { self.buffer.view().len() as int }
    proof fn look_len(&self) {}
    //@fn fn fast_forward(&mut self, n: usize)
        ensures
            // lazy: only what is not already buffered is taken from the source
            final(self).iter.view() == skip(old(self).iter.view(), if n as int <= old(self).buffer.view().len() { 0int } else { n - old(self).buffer.view().len() }),
            n <= old(self).buffer.view().len() ==> final(self).iter == old(self).iter,
    //@entry
        let ghost b0 = self.buffer.view(); let ghost s0 = self.iter.view();
        proof {
            assert(n <= b0.len() ==> skip(b0 + s0, n as int) =~= b0.skip(n as int) + s0);
            assert(n >= b0.len() ==> skip(b0 + s0, n as int) =~= skip(s0, n - b0.len()));
            assert(n <= b0.len() ==> take(b0.skip(n as int) + b0.take(n as int), b0.len() - n) =~= b0.skip(n as int));
            assert forall|x: Seq<I::Item>| #[trigger] (Seq::<I::Item>::empty() + x) == x by { assert(Seq::<I::Item>::empty() + x =~= x); }
        }
    //@loop 0
        invariant
            self.iter.wf(), self.iter.ctx() == old(self).iter.ctx(), self.buffer.view() == Seq::<I::Item>::empty(),
            b0 == old(self).buffer.view(), s0 == old(self).iter.view(), n >= b0.len(), $n0 == n - b0.len(),
            0 <= $c0 <= $n0, self.iter.view() == skip(s0, $c0 as int), self.iter.view().len() <= s0.len(),
            $c0 == 0 ==> self.iter == old(self).iter,
        ensures
            self.iter.view() == skip(s0, n - b0.len()), n == b0.len() ==> self.iter == old(self).iter,
        decreases $n0 - $c0
    //@end
    //@fn fn peek_ahead(&mut self, i: usize) -> (r: Option<I::Item>)
        ensures
            // lazy: the source is read just far enough to reach item i
            old(self).buffer.view().len() > i ==> final(self).iter == old(self).iter,
            final(self).buffer.view().len() == (if i < old(self).buffer.view().len() { old(self).buffer.view().len() as int } else if i < old(self).view().len() { i + 1 } else { old(self).view().len() as int }),
    //@entry
        let ghost b0 = self.buffer.view(); let ghost s0 = self.iter.view();
        proof { self.iter.wf_len(); lemma_shift::<I::Item>(b0, s0); assert(s0.take(0) =~= Seq::<I::Item>::empty()); assert(b0 + Seq::<I::Item>::empty() =~= b0); }
    //@loop 0
        invariant
            self.iter.wf(), self.iter.ctx() == old(self).iter.ctx(),
            b0 == old(self).buffer.view(), s0 == old(self).iter.view(), i >= b0.len(), $n0 == i - b0.len(),
            0 <= $c0 <= $n0, $c0 <= s0.len(),
            self.iter.view() == skip(s0, $c0 as int), self.buffer.view() == b0 + s0.take($c0 as int),
            forall|c: int| 0 <= c <= s0.len() ==> (b0 + #[trigger] s0.take(c)) + skip(s0, c) == b0 + s0,
            forall|c: int| 0 <= c < s0.len() ==> #[trigger] (b0 + s0.take(c)).push(s0[c]) == b0 + s0.take(c + 1),
        ensures $c0 == $n0,
        decreases $n0 - $c0
    //@end
//@endimpl
pub proof fn lemma_shift<A>(b: Seq<A>, s: Seq<A>)
    ensures
        forall|c: int| 0 <= c <= s.len() ==> (b + #[trigger] s.take(c)) + skip(s, c) == b + s,
        forall|c: int| 0 <= c < s.len() ==> #[trigger] (b + s.take(c)).push(s[c]) == b + s.take(c + 1),
{
    assert forall|c: int| 0 <= c <= s.len() implies (b + #[trigger] s.take(c)) + skip(s, c) == b + s by { assert((b + s.take(c)) + skip(s, c) =~= b + s); }
    assert forall|c: int| 0 <= c < s.len() implies #[trigger] (b + s.take(c)).push(s[c]) == b + s.take(c + 1) by { assert((b + s.take(c)).push(s[c]) =~= b + s.take(c + 1)); }
}
//@impl impl<I: Iterator> Buffer<I::Item> for Buf<I> => impl<I: Iterator> Buffer<I::Item> for Buf<I> where I::Item: Clone
    type CursorBase = Self;
    //@fn fn cursor<'z>(&'z mut self) -> (c: Cursor<'z, I::Item, Self::CursorBase>)
    //@end
//@endimpl

//@impl impl<'a, T, B: Buffer<T>> Cursor<'a, T, B> => impl<'a, T, B: Buffer0<T>> Cursor<'a, T, B>
    //@fn pub fn new(buf: &'a mut B) -> (c: Self)
        ensures c.base == 0, c.index == 0, *c.buf == *old(buf), *final(c.buf) == *final(buf)
    //@end
    //@fn pub fn position(&self) -> (r: usize)
        ensures r == self.pos(), r == self.index, self.view() == skip(self.start(), r as int),
    //@end
    //@fn pub fn reset_internal(&mut self) -> (r: bool)
        requires old(self).wf()
        ensures r, final(self).wf(), final(self).ctx() == old(self).ctx(), final(self).pos() == 0, final(self).base == old(self).base,
            final(self).buf.view() == old(self).buf.view(), *final(final(self).buf) == *final(old(self).buf), final(self).buf.ctx() == old(self).buf.ctx(), final(self).buf.pos() == old(self).buf.pos(),
            final(self).view() == skip(old(self).buf.view(), old(self).base as int), final(self).start() == old(self).start(),
    //@end
//@endimpl
impl<'a, T, B: Buffer0<T>> Cursor<'a, T, B> {
    /// what the cursor stood at when it was made
    pub open spec fn start(&self) -> Seq<T> { skip((*self.buf).view(), self.base as int) }
}
//@impl impl<'a, T, B: Buffer<T>> Iterator for Cursor<'a, T, B> => impl<'a, T, B: Buffer0<T>> Iterator for Cursor<'a, T, B>
    type Item = T;
    type Ctx = (usize, Seq<T>, int, B::Ctx, B);
    open spec fn view(&self) -> Seq<T> { skip((*self.buf).view(), self.base + self.index) }
    open spec fn wf(&self) -> bool { (*self.buf).wf() }
    open spec fn pos(&self) -> int { self.index as int }
    /// the base, and everything about the shared buffer: no operation through a cursor changes any of it
    #[verifier::prophetic]
    open spec fn ctx(&self) -> Self::Ctx { (self.base, self.buf.view(), self.buf.pos(), self.buf.ctx(), *final(self.buf)) }
    proof fn wf_len(&self) { self.buf.wf_len(); }
    //@fn fn next(&mut self) -> (r: Option<T>)
        ensures final(self).index == old(self).index + (if old(self).view().len() > 0 { 1int } else { 0 }), final(self).start() == old(self).start(),
            (*final(self).buf).look() == max((*old(self).buf).look(), min(old(self).base + old(self).index + 1, (*old(self).buf).view().len() as int)) // @clause lazy
    //@entry
        proof { self.buf.wf_len(); }
    //@end
//@endimpl
//@impl impl<'a, T, B: Buffer<T>> Buffer<T> for Cursor<'a, T, B> => impl<'a, T, B: Buffer0<T>> Buffer0<T> for Cursor<'a, T, B>
    open spec fn look(&self) -> int { max(0, (*self.buf).look() - self.base - self.index) }
    proof fn look_len(&self) { self.buf.look_len(); }
    //@fn fn fast_forward(&mut self, n: usize)
        ensures final(self).index == (if old(self).index + n <= usize::MAX { old(self).index + n } else { usize::MAX as int }), final(self).start() == old(self).start()
    //@entry
        proof { self.buf.wf_len(); self.buf.look_len(); }
    //@end
    //@fn fn peek_ahead(&mut self, i: usize) -> (r: Option<T>)
        ensures final(self).index == old(self).index, final(self).start() == old(self).start(),
            (*final(self).buf).look() == max((*old(self).buf).look(), min(old(self).base + old(self).index + i + 1, (*old(self).buf).view().len() as int)) // @clause lazy
    //@entry
        proof { self.buf.wf_len(); self.buf.look_len(); }
    //@end
//@endimpl
//@impl impl<'a, T, B: Buffer<T>> Buffer<T> for Cursor<'a, T, B> => impl<'a, T, B: Buffer0<T>> Buffer<T> for Cursor<'a, T, B>
    type CursorBase = B;
    //@fn fn cursor<'z>(&'z mut self) -> (c: Cursor<'z, T, Self::CursorBase>)
    //@entry
        proof { self.buf.wf_len(); }
    //@end
//@endimpl
