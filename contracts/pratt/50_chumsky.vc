%% What the parser of operators needs of chumsky: assumed contracts.
%prelude
pub mod sp {}
pub mod chumsky {
use vstd::prelude::*;
verus! {
pub trait Input<'a>: Sized { type Token; type Span; type Offset; spec fn span_at(toks: Seq<Self::Token>, p: int) -> Self::Span; }
pub trait ParserExtra<'a, I: Input<'a>>: Sized { type Error; }
pub trait Parser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>>: Sized {
    spec fn parses(&self, toks: Seq<I::Token>, pos: int) -> Option<(O, int)>;
}
#[verifier::external_body]
#[verifier::accept_recursive_types(I)]
#[verifier::accept_recursive_types(E)]
pub struct InputRef<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> { p: std::marker::PhantomData<(&'a I, &'parse E)> }
#[verifier::external_body]
pub struct Marker { p: usize }
impl Clone for Marker { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Marker {}
impl Marker { pub uninterp spec fn at(&self) -> int; }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct MaybeRef<'a, T> { p: std::marker::PhantomData<&'a T> }
pub uninterp spec fn vx_token<'a, T>(t: T) -> MaybeRef<'a, T>;
impl<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> InputRef<'a, 'parse, I, E> {
    pub uninterp spec fn toks(&self) -> Seq<I::Token>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn valid(&self) -> bool { 0 <= self.pos() <= self.toks().len() }
    #[verifier::external_body]
    pub fn offset(&self) -> (r: Marker) ensures r.at() == self.pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn save(&self) -> (r: Marker) ensures r.at() == self.pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn rewind(&mut self, m: Marker) ensures final(self).pos() == m.at(), final(self).toks() == old(self).toks() { unimplemented!() }
    #[verifier::external_body]
    pub fn span_since(&self, m: Marker) -> (r: I::Span) ensures m.at() == self.pos() ==> r == I::span_at(self.toks(), self.pos()) { unimplemented!() }
    #[verifier::external_body]
    pub fn peek_maybe(&self) -> (r: Option<MaybeRef<'a, I::Token>>) requires self.valid() ensures r is Some <==> self.pos() < self.toks().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn next_maybe(&mut self) -> (r: Option<MaybeRef<'a, I::Token>>)
        requires old(self).valid()
        ensures final(self).toks() == old(self).toks(), r is Some <==> old(self).pos() < old(self).toks().len(),
            r is Some ==> final(self).pos() == old(self).pos() + 1 && r->0 == vx_token(old(self).toks()[old(self).pos()]), r is None ==> final(self).pos() == old(self).pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<O, P: Parser<'a, I, O, E>>(&mut self, p: &P) -> (r: Result<O, E::Error>)
        requires old(self).valid()
        ensures final(self).toks() == old(self).toks(), r is Ok <==> p.parses(old(self).toks(), old(self).pos()) is Some,
            r is Ok ==> p.parses(old(self).toks(), old(self).pos()) == Some((r->Ok_0, final(self).pos())) { unimplemented!() }
    #[verifier::external_body]
    pub fn check<O, P: Parser<'a, I, O, E>>(&mut self, p: &P) -> (r: Result<(), E::Error>)
        requires old(self).valid()
        ensures final(self).toks() == old(self).toks(), r is Ok <==> p.parses(old(self).toks(), old(self).pos()) is Some { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
#[verifier::accept_recursive_types(R)]
pub struct RcFn<A, R> { p: std::marker::PhantomData<(A, R)> }
impl<A, R> RcFn<A, R> { pub uninterp spec fn of(&self, a: A) -> R;
  #[verifier::external_body] pub fn vx_call(&self, a: A) -> (r: R) ensures r == self.of(a) { unimplemented!() } }

/// comparison of what is compared in this file; for a tuple the first components decide, then the second ones
pub trait VxLess: Sized { spec fn less(self, o: Self) -> bool; }
impl VxLess for u16 { open spec fn less(self, o: u16) -> bool { self < o } }
impl VxLess for usize { open spec fn less(self, o: usize) -> bool { self < o } }
impl<A: VxLess, B: VxLess> VxLess for (A, B) { open spec fn less(self, o: (A, B)) -> bool { self.0.less(o.0) || !o.0.less(self.0) && self.1.less(o.1) } }
#[verifier::external_body] pub fn vx_lt<T: VxLess>(a: T, b: T) -> (r: bool) ensures r == a.less(b) { unimplemented!() }
#[verifier::external_body] pub fn vx_gt<T: VxLess>(a: T, b: T) -> (r: bool) ensures r == b.less(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_le<T: VxLess>(a: T, b: T) -> (r: bool) ensures r == !b.less(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_ge<T: VxLess>(a: T, b: T) -> (r: bool) ensures r == !a.less(b) { unimplemented!() }
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub struct ExWeak<T: ?Sized, A: std::alloc::Allocator>(std::rc::Weak<T, A>);
/// what a weak handle refers to (once it has been constructed)
pub uninterp spec fn vx_target<T>(w: std::rc::Weak<T>) -> T;
pub trait VxWeak<T> { spec fn vx_to(&self) -> T; fn vx_upgrade(&self) -> (r: Option<std::rc::Rc<T>>) ensures r matches Some(x) && *x == self.vx_to(); }
impl<T> VxWeak<T> for std::rc::Weak<T> {
    open spec fn vx_to(&self) -> T { vx_target(*self) }
    #[verifier::external_body] fn vx_upgrade(&self) -> Option<std::rc::Rc<T>> { unimplemented!() }
}
#[verifier::external_body] pub fn vx_new_cyclic<T>() -> std::rc::Rc<T> { unimplemented!() }
/// a parser from outside: what it reads is what its specification says
pub trait ExtParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
    spec fn vx_ready(&self) -> bool;
    spec fn vx_reads(&self, toks: Seq<I::Token>, p: int, q: int, r: Result<O, E::Error>) -> bool;
    fn parse(&self, inp: &mut InputRef<'a, '_, I, E>) -> (r: Result<O, E::Error>)
        requires old(inp).valid(), self.vx_ready()
        ensures final(inp).toks() == old(inp).toks(), old(inp).pos() <= final(inp).pos() <= old(inp).toks().len(), self.vx_reads(old(inp).toks(), old(inp).pos(), final(inp).pos(), r);
}
pub struct Ext<T>(pub T);
} // verus!
}
%end
