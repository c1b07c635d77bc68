//! Stand-in for the part of chumsky that the parser of operators uses (chumsky itself is not installed here).
//! Like the real one, a parser that fails may leave the input anywhere: who wants it back has to rewind.
pub mod input {
    use std::marker::PhantomData;
    pub trait Input<'a>: Sized + 'a { type Token: Clone + 'a; type Span; fn span(from: usize, to: usize) -> Self::Span; }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Offset(pub usize);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Marker(usize);
    pub struct InputRef<'a, 'parse, I: Input<'a>, E> { pub toks: &'parse [I::Token], pos: usize, pub work: usize, p: PhantomData<(&'a (), E)> }
    impl<'a, 'parse, I: Input<'a>, E: crate::extra::ParserExtra<'a, I>> InputRef<'a, 'parse, I, E> {
        pub fn over(toks: &'parse [I::Token], pos: usize) -> Self { InputRef { toks, pos, work: 0, p: PhantomData } }
        pub fn at(&self) -> usize { self.pos }
        fn work(&mut self) { self.work += 1; assert!(self.work < 200_000, "the parser does not come to an end"); }
        pub fn offset(&self) -> Offset { Offset(self.pos) }
        pub fn save(&self) -> Marker { Marker(self.pos) }
        pub fn rewind(&mut self, m: Marker) { self.work(); self.pos = m.0 }
        pub fn span_since(&self, o: Offset) -> I::Span { I::span(o.0, self.pos) }
        pub fn peek_maybe(&self) -> Option<crate::util::MaybeRef<'a, I::Token>> { self.toks.get(self.pos).cloned().map(crate::util::MaybeRef::Val) }
        pub fn peek(&self) -> Option<I::Token> { self.toks.get(self.pos).cloned() }
        pub fn next_maybe(&mut self) -> Option<crate::util::MaybeRef<'a, I::Token>> { self.work(); let r = self.peek_maybe(); if r.is_some() { self.pos += 1 } r }
        pub fn next(&mut self) -> Option<I::Token> { self.work(); let r = self.peek(); if r.is_some() { self.pos += 1 } r }
        pub fn parse<O, P: crate::Parser<'a, I, O, E>>(&mut self, p: P) -> Result<O, E::Error> { self.work(); p.go(self) }
        pub fn check<O, P: crate::Parser<'a, I, O, E>>(&mut self, p: P) -> Result<(), E::Error> { self.work(); p.go(self).map(|_| ()) }
    }
}
pub mod util {
    #[derive(Clone, Debug)]
    pub enum MaybeRef<'a, T> { Ref(&'a T), Val(T) }
}
pub mod extra { pub trait ParserExtra<'a, I: crate::input::Input<'a>> { type Error; } }
pub trait Parser<'a, I: input::Input<'a>, O, E: extra::ParserExtra<'a, I>> { fn go(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<O, E::Error>; }
impl<'a, I: input::Input<'a>, O, E: extra::ParserExtra<'a, I>, P: Parser<'a, I, O, E>> Parser<'a, I, O, E> for &P {
    fn go(&self, inp: &mut input::InputRef<'a, '_, I, E>) -> Result<O, E::Error> { (**self).go(inp) }
}
pub mod extension {
    pub mod v1 {
        use crate::{extra::ParserExtra, input::{Input, InputRef}};
        pub trait ExtParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> { fn parse(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>; }
        pub struct Ext<T>(pub T);
        impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, T: ExtParser<'a, I, O, E>> crate::Parser<'a, I, O, E> for Ext<T> {
            fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> { self.0.parse(inp) }
        }
    }
}
pub mod prelude { pub use crate::input::Input; pub use crate::Parser; }
