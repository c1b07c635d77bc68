//! Stand-in for the part of chumsky (1.0 alpha, commit 87ff69a) that the parser crate uses; chumsky itself is not
//! installed here.  Like the real one, a parser that fails may leave the input anywhere: who wants it back rewinds.
use extra::{Full, ParserExtra};
use input::{Input, InputRef};
use std::{marker::PhantomData, rc::Rc};

pub mod span {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct SimpleSpan<T = usize> { pub start: T, pub end: T }
    impl<T> SimpleSpan<T> { pub fn new(start: T, end: T) -> Self { SimpleSpan { start, end } } pub fn into_range(self) -> std::ops::Range<T> { self.start..self.end } }
    impl<T> From<SimpleSpan<T>> for std::ops::Range<T> { fn from(s: SimpleSpan<T>) -> Self { s.start..s.end } }
}
pub mod util {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum MaybeRef<'a, T> { Ref(&'a T), Val(T) }
    impl<'a, T: Clone> MaybeRef<'a, T> { pub fn into_inner(self) -> T { match self { MaybeRef::Ref(t) => t.clone(), MaybeRef::Val(t) => t } } }
    impl<T> std::ops::Deref for MaybeRef<'_, T> { type Target = T; fn deref(&self) -> &T { match self { MaybeRef::Ref(t) => t, MaybeRef::Val(t) => t } } }
}
pub mod error {
    use crate::{input::Input, util::MaybeRef};
    pub trait Error<'a, I: Input<'a>>: Sized {
        fn expected_found<E: IntoIterator<Item = Option<MaybeRef<'a, I::Token>>>>(expected: E, found: Option<MaybeRef<'a, I::Token>>, span: I::Span) -> Self;
    }
}
pub mod extra {
    use crate::{error::Error, input::Input};
    use std::marker::PhantomData;
    pub trait ParserExtra<'a, I: Input<'a>>: 'a { type Error: Error<'a, I> + 'a; type State: 'a; type Context: 'a; }
    pub struct Full<E, S, C>(PhantomData<(E, S, C)>);
    impl<'a, I: Input<'a>, E: Error<'a, I> + 'a, S: 'a, C: 'a> ParserExtra<'a, I> for Full<E, S, C> { type Error = E; type State = S; type Context = C; }
}
pub mod input {
    use super::*;
    use crate::{span::SimpleSpan, util::MaybeRef};
    pub trait Input<'a>: 'a { type Token: 'a; type Span; fn get(&self, at: usize) -> Option<&'a Self::Token>; fn span(from: usize, to: usize) -> Self::Span; }
    impl<'a, T: 'a> Input<'a> for &'a [T] {
        type Token = T;
        type Span = SimpleSpan<usize>;
        fn get(&self, at: usize) -> Option<&'a T> { <[T]>::get(self, at) }
        fn span(from: usize, to: usize) -> SimpleSpan<usize> { SimpleSpan::new(from, to) }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Offset(usize);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Marker(usize);
    pub struct InputRef<'a, 'parse, I: Input<'a>, E> { pub(crate) input: &'parse I, pub(crate) pos: usize, pub(crate) work: usize, p: PhantomData<(&'a (), E)> }
    impl<'a, 'parse, I: Input<'a>, E> InputRef<'a, 'parse, I, E> {
        pub(crate) fn over(input: &'parse I, pos: usize, work: usize) -> Self { InputRef { input, pos, work, p: PhantomData } }
        fn work(&mut self) { self.work += 1; assert!(self.work < 20_000_000, "the parser does not come to an end"); }
        pub fn offset(&self) -> Offset { Offset(self.pos) }
        pub fn save(&self) -> Marker { Marker(self.pos) }
        pub fn rewind(&mut self, m: Marker) { self.work(); self.pos = m.0 }
        pub fn span_since(&self, o: Offset) -> I::Span { I::span(o.0, self.pos) }
        pub fn peek_maybe(&self) -> Option<MaybeRef<'a, I::Token>> { self.input.get(self.pos).map(MaybeRef::Ref) }
        pub fn next_maybe(&mut self) -> Option<MaybeRef<'a, I::Token>> { self.next_ref().map(MaybeRef::Ref) }
        pub fn next_ref(&mut self) -> Option<&'a I::Token> { self.work(); let r = self.input.get(self.pos); if r.is_some() { self.pos += 1 } r }
        pub fn next(&mut self) -> Option<I::Token> where I::Token: Clone { self.next_ref().cloned() }
        pub fn peek(&self) -> Option<I::Token> where I::Token: Clone { self.input.get(self.pos).cloned() }
    }
    impl<'a, 'parse, I: Input<'a>, E: ParserExtra<'a, I>> InputRef<'a, 'parse, I, E> {
        pub fn parse<O, P: Parser<'a, I, O, E>>(&mut self, p: P) -> Result<O, E::Error> { self.work(); p.go(self) }
        pub fn check<O, P: Parser<'a, I, O, E>>(&mut self, p: P) -> Result<(), E::Error> { self.work(); p.go(self).map(|_| ()) }
        pub(crate) fn fail<O>(&self, from: usize) -> Result<O, E::Error> { Err(error::Error::expected_found(None, self.input.get(from).map(MaybeRef::Ref), I::span(from, self.pos))) }
    }
}
pub struct ParseResult<O, E> { output: Option<O>, errors: Vec<E> }
impl<O, E> ParseResult<O, E> {
    pub fn into_output_errors(self) -> (Option<O>, Vec<E>) { (self.output, self.errors) }
    pub fn into_result(self) -> Result<O, Vec<E>> { match self.output { Some(o) if self.errors.is_empty() => Ok(o), _ => Err(self.errors) } }
    pub fn has_errors(&self) -> bool { !self.errors.is_empty() }
    pub fn output(&self) -> Option<&O> { self.output.as_ref() }
}
pub trait Parser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>;
    /// the whole input has to be read
    fn parse(&self, input: I) -> ParseResult<O, E::Error> where Self: Sized {
        let mut inp = InputRef::over(&input, 0, 0);
        match self.go(&mut inp) {
            Ok(o) => match inp.input.get(inp.pos) { None => ParseResult { output: Some(o), errors: vec![] }, Some(_) => { let at = inp.pos; ParseResult { output: None, errors: inp.fail::<()>(at).err().into_iter().collect() } } },
            Err(e) => ParseResult { output: None, errors: vec![e] },
        }
    }
    fn map<U, F: Fn(O) -> U>(self, f: F) -> Map<Self, F, O> where Self: Sized { Map(self, f, PhantomData) }
    fn map_with_span<U, F: Fn(O, I::Span) -> U>(self, f: F) -> MapSpan<Self, F, O> where Self: Sized { MapSpan(self, f, PhantomData) }
    fn to<U: Clone>(self, u: U) -> To<Self, U, O> where Self: Sized { To(self, u, PhantomData) }
    fn ignored(self) -> To<Self, (), O> where Self: Sized { To(self, (), PhantomData) }
    fn then<U, B: Parser<'a, I, U, E>>(self, b: B) -> Then<Self, B> where Self: Sized { Then(self, b) }
    fn ignore_then<U, B: Parser<'a, I, U, E>>(self, b: B) -> IgnoreThen<Self, B, O> where Self: Sized { IgnoreThen(self, b, PhantomData) }
    fn then_ignore<U, B: Parser<'a, I, U, E>>(self, b: B) -> ThenIgnore<Self, B, U> where Self: Sized { ThenIgnore(self, b, PhantomData) }
    fn or<B: Parser<'a, I, O, E>>(self, b: B) -> primitive::Choice<(Self, B)> where Self: Sized { primitive::Choice((self, b)) }
    fn or_not(self) -> OrNot<Self> where Self: Sized { OrNot(self) }
    fn rewind(self) -> Rewind<Self> where Self: Sized { Rewind(self) }
    fn filter<F: Fn(&O) -> bool>(self, f: F) -> Filter<Self, F> where Self: Sized { Filter(self, f) }
    fn repeated(self) -> Repeated<Self, O> where Self: Sized { Repeated(self, 0, !0, PhantomData) }
    fn with_ctx<C>(self, c: C) -> WithCtx<Self, C> where Self: Sized { WithCtx(self, c) }
    fn boxed<'b>(self) -> Boxed<'a, 'b, I, O, E> where Self: Sized + 'b { Boxed(Rc::new(self)) }
}
impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: Parser<'a, I, O, E>> Parser<'a, I, O, E> for &P {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> { (**self).go(inp) }
}
pub struct Boxed<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>>(Rc<dyn Parser<'a, I, O, E> + 'b>);
impl<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> Clone for Boxed<'a, 'b, I, O, E> { fn clone(&self) -> Self { Boxed(self.0.clone()) } }
impl<'a, 'b, I: Input<'a>, O, E: ParserExtra<'a, I>> Parser<'a, I, O, E> for Boxed<'a, 'b, I, O, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> { self.0.go(inp) }
}
pub struct Map<A, F, O>(A, F, PhantomData<fn() -> (O,)>);
impl<A: Clone, F: Clone, O> Clone for Map<A, F, O> { fn clone(&self) -> Self { Map(self.0.clone(), self.1.clone(), PhantomData) } }
impl<A: Copy, F: Copy, O> Copy for Map<A, F, O> {  }
pub struct MapSpan<A, F, O>(A, F, PhantomData<fn() -> (O,)>);
impl<A: Clone, F: Clone, O> Clone for MapSpan<A, F, O> { fn clone(&self) -> Self { MapSpan(self.0.clone(), self.1.clone(), PhantomData) } }
impl<A: Copy, F: Copy, O> Copy for MapSpan<A, F, O> {  }
pub struct To<A, U, O>(A, U, PhantomData<fn() -> (O,)>);
impl<A: Clone, U: Clone, O> Clone for To<A, U, O> { fn clone(&self) -> Self { To(self.0.clone(), self.1.clone(), PhantomData) } }
impl<A: Copy, U: Copy, O> Copy for To<A, U, O> {  }
pub struct Then<A, B>(A, B);
impl<A: Clone, B: Clone> Clone for Then<A, B> { fn clone(&self) -> Self { Then(self.0.clone(), self.1.clone()) } }
impl<A: Copy, B: Copy> Copy for Then<A, B> {  }
pub struct IgnoreThen<A, B, O>(A, B, PhantomData<fn() -> (O,)>);
impl<A: Clone, B: Clone, O> Clone for IgnoreThen<A, B, O> { fn clone(&self) -> Self { IgnoreThen(self.0.clone(), self.1.clone(), PhantomData) } }
impl<A: Copy, B: Copy, O> Copy for IgnoreThen<A, B, O> {  }
pub struct ThenIgnore<A, B, O>(A, B, PhantomData<fn() -> (O,)>);
impl<A: Clone, B: Clone, O> Clone for ThenIgnore<A, B, O> { fn clone(&self) -> Self { ThenIgnore(self.0.clone(), self.1.clone(), PhantomData) } }
impl<A: Copy, B: Copy, O> Copy for ThenIgnore<A, B, O> {  }
pub struct OrNot<A>(A);
impl<A: Clone> Clone for OrNot<A> { fn clone(&self) -> Self { OrNot(self.0.clone()) } }
impl<A: Copy> Copy for OrNot<A> {  }
pub struct Rewind<A>(A);
impl<A: Clone> Clone for Rewind<A> { fn clone(&self) -> Self { Rewind(self.0.clone()) } }
impl<A: Copy> Copy for Rewind<A> {  }
pub struct Filter<A, F>(A, F);
impl<A: Clone, F: Clone> Clone for Filter<A, F> { fn clone(&self) -> Self { Filter(self.0.clone(), self.1.clone()) } }
impl<A: Copy, F: Copy> Copy for Filter<A, F> {  }
pub struct Repeated<A, O>(A, usize, usize, PhantomData<fn() -> (O,)>);
impl<A: Clone, O> Clone for Repeated<A, O> { fn clone(&self) -> Self { Repeated(self.0.clone(), self.1.clone(), self.2.clone(), PhantomData) } }
impl<A: Copy, O> Copy for Repeated<A, O> {  }
pub struct WithCtx<A, C>(A, C);
impl<A: Clone, C: Clone> Clone for WithCtx<A, C> { fn clone(&self) -> Self { WithCtx(self.0.clone(), self.1.clone()) } }
impl<A: Copy, C: Copy> Copy for WithCtx<A, C> {  }
pub struct Collect<A, O, C>(A, PhantomData<fn() -> (O, C,)>);
impl<A: Clone, O, C> Clone for Collect<A, O, C> { fn clone(&self) -> Self { Collect(self.0.clone(), PhantomData) } }
impl<A: Copy, O, C> Copy for Collect<A, O, C> {  }
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A, O, U, F> Parser<'a, I, U, E> for Map<A, F, O> where A: Parser<'a, I, O, E>, F: Fn(O) -> U {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<U, E::Error> { self.0.go(inp).map(&self.1) }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A, O, U, F> Parser<'a, I, U, E> for MapSpan<A, F, O> where A: Parser<'a, I, O, E>, F: Fn(O, I::Span) -> U {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<U, E::Error> { let o = inp.offset(); let r = self.0.go(inp)?; Ok((self.1)(r, inp.span_since(o))) }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A, O, U> Parser<'a, I, U, E> for To<A, U, O> where A: Parser<'a, I, O, E>, U: Clone {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<U, E::Error> { self.0.go(inp).map(|_| self.1.clone()) }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A, O, B, U> Parser<'a, I, (O, U), E> for Then<A, B> where A: Parser<'a, I, O, E>, B: Parser<'a, I, U, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(O, U), E::Error> { let a = self.0.go(inp)?; Ok((a, self.1.go(inp)?)) }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A, O, B, U> Parser<'a, I, U, E> for IgnoreThen<A, B, O> where A: Parser<'a, I, O, E>, B: Parser<'a, I, U, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<U, E::Error> { self.0.go(inp)?; self.1.go(inp) }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A, O, B, U> Parser<'a, I, O, E> for ThenIgnore<A, B, U> where A: Parser<'a, I, O, E>, B: Parser<'a, I, U, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> { let a = self.0.go(inp)?; self.1.go(inp)?; Ok(a) }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A, O> Parser<'a, I, Option<O>, E> for OrNot<A> where A: Parser<'a, I, O, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<Option<O>, E::Error> { let m = inp.save(); match self.0.go(inp) { Ok(o) => Ok(Some(o)), Err(_) => { inp.rewind(m); Ok(None) } } }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A, O> Parser<'a, I, O, E> for Rewind<A> where A: Parser<'a, I, O, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> { let m = inp.save(); let r = self.0.go(inp)?; inp.rewind(m); Ok(r) }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A, O, F> Parser<'a, I, O, E> for Filter<A, F> where A: Parser<'a, I, O, E>, F: Fn(&O) -> bool {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> { let at = inp.pos; let r = self.0.go(inp)?; if (self.1)(&r) { Ok(r) } else { inp.fail(at) } }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A, O, C> Parser<'a, I, O, E> for WithCtx<A, C> where A: Parser<'a, I, O, Full<E::Error, E::State, C>>, C: 'a {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> { let mut i = InputRef::over(inp.input, inp.pos, inp.work); let r = self.0.go(&mut i); inp.pos = i.pos; inp.work = i.work; r }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A, O> Parser<'a, I, (), E> for Repeated<A, O> where A: Parser<'a, I, O, E> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> { self.each(inp, |_| ()) }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A, O, C> Parser<'a, I, C, E> for Collect<A, O, C> where A: IterParser<'a, I, O, E>, C: Default + Extend<O> {
    fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<C, E::Error> { let mut c = C::default(); self.0.each(inp, |o| c.extend(Some(o)))?; Ok(c) }
}
impl<A, O> Repeated<A, O> {
    pub fn at_least(self, n: usize) -> Self { Repeated(self.0, n, self.2, PhantomData) }
    pub fn at_most(self, n: usize) -> Self { Repeated(self.0, self.1, n, PhantomData) }
}
pub trait IterParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> {
    fn each(&self, inp: &mut InputRef<'a, '_, I, E>, f: impl FnMut(O)) -> Result<(), E::Error>;
    fn collect<C: Default + Extend<O>>(self) -> Collect<Self, O, C> where Self: Sized { Collect(self, PhantomData) }
}
impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, O> IterParser<'a, I, O, E> for Repeated<A, O> {
    fn each(&self, inp: &mut InputRef<'a, '_, I, E>, mut f: impl FnMut(O)) -> Result<(), E::Error> {
        let mut n = 0;
        while n < self.2 {
            let m = inp.save();
            match self.0.go(inp) {
                Ok(o) => { f(o); n += 1; assert!(inp.save() != m, "found a repeated parser that makes no progress"); }
                Err(e) => { inp.rewind(m); if n < self.1 { return Err(e); } break; }
            }
        }
        Ok(())
    }
}
pub mod primitive {
    use super::*;
    #[derive(Clone, Copy)]
    pub struct Choice<T>(pub(crate) T);
    pub fn choice<T>(t: T) -> Choice<T> { Choice(t) }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>> Parser<'a, I, O, E> for Choice<Vec<A>> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
            let m = inp.save(); let mut last = None;
            for p in &self.0 { inp.rewind(m); match p.go(inp) { Ok(o) => return Ok(o), Err(e) => last = Some(e) } }
            match last { Some(e) => Err(e), None => inp.fail(inp.pos) }
        }
    }
    impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, A: Parser<'a, I, O, E>, B: Parser<'a, I, O, E>> Parser<'a, I, O, E> for Choice<(A, B)> {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> { let m = inp.save(); match self.0.0.go(inp) { Ok(o) => Ok(o), Err(_) => { inp.rewind(m); self.0.1.go(inp) } } }
    }
    #[derive(Clone, Copy)]
    pub struct End;
    pub fn end() -> End { End }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>> Parser<'a, I, (), E> for End {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<(), E::Error> { let at = inp.pos; match inp.next_ref() { None => Ok(()), Some(_) => inp.fail(at) } }
    }
    /// a token, or several in a row
    pub trait OrderedSeq<'a, T> { fn each(&self) -> Vec<T>; }
    impl<'a, T: Clone> OrderedSeq<'a, T> for T { fn each(&self) -> Vec<T> { vec![self.clone()] } }
    impl<'a, T: Clone> OrderedSeq<'a, T> for Vec<T> { fn each(&self) -> Vec<T> { self.clone() } }
    pub struct Just<T, I, E>(T, PhantomData<fn() -> (I, E)>);
    impl<T: Clone, I, E> Clone for Just<T, I, E> { fn clone(&self) -> Self { Just(self.0.clone(), PhantomData) } }
    impl<T: Copy, I, E> Copy for Just<T, I, E> { }
    pub fn just<'a, T: OrderedSeq<'a, I::Token> + Clone, I: Input<'a>, E: ParserExtra<'a, I>>(t: T) -> Just<T, I, E> where I::Token: PartialEq { Just(t, PhantomData) }
    impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, T: OrderedSeq<'a, I::Token> + Clone> Parser<'a, I, T, E> for Just<T, I, E> where I::Token: PartialEq {
        fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<T, E::Error> {
            for t in self.0.each() { let at = inp.pos; match inp.next_ref() { Some(x) if *x == t => { } _ => return inp.fail(at) } }
            Ok(self.0.clone())
        }
    }
    macro_rules! select_like { ($s:ident, $f:ident, $arg:ty, $get:ident, [$($w:tt)*]) => {
        pub struct $s<F, I, O, E>(F, PhantomData<fn() -> (I, O, E)>);
        impl<F: Clone, I, O, E> Clone for $s<F, I, O, E> { fn clone(&self) -> Self { $s(self.0.clone(), PhantomData) } }
        impl<F: Copy, I, O, E> Copy for $s<F, I, O, E> { }
        pub fn $f<'a, F: Fn($arg, I::Span) -> Option<O>, I: Input<'a>, O, E: ParserExtra<'a, I>>(f: F) -> $s<F, I, O, E> where $($w)* { $s(f, PhantomData) }
        impl<'a, I: Input<'a>, E: ParserExtra<'a, I>, F: Fn($arg, I::Span) -> Option<O>, O> Parser<'a, I, O, E> for $s<F, I, O, E> where $($w)* {
            fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> {
                let at = inp.pos; let o = inp.offset();
                if let Some(t) = inp.$get() { if let Some(r) = (self.0)(t, inp.span_since(o)) { return Ok(r); } }
                inp.fail(at)
            }
        }
    } }
    select_like!(Select, select, I::Token, next, [I::Token: Clone]);
    select_like!(SelectRef, select_ref, &'a I::Token, next_ref, []);
}
#[macro_export]
macro_rules! select { ($($p:pat $(if $g:expr)? => $e:expr),+ $(,)?) => { $crate::primitive::select(move |x, _span| match x { $($p $(if $g)? => Some($e),)+ _ => None }) } }
#[macro_export]
macro_rules! select_ref { ($($p:pat $(if $g:expr)? => $e:expr),+ $(,)?) => { $crate::primitive::select_ref(move |x, _span| match x { $($p $(if $g)? => Some($e),)+ _ => None }) } }
pub mod extension {
    pub mod v1 {
        use crate::{extra::ParserExtra, input::{Input, InputRef}};
        pub trait ExtParser<'a, I: Input<'a>, O, E: ParserExtra<'a, I>> { fn parse(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error>; }
        #[derive(Clone, Copy)]
        pub struct Ext<T: ?Sized>(pub T);
        impl<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, T: ExtParser<'a, I, O, E>> crate::Parser<'a, I, O, E> for Ext<T> {
            fn go(&self, inp: &mut InputRef<'a, '_, I, E>) -> Result<O, E::Error> { self.0.parse(inp) }
        }
    }
}
pub mod cache {
    pub trait Cached { type Parser<'src>; fn make_parser<'src>(self) -> Self::Parser<'src>; }
    pub struct Cache<C: Cached> { parser: C::Parser<'static> }
    impl<C: Cached> Cache<C> {
        pub fn new(c: C) -> Self { Cache { parser: c.make_parser() } }
        // as in chumsky: the parser is the same for every lifetime of its input
        pub fn get<'src>(&self) -> &C::Parser<'src> { unsafe { &*(&self.parser as *const C::Parser<'static>).cast() } }
    }
}
pub mod prelude { pub use crate::{input::Input, primitive::{choice, end, just, select, select_ref}, select, select_ref, span::SimpleSpan, Boxed, IterParser, Parser}; }
