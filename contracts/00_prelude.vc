%% Specification prelude: assumed contracts on the standard library, helpers the weaver refers to.
%prelude
pub mod vx {
use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::{PartialEqSpec, OrdSpec, PartialOrdSpec};
verus! {

// ---------------------------------------------------------------- panics are proof obligations
/// `assert!(c)`: the caller must prove c. (Body: what the macro does.)
#[verifier::external_body]
pub fn assert_(c: bool)
    requires c,
{ assert!(c) }

/// `assert!(c)` in a constructor that is specified by what it refuses: returns only if c holds.
#[verifier::external_body]
pub fn check_(c: bool)
    ensures c,
{ assert!(c) }

/// `expect`, `unwrap` in such a constructor: returns only if there is something to return.
pub trait VxCheckGet: Sized {
    type T;
    spec fn has(&self) -> bool;
    spec fn got(&self) -> Self::T;
    fn check_get_(self) -> (r: Self::T) ensures self.has(), r == self.got();
}
impl<A> VxCheckGet for Option<A> {
    type T = A;
    open spec fn has(&self) -> bool { *self is Some }
    open spec fn got(&self) -> A { self->0 }
    #[verifier::external_body]
    fn check_get_(self) -> (r: A) { self.unwrap() }
}
impl<A, E> VxCheckGet for Result<A, E> {
    type T = A;
    open spec fn has(&self) -> bool { *self is Ok }
    open spec fn got(&self) -> A { self->Ok_0 }
    #[verifier::external_body]
    fn check_get_(self) -> (r: A) { match self { Ok(x) => x, Err(_) => panic!() } }
}
/// `panic!()` in such a constructor: does not return.
#[verifier::external_body]
pub fn refuse_() -> !
{ panic!() }

/// does nothing (Verus loses track of `*self` in the arms after a guarded arm)
pub fn touch_<T>(x: &mut T)
    ensures *final(x) == *old(x),
{ }

/// `panic!()` / `todo!()`: must be unreachable.
#[verifier::external_body]
pub fn panic_() -> !
    requires false,
{ panic!() }

// ---------------------------------------------------------------- std, assumed
pub assume_specification<'a, T: Copy> [std::option::Option::<&'a T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });

/// a Vec is its elements: capacity is not modelled
pub broadcast axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    requires #[trigger] a@ == #[trigger] b@,
    ensures a == b;

pub assume_specification<T: Clone>[<[T]>::to_vec](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| #![auto] 0 <= i < s@.len() ==> cloned(s@[i], r@[i]);

pub assume_specification<T>[bool::then_some](b: bool, v: T) -> (r: Option<T>)
    ensures r == (if b { Some(v) } else { None });

pub assume_specification<T>[core::option::Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });
pub assume_specification<T>[core::option::Option::<T>::xor](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T, U>[core::option::Option::<T>::zip](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
pub assume_specification<T>[core::option::Option::<core::option::Option::<T>>::flatten](a: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (if a is Some { a->0 } else { None });
pub assume_specification<T>[core::option::Option::<T>::replace](a: &mut Option<T>, b: T) -> (r: Option<T>)
    ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<T, E>[core::result::Result::<T, E>::unwrap_or](a: Result<T, E>, b: T) -> (r: T)
    ensures r == (if a is Ok { a->Ok_0 } else { b });
pub assume_specification[core::cmp::Ordering::is_eq](a: Ordering) -> (r: bool) ensures r == (a == Ordering::Equal);
pub assume_specification[core::cmp::Ordering::is_ne](a: Ordering) -> (r: bool) ensures r == (a != Ordering::Equal);
pub assume_specification[core::cmp::Ordering::is_lt](a: Ordering) -> (r: bool) ensures r == (a == Ordering::Less);
pub assume_specification[core::cmp::Ordering::is_gt](a: Ordering) -> (r: bool) ensures r == (a == Ordering::Greater);
pub assume_specification[core::cmp::Ordering::is_le](a: Ordering) -> (r: bool) ensures r == (a != Ordering::Greater);
pub assume_specification[core::cmp::Ordering::is_ge](a: Ordering) -> (r: bool) ensures r == (a != Ordering::Less);
pub assume_specification[core::cmp::Ordering::reverse](a: Ordering) -> (r: Ordering)
    ensures r == (match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
pub assume_specification[core::cmp::Ordering::then](a: Ordering, b: Ordering) -> (r: Ordering)
    ensures r == (if a == Ordering::Equal { b } else { a });
pub assume_specification[usize::div_ceil](a: usize, b: usize) -> (r: usize)
    requires b != 0, ensures r == (a + b - 1) / (b as int);
pub assume_specification<T>[<[T]>::reverse](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T>[<[T]>::swap](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T: PartialEq>[<[T]>::contains](s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && #[trigger] s@[i].eq_spec(x);
pub assume_specification<T>[<[T]>::split_last](s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures r == None::<(&T, &[T])> <==> s@.len() == 0,
     r is Some ==> *(r->0).0 == s@.last() && (r->0).1@ == s@.drop_last();
pub assume_specification<T: Ord>[core::cmp::min](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { b } else { a });
pub assume_specification<T: Ord>[core::cmp::max](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { a } else { b });
pub assume_specification<T: Clone>[<[T]>::fill](s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| #![auto] 0 <= i < old(s)@.len() ==> cloned(v, final(s)@[i]) || final(s)@[i] == v;

pub assume_specification[usize::abs_diff](a: usize, b: usize) -> (r: usize)
    ensures r == (if a >= b { a - b } else { b - a });

pub assume_specification<Idx: PartialOrd + PartialOrd>[std::ops::Range::<Idx>::is_empty](r: &std::ops::Range<Idx>) -> (b: bool)
    ensures Idx::obeys_partial_cmp_spec() ==> b == !(r.start.partial_cmp_spec(&r.end) == Some(Ordering::Less));

pub assume_specification<T: Ord>[<[T]>::sort](s: &mut [T])
    ensures final(s)@.to_multiset() == old(s)@.to_multiset(), final(s)@.len() == old(s)@.len(),
        T::obeys_cmp_spec() ==> forall|i: int, j: int| #![trigger final(s)@[i], final(s)@[j]] 0 <= i < j < final(s)@.len() ==> final(s)@[i].cmp_spec(&final(s)@[j]) != Ordering::Greater;

pub assume_specification<Idx: Clone>[<std::ops::Range<Idx> as Clone>::clone](r: &std::ops::Range<Idx>) -> (c: std::ops::Range<Idx>)
    ensures cloned(r.start, c.start), cloned(r.end, c.end);

pub assume_specification[<core::cmp::Ordering as PartialEq>::eq](a: &core::cmp::Ordering, b: &core::cmp::Ordering) -> (r: bool)
    ensures r == (*a == *b);

pub assume_specification<T>[std::mem::replace](x: &mut T, v: T) -> (r: T)
    ensures r == *old(x), *final(x) == v;

#[verifier::external_body]
pub fn mem_take<T: Default>(x: &mut T) -> (r: T)
    ensures r == *old(x),
{ core::mem::take(x) }

/// An owned iterator, seen as the sequence of elements it still has to give.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { inner: Box<dyn Iterator<Item = T>> }

impl<T> View for VxIter<T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}

/// Things that give a known sequence of elements when iterated.
pub trait VxSeqIter<T>: Sized {
    spec fn rem(&self) -> Seq<T>;
}
impl<T> VxSeqIter<T> for VxIter<T> {
    open spec fn rem(&self) -> Seq<T> { self@ }
}
impl<T> VxSeqIter<T> for std::vec::IntoIter<T> {
    open spec fn rem(&self) -> Seq<T> { intoiter_rem(*self) }
}
impl<T> VxSeqIter<T> for Vec<T> {
    open spec fn rem(&self) -> Seq<T> { self@ }
}
pub uninterp spec fn intoiter_rem<T>(it: std::vec::IntoIter<T>) -> Seq<T>;

/// what a Vec's iterator still has is what it will give (assumed)
#[verifier::external_body]
pub broadcast proof fn lemma_intoiter<T>(it: std::vec::IntoIter<T>)
    ensures #![trigger intoiter_rem(it)] intoiter_rem(it) == it.remaining(),
{ }

#[verifier::external_body]
pub fn iter_empty<T>() -> (r: VxIter<T>)
    ensures r@ == Seq::<T>::empty(),
{ unimplemented!() }

pub trait VxCloned<T> {
    #[verifier::prophetic]
    spec fn cloned_src(&self) -> Seq<T>;
    /// `Iterator::cloned`
    fn vx_cloned(self) -> (r: VxIter<T>)
        where Self: Sized
        ensures r@ == self.cloned_src(), r@.len() == self.cloned_src().len();
}
impl<'a, T: Clone> VxCloned<T> for std::slice::Iter<'a, T> {
    #[verifier::prophetic]
    open spec fn cloned_src(&self) -> Seq<T> { slice_iter_src(*self) }
    #[verifier::external_body]
    fn vx_cloned(self) -> (r: VxIter<T>) { unimplemented!() }
}
#[verifier::prophetic]
pub open spec fn slice_iter_src<'a, T>(it: std::slice::Iter<'a, T>) -> Seq<T> {
    it.remaining().map_values(|x: &'a T| *x)
}

pub trait VxVec<T> {
    spec fn vv(&self) -> Seq<T>;
    /// `let _ = v.splice(range, it);` with the result dropped at once
    fn vx_splice(&mut self, r: std::ops::Range<usize>, it: VxIter<T>)
        requires r.start <= r.end <= old(self).vv().len(),
        ensures final(self).vv() == old(self).vv().take(r.start as int) + it@ + old(self).vv().skip(r.end as int);
    /// `v.extend(it.by_ref().take(n))`
    fn vx_extend_take<I: VxSeqIter<T>>(&mut self, it: &mut I, n: usize)
        ensures
            n <= old(it).rem().len() ==> final(self).vv() == old(self).vv() + old(it).rem().take(n as int) && final(it).rem() == old(it).rem().skip(n as int),
            n > old(it).rem().len() ==> final(self).vv() == old(self).vv() + old(it).rem() && final(it).rem() == Seq::<T>::empty();
    /// `v.extend(it)`
    fn vx_extend<I: VxSeqIter<T>>(&mut self, it: I)
        ensures final(self).vv() == old(self).vv() + it.rem();
    /// `v.drain(range)`, completed or dropped
    fn vx_drain(&mut self, r: std::ops::Range<usize>) -> (out: VxIter<T>)
        requires r.start <= r.end <= old(self).vv().len(),
        ensures final(self).vv() == old(self).vv().take(r.start as int) + old(self).vv().skip(r.end as int), out@ == old(self).vv().subrange(r.start as int, r.end as int);
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_splice(&mut self, r: std::ops::Range<usize>, it: VxIter<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_extend_take<I: VxSeqIter<T>>(&mut self, it: &mut I, n: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_extend<I: VxSeqIter<T>>(&mut self, it: I) { unimplemented!() }
    #[verifier::external_body]
    fn vx_drain(&mut self, r: std::ops::Range<usize>) -> (out: VxIter<T>) { unimplemented!() }
}
/// `it.by_ref().take(n).for_each(drop)`
#[verifier::external_body]
pub fn drop_take<T, I: VxSeqIter<T>>(it: &mut I, n: usize)
    ensures
        n <= old(it).rem().len() ==> final(it).rem() == old(it).rem().skip(n as int),
        n > old(it).rem().len() ==> final(it).rem() == Seq::<T>::empty(),
{ unimplemented!() }
/// `let _ = it.by_ref().skip(n);` adapters are lazy: nothing happens
#[verifier::external_body]
pub fn lazy_unused<I>(it: &mut I, n: usize)
    ensures *final(it) == *old(it),
{ unimplemented!() }

/// a Vec's length is a usize
#[verifier::external_body]
pub proof fn lemma_vec_len<T>(v: &Vec<T>)
    ensures v@.len() <= usize::MAX,
{ }

/// `X.iter().rev()` (verified)
pub fn vx_rev<T>(v: &[T]) -> (r: std::iter::Rev<std::slice::Iter<'_, T>>)
    ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r.remaining()[i]) == v@[v@.len() - 1 - i],
{
    let s = v.iter();
    let ghost a = s.remaining();
    let ghost z = vstd::std_specs::iter::DoubleEndedIteratorSpec::peek_back(&s, 0);
    let r = s.rev();
    assert(r.remaining() == a.reverse());
    r
}
/// `X.iter().rev().skip(n)` (verified)
pub struct VxRevSkip<'a, T> { pub v: &'a [T], pub n: usize }
impl<'a, T> VxRevSkip<'a, T> {
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).n <= old(self).v@.len(),
        ensures
            final(self).v == old(self).v,
            old(self).n == 0 ==> r is None && final(self).n == 0,
            old(self).n > 0 ==> final(self).n == old(self).n - 1 && (r matches Some(x) && *x == old(self).v@[old(self).n - 1]),
    {
        if self.n == 0 { None } else { self.n = self.n - 1; Some(&self.v[self.n]) }
    }
}
pub fn vx_rev_skip<T>(v: &[T], n: usize) -> (r: VxRevSkip<'_, T>)
    ensures r.v == v, r.n == (if n <= v@.len() { v@.len() - n } else { 0 }),
{
    if n <= v.len() { VxRevSkip { v: v, n: v.len() - n } } else { VxRevSkip { v: v, n: 0 } }
}
// ---------------------------------------------------------------- text
/// length of a text in bytes
pub open spec fn blen(s: Seq<char>) -> int { vstd::utf8::encode_utf8(s).len() as int }
pub assume_specification[std::string::String::len](s: &String) -> (r: usize)
    ensures r == blen(s@);
/// a text in memory is no longer than usize::MAX bytes
#[verifier::external_body]
pub proof fn lemma_text_len(s: &String)
    ensures blen(s@) <= usize::MAX,
{ }
pub trait VxStr {
    spec fn txt(&self) -> Seq<char>;
    /// `str::starts_with`
    fn vx_starts_with(&self, n: &str) -> (r: bool)
        ensures r == n@.is_prefix_of(self.txt());
    /// `str::ends_with`
    fn vx_ends_with(&self, n: &str) -> (r: bool)
        ensures r == n@.is_suffix_of(self.txt());
    /// `str::char_indices`, collected
    fn vx_char_indices(&self) -> (r: Vec<(usize, char)>)
        ensures r@.len() == self.txt().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == blen(self.txt().take(i)) && r@[i].1 == self.txt()[i];
}
impl VxStr for str {
    open spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_starts_with(&self, n: &str) -> (r: bool) { self.starts_with(n) }
    #[verifier::external_body]
    fn vx_ends_with(&self, n: &str) -> (r: bool) { self.ends_with(n) }
    #[verifier::external_body]
    fn vx_char_indices(&self) -> (r: Vec<(usize, char)>) { self.char_indices().collect() }
}
/// Slicing: in bounds, and for texts on character boundaries.
pub trait VxRange {
    type Out: ?Sized;
    spec fn ix_ok(&self, a: int, b: int) -> bool;
    spec fn ix_is(&self, a: int, b: int, r: &Self::Out) -> bool;
    spec fn ix_len(&self) -> int;
    /// `self[a..b]`
    fn vx_range(&self, a: usize, b: usize) -> (r: &Self::Out)
        requires self.ix_ok(a as int, b as int),
        ensures self.ix_is(a as int, b as int, r);
    /// `self[a..]`
    fn vx_range_from(&self, a: usize) -> (r: &Self::Out)
        requires self.ix_ok(a as int, self.ix_len()),
        ensures self.ix_is(a as int, self.ix_len(), r);
}
impl<T> VxRange for [T] {
    type Out = [T];
    open spec fn ix_ok(&self, a: int, b: int) -> bool { 0 <= a <= b <= self@.len() }
    open spec fn ix_is(&self, a: int, b: int, r: &[T]) -> bool { r@ == self@.subrange(a, b) }
    open spec fn ix_len(&self) -> int { self@.len() as int }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) { &self[a..b] }
    #[verifier::external_body]
    fn vx_range_from(&self, a: usize) -> (r: &[T]) { &self[a..] }
}
/// byte b lies between two characters
pub open spec fn on_boundary(s: Seq<char>, b: int) -> bool { exists|c: int| 0 <= c <= s.len() && b == blen(#[trigger] s.take(c)) }
pub open spec fn str_ok(s: Seq<char>, a: int, b: int) -> bool { 0 <= a <= b && on_boundary(s, a) && on_boundary(s, b) }
pub open spec fn str_is(s: Seq<char>, a: int, b: int, r: Seq<char>) -> bool {
    forall|c: int, d: int| 0 <= c <= d <= s.len() && a == blen(#[trigger] s.take(c)) && b == blen(#[trigger] s.take(d)) ==> r == s.subrange(c, d)
}
impl VxRange for str {
    type Out = str;
    open spec fn ix_ok(&self, a: int, b: int) -> bool { str_ok(self@, a, b) }
    open spec fn ix_is(&self, a: int, b: int, r: &str) -> bool { str_is(self@, a, b, r@) }
    open spec fn ix_len(&self) -> int { blen(self@) }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body]
    fn vx_range_from(&self, a: usize) -> (r: &str) { &self[a..] }
}
impl VxRange for String {
    type Out = str;
    open spec fn ix_ok(&self, a: int, b: int) -> bool { str_ok(self@, a, b) }
    open spec fn ix_is(&self, a: int, b: int, r: &str) -> bool { str_is(self@, a, b, r@) }
    open spec fn ix_len(&self) -> int { blen(self@) }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body]
    fn vx_range_from(&self, a: usize) -> (r: &str) { &self[a..] }
}
/// characters have at least one byte
pub broadcast proof fn lemma_blen(s: Seq<char>, c: int, d: int)
    requires 0 <= c < d <= s.len(),
    ensures #![trigger s.take(c), s.take(d)] blen(s.take(c)) < blen(s.take(d)),
{
    vstd::utf8::encode_utf8_concat(s.take(c), s.subrange(c, d));
    assert(s.take(d) =~= s.take(c) + s.subrange(c, d));
    lemma_blen_pos(s.subrange(c, d));
}
pub broadcast proof fn lemma_blen_pos(s: Seq<char>)
    ensures s.len() > 0 ==> #[trigger] blen(s) > 0, s.len() == 0 ==> blen(s) == 0,
{
    if s.len() > 0 { vstd::utf8::lemma_encode_utf8_len_strictly_monotonic(s, 0, s.len() as int); assert(s.take(s.len() as int) =~= s); }
}
pub proof fn lemma_blen_concat(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
{ vstd::utf8::encode_utf8_concat(a, b); }
/// A function pointer: what it returns is unknown.
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
#[verifier::accept_recursive_types(R)]
pub struct VxFn<A, R> { a: core::marker::PhantomData<(A, R)> }
#[verifier::external_body]
pub fn vx_call1<A, R>(f: &Box<VxFn<(A,), R>>, a: A) -> (r: R)
{ unimplemented!() }

// ---------------------------------------------------------------- comparisons
pub open spec fn cmp_int(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub trait VxCmp {
    spec fn vx_cmp_spec(&self, o: &Self) -> Ordering;
    /// `Ord::cmp`
    fn vx_cmp(&self, o: &Self) -> (r: Ordering)
        ensures r == self.vx_cmp_spec(o);
}
impl VxCmp for usize {
    open spec fn vx_cmp_spec(&self, o: &Self) -> Ordering { cmp_int(*self as int, *o as int) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Self) -> (r: Ordering) { Ord::cmp(self, o) }
}

// ---------------------------------------------------------------- formatting
/// everything written to the formatter so far
pub uninterp spec fn fmt_out(f: core::fmt::Formatter<'_>) -> Seq<char>;
/// Types whose Display output is known.
pub trait VxPrinted {
    spec fn printed(&self) -> Seq<char>;
    /// printing it is possible (grids are rectangles)
    spec fn printable(&self) -> bool;
}
/// a literal piece of a `write!` format string
#[verifier::external_body]
pub fn w_lit(f: &mut core::fmt::Formatter<'_>, s: &'static str) -> (r: Result<(), core::fmt::Error>)
    ensures r is Ok ==> fmt_out(*final(f)) == fmt_out(*old(f)) + s@,
{ f.write_str(s) }
pub assume_specification<'a>[core::fmt::Formatter::<'a>::write_str](f: &mut core::fmt::Formatter<'a>, s: &str) -> (r: Result<(), core::fmt::Error>)
    ensures r is Ok ==> fmt_out(*final(f)) == fmt_out(*old(f)) + s@;
/// a `{}` argument of a `write!`
#[verifier::external_body]
pub fn w_arg<T: VxPrinted>(f: &mut core::fmt::Formatter<'_>, x: &T) -> (r: Result<(), core::fmt::Error>)
    requires x.printable(),
    ensures r is Ok ==> fmt_out(*final(f)) == fmt_out(*old(f)) + x.printed(),
{ unimplemented!() }
impl<T: VxPrinted> VxPrinted for &T {
    open spec fn printed(&self) -> Seq<char> { (*self).printed() }
    open spec fn printable(&self) -> bool { (*self).printable() }
}
impl VxPrinted for char {
    open spec fn printed(&self) -> Seq<char> { seq![*self] }
    open spec fn printable(&self) -> bool { true }
}
/// decimal digits of n
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}
pub open spec fn digit(n: nat) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
impl VxPrinted for usize {
    open spec fn printed(&self) -> Seq<char> { dec(*self as nat) }
    open spec fn printable(&self) -> bool { true }
}

} // verus!
} // mod vx
%end
