//! Replays C20 on the real parser of operators (parser/src/parser/pratt_parser.rs, included as it is) with a stand-in for the
//! parts of chumsky it uses.  Oracle: the elements are read off one after the other without any precedence, then a
//! shunting yard puts the tree together.
#![allow(dead_code, unused_variables)]
#[path = "../../core/src/common.rs"]
mod common;
#[path = "/repo/aftermath-core/parser/src/parser/pratt_parser.rs"]
mod pratt_parser;
use chumsky::{extra::ParserExtra, input::InputRef, prelude::*, util::MaybeRef};
use common::*;
use pratt_parser::*;
use std::rc::Rc;

struct Toks;
impl<'a> Input<'a> for Toks { type Token = u8; type Span = (usize, usize); fn span(a: usize, b: usize) -> (usize, usize) { (a, b) } }
struct Ex;
impl<'a> ParserExtra<'a, Toks> for Ex { type Error = (); }
type In<'p> = InputRef<'static, 'p, Toks, Ex>;

/// an element that was read: which parser of its list, from where to where
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Op(usize, usize, usize);
#[derive(Clone, PartialEq, Debug)]
enum T { Atom(usize, usize), Hole(usize, usize), Unknown(usize, usize, u8), Pre(Op, Box<T>), Post(Op, Box<T>), Inf(Op, Box<T>, Box<T>), Missing(usize, usize, Box<T>, Box<T>), Group(usize, Box<T>, usize) }

/// what a table of operators says
#[derive(Clone, Debug, PartialEq, Hash)]
struct Ops { words: Vec<(Vec<u8>, u16, bool)> }
#[derive(Clone, Debug, Hash)]
struct Table { atoms: Vec<Vec<u8>>, groups: bool, infix: Ops, prefix: Ops, postfix: Ops, missing: (u8, u16), stop: Option<u8> }

trait Go<O> { fn go(&self, inp: &mut In) -> Result<O, ()>; }
struct P<O>(Rc<dyn Go<O>>);
impl<O> Clone for P<O> { fn clone(&self) -> Self { P(self.0.clone()) } }
impl<O> Parser<'static, Toks, O, Ex> for P<O> { fn go(&self, inp: &mut In) -> Result<O, ()> { self.0.go(inp) } }
/// reads a word; on failure the input stays where it went wrong
fn word(inp: &mut In, w: &[u8]) -> Result<(), ()> { for c in w { if inp.next() != Some(*c) { return Err(()); } } Ok(()) }
struct Word(usize, Vec<u8>);
impl Go<Op> for Word { fn go(&self, inp: &mut In) -> Result<Op, ()> { let a = inp.at(); word(inp, &self.1)?; Ok(Op(self.0, a, inp.at())) } }
struct Stop(Option<u8>);
impl Go<()> for Stop { fn go(&self, inp: &mut In) -> Result<(), ()> { match self.0 { Some(c) => word(inp, &[c]), None => { inp.next(); Err(()) } } } }
struct Atoms { words: Vec<Vec<u8>>, inner: Option<Box<dyn Fn(&mut In) -> Result<T, ()>>> }
impl Go<T> for Atoms {
    fn go(&self, inp: &mut In) -> Result<T, ()> {
        let a = inp.at();
        for w in &self.words { let m = inp.save(); if word(inp, w).is_ok() { return Ok(T::Atom(a, inp.at())); } inp.rewind(m); }
        if let Some(f) = &self.inner { word(inp, b"(")?; let t = f(inp)?; word(inp, b")")?; return Ok(T::Group(a, Box::new(t), inp.at())); }
        inp.next();
        Err(())
    }
}
struct B;
impl InfixBuilder<Op, T> for B { fn build(&self, op: Op, c: (T, T)) -> T { T::Inf(op, Box::new(c.0), Box::new(c.1)) } }
impl PrefixBuilder<Op, T> for B { fn build(&self, op: Op, r: T) -> T { T::Pre(op, Box::new(r)) } }
impl PostfixBuilder<Op, T> for B { fn build(&self, op: Op, l: T) -> T { T::Post(op, Box::new(l)) } }
type Sy = PrattSymbolParsers<P<T>, P<Op>, P<Op>, P<Op>, B, B, B, Op>;
type Pr = PrattParser<'static, Toks, T, Ex, Sy, P<()>>;

fn make(t: &Table, handle: RcOrWeak<Pr>) -> Pr {
    let ops = |o: &Ops| o.words.iter().cloned().enumerate().map(|(i, (w, s, r))| (P(Rc::new(Word(i, w)) as Rc<dyn Go<Op>>), s, r)).collect::<Vec<_>>();
    let inner: Option<Box<dyn Fn(&mut In) -> Result<T, ()>>> = if t.groups {
        let p = call_pratt_parser(handle, (0, Strength::Weak), P(Rc::new(Stop(Some(b')'))) as Rc<dyn Go<()>>));
        Some(Box::new(move |inp| inp.parse(&p)))
    } else { None };
    PrattParser::new(
        P(Rc::new(Atoms { words: t.atoms.clone(), inner })),
        ops(&t.infix).into_iter().map(|(p, s, r)| if r { right_infix(p, s, B) } else { left_infix(p, s, B) }).collect(),
        ops(&t.prefix).into_iter().map(|(p, s, _)| prefix(p, s, B)).collect(),
        ops(&t.postfix).into_iter().map(|(p, s, _)| postfix(p, s, B)).collect(),
        PrattParseErrorHandler {
            make_missing_atom: Rc::new(|s: (usize, usize)| T::Hole(s.0, s.1)),
            make_missing_operator: Rc::new(|s: (usize, usize), (l, r): (T, T)| T::Missing(s.0, s.1, Box::new(l), Box::new(r))),
            missing_operator_binding_power: match t.missing.0 { 0 => BindingPower::LeftInfix(t.missing.1), 1 => BindingPower::RightInfix(t.missing.1), 2 => BindingPower::Prefix(t.missing.1), _ => BindingPower::Postfix(t.missing.1) },
            make_unknown_atom: Rc::new(|s: (usize, usize), t: MaybeRef<'static, u8>| T::Unknown(s.0, s.1, match t { MaybeRef::Val(x) => x, MaybeRef::Ref(x) => *x })),
        },
    )
}

// ---------------------------------------------------------------- the oracle
/// powers are doubled: 2p + 1 is the stronger side
struct Or<'a> { t: &'a Table, s: &'a [u8] }
impl<'a> Or<'a> {
    fn op(&self, o: &Ops, at: usize) -> Option<Op> { o.words.iter().position(|w| self.s[at..].starts_with(&w.0)).map(|i| Op(i, at, at + o.words[i].0.len())) }
    fn atom(&self, at: usize) -> Option<(T, usize)> {
        if let Some(w) = self.t.atoms.iter().find(|w| self.s[at..].starts_with(w)) { return Some((T::Atom(at, at + w.len()), at + w.len())); }
        if self.t.groups && self.s.get(at) == Some(&b'(') {
            let (t, q) = self.expr(at + 1, Some(b')'), 0);
            if self.s.get(q) == Some(&b')') { return Some((T::Group(at, Box::new(t), q + 1), q + 1)); }
        }
        None
    }
    fn ended(&self, at: usize, stop: Option<u8>) -> bool { at == self.s.len() || stop == Some(self.s[at]) }
    /// the expression from `at` on, as far as operators that bind at least as strongly as `min` reach
    fn expr(&self, at: usize, stop: Option<u8>, min: u32) -> (T, usize) {
        enum Pend { Pre(Op, u32), Inf(Op, T, u32), Mis(usize, T, u32) }
        let (mut pend, mut p): (Vec<Pend>, usize) = (vec![], at);
        let fold = |pend: &mut Vec<Pend>, x: T, l: Option<u32>| -> T {
            let mut x = x;
            loop {
                let r = match pend.last() { None => return x, Some(Pend::Pre(_, r) | Pend::Inf(_, _, r) | Pend::Mis(_, _, r)) => *r };
                if l.map_or(false, |l| l >= r) { return x; }
                x = match pend.pop().unwrap() { Pend::Pre(o, _) => T::Pre(o, Box::new(x)), Pend::Inf(o, l, _) => T::Inf(o, Box::new(l), Box::new(x)), Pend::Mis(a, l, _) => T::Missing(a, a, Box::new(l), Box::new(x)) };
            }
        };
        let two = |x: u16| 2 * x as u32;
        let mis = match self.t.missing { (0, p) | (2, p) => (two(p), two(p) + 1), (_, p) => (two(p) + 1, two(p)) };
        loop {
            // an operand
            let mut x;
            while p < self.s.len() { match self.op(&self.t.prefix, p) { Some(o) => { pend.push(Pend::Pre(o, two(self.t.prefix.words[o.0].1) + 1)); p = o.2 } None => break } }
            if let Some((t, q)) = self.atom(p) { x = t; p = q }
            else if self.operator(p) { x = T::Hole(p, p) }
            else if self.ended(p, stop) { x = T::Hole(p, p); return (fold(&mut pend, x, None), p) }
            else { x = self.unknown(&mut p, stop) }
            // operators behind it
            loop {
                if p == self.s.len() { return (fold(&mut pend, x, None), p); }
                if let Some(o) = self.op(&self.t.infix, p) {
                    let w = &self.t.infix.words[o.0];
                    let (l, r) = if w.2 { (two(w.1) + 1, two(w.1)) } else { (two(w.1), two(w.1) + 1) };
                    let y = fold(&mut pend, x, Some(l));
                    if l < min && pend.is_empty() { return (y, p); }
                    pend.push(Pend::Inf(o, y, r)); p = o.2; break;
                } else if let Some(o) = self.op(&self.t.postfix, p) {
                    let l = two(self.t.postfix.words[o.0].1) + 1;
                    let y = fold(&mut pend, x, Some(l));
                    if l < min && pend.is_empty() { return (y, p); }
                    x = T::Post(o, Box::new(y)); p = o.2;
                } else if self.op(&self.t.prefix, p).is_some() || self.atom(p).is_some() {
                    let y = fold(&mut pend, x, Some(mis.0));
                    if mis.0 < min && pend.is_empty() { return (y, p); }
                    pend.push(Pend::Mis(p, y, mis.1)); break;
                } else if self.ended(p, stop) { return (fold(&mut pend, x, None), p); }
                else { let a = p; let u = self.unknown(&mut p, stop); x = T::Missing(a, a, Box::new(x), Box::new(u)) }
            }
        }
    }
    fn operator(&self, p: usize) -> bool { self.op(&self.t.infix, p).is_some() || self.op(&self.t.postfix, p).is_some() }
    fn unknown(&self, p: &mut usize, stop: Option<u8>) -> T {
        let mut x = T::Unknown(*p, *p, self.s[*p]); *p += 1;
        while !(self.ended(*p, stop) || self.operator(*p) || self.op(&self.t.prefix, *p).is_some() || self.atom(*p).is_some()) {
            x = T::Missing(*p, *p, Box::new(x), Box::new(T::Unknown(*p, *p, self.s[*p]))); *p += 1;
        }
        x
    }
}

fn rand_ops(r: &mut Rng, max: usize, words: &[&str], top: usize) -> Ops {
    let n = r.to(max + 1);
    Ops { words: (0..n).map(|_| (r.pick(words).as_bytes().to_vec(), r.to(top) as u16, r.to(2) == 0)).collect() }
}
fn rand_table(r: &mut Rng) -> Table {
    let top = 1 + r.to(5);
    let (a, b, c): (&[&str], &[&str], &[&str]) = if r.to(4) == 0 { (&["+", "-", "+-", "a"], &["-", "+", "--"], &["!", "+", "-"]) } else { (&["+", "*", "^", "++", "=", "^*"], &["-", "~", "--"], &["!", "?", "!!"]) };
    let mut t = Table {
        atoms: if r.to(5) == 0 { vec![b"a".to_vec(), b"ab".to_vec(), b"b+".to_vec()] } else { vec![b"ab".to_vec(), b"a".to_vec(), b"b".to_vec()] }, groups: r.to(3) > 0,
        infix: rand_ops(r, 4, a, top), prefix: rand_ops(r, 2, b, top), postfix: rand_ops(r, 2, c, top), missing: (r.to(4) as u8, r.to(top) as u16),
        stop: if r.to(2) == 0 { Some(*r.pick(&[b';', b')', b'a', b'+'])) } else { None },
    };
    if r.to(6) == 0 { for o in t.infix.words.iter_mut() { if r.to(2) == 0 { o.1 = *r.pick(&[0, u16::MAX, u16::MAX - 1]); } } }
    t
}
fn c20(cx: &mut Cx) {
    cx.rule = "random tables of infix, prefix and postfix operators (powers, associativity, words that are prefixes of one another or in several tables), with and without groups, random inputs of up to 14 characters with missing operands and operators and unreadable characters, from the weakest power or another one; non-trivial: at least two operators of the table are read".into();
    while !cx.over() {
        let t = rand_table(&mut cx.rng);
        let alphabet: Vec<u8> = if cx.rng.to(3) == 0 { b"ab+*^=-~!?();#".to_vec() } else { t.infix.words.iter().chain(&t.prefix.words).chain(&t.postfix.words).flat_map(|w| w.0.clone()).chain(*b"aabb").chain(if t.groups { *b"()" } else { *b"#b" }).collect() };
        for _ in 0..12 {
            let n = 1 + cx.rng.to(14);
            let s: Vec<u8> = if cx.rng.to(2) == 0 { (0..n).map(|_| *cx.rng.pick(&alphabet)).collect() } else {
                let mut v = vec![];
                for i in 0..n { let o = if i % 2 == 1 { &t.infix } else if cx.rng.to(3) == 0 { &t.prefix } else if cx.rng.to(4) == 0 { &t.postfix } else { &Ops { words: vec![] } };
                    if o.words.is_empty() { v.push(b'a') } else { let w = cx.rng.pick(&o.words).0.clone(); v.extend(w); if i % 2 == 0 { v.push(b'b') } } }
                v
            };
            let from = if cx.rng.to(4) == 0 { cx.rng.to(s.len()) } else { 0 };
            let min = if cx.rng.to(3) == 0 { (cx.rng.to(5) as u16, cx.rng.to(2) == 0) } else { (0, false) };
            let (want, q) = Or { t: &t, s: &s }.expr(from, t.stop, 2 * min.0 as u32 + min.1 as u32);
            fn ops(t: &T) -> usize { match t { T::Atom(..) | T::Hole(..) | T::Unknown(..) => 0, T::Pre(_, r) | T::Post(_, r) => 1 + ops(r), T::Inf(_, l, r) => 1 + ops(l) + ops(r), T::Missing(_, _, l, r) => ops(l) + ops(r), T::Group(_, x, _) => ops(x) } }
            cx.case(ops(&want) > 1, &(&t, &s, from, min), || {
                let w = |o: &Ops| o.words.iter().map(|(w, p, r)| format!("{} ({}{})", String::from_utf8_lossy(w), p, if *r { ", right" } else { "" })).collect::<Vec<_>>().join(", ");
                format!("input {:?} from {}, outer power {:?}, atoms {:?}{}, infix [{}], prefix [{}], postfix [{}], missing operator {:?}, ends at {:?}", String::from_utf8_lossy(&s), from, min,
                    t.atoms.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>(), if t.groups { " and ( )" } else { "" }, w(&t.infix), w(&t.prefix), w(&t.postfix), t.missing, t.stop.map(|c| c as char))
            }, || {
                let (tt, stop) = (t.clone(), P(Rc::new(Stop(t.stop)) as Rc<dyn Go<()>>));
                let mut inp = In::over(&s, from);
                let p = pratt_parse_recursive(stop.clone(), move |h| make(&tt, h));
                let got = if min == (0, false) { inp.parse(&p) } else {
                    // a parser with another outer power, over the same table
                    let own = Rc::new(make(&Table { groups: false, ..t.clone() }, { let (t2, e) = (t.clone(), stop.clone()); dangling(&t2, e) }));
                    if t.groups { return Ok(()); }
                    inp.parse(&call_pratt_parser(RcOrWeak::Owned(own), (min.0, if min.1 { Strength::Strong } else { Strength::Weak }), stop))
                };
                same("tree", got, Ok(want.clone()))?;
                same("input read up to", inp.at(), q)
            });
        }
    }
}
/// a handle for tables without groups (never followed)
fn dangling(t: &Table, e: P<()>) -> RcOrWeak<Pr> { RcOrWeak::Weak(std::rc::Weak::new()) }

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 28).spawn(|| {
        let a: Vec<String> = std::env::args().collect();
        let (prop, seed, secs) = (a[1].as_str(), a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1u64), a.get(3).and_then(|s| s.parse().ok()).unwrap_or(5.0f64));
        quiet_panics();
        let mut cx = Cx::new(prop, seed, secs);
        match prop { "C20" => c20(&mut cx), _ => { eprintln!("unknown property"); std::process::exit(2) } }
        cx.finish()
    }).unwrap();
    let _ = h.join();
    std::process::exit(2)
}
