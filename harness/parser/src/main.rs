//! Runs the real parser crate (with a stand-in for chumsky, see ../chumsky; the crate's own tests pass with it) against
//! independent oracles: C17 (rules of all modules), C18 (builders), C20 (declared operators), C25 (names).
#[path = "../../core/src/common.rs"]
mod common;
use common::*;
use input_tree::node::InputNode;
use parser::{
    autocomplete::AutocompleteRule,
    make_parser::{just_operator_parser, just_symbol_parser, make_brackets_parser, make_empty_brackets_parser},
    parse_module::*,
    parse_modules::{ParseModuleCollection, ParseModules},
    parser::{pratt_parser::{InfixBuilder, PostfixBuilder, PrefixBuilder}, MathParser},
    rule_collection::{InfixBuilderImpl, PostfixBuilderImpl, PrefixBuilderImpl},
    rule_collections::{
        arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules, collections_rules::CollectionsRules,
        comparison_rules::ComparisonRules, core_rules::CoreRules, function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
    },
    syntax_tree::*,
};
use std::rc::Rc;

fn full() -> (MathParser, ParseModules) {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    let all: Vec<Rc<dyn ParseModule>> = vec![
        b.clone(), Rc::new(CoreRules::new(&mut m, &b)), Rc::new(ArithmeticRules::new(&mut m)), Rc::new(CalculusRules::new(&mut m)), Rc::new(CollectionsRules::new(&mut m)),
        Rc::new(ComparisonRules::new(&mut m)), Rc::new(FunctionRules::new(&mut m, &b)), Rc::new(LogicRules::new(&mut m)), Rc::new(StringRules::new(&mut m)),
    ];
    (MathParser::new(ParseModuleCollection::new(b, all)), m)
}

// ---------------------------------------------------------------- nothing of a formula is lost (C20)
/// the tree of a row contains each of its elements exactly once and in order
fn covers(n: &SyntaxNode, row: &[M]) -> Result<(), String> { same("the tree covers the row", n.range(), 0..row.len())?; part(n, row) }
fn part(n: &SyntaxNode, row: &[M]) -> Result<(), String> {
    let r = n.range();
    check(&format!("{:?} is a part of a row of {}", r, row.len()), r.start <= r.end && r.end <= row.len())?;
    let here = &row[r.clone()];
    match &n.children {
        SyntaxNodeChildren::Leaf(l) => {
            let mut text = String::new();
            for m in here { match m { M::Sym(s) => text.push_str(s), _ => return Err(format!("the leaf at {:?} hides {}", r, show(&here.to_vec()))) } }
            same(&format!("text of the leaf at {:?}", r), l.symbols.concat(), text)
        }
        SyntaxNodeChildren::Children(c) => {
            let mut at = r.start;
            for x in c { same(&format!("start of a part of {:?}", r), x.range().start, at)?; part(x, row)?; at = x.range().end; }
            same(&format!("end of the parts of {:?}", r), at, r.end)
        }
        SyntaxNodeChildren::NewRows(g) => match here {
            [M::Cont(_, w, cells)] => {
                use input_tree::grid::Grid;
                same("size of the rows", (g.width(), g.height()), (*w, cells.len() / (*w).max(1)))?;
                for (x, c) in g.values().zip(cells) { covers(x, c)?; }
                Ok(())
            }
            _ => Err(format!("the rows at {:?} are of no container: {}", r, show(&here.to_vec()))),
        },
    }
}
const WORDS: [&str; 46] = ["a", "b", "x", "1", "2", "1", ".", "+", "-", "*", "/", "^", "!", "(", ")", ")", ",", "=", "<", ">", "\"", "\\", " ", " ", "∞", "∑", "∫", "l", "i", "m", "s", "u", "p", "n", "f", "⇒", "∧", "∨", "¬", "⊤", "⊥", "≤", "≥", "≠", "#", "𝒳"];
/// symbols the rules know, few opening brackets (the parser tries again and again what follows one that is not closed)
fn math_row(r: &mut Rng, depth: usize, max: usize, open: &mut usize) -> Row {
    let n = r.to(max + 1);
    (0..n).map(|_| {
        if depth > 0 && r.to(5) == 0 {
            let k = *r.pick(&[K::Fraction, K::Root, K::Sup, K::Sub, K::Sup, K::Sub, K::Table]);
            let (w, n) = match k { K::Fraction => (1, 2), K::Root => (2, 2), K::Sup | K::Sub => (1, 1), K::Table => { let w = 1 + r.to(3); (w, w * r.to(3)) } };
            return M::Cont(k, w, (0..n).map(|_| math_row(r, depth - 1, 3, open)).collect());
        }
        let s = if r.to(12) == 0 { rand_sym(r) } else { sym(*r.pick(&WORDS)) };
        match s { M::Sym(s) if s == "(" => { if *open > 3 { sym(")") } else { *open += 1; M::Sym(s) } } s => s }
    }).collect()
}
/// few symbols, so that rules apply
fn busy_row(r: &mut Rng) -> Row {
    let few: Vec<M> = (0..3 + r.to(4)).map(|_| sym(*r.pick(&WORDS))).collect();
    let mut open = 0;
    (0..2 + r.to(9)).map(|_| match r.pick(&few).clone() { M::Sym(s) if s == "(" => { open += 1; if open > 4 { sym("a") } else { M::Sym(s) } } s => s }).collect()
}
fn shape(n: &SyntaxNode, names: &SyntaxNodeNameMap) -> String { format!("{}", n.with_display(names)) }
/// the rules the editor comes with
struct Whole { p: MathParser, names: ParseModules }
impl Whole {
    fn one(&self, cx: &mut Cx, t: &Row) {
        cx.case(t.len() > 2, t, || format!("formula {} with the nine modules of rules", show(t)), || {
            let nodes = to_nodes(t);
            let n = self.p.parse(&nodes);
            covers(&n, t)?;
            check("the formula is parsed in the same way again", format!("{:?}", self.p.parse(&nodes)) == format!("{:?}", n))?;
            check("there is a text for the tree", !shape(&n, self.names.get_rule_name_map()).contains("<unknown"))
        });
    }
    fn some(&self, cx: &mut Cx) {
        let t = match cx.rng.to(4) { 0 => { let t = rand_tree(&mut cx.rng); if brackets(&t) > 5 { return } t } 1 => { let mut o = 0; let d = cx.rng.to(3); math_row(&mut cx.rng, d, 8, &mut o) } _ => busy_row(&mut cx.rng) };
        self.one(cx, &t);
    }
}
fn brackets(t: &Row) -> usize { t.iter().map(|m| match m { M::Sym(s) => (s == "(") as usize, M::Cont(_, _, c) => c.iter().map(brackets).max().unwrap_or(0) }).sum() }

// ---------------------------------------------------------------- C20: rules declared by modules
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Kind { Atom, Prefix, Left, Right, Postfix, Name, Variable, Text, Number }
#[derive(Clone, Debug, Hash)]
struct Rule { kind: Kind, name: String, power: u16, word: Vec<String>, close: Option<Vec<String>>, empty: bool, leaf: bool }
struct Declared { name: String, rules: Vec<ParseRule>, auto: Vec<AutocompleteRule> }
impl ParseModule for Declared {
    fn get_module_name(&self) -> &str { &self.name }
    fn get_rules(&self) -> &[ParseRule] { &self.rules }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] { &self.auto }
}
fn declare(modules: &[Vec<Rule>]) -> (MathParser, ParseModules) {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    let mut all: Vec<Rc<dyn ParseModule>> = vec![b.clone()];
    for (i, rs) in modules.iter().enumerate() {
        if let Some(r) = rs.first() { match r.kind { Kind::Variable => { all.push(Rc::new(CoreRules::new(&mut m, &b))); continue } Kind::Text => { all.push(Rc::new(StringRules::new(&mut m))); continue } Kind::Number => { all.push(Rc::new(ArithmeticRules::new(&mut m))); continue } _ => {} } }
        let rules = rs.iter().map(|r| {
            let n = m.with_rule_name(PathIdentifier::new(vec!["T".into(), r.name.clone()]));
            let w = r.word.clone();
            match (r.kind, &r.close) {
                (Kind::Atom, None) => atom_rule(n, just_symbol_parser(w)),
                (Kind::Atom, Some(c)) => if r.empty { atom_rule(n, make_empty_brackets_parser(b.operator_rule_name, w.concat(), c.concat())) } else { atom_rule(n, make_brackets_parser(b.operator_rule_name, w.concat(), c.concat())) },
                (Kind::Postfix, Some(c)) => if r.empty { postfix_rule(n, r.power, make_empty_brackets_parser(b.operator_rule_name, w.concat(), c.concat())) } else { postfix_rule(n, r.power, make_brackets_parser(b.operator_rule_name, w.concat(), c.concat())) },
                (Kind::Prefix, _) => prefix_rule(n, r.power, just_operator_parser(w)),
                (Kind::Left, _) => left_infix_rule(n, r.power, just_operator_parser(w)),
                (Kind::Right, _) => right_infix_rule(n, r.power, just_operator_parser(w)),
                (Kind::Postfix, _) => postfix_rule(n, r.power, just_operator_parser(w)),
                _ => name_only_rule(n),
            }
        }).collect();
        all.push(Declared { name: format!("T{i}"), rules, auto: vec![] }.boxed_rc());
    }
    (MathParser::new(ParseModuleCollection::new(b, all)), m)
}
impl Declared { fn boxed_rc(self) -> Rc<dyn ParseModule> { Rc::new(self) } }
/// what is read, written down as text; powers are doubled: 2p + 1 is the stronger side
struct Or<'a> { rules: &'a [Rule], s: &'a [M] }
type Got = (String, usize);
#[derive(Clone)]
struct Tok { left: u32, right: u32, name: String, text: String, end: usize }
const MIS: (u32, u32) = (200, 201);
impl<'a> Or<'a> {
    fn over(&self, s: &'a [M]) -> Or<'a> { Or { rules: self.rules, s } }
    fn sym(&self, at: usize) -> Option<&str> { match self.s.get(at) { Some(M::Sym(s)) => Some(s), _ => None } }
    fn spaces(&self, at: usize) -> usize { let mut q = at; while self.sym(q) == Some(" ") { q += 1 } q }
    fn word(&self, at: usize, w: &[String]) -> Option<usize> { for (i, x) in w.iter().enumerate() { if self.sym(at + i) != Some(x) { return None; } } Some(at + w.len()) }
    fn white(&self, a: usize, b: usize) -> String { let mut t = String::from("(BuiltIn::Whitespace \""); for _ in a..b { t.push(' ') } t + "\")" }
    /// spaces, what `f` reads, spaces
    fn spaced(&self, at: usize, f: impl Fn(usize) -> Option<Got>) -> Option<Got> {
        let a = self.spaces(at); let (t, b) = f(a)?; let c = self.spaces(b);
        if a == at && c == b { return Some((t, c)); }
        let mut parts = vec![]; if a > at { parts.push(self.white(at, a)) } parts.push(t); if c > b { parts.push(self.white(b, c)) }
        Some((format!("(BuiltIn::Whitespaces {})", parts.join(" ")), c))
    }
    fn quoted(w: &[String]) -> String { format!("\"{}\"", w.concat().replace('\\', "\\\\").replace('"', "\\\"")) }
    fn rows(&self, at: usize, k: K) -> Option<String> {
        match self.s.get(at) {
            Some(M::Cont(k2, w, cells)) if *k2 == k => {
                let mut t = format!("{}x{}", w, cells.len() / (*w).max(1));
                if cells.is_empty() { t.clear(); }
                for c in cells { t.push(' '); t.push_str(&self.over(c).expr(0, None, 0).0); }
                Some(t)
            }
            _ => None,
        }
    }
    fn node(name: &str, inside: &str) -> String { if inside.is_empty() { format!("({name})") } else { format!("({name} {inside})") } }
    fn full(r: &Rule) -> String { if r.name.contains(':') { r.name.clone() } else { format!("T::{}", r.name) } }
    fn basic(&self, r: &Rule, name: &str, at: usize) -> Option<Got> {
        let text = |q: usize| -> Option<Got> { let w: Vec<String> = (at..q).map(|i| self.sym(i).unwrap().to_string()).collect(); Some((format!("({name} {})", Self::quoted(&w)), q)) };
        let digits = |mut q: usize| { while self.sym(q).map_or(false, |s| s.chars().all(|c| ('0'..='9').contains(&c))) { q += 1 } q };
        match r.kind {
            Kind::Variable => {
                let goes_on = |s: &str| s.chars().all(|c| c.is_alphanumeric() || c == '_');
                let s = self.sym(at)?;
                if !(s.chars().next()?.is_alphabetic() && goes_on(s)) { return None }
                let mut q = at + 1; while self.sym(q).map_or(false, goes_on) { q += 1 }
                return text(q);
            }
            Kind::Text => {
                if self.sym(at)? != "\"" { return None }
                let mut q = at + 1;
                loop { match self.sym(q)? { "\"" => return text(q + 1), "\\" => { self.sym(q + 1)?; q += 2 } _ => q += 1 } }
            }
            Kind::Number => {
                let mut q = digits(at); if q == at { return None }
                if self.sym(q) == Some(".") { let e = digits(q + 1); if e > q + 1 { q = e } }
                return text(q);
            }
            _ => {}
        }
        match &r.close {
            None => { let q = self.word(at, &r.word)?; Some((format!("({name} {})", Self::quoted(&r.word)), q)) }
            Some(c) => {
                let q = self.word(at, &r.word)?;
                let op = |w: &[String]| format!("(BuiltIn::Operator {})", Self::quoted(w));
                let (inner, q) = if r.empty { (None, q) } else { let (t, q) = self.expr(q, Some(&c[0]), 0); (Some(t), q) };
                let e = self.word(q, c)?;
                let mut parts = vec![op(&r.word)]; parts.extend(inner); parts.push(op(c));
                Some((format!("({name} {})", parts.join(" ")), e))
            }
        }
    }
    fn op(&self, kinds: &[Kind], at: usize) -> Option<Tok> {
        for r in self.rules.iter().rev().filter(|r| kinds.contains(&r.kind)) {
            if let Some((mut text, mut q)) = self.spaced(at, |a| self.basic(r, "BuiltIn::Operator", a)) {
                if r.kind != Kind::Postfix {
                    loop {
                        let (k, n) = match self.s.get(q) { Some(M::Cont(K::Sub, ..)) => (K::Sub, "BuiltIn::Sub"), Some(M::Cont(K::Sup, ..)) => (K::Sup, "BuiltIn::Sup"), _ => break };
                        let e = self.spaces(q + 1);
                        let mut c = Self::node("BuiltIn::Operator", &self.rows(q, k).unwrap());
                        if e > q + 1 { c = format!("(BuiltIn::Whitespaces {c} {})", self.white(q + 1, e)) }
                        text = format!("({n} {text} {c})"); q = e;
                    }
                }
                let p = 2 * r.power as u32;
                let (left, right) = match r.kind { Kind::Left => (p, p + 1), Kind::Right => (p + 1, p), Kind::Prefix => (0, p + 1), _ => (p + 1, 0) };
                return Some(Tok { left, right, name: Self::full(r), text, end: q });
            }
        }
        if kinds.contains(&Kind::Postfix) {
            for (k, n) in [(K::Sub, "BuiltIn::Sub"), (K::Sup, "BuiltIn::Sup")] {
                if let Some((text, end)) = self.spaced(at, |a| self.rows(a, k).map(|t| (Self::node("BuiltIn::Operator", &t), a + 1))) { return Some(Tok { left: 2001, right: 0, name: n.into(), text, end }); }
            }
        }
        None
    }
    fn infix(&self, at: usize) -> Option<Tok> { self.op(&[Kind::Left, Kind::Right], at) }
    fn prefix(&self, at: usize) -> Option<Tok> { self.op(&[Kind::Prefix], at) }
    fn postfix(&self, at: usize) -> Option<Tok> { self.op(&[Kind::Postfix], at) }
    fn atom(&self, at: usize) -> Option<Got> {
        for r in self.rules.iter().rev().filter(|r| matches!(r.kind, Kind::Atom | Kind::Variable | Kind::Text | Kind::Number)) { if let Some(g) = self.spaced(at, |a| self.basic(r, &Self::full(r), a)) { return Some(g); } }
        for (k, n) in [(K::Table, "BuiltIn::Table"), (K::Root, "BuiltIn::Root"), (K::Fraction, "BuiltIn::Fraction")] {
            if let Some(g) = self.spaced(at, |a| self.rows(a, k).map(|t| (Self::node(n, &t), a + 1))) { return Some(g); }
        }
        None
    }
    fn operator(&self, at: usize) -> bool { self.infix(at).is_some() || self.postfix(at).is_some() }
    fn ended(&self, at: usize, stop: Option<&str>) -> bool { at == self.s.len() || (stop.is_some() && self.sym(at) == stop) }
    fn expr(&self, at: usize, stop: Option<&str>, _min: u32) -> Got {
        enum Pend { Pre(Tok, u32), Inf(Tok, String, u32), Mis(String, u32) }
        const HOLE: &str = "(Error::MissingToken)";
        let (mut pend, mut p): (Vec<Pend>, usize) = (vec![], at);
        let fold = |pend: &mut Vec<Pend>, x: String, l: Option<u32>| -> String {
            let mut x = x;
            loop {
                let r = match pend.last() { None => return x, Some(Pend::Pre(_, r) | Pend::Inf(_, _, r) | Pend::Mis(_, r)) => *r };
                if l.map_or(false, |l| l >= r) { return x; }
                x = match pend.pop().unwrap() { Pend::Pre(o, _) => format!("({} {} {x})", o.name, o.text), Pend::Inf(o, l, _) => format!("({} {l} {} {x})", o.name, o.text), Pend::Mis(l, _) => format!("(Error::MissingOperator {l} {HOLE} {x})") };
            }
        };
        loop {
            let mut x;
            while p < self.s.len() { match self.prefix(p) { Some(o) => { p = o.end; let r = o.right; pend.push(Pend::Pre(o, r)) } None => break } }
            if p == self.s.len() { x = HOLE.to_string(); return (fold(&mut pend, x, None), p) }
            if let Some((t, q)) = self.atom(p) { x = t; p = q }
            else if self.operator(p) { x = HOLE.to_string() }
            else if self.ended(p, stop) { x = HOLE.to_string(); return (fold(&mut pend, x, None), p) }
            else { x = self.unknown(&mut p, stop) }
            loop {
                if p == self.s.len() { return (fold(&mut pend, x, None), p); }
                if let Some(o) = self.infix(p) { let y = fold(&mut pend, x, Some(o.left)); p = o.end; let r = o.right; pend.push(Pend::Inf(o, y, r)); break; }
                else if let Some(o) = self.postfix(p) { let y = fold(&mut pend, x, Some(o.left)); x = format!("({} {y} {})", o.name, o.text); p = o.end; }
                else if self.prefix(p).is_some() || self.atom(p).is_some() { let y = fold(&mut pend, x, Some(MIS.0)); pend.push(Pend::Mis(y, MIS.1)); break; }
                else if self.ended(p, stop) { return (fold(&mut pend, x, None), p); }
                else { let u = self.unknown(&mut p, stop); x = format!("(Error::MissingOperator {x} {HOLE} {u})") }
            }
        }
    }
    fn unknown(&self, p: &mut usize, stop: Option<&str>) -> String {
        let one = |p: usize| format!("(Error::UnknownToken {})", Self::quoted(&[self.sym(p).unwrap().to_string()]));
        let mut x = one(*p); *p += 1;
        while !(self.ended(*p, stop) || self.prefix(*p).is_some() || self.atom(*p).is_some() || self.operator(*p)) { x = format!("(Error::MissingOperator {x} (Error::MissingToken) {})", one(*p)); *p += 1; }
        x
    }
}
fn rand_rules(r: &mut Rng) -> Vec<Vec<Rule>> {
    let power = |r: &mut Rng| match r.to(8) { 0 => 100, 1 => 1000, 2 => 0, 3 => 99 + r.to(3) as u16, _ => r.to(5) as u16 };
    let mut n = 0;
    (0..1 + r.to(3)).map(|_| (0..r.to(6)).map(|_| {
        n += 1;
        let kind = *r.pick(&[Kind::Atom, Kind::Atom, Kind::Prefix, Kind::Left, Kind::Left, Kind::Right, Kind::Right, Kind::Postfix, Kind::Name]);
        let words: &[&str] = match kind { Kind::Atom => &["a", "b", "ab", "a+", "é"], Kind::Prefix => &["-", "~", "--", "lim"], Kind::Postfix => &["!", "?", "!!", "+"], _ => &["+", "*", "++", "=", "-", "\""] };
        let mut rule = Rule { kind, name: format!("R{}", if r.to(8) == 0 { 1 } else { n }), power: power(r), word: r.pick(words).chars().map(|c| c.to_string()).collect(), close: None, empty: false, leaf: true };
        if matches!(kind, Kind::Atom | Kind::Postfix) && r.to(3) == 0 { let (o, c) = *r.pick(&[("(", ")"), ("[", "]"), ("|", "|")]); rule.word = vec![o.into()]; rule.close = Some(vec![c.into()]); rule.empty = r.to(3) == 0; }
        rule
    }).collect()).collect()
}
fn c20(cx: &mut Cx) {
    cx.rule = "up to 15 declared rules in up to 3 modules (powers, associativity, brackets, words that are prefixes of one another, the same name twice), next to the built-in ones; random rows of up to 12 elements over their words, spaces, sub- and superscripts, containers and unreadable symbols, non-trivial: at least two operators are read; and, with all nine modules of rules, the fixed family of formulas, random formulas and rows of up to 10 symbols that the rules know, non-trivial: more than two elements; at most 5 brackets are opened".into();
    let (p, names) = full(); let whole = Whole { p, names };
    for t in small_trees() { whole.one(cx, &t); }
    while !cx.over() {
        for _ in 0..3 { whole.some(cx); }
        let mut mods = rand_rules(&mut cx.rng);
        // the modules of variables, strings and arithmetic, between the others
        let mut more: Vec<&str> = vec![];
        if cx.rng.to(3) == 0 {
            let rule = |kind: Kind, name: &str, power: u16, word: &str| Rule { kind, name: name.into(), power, word: vec![word.into()], close: None, empty: false, leaf: true };
            let bracket = |empty: bool| Rule { close: Some(vec![")".into()]), empty, ..rule(Kind::Atom, "Core::RoundBrackets", 0, "(") };
            let a = |kind: Kind, name: &str, power: u16, word: &str| rule(kind, &format!("Arithmetic::{name}"), power, word);
            if cx.rng.to(2) == 0 { let i = cx.rng.to(mods.len() + 1); mods.insert(i, vec![rule(Kind::Variable, "Core::Variable", 0, "x"), bracket(false), bracket(true)]); more.extend(["x", "y1", "2", "_", "é", "π", "ab", "a-", "(", ")"]); }
            if cx.rng.to(2) == 0 { let i = cx.rng.to(mods.len() + 1); mods.insert(i, vec![rule(Kind::Text, "String::String", 0, "\"")]); more.extend(["\"", "\"", "\"", "\\", "x", "€"]); }
            if cx.rng.to(2) == 0 { let i = cx.rng.to(mods.len() + 1); mods.insert(i, vec![a(Kind::Number, "Number", 0, "1"), a(Kind::Left, "Add", 100, "+"), a(Kind::Left, "Subtract", 100, "-"), a(Kind::Prefix, "Add", 400, "+"), a(Kind::Prefix, "Subtract", 400, "-"), a(Kind::Left, "Multiply", 200, "*"), a(Kind::Left, "Divide", 200, "/"), a(Kind::Postfix, "Exponent", 850, "^"), a(Kind::Postfix, "Factorial", 600, "!")]); more.extend(["1", "20", "3", ".", ".", "1a", "٣", "+", "-", "*", "/", "^", "!"]); }
        }
        let flat: Vec<Rule> = mods.iter().flatten().cloned().collect();
        let (p, names) = declare(&mods);
        let mut alphabet: Vec<M> = flat.iter().flat_map(|r| r.word.iter().chain(r.close.iter().flatten()).map(|s| sym(s))).collect();
        alphabet.extend(more.iter().map(|s| sym(s))); alphabet.extend(["a", "b", " ", "#"].map(sym)); if cx.rng.to(2) == 0 { alphabet.extend(["(", ")", "a", "a"].map(sym)) }
        for _ in 0..10 {
            let n = 1 + cx.rng.to(12); let mut open = 0;
            let mut t: Row = (0..n).map(|_| { let r = &mut cx.rng;
                if r.to(7) == 0 { let k = *r.pick(&[K::Sup, K::Sub, K::Fraction, K::Root, K::Table]); let (w, n) = match k { K::Fraction => (1, 2), K::Root => (2, 2), K::Table => { let w = 1 + r.to(2); (w, w * r.to(3)) } _ => (1, 1) }; return M::Cont(k, w, (0..n).map(|_| (0..r.to(3)).map(|_| r.pick(&alphabet).clone()).collect()).collect()); }
                let m = r.pick(&alphabet).clone(); if matches!(&m, M::Sym(s) if s == "(" || s == "[" || s == "|") { open += 1; if open > 4 { return sym("a") } } m }).collect();
            if cx.rng.to(2) == 0 { // operands and operators in turn
                let ops: Vec<&Rule> = flat.iter().filter(|r| matches!(r.kind, Kind::Left | Kind::Right)).collect(); let atoms: Vec<&Rule> = flat.iter().filter(|r| r.kind == Kind::Atom && r.close.is_none()).collect();
                let rest: Vec<&Rule> = flat.iter().filter(|r| matches!(r.kind, Kind::Prefix | Kind::Postfix) && r.close.is_none()).collect();
                if !ops.is_empty() && !atoms.is_empty() { t = vec![]; let n = 2 + cx.rng.to(4); for i in 0..n { let r = &mut cx.rng; let put = |t: &mut Row, x: &Rule| t.extend(x.word.iter().map(|s| sym(s)));
                    if i > 0 { put(&mut t, *r.pick(&ops)); if r.to(8) == 0 { t.push(sym(" ")) } if r.to(8) == 0 { t.push(M::Cont(K::Sub, 1, vec![vec![sym("a")]])) } }
                    let x = if rest.is_empty() || r.to(2) == 0 { None } else { Some(*r.pick(&rest)) };
                    if let Some(x) = x { if x.kind == Kind::Prefix { put(&mut t, x) } } put(&mut t, *r.pick(&atoms)); if let Some(x) = x { if x.kind == Kind::Postfix { put(&mut t, x) } } if r.to(8) == 0 { t.push(M::Cont(K::Sup, 1, vec![vec![sym("b")]])) } } }
            }
            let want = Or { rules: &flat, s: &t }.expr(0, None, 0).0;
            cx.case(want.matches("BuiltIn::Operator").count() > 1, &(&flat, &t), || format!("formula {} with the rules {}", show(&t), flat.iter().map(|r| format!("{:?} {} {:?}{} {}", r.kind, r.name, r.word.concat(), r.close.as_ref().map_or(String::new(), |c| format!("..{:?}{}", c.concat(), if r.empty { " empty" } else { "" })), r.power)).collect::<Vec<_>>().join(", ")), || {
                let n = p.parse(&to_nodes(&t));
                covers(&n, &t)?;
                same("tree", shape(&n, names.get_rule_name_map()), want.clone())
            });
        }
    }
}

// ---------------------------------------------------------------- C17: the rules of all modules, those declared last first
fn c17(cx: &mut Cx) {
    use parser::autocomplete::AutocompleteMatcher;
    cx.rule = "up to 4 modules with up to 4 rules each, random rows over the symbols of their texts, every caret and required length; non-trivial: two rules match".into();
    let words = ["a", "ab", "aba", "b", "lim", "li", "sum", "é", "éa", "/", "//"];
    while !cx.over() {
        let mods: Vec<Vec<String>> = (0..cx.rng.to(5)).map(|_| (0..cx.rng.to(5)).map(|_| cx.rng.pick(&words).to_string()).collect()).collect();
        let t: Row = (0..cx.rng.to(6)).map(|_| if cx.rng.to(9) == 0 { M::Cont(K::Sup, 1, vec![vec![]]) } else { sym(*cx.rng.pick(&["a", "b", "l", "i", "é", "/", "s", "ab"])) }).collect();
        let nodes = to_nodes(&t);
        let rule = |i: usize, j: usize, w: &str| AutocompleteRule::new(w, vec![InputNode::Symbol(format!("{i}.{j}"))]);
        let all: Vec<AutocompleteRule> = mods.iter().enumerate().flat_map(|(i, m)| m.iter().enumerate().map(move |(j, w)| (i, j, w))).map(|(i, j, w)| rule(i, j, w)).collect();
        let trivial = all.iter().filter(|r| !r.matches(&nodes, nodes.len(), 1).is_empty()).count() < 2;
        cx.case(!trivial, &(&mods, &t), || format!("formula {} with the suggestions {:?}", show(&t), mods), || {
            let mut m = ParseModules::new();
            let b = Rc::new(BuiltInRules::new(&mut m));
            let modules: Vec<Rc<dyn ParseModule>> = mods.iter().enumerate().map(|(i, w)| Declared { name: format!("T{i}"), rules: vec![], auto: w.iter().enumerate().map(|(j, w)| rule(i, j, w)).collect() }.boxed_rc()).collect();
            let p = MathParser::new(ParseModuleCollection::new(b, modules));
            for caret in 0..=nodes.len() { for min in 0..4 {
                let want: Vec<_> = all.iter().rev().flat_map(|r| r.matches(&nodes, caret, min)).collect();
                same(&format!("suggestions at {caret}, at least {min}"), format!("{:?}", p.matches(&nodes, caret, min)), format!("{:?}", want))?;
            } }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C25
fn c25(cx: &mut Cx) {
    cx.rule = "70000 names; random histories of up to 30 names being added and looked up in both directions; non-trivial: a name is added again".into();
    cx.case(true, &0, || "70000 different names, then all of them again".into(), || {
        let mut m = SyntaxNodeNameMap::new(); let mut ids = std::collections::HashMap::new();
        let name = |i: usize| PathIdentifier::new(vec!["N".into(), format!("n{i}")]);
        for i in 0..70000 { let id = m.add(name(i)); if let Some(j) = ids.insert(id, i) { return Err(format!("names {j} and {i} have the same id {:?}", id)) } }
        for (id, i) in &ids { same(&format!("name of {:?}", id), m.get_reverse(*id), Some(&name(*i)))?; same(&format!("id of name {i}"), m.get(&name(*i)), Some(*id))?; same(&format!("id of name {i} added again"), m.add(name(*i)), *id)?; }
        Ok(())
    });
    while !cx.over() {
        let n = 1 + cx.rng.to(30);
        let parts = ["A", "B", "Add", "a", "Ab", "b", "É", "x1"];
        let names: Vec<Vec<String>> = (0..n).map(|_| (0..2 + cx.rng.to(6) / 5).map(|_| cx.rng.pick(&parts).to_string()).collect()).collect();
        let again = (0..n).any(|i| names[..i].contains(&names[i]));
        let look: Vec<u32> = (0..4).map(|_| cx.rng.to(n + 3) as u32).collect();
        let fresh = cx.rng.to(2) == 0;
        let odd: Vec<Vec<String>> = (0..3).map(|_| (0..cx.rng.to(4)).map(|_| cx.rng.pick(&["A", "", "1a", "a1", "a b", "é", "_", "a_", "::", "a-", " ", "π2"]).to_string()).collect()).collect();
        let ident = |s: &str| s.chars().next().map_or(false, char::is_alphabetic) && s.chars().all(|c| c.is_alphanumeric() || c == '_');
        cx.case(again, &names, || format!("names {:?}", names), || {
            let mut m = if fresh { SyntaxNodeNameMap::new() } else { SyntaxNodeNameMap::default() };
            let mut known: Vec<(Vec<String>, SyntaxNodeNameId)> = vec![];
            for x in &names {
                let id = m.add(PathIdentifier::new(x.clone()));
                match known.iter().find(|k| k.0 == *x) {
                    Some(k) => same("the name keeps its id", id, k.1)?,
                    None => { check(&format!("{:?} gets an id of its own", x), known.iter().all(|k| k.1 != id))?; known.push((x.clone(), id)); }
                }
                for k in &known {
                    same(&format!("id of {:?}", k.0), m.get(&PathIdentifier::new(k.0.clone())), Some(k.1))?;
                    same(&format!("name of {:?}", k.1), m.get_reverse(k.1), Some(&PathIdentifier::new(k.0.clone())))?;
                }
            }
            for a in &parts { let x = vec![a.to_string(), "B".to_string()]; same(&format!("id of {:?}", x), m.get(&PathIdentifier::new(x.clone())), known.iter().find(|k| k.0 == x).map(|k| k.1))?; }
            for i in look { let id = SyntaxNodeNameId::new(i); same(&format!("name of {:?}", id), m.get_reverse(id).cloned(), known.iter().find(|k| k.1 == id).map(|k| PathIdentifier::new(k.0.clone())))?; }
            // a name is a name with a namespace: at least two identifiers
            for parts in &odd { same(&format!("{:?} is a name", parts), std::panic::catch_unwind(|| PathIdentifier::new(parts.clone())).is_ok(), parts.len() > 1 && parts.iter().all(|p| ident(p)))?; }
            let mut ms = ParseModules::new();
            for x in &names { let id = ms.with_rule_name(PathIdentifier::new(x.clone())); same("the rule's id", ms.get_rule_name(PathIdentifier::new(x.clone())), id)?; same("the rule's name", ms.get_rule_name_map().get_reverse(id), Some(&PathIdentifier::new(x.clone())))?; }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C18: the nodes of operators, errors and spaces
fn cp(n: &SyntaxNode) -> SyntaxNode {
    let c = match &n.children { SyntaxNodeChildren::Leaf(l) => SyntaxNodeChildren::Leaf(SyntaxLeafNode::new(l.node_type, l.symbols.clone())), SyntaxNodeChildren::Children(c) => SyntaxNodeChildren::Children(c.iter().map(cp).collect()), _ => unreachable!() };
    SyntaxNode::new(n.name, n.range(), c)
}
fn d(n: Option<SyntaxNode>) -> String { format!("{:?}", n) }
fn c18(cx: &mut Cx) {
    cx.rule = "nodes of prefix, infix and postfix operators, of missing and unknown elements and of spaces, over leaves with random ranges (adjacent, with gaps, in the wrong order); non-trivial: the parts are adjacent".into();
    let mut modules = ParseModules::new();
    let b = BuiltInRules::new(&mut modules);
    let id = |a: &str, n: &str| modules.get_rule_name(PathIdentifier::new(vec![a.into(), n.into()]));
    let leaf = |r: &(usize, usize)| SyntaxNodeBuilder::new_leaf_node(vec![format!("{}", r.0)], LeafNodeType::Symbol).build(SyntaxNodeNameId::new(77), r.0..r.1);
    let build = |f: &dyn Fn() -> SyntaxNode| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
    // exactly these parts in this order, if they follow each other; the range is around all of them
    let is = |what: &str, got: Option<SyntaxNode>, name: SyntaxNodeNameId, parts: &[SyntaxNode], range: std::ops::Range<usize>| -> Result<(), String> {
        let fits = parts.windows(2).all(|w| w[0].range().end == w[1].range().start) && parts.iter().all(|p| range.start <= p.range().start && p.range().end <= range.end);
        same(&format!("{what}: can be built"), got.is_some(), fits)?;
        if let Some(n) = got { same(&format!("{what}: the node"), d(Some(n)), d(Some(SyntaxNode::new(name, range, SyntaxNodeChildren::Children(parts.iter().map(cp).collect())))))?; }
        Ok(())
    };
    while !cx.over() {
        let k = cx.rng.to(3);
        let mut at = cx.rng.to(3);
        let mut r: Vec<(usize, usize)> = (0..3).map(|_| { let s = at; at += cx.rng.to(4); if k == 1 { at += cx.rng.to(2) } (s, at) }).collect();
        if k == 1 { let i = cx.rng.to(3); r[i].0 += (r[i].1 - r[i].0).min(cx.rng.to(2)); }
        if k == 2 { let (i, j) = (cx.rng.to(3), cx.rng.to(3)); r.swap(i, j); }
        let (x, y) = (cx.rng.to(4), cx.rng.to(8));
        let texts: Vec<String> = (0..cx.rng.to(4)).map(|_| match rand_sym(&mut cx.rng) { M::Sym(s) => s, _ => unreachable!() }).collect();
        cx.case(k == 0, &(&r, x, y, &texts), || format!("parts at {:?}, range {}..{}, symbols {:?}", r, x, x + y, texts), || {
            let n = SyntaxNodeNameId::new(5);
            let l: Vec<SyntaxNode> = r.iter().map(leaf).collect();
            let around = |i: &[usize]| i.iter().map(|i| r[*i].0).min().unwrap()..i.iter().map(|i| r[*i].1).max().unwrap();
            is("infix", build(&|| InfixBuilderImpl { name: n }.build(cp(&l[1]), (cp(&l[0]), cp(&l[2])))), n, &l, around(&[0, 1, 2]))?;
            is("prefix", build(&|| PrefixBuilderImpl { name: n }.build(cp(&l[0]), cp(&l[1]))), n, &l[..2], around(&[0, 1]))?;
            is("postfix", build(&|| PostfixBuilderImpl { name: n }.build(cp(&l[1]), cp(&l[0]))), n, &l[..2], around(&[0, 1]))?;
            let miss = |p: usize| SyntaxNode::new(id("Error", "MissingToken"), p..p, SyntaxNodeChildren::Children(vec![]));
            is("missing element", build(&|| b.error_missing_token(x)), id("Error", "MissingToken"), &[], x..x)?;
            is("missing operator", build(&|| b.error_missing_operator(x..x + y, cp(&l[0]), cp(&l[1]))), id("Error", "MissingOperator"), &[cp(&l[0]), miss(r[0].1), cp(&l[1])], x..x + y)?;
            is("nothing", build(&|| b.nothing_node(x)), id("BuiltIn", "Nothing"), &[], x..x)?;
            let values: Vec<InputNode> = texts.iter().map(|t| InputNode::Symbol(t.clone())).collect();
            same("unknown symbols", d(build(&|| b.error_unknown_token(x..x + y, &values))), d(Some(SyntaxNode::new(id("Error", "UnknownToken"), x..x + y, SyntaxNodeChildren::Leaf(SyntaxLeafNode::new(LeafNodeType::Symbol, texts.clone()))))))?;
            same("spaces", d(build(&|| b.whitespace_node(texts.clone(), x..x + y))), d(Some(SyntaxNode::new(id("BuiltIn", "Whitespace"), x..x + y, SyntaxNodeChildren::Leaf(SyntaxLeafNode::new(LeafNodeType::Operator, texts.clone()))))))?;
            for s in 0..4 {
                let (p, q) = (if s & 1 > 0 { Some(cp(&l[0])) } else { None }, if s & 2 > 0 { Some(cp(&l[2])) } else { None });
                let all: Vec<SyntaxNode> = p.iter().map(cp).chain(Some(cp(&l[1]))).chain(q.iter().map(cp)).collect();
                let got = build(&|| b.whitespaces_node(p.as_ref().map(cp), cp(&l[1]), q.as_ref().map(cp), x..x + y));
                if s == 0 { same("no spaces around", d(got), d(Some(cp(&l[1]))))? } else { is("spaces around", got, id("BuiltIn", "Whitespaces"), &all, x..x + y)? }
            }
            Ok(())
        });
    }
}
fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 28).spawn(|| {
        let a: Vec<String> = std::env::args().collect();
        let (prop, seed, secs) = (a[1].as_str(), a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1u64), a.get(3).and_then(|s| s.parse().ok()).unwrap_or(5.0f64));
        quiet_panics();
        let mut cx = Cx::new(prop, seed, secs);
        match prop { "C17" => c17(&mut cx), "C18" => c18(&mut cx), "C20" => c20(&mut cx), "C25" => c25(&mut cx), _ => { eprintln!("unknown property"); std::process::exit(2) } }
        cx.finish()
    }).unwrap();
    let _ = h.join();
    std::process::exit(2)
}
