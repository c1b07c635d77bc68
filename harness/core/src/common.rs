//! Shared by the harnesses: a plain model of formulas (the oracle's side), generators, case running.
#![allow(dead_code)]
use input_tree::focus::*;
use input_tree::grid::*;
use input_tree::node::*;
use input_tree::row::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ model
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K { Fraction, Root, Sup, Sub, Table }
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum M { Sym(String), Cont(K, usize, Vec<Vec<M>>) }
pub type Row = Vec<M>;
pub type Path = Vec<(usize, usize)>;
/// a place: the path of its row, the offset in it
pub type Pos = (Path, usize);

pub fn kind_of(k: &InputNodeVariant) -> K {
    match k { InputNodeVariant::Fraction => K::Fraction, InputNodeVariant::Root => K::Root, InputNodeVariant::Sup => K::Sup, InputNodeVariant::Sub => K::Sub, InputNodeVariant::Table => K::Table }
}
pub fn kind_to(k: K) -> InputNodeVariant {
    match k { K::Fraction => InputNodeVariant::Fraction, K::Root => InputNodeVariant::Root, K::Sup => InputNodeVariant::Sup, K::Sub => InputNodeVariant::Sub, K::Table => InputNodeVariant::Table }
}
pub fn to_node(m: &M) -> InputNode {
    match m {
        M::Sym(s) => InputNode::Symbol(s.clone()),
        M::Cont(k, w, c) => InputNode::Container(kind_to(*k), GridVec::from_one_dimensional(c.iter().map(to_row).collect(), *w)),
    }
}
pub fn to_row(r: &Row) -> InputRow { InputRow { values: to_nodes(r) } }
pub fn to_nodes(r: &[M]) -> Vec<InputNode> { r.iter().map(to_node).collect() }
pub fn of_node(n: &InputNode) -> M {
    match n {
        InputNode::Symbol(s) => M::Sym(s.clone()),
        InputNode::Container(k, g) => M::Cont(kind_of(k), g.width(), g.values().map(of_row).collect()),
    }
}
pub fn of_row(r: &InputRow) -> Row { of_nodes(&r.values) }
pub fn of_nodes(r: &[InputNode]) -> Row { r.iter().map(of_node).collect() }
pub fn idx(p: &Path) -> RowIndices { RowIndices::new(p.iter().map(|(a, b)| RowIndex(*a, *b)).collect()) }
pub fn of_idx(r: &RowIndices) -> Path { r.iter().map(|i| (i.0, i.1)).collect() }
pub fn mpos(p: &Pos) -> MinimalInputRowPosition { MinimalInputRowPosition { row_indices: idx(&p.0), offset: Offset(p.1) } }
pub fn of_mpos(p: &MinimalInputRowPosition) -> Pos { (of_idx(&p.row_indices), p.offset.0) }
pub fn mrange(p: &Path, s: usize, e: usize) -> MinimalInputRowRange { MinimalInputRowRange { row_indices: idx(p), start: Offset(s), end: Offset(e) } }
pub fn of_mrange(r: &MinimalInputRowRange) -> (Path, usize, usize) { (of_idx(&r.row_indices), r.start.0, r.end.0) }

pub fn row_at<'a>(t: &'a Row, p: &[(usize, usize)]) -> Option<&'a Row> {
    match p.first() {
        None => Some(t),
        Some((a, b)) => match t.get(*a)? { M::Cont(_, _, c) => row_at(c.get(*b)?, &p[1..]), _ => None },
    }
}
pub fn row_at_mut<'a>(t: &'a mut Row, p: &[(usize, usize)]) -> Option<&'a mut Row> {
    match p.first() {
        None => Some(t),
        Some((a, b)) => match t.get_mut(*a)? { M::Cont(_, _, c) => row_at_mut(c.get_mut(*b)?, &p[1..]), _ => None },
    }
}
pub fn valid(t: &Row, p: &Pos) -> bool { row_at(t, &p.0).map_or(false, |r| p.1 <= r.len()) }
/// all row paths, in reading order of where they start
pub fn paths(t: &Row) -> Vec<Path> {
    fn go(r: &Row, at: &Path, out: &mut Vec<Path>) {
        out.push(at.clone());
        for (i, n) in r.iter().enumerate() {
            if let M::Cont(_, _, c) = n { for (j, x) in c.iter().enumerate() { let mut q = at.clone(); q.push((i, j)); go(x, &q, out); } }
        }
    }
    let mut v = vec![]; go(t, &vec![], &mut v); v
}
/// all places in reading order
pub fn places(t: &Row) -> Vec<Pos> {
    fn go(r: &Row, at: &Path, out: &mut Vec<Pos>) {
        for (i, n) in r.iter().enumerate() {
            out.push((at.clone(), i));
            if let M::Cont(_, _, c) = n { for (j, x) in c.iter().enumerate() { let mut q = at.clone(); q.push((i, j)); go(x, &q, out); } }
        }
        out.push((at.clone(), r.len()));
    }
    let mut v = vec![]; go(t, &vec![], &mut v); v
}
/// all elements: (row path, index)
pub fn elements(t: &Row) -> Vec<(Path, usize)> {
    paths(t).into_iter().flat_map(|p| { let n = row_at(t, &p).unwrap().len(); (0..n).map(move |i| (p.clone(), i)) }).collect()
}
pub fn show(t: &Row) -> String { let mut s = String::new(); show_row(t, &mut s); s }
fn show_row(r: &Row, s: &mut String) {
    s.push('[');
    for (i, n) in r.iter().enumerate() {
        if i > 0 { s.push_str(", "); }
        match n {
            M::Sym(x) => { let _ = write!(s, "{:?}", x); }
            M::Cont(k, w, c) => {
                let _ = write!(s, "{:?} {}x{}(", k, w, c.len() / w);
                for (j, x) in c.iter().enumerate() { if j > 0 { s.push_str(", "); } show_row(x, s); }
                s.push(')');
            }
        }
    }
    s.push(']');
}

// ------------------------------------------------------------------ random numbers
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    /// 0..n
    pub fn to(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.to(v.len()); &v[i] }
}

// ------------------------------------------------------------------ formulas
pub const SYMS: [&str; 14] = ["a", "b", "x", "1", "+", "=", "(", ")", " ", "\"", "\\", "é", "sin", "\\\""];
pub fn sym(s: &str) -> M { M::Sym(s.to_string()) }
/// symbols that are easily mistreated: control characters, combining and wide characters, keywords of the printed form, long ones
pub const ODD: [&str; 30] = ["", "\n", "\t", "\r", "\0", "\u{7f}", "\u{1b}", "\u{200b}", "\u{301}", "e\u{301}", "𝒳", "ß", "İ", "ﬁ", "'", "''", "\\\\", "\"\"", "(row", "row", "frac", "1x1", "table 1x1 (row)",
    "\u{a0}", "sum", "lim", "0", "/", "{", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];
pub fn rand_sym(r: &mut Rng) -> M {
    match r.to(16) {
        0 => sym(ODD[r.to(ODD.len())]),
        1 => M::Sym(((r.to(128)) as u8 as char).to_string()),
        2 if r.to(4) == 0 => { let n = 1 + r.to(4); M::Sym((0..n).map(|_| char::from_u32(r.to(0x3000) as u32).unwrap_or('x')).collect()) }
        _ => sym(SYMS[r.to(SYMS.len())]),
    }
}
pub fn rand_node(r: &mut Rng, depth: usize) -> M {
    if depth == 0 || r.to(5) < 2 { return rand_sym(r); }
    let k = *r.pick(&[K::Fraction, K::Root, K::Sup, K::Sub, K::Table, K::Table]);
    let (w, n) = match k { K::Fraction => (1, 2), K::Root => (2, 2), K::Sup | K::Sub => (1, 1), K::Table => { let w = 1 + r.to(3); (w, w * r.to(4)) } };
    M::Cont(k, w, (0..n).map(|_| rand_row(r, depth - 1, 3)).collect())
}
pub fn rand_row(r: &mut Rng, depth: usize, max: usize) -> Row { let n = r.to(max + 1); (0..n).map(|_| rand_node(r, depth)).collect() }
pub fn rand_tree(r: &mut Rng) -> Row {
    match r.to(24) {
        0 => deep(r),
        1 => { let n = 6 + r.to(14); (0..n).map(|_| { let d = r.to(4) / 3; rand_node(r, d) }).collect() }
        2 => { let (w, h) = (1 + r.to(6), r.to(6)); let mut t = rand_row(r, 0, 2); t.push(M::Cont(K::Table, w, (0..w * h).map(|_| { let d = r.to(6) / 5; rand_row(r, d, 2) }).collect())); t.extend(rand_row(r, 1, 2)); t }
        3 => { let t = rand_row(r, 2, 2); let n = 2 + r.to(2); (0..n).flat_map(|_| t.clone()).collect() }
        _ => { let d = 1 + r.to(3); let m = 1 + r.to(4); rand_row(r, d, m) }
    }
}
/// containers nested deeply, with a little content around each
fn deep(r: &mut Rng) -> Row {
    let mut t = rand_row(r, 0, 3);
    for _ in 0..4 + r.to(5) {
        let k = *r.pick(&[K::Fraction, K::Root, K::Sup, K::Sub, K::Table]);
        let (w, n) = match k { K::Fraction => (1, 2), K::Root => (2, 2), K::Sup | K::Sub => (1, 1), K::Table => { let w = 1 + r.to(2); (w, w * (1 + r.to(2))) } };
        let at = r.to(n);
        let cells = (0..n).map(|i| if i == at { std::mem::take(&mut t) } else { rand_row(r, 0, 1) }).collect();
        t = rand_row(r, 0, 2); t.push(M::Cont(k, w, cells)); t.extend(rand_row(r, 0, 2));
    }
    t
}
/// a fixed family of small formulas, every container kind and shape, nested
pub fn small_trees() -> Vec<Row> {
    let rows0: Vec<Row> = vec![vec![], vec![sym("a")], vec![sym("a"), sym("b")]];
    let mut nodes: Vec<M> = vec![];
    let conts = |rs: &[Row], all: bool| -> Vec<M> {
        let mut v = vec![];
        for a in rs {
            v.push(M::Cont(K::Sup, 1, vec![a.clone()])); v.push(M::Cont(K::Sub, 1, vec![a.clone()])); v.push(M::Cont(K::Table, 1, vec![a.clone()]));
            for b in rs {
                v.push(M::Cont(K::Fraction, 1, vec![a.clone(), b.clone()]));
                if all { v.push(M::Cont(K::Root, 2, vec![a.clone(), b.clone()])); v.push(M::Cont(K::Table, 2, vec![a.clone(), b.clone()])); v.push(M::Cont(K::Table, 1, vec![a.clone(), b.clone()])); }
            }
        }
        let f = |i: usize| rs[i % rs.len()].clone();
        v.push(M::Cont(K::Table, 2, (0..4).map(f).collect())); v.push(M::Cont(K::Table, 3, (0..6).map(f).collect())); v.push(M::Cont(K::Table, 2, (0..6).map(f).collect()));
        v.push(M::Cont(K::Table, 1, vec![])); v.push(M::Cont(K::Table, 3, vec![]));
        v
    };
    nodes.extend(conts(&rows0, true));
    let mut out: Vec<Row> = rows0.clone();
    out.push(vec![sym("a"), sym("b"), sym("x")]);
    for n in &nodes { out.push(vec![n.clone()]); out.push(vec![sym("a"), n.clone(), sym("b")]); }
    for (i, n) in nodes.iter().enumerate() { out.push(vec![n.clone(), nodes[(i * 7 + 3) % nodes.len()].clone()]); }
    let rows1: Vec<Row> = vec![vec![], vec![nodes[0].clone()], vec![sym("a"), nodes[3].clone(), sym("b")]];
    for n in conts(&rows1, false) { out.push(vec![sym("x"), n.clone(), sym("y")]); out.push(vec![n]); }
    let deep = vec![M::Cont(K::Fraction, 1, vec![vec![sym("a"), M::Cont(K::Sup, 1, vec![vec![M::Cont(K::Table, 2, vec![vec![sym("b")], vec![], vec![sym("c"), sym("d")], vec![sym("e")]])]])], vec![M::Cont(K::Root, 2, vec![vec![], vec![sym("f")]])]])];
    out.push(deep.clone()); out.push(vec![deep[0].clone(), deep[0].clone()]);
    out
}

// ------------------------------------------------------------------ running cases
pub struct Cx {
    pub prop: String, pub seed: u64, pub rng: Rng, pub until: Instant, pub start: Instant,
    pub evals: u64, pub nontrivial: u64, pub seen: HashSet<u64>, pub samples: Vec<String>, pub failure: Option<(String, String)>, pub rule: String,
}
impl Cx {
    pub fn new(prop: &str, seed: u64, secs: f64) -> Self {
        let start = Instant::now();
        Cx { prop: prop.into(), seed, rng: Rng::new(seed), until: start + Duration::from_secs_f64(secs), start, evals: 0, nontrivial: 0, seen: HashSet::new(), samples: vec![], failure: None, rule: String::new() }
    }
    pub fn over(&self) -> bool { self.failure.is_some() || Instant::now() > self.until }
    pub fn failed(&self) -> bool { self.failure.is_some() }
    /// One case. `key` identifies the input (for counting distinct ones). A panic counts as a failure.
    pub fn case<R>(&mut self, nontrivial: bool, key: &impl Hash, desc: impl Fn() -> String, f: impl FnOnce() -> Result<R, String>) -> Option<R> {
        if self.failure.is_some() { return None; }
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            if self.seen.len() < 4_000_000 && self.seen.insert(h.finish()) {
                self.nontrivial += 1;
                if self.samples.len() < 3 && self.nontrivial % 97 == 5 { self.samples.push(desc()); }
            }
        }
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(r)) => Some(r),
            Ok(Err(e)) => { self.failure = Some((desc(), e)); None }
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.failure = Some((desc(), format!("the code panicked: {m}"))); None
            }
        }
    }
    /// the fixed family, then random formulas until the time is over
    pub fn trees(&mut self, mut f: impl FnMut(&mut Cx, &Row)) {
        for t in small_trees() { if self.failed() { return; } f(self, &t); }
        while !self.over() { let t = rand_tree(&mut self.rng); f(self, &t); }
    }
    pub fn finish(self) -> ! {
        let esc = |s: &str| { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o };
        let s: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        let (fi, fm) = match &self.failure { Some((a, b)) => (esc(a), esc(b)), None => ("null".into(), "null".into()) };
        println!("{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"failing_input\":{},\"failure\":{},\"wall_s\":{:.2}}}",
            esc(&self.prop), self.seed, self.evals, self.nontrivial, esc(&self.rule), s.join(","), fi, fm, self.start.elapsed().as_secs_f64());
        std::process::exit(if self.failure.is_some() { 1 } else { 0 })
    }
}
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {:?}, expected {:?}", got, want)) }
}
pub fn same_row(what: &str, got: &Row, want: &Row) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {}, expected {}", show(got), show(want))) }
}
pub fn check(what: &str, c: bool) -> Result<(), String> { if c { Ok(()) } else { Err(what.to_string()) } }
pub fn quiet_panics() { std::panic::set_hook(Box::new(|_| {})); }
/// does it panic?
pub fn panics<R>(f: impl FnOnce() -> R) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

// ------------------------------------------------------------------ edits on the model
#[derive(Clone, Debug, Hash, PartialEq)]
pub struct ME { pub ins: bool, pub at: Pos, pub vals: Row }
pub fn apply(t: &Row, e: &ME) -> Row {
    let mut t = t.clone();
    let r = row_at_mut(&mut t, &e.at.0).unwrap();
    if e.ins { let tail = r.split_off(e.at.1); r.extend(e.vals.iter().cloned()); r.extend(tail); }
    else { let tail = r.split_off(e.at.1 + e.vals.len()); r.truncate(e.at.1); r.extend(tail); }
    t
}
pub fn to_edit(e: &ME) -> input_tree::editing::BasicEdit {
    use input_tree::editing::*;
    BasicEdit::Row(RowEdit { edit_type: if e.ins { EditType::Insert } else { EditType::Delete }, position: mpos(&e.at), values: to_nodes(&e.vals) })
}
pub fn show_edit(e: &ME) -> String { format!("{} {} at {:?}", if e.ins { "insert" } else { "delete" }, show(&e.vals), e.at) }
/// every deletion and a handful of insertions for a formula (all when it is small)
pub fn edits_of(rng: &mut Rng, t: &Row, cap: usize) -> Vec<ME> {
    let mut v = vec![];
    for p in paths(t) {
        let r = row_at(t, &p).unwrap();
        for o in 0..=r.len() {
            for n in 0..=(r.len() - o).min(4) { v.push(ME { ins: false, at: (p.clone(), o), vals: r[o..o + n].to_vec() }); }
            for vals in [vec![], vec![sym("p")], vec![sym("p"), M::Cont(K::Fraction, 1, vec![vec![sym("q")], vec![]])]] { v.push(ME { ins: true, at: (p.clone(), o), vals }); }
            if rng.to(3) == 0 { v.push(ME { ins: true, at: (p.clone(), o), vals: rand_row(rng, 2, 3) }); }
        }
    }
    while v.len() > cap { let i = rng.to(v.len()); v.swap_remove(i); }
    v
}
/// table edits of the model: (element, insert?, column?, line, cells)
#[derive(Clone, Debug, Hash, PartialEq)]
pub struct GE { pub ins: bool, pub el: (Path, usize), pub col: bool, pub line: usize, pub w: usize, pub cells: Vec<Row> }
pub fn grid_edits_of(rng: &mut Rng, t: &Row, cap: usize) -> Vec<GE> {
    let mut v = vec![];
    for (p, i) in elements(t) {
        if let M::Cont(K::Table, w, c) = &row_at(t, &p).unwrap()[i] {
            let (w, h) = (*w, c.len() / w);
            let el = (p.clone(), i);
            for line in 0..=h { for n in 0..=2usize { v.push(GE { ins: true, el: el.clone(), col: false, line, w, cells: (0..n * w).map(|_| rand_row(rng, 1, 2)).collect() }); }
                for n in 0..=(h - line) { v.push(GE { ins: false, el: el.clone(), col: false, line, w, cells: c[line * w..(line + n) * w].to_vec() }); } }
            if h > 0 { for line in 0..=w { for n in 1..=2usize { v.push(GE { ins: true, el: el.clone(), col: true, line, w: n, cells: (0..n * h).map(|_| rand_row(rng, 1, 2)).collect() }); }
                for n in 1..=(w - line) { if n < w { v.push(GE { ins: false, el: el.clone(), col: true, line, w: n, cells: (0..h).flat_map(|y| (0..n).map(move |x| (x, y))).map(|(x, y)| c[y * w + line + x].clone()).collect() }); } } } }
        }
    }
    while v.len() > cap { let i = rng.to(v.len()); v.swap_remove(i); }
    v
}
pub fn apply_grid(t: &Row, e: &GE) -> Row {
    let mut t = t.clone();
    let r = row_at_mut(&mut t, &e.el.0).unwrap();
    if let M::Cont(_, w, c) = &mut r[e.el.1] {
        let (w0, h0) = (*w, c.len() / *w);
        let mut lines: Vec<Vec<Row>> = if e.col { (0..w0).map(|x| (0..h0).map(|y| c[y * w0 + x].clone()).collect()).collect() } else { (0..h0).map(|y| c[y * w0..(y + 1) * w0].to_vec()).collect() };
        let n = if e.col { e.w } else { e.cells.len() / e.w };
        if e.ins {
            let new: Vec<Vec<Row>> = if e.col { (0..n).map(|x| (0..h0).map(|y| e.cells[y * n + x].clone()).collect()).collect() } else { (0..n).map(|y| e.cells[y * w0..(y + 1) * w0].to_vec()).collect() };
            lines.splice(e.line..e.line, new);
        } else { lines.drain(e.line..e.line + n); }
        let (w1, h1) = if e.col { (lines.len(), h0) } else { (w0, lines.len()) };
        *c = (0..h1).flat_map(|y| (0..w1).map(move |x| (x, y))).map(|(x, y)| if e.col { lines[x][y].clone() } else { lines[y][x].clone() }).collect();
        *w = w1;
    }
    t
}
pub fn to_grid_edit(e: &GE) -> input_tree::editing::BasicEdit {
    use input_tree::editing::*;
    BasicEdit::Grid(GridEdit { edit_type: if e.ins { EditType::Insert } else { EditType::Delete }, element_indices: ElementIndices { row_indices: idx(&e.el.0), index: e.el.1 },
        direction: if e.col { GridDirection::Column } else { GridDirection::Row }, row_or_column: Offset(e.line), values: GridVec::from_one_dimensional(e.cells.iter().map(to_row).collect(), e.w) })
}
pub fn show_grid_edit(e: &GE) -> String {
    format!("{} {} {} of the table {:?}: {} cells ({} wide) {}", if e.ins { "insert" } else { "delete" }, if e.col { "columns at" } else { "rows at" }, e.line, e.el, e.cells.len(), e.w, e.cells.iter().map(show).collect::<Vec<_>>().join(" "))
}
/// where a stored range goes (the property, written down directly)
pub fn follow(e: &ME, p: &Path, s: usize, t: usize) -> (Path, usize, usize) {
    let (ep, o, n) = (&e.at.0, e.at.1, e.vals.len());
    if p.len() < ep.len() || p[..ep.len()] != ep[..] { return (p.clone(), s, t); }
    if p.len() == ep.len() {
        let (lo, hi) = (s.min(t), s.max(t));
        let (lo, hi) = if e.ins { (if o < lo { lo + n } else { lo }, if o <= hi { hi + n } else { hi }) }
            else { let f = |x: usize| if x <= o { x } else if x <= o + n { o } else { x - n }; (f(lo), f(hi)) };
        // an insertion of nothing moves nothing; a collapsed range stays where it was or grows
        return if s <= t { (p.clone(), lo, hi) } else { (p.clone(), hi, lo) };
    }
    let i = p[ep.len()].0;
    let mut q = p.clone();
    if e.ins { if o <= i { q[ep.len()].0 += n; } }
    else if i >= o && i < o + n { return (ep.clone(), o, o); }
    else if i >= o + n { q[ep.len()].0 -= n; }
    (q, s, t)
}
