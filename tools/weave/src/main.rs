//! weave: reads the current Rust sources of the repository, and writes one Verus crate that
//! contains the very same function bodies together with the contracts of /verif/contracts.
//!
//! It works on the source text: syn parses every file, and a list of text edits (insert contract,
//! insert loop invariant, desugar a std construct that the verifier cannot read) is applied to the
//! original text. Everything not touched by an edit is copied byte for byte.
mod contracts;
use contracts::*;
use proc_macro2::{LineColumn, Span};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Edit {
    start: usize,
    end: usize,
    class: u8, // 0 closing insert, 1 opening insert, 2 replacement
    order: i64,
    text: String,
}

struct FileCx<'a> {
    src: &'a str,
    line_starts: Vec<usize>,
    edits: Vec<Edit>,
    cuts: Vec<(usize, usize, usize, String, String)>, // start, end, insertion point, prefix, suffix
    counter: i64,
    c: &'a Contracts,
    opts: &'a Opts,
    krate: &'a str,
    module: String,
    file: String,
    report: &'a mut Report,
    /// derive names by type
    impl_ty: Option<String>,
    impl_trait: Option<String>,
    fn_stack: Vec<FnCx>,
    extra_items: String,
    /// child modules that are not woven
    left_out: BTreeSet<String>,
    /// return type (its last name) of the functions of this file, by name
    ret_of: BTreeMap<String, String>,
    /// methods of this file that take themselves and a function: (type, method) -> (text of the body, name of the function)
    own_maps: BTreeMap<(String, String), (String, String)>,
}

/// see `ret_of` and `own_maps`
fn file_facts(src: &str, file: &syn::File) -> (BTreeMap<String, String>, BTreeMap<(String, String), (String, String)>) {
    let mut ret = BTreeMap::new();
    let mut twice: BTreeSet<String> = BTreeSet::new();
    let mut maps = BTreeMap::new();
    let mut add = |sig: &syn::Signature| {
        if let syn::ReturnType::Type(_, t) = &sig.output {
            if let syn::Type::Path(p) = &**t {
                let n = sig.ident.to_string();
                if ret.insert(n.clone(), last_ident(&p.path)).is_some() {
                    twice.insert(n);
                }
            }
        }
    };
    let mut ls = vec![0usize];
    for (i, ch) in src.char_indices() {
        if ch == '\n' {
            ls.push(i + 1);
        }
    }
    let off = |lc: LineColumn| {
        let st = ls[lc.line - 1];
        src[st..].char_indices().nth(lc.column).map(|x| st + x.0).unwrap_or(src.len())
    };
    for it in &file.items {
        match it {
            syn::Item::Fn(f) => add(&f.sig),
            syn::Item::Impl(i) => {
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        add(&f.sig);
                        let by_value = f.sig.inputs.first().map_or(false, |r| matches!(r, syn::FnArg::Receiver(r) if r.reference.is_none()));
                        if i.trait_.is_none() && by_value && f.sig.inputs.len() == 2 {
                            if let syn::FnArg::Typed(t) = &f.sig.inputs[1] {
                                let gen = match &*t.ty {
                                    syn::Type::ImplTrait(_) => true,
                                    syn::Type::Path(p) => f.sig.generics.type_params().any(|g| p.path.is_ident(&g.ident)),
                                    _ => false,
                                };
                                if let (true, syn::Pat::Ident(n)) = (gen && !has_jump_block(&f.block), &*t.pat) {
                                    let (a, b) = (off(f.block.span().start()), off(f.block.span().end()));
                                    maps.insert((type_key(&i.self_ty), f.sig.ident.to_string()), (src[a..b].to_string(), n.ident.to_string()));
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for n in twice {
        ret.remove(&n);
    }
    (ret, maps)
}
fn has_jump_block(b: &syn::Block) -> bool {
    let mut h = HasJump(false);
    h.visit_block(b);
    h.0
}

#[derive(Default)]
struct FnCx {
    key: String,
    spec: Option<FnSpec>,
    loop_ordinal: usize,
    desugared: Vec<String>,
    unsupported: Vec<String>,
    calls: BTreeSet<String>,
    loop_kinds: Vec<String>,
    rename: BTreeMap<String, String>,
    lets: Vec<(String, bool)>,
    let_idents: BTreeSet<String>,
    ref_mut_self: bool,
    mut_self: bool,
    /// parameters of closures that became match arms: a call of one is a call of a function value
    fn_values: BTreeSet<String>,
    /// locals that hold the result of a function of this file
    local_ty: BTreeMap<String, String>,
    /// parameters that were `impl IntoIterator<Item = &T>`
    iterables: BTreeSet<String>,
}

#[derive(Default)]
struct Report {
    fns: Vec<serde_json::Value>,
    lost: Vec<String>,
    used: BTreeSet<String>,
    derives: BTreeMap<String, Vec<String>>,
    types: BTreeMap<String, (String, Vec<String>, Vec<String>)>,
    notes: BTreeSet<String>,
    modules: BTreeSet<String>,
    /// module -> name -> path, as imported by the source
    imports: BTreeMap<String, BTreeMap<String, String>>,
}

struct Opts {
    quarantine: BTreeSet<String>,
    drop: BTreeSet<String>,
    cover: bool,
}

fn find_matching(text: &str, pat: &str) -> Option<usize> {
    text.find(pat)
}

fn rename_idents(text: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let b = text.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let ch = text[i..].chars().next().unwrap();
        if ch.is_alphabetic() || ch == '_' {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            if j == i {
                j = i + ch.len_utf8();
            }
            let w = &text[i..j];
            let prev_dot = out.ends_with('.') && !out.ends_with("..");
            match map.get(w) {
                Some(n) if !prev_dot => out.push_str(n),
                _ => out.push_str(w),
            }
            i = j;
        } else {
            out.push(ch);
            i += ch.len_utf8();
        }
    }
    out
}

impl<'a> FileCx<'a> {
    fn off(&self, lc: LineColumn) -> usize {
        let ls = self.line_starts[lc.line - 1];
        // column counts chars
        let line = &self.src[ls..];
        let mut o = ls;
        for (i, ch) in line.chars().enumerate() {
            if i == lc.column {
                break;
            }
            o += ch.len_utf8();
        }
        o
    }
    fn rng(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    fn text(&self, s: Span) -> &'a str {
        let (a, b) = self.rng(s);
        &self.src[a..b]
    }
    fn open(&mut self, at: usize, t: impl Into<String>) {
        self.counter += 1;
        let o = self.counter;
        self.edits.push(Edit { start: at, end: at, class: 1, order: o, text: t.into() });
    }
    fn close(&mut self, at: usize, t: impl Into<String>) {
        self.counter += 1;
        let o = -self.counter;
        self.edits.push(Edit { start: at, end: at, class: 0, order: o, text: t.into() });
    }
    fn replace(&mut self, a: usize, b: usize, t: impl Into<String>) {
        self.counter += 1;
        let o = self.counter;
        self.edits.push(Edit { start: a, end: b, class: 2, order: o, text: t.into() });
    }
    fn note(&mut self, s: &str) {
        self.report.notes.insert(s.to_string());
        if let Some(f) = self.fn_stack.last_mut() {
            f.desugared.push(s.to_string());
        }
    }
    fn note_global(&mut self, s: &str) {
        self.report.notes.insert(s.to_string());
    }
    fn unsupported(&mut self, s: &str) {
        if let Some(f) = self.fn_stack.last_mut() {
            f.unsupported.push(s.to_string());
        }
    }
    fn render(&self, start: usize, end: usize) -> String {
        let mut es: Vec<&Edit> = self.edits.iter().filter(|e| e.start >= start && e.end <= end).collect();
        es.sort_by_key(|e| (e.start, e.class, e.order));
        let mut out = String::new();
        let mut pos = start;
        let inner_cuts: Vec<_> = self.cuts.iter().filter(|c| c.0 >= start && c.1 <= end && !(c.0 == start && c.1 == end)).collect();
        // a cut region is skipped here and rendered at its insertion point
        let in_cut = |p: usize, q: usize| inner_cuts.iter().any(|c| p >= c.0 && q <= c.1);
        let mut marks: Vec<(usize, u8, i64, &Edit)> = vec![];
        for e in es {
            if in_cut(e.start, e.end) {
                continue;
            }
            marks.push((e.start, e.class, e.order, e));
        }
        let copy = |out: &mut String, a: usize, b: usize| {
            // copy skipping cuts
            let mut p = a;
            for c in &inner_cuts {
                if c.0 >= p && c.1 <= b {
                    out.push_str(&self.src[p..c.0]);
                    p = c.1;
                }
            }
            if p < b {
                out.push_str(&self.src[p..b]);
            }
        };
        let mut inserts: Vec<(usize, String)> = inner_cuts.iter().filter(|c| c.2 >= start && c.2 <= end).map(|c| (c.2, format!("\n{}{}{}\n", c.3, self.render(c.0, c.1), c.4))).collect();
        inserts.sort_by_key(|x| x.0);
        let mut ii = 0;
        for (s, _, _, e) in marks {
            while ii < inserts.len() && inserts[ii].0 <= s {
                if inserts[ii].0 >= pos {
                    copy(&mut out, pos, inserts[ii].0);
                    pos = inserts[ii].0;
                }
                out.push_str(&inserts[ii].1);
                ii += 1;
            }
            if e.start < pos {
                if e.end <= pos {
                    continue;
                }
                panic!("overlapping edits in {} at {}: {:?}", self.file, e.start, e.text);
            }
            copy(&mut out, pos, e.start);
            out.push_str(&e.text);
            pos = e.end;
        }
        while ii < inserts.len() {
            copy(&mut out, pos, inserts[ii].0);
            pos = inserts[ii].0;
            out.push_str(&inserts[ii].1);
            ii += 1;
        }
        copy(&mut out, pos, end);
        out
    }
}

fn last_ident(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn path_str(p: &syn::Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}
fn type_key(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => last_ident(&p.path),
        syn::Type::Reference(r) => format!("&{}", type_key(&r.elem)),
        syn::Type::Tuple(t) => format!("({})", t.elems.iter().map(type_key).collect::<Vec<_>>().join(",")),
        syn::Type::Slice(s) => format!("[{}]", type_key(&s.elem)),
        _ => "?".into(),
    }
}
fn trait_key(p: &syn::Path) -> String {
    let seg = p.segments.last().unwrap();
    let mut s = seg.ident.to_string();
    if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
        let args: Vec<String> = a
            .args
            .iter()
            .filter_map(|g| match g {
                syn::GenericArgument::Type(t) => Some(type_key(t)),
                _ => None,
            })
            .collect();
        if !args.is_empty() {
            s = format!("{}<{}>", s, args.join(","));
        }
    }
    s
}

/// method names that make a chain an iterator chain
const ITER_METHODS: &[&str] = &[
    "iter", "iter_mut", "into_iter", "rev", "zip", "take_while", "skip", "take", "chars", "bytes", "enumerate", "skip_while",
    "values", "filter", "chain", "drain", "splice", "windows", "chunks", "split", "lines", "char_indices", "flat_map", "by_ref",
];
fn is_iter_chain(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::MethodCall(m) => {
            let n = m.method.to_string();
            // range.values() of a row range is a slice; a following .iter() marks the chain
            if n == "take" && m.args.is_empty() {
                return false; // Option::take
            }
            if ITER_METHODS.contains(&n.as_str()) {
                return true;
            }
            if ["map", "cloned", "copied"].contains(&n.as_str()) {
                return is_iter_chain(&m.receiver);
            }
            false
        }
        syn::Expr::Paren(p) => is_iter_chain(&p.expr),
        _ => false,
    }
}

struct HasJump(bool);
impl<'ast> Visit<'ast> for HasJump {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
        self.0 = true;
    }
}
fn has_jump(e: &syn::Expr) -> bool {
    let mut h = HasJump(false);
    h.visit_expr(e);
    h.0
}

enum Fun<'t> {
    Closure(String, &'t syn::Expr),
    Path(String),
}

impl<'a> FileCx<'a> {
    fn as_fun<'t>(&self, e: &'t syn::Expr) -> Option<Fun<'t>> {
        match e {
            syn::Expr::Closure(c) if c.inputs.len() <= 1 => {
                if has_jump(&c.body) {
                    return None;
                }
                let pat = c
                    .inputs
                    .first()
                    .map(|p| match p {
                        syn::Pat::Type(t) => self.text(t.pat.span()).to_string(),
                        p => self.text(p.span()).to_string(),
                    })
                    .unwrap_or_default();
                Some(Fun::Closure(pat, &c.body))
            }
            syn::Expr::Path(p) => Some(Fun::Path(self.text(p.span()).to_string())),
            _ => None,
        }
    }

    /// `X.iter().zip(..).take_while(..).map(..).collect()` and friends as a loop.
    /// Returns true if the whole chain was handled (children were visited as needed).
    fn desugar_pipeline(&mut self, m: &syn::ExprMethodCall) -> bool {
        let term = m.method.to_string();
        if !["collect", "all", "any", "position"].contains(&term.as_str()) {
            return false;
        }
        if m.turbofish.as_ref().map(|t| !self.text(t.span()).contains("Vec")).unwrap_or(false) {
            return false;
        }
        // unroll the chain
        let mut stages: Vec<&syn::ExprMethodCall> = vec![];
        let mut cur: &syn::Expr = &m.receiver;
        loop {
            match cur {
                syn::Expr::MethodCall(mc) => {
                    let n = mc.method.to_string();
                    if ["map", "take_while", "flat_map", "filter", "cloned", "copied"].contains(&n.as_str()) {
                        stages.push(mc);
                        cur = &mc.receiver;
                    } else {
                        break;
                    }
                }
                _ => break,
            }
        }
        if !is_iter_chain(cur) {
            return false;
        }
        stages.reverse();
        let ord = match self.fn_stack.last_mut() {
            Some(f) => {
                let o = f.loop_ordinal;
                f.loop_ordinal += 1;
                f.loop_kinds.push(format!("pipeline-{}", term));
                o
            }
            None => return false,
        };
        // all function arguments must be understood before any edit is made
        let mut funs = vec![];
        for s in &stages {
            let n = s.method.to_string();
            if n == "cloned" || n == "copied" {
                funs.push(None);
                continue;
            }
            match s.args.first().and_then(|a| self.as_fun(a)) {
                Some(f) => funs.push(Some(f)),
                None => {
                    self.unsupported("pipeline with a function argument that is not a simple closure");
                    return false;
                }
            }
        }
        let tfun = if term != "collect" {
            match m.args.first().and_then(|a| self.as_fun(a)) {
                Some(f) => Some(f),
                None => {
                    self.unsupported("pipeline");
                    return false;
                }
            }
        } else {
            None
        };
        self.note("iterator pipeline -> for loop");
        let ls = self.loop_spec(ord);
        let label = ls.label.clone().map(|l| format!("{}: ", l)).unwrap_or_default();
        let (mstart, mend) = self.rng(m.span());
        let (sstart, send) = self.rng(cur.span());
        let init = if term == "collect" {
            "let mut vx_acc = Vec::new(); ".to_string()
        } else if term == "position" {
            "let mut vx_acc: Option<usize> = None; let mut vx_n: usize = 0; ".to_string()
        } else {
            format!("let mut vx_acc = {}; ", term == "all")
        };
        // visit the source expression for nested edits, then render pieces
        self.visit_expr(cur);
        let mut body = String::new();
        let mut var = "vx_x".to_string();
        let mut k = 0;
        let mut closes = String::new();
        for (s, f) in stages.iter().zip(funs.iter()) {
            let n = s.method.to_string();
            k += 1;
            let nv = format!("vx_x{}", k);
            match (n.as_str(), f) {
                ("cloned", _) | ("copied", _) => body.push_str(&format!("let {} = ({}).clone(); ", nv, var)),
                ("map", Some(Fun::Closure(p, b))) => {
                    self.visit_expr(b);
                    let (x, y) = self.rng(b.span());
                    body.push_str(&format!("let {} = {{ let {} = {}; {} }}; ", nv, p, var, self.render(x, y)));
                }
                ("map", Some(Fun::Path(p))) => body.push_str(&format!("let {} = {}({}); ", nv, p, var)),
                ("take_while", Some(Fun::Closure(p, b))) => {
                    self.visit_expr(b);
                    let (x, y) = self.rng(b.span());
                    body.push_str(&format!("let {} = {}; if !({{ let {} = &{}; {} }}) {{ break; }} ", nv, var, p, nv, self.render(x, y)));
                }
                ("filter", Some(Fun::Closure(p, b))) => {
                    self.visit_expr(b);
                    let (x, y) = self.rng(b.span());
                    body.push_str(&format!("let {} = {}; if {{ let {} = &{}; {} }} {{ ", nv, var, p, nv, self.render(x, y)));
                    closes.push_str("} ");
                }
                ("flat_map", Some(Fun::Closure(p, b))) => {
                    // flattens an iterator of clones: for y in inner { acc.push }
                    self.fn_stack.last_mut().unwrap().loop_ordinal += 1;
                    let ord2 = self.fn_stack.last().unwrap().loop_ordinal - 1;
                    let ls2 = self.loop_spec(ord2);
                    let lab2 = ls2.label.clone().map(|l| format!("{}: ", l)).unwrap_or_default();
                    // inner must be E.iter().cloned()
                    let inner = match b {
                        syn::Expr::MethodCall(mc) if mc.method == "cloned" => Some(&*mc.receiver),
                        _ => None,
                    };
                    match inner {
                        Some(inner) => {
                            self.visit_expr(inner);
                            let (x, y) = self.rng(inner.span());
                            body.push_str(&format!(
                                "{{ let {} = {}; for vx_y in {}{} {} {{ {} let {} = (vx_y).clone(); ",
                                p, var, lab2, self.render(x, y), ls2.inv, ls2.start, nv
                            ));
                            closes.push_str(&format!("{} }} }} ", ls2.end));
                        }
                        None => self.unsupported("flat_map whose inner iterator is not E.iter().cloned()"),
                    }
                }
                _ => self.unsupported(&format!("pipeline stage {}", n)),
            }
            var = nv;
        }
        match (&tfun, term.as_str()) {
            (None, _) => body.push_str(&format!("vx_acc.push({}); ", var)),
            (Some(Fun::Closure(p, b)), "position") => {
                self.visit_expr(b);
                let (x, y) = self.rng(b.span());
                body.push_str(&format!("if ({{ let {} = {}; {} }}) {{ vx_acc = Some(vx_n); break; }} vx_n = vx_n + 1; ", p, var, self.render(x, y)));
            }
            (Some(Fun::Path(p)), "position") => {
                body.push_str(&format!("if {}({}) {{ vx_acc = Some(vx_n); break; }} vx_n = vx_n + 1; ", p, var));
            }
            (Some(Fun::Closure(p, b)), t) => {
                self.visit_expr(b);
                let (x, y) = self.rng(b.span());
                let neg = if t == "all" { "!" } else { "" };
                body.push_str(&format!("if {}({{ let {} = {}; {} }}) {{ vx_acc = {}; break; }} ", neg, p, var, self.render(x, y), t != "all"));
            }
            (Some(Fun::Path(p)), t) => {
                let neg = if t == "all" { "!" } else { "" };
                body.push_str(&format!("if {}{}({}) {{ vx_acc = {}; break; }} ", neg, p, var, t != "all"));
            }
        }
        let src_txt = self.render(sstart, send);
        let held = match cur {
            syn::Expr::MethodCall(it) => {
                let (x, y) = self.rng(it.receiver.span());
                self.render(x, y)
            }
            _ => String::new(),
        };
        // drop edits inside the chain: they are already rendered
        self.edits.retain(|e| !(e.start >= mstart && e.end <= mend));
        // a temporary that is iterated over lives as long as the loop
        let mut keep = String::new();
        let mut src_txt = src_txt;
        if let syn::Expr::MethodCall(it) = cur {
            if it.method == "iter" && it.args.is_empty() && matches!(&*it.receiver, syn::Expr::MethodCall(_) | syn::Expr::Call(_)) {
                keep = format!("let vx_src = {}; ", held);
                src_txt = "vx_src.iter()".to_string();
            }
        }
        let text = format!(
            "{{ {}{}for vx_x in {}{}\n{}\n{{ {} {}{}{} }} vx_acc }}",
            keep, init, label, src_txt, ls.inv, ls.start, body, closes, ls.end
        );
        self.replace(mstart, mend, text);
        true
    }

    /// `continue` in a for loop, where the loop body has nothing left to do afterwards:
    /// `if C { A; continue; } REST`  ->  `if C { A; } else { REST }`
    fn tail_continue(&mut self, b: &syn::Block) {
        let n = b.stmts.len();
        let end = self.rng(b.span()).1 - 1;
        for (i, st) in b.stmts.iter().enumerate() {
            let last = i + 1 == n;
            match st {
                syn::Stmt::Expr(syn::Expr::Continue(c), _) if c.label.is_none() && last => {
                    let (x, y) = self.rng(st.span());
                    self.replace(x, y, "");
                    self.note("continue -> else branch with the rest of the loop body");
                }
                syn::Stmt::Expr(syn::Expr::If(f), semi) if !last && f.else_branch.is_none() && ends_with_continue(&f.then_branch) => {
                    let (_, y) = self.rng(f.span());
                    self.tail_continue(&f.then_branch);
                    let z = if semi.is_some() { self.rng(st.span()).1 } else { y };
                    self.replace(y, z, " else { ");
                    self.close(end, " } ");
                }
                syn::Stmt::Local(l) if !last => {
                    // let P = E else { continue }; REST  ->  if let P = E { REST }
                    if let Some(init) = &l.init {
                        if let Some((_, d)) = &init.diverge {
                            let only_continue = match &**d {
                                syn::Expr::Block(b) => b.block.stmts.len() == 1 && ends_with_continue(&b.block),
                                _ => false,
                            };
                            if only_continue {
                                self.note("let-else with continue -> if let around the rest of the loop body");
                                let (x, y) = self.rng(st.span());
                                let (_, e) = self.rng(init.expr.span());
                                self.open(x, "if ");
                                self.replace(e, y, " { ");
                                self.close(end, " } ");
                            }
                        }
                    }
                }
                syn::Stmt::Expr(e, _) if last => self.tail_expr(e),
                _ => {}
            }
        }
    }
    fn tail_expr(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::If(f) => {
                self.tail_continue(&f.then_branch);
                if let Some((_, e)) = &f.else_branch {
                    self.tail_expr(e);
                }
            }
            syn::Expr::Block(b) => self.tail_continue(&b.block),
            syn::Expr::Match(m) => {
                for a in &m.arms {
                    if let syn::Expr::Continue(c) = &*a.body {
                        if c.label.is_none() {
                            let (x, y) = self.rng(c.span());
                            self.replace(x, y, "{}");
                        }
                    } else {
                        self.tail_expr(&a.body);
                    }
                }
            }
            _ => {}
        }
    }

    fn loop_spec(&mut self, ord: usize) -> LoopSpec {
        let f = self.fn_stack.last().unwrap();
        let mut ls = f.spec.as_ref().and_then(|s| s.loops.get(&ord).cloned()).unwrap_or_default();
        ls.inv = rename_idents(&ls.inv, &f.rename);
        ls.start = rename_idents(&ls.start, &f.rename);
        ls.end = rename_idents(&ls.end, &f.rename);
        ls
    }

    /// `o.map_or(d, |x| e)`, `o.map_or_else(|| d, |x| e)`, `o.is_some_and(|x| e)`, `o.is_none_or(|x| e)`, `o.filter(|x| e)`, `b.then(|| e)`
    fn more_combinators(&mut self, m: &syn::ExprMethodCall) -> bool {
        let n = m.method.to_string();
        let nargs = match n.as_str() {
            "map_or" | "map_or_else" => 2,
            "is_some_and" | "is_none_or" | "filter" | "then" => 1,
            _ => return false,
        };
        if m.args.len() != nargs || is_iter_chain(&m.receiver) {
            return false;
        }
        let last = match self.as_fun(&m.args[nargs - 1]) {
            Some(f) => f,
            None => return false,
        };
        let default = match n.as_str() {
            "map_or_else" => match self.as_fun(&m.args[0]) {
                Some(f) => Some(f),
                None => return false,
            },
            _ => None,
        };
        let (mstart, mend) = self.rng(m.span());
        let (rs, re) = self.rng(m.receiver.span());
        self.visit_expr(&m.receiver);
        let recv = self.render(rs, re);
        let dtext = if n == "map_or" {
            self.visit_expr(&m.args[0]);
            let (x, y) = self.rng(m.args[0].span());
            self.render(x, y)
        } else {
            match default {
                Some(Fun::Closure(_, b)) => {
                    self.visit_expr(b);
                    let (x, y) = self.rng(b.span());
                    self.render(x, y)
                }
                Some(Fun::Path(p)) => format!("{}()", p),
                None => String::new(),
            }
        };
        let (pat, body) = match last {
            Fun::Closure(p, b) => {
                if let Some(f) = self.fn_stack.last_mut() {
                    f.fn_values.insert(p.clone());
                }
                self.visit_expr(b);
                let (x, y) = self.rng(b.span());
                (p, self.render(x, y))
            }
            Fun::Path(p) => match n.as_str() {
                "then" => (String::new(), format!("{}()", p)),
                "filter" => return false,
                _ => ("vx_v".to_string(), format!("{}(vx_v)", p)),
            },
        };
        let t = match n.as_str() {
            "map_or" | "map_or_else" => format!("(match ({}) {{ Some({}) => ({}), None => ({}) }})", recv, pat, body, dtext),
            "is_some_and" => format!("(match ({}) {{ Some({}) => ({}), None => false }})", recv, pat, body),
            "is_none_or" => format!("(match ({}) {{ Some({}) => ({}), None => true }})", recv, pat, body),
            "filter" => format!("(match ({}) {{ Some(vx_v) => {{ let vx_keep = {{ let {} = &vx_v; {} }}; if vx_keep {{ Some(vx_v) }} else {{ None }} }}, None => None }})", recv, pat, body),
            _ => format!("(if {} {{ Some({}) }} else {{ None }})", recv, body),
        };
        self.note("Option or bool combinator with a closure -> match or if");
        self.edits.retain(|e| !(e.start >= mstart && e.end <= mend));
        self.replace(mstart, mend, t);
        true
    }

    fn option_combinator(&mut self, m: &syn::ExprMethodCall) -> bool {
        let n = m.method.to_string();
        if !["map", "and_then", "or_else", "unwrap_or_else", "ok_or_else", "map_or"].contains(&n.as_str()) || m.args.len() != 1 {
            return false;
        }
        if is_iter_chain(&m.receiver) {
            return false;
        }
        let f = match self.as_fun(&m.args[0]) {
            Some(f) => f,
            None => {
                self.unsupported("combinator whose closure returns early");
                return false;
            }
        };
        let (_, rend) = self.rng(m.receiver.span());
        let (mstart, mend) = self.rng(m.span());
        let (head, tail) = match n.as_str() {
            "map" => ("Some({P}) => Some(", "), None => None })"),
            "and_then" => ("Some({P}) => (", "), None => None })"),
            "or_else" => ("Some(vx_v) => Some(vx_v), None => (", ") })"),
            "unwrap_or_else" => ("Some(vx_v) => vx_v, None => (", ") })"),
            _ => return false,
        };
        self.note("Option combinator with a closure -> match");
        self.visit_expr(&m.receiver);
        self.open(mstart, "(match (");
        match f {
            Fun::Closure(p, b) => {
                let (bs, be) = self.rng(b.span());
                self.replace(rend, bs, format!(") {{ {}", head.replace("{P}", &p)));
                if let Some(f) = self.fn_stack.last_mut() {
                    f.fn_values.insert(p.clone());
                }
                self.visit_expr(b);
                self.replace(be, mend, tail);
            }
            Fun::Path(p) => {
                let call = match n.as_str() {
                    "map" | "and_then" => format!("{}(vx_v)", p),
                    _ => format!("{}()", p),
                };
                self.replace(rend, mend, format!(") {{ {}{}{}", head.replace("{P}", "vx_v"), call, tail));
            }
        }
        true
    }

    fn handle_macro(&mut self, mac: &syn::Macro, span: Span) {
        let name = last_ident(&mac.path);
        let (a, b) = self.rng(span);
        // keep a trailing semicolon out of the span
        let parse_args = || mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
        match name.as_str() {
            "assert" | "debug_assert" => match parse_args() {
                Ok(args) if !args.is_empty() => {
                    let checked = name == "assert" && self.fn_stack.last().and_then(|f| f.spec.as_ref()).map(|s| s.checked).unwrap_or(false);
                    self.note(if checked { "assert! in a %checked function -> run-time check that does not return unless its condition holds" } else { "assert! -> proof obligation on its condition" });
                    let e = &args[0];
                    self.visit_expr(e);
                    let (x, y) = self.rng(e.span());
                    let t = format!("crate::vx::{}({})", if checked { "check_" } else { "assert_" }, self.render(x, y));
                    self.edits.retain(|e| !(e.start >= a && e.end <= b));
                    self.replace(a, b, t);
                }
                _ => self.unsupported("assert!"),
            },
            "assert_eq" | "debug_assert_eq" | "assert_ne" => match parse_args() {
                Ok(args) if args.len() >= 2 => {
                    let checked = name.starts_with("assert") && self.fn_stack.last().and_then(|f| f.spec.as_ref()).map(|s| s.checked).unwrap_or(false);
                    self.note(if checked { "assert! in a %checked function -> run-time check that does not return unless its condition holds" } else { "assert! -> proof obligation on its condition" });
                    self.visit_expr(&args[0]);
                    self.visit_expr(&args[1]);
                    let (x, y) = self.rng(args[0].span());
                    let (x2, y2) = self.rng(args[1].span());
                    let op = if name == "assert_ne" { "!=" } else { "==" };
                    let t = format!("crate::vx::{}(({}) {} ({}))", if checked { "check_" } else { "assert_" }, self.render(x, y), op, self.render(x2, y2));
                    self.edits.retain(|e| !(e.start >= a && e.end <= b));
                    self.replace(a, b, t);
                }
                _ => self.unsupported("assert_eq!"),
            },
            "matches" => {
                let parsed = mac.parse_body_with(|i: syn::parse::ParseStream| {
                    let e: syn::Expr = i.parse()?;
                    i.parse::<syn::Token![,]>()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(syn::Token![if]) {
                        i.parse::<syn::Token![if]>()?;
                        Some(i.parse::<syn::Expr>()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<syn::Token![,]>>()?;
                    Ok((e, p, g))
                });
                match parsed {
                    Ok((e, p, g)) => {
                        self.note("matches! -> match with the same pattern");
                        self.visit_expr(&e);
                        self.visit_pat(&p);
                        if let Some(g) = &g {
                            self.visit_expr(g);
                        }
                        let (x, y) = self.rng(e.span());
                        let (x2, y2) = self.rng(p.span());
                        let guard = match &g {
                            Some(g) => {
                                let (x3, y3) = self.rng(g.span());
                                format!(" if {}", self.render(x3, y3))
                            }
                            None => String::new(),
                        };
                        let t = format!("(match {} {{ {}{} => true, _ => false }})", self.render(x, y), self.render(x2, y2), guard);
                        self.edits.retain(|e| !(e.start >= a && e.end <= b));
                        self.replace(a, b, t);
                    }
                    _ => self.unsupported("macro matches!"),
                }
            }
            "panic" | "unreachable" => {
                self.note("panic! -> must be unreachable");
                self.replace(a, b, "crate::vx::panic_()");
            }
            "todo" | "unimplemented" => {
                self.note("todo! -> must be unreachable under the contract's precondition");
                self.replace(a, b, "crate::vx::panic_()");
            }
            "vec" => match parse_args() {
                Ok(args) => {
                    let es: Vec<syn::Expr> = args.into_iter().collect();
                    for e in &es {
                        self.visit_expr(e);
                    }
                }
                _ => self.unsupported("vec![x; n]"),
            },
            "write" => {
                let args = match parse_args() {
                    Ok(x) => x,
                    Err(_) => {
                        self.unsupported("write!");
                        return;
                    }
                };
                let lit = match args.iter().nth(1) {
                    Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
                    _ => {
                        self.unsupported("write! without literal format");
                        return;
                    }
                };
                let f = self.text(args[0].span()).to_string();
                let mut parts: Vec<Result<String, usize>> = vec![];
                let mut lit_acc = String::new();
                let mut n = 0usize;
                let cs: Vec<char> = lit.chars().collect();
                let mut i = 0;
                let mut ok = true;
                let mut inline: Vec<String> = vec![];
                while i < cs.len() {
                    match cs[i] {
                        '{' if i + 1 < cs.len() && cs[i + 1] == '{' => {
                            lit_acc.push('{');
                            i += 2;
                        }
                        '}' if i + 1 < cs.len() && cs[i + 1] == '}' => {
                            lit_acc.push('}');
                            i += 2;
                        }
                        '{' => {
                            let mut j = i + 1;
                            let mut name = String::new();
                            while j < cs.len() && cs[j] != '}' {
                                name.push(cs[j]);
                                j += 1;
                            }
                            if !lit_acc.is_empty() {
                                parts.push(Ok(std::mem::take(&mut lit_acc)));
                            }
                            if name.is_empty() {
                                parts.push(Err(n));
                                n += 1;
                            } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') {
                                parts.push(Err(1000 + inline.len()));
                                inline.push(name);
                            } else {
                                ok = false;
                            }
                            i = j + 1;
                        }
                        c => {
                            lit_acc.push(c);
                            i += 1;
                        }
                    }
                }
                if !lit_acc.is_empty() {
                    parts.push(Ok(lit_acc));
                }
                if !ok || n + 2 != args.len() {
                    self.unsupported("write! with format options");
                    return;
                }
                self.note("write! -> its pieces, written in order");
                for x in args.iter().skip(2) {
                    self.visit_expr(x);
                }
                let mut out = String::new();
                let cnt = parts.len();
                if cnt == 0 {
                    out.push_str("Ok::<(), core::fmt::Error>(())");
                }
                for (pi, part) in parts.iter().enumerate() {
                    let call = match part {
                        Ok(s) => {
                            let chars: Vec<String> = s.chars().map(|c| format!("{:?}", c)).collect();
                            format!("({{ proof {{ reveal_strlit({:?}); assert({:?}@ =~= seq![{}]); }} crate::vx::w_lit({}, {:?}) }})", s, s, chars.join(", "), f, s)
                        }
                        Err(ix) => {
                            let t = if *ix >= 1000 {
                                inline[*ix - 1000].clone()
                            } else {
                                let (x, y) = self.rng(args[*ix + 2].span());
                                self.render(x, y)
                            };
                            format!("crate::vx::w_arg({}, &({}))", f, t)
                        }
                    };
                    if pi + 1 < cnt {
                        out.push_str(&format!("(match {} {{ Err(vx_e) => Err(vx_e), Ok(()) => ", call));
                    } else {
                        out.push_str(&call);
                    }
                }
                for _ in 1..cnt {
                    out.push_str(" })");
                }
                self.edits.retain(|e| !(e.start >= a && e.end <= b));
                self.replace(a, b, out);
            }
            _ => self.unsupported(&format!("macro {}!", name)),
        }
    }

    fn rewrite_path_head(&mut self, first: &syn::Ident, nseg: usize) {
        let s = first.to_string();
        let (a, b) = self.rng(first.span());
        if self.krate != "input_tree" && s == "input_tree" && nseg > 1 {
            self.replace(a, b, "crate");
        } else if self.krate != "parser" && s == "parser" && nseg > 1 {
            self.replace(a, b, "crate::parser");
        } else if (self.krate == "parser" || self.krate == "serialization") && s == "crate" {
            let t = format!("crate::{}", self.krate);
            self.replace(a, b, t);
        } else if (s == "chumsky" || (self.krate == "caret" && s == "serialization") || (self.krate == "serialization" && s == "serde_json")) && nseg > 1 {
            let t = format!("crate::{}", s);
            self.replace(a, b, t);
        }
    }

    fn enter_fn(&mut self, key: String, sig: &syn::Signature) -> FnCx {
        let mut cx = FnCx { key: key.clone(), ..Default::default() };
        if let Some(spec) = self.c.fns.get(&key) {
            self.report.used.insert(key.clone());
            let mut actual: Vec<String> = vec![];
            for i in &sig.inputs {
                match i {
                    syn::FnArg::Receiver(_) => actual.push("self".into()),
                    syn::FnArg::Typed(t) => match &*t.pat {
                        syn::Pat::Ident(p) => actual.push(p.ident.to_string()),
                        _ => actual.push("?".into()),
                    },
                }
            }
            if actual.len() != spec.params.len() {
                self.report.lost.push(format!("{}: parameter list changed", key));
                cx.unsupported.push("parameter list changed".into());
            } else {
                for (want, have) in spec.params.iter().zip(actual.iter()) {
                    if want != have {
                        cx.rename.insert(want.clone(), have.clone());
                    }
                }
            }
            let mut spec = spec.clone();
            if spec.split && !self.opts.quarantine.contains(&key) {
                if let Some(tr) = &self.impl_trait {
                    let base = tr.split('<').next().unwrap_or("");
                    let name = key.rsplit("::").next().unwrap_or("");
                    if let Some(t) = self.c.fns.get(&format!("{}::{}", base, name)) {
                        let m: BTreeMap<String, String> = t.params.iter().cloned().zip(spec.params.iter().cloned()).filter(|(a, b)| a != b).collect();
                        spec.requires = format!("{}{}", rename_idents(&t.requires, &m), spec.requires);
                        spec.ensures = format!("{}{}", rename_idents(&t.ensures, &m), spec.ensures);
                        if spec.ret.is_none() {
                            spec.ret = t.ret.clone();
                        }
                    }
                }
            }
            cx.spec = Some(spec);
        }
        cx
    }

    fn do_fn(&mut self, key: String, attrs: &[syn::Attribute], sig: &syn::Signature, block: Option<&syn::Block>, whole: Span) {
        let mut cx = self.enter_fn(key.clone(), sig);
        // locals: contract name -> n-th `let` if the name does not exist any more
        if let (Some(b), Some(spec)) = (block, cx.spec.clone()) {
            let mut lv = LetNames::default();
            lv.visit_block(b);
            for (n, ord) in &spec.locals {
                if !lv.all.contains(n) {
                    if let Some(x) = lv.order.get(*ord) {
                        cx.rename.insert(n.clone(), x.clone());
                    }
                }
            }
        }
        // hoisted nested fns
        self.fn_stack.push(cx);
        for a in attrs {
            let (x, y) = self.rng(a.span());
            let n = last_ident(a.path());
            if n != "doc" {
                self.replace(x, y, "");
            }
        }
        for a in &sig.inputs {
            match a {
                syn::FnArg::Typed(t) => {
                    if let (syn::Type::ImplTrait(x), syn::Pat::Ident(p), "pratt") = (&*t.ty, &*t.pat, self.krate) {
                        if last_bound(x).as_deref() == Some("IntoIterator") {
                            self.fn_stack.last_mut().unwrap().iterables.insert(p.ident.to_string());
                        }
                    }
                    self.visit_type(&t.ty)
                }
                syn::FnArg::Receiver(r) => {
                    if r.mutability.is_some() && r.reference.is_some() {
                        self.fn_stack.last_mut().unwrap().ref_mut_self = true;
                    }
                    if let (Some(m), None) = (&r.mutability, &r.reference) {
                        let (x, y) = self.rng(m.span());
                        self.replace(x, y, "");
                        self.note("mut self -> a mutable local");
                        self.fn_stack.last_mut().unwrap().mut_self = true;
                    }
                }
            }
        }
        let q = self.opts.quarantine.contains(&key);
        let f = self.fn_stack.last().unwrap();
        let spec = f.spec.clone();
        let ren = f.rename.clone();
        let (wstart, wend) = self.rng(whole);
        let sig_start = self.rng(sig.span()).0;
        // the verified text says which function it is, so that a failed obligation can be named
        self.open(wstart, format!("/*@fn {}*/", key));
        self.close(wend, "/*@end*/");
        let mut attr = String::new();
        let mut trusted = false;
        if let Some(s) = &spec {
            attr.push_str(&s.attr);
            if s.external {
                attr.push_str("#[verifier::external_body]\n");
                trusted = true;
            }
        }
        if q && !trusted && block.is_some() {
            attr.push_str("#[verifier::external_body]\n");
        }
        let ext = self.c.external.iter().any(|e| *e == key);
        if ext {
            attr = "#[verifier::external]\n".into();
        }
        if !attr.is_empty() {
            self.open(wstart, attr);
        }
        let _ = sig_start;
        // return name and return type
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let (x, y) = self.rng(t.span());
            let mut ty = self.text(t.span()).to_string();
            if ty.starts_with("impl Iterator<Item = &") {
                let inner = ty.trim_start_matches("impl Iterator<Item = &").trim_end_matches('>').to_string();
                ty = format!("std::slice::Iter<'_, {}>", inner);
                self.note("impl Iterator<Item = &T> return type -> std::slice::Iter<T>");
                self.replace(x, y, ty.clone());
            } else {
                self.visit_type(t);
            }
            if let Some(r) = spec.as_ref().and_then(|s| s.ret.clone()) {
                self.open(x, format!("({}: ", r));
                self.close(y, ")");
            }
        }
        // contract
        if let Some(s) = &spec {
            let mut t = String::new();
            for (k, v) in [("requires", &s.requires), ("ensures", &s.ensures), ("decreases", &s.decreases)] {
                if k == "requires" && self.impl_trait.is_some() {
                    // a trait impl inherits its precondition from the trait
                }
                if !v.trim().is_empty() {
                    t.push_str(&format!("\n    {}\n{}", k, rename_idents(v, &ren)));
                }
            }
            let at = match block {
                Some(b) => self.rng(b.span()).0,
                None => wend - 1,
            };
            if !t.is_empty() {
                self.open(at, t);
            }
        }
        if let Some(b) = block {
            let (bs, be) = self.rng(b.span());
            let body_trusted = q || trusted || ext;
            if body_trusted {
                self.replace(bs + 1, be - 1, " unimplemented!() ");
            } else {
                let mut startt = String::new();
                if self.opts.cover {
                    startt.push_str(" proof { assert(false); } ");
                }
                if let Some(s) = &spec {
                    if !s.start.trim().is_empty() {
                        startt.push_str(&rename_idents(&s.start, &ren));
                    }
                }
                if self.fn_stack.last().unwrap().mut_self {
                    startt.push_str(" let mut vx_self = self; ");
                }
                startt = format!("{}{}", self.spec_deps(), startt);
                if !startt.is_empty() {
                    self.open(bs + 1, format!("\n{}", startt));
                }
                if let Some(s) = &spec {
                    if !s.tail.trim().is_empty() {
                        let at = match b.stmts.last() {
                            Some(syn::Stmt::Expr(e, None)) if !is_loop(e) => self.rng(e.span()).0,
                            _ => be - 1,
                        };
                        self.open(at, format!("\n{}\n", rename_idents(&s.tail, &ren)));
                    }
                    let ats: Vec<_> = s.at.iter().map(|x| (x.clone(), false)).chain(s.after.iter().map(|x| (x.clone(), true))).collect();
                    for ((snip, text), after) in ats {
                        let snip = rename_idents(&snip, &ren);
                        let body = &self.src[bs..be];
                        let mut done = false;
                        if let Some(p) = find_matching(body, &snip) {
                            let mut sf = StmtFinder { pos: bs + p, best: None, cx: self };
                            sf.visit_block(b);
                            if let Some((x, y)) = sf.best {
                                if after {
                                    self.close(y, format!("\n{}\n", rename_idents(&text, &ren)));
                                } else {
                                    self.open(x, format!("\n{}\n", rename_idents(&text, &ren)));
                                }
                                done = true;
                            }
                        }
                        if !done {
                            self.report.lost.push(format!("{}: proof anchor {:?}", key, snip));
                        }
                    }
                }
                self.visit_block(b);
            }
        }
        let f = self.fn_stack.pop().unwrap();
        if let Some(s) = &f.spec {
            if let Some(n) = s.loop_count {
                if n != f.loop_ordinal && !q && !trusted {
                    self.report.lost.push(format!("{}: loop structure changed ({} loops, contract has {})", key, f.loop_ordinal, n));
                }
            }
        }
        let status = if ext {
            "external"
        } else if trusted {
            "trusted"
        } else if q {
            "quarantined"
        } else {
            "verified"
        };
        let line0 = whole.start().line;
        self.report.fns.push(json!({
            "key": key, "file": self.file, "line": line0, "end_line": whole.end().line, "module": self.module,
            "contract": f.spec.is_some(), "status": status, "unsupported": f.unsupported, "desugared": f.desugared,
            "calls": f.calls.iter().collect::<Vec<_>>(), "loops": f.loop_kinds, "has_body": block.is_some(),
            "has_requires": f.spec.as_ref().map(|s| !s.requires.trim().is_empty()).unwrap_or(false),
            "props": f.spec.as_ref().map(|s| s.prop.clone()).unwrap_or_default(),
            "origin": f.spec.as_ref().map(|s| s.origin.clone()).unwrap_or_default(),
        }));
    }

    /// Mentions the specification functions of the trait impl at hand, so that the verifier has their
    /// definitions before it checks the impl's functions (it does not see this dependency by itself).
    fn spec_deps(&self) -> String {
        let (ty, tr) = match (&self.impl_ty, &self.impl_trait) {
            (Some(t), Some(r)) => (t.clone(), r.clone()),
            _ => return String::new(),
        };
        const ARB: &str = "vstd::pervasive::arbitrary()";
        let mut calls: Vec<String> = vec![];
        if let Some(t) = self.c.impls.get(&format!("<{} as {}>", ty, tr)) {
            for l in t.split("spec fn ").skip(1) {
                let name: String = l.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                let rest = &l[name.len()..];
                if !rest.starts_with('(') {
                    continue;
                }
                let (mut depth, mut n, mut any) = (0, 0, false);
                for ch in rest.chars() {
                    match ch {
                        '(' | '[' | '<' | '{' => depth += 1,
                        ')' | ']' | '>' | '}' => {
                            depth -= 1;
                            if depth == 0 {
                                break;
                            }
                        }
                        ',' if depth == 1 => n += 1,
                        c if !c.is_whitespace() => any = true,
                        _ => {}
                    }
                }
                let n = if any { n + 1 } else { 0 };
                calls.push(format!("Self::{}({})", name, vec![ARB; n].join(", ")));
            }
        }
        if calls.is_empty() {
            return String::new();
        }
        let mut out = String::from(" proof {");
        for c in calls {
            out.push_str(&format!(" let _ = {};", c));
        }
        out.push_str(" }\n");
        out
    }

    fn fn_key(&self, name: &str) -> String {
        match (&self.impl_ty, &self.impl_trait) {
            (Some(t), Some(tr)) => format!("<{} as {}>::{}", t, tr, name),
            (Some(t), None) => format!("{}::{}", t, name),
            _ => name.to_string(),
        }
    }
}

fn ends_with_continue(b: &syn::Block) -> bool {
    matches!(b.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Continue(c), _)) if c.label.is_none())
}
fn is_loop(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_))
}

#[derive(Default)]
struct LetNames {
    order: Vec<String>,
    all: BTreeSet<String>,
}
impl<'ast> Visit<'ast> for LetNames {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let syn::Pat::Ident(p) = &l.pat {
            self.order.push(p.ident.to_string());
        } else if let syn::Pat::Type(t) = &l.pat {
            if let syn::Pat::Ident(p) = &*t.pat {
                self.order.push(p.ident.to_string());
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.all.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

struct StmtFinder<'b, 'a> {
    pos: usize,
    best: Option<(usize, usize)>,
    cx: &'b FileCx<'a>,
}
impl<'ast, 'b, 'a> Visit<'ast> for StmtFinder<'b, 'a> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let (a, b) = self.cx.rng(s.span());
        if a <= self.pos && self.pos < b {
            self.best = Some((a, b));
            visit::visit_stmt(self, s);
        }
    }
}

fn last_bound(x: &syn::TypeImplTrait) -> Option<String> {
    x.bounds.iter().find_map(|b| match b {
        syn::TypeParamBound::Trait(t) => Some(last_ident(&t.path)),
        _ => None,
    })
}

impl<'a> FileCx<'a> {
    fn own_type(&self, e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::MethodCall(m) => {
                if let Some(t) = self.own_type(&m.receiver) {
                    if self.own_maps.contains_key(&(t.clone(), m.method.to_string())) {
                        return Some(t);
                    }
                }
                self.ret_of.get(&m.method.to_string()).cloned()
            }
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) => self.ret_of.get(&last_ident(&p.path)).cloned(),
                _ => None,
            },
            syn::Expr::Paren(p) => self.own_type(&p.expr),
            syn::Expr::Path(p) => p.path.get_ident().and_then(|i| self.fn_stack.last().and_then(|f| f.local_ty.get(&i.to_string()).cloned())),
            _ => None,
        }
    }
    /// R.m(|x| B) for a method m(self, f) of this file: its body, with R for self and B for the call of f
    fn own_combinator(&mut self, m: &syn::ExprMethodCall) -> bool {
        let name = m.method.to_string();
        let t = match self.own_type(&m.receiver) {
            Some(t) if m.args.len() == 1 => t,
            _ => return false,
        };
        let (body, fname) = match self.own_maps.get(&(t, name)) {
            Some(x) => x.clone(),
            None => return false,
        };
        let f = match self.as_fun(&m.args[0]) {
            Some(f) => f,
            None => return false,
        };
        let block: syn::Block = match syn::parse_str(&body) {
            Ok(b) => b,
            Err(_) => return false,
        };
        let mut names = LetNames::default();
        names.visit_block(&block);
        let mut map: BTreeMap<String, String> = names.all.iter().map(|n| (n.clone(), format!("vx_m_{}", n))).collect();
        map.insert("self".into(), "vx_this".into());
        map.insert(fname, "vx_the_function".into());
        let mut body = rename_idents(&body, &map);
        let (mstart, mend) = self.rng(m.span());
        let (rs, re) = self.rng(m.receiver.span());
        self.visit_expr(&m.receiver);
        let recv = self.render(rs, re);
        let (pat, value) = match f {
            Fun::Closure(p, b) => {
                self.visit_expr(b);
                let (x, y) = self.rng(b.span());
                (p, self.render(x, y))
            }
            Fun::Path(p) => ("vx_v".to_string(), format!("{}(vx_v)", p)),
        };
        while let Some(i) = body.find("vx_the_function") {
            let open = match body[i..].find('(') {
                Some(o) if body[i + 15..i + o].trim().is_empty() => i + o,
                _ => return false,
            };
            let mut depth = 0;
            let mut close = open;
            for (j, ch) in body[open..].char_indices() {
                match ch {
                    '(' => depth += 1,
                    ')' => {
                        depth -= 1;
                        if depth == 0 {
                            close = open + j;
                            break;
                        }
                    }
                    _ => {}
                }
            }
            let arg = body[open + 1..close].to_string();
            body.replace_range(i..close + 1, &format!("({{ let {} = {}; {} }})", pat, arg, value));
        }
        self.note("a method of this file that takes a function -> its body in place of the call");
        self.edits.retain(|e| !(e.start >= mstart && e.end <= mend));
        self.replace(mstart, mend, format!("({{ let vx_this = {}; {} }})", recv, body));
        true
    }
}

impl<'a, 'ast> Visit<'ast> for FileCx<'a> {
    fn visit_type(&mut self, t: &'ast syn::Type) {
        if self.krate == "pratt" {
            // Rc<dyn Fn(A, B) -> R>
            if let syn::Type::Path(p) = t {
                if let Some(seg) = p.path.segments.last() {
                    if let syn::PathArguments::AngleBracketed(g) = &seg.arguments {
                        if let (true, Some(syn::GenericArgument::Type(syn::Type::TraitObject(o)))) = (seg.ident == "Rc" || seg.ident == "Box" || seg.ident == "Arc", g.args.first()) {
                            if let Some(syn::TypeParamBound::Trait(tb)) = o.bounds.first() {
                                let fs = tb.path.segments.last().unwrap();
                                if let (true, syn::PathArguments::Parenthesized(a)) = (fs.ident == "Fn", &fs.arguments) {
                                    let args: Vec<String> = a.inputs.iter().map(|x| self.text(x.span()).to_string()).collect();
                                    let out = match &a.output {
                                        syn::ReturnType::Default => "()".to_string(),
                                        syn::ReturnType::Type(_, t) => self.text(t.span()).to_string(),
                                    };
                                    let (x, y) = self.rng(t.span());
                                    self.replace(x, y, format!("crate::chumsky::RcFn<({},), {}>", args.join(", "), out));
                                    self.note_global("shared function values are opaque: a call of one returns what an uninterpreted function says (and is assumed to return)");
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            // impl IntoIterator<Item = &T>
            if let syn::Type::ImplTrait(x) = t {
                if last_bound(x).as_deref() == Some("IntoIterator") {
                    let s = self.text(t.span());
                    if let Some(i) = s.find("Item") {
                        let rest = s[i + 4..].trim_start().trim_start_matches('=').trim();
                        let rest = rest.strip_suffix('>').unwrap_or(rest).trim().trim_end_matches(',');
                        if let Ok(syn::Type::Reference(r)) = syn::parse_str::<syn::Type>(rest) {
                            let lt = r.lifetime.as_ref().map(|l| format!("{} ", l)).unwrap_or_default();
                            let inner = rest.trim_start_matches('&').trim_start().trim_start_matches(lt.trim()).trim().to_string();
                            let (x, y) = self.rng(t.span());
                            self.replace(x, y, format!("&{}Vec<{}>", lt, inner));
                            self.note_global("impl IntoIterator<Item = &T> parameters are &Vec<T>, which is what every caller passes");
                            return;
                        }
                    }
                }
            }
        }
        visit::visit_type(self, t);
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        if self.krate == "pratt" {
            let f = match &b.op {
                syn::BinOp::Lt(_) => Some("vx_lt"),
                syn::BinOp::Gt(_) => Some("vx_gt"),
                syn::BinOp::Le(_) => Some("vx_le"),
                syn::BinOp::Ge(_) => Some("vx_ge"),
                _ => None,
            };
            if let Some(f) = f {
                let (s, e) = self.rng(b.span());
                let (_, le) = self.rng(b.left.span());
                let (rs, _) = self.rng(b.right.span());
                self.visit_expr(&b.left);
                self.visit_expr(&b.right);
                self.open(s, format!("crate::chumsky::{}(", f));
                self.replace(le, rs, ", ");
                self.close(e, ")");
                self.note("comparison -> assumed contract of the (derived, lexicographic) order");
                return;
            }
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if let Some(first) = p.segments.first() {
            self.rewrite_path_head(&first.ident, p.segments.len());
        }
        let ps = path_str(p);
        let (a, b) = self.rng(p.span());
        match ps.as_str() {
            "std::mem::take" | "mem::take" => {
                self.replace(a, b, "crate::vx::mem_take");
                return;
            }
            "std::iter::empty" | "iter::empty" => {
                self.replace(a, b, "crate::vx::iter_empty");
                return;
            }
            _ => {}
        }
        visit::visit_path(self, p);
    }
    fn visit_type_bare_fn(&mut self, t: &'ast syn::TypeBareFn) {
        let (a, b) = self.rng(t.span());
        let args: Vec<String> = t.inputs.iter().map(|x| self.text(x.ty.span()).to_string()).collect();
        let out = match &t.output {
            syn::ReturnType::Default => "()".to_string(),
            syn::ReturnType::Type(_, t) => self.text(t.span()).to_string(),
        };
        self.replace(a, b, format!("crate::vx::VxFn<({},), {}>", args.join(", "), out));
        self.note_global("function pointer types are opaque: a call of one returns an arbitrary value (and is assumed to return)");
    }
    fn visit_use_tree(&mut self, u: &'ast syn::UseTree) {
        if let syn::UseTree::Path(p) = u {
            self.rewrite_path_head(&p.ident, 2);
        }
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if p.path.is_ident("self") && self.fn_stack.last().map(|f| f.mut_self).unwrap_or(false) {
            let (a, b) = self.rng(p.span());
            self.replace(a, b, "vx_self");
            return;
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let (syn::Expr::Path(p), "pratt") = (&*c.func, self.krate) {
            if path_str(&p.path).ends_with("Rc::new_cyclic") {
                self.note("Rc::new_cyclic -> an arbitrary shared value (what the closure builds is not looked at)");
                let (a, b) = self.rng(c.span());
                self.replace(a, b, "crate::chumsky::vx_new_cyclic()");
                return;
            }
        }
        if let (syn::Expr::Paren(p), "pratt") = (&*c.func, self.krate) {
            if let syn::Expr::Field(_) = &*p.expr {
                // (x.f)(a, b) of a function held in a field
                let (_, fe) = self.rng(c.func.span());
                let (_, e) = self.rng(c.span());
                self.visit_expr(&c.func);
                for x in &c.args {
                    self.visit_expr(x);
                }
                let open = self.src[fe..e].find('(').unwrap() + fe + 1;
                self.replace(fe, open, ".vx_call((");
                let trailing = self.src[open..e - 1].trim_end().ends_with(',') || c.args.is_empty();
                self.close(e - 1, if trailing { ")" } else { ",)" });
                self.note("call of a function held in a field -> its uninterpreted value");
                return;
            }
        }
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(f) = self.fn_stack.last_mut() {
                if p.path.get_ident().map(|i| f.fn_values.contains(&i.to_string())).unwrap_or(false) {
                    let (a, b) = self.rng(p.span());
                    let (_, e) = self.rng(c.span());
                    let n = self.text(p.span()).to_string();
                    for x in &c.args {
                        self.visit_expr(x);
                    }
                    self.replace(a, b, format!("crate::vx::vx_call{}", c.args.len()));
                    let open = self.src[b..e].find('(').unwrap() + b + 1;
                    self.replace(open, open, format!("{}, ", n));
                    self.note("call of a function value: its result is arbitrary");
                    return;
                }
                // conversions between primitive integers have exact library contracts
                let head = p.path.segments.first().map(|x| x.ident.to_string()).unwrap_or_default();
                let int = p.path.segments.len() == 2 && matches!(head.as_str(), "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize");
                let n = last_ident(&p.path);
                f.calls.insert(if int && n == "from" { "int_from".to_string() } else { n });
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        // let _ = X.by_ref().skip(N);   (lazy: nothing is consumed)
        if let (syn::Pat::Wild(_), Some(init)) = (&l.pat, &l.init) {
            if let syn::Expr::MethodCall(m) = &*init.expr {
                if m.method == "skip" || m.method == "take" {
                    if let syn::Expr::MethodCall(br) = &*m.receiver {
                        if br.method == "by_ref" {
                            self.note("unused lazy adapter: no element is consumed");
                            let (a, b) = self.rng(init.expr.span());
                            let (x, y) = self.rng(br.receiver.span());
                            self.visit_expr(&m.args[0]);
                            let (p, q) = self.rng(m.args[0].span());
                            let t = format!("crate::vx::lazy_unused(&mut {}, {})", self.render(x, y), self.render(p, q));
                            self.edits.retain(|e| !(e.start >= a && e.end <= b));
                            self.replace(a, b, t);
                            return;
                        }
                    }
                }
            }
        }
        let pat = match &l.pat {
            syn::Pat::Type(t) => &*t.pat,
            p => p,
        };
        if let (syn::Pat::Ident(n), Some(init)) = (pat, &l.init) {
            let t = self.own_type(&init.expr);
            if let (Some(t), Some(f)) = (t, self.fn_stack.last_mut()) {
                f.local_ty.insert(n.ident.to_string(), t);
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        match s {
            syn::Stmt::Item(syn::Item::Fn(f)) => {
                // nested fn: hoisted to module level
                let (a, b) = self.rng(f.span());
                self.note("nested fn hoisted to module level");
                let depth = self.fn_stack.len();
                let saved: Vec<FnCx> = self.fn_stack.drain(..).collect();
                let key = f.sig.ident.to_string();
                if let Some(l) = saved.last() {
                    let _ = l;
                }
                self.do_fn(key, &f.attrs, &f.sig, Some(&f.block), f.span());
                self.fn_stack = saved;
                debug_assert!(self.fn_stack.len() == depth);
                let ip = self.hoist_point();
                self.cuts.push((a, b, ip, String::new(), String::new()));
            }
            syn::Stmt::Macro(m) => self.handle_macro(&m.mac, m.mac.span()),
            _ => visit::visit_stmt(self, s),
        }
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        self.handle_macro(&m.mac, m.mac.span());
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let n = m.method.to_string();
        if let Some(f) = self.fn_stack.last_mut() {
            f.calls.insert(n.clone());
        }
        if self.desugar_pipeline(m) {
            return;
        }
        if !self.own_maps.is_empty() && self.own_combinator(m) {
            return;
        }
        if let ("into_iter" | "iter", syn::Expr::Path(p)) = (n.as_str(), &*m.receiver) {
            if p.path.get_ident().map_or(false, |i| self.fn_stack.last().map_or(false, |f| f.iterables.contains(&i.to_string()))) {
                let (x, y) = self.rng(m.method.span());
                self.replace(x, y, "iter");
                return;
            }
        }
        if self.more_combinators(m) || self.option_combinator(m) {
            return;
        }
        let (ma, mb) = self.rng(m.method.span());
        let (mstart, mend) = self.rng(m.span());
        let (_, rend) = self.rng(m.receiver.span());
        match n.as_str() {
            "splice" => {
                self.note("Vec::splice statement -> contract of Vec::splice (assumed)");
                self.replace(ma, mb, "vx_splice");
            }
            "rev" if matches!(&*m.receiver, syn::Expr::MethodCall(r) if r.method == "iter" && r.args.is_empty()) => {
                // X.iter().rev() -> a verified wrapper with the same body
                if let syn::Expr::MethodCall(r) = &*m.receiver {
                    self.open(mstart, "crate::vx::vx_rev(&");
                    self.visit_expr(&r.receiver);
                    let (_, re) = self.rng(r.receiver.span());
                    self.replace(re, mend, ")");
                }
                let _ = rend;
                return;
            }
            "write_str" if m.args.len() == 1 => {
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = &m.args[0] {
                    // F.write_str("..") -> the same, with the characters of the literal known
                    let v = l.value();
                    let chars: Vec<String> = v.chars().map(|c| format!("{:?}", c)).collect();
                    self.note("write_str of a literal -> assumed contract");
                    self.open(mstart, format!("({{ proof {{ reveal_strlit({:?}); assert({:?}@ =~= seq![{}]); }} ", v, v, chars.join(", ")));
                    self.close(mend, " })");
                }
            }
            "upgrade" if self.krate == "pratt" => {
                self.note("Weak::upgrade -> assumed contract (the value exists)");
                self.replace(ma, mb, "vx_upgrade");
            }
            "drain" => {
                self.note("Vec::drain -> assumed contract");
                self.replace(ma, mb, "vx_drain");
            }
            "cloned" if is_iter_chain(&m.receiver) => {
                self.note("Iterator::cloned -> assumed contract");
                self.replace(ma, mb, "vx_cloned");
            }
            "extend" => {
                if let Some(syn::Expr::MethodCall(t)) = m.args.first() {
                    if t.method == "take" {
                        if let syn::Expr::MethodCall(br) = &*t.receiver {
                            if br.method == "by_ref" {
                                // V.extend(X.by_ref().take(N)) -> V.vx_extend_take(&mut X, N)
                                self.note("Vec::extend from a taken prefix -> assumed contract");
                                self.replace(ma, mb, "vx_extend_take");
                                self.visit_expr(&m.receiver);
                                let (xs, xe) = self.rng(br.receiver.span());
                                self.open(xs, "&mut ");
                                self.visit_expr(&br.receiver);
                                let (ns, ne) = self.rng(t.args[0].span());
                                self.replace(xe, ns, ", ");
                                self.visit_expr(&t.args[0]);
                                let (_, te) = self.rng(t.span());
                                self.replace(ne, te, "");
                                return;
                            }
                        }
                    }
                }
                self.note("Vec::extend -> assumed contract");
                self.replace(ma, mb, "vx_extend");
            }
            // X.by_ref().take(N).for_each(drop): consumes N elements
            "for_each" => {
                if let syn::Expr::MethodCall(t) = &*m.receiver {
                    if t.method == "take" && m.args.first().map(|a| self.text(a.span()) == "drop").unwrap_or(false) {
                        if let syn::Expr::MethodCall(br) = &*t.receiver {
                            if br.method == "by_ref" {
                                self.note("by_ref().take(n).for_each(drop) -> assumed contract");
                                let (xs, xe) = self.rng(br.receiver.span());
                                self.open(xs, "crate::vx::drop_take(&mut ");
                                self.visit_expr(&br.receiver);
                                let (ns, ne) = self.rng(t.args[0].span());
                                self.replace(xe, ns, ", ");
                                self.visit_expr(&t.args[0]);
                                self.replace(ne, mend, ")");
                                return;
                            }
                        }
                    }
                }
                self.unsupported("for_each");
            }
            "starts_with" | "ends_with" if self.krate == "parser" => {
                self.note("str::starts_with, ends_with -> assumed contract");
                self.replace(ma, mb, format!("vx_{}", n));
            }
            "char_indices" => {
                self.note("str::char_indices -> the same pairs in a Vec (assumed contract)");
                self.replace(ma, mb, "vx_char_indices");
            }
            // X.iter().rev().skip(N)
            "skip" if m.args.len() == 1 && matches!(&*m.receiver, syn::Expr::MethodCall(r) if r.method == "rev" && matches!(&*r.receiver, syn::Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty())) => {
                if let syn::Expr::MethodCall(r) = &*m.receiver {
                    if let syn::Expr::MethodCall(i) = &*r.receiver {
                        self.note("X.iter().rev().skip(n) -> a verified iterator over the same elements");
                        self.open(mstart, "crate::vx::vx_rev_skip(&");
                        self.visit_expr(&i.receiver);
                        let (_, re) = self.rng(i.receiver.span());
                        let (ns, _) = self.rng(m.args[0].span());
                        self.replace(re, ns, ", ");
                        self.visit_expr(&m.args[0]);
                        return;
                    }
                }
            }
            "cmp" => {
                self.note("Ord::cmp -> VxCmp (assumed contract for slices and integers)");
                self.replace(ma, mb, "vx_cmp");
            }
            _ => {}
        }
        let _ = (mstart, rend);
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_index(&mut self, i: &'ast syn::ExprIndex) {
        if self.krate == "parser" {
            if let syn::Expr::Range(r) = &*i.index {
                if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) && (r.start.is_some() || r.end.is_some()) {
                    // E[a..b] -> (*E.vx_range(a, b))
                    self.note("E[a..b] -> assumed contract of slicing (in bounds, on character boundaries)");
                    let (a, b) = self.rng(i.span());
                    self.visit_expr(&i.expr);
                    let (ea, eb) = self.rng(i.expr.span());
                    let mut part = |me: &mut Self, x: &'ast Option<Box<syn::Expr>>| -> Option<String> {
                        x.as_ref().map(|e| {
                            me.visit_expr(e);
                            let (p, q) = me.rng(e.span());
                            me.render(p, q)
                        })
                    };
                    let s0 = part(self, &r.start).unwrap_or("0".into());
                    let t = match part(self, &r.end) {
                        Some(e) => format!("(*{}.vx_range({}, {}))", self.render(ea, eb), s0, e),
                        None => format!("(*{}.vx_range_from({}))", self.render(ea, eb), s0),
                    };
                    self.edits.retain(|e| !(e.start >= a && e.end <= b));
                    self.replace(a, b, t);
                    return;
                }
            }
        }
        visit::visit_expr_index(self, i);
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        // Verus forgets that *self is unchanged in the arms after a guarded one, when they leave the function
        if self.fn_stack.last().map_or(false, |f| f.ref_mut_self) {
            let mut guarded = false;
            for a in &m.arms {
                let leaves = matches!(&*a.body, syn::Expr::Return(r) if r.expr.as_ref().map_or(true, |e| matches!(&**e, syn::Expr::Path(_) | syn::Expr::Lit(_))));
                if guarded && leaves && a.guard.is_none() {
                    let (x, y) = self.rng(a.body.span());
                    self.open(x, "{ crate::vx::touch_(self); ");
                    self.close(y, " }");
                    self.note("a no-op call on self in the arms after a guarded arm");
                }
                guarded |= a.guard.is_some();
            }
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.unsupported("closure");
        visit::visit_expr_closure(self, c);
    }
    fn visit_expr_break(&mut self, b: &'ast syn::ExprBreak) {
        // a way out of a loop is part of its structure
        if let Some(f) = self.fn_stack.last_mut() {
            f.loop_kinds.push("break".into());
        }
        visit::visit_expr_break(self, b);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let o = {
            let f = self.fn_stack.last_mut().unwrap();
            f.loop_ordinal += 1;
            f.loop_kinds.push("for".into());
            f.loop_ordinal - 1
        };
        let ls = self.loop_spec(o);
        let (es, ee) = self.rng(l.expr.span());
        if let Some(lab) = &ls.label {
            self.open(es, format!("{}: ", lab));
        }
        self.visit_expr(&l.expr);
        if let syn::Expr::Path(p) = &*l.expr {
            if p.path.get_ident().map_or(false, |i| self.fn_stack.last().map_or(false, |f| f.iterables.contains(&i.to_string()))) {
                self.close(ee, ".iter()");
            }
        }
        let (bs, be) = self.rng(l.body.span());
        if !ls.inv.trim().is_empty() {
            self.open(bs, format!("\n{}", ls.inv));
        }
        let _ = ee;
        if !ls.start.is_empty() {
            self.open(bs + 1, format!("\n{}", ls.start));
        }
        self.tail_continue(&l.body);
        self.visit_block(&l.body);
        if !ls.end.is_empty() {
            // a trailing expression of type () is turned into a statement
            let needs_semi = matches!(l.body.stmts.last(), Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_)) && !is_loop(e));
            self.close(be - 1, format!("{}\n{}", if needs_semi { ";" } else { "" }, ls.end));
        }
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let o = {
            let f = self.fn_stack.last_mut().unwrap();
            f.loop_ordinal += 1;
            f.loop_kinds.push("while".into());
            f.loop_ordinal - 1
        };
        let ls = self.loop_spec(o);
        let (bs, be) = self.rng(l.body.span());
        if let syn::Expr::Let(le) = &*l.cond {
            // while let P = E { B }  ->  loop { match E { P => { B } _ => { break; } } }
            self.note("while let -> loop with a match");
            let (ws, _) = self.rng(l.while_token.span());
            let (es, ee) = self.rng(le.expr.span());
            self.visit_expr(&le.expr);
            let scrut = self.render(es, ee);
            self.edits.retain(|e| !(e.start >= es && e.end <= ee));
            let pat = self.text(le.pat.span()).to_string();
            self.replace(ws, bs, format!("loop\n{}\n{{ {} match {} {{ {} => ", ls.inv, ls.start, scrut, pat));
            self.visit_block(&l.body);
            if !ls.end.is_empty() {
                self.close(be - 1, format!("\n{}", ls.end));
            }
            self.close(be, " _ => { break; } } }");
            return;
        }
        self.visit_expr(&l.cond);
        if !ls.inv.trim().is_empty() {
            self.open(bs, format!("\n{}", ls.inv));
        }
        if !ls.start.is_empty() {
            self.open(bs + 1, format!("\n{}", ls.start));
        }
        self.visit_block(&l.body);
        if !ls.end.is_empty() {
            self.close(be - 1, format!("\n{}", ls.end));
        }
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let o = {
            let f = self.fn_stack.last_mut().unwrap();
            f.loop_ordinal += 1;
            f.loop_kinds.push("loop".into());
            f.loop_ordinal - 1
        };
        let ls = self.loop_spec(o);
        let (bs, be) = self.rng(l.body.span());
        if !ls.inv.trim().is_empty() {
            self.open(bs, format!("\n{}", ls.inv));
        }
        if !ls.start.is_empty() {
            self.open(bs + 1, format!("\n{}", ls.start));
        }
        self.visit_block(&l.body);
        if !ls.end.is_empty() {
            self.close(be - 1, format!("\n{}", ls.end));
        }
    }
    fn visit_expr_await(&mut self, _: &'ast syn::ExprAwait) {
        self.unsupported("await");
    }
    fn visit_expr_unsafe(&mut self, u: &'ast syn::ExprUnsafe) {
        self.unsupported("unsafe block");
        visit::visit_expr_unsafe(self, u);
    }
}

thread_local! {
    static HOIST: std::cell::RefCell<usize> = const { std::cell::RefCell::new(0) };
}
impl<'a> FileCx<'a> {
    fn hoist_point(&self) -> usize {
        HOIST.with(|h| *h.borrow())
    }
}

const KEEP_ATTRS: &[&str] = &["doc", "must_use"];

impl<'a> FileCx<'a> {
    fn strip_attrs(&mut self, attrs: &[syn::Attribute], ty: Option<&str>) {
        for a in attrs {
            let (x, y) = self.rng(a.span());
            let n = last_ident(a.path());
            if n == "derive" {
                let mut names = vec![];
                let _ = a.parse_nested_meta(|m| {
                    names.push(last_ident(&m.path));
                    Ok(())
                });
                let is_copy = names.iter().any(|n| n == "Copy");
                self.replace(x, y, if is_copy { "#[derive(Copy, Clone)]" } else { "" });
                if let Some(t) = ty {
                    self.report.derives.entry(t.to_string()).or_default().extend(names);
                }
            } else if !KEEP_ATTRS.contains(&n.as_str()) || n == "must_use" {
                self.replace(x, y, "");
            }
        }
    }
    fn pub_vis(&mut self, v: &syn::Visibility, at: usize) {
        match v {
            syn::Visibility::Inherited => self.open(at, "pub "),
            v => {
                let (a, b) = self.rng(v.span());
                self.replace(a, b, "pub");
            }
        }
    }
    fn fields(&mut self, f: &syn::Fields) {
        for fl in f {
            self.strip_attrs(&fl.attrs, None);
            let at = match &fl.ident {
                Some(i) => self.rng(i.span()).0,
                None => self.rng(fl.ty.span()).0,
            };
            self.pub_vis(&fl.vis, at);
            self.visit_type(&fl.ty);
        }
    }
    /// Derived serde code is outside the proof. What is assumed of it (`%serde`) is about a type with these derives, serde
    /// attributes and fields: a type that has others is out of reach.
    fn serde_shape(&mut self, n: &str, attrs: &[syn::Attribute], generics: &syn::Generics, parts: &[(Option<&syn::Variant>, &syn::Fields)]) {
        let want = match self.c.serde.get(n) {
            Some(w) => w,
            None => return,
        };
        let squeeze = |t: String| -> String { t.split_whitespace().collect() };
        let serde_attrs = |a: &[syn::Attribute]| -> String { a.iter().filter(|a| last_ident(a.path()) != "derive" && last_ident(a.path()) != "doc").map(|a| squeeze(self.text(a.span()).to_string())).filter(|t| t.contains("serde")).collect() };
        let mut s = String::new();
        for tr in ["Serialize", "Deserialize"] {
            let mut has = false;
            for a in attrs.iter().filter(|a| last_ident(a.path()) == "derive") {
                let _ = a.parse_nested_meta(|m| {
                    has |= last_ident(&m.path) == tr;
                    Ok(())
                });
            }
            if has {
                s += &format!("#[derive({})]", tr);
            }
        }
        s += &serde_attrs(attrs);
        s += n;
        s += &squeeze(self.text(generics.span()).to_string());
        s += "{";
        for (v, fields) in parts {
            if let Some(v) = v {
                s += &format!("{}{}", serde_attrs(&v.attrs), v.ident);
                if fields.is_empty() {
                    s += ",";
                    continue;
                }
                s += "(";
            }
            for f in fields.iter() {
                s += &serde_attrs(&f.attrs);
                if let Some(i) = &f.ident {
                    s += &format!("{}:", i);
                }
                s += &squeeze(self.text(f.ty.span()).to_string());
                s += ",";
            }
            if v.is_some() {
                s += "),";
            }
        }
        s += "}";
        self.report.used.insert(format!("serde {}", n));
        if &s != want {
            let l = format!("deserialize_input_nodes: the serde shape of {} is {}, not {}", n, s, want);
            self.report.lost.push(l);
        }
    }
    /// returns false if the item is dropped
    fn item(&mut self, it: &syn::Item, children: &mut Vec<(String, syn::ItemMod)>) {
        let (a, b) = self.rng(it.span());
        HOIST.with(|h| *h.borrow_mut() = b);
        match it {
            syn::Item::Use(u) => {
                let t = self.text(u.span());
                let head = match &u.tree { syn::UseTree::Path(p) => p.ident.to_string(), _ => String::new() };
                if self.left_out.contains(&head) || ["serde", "tsify", "wasm_bindgen", "thiserror", "chumsky"].iter().any(|s| t.contains(s)) {
                    self.replace(a, b, "");
                } else {
                    self.strip_attrs(&u.attrs, None);
                    self.visit_use_tree(&u.tree);
                    let m = self.report.imports.entry(self.module.clone()).or_default();
                    flatten_use(&u.tree, "", self.krate, m);
                }
            }
            syn::Item::Mod(m) => {
                if m.content.is_none() {
                    children.push((m.ident.to_string(), m.clone()));
                }
                self.replace(a, b, "");
            }
            syn::Item::Macro(_) => self.replace(a, b, ""),
            syn::Item::Struct(s) => {
                let n = s.ident.to_string();
                self.serde_shape(&n, &s.attrs, &s.generics, &[(None, &s.fields)]);
                if self.opts.drop.contains(&n) || self.c.drop.contains(&n) {
                    self.replace(a, b, "");
                    return;
                }
                self.strip_attrs(&s.attrs, Some(&n));
                self.report.types.insert(n.clone(), (self.module.clone(), s.generics.lifetimes().map(|l| l.lifetime.to_string()).collect(), s.generics.type_params().map(|t| t.ident.to_string()).collect()));
                self.report.derives.entry(n).or_default();
                let at = self.rng(s.struct_token.span()).0;
                self.pub_vis(&s.vis, at);
                self.fields(&s.fields);
            }
            syn::Item::Enum(s) => {
                let n = s.ident.to_string();
                let vs: Vec<(Option<&syn::Variant>, &syn::Fields)> = s.variants.iter().map(|v| (Some(v), &v.fields)).collect();
                self.serde_shape(&n, &s.attrs, &s.generics, &vs);
                if self.c.drop.contains(&n) {
                    self.replace(a, b, "");
                    return;
                }
                if s.variants.iter().all(|v| v.fields.is_empty()) {
                    // the order a derived comparison uses
                    let arms: Vec<String> = s.variants.iter().enumerate().map(|(i, v)| format!("{}::{} => {}int", n, v.ident, i)).collect();
                    if s.attrs.iter().any(|a| last_ident(a.path()) == "derive" && self.text(a.span()).contains("PartialOrd")) && self.krate == "pratt" {
                        self.extra_items.push_str(&format!("pub open spec fn vx_rank_{}(v: {}) -> int {{ match v {{ {} }} }}\n", n, n, arms.join(", ")));
                    }
                }
                self.strip_attrs(&s.attrs, Some(&n));
                self.report.types.insert(n.clone(), (self.module.clone(), s.generics.lifetimes().map(|l| l.lifetime.to_string()).collect(), s.generics.type_params().map(|t| t.ident.to_string()).collect()));
                self.report.derives.entry(n).or_default();
                let at = self.rng(s.enum_token.span()).0;
                self.pub_vis(&s.vis, at);
                for v in &s.variants {
                    self.strip_attrs(&v.attrs, None);
                    for fl in &v.fields {
                        self.strip_attrs(&fl.attrs, None);
                        self.visit_type(&fl.ty);
                    }
                }
            }
            syn::Item::Fn(f) => {
                let key = f.sig.ident.to_string();
                if self.c.drop.contains(&key) {
                    self.replace(a, b, "");
                    return;
                }
                self.do_fn(key, &f.attrs, &f.sig, Some(&f.block), f.span());
                let at = self.rng(f.sig.span()).0;
                self.pub_vis(&f.vis, at);
            }
            syn::Item::Impl(i) => {
                let ty = type_key(&i.self_ty);
                let tr = i.trait_.as_ref().map(|t| trait_key(&t.1));
                let ikey = match &tr {
                    Some(t) => format!("<{} as {}>", ty, t),
                    None => ty.clone(),
                };
                if self.c.drop.contains(&ikey) || (tr.as_deref() == Some("Display") && self.c.drop.contains(&format!("<{} as Display>", ty))) {
                    self.replace(a, b, "");
                    return;
                }
                if let Some((_, p, for_)) = &i.trait_ {
                    if tr.as_deref() == Some("Display") {
                        // `impl fmt::Display for T` -> inherent `fmt`; calls through write! use vx::w_arg
                        self.note("impl Display for T -> inherent method with the same body");
                        let x = self.rng(p.span()).0;
                        let y = self.rng(for_.span()).1;
                        self.replace(x, y, "");
                    } else {
                        self.visit_path(p);
                    }
                    for g in &i.generics.params {
                        if let syn::GenericParam::Type(t) = g {
                            for bd in &t.bounds {
                                if let syn::TypeParamBound::Trait(tb) = bd {
                                    if last_ident(&tb.path) == "Display" {
                                        let (x, y) = self.rng(tb.span());
                                        self.replace(x, y, "crate::vx::VxPrinted");
                                    }
                                }
                            }
                        }
                    }
                    self.report.derives.entry(ty.clone()).or_default().push(format!("impl {}", last_ident(p)));
                }
                self.visit_type(&i.self_ty);
                self.strip_attrs(&i.attrs, None);
                self.impl_ty = Some(ty.clone());
                self.impl_trait = tr.clone();
                if let Some(t) = self.c.impls.get(&ikey) {
                    let at = self.rng(i.brace_token.span.open()).1;
                    if !self.report.used.contains(&format!("impl {}", ikey)) {
                        self.report.used.insert(format!("impl {}", ikey));
                        self.open(at, format!("\n{}", t));
                    }
                }
                for x in &i.items {
                    match x {
                        syn::ImplItem::Fn(f) => {
                            let key = self.fn_key(&f.sig.ident.to_string());
                            if self.c.drop.contains(&key) {
                                let (p, q) = self.rng(f.span());
                                self.replace(p, q, "");
                                continue;
                            }
                            let split = tr.is_some() && self.c.fns.get(&key).map(|s| s.split).unwrap_or(false) && !self.opts.quarantine.contains(&key);
                            if split {
                                self.note_global("trait methods checked in an inherent impl (the impl cycle hides termination through the trait)");
                                let (p, q) = self.rng(f.span());
                                let bs = self.rng(f.block.span()).0;
                                let own = self.c.fns.get(&key).cloned().unwrap_or_default();
                                let name = f.sig.ident.to_string();
                                // in place: the signature with the contract
                                let sig_txt = self.src[self.rng(f.sig.span()).0..bs].trim().to_string();
                                let sig_txt = match (&f.sig.output, &own.ret) {
                                    (syn::ReturnType::Type(_, t), Some(r)) => {
                                        let tt = self.text(t.span());
                                        sig_txt.replacen(&format!("-> {}", tt), &format!("-> ({}: {})", r, tt), 1)
                                    }
                                    _ => sig_txt,
                                };
                                let base = tr.as_deref().unwrap_or("").split('<').next().unwrap_or("").to_string();
                                let ours = self.c.fns.contains_key(&format!("{}::{}", base, name));
                                // a method of a trait from outside: in place it only promises what that trait promises
                                let ens = if own.ensures.trim().is_empty() || !ours { String::new() } else { format!("\n    ensures\n{}", own.ensures) };
                                let at = self.rng(i.brace_token.span.open()).1;
                                self.open(at, format!("\n#[verifier::external_body] {}{} {{ unimplemented!() }}\n", sig_txt, ens));
                                let gens = &i.generics;
                                let g = if gens.params.is_empty() { String::new() } else { self.text(gens.span()).to_string() };
                                let sty = self.text(i.self_ty.span()).to_string();
                                self.cuts.push((p, q, b, format!("impl{} {} {{\n", g, sty), "\n}\n".to_string()));
                                let idspan = self.rng(f.sig.ident.span());
                                self.replace(idspan.0, idspan.1, format!("vx_body_{}", name));
                            }
                            self.do_fn(key, &f.attrs, &f.sig, Some(&f.block), f.span());
                            if tr.is_none() {
                                let at = self.rng(f.sig.span()).0;
                                self.pub_vis(&f.vis, at);
                            }
                        }
                        syn::ImplItem::Type(t) => self.visit_type(&t.ty),
                        syn::ImplItem::Const(_) => {}
                        _ => self.report.lost.push(format!("unknown impl item in {}", ikey)),
                    }
                }
                self.impl_ty = None;
                self.impl_trait = None;
            }
            syn::Item::Trait(t) => {
                let n = t.ident.to_string();
                if self.c.drop.contains(&n) {
                    self.replace(a, b, "");
                    return;
                }
                self.strip_attrs(&t.attrs, None);
                if self.krate == "pratt" {
                    let at = self.rng(t.trait_token.span()).0;
                    self.pub_vis(&t.vis, at);
                }
                if let Some(x) = self.c.traits.get(&n) {
                    let at = self.rng(t.brace_token.span.open()).1;
                    self.report.used.insert(format!("trait {}", n));
                    self.open(at, format!("\n{}", x));
                }
                self.impl_ty = Some(n.clone());
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        let key = self.fn_key(&f.sig.ident.to_string());
                        if self.c.drop.contains(&key) {
                            let (p, q) = self.rng(f.span());
                            self.replace(p, q, "");
                            continue;
                        }
                        self.do_fn(key, &f.attrs, &f.sig, f.default.as_ref(), f.span());
                    }
                    if let syn::TraitItem::Type(ty) = x {
                        // the bound of an associated type is checked by rustc on the real code
                        if let (Some(c), Some(l)) = (&ty.colon_token, ty.bounds.last()) {
                            let (p, _) = self.rng(c.span());
                            let (_, q) = self.rng(l.span());
                            self.replace(p, q, "");
                            self.report.notes.insert("bounds of associated types dropped".into());
                        }
                    }
                }
                self.impl_ty = None;
            }
            syn::Item::Type(t) => {
                if self.c.drop.contains(&t.ident.to_string()) {
                    self.replace(a, b, "");
                    return;
                }
                self.visit_type(&t.ty)
            }
            syn::Item::Const(_) | syn::Item::Static(_) => {}
            _ => self.report.lost.push(format!("unknown item in {}", self.module)),
        }
    }
}

struct CrateCfg {
    name: &'static str,
    root: PathBuf,
    prefix: &'static str,
    /// module paths that are left out (relative to the crate root)
    skip: &'static [&'static str],
    only: Option<&'static [&'static str]>,
}

fn child_path(module: &str, name: &str) -> String {
    if module.is_empty() { name.to_string() } else { format!("{}::{}", module, name) }
}
fn woven(cfg: &CrateCfg, cpath: &str) -> bool {
    let local = if cfg.prefix.is_empty() { cpath } else { cpath.strip_prefix(cfg.prefix).unwrap_or(cpath) };
    if cfg.skip.contains(&local) {
        return false;
    }
    match cfg.only {
        // `m!` leaves out the child modules of m
        Some(only) => only.iter().any(|o| match o.strip_suffix('!') {
            Some(o) => local == o,
            None => local == *o || local.starts_with(&format!("{}::", o)) || o.starts_with(&format!("{}::", local)),
        }),
        None => true,
    }
}

/// a method `f` with a second contract, written for `vx_checked_f`, is there twice: the copy has the same text and is
/// verified against the second contract (see `%checked`)
const TWIN: &str = "vx_checked_";

/// the names a `use` brings into scope, with their paths
fn flatten_use(t: &syn::UseTree, prefix: &str, krate: &str, out: &mut BTreeMap<String, String>) {
    let join = |s: &str| if prefix.is_empty() { s.to_string() } else { format!("{}::{}", prefix, s) };
    match t {
        syn::UseTree::Path(p) => {
            let mut h = p.ident.to_string();
            if prefix.is_empty() {
                if krate != "input_tree" && h == "input_tree" {
                    h = "crate".into();
                } else if krate != "parser" && h == "parser" {
                    h = "crate::parser".into();
                } else if (krate == "parser" || krate == "serialization") && h == "crate" {
                    h = format!("crate::{}", krate);
                } else if h == "chumsky" || (krate == "caret" && h == "serialization") || (krate == "serialization" && h == "serde_json") {
                    h = format!("crate::{}", h);
                }
            }
            flatten_use(&p.tree, &join(&h), krate, out)
        }
        syn::UseTree::Name(n) => {
            if n.ident == "self" {
                if let Some(l) = prefix.rsplit("::").next() {
                    out.insert(l.to_string(), prefix.to_string());
                }
            } else {
                out.insert(n.ident.to_string(), join(&n.ident.to_string()));
            }
        }
        syn::UseTree::Rename(r) => {
            out.insert(r.rename.to_string(), join(&r.ident.to_string()));
        }
        syn::UseTree::Glob(_) => {}
        syn::UseTree::Group(g) => {
            for i in &g.items {
                flatten_use(i, prefix, krate, out);
            }
        }
    }
}

fn item_name(i: &syn::Item) -> Option<String> {
    Some(match i {
        syn::Item::Fn(f) => f.sig.ident.to_string(),
        syn::Item::Struct(s) => s.ident.to_string(),
        syn::Item::Enum(s) => s.ident.to_string(),
        syn::Item::Trait(s) => s.ident.to_string(),
        syn::Item::Type(s) => s.ident.to_string(),
        syn::Item::Const(s) => s.ident.to_string(),
        syn::Item::Static(s) => s.ident.to_string(),
        syn::Item::Mod(s) => s.ident.to_string(),
        syn::Item::Union(s) => s.ident.to_string(),
        _ => return None,
    })
}

/// A specification's imports without the names the source already has, and the imports the contracts were written with that the source no longer has.
fn settle_imports(spec: &str, have: &BTreeSet<String>, base: &BTreeMap<String, String>) -> String {
    let mut have = have.clone();
    let mut out = String::new();
    for l in spec.lines() {
        if let Some(r) = l.strip_prefix("use ").and_then(|r| r.trim_end().strip_suffix(';')) {
            if let Ok(syn::Item::Use(u)) = syn::parse_str::<syn::Item>(&format!("use {};", r)) {
                let mut names = BTreeMap::new();
                flatten_use(&u.tree, "", "input_tree", &mut names);
                if !names.is_empty() && !r.contains('*') {
                    for (n, p) in names {
                        if have.insert(n.clone()) {
                            let last = p.rsplit("::").next().unwrap_or("").to_string();
                            out.push_str(&if last == n { format!("use {};\n", p) } else { format!("use {} as {};\n", p, n) });
                        }
                    }
                    continue;
                }
            }
        }
        out.push_str(l);
        out.push('\n');
    }
    for (n, p) in base {
        if have.insert(n.clone()) {
            out.push_str(&format!("#[allow(unused_imports)] use {} as {};\n", p, n));
        }
    }
    out
}

/// Free functions of the source (without a contract) whose name a specification already uses get another name.
fn without_clashes(src: String, file: &syn::File, c: &Contracts) -> String {
    let mut clash: BTreeSet<String> = BTreeSet::new();
    for it in &file.items {
        if let syn::Item::Fn(f) = it {
            let n = f.sig.ident.to_string();
            if !c.fns.contains_key(&n) && c.spec_names.contains(&n) {
                clash.insert(n);
            }
        }
    }
    if clash.is_empty() {
        return src;
    }
    let mut starts = vec![0usize];
    for (i, ch) in src.char_indices() {
        if ch == '\n' {
            starts.push(i + 1);
        }
    }
    let off = |p: proc_macro2::LineColumn| {
        let line = starts[p.line - 1];
        src[line..].char_indices().nth(p.column).map(|x| line + x.0).unwrap_or(src.len())
    };
    fn walk(ts: proc_macro2::TokenStream, depth: usize, clash: &BTreeSet<String>, hits: &mut Vec<proc_macro2::Span>) {
        let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
        for (i, t) in v.iter().enumerate() {
            match t {
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), depth + 1, clash, hits),
                proc_macro2::TokenTree::Ident(id) if clash.contains(&id.to_string()) => {
                    let prev = if i > 0 { v[i - 1].to_string() } else { String::new() };
                    let next_paren = matches!(v.get(i + 1), Some(proc_macro2::TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis);
                    let generic = prev == "fn" && matches!(v.get(i + 1), Some(proc_macro2::TokenTree::Punct(p)) if p.as_char() == '<');
                    let alone = v.len() == 1;
                    if (prev == "fn" && depth == 0 && (next_paren || generic)) || (prev != "fn" && prev != "." && prev != ":" && (next_paren || alone)) {
                        hits.push(id.span());
                    }
                }
                _ => {}
            }
        }
    }
    let mut hits = vec![];
    if let Ok(ts) = src.parse::<proc_macro2::TokenStream>() {
        walk(ts, 0, &clash, &mut hits);
    }
    let mut ends: Vec<usize> = hits.iter().map(|h| off(h.end())).collect();
    ends.sort();
    let mut out = src.clone();
    for e in ends.into_iter().rev() {
        out.insert_str(e, "_vx_repo");
    }
    out
}

/// what refuses in a twin does not return: `expect`, `unwrap`, `panic!`; functions that have a twin themselves are called there
struct Refusals<'c> {
    ty: String,
    c: &'c Contracts,
}
impl syn::visit_mut::VisitMut for Refusals<'_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let new = match e {
            syn::Expr::MethodCall(m) if (m.method == "expect" && m.args.len() == 1) || (m.method == "unwrap" && m.args.is_empty()) => {
                let r = &m.receiver;
                Some(quote::quote!(crate::vx::VxCheckGet::check_get_(#r)))
            }
            syn::Expr::Macro(m) if REFUSE.contains(&last_ident(&m.mac.path).as_str()) => Some(quote::quote!(crate::vx::refuse_())),
            _ => None,
        };
        if let Some(n) = new {
            *e = syn::parse2(n).unwrap();
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        if let syn::Stmt::Macro(m) = s {
            if REFUSE.contains(&last_ident(&m.mac.path).as_str()) {
                *s = syn::Stmt::Expr(syn::parse2(quote::quote!(crate::vx::refuse_())).unwrap(), Some(Default::default()));
                return;
            }
        }
        syn::visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        syn::visit_mut::visit_expr_method_call_mut(self, m);
        let t = format!("{}{}", TWIN, m.method);
        if self.c.fns.keys().any(|k| k.rsplit("::").next() == Some(&t)) {
            m.method = syn::Ident::new(&t, m.method.span());
        }
    }
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        syn::visit_mut::visit_expr_call_mut(self, c);
        if let syn::Expr::Path(p) = &mut *c.func {
            let n = p.path.segments.len();
            if n >= 2 {
                let head = p.path.segments[n - 2].ident.to_string();
                let head = if head == "Self" { self.ty.clone() } else { head };
                let t = format!("{}{}", TWIN, p.path.segments[n - 1].ident);
                if self.c.fns.contains_key(&format!("{}::{}", head, t)) {
                    let l = &mut p.path.segments[n - 1];
                    l.ident = syn::Ident::new(&t, l.ident.span());
                }
            }
        }
    }
}
const REFUSE: &[&str] = &["panic", "unreachable", "todo", "unimplemented"];

fn with_twins(src: String, file: &syn::File, c: &Contracts) -> String {
    let mut starts = vec![0usize];
    for (i, ch) in src.char_indices() {
        if ch == '\n' {
            starts.push(i + 1);
        }
    }
    let mut copies: Vec<(usize, String)> = vec![];
    for it in &file.items {
        let i = match it {
            syn::Item::Impl(i) if i.trait_.is_none() => i,
            _ => continue,
        };
        let ty = match &*i.self_ty {
            syn::Type::Path(p) => last_ident(&p.path),
            _ => continue,
        };
        for m in &i.items {
            if let syn::ImplItem::Fn(f) = m {
                if c.fns.contains_key(&format!("{}::{}{}", ty, TWIN, f.sig.ident)) {
                    let e = f.span().end();
                    let line = starts[e.line - 1];
                    // columns count characters
                    let at = src[line..].char_indices().nth(e.column).map(|x| line + x.0).unwrap_or(src.len());
                    let mut t = f.clone();
                    t.attrs.clear();
                    t.sig.ident = syn::Ident::new(&format!("{}{}", TWIN, f.sig.ident), f.sig.ident.span());
                    syn::visit_mut::VisitMut::visit_block_mut(&mut Refusals { ty: ty.clone(), c }, &mut t.block);
                    copies.push((at, format!(" {}", quote::ToTokens::to_token_stream(&t))));
                }
            }
        }
    }
    let mut src = src;
    for (at, t) in copies.into_iter().rev() {
        src.insert_str(at, &t);
    }
    src
}

#[allow(clippy::too_many_arguments)]
fn weave_module(
    cfg: &CrateCfg, c: &Contracts, opts: &Opts, report: &mut Report, path: &Path, dir: &Path, module: &str, out: &mut String, repo: &Path,
) -> Result<(), String> {
    let src = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
    let mut file = syn::parse_file(&src).map_err(|e| format!("{}: {}", path.display(), e))?;
    let before = src.clone();
    let src = without_clashes(src, &file, c);
    if src != before {
        file = syn::parse_file(&src).map_err(|e| format!("{}: {}", path.display(), e))?;
    }
    let src = with_twins(src, &file, c);
    if src.contains(TWIN) {
        file = syn::parse_file(&src).map_err(|e| format!("{}: {}", path.display(), e))?;
    }
    let mut ls = vec![0usize];
    for (i, ch) in src.char_indices() {
        if ch == '\n' {
            ls.push(i + 1);
        }
    }
    report.modules.insert(module.to_string());
    let rel = path.strip_prefix(repo).unwrap_or(path).display().to_string();
    let mut children = vec![];
    let (body, spec) = {
        let mut cx = FileCx {
            src: &src, line_starts: ls, edits: vec![], cuts: vec![], counter: 0, c, opts, krate: cfg.name, module: module.to_string(),
            file: rel.clone(), report, impl_ty: None, impl_trait: None, fn_stack: vec![], extra_items: String::new(),
            left_out: file.items.iter().filter_map(|i| match i {
                syn::Item::Mod(m) if m.content.is_none() && !woven(cfg, &child_path(module, &m.ident.to_string())) => Some(m.ident.to_string()),
                _ => None,
            }).collect(),
            ret_of: BTreeMap::new(), own_maps: BTreeMap::new(),
        };
        if cfg.name == "pratt" {
            let (r, m) = file_facts(&src, &file);
            cx.ret_of = r;
            cx.own_maps = m;
        }
        for a in &file.attrs {
            let (x, y) = cx.rng(a.span());
            cx.replace(x, y, "");
        }
        for it in &file.items {
            cx.item(it, &mut children);
        }
        let extra = std::mem::take(&mut cx.extra_items);
        (format!("{}{}", cx.render(0, src.len()), extra), c.spec.get(module).cloned().unwrap_or_default())
    };
    let mut have: BTreeSet<String> = file.items.iter().filter_map(item_name).collect();
    have.extend(report.imports.entry(module.to_string()).or_default().keys().cloned());
    let empty = BTreeMap::new();
    let spec = settle_imports(&spec, &have, c.imports.get(module).unwrap_or(&empty));
    if c.spec.contains_key(module) {
        report.used.insert(format!("spec {}", module));
    }
    out.push_str("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::{VxVec, VxCmp, VxCloned, VxPrinted, VxSeqIter, VxStr, VxRange};\n#[allow(unused_imports)] use crate::sp::*;\n#[allow(unused_imports)] use vstd::std_specs::iter::IteratorSpec;\n#[allow(unused_imports)] use vstd::std_specs::cmp::{PartialEqSpec, OrdSpec, PartialOrdSpec};\nverus! {\n");
    out.push_str(&body);
    out.push_str("\n// ---- specifications\n");
    out.push_str(&spec);
    out.push_str(&derived_impls(c, report, module));
    out.push_str("\n} // verus!\n");
    for (name, m) in children {
        let cpath = child_path(module, &name);
        if !woven(cfg, &cpath) {
            continue;
        }
        let _ = &m;
        let f1 = dir.join(format!("{}.rs", name));
        let f2 = dir.join(&name).join("mod.rs");
        let (p, d) = if f1.exists() { (f1, dir.join(&name)) } else { (f2, dir.join(&name)) };
        out.push_str(&format!("\npub mod {} {{\n", name));
        weave_module(cfg, c, opts, report, &p, &d, &cpath, out, repo)?;
        out.push_str(&format!("}} // mod {}\n", name));
    }
    Ok(())
}

/// Contracts of derived trait impls: trusted, and only emitted when the source still derives them.
fn derived_impls(c: &Contracts, report: &mut Report, module: &str) -> String {
    let mut out = String::new();
    let types: Vec<(String, Vec<String>, Vec<String>)> =
        report.types.iter().filter(|(_, m)| m.0 == module).map(|(t, m)| (t.clone(), m.1.clone(), m.2.clone())).collect();
    for (t, lts, tps) in types {
        let have = report.derives.get(&t).cloned().unwrap_or_default();
        let is_copy = have.iter().any(|x| x == "Copy");
        let gen = |bound: &str| -> (String, String) {
            let mut g: Vec<String> = lts.clone();
            g.extend(tps.iter().map(|p| if bound.is_empty() { p.clone() } else { format!("{}: {}", p, bound) }));
            let mut a: Vec<String> = lts.clone();
            a.extend(tps.iter().cloned());
            if g.is_empty() {
                (String::new(), String::new())
            } else {
                (format!("<{}>", g.join(", ")), format!("<{}>", a.join(", ")))
            }
        };
        if have.iter().any(|x| x == "Clone") && !is_copy {
            let (g, a) = gen("Clone");
            out.push_str(&format!(
                "impl{} Clone for {}{} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n",
                g, t, a
            ));
        }
        if have.iter().any(|x| x == "Debug") {
            let (g, a) = gen("");
            out.push_str(&format!("#[verifier::external] impl{} core::fmt::Debug for {}{} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ unimplemented!() }} }}\n", g, t, a));
        }
        let d = c.derived.get(&t).cloned().unwrap_or_default();
        if have.iter().any(|x| x == "Default") {
            let (g, a) = gen("");
            let ens = d.get("Default").map(|e| format!("ensures {}", e)).unwrap_or_default();
            out.push_str(&format!("impl{} Default for {}{} {{ #[verifier::external_body] fn default() -> (r: Self) {} {{ unimplemented!() }} }}\n", g, t, a, ens));
        }
        if have.iter().any(|x| x == "PartialEq") {
            let (g, a) = gen("PartialEq");
            out.push_str(&format!(
                "impl{g} PartialEq for {t}{a} {{ #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) {{ unimplemented!() }} }}\n"
            ));
            out.push_str(&format!("impl{g} Eq for {t}{a} {{ }}\n"));
            if let Some(e) = d.get("PartialEq") {
                out.push_str(&format!(
                    "impl{g} vstd::std_specs::cmp::PartialEqSpecImpl for {t}{a} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &Self) -> bool {{ {e} }} }}\n"
                ));
            }
        }
        if have.iter().any(|x| x == "PartialOrd") {
            let (g, a) = gen("Ord");
            out.push_str(&format!(
                "impl{g} PartialOrd for {t}{a} {{ #[verifier::external_body] fn partial_cmp(&self, other: &Self) -> (r: Option<core::cmp::Ordering>) {{ unimplemented!() }} }}\n"
            ));
            out.push_str(&format!(
                "impl{g} Ord for {t}{a} {{ #[verifier::external_body] fn cmp(&self, other: &Self) -> (r: core::cmp::Ordering) {{ unimplemented!() }} }}\n"
            ));
            if let Some(e) = d.get("Ord") {
                out.push_str(&format!(
                    "impl{g} vstd::std_specs::cmp::PartialOrdSpecImpl for {t}{a} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> {{ Some({e}) }} }}\n\
                     impl{g} vstd::std_specs::cmp::OrdSpecImpl for {t}{a} {{ open spec fn obeys_cmp_spec() -> bool {{ true }} open spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering {{ {e} }} }}\n\
                     impl{g} crate::vx::VxCmp for {t}{a} {{ open spec fn vx_cmp_spec(&self, other: &Self) -> core::cmp::Ordering {{ {e} }} #[verifier::external_body] fn vx_cmp(&self, other: &Self) -> (r: core::cmp::Ordering) {{ unimplemented!() }} }}\n"
                ));
            }
        }
        for (tr, _) in d {
            let dep = if tr == "Ord" { "PartialOrd" } else { tr.as_str() };
            if have.iter().any(|x| *x == dep) {
                report.used.insert(format!("derived {} {}", tr, t));
            } else {
                report.lost.push(format!("{} does not derive {} any more", t, tr));
            }
        }
    }
    out
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut repo = PathBuf::from("/repo");
    let mut cdir = PathBuf::from("/verif/contracts");
    let mut outp = PathBuf::from("woven.rs");
    let mut rep = PathBuf::from("woven.json");
    let mut opts = Opts { quarantine: BTreeSet::new(), drop: BTreeSet::new(), cover: false };
    while let Some(a) = args.next() {
        match a.as_str() {
            "--repo" => repo = args.next().unwrap().into(),
            "--contracts" => cdir = args.next().unwrap().into(),
            "--out" => outp = args.next().unwrap().into(),
            "--report" => rep = args.next().unwrap().into(),
            "--quarantine" => {
                opts.quarantine.insert(args.next().unwrap());
            }
            "--cover" => opts.cover = true,
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2)
            }
        }
    }
    let mut c = Contracts::default();
    let enabled: Vec<&str> = std::env::var("WEAVE_CRATES").ok().map(|s| s.split(',').map(|x| Box::leak(x.to_string().into_boxed_str()) as &str).collect()).unwrap_or(vec!["input_tree", "caret", "parser"]);
    let vc = |d: &Path| -> Vec<PathBuf> {
        let mut v: Vec<PathBuf> = std::fs::read_dir(d).into_iter().flatten().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map(|x| x == "vc").unwrap_or(false)).collect();
        v.sort();
        v
    };
    // the imports the contracts were written with (names the contracts mention only)
    if let Some(j) = std::fs::read_to_string(cdir.join("baseline.json")).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()) {
        for (m, names) in j["imports"].as_object().into_iter().flatten() {
            let e = c.imports.entry(m.clone()).or_default();
            for (n, p) in names.as_object().into_iter().flatten() {
                e.insert(n.clone(), p.as_str().unwrap_or("").to_string());
            }
        }
    }
    // contracts of a crate other than input_tree live in a directory of that name
    let mut files = vc(&cdir);
    if !enabled.contains(&"input_tree") {
        // the top level is about input_tree, except for the prelude
        files.retain(|f| f.file_name().map_or(false, |n| n == "00_prelude.vc"));
    }
    for k in &enabled {
        files.extend(vc(&cdir.join(k)));
    }
    for f in files {
        let t = std::fs::read_to_string(&f).unwrap();
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        if let Err(e) = parse_into(&mut c, &t, &name) {
            eprintln!("contract error: {}", e);
            std::process::exit(2);
        }
    }
    for t in c.spec.values().chain(std::iter::once(&c.prelude)) {
        let ws: Vec<&str> = t.split(|x: char| !(x.is_alphanumeric() || x == '_')).filter(|w| !w.is_empty()).collect();
        for w in ws.windows(2) {
            if w[0] == "fn" {
                c.spec_names.insert(w[1].to_string());
            }
        }
    }
    let ac = repo.join("aftermath-core");
    let crates = [
        CrateCfg { name: "input_tree", root: ac.join("input_tree/src"), prefix: "", skip: &["row_macros"], only: None },
        CrateCfg {
            name: "caret", root: ac.join("caret/src"), prefix: "", skip: &[],
            // the editor itself needs the parser crate's autocomplete
            only: if enabled.contains(&"parser") { Some(&["caret", "primitive", "undo_redo_manager", "autocomplete", "editor_action_builder", "math_editor"]) }
                else { Some(&["caret", "primitive", "undo_redo_manager"]) },
        },
        CrateCfg { name: "parser", root: ac.join("parser/src"), prefix: "parser::", skip: &[], only: Some(&["syntax_tree!", "syntax_tree::node_type_id!", "syntax_tree::syntax_node!", "syntax_tree::syntax_node_builder!", "autocomplete!", "parser!", "parse_modules!", "rule_collection!", "rule_collections!", "rule_collections::built_in_rules!"]) },
        CrateCfg { name: "serialization", root: ac.join("serialization/src"), prefix: "serialization::", skip: &[], only: None },
    ];
    let pratt = CrateCfg { name: "pratt", root: ac.join("parser/src"), prefix: "", skip: &[], only: Some(&["pratt_parser", "parse_module"]) };
    let mut out = String::from("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, unused_assignments)]\n#![verifier::loop_isolation(false)]\n");
    if enabled.contains(&"pratt") {
        out.insert_str(0, "#![feature(allocator_api)]\n");
    }
    out.push_str("use vstd::prelude::*;\n");
    out.push_str(&c.prelude);
    let mut report = Report::default();
    for cfg in &crates {
        if !enabled.contains(&cfg.name) {
            continue;
        }
        let lib = cfg.root.join("lib.rs");
        let mut text = String::new();
        let r = if cfg.prefix.is_empty() {
            weave_root(cfg, &c, &opts, &mut report, &lib, &mut text, &repo)
        } else {
            let m = cfg.prefix.trim_end_matches("::");
            text.push_str(&format!("pub mod {} {{\n", m));
            let r = weave_module(cfg, &c, &opts, &mut report, &lib, &cfg.root, m, &mut text, &repo);
            text.push_str("}\n");
            r
        };
        match r {
            Ok(()) => out.push_str(&text),
            Err(e) => {
                report.lost.push(format!("crate {}: {}", cfg.name, e));
            }
        }
    }
    if enabled.contains(&pratt.name) {
        // files of the parser crate on their own
        for (name, file) in [("pratt_parser", "parser/pratt_parser.rs"), ("parse_module", "parse_module.rs")] {
            let mut text = format!("pub mod {} {{\n", name);
            let f = pratt.root.join(file);
            match weave_module(&pratt, &c, &opts, &mut report, &f, f.parent().unwrap(), name, &mut text, &repo) {
                Ok(()) => {
                    out.push_str(&text);
                    out.push_str("}\n");
                }
                Err(e) => report.lost.push(format!("crate pratt: {}: {}", name, e)),
            }
        }
    }
    out.push_str("\nfn main() {}\n");
    for k in c.serde.keys() {
        if !report.used.contains(&format!("serde {}", k)) {
            report.lost.push(format!("deserialize_input_nodes: the type {} is gone", k));
        }
    }
    for k in c.fns.keys() {
        if !report.used.contains(k) {
            report.lost.push(format!("{}: function with a contract is gone", k));
        }
    }
    std::fs::write(&outp, &out).unwrap();
    let j = json!({
        "functions": report.fns, "lost": report.lost, "notes": report.notes, "derives": report.derives, "modules": report.modules, "imports": report.imports,
    });
    std::fs::write(&rep, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

fn weave_root(cfg: &CrateCfg, c: &Contracts, opts: &Opts, report: &mut Report, lib: &Path, out: &mut String, repo: &Path) -> Result<(), String> {
    // the crate root's own items are only `mod` declarations
    let src = std::fs::read_to_string(lib).map_err(|e| e.to_string())?;
    let file = syn::parse_file(&src).map_err(|e| e.to_string())?;
    for it in &file.items {
        if let syn::Item::Mod(m) = it {
            let name = m.ident.to_string();
            if cfg.skip.contains(&name.as_str()) {
                continue;
            }
            if let Some(only) = cfg.only {
                if !only.contains(&name.as_str()) {
                    continue;
                }
            }
            let f1 = cfg.root.join(format!("{}.rs", name));
            let (p, d) = if f1.exists() { (f1, cfg.root.join(&name)) } else { (cfg.root.join(&name).join("mod.rs"), cfg.root.join(&name)) };
            out.push_str(&format!("\npub mod {} {{\n", name));
            weave_module(cfg, c, opts, report, &p, &d, &name, out, repo)?;
            out.push_str(&format!("}} // mod {}\n", name));
        }
    }
    Ok(())
}
