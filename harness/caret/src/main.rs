//! Replays the properties C10, C12..C19, C22..C24 and C02 (recorded actions) against the real caret, autocompletion and
//! syntax tree code, with an independent oracle.
#[path = "../../core/src/common.rs"]
mod common;
use caret::caret::*;
use caret::math_editor::*;
use caret::primitive::primitive_edit::*;
use caret::primitive::*;
use caret::undo_redo_manager::UndoRedoManager;
use common::*;
use input_tree::direction::*;
use input_tree::editing::{editable::Editable, invertible::Invertible, BasicEdit};
use input_tree::focus::*;
use input_tree::grid::*;
use input_tree::input_tree::InputTree;
use input_tree::row::Offset;
use parser::autocomplete::*;
use parser::parser::MathParser;
use parser::syntax_tree::*;
use serialization::{deserialize_input_nodes, serialize_input_nodes};
use std::rc::Rc;

fn tree(t: &Row) -> InputTree { InputTree::new(to_row(t)) }
fn nested(t: &Row) -> bool { t.iter().any(|n| matches!(n, M::Cont(..))) }
fn mcaret(s: &Pos, e: &Pos) -> MinimalCaret { MinimalCaret { start_position: mpos(s), end_position: mpos(e) } }

fn c02(cx: &mut Cx) {
    cx.rule = "recorded actions made of 1..4 row and table edits on the fixed family and random formulas; applied, then their inverse; non-trivial: more than one edit".into();
    cx.trees(|cx, t| {
        let mut cur = t.clone(); let mut es = vec![]; let mut shown = vec![];
        for _ in 0..1 + cx.rng.to(4) {
            let g = grid_edits_of(&mut cx.rng, &cur, 5);
            if !g.is_empty() && cx.rng.to(2) == 0 { shown.push(show_grid_edit(&g[0])); es.push(to_grid_edit(&g[0])); cur = apply_grid(&cur, &g[0]); }
            else { let all = edits_of(&mut cx.rng, &cur, 40); let e = cx.rng.pick(&all).clone(); shown.push(show_edit(&e)); es.push(to_edit(&e)); cur = apply(&cur, &e); }
        }
        let (p, q) = (places(t), places(&cur));
        let (p, q) = (cx.rng.pick(&p).clone(), cx.rng.pick(&q).clone());
        cx.case(es.len() > 1, &(t, &shown), || format!("formula {}; action {:?}", show(t), shown), || {
            let a = CaretEdit { caret_before: mcaret(&p, &p), caret_after: mcaret(&q, &q), edits: es.clone() };
            let i = a.inverse();
            let mut r = tree(t); r.apply_edits(&a.edits); same_row("edited formula", &of_row(&r.root), &cur)?;
            r.apply_edits(&i.edits); same_row("after the inverse", &of_row(&r.root), t)?;
            check("the carets are swapped", i.caret_before == a.caret_after && i.caret_after == a.caret_before)?;
            check("inverting twice gives back the action", i.inverse() == a)?;
            check("undo action", UndoAction::from(a.clone()).inverse() == UndoAction::CaretEdit(i))
        });
    });
}
/// a caret whose ends are set one after the other selects what is between them
fn setters(t: &Row, from: &(Path, usize), p: &(Path, usize), q: &(Path, usize)) -> Result<(), String> {
    let tr = tree(t); let at = |x: &(Path, usize)| InputRowPosition::from_minimal(tr.root_focus(), &mpos(x));
    let full = |c: &Caret| (of_mpos(&c.start_position().to_minimal()), of_mpos(&c.end_position().to_minimal()), c.selection().to_minimal());
    let want = full(&Caret::new(&tr, at(p), at(q)));
    same("ends of a caret", (&want.0, &want.1), (p, q))?;
    match &want.2 { MinimalCaretSelection::Row(r) => { check("no cells are between them", !cells(t, p, q))?; same("selection", of_mrange(r), span(t, p, q))? }, _ => check("cells are between them", cells(t, p, q))? }
    let m = Caret::new(&tr, at(p), at(q)).to_minimal();
    same("stored form", (of_mpos(&m.start_position), of_mpos(&m.end_position)), (p.clone(), q.clone()))?;
    same("from the stored form", full(&Caret::from_minimal(&tr, &m)), want.clone())?;
    let mut c = Caret::new(&tr, at(from), at(from)); c.set_start_position(at(p));
    same("start set", full(&c), full(&Caret::new(&tr, at(p), at(from))))?; c.set_end_position(at(q)); same("end set", full(&c), want.clone())?;
    let mut c = Caret::new(&tr, at(from), at(from)); c.set_end_position(at(q)); c.set_start_position(at(p)); same("end and start set", full(&c), want.clone())?;
    if p.0 == q.0 {
        let mut c = Caret::new(&tr, at(from), at(from)); c.set_selection(InputRowRange::new(at(p).row_focus, Offset(p.1), Offset(q.1))); same("range set", full(&c), want.clone())?;
    }
    same("selection handed out", Caret::new(&tr, at(p), at(q)).into_selection().to_minimal(), want.2)
}
fn c10(cx: &mut Cx) {
    cx.rule = "all pairs of cells of tables up to 4x4: the selection made by a caret from the one to the other; non-trivial: the corners differ in both coordinates".into();
    for w in 1..=4usize { for h in 1..=4usize { for a in 0..w * h { for b in 0..w * h {
        if a == b { continue; }
        let (ax, ay, bx, by) = (a % w, a / w, b % w, b / w);
        cx.case(ax != bx && ay != by, &(w, h, a, b), || format!("table {w}x{h}, caret from cell {a} to cell {b}"), || {
            let t = vec![sym("a"), M::Cont(K::Table, w, (0..w * h).map(|i| vec![sym(&i.to_string())]).collect())];
            let tr = tree(&t);
            let c = Caret::from_minimal(&tr, &mcaret(&(vec![(1, a)], 0), &(vec![(1, b)], 1)));
            match c.selection() {
                CaretSelection::Grid(s) => {
                    same("table", (of_idx(&s.to_minimal().row_indices), s.to_minimal().index), (vec![], 1))?;
                    same("corners", (s.top_left_index(), s.bottom_right_index()), ((ax.min(bx), ay.min(by)), Some((ax.max(bx), ay.max(by)))))?;
                    same("size", s.range.size(), (ax.max(bx) - ax.min(bx) + 1, ay.max(by) - ay.min(by) + 1))
                }
                CaretSelection::Row(_) => Err("a selection of cells is not a table selection".into()),
            }?;
            setters(&t, &(vec![], 0), &(vec![(1, a)], 0), &(vec![(1, b)], 1))?; setters(&t, &(vec![(1, b)], 0), &(vec![(1, a)], 1), &(vec![(1, b)], 0))
        });
    } } } }
}
#[derive(Clone, Debug, PartialEq)]
struct Act(i64);
impl Invertible for Act { type Inverse = Act; fn inverse(&self) -> Act { Act(-self.0) } }
fn c12(cx: &mut Cx) {
    cx.rule = "random sequences of up to 40 record, undo and redo calls, some with one call repeated up to 6000 times, compared with two lists; non-trivial: something was undone".into();
    let mut i = 0;
    while !cx.over() {
        let n = 1 + cx.rng.to(40);
        let mut ops: Vec<usize> = (0..n).map(|_| cx.rng.to(3)).collect();
        if i % 400 == 0 { let k = cx.rng.to(n); let (o, m) = (ops[k], [300, 1100, 6000][cx.rng.to(3)]); for _ in 0..m { ops.insert(k, o); } ops.insert(0, 0); }
        if i % 4000 == 0 { ops = [0usize, 1, 2].into_iter().flat_map(|o| std::iter::repeat(o).take(6000)).collect(); }
        i += 1;
        let show = |ops: &[usize]| { let mut s = vec![]; for o in ops { match s.last_mut() { Some((p, n)) if p == o => *n += 1, _ => s.push((*o, 1)) } } s.iter().map(|(o, n)| if *n == 1 { o.to_string() } else { format!("{o} ({n} times)") }).collect::<Vec<_>>().join(", ") };
        cx.case(ops.contains(&1), &ops, || format!("calls {} (0 record, 1 undo, 2 redo)", show(&ops)), || {
            let mut m: UndoRedoManager<Act> = UndoRedoManager::new();
            let (mut u, mut r): (Vec<i64>, Vec<i64>) = (vec![], vec![]);
            for (i, o) in ops.iter().enumerate() {
                match o {
                    0 => { m.push(Act(i as i64 + 1)); u.push(i as i64 + 1); r.clear(); }
                    1 => { let w = u.pop(); if let Some(x) = w { r.push(x); } same("undo", m.undo(), w.map(|x| Act(-x)))?; }
                    _ => { let w = r.pop(); if let Some(x) = w { u.push(x); } same("redo", m.redo(), w.map(Act))?; }
                }
                same("can undo, can redo", (m.can_undo(), m.can_redo()), (!u.is_empty(), !r.is_empty()))?;
            }
            while let Some(x) = u.pop() { same("undo to the start", m.undo(), Some(Act(-x)))?; r.push(x); }
            same("nothing left to undo", (m.undo(), m.can_undo()), (None, false))?;
            while let Some(x) = r.pop() { same("redo to the end", m.redo(), Some(Act(x)))?; }
            same("nothing left to redo", (m.redo(), m.can_redo()), (None, false))
        });
    }
}
fn c13(cx: &mut Cx) {
    cx.rule = "fixed family and random formulas, both directions from every place and from ranges of every row, against the neighbours in a left-to-right walk; non-trivial: the step enters or leaves a container, or the range is not collapsed".into();
    let nav = NavigationSettings::new();
    cx.trees(|cx, t| {
        let ps = places(t); let r = tree(t);
        for (i, p) in ps.iter().enumerate() { for right in [false, true] {
            let want = if right { ps.get(i + 1) } else { i.checked_sub(1).map(|j| &ps[j]) };
            let d = if right { Direction::Right } else { Direction::Left };
            cx.case(want.map_or(true, |q| q.0 != p.0), &(t, p, right), || format!("formula {}; caret {:?}; {:?}", show(t), p, d), || {
                let g = nav.move_caret_range((&InputRowPosition::from_minimal(r.root_focus(), &mpos(p))).into(), d, MoveMode::Char);
                same("caret", g.map(|x| of_mpos(&x.to_minimal())).as_ref(), want)?;
                let mut c = Caret::from_minimal(&r, &mcaret(p, p)); nav.move_caret(&mut c, d, MoveMode::Char);
                let w = want.unwrap_or(p); check("the caret is moved there", c.to_minimal() == mcaret(w, w))
            });
        } }
        for p in paths(t) { let n = row_at(t, &p).unwrap().len(); for s in 0..=n { for e in 0..=n { if s == e { continue; } for right in [false, true] {
            let edge = (p.clone(), if right { s.max(e) } else { s.min(e) });
            let i = ps.iter().position(|x| *x == edge).unwrap();
            let want = (if right { ps.get(i + 1) } else { i.checked_sub(1).map(|j| &ps[j]) }).unwrap_or(&edge);
            let d = if right { Direction::Right } else { Direction::Left };
            cx.case(true, &(t, &p, s, e, right), || format!("formula {}; selection {:?} {}..{}; {:?}", show(t), p, s, e, d), || {
                let g = nav.move_caret_range(InputRowRange::from_minimal(r.root_focus(), &mrange(&p, s, e)), d, MoveMode::Char);
                same("caret", g.map(|x| of_mpos(&x.to_minimal())).as_ref(), Some(want))
            });
        } } } }
    });
}
/// where up or down leads from a row
fn vertical(t: &Row, p: &Path, down: bool) -> Option<Pos> {
    let (last, up) = p.split_last()?;
    if let M::Cont(k, w, c) = &row_at(t, up)?[last.0] {
        if (*k == K::Sub && down) || (*k == K::Sup && !down) { return Some((up.to_vec(), last.0)); }
        let (x, y) = (last.1 % w, last.1 / w);
        let to = if down { Some(y + 1).filter(|y| *y < c.len() / w) } else { y.checked_sub(1) };
        if let Some(y) = to { let mut q = up.to_vec(); q.push((last.0, y * w + x)); let n = row_at(t, &q)?.len(); return Some((q, if down { 0 } else { n })); }
    }
    vertical(t, &up.to_vec(), down)
}
fn c14(cx: &mut Cx) {
    cx.rule = "fixed family and random formulas, both directions from every place and from ranges, against a direct oracle; non-trivial: the row is inside a container".into();
    let nav = NavigationSettings::new();
    cx.trees(|cx, t| {
        let r = tree(t);
        for p in paths(t) { let n = row_at(t, &p).unwrap().len(); for s in 0..=n { for e in 0..=n { for down in [false, true] {
            if s.abs_diff(e) > 1 && (s + e) % 3 != 0 { continue; }
            let edge = (p.clone(), if down { s.max(e) } else { s.min(e) });
            let want = vertical(t, &p, down).or(if s == e { None } else { Some(edge) });
            let d = if down { Direction::Down } else { Direction::Up };
            cx.case(!p.is_empty(), &(t, &p, s, e, down), || format!("formula {}; selection {:?} {}..{}; {:?}", show(t), p, s, e, d), || {
                let g = nav.move_caret_range(InputRowRange::from_minimal(r.root_focus(), &mrange(&p, s, e)), d, MoveMode::Char);
                same("caret", g.map(|x| of_mpos(&x.to_minimal())), want)
            });
        } } } }
    });
}
fn c15(cx: &mut Cx) {
    cx.rule = "fixed family and random formulas, backspace, delete and range deletion from every place and from ranges, insertion at ranges; the edits are applied and classified against the model; non-trivial: the formula has a container".into();
    let nav = NavigationSettings::new();
    cx.trees(|cx, t| {
        let ps = places(t);
        for p in paths(t) { let n = row_at(t, &p).unwrap().len(); for s in 0..=n { for e in 0..=n {
            if s.abs_diff(e) > 2 && (s * 5 + e) % 3 != 0 { continue; }
            for mode in [CaretRemoveMode::Left, CaretRemoveMode::Right, CaretRemoveMode::Range] {
                cx.case(nested(t), &(t, &p, s, e, mode as usize), || format!("formula {}; selection {:?} {}..{}; remove {:?}", show(t), p, s, e, mode), || {
                    let r = tree(t);
                    let g = remove_at_caret(&nav, &InputRowRange::from_minimal(r.root_focus(), &mrange(&p, s, e)), mode);
                    let (edits, pos) = match g { None => {
                        check("nothing to remove or move only at the ends of the formula", s == e && mode != CaretRemoveMode::Range && {
                            let i = ps.iter().position(|x| *x == (p.clone(), s)).unwrap(); if mode == CaretRemoveMode::Left { i == 0 } else { i + 1 == ps.len() } })?;
                        return Ok(()); } Some(x) => x };
                    let mut a = tree(t); a.apply_edits(&edits); let after = of_row(&a.root); let pos = of_mpos(&pos);
                    check("the caret is valid afterwards", valid(&after, &pos))?;
                    let back: Vec<BasicEdit> = edits.iter().rev().map(|e| e.inverse()).collect();
                    a.apply_edits(&back); same_row("undone", &of_row(&a.root), t)?;
                    let (l, h) = (s.min(e), s.max(e)); let row = row_at(t, &p).unwrap();
                    if l < h || mode == CaretRemoveMode::Range {
                        let want = apply(t, &ME { ins: false, at: (p.clone(), l), vals: row[l..h].to_vec() });
                        same_row("formula without the selection", &after, &want)?; return same("caret", pos, (p.clone(), l));
                    }
                    let left = mode == CaretRemoveMode::Left;
                    let adj = if left { s.checked_sub(1) } else { Some(s).filter(|i| *i < n) };
                    if let Some(i) = adj { if let M::Sym(_) = &row[i] {
                        let want = apply(t, &ME { ins: false, at: (p.clone(), i), vals: vec![row[i].clone()] });
                        same_row("formula without the adjacent symbol", &after, &want)?; return same("caret", pos, (p.clone(), i));
                    } }
                    if after == *t {
                        // only the caret moved, to the neighbouring place
                        let i = ps.iter().position(|x| *x == (p.clone(), s)).unwrap();
                        return same("caret moved one place", Some(&pos), if left { i.checked_sub(1).map(|j| &ps[j]) } else { ps.get(i + 1) });
                    }
                    // a container was unwrapped: the adjacent one, or the one around
                    let unwrap = |q: &Path, i: usize| -> Option<Row> { let mut m = t.clone(); let r = row_at_mut(&mut m, q)?; if let M::Cont(_, _, c) = r.get(i)?.clone() { r.splice(i..i + 1, c.into_iter().flatten()); Some(m) } else { None } };
                    let mut ok = vec![];
                    if let Some(i) = adj { ok.extend(unwrap(&p, i).map(|m| (m, (p.clone(), s - if left { 1 } else { 0 })))); }
                    else if let Some((last, up)) = p.split_last() {
                        let at = (up.to_vec(), last.0 + if let M::Cont(_, _, c) = &row_at(t, up).unwrap()[last.0] { c[..last.1].iter().map(|r| r.len()).sum::<usize>() + s } else { 0 });
                        ok.extend(unwrap(&up.to_vec(), last.0).map(|m| (m, at))); }
                    match ok.iter().find(|x| x.0 == after) {
                        None => Err(format!("the formula became {}, which is neither without the adjacent symbol, nor with the adjacent or surrounding container unwrapped", show(&after))),
                        Some(x) => same("caret at the same content", pos, x.1.clone()),
                    }
                });
            }
            let vals = rand_row(&mut cx.rng, 1, 2);
            cx.case(nested(t), &(t, &p, s, e, &vals), || format!("formula {}; selection {:?} {}..{}; insert {}", show(t), p, s, e, show(&vals)), || {
                let r = tree(t);
                let (edits, pos) = insert_at_range(&InputRowRange::from_minimal(r.root_focus(), &mrange(&p, s, e)), to_nodes(&vals)).ok_or("nothing was inserted")?;
                let mut a = tree(t); a.apply_edits(&edits);
                let l = s.min(e); let mut want = t.clone(); row_at_mut(&mut want, &p).unwrap().splice(l..s.max(e), vals.clone());
                same_row("formula with the selection replaced", &of_row(&a.root), &want)?;
                same("caret behind the inserted elements", of_mpos(&pos), (p.clone(), l + vals.len()))
            });
        } } }
    });
}
fn rule_texts() -> Vec<AutocompleteRule> {
    vec![AutocompleteRule::new("sin", to_nodes(&vec![sym("SIN")])), AutocompleteRule::new("ab", to_nodes(&vec![M::Cont(K::Fraction, 1, vec![vec![sym("a")], vec![sym("b")]])])), AutocompleteRule::new("éx", vec![]), AutocompleteRule::new("x", to_nodes(&vec![sym("xx")]))]
}
fn c16(cx: &mut Cx) {
    cx.rule = "random sequences of up to 25 editor operations (typing, deleting, moving, selecting, replacing ranges from outside, pasting, undo, redo, accepting suggestions), without and with autocorrect rules; non-trivial: at least one undo or redo that did something".into();
    let mut round = 0u64;
    while !cx.over() {
        round += 1;
        let rules = if round % 3 == 0 { rule_texts() } else { vec![] };
        let has_rules = !rules.is_empty();
        let start = rand_tree(&mut cx.rng);
        let seed = cx.rng.next();
        let n = 3 + cx.rng.to(23);
        let log = std::cell::RefCell::new(Vec::<String>::new());
        let undone = std::cell::Cell::new(0usize);
        let run = || -> Result<(), String> {
            let mut rng = Rng::new(seed);
            let mut ed = MathEditor::new(Rc::new(MathParser::new(rules.clone())));
            ed.splice_at_range(mrange(&vec![], 0, 0), to_nodes(&start));
            log.borrow_mut().push(format!("start with {}", show(&start)));
            same_row("formula spliced in", &of_row(ed.get_input_tree()), &start)?;
            type S = (Row, MinimalCaretSelection);
            let state = |ed: &MathEditor| -> S { (of_row(ed.get_input_tree()), ed.get_caret()[0].clone()) };
            let mut hist: Vec<(S, S)> = vec![((vec![], MinimalCaretSelection::Row(mrange(&vec![], 0, 0))), state(&ed))];
            let mut redo: Vec<(S, S)> = vec![];
            let sel_ok = |s: &S| -> Result<(), String> { match &s.1 {
                MinimalCaretSelection::Row(r) => { let (p, a, b) = of_mrange(r); check(&format!("the caret {:?} {}..{} is valid in {}", p, a, b, show(&s.0)), valid(&s.0, &(p.clone(), a)) && valid(&s.0, &(p, b))) }
                MinimalCaretSelection::Grid(g) => check("the table selection is valid", row_at(&s.0, &of_idx(&g.row_indices)).map_or(false, |r| matches!(r.get(g.index), Some(M::Cont(..))))),
            } };
            for _ in 0..n {
                let before = state(&ed);
                let is_grid = matches!(before.1, MinimalCaretSelection::Grid(_));
                let mut pushes = false; // known to record an action even though nothing may have changed
                let ps = places(&before.0);
                let op = rng.to(if has_rules { 16 } else { 14 });
                // editing a table selection is not implemented
                if is_grid && !matches!(op, 4 | 6 | 7 | 8 | 9 | 10) { continue; }
                let dirs = [Direction::Left, Direction::Right, Direction::Up, Direction::Down];
                match op {
                    0 | 1 | 2 => { let s: Vec<String> = (0..1 + rng.to(2)).map(|_| (*rng.pick(&["a", "b", "s", "i", "n", "é", "x"])).to_string()).collect(); log.borrow_mut().push(format!("type {:?}", s)); ed.insert_at_caret(s); pushes = true; }
                    3 | 11 => { let m = *rng.pick(&[CaretRemoveMode::Left, CaretRemoveMode::Right, CaretRemoveMode::Range]); log.borrow_mut().push(format!("remove {:?}", m)); ed.remove_at_caret(m, MoveMode::Char); pushes = m == CaretRemoveMode::Range; }
                    4 => { let d = *rng.pick(&dirs); log.borrow_mut().push(format!("move {:?}", d)); ed.move_caret(d, MoveMode::Char); }
                    5 => { let d = *rng.pick(&dirs); log.borrow_mut().push(format!("select {:?}", d)); ed.select_with_caret(d, MoveMode::Char); }
                    6 => { log.borrow_mut().push("select all".into()); ed.select_all(); same("selection", state(&ed).1, MinimalCaretSelection::Row(mrange(&vec![], 0, before.0.len())))?; }
                    7 => { let p = rng.pick(&ps).clone(); log.borrow_mut().push(format!("click {:?}", p)); ed.start_selection(mpos(&p), MoveMode::Char); if !has_rules { same("caret", state(&ed).1, MinimalCaretSelection::Row(mrange(&p.0, p.1, p.1)))?; } }
                    8 => { let p = rng.pick(&ps).clone(); log.borrow_mut().push(format!("drag to {:?}", p)); ed.extend_selection(mpos(&p)); ed.finish_selection(); }
                    9 => {
                        log.borrow_mut().push("undo".into()); let r = ed.undo();
                        if !has_rules {
                            match hist.pop() { Some(h) => { undone.set(undone.get() + 1); check("undo is possible", r.is_some())?; let s = state(&ed); same_row("undo: formula", &s.0, &h.0 .0)?; same("undo: caret", s.1, h.0 .1.clone())?; redo.push(h); } None => { check("nothing to undo", r.is_none())?; check("nothing changed", state(&ed) == before)?; } }
                        }
                    }
                    10 => {
                        log.borrow_mut().push("redo".into()); let r = ed.redo();
                        if !has_rules {
                            match redo.pop() { Some(h) => { undone.set(undone.get() + 1); check("redo is possible", r.is_some())?; let s = state(&ed); same_row("redo: formula", &s.0, &h.1 .0)?; same("redo: caret", s.1, h.1 .1.clone())?; hist.push(h); } None => { check("nothing to redo", r.is_none())?; check("nothing changed", state(&ed) == before)?; } }
                        }
                    }
                    12 => {
                        let p = rng.pick(&ps).0.clone(); let n = row_at(&before.0, &p).unwrap().len(); let (s, e) = (rng.to(n + 1), rng.to(n + 1)); let vals = rand_row(&mut rng, 1, 2);
                        log.borrow_mut().push(format!("replace {:?} {}..{} by {}", p, s, e, show(&vals)));
                        ed.splice_at_range(mrange(&p, s, e), to_nodes(&vals)); pushes = true;
                        let mut want = before.0.clone(); let l = s.min(e); let old = row_at(&want, &p).unwrap()[l..s.max(e)].to_vec(); row_at_mut(&mut want, &p).unwrap().splice(l..s.max(e), vals.clone());
                        let now = state(&ed); same_row("formula", &now.0, &want)?;
                        if let MinimalCaretSelection::Row(r) = &before.1 { let (cp, cs, ce) = of_mrange(r); if cs == ce {
                            let (d, i) = (ME { ins: false, at: (p.clone(), l), vals: old }, ME { ins: true, at: (p.clone(), l), vals });
                            let a = follow(&d, &cp, cs, cs); let b = follow(&i, &a.0, a.1, a.1);
                            // (a collapsed caret, when the two ends agree)
                            if let MinimalCaretSelection::Row(r) = &now.1 { let g = of_mrange(r); if g.1 == g.2 { same("caret at the same content", g, (b.0, b.1, b.1))?; } else { return Err("the caret became a selection".into()); } }
                        } }
                    }
                    13 => {
                        log.borrow_mut().push("copy and paste".into());
                        let data = ed.copy(SerializedDataType::JsonInputTree).map_err(|e| e.to_string())?;
                        ed.paste(data, Some(SerializedDataType::JsonInputTree)).map_err(|e| e.to_string())?; pushes = true;
                        if !has_rules { same_row("pasting what was copied over itself", &state(&ed).0, &before.0)?; }
                    }
                    14 => { log.borrow_mut().push("accept the suggestion".into()); ed.finish_autocomplete(true); }
                    _ => { let d = *rng.pick(&[VerticalDirection::Up, VerticalDirection::Down]); log.borrow_mut().push(format!("suggestion {:?}", d)); ed.move_in_autocomplete(d); check("nothing changed", state(&ed) == before)?; }
                }
                let after = state(&ed); sel_ok(&after)?;
                same("the parsed formula is the current one", ed.get_syntax_tree().range(), 0..after.0.len())?;
                if op != 9 && op != 10 {
                    if !has_rules { if pushes || after.0 != before.0 { hist.push((before.clone(), after.clone())); redo.clear(); } }
                    else if after.0 != before.0 {
                        // one or two recorded actions (the operation, an autocorrection): back and forth
                        let mut k = 0; while state(&ed).0 != before.0 && k < 2 { check("undo is possible", ed.undo().is_some())?; sel_ok(&state(&ed))?; k += 1; }
                        same_row("undone", &state(&ed).0, &before.0)?;
                        for _ in 0..k { check("redo is possible", ed.redo().is_some())?; }
                        check("redone", state(&ed) == after)?; undone.set(undone.get() + 1);
                    }
                }
            }
            if !has_rules {
                while let Some(h) = hist.pop() { check("undo is possible", ed.undo().is_some())?; let s = state(&ed); same_row("undo to the start: formula", &s.0, &h.0 .0)?; same("undo to the start: caret", s.1, h.0 .1)?; }
                check("nothing left to undo", ed.undo().is_none())?;
            }
            Ok(())
        };
        cx.case(round % 3 != 0 || n > 8, &seed, || format!("{}{:?}", if has_rules { "(rules sin, ab, éx, x) " } else { "" }, log.borrow()), run);
    }
}
fn c17(cx: &mut Cx) {
    cx.rule = "rules over a small alphabet (with accents), symbols of one or more characters and containers before the caret, against a direct search; non-trivial: something matches".into();
    let al = ["a", "b", "é", "ab", "ba", "éa", "s", "in"];
    let check_one = |cx: &mut Cx, rule: &str, input: &Vec<M>, caret: usize, min: usize| {
        let mut want: Vec<(usize, usize)> = vec![];
        for k in 1..=caret {
            let part = &input[caret - k..caret];
            let mut s = String::new(); let mut ok = true;
            for m in part { match m { M::Sym(x) => s.push_str(x), _ => ok = false } }
            if ok && k >= min && rule.starts_with(&s) { want.push((s.len(), k)); }
        }
        want.sort();
        cx.case(!want.is_empty(), &(rule, input, caret, min), || format!("rule {:?}; elements {}; caret {}; at least {}", rule, show(input), caret, min), || {
            let r = AutocompleteRule::new(rule, vec![]); let nodes = to_nodes(input);
            let m = r.matches(&nodes, caret, min);
            let mut got: Vec<(usize, usize)> = m.iter().map(|x| (x.rule_match_length, x.input_match_length)).collect(); got.sort();
            same("matches (length in the rule, symbols)", got, want.clone())?;
            for x in &m { same("complete", x.is_complete_match(), x.rule_match_length == rule.len())?; check("the rule", x.rule == &r)?; }
            let two = AutocompleteRules(vec![r.clone(), AutocompleteRule::new("zz", vec![]), r.clone()]);
            same("matches of several rules", two.matches(&nodes, caret, min).len(), 2 * want.len())
        });
    };
    // all short inputs
    for rule in ["a", "ab", "aa", "aba", "é", "aéb", "abab", "éaé"] {
        for n in 0..=3usize { let mut i = vec![0usize; n]; loop {
            let input: Vec<M> = i.iter().map(|x| sym(["a", "b", "é", "ab"][*x])).collect();
            for c in 0..=n { for min in 0..=3 { check_one(cx, rule, &input, c, min); } }
            let mut k = 0; while k < n { i[k] += 1; if i[k] < 4 { break; } i[k] = 0; k += 1; } if k == n { break; }
        } }
    }
    while !cx.over() {
        let rule: String = (0..1 + cx.rng.to(5)).map(|_| *cx.rng.pick(&al)).collect();
        let mut input: Vec<M> = (0..cx.rng.to(6)).map(|_| if cx.rng.to(8) == 0 { M::Cont(K::Sup, 1, vec![vec![sym("a")]]) } else { sym(al[cx.rng.to(al.len())]) }).collect();
        if cx.rng.to(2) == 0 { let k = 1 + cx.rng.to(rule.chars().count()); input.extend(rule.chars().take(k).map(|c| sym(&c.to_string()))); }
        let caret = if cx.rng.to(3) == 0 { cx.rng.to(input.len() + 1) } else { input.len() };
        let min = cx.rng.to(4);
        check_one(cx, &rule, &input, caret, min);
    }
}
fn c18(cx: &mut Cx) {
    cx.rule = "random nodes with up to 4 children, well-formed and not (gaps, overlaps, wrong order, outside the parent), and new rows; non-trivial: there are children".into();
    let mk = |a: usize, b: usize| SyntaxNodeBuilder::new_leaf_node(vec!["x".into(); b.saturating_sub(a)], LeafNodeType::Symbol).build(SyntaxNodeNameId::new(1), a..b);
    while !cx.over() {
        let n = cx.rng.to(5);
        let mut at = cx.rng.to(4); let first = at;
        let mut kids: Vec<(usize, usize)> = (0..n).map(|_| { let s = at; at += cx.rng.to(4); (s, at) }).collect();
        let (mut a, mut b) = (first - cx.rng.to(first + 1), at + cx.rng.to(3));
        match cx.rng.to(6) { 0 if n > 0 => { let i = cx.rng.to(n); kids[i].0 += 1; kids[i].1 = kids[i].1.max(kids[i].0); } 1 if n > 0 => { let i = cx.rng.to(n); kids[i].1 += 1; } 2 if n > 1 => kids.swap(0, n - 1), 3 => a += 1, 4 => b = b.saturating_sub(1).max(a), _ => {} }
        let tiles = kids.windows(2).all(|w| w[0].1 == w[1].0);
        let ok = kids.is_empty() || (tiles && a <= kids[0].0 && kids[n - 1].1 <= b);
        let name = SyntaxNodeNameId::new(7);
        cx.case(n > 0, &(a, b, &kids), || format!("node {a}..{b} with children {:?}", kids), || {
            let nodes: Vec<SyntaxNode> = kids.iter().map(|k| mk(k.0, k.1)).collect();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| SyntaxNodeBuilder::new(SyntaxNodeChildren::Children(nodes)).set_value(vec![1, 2]).build(name, a..b)));
            match r {
                Err(_) => check("a well-formed node can be built", !ok),
                Ok(n) => {
                    check("a node that breaks the nesting cannot be built", ok)?;
                    same("without children", n.children.is_empty(), kids.is_empty())?; same("range", n.range(), a..b)?; same("name and value", (n.name, n.value.clone()), (name, vec![1, 2]))?;
                    match &n.children { SyntaxNodeChildren::Children(c) => same("children", c.iter().map(|x| (x.range().start, x.range().end)).collect::<Vec<_>>(), kids.clone()), _ => Err("the children changed".into()) }
                }
            }
        });
        cx.case(false, &(a, b, &kids, 1), || format!("node {a}..{b} with the new rows {:?}", kids), || {
            let nodes: Vec<SyntaxNode> = kids.iter().map(|k| mk(k.0, k.1)).collect();
            let nd = SyntaxNode::new(name, a..b, SyntaxNodeChildren::NewRows(GridVec::from_one_dimensional(nodes, 1)));
            same("without rows", nd.children.is_empty(), kids.is_empty())?;
            same("range", nd.range(), a..b)?; check("a new node has no value", nd.value.is_empty())?;
            match &nd.children { SyntaxNodeChildren::NewRows(g) => same("rows", g.values().map(|x| (x.range().start, x.range().end)).collect::<Vec<_>>(), kids.clone()), _ => Err("the children changed".into()) }
        });
        cx.case(false, &(a, b, 2), || format!("leaf {a}..{b}"), || {
            let nd = SyntaxNode::new(name, a..b, SyntaxNodeChildren::Leaf(SyntaxLeafNode::new(LeafNodeType::Operator, vec!["+".into()])));
            same("range", nd.range(), a..b)?;
            check("a leaf has its symbols", !nd.children.is_empty())?;
            match &nd.children { SyntaxNodeChildren::Leaf(l) => same("leaf", (l.node_type, l.symbols.clone()), (LeafNodeType::Operator, vec!["+".to_string()])), _ => Err("the children changed".into()) }
        });
    }
}
// ------------------------------------------------------------------ the editor, one command at a time (C22, C23, C24)
#[derive(Clone, Debug, PartialEq, Hash)]
enum Op { Type(Vec<String>), Remove(u8), Move(u8), Select(u8), All, Click(Pos), Drag(Pos), Finish, Undo, Redo, Replace(Path, usize, usize, Row), Paste(Row), Accept, Suggest(bool), Read }
const DIRS: [Direction; 4] = [Direction::Left, Direction::Right, Direction::Up, Direction::Down];
const MODES: [CaretRemoveMode; 3] = [CaretRemoveMode::Left, CaretRemoveMode::Right, CaretRemoveMode::Range];
fn editor(rules: Vec<AutocompleteRule>, t: &Row) -> MathEditor {
    let mut ed = MathEditor::new(Rc::new(MathParser::new(rules)));
    if !t.is_empty() { ed.splice_at_range(mrange(&vec![], 0, 0), to_nodes(t)); }
    ed
}
fn formula(ed: &MathEditor) -> Row { of_row(ed.get_input_tree()) }
fn copied(r: &[M]) -> String {
    // the clipboard text of these elements, made by an editor that contains nothing else and has everything selected
    let mut e = editor(vec![], &r.to_vec()); e.select_all(); e.copy(SerializedDataType::JsonInputTree).unwrap()
}
fn run_op(ed: &mut MathEditor, op: &Op) {
    match op {
        Op::Type(s) => ed.insert_at_caret(s.clone()), Op::Remove(m) => { ed.remove_at_caret(MODES[*m as usize], MoveMode::Char); }
        Op::Move(d) => ed.move_caret(DIRS[*d as usize], MoveMode::Char), Op::Select(d) => { ed.select_with_caret(DIRS[*d as usize], MoveMode::Char); }
        Op::All => ed.select_all(), Op::Click(p) => ed.start_selection(mpos(p), MoveMode::Char), Op::Drag(p) => ed.extend_selection(mpos(p)), Op::Finish => ed.finish_selection(),
        Op::Undo => { ed.undo(); } Op::Redo => { ed.redo(); } Op::Replace(p, s, e, v) => ed.splice_at_range(mrange(p, *s, *e), to_nodes(v)),
        Op::Paste(v) => { ed.paste(copied(v), Some(SerializedDataType::JsonInputTree)).unwrap(); } Op::Accept => { ed.finish_autocomplete(true); }
        Op::Suggest(up) => { ed.move_in_autocomplete(if *up { VerticalDirection::Up } else { VerticalDirection::Down }); } Op::Read => {}
    }
}
/// the deepest row around both places, and how much of it they cover
fn span(t: &Row, p: &Pos, q: &Pos) -> (Path, usize, usize) {
    let k = p.0.iter().zip(q.0.iter()).take_while(|(x, y)| x == y).count();
    let f = |x: &Pos| if x.0.len() == k { (x.1, x.1) } else { (x.0[k].0, x.0[k].0 + 1) };
    let ((a, b), (c, d)) = (f(p), f(q)); let (l, h) = (a.min(c), b.max(d));
    let ps = places(t); let i = |x: &Pos| ps.iter().position(|y| y == x).unwrap();
    if i(p) <= i(q) { (p.0[..k].to_vec(), l, h) } else { (p.0[..k].to_vec(), h, l) }
}
/// both places in cells of one table: what is selected are cells
fn cells(t: &Row, p: &Pos, q: &Pos) -> bool {
    let k = p.0.iter().zip(q.0.iter()).take_while(|(x, y)| x == y).count();
    p.0.len() > k && q.0.len() > k && p.0[k].0 == q.0[k].0 && matches!(row_at(t, &p.0[..k]).map(|r| &r[p.0[k].0]), Some(M::Cont(K::Table, ..)))
}
fn rand_op(rng: &mut Rng, t: &Row, all: bool) -> Op {
    let ps = places(t);
    match rng.to(if all { 16 } else { 12 }) {
        0 | 1 => Op::Type((0..1 + rng.to(2)).map(|_| (*rng.pick(&["a", "b", "s", "i", "n", "é", "x"])).to_string()).collect()),
        2 | 3 => Op::Remove(rng.to(3) as u8), 4 | 5 => Op::Move(rng.to(4) as u8), 6 => Op::Select(rng.to(4) as u8), 7 => Op::Click(rng.pick(&ps).clone()), 8 | 9 => Op::Drag(rng.pick(&ps).clone()),
        10 => match rng.to(3) { 0 => Op::All, 1 => Op::Finish, _ => Op::Read }, 11 => Op::Paste(rand_row(rng, 1, 3)),
        12 => Op::Undo, 13 => Op::Redo,
        14 => { let p = rng.pick(&ps).0.clone(); let n = row_at(t, &p).unwrap().len(); Op::Replace(p, rng.to(n + 1), rng.to(n + 1), rand_row(rng, 1, 2)) }
        _ => if rng.to(2) == 0 { Op::Accept } else { Op::Suggest(rng.to(2) == 0) },
    }
}
fn is_cells(ed: &MathEditor) -> bool { matches!(ed.get_caret()[0], MinimalCaretSelection::Grid(_)) }
fn c22(cx: &mut Cx) {
    cx.rule = "random sequences of up to 20 editor commands with the syntax tree read at random moments, compared with a fresh parse of the current formula; non-trivial: it was read at least twice".into();
    while !cx.over() {
        let rules = if cx.rng.to(2) == 0 { rule_texts() } else { vec![] };
        let start = rand_tree(&mut cx.rng); let n = 2 + cx.rng.to(19); let seed = cx.rng.next();
        let log = std::cell::RefCell::new(vec![]);
        cx.case(n > 4, &(seed, &start), || format!("start with {}, then {:?}", show(&start), log.borrow()), || {
            let mut rng = Rng::new(seed); let mut ed = editor(rules.clone(), &start); let fresh = MathParser::new(vec![]);
            for _ in 0..n {
                let t = formula(&ed); let op = rand_op(&mut rng, &t, true);
                if is_cells(&ed) && matches!(op, Op::Type(_) | Op::Remove(_) | Op::Select(_) | Op::Paste(_)) { continue; }
                log.borrow_mut().push(op.clone()); run_op(&mut ed, &op);
                if rng.to(3) > 0 {
                    let want = format!("{:?}", fresh.parse(&ed.get_input_tree().values));
                    for _ in 0..2 { same("syntax tree", format!("{:?}", ed.get_syntax_tree()), want.clone())?; }
                }
            }
            Ok(())
        });
    }
}
fn c23(cx: &mut Cx) {
    cx.rule = "random formulas, carets and selections in both directions and across rows, one editor command on each, compared with the model; non-trivial: something is selected or the caret is in a container".into();
    let nav = NavigationSettings::new();
    cx.trees(|cx, t| {
        let ps = places(t);
        for _ in 0..25 {
            let (p, q) = (cx.rng.pick(&ps).clone(), cx.rng.pick(&ps).clone()); let q = if cx.rng.to(3) == 0 { p.clone() } else { q };
            let op = rand_op(&mut cx.rng, t, false);
            cx.case(p != q || !p.0.is_empty(), &(t, &p, &q, &op), || format!("formula {}; caret from {:?} to {:?}; {:?}", show(t), p, q, op), || {
                let mut ed = editor(vec![], t);
                ed.start_selection(mpos(&p), MoveMode::Char); ed.extend_selection(mpos(&q));
                same_row("selecting changes nothing", &formula(&ed), t)?;
                same("number of carets", ed.get_caret().len(), 1)?;
                if cells(t, &p, &q) { return check("table cells are selected", is_cells(&ed)); }
                check("no table cells are selected", !is_cells(&ed))?;
                let at = |ed: &MathEditor, what: &str, want: (Path, usize, usize)| -> Result<(), String> {
                    match &ed.get_caret()[0] { MinimalCaretSelection::Row(r) => same(what, of_mrange(r), want), _ => Err(format!("{what}: table cells are selected")) } };
                let sel = span(t, &p, &q); at(&ed, "the reported caret", sel.clone())?;
                let (l, h) = (sel.1.min(sel.2), sel.1.max(sel.2));
                let vals = row_at(t, &sel.0).unwrap()[l..h].to_vec();
                same("copied", ed.copy(SerializedDataType::JsonInputTree).map_err(|e| e.to_string())?, copied(&vals))?;
                same_row("copying changes nothing", &formula(&ed), t)?;
                let other = ps[h % ps.len()].clone(); setters(t, &other, &p, &q)?;
                // the same selection for the functions below the editor
                let r = tree(t); let caret = Caret::from_minimal(&r, &mcaret(&p, &q));
                let range = InputRowRange::from_minimal(r.root_focus(), &mrange(&sel.0, sel.1, sel.2));
                run_op(&mut ed, &op);
                let now = formula(&ed);
                let replaced = |ed: &mut MathEditor, v: &Row| -> Result<(), String> {
                    let mut want = t.clone(); row_at_mut(&mut want, &sel.0).unwrap().splice(l..h, v.clone());
                    same_row("the selection is replaced", &now, &want)?;
                    at(ed, "caret behind the new elements", (sel.0.clone(), l + v.len(), l + v.len()))?;
                    check("undo", ed.undo().is_some())?; same_row("undone as one action", &formula(ed), t)?; at(ed, "caret after undo", sel.clone())
                };
                match &op {
                    Op::Type(s) => replaced(&mut ed, &s.iter().map(|x| sym(x)).collect())?,
                    Op::Paste(v) => { replaced(&mut ed, v)?; check("redo", ed.redo().is_some())?; check("broken data is refused", ed.paste("{}".into(), Some(SerializedDataType::JsonInputTree)).is_err())?; same_row("broken data changes nothing", &formula(&ed), &now)?; }
                    Op::Remove(m) => match remove_at_caret(&nav, &range, MODES[*m as usize]) {
                        None => { same_row("nothing to delete", &now, t)?; at(&ed, "caret", sel.clone())?; }
                        Some((edits, pos)) => {
                            let mut a = tree(t); a.apply_edits(&edits); same_row("formula after deleting", &now, &of_row(&a.root))?;
                            let pos = of_mpos(&pos); at(&ed, "caret after deleting", (pos.0.clone(), pos.1, pos.1))?;
                            if l < h { let mut want = t.clone(); row_at_mut(&mut want, &sel.0).unwrap().splice(l..h, vec![]); same_row("the selection is deleted", &now, &want)?; at(&ed, "caret where it was", (sel.0.clone(), l, l))?; }
                            if now != *t || !edits.is_empty() { check("undo", ed.undo().is_some())?; same_row("undone as one action", &formula(&ed), t)?; at(&ed, "caret after undo", sel.clone())?; }
                        }
                    },
                    Op::Move(d) => {
                        same_row("moving changes nothing", &now, t)?;
                        let mut c = caret; nav.move_caret(&mut c, DIRS[*d as usize], MoveMode::Char);
                        let c = c.to_minimal(); at(&ed, "caret after moving", span(t, &of_mpos(&c.start_position), &of_mpos(&c.end_position)))?;
                    }
                    Op::Select(d) => {
                        same_row("selecting changes nothing", &now, t)?;
                        let e = InputRowPosition::from_minimal(r.root_focus(), &mpos(&(sel.0.clone(), sel.2)));
                        let e = nav.move_caret_range((&e).into(), DIRS[*d as usize], MoveMode::Char).map(|x| of_mpos(&x.to_minimal()));
                        // the start stays, the end of the selection moves
                        let want = e.unwrap_or(q.clone());
                        if cells(t, &p, &want) { check("table cells are selected", is_cells(&ed))?; } else { at(&ed, "selection", span(t, &p, &want))?; }
                    }
                    Op::All => { same_row("selecting changes nothing", &now, t)?; at(&ed, "everything", (vec![], 0, t.len()))?; }
                    Op::Click(x) => { same_row("selecting changes nothing", &now, t)?; at(&ed, "caret there", (x.0.clone(), x.1, x.1))?; }
                    Op::Drag(x) => { same_row("selecting changes nothing", &now, t)?; if cells(t, &p, x) { check("table cells are selected", is_cells(&ed))?; } else { at(&ed, "selection up to there", span(t, &p, x))?; } }
                    _ => { same_row("nothing changes", &now, t)?; at(&ed, "caret", sel.clone())?; }
                }
                Ok(())
            });
        }
    });
}
fn c24(cx: &mut Cx) {
    cx.rule = "rows ending in beginnings of the rules (sin, ab, éx, x, abab, s), nested or not; accepting, browsing suggestions, and every other command as the one that triggers autocorrect, compared with the model; non-trivial: there is a suggestion".into();
    let mut rules = rule_texts(); rules.push(AutocompleteRule::new("abab", to_nodes(&vec![sym("AB")]))); rules.push(AutocompleteRule::new("s", to_nodes(&vec![sym("S"), sym("T")])));
    // the same result for another text
    rules.push(AutocompleteRule::new("aba", to_nodes(&vec![sym("AB")])));
    let parser = MathParser::new(rules.clone());
    while !cx.over() {
        // a formula with a place directly behind something that may match
        let mut t = rand_tree(&mut cx.rng); let ps = places(&t); let at = cx.rng.pick(&ps).clone();
        let w: Vec<char> = cx.rng.pick(&["sin", "ab", "abab", "éx", "x", "s", "ins", "bab"]).chars().collect();
        let k = if cx.rng.to(3) == 0 { 1 + cx.rng.to(w.len()) } else { w.len() };
        row_at_mut(&mut t, &at.0).unwrap().splice(at.1..at.1, w[..k].iter().map(|c| sym(&c.to_string())));
        let p = (at.0.clone(), at.1 + k);
        let steps: Vec<bool> = (0..cx.rng.to(4)).map(|_| cx.rng.to(3) == 0).collect();
        let accept = cx.rng.to(3) == 0;
        let op = rand_op(&mut cx.rng, &t, false);
        let sel = { let ps = places(&t); cx.rng.pick(&ps).clone() };
        let nodes = to_nodes(row_at(&t, &p.0).unwrap());
        let some = !parser.matches(&nodes, p.1, 2).is_empty();
        cx.case(some, &(&t, &p, &steps, accept, &op), || format!("formula {}; caret {:?}; browsing {:?} (true: up); {}", show(&t), p, steps, if accept { "accept".into() } else { format!("{:?}", op) }), || {
            let mut ed = editor(rules.clone(), &t);
            // (from the empty start of the formula, where nothing matches)
            ed.start_selection(mpos(&p), MoveMode::Char);
            same_row("nothing is corrected yet", &formula(&ed), &t)?;
            let list = |ed: &mut MathEditor| -> Option<(usize, Vec<(String, usize, usize)>)> { ed.get_autocomplete().map(|r| { let (i, m, c) = r.destructure(); assert!(of_mpos(&c) == p); (i, m.iter().map(|x| (x.rule.parser.clone(), x.rule_match_length, x.input_match_length)).collect()) }) };
            let mut want: Vec<(String, usize, usize)> = parser.matches(&nodes, p.1, 2).iter().map(|x| (x.rule.parser.clone(), x.rule_match_length, x.input_match_length)).collect();
            let mut cur = list(&mut ed);
            let mut got = cur.clone().map_or(vec![], |x| x.1); check("in the order of how much of the rule is there", got.windows(2).all(|w| w[0].1 <= w[1].1))?; got.sort(); want.sort(); same("suggestions", got, want)?;
            same("open", ed.open_autocomplete().is_some(), some)?;
            if sel != p { let mut s = editor(rules.clone(), &t); s.start_selection(mpos(&p), MoveMode::Char); s.extend_selection(mpos(&sel)); check("nothing is offered while something is selected", s.get_autocomplete().is_none() && s.open_autocomplete().is_none())?; }
            same("the first suggestion is chosen", cur.as_ref().map(|x| x.0), if some { Some(0) } else { None })?;
            for up in &steps {
                same("browsing", ed.move_in_autocomplete(if *up { VerticalDirection::Up } else { VerticalDirection::Down }).is_some(), some)?;
                if let Some((i, m)) = &cur {
                    let j = if *up { i.saturating_sub(1) } else { (i + 1).min(m.len() - 1) };
                    let j = m.iter().position(|x| x.0 == m[j].0).unwrap();
                    let (ng, nm) = list(&mut ed).ok_or("the suggestions are gone")?;
                    same("the list stays", &nm, m)?; same("chosen", ng, j)?; cur = Some((j, nm));
                }
                same_row("browsing changes nothing", &formula(&ed), &t)?;
            }
            let caret = |ed: &MathEditor| -> Vec<MinimalCaretSelection> { ed.get_caret() };
            let splice = |m: &Row, c: &[MinimalCaretSelection], l: usize, h: usize, rule: &str| -> (Row, Option<(Path, usize, usize)>) {
                let vals: Row = of_nodes(&rules.iter().find(|r| r.parser == rule).unwrap().result);
                let mut m2 = m.clone(); let old = row_at(m, &p.0).unwrap()[l..h].to_vec(); row_at_mut(&mut m2, &p.0).unwrap().splice(l..h, vals.clone());
                let c = match &c[0] { MinimalCaretSelection::Row(r) => { let (q, a, b) = of_mrange(r); if a != b { None } else {
                    let a1 = follow(&ME { ins: false, at: (p.0.clone(), l), vals: old }, &q, a, a); let a2 = follow(&ME { ins: true, at: (p.0.clone(), l), vals }, &a1.0, a1.1, a1.1); Some((a2.0, a2.1, a2.1)) } } _ => None };
                (m2, c)
            };
            let check_caret = |ed: &MathEditor, c: Option<(Path, usize, usize)>| -> Result<(), String> { match (c, &ed.get_caret()[0]) { (Some(c), MinimalCaretSelection::Row(r)) if { let g = of_mrange(r); g.1 == g.2 } => same("caret at the same content", of_mrange(r), c), (Some(_), _) => Err("the caret became a selection".into()), _ => Ok(()) } };
            same("refused", ed.finish_autocomplete(false), None)?; same_row("refusing changes nothing", &formula(&ed), &t)?;
            if accept {
                let c = caret(&ed);
                same("accepting", ed.finish_autocomplete(true).is_some(), some)?;
                match &cur { None => same_row("nothing to accept", &formula(&ed), &t)?, Some((i, m)) => {
                    let (f, c) = splice(&t, &c, p.1 - m[*i].2, p.1, &m[*i].0);
                    same_row("the matched symbols are replaced", &formula(&ed), &f)?; check_caret(&ed, c)?;
                    check("undo", ed.undo().is_some())?; same_row("undone as one action", &formula(&ed), &t)?;
                } }
                return Ok(());
            }
            // any other command: the same command in an editor without rules, then autocorrect
            let mut plain = editor(vec![], &t); plain.start_selection(mpos(&p), MoveMode::Char); run_op(&mut plain, &op);
            run_op(&mut ed, &op);
            let m = formula(&plain); let c = caret(&plain);
            let complete = cur.as_ref().and_then(|(i, m)| { let x = &m[*i]; if x.1 == x.0.len() { Some((p.1 - x.2, p.1, x.0.clone())) } else { None } });
            let moves = matches!(op, Op::Move(_) | Op::Select(_) | Op::Click(_) | Op::Drag(_)) || matches!(op, Op::Remove(_)) && m == t;
            if let (Some((l, h, rule)), true) = (complete, moves) {
                let away = match &c[0] { MinimalCaretSelection::Row(r) => { let (q, a, _) = of_mrange(r); !(q == p.0 && l <= a && a <= h) } _ => false };
                if away {
                    let (f, c) = splice(&m, &c, l, h, &rule);
                    same_row("corrected", &formula(&ed), &f)?; check_caret(&ed, c)?;
                    check("undo", ed.undo().is_some())?; return same_row("the correction is undone as one action", &formula(&ed), &m);
                }
            }
            same_row("the command alone", &formula(&ed), &m)?;
            check("caret", caret(&ed) == c)
        });
    }
}
// ------------------------------------------------------------------ clipboard text (C19)
fn read(t: String) -> Result<Vec<input_tree::node::InputNode>, String> { deserialize_input_nodes(t, Some(SerializedDataType::JsonInputTree)).map_err(|e| e.to_string()) }
fn written(v: &[M]) -> Result<String, String> { serialize_input_nodes(&to_nodes(v), SerializedDataType::JsonInputTree).map_err(|e| e.to_string()) }
/// every grid is a rectangle (asked without going through the grid's own size)
fn rectangles(v: &[input_tree::node::InputNode]) -> bool {
    use input_tree::node::InputNode;
    v.iter().all(|n| match n {
        InputNode::Symbol(_) => true,
        InputNode::Container(_, g) => !panics(|| g.width()) && g.width() > 0 && g.values().count() % g.width() == 0 && g.values().all(|r| rectangles(&r.values)),
    })
}
/// the n-th value of this kind in the text, whatever the layout of the text is
fn nth<'a>(v: &'a mut serde_json::Value, n: &mut usize, f: &dyn Fn(&serde_json::Value) -> bool) -> Option<&'a mut serde_json::Value> {
    if f(v) { if *n == 0 { return Some(v); } *n -= 1; }
    match v {
        serde_json::Value::Array(a) => a.iter_mut().find_map(|x| nth(x, n, f)),
        serde_json::Value::Object(o) => o.iter_mut().find_map(|(_, x)| nth(x, n, f)),
        _ => None,
    }
}
/// containers around each other, k of them
fn chain(rng: &mut Rng, k: usize) -> Row {
    let mut t = vec![sym("x")];
    for _ in 0..k {
        t = match rng.to(4) { 0 => vec![M::Cont(K::Fraction, 1, vec![vec![], t])], 1 => vec![sym("y"), M::Cont(K::Root, 2, vec![t, vec![sym("\"")]])], 2 => vec![M::Cont(K::Table, 2, vec![vec![], t]), sym("")], _ => vec![M::Cont(K::Sup, 1, vec![t])] };
    }
    t
}
fn c19(cx: &mut Cx) {
    cx.rule = "the fixed family, chains of up to 20 containers and random formulas: written and read back; then the text damaged (a width or the cells of a grid changed, a value exchanged for one of another type, a field left out, characters changed, cut off), read, and pasted into an editor; copying a part and pasting it elsewhere; non-trivial: the formula has a container".into();
    let mut k = 0;
    cx.trees(|cx, t| {
        k += 1;
        let t = &if k % 40 == 7 { let n = 1 + cx.rng.to(20); chain(&mut cx.rng, if k == 7 { 20 } else { n }) } else { t.clone() };
        let what = cx.rng.to(8); let (a, b) = (cx.rng.to(64), cx.rng.to(12)); let r2 = cx.rng.next();
        cx.case(nested(t), &(t, what, a, b), || format!("formula {}; damage {what} at {a} ({b})", show(t)), || {
            let text = written(t)?;
            same_row("read back", &of_nodes(&read(text.clone())?), t)?;
            let mut rng = Rng::new(r2 + 1);
            let mut v: serde_json::Value = match serde_json::from_str(&text) { Ok(v) => v, Err(_) => return Ok(()) };
            // a grid is an object with a width and values
            let grid = |v: &serde_json::Value| v.get("width").map_or(false, |w| w.is_u64()) && v.get("values").map_or(false, |w| w.is_array());
            let mut n = 0; let mut count = 0;
            while nth(&mut v, &mut n, &grid).is_some() { count += 1; n = count; }
            // None: nothing is known about the damaged text except that what it gives is well-formed
            let mut refused: Option<bool> = None;
            let mut bad = text.clone();
            match what {
                0..=3 if count > 0 => {
                    let mut n = a % count;
                    let g = nth(&mut v, &mut n, &grid).unwrap();
                    let (w, l) = (g["width"].as_u64().unwrap(), g["values"].as_array().unwrap().len() as u64);
                    let (mut w2, mut l2) = (w, l);
                    if what == 0 { w2 = 0; } else if what == 1 { w2 = [0, 1, 2, 3, 4, 5, 6, 7, w + 1, l, l + 1, u64::MAX][b]; }
                    else if what == 2 { let c = g["values"].as_array_mut().unwrap(); if b % 2 == 0 && l > 0 { c.pop(); l2 -= 1; } else { let x = c.get(0).cloned().unwrap_or(serde_json::json!({"values": []})); c.push(x); l2 += 1; } }
                    else { g.as_object_mut().unwrap().remove(if b % 2 == 0 { "width" } else { "values" }); }
                    if what < 2 { g["width"] = serde_json::json!(w2); }
                    refused = Some(what == 3 || w2 == 0 || l2 % w2 != 0);
                    bad = v.to_string();
                }
                4 => {
                    let mut n = a % 8;
                    if let Some(x) = nth(&mut v, &mut n, &|v| v.get("Symbol").map_or(false, |s| s.is_string())) {
                        x["Symbol"] = [serde_json::json!(3), serde_json::json!(null), serde_json::json!([]), serde_json::json!({"a": "b"})][b % 4].clone();
                        refused = Some(true); bad = v.to_string();
                    }
                }
                5 => { bad = text[..(0..text.len()).filter(|i| text.is_char_boundary(*i)).nth(a * 97 % text.chars().count()).unwrap_or(0)].to_string(); refused = Some(true); }
                6 => { bad = [text.clone() + "}", text.clone() + &text, "".into(), "null".into(), "[]".into(), "{}".into(), "[".repeat(500), "{\"version\":1}".into(), "{\"version\":1,\"data\":3}".into(), "{\"version\":1,\"data\":[{\"Symbol\":3}]}".into(), "{\"version\":1,\"data\":[{\"Nothing\":[]}]}".into(), "plain text".into()][b].clone(); refused = Some(true); }
                _ => {
                    let mut c: Vec<char> = text.chars().collect();
                    for _ in 0..1 + rng.to(3) { let i = rng.to(c.len()); match rng.to(3) { 0 => { c.remove(i); } 1 => c[i] = *rng.pick(&['0', '1', '2', '3', '"', '[', ']', '{', '}', ',', 'a', '\\']), _ => { let x = c[i]; c.insert(i, x); } } if c.is_empty() { break; } }
                    bad = c.into_iter().collect();
                }
            }
            let got = read(bad.clone());
            if let Ok(v) = &got { check(&format!("{} is accepted, and is not a well-formed formula", bad), rectangles(v))?; }
            if let Some(r) = refused { same(&format!("refused: {}", bad), got.is_err(), r)?; }
            // pasting that, and pasting what was copied
            let mut ed = editor(vec![], t);
            let ps = places(t); let (p, q) = (rng.pick(&ps).clone(), rng.pick(&ps).clone());
            let end = if rng.to(2) == 0 { p.1 } else { rng.to(row_at(t, &p.0).unwrap().len() + 1) };
            ed.start_selection(mpos(&p), MoveMode::Char); ed.extend_selection(mpos(&(p.0.clone(), end))); ed.finish_selection();
            let before = ed.get_caret();
            let pasted = ed.paste(bad.clone(), Some(SerializedDataType::JsonInputTree));
            match got {
                Err(_) => { check("pasting it is refused", pasted.is_err())?; same_row("nothing is inserted", &formula(&ed), t)?; check("the caret stays", ed.get_caret() == before)?; }
                Ok(v) => { check("pasting it works", pasted.is_ok())?; let mut w = t.clone(); let r = row_at_mut(&mut w, &p.0).unwrap(); r.splice(p.1.min(end)..p.1.max(end), of_nodes(&v)); same_row("exactly that takes the place of the selection", &formula(&ed), &w)?; }
            }
            let mut ed = editor(vec![], t);
            let r = rng.pick(&paths(t)).clone(); let l = row_at(t, &r).unwrap().len(); let (x, y) = (rng.to(l + 1), rng.to(l + 1));
            ed.start_selection(mpos(&(r.clone(), x)), MoveMode::Char); ed.extend_selection(mpos(&(r.clone(), y))); ed.finish_selection();
            let part = row_at(t, &r).unwrap()[x.min(y)..x.max(y)].to_vec();
            let data = ed.copy(SerializedDataType::JsonInputTree).map_err(|e| e.to_string())?;
            same_row("copying changes nothing", &formula(&ed), t)?;
            ed.start_selection(mpos(&q), MoveMode::Char); ed.finish_selection();
            ed.paste(data, Some(SerializedDataType::JsonInputTree)).map_err(|e| e.to_string())?;
            let mut w = t.clone(); row_at_mut(&mut w, &q.0).unwrap().splice(q.1..q.1, part);
            same_row("the part copied is pasted", &formula(&ed), &w)
        });
    });
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, secs) = (a[1].as_str(), a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1u64), a.get(3).and_then(|s| s.parse().ok()).unwrap_or(5.0f64));
    quiet_panics();
    let mut cx = Cx::new(prop, seed, secs);
    match prop {
        "C02" => c02(&mut cx), "C10" => c10(&mut cx), "C12" => c12(&mut cx), "C13" => c13(&mut cx), "C14" => c14(&mut cx), "C15" => c15(&mut cx),
        "C16" => c16(&mut cx), "C17" => c17(&mut cx), "C18" => c18(&mut cx), "C19" => c19(&mut cx), "C22" => c22(&mut cx), "C23" => c23(&mut cx), "C24" => c24(&mut cx),
        _ => { eprintln!("unknown property"); std::process::exit(2) }
    }
    cx.finish()
}
