//! Replays the properties C01..C11 against the real input_tree crate, with an independent oracle.
mod common;
use common::*;
use input_tree::editing::{editable::Editable, invertible::Invertible, BasicEdit};
use input_tree::direction::HorizontalDirection;
use input_tree::focus::*;
use input_tree::grid::*;
use input_tree::input_tree::InputTree;
use input_tree::node::{InputNode, InputNodeVariant};
use input_tree::row::*;
use std::cmp::Ordering;

fn tree(t: &Row) -> InputTree { InputTree::new(to_row(t)) }
fn sizes(t: &Row) -> bool { t.iter().any(|n| matches!(n, M::Cont(..))) }

fn c01(cx: &mut Cx) {
    cx.rule = "fixed family, rows of up to 66000 symbols and random formulas (depth <= 3), every deletion and several insertions at every place, lists of edits; compared with the edit done on a plain model; non-trivial: the formula has a container".into();
    // rows longer than small machine integers can count
    for (n, o) in [(300usize, 290usize), (300, 256), (66_000, 65_900), (66_000, 65_536), (66_000, 7)] {
        let t: Row = (0..n).map(|i| sym(if i % 2 == 0 { "a" } else { "b" })).collect();
        for ins in [true, false] {
            let e = ME { ins, at: (vec![], o), vals: if ins { vec![sym("p"), sym("q")] } else { t[o..o + 2].to_vec() } };
            cx.case(false, &(n, o, ins), || format!("a row of {n} symbols a b a b ...; {}", show_edit(&e)), || {
                let mut r = tree(&t); r.apply_edit(&to_edit(&e)); check("edited formula", of_row(&r.root) == apply(&t, &e))
            });
        }
    }
    cx.trees(|cx, t| {
        for e in edits_of(&mut cx.rng, t, 60) {
            cx.case(sizes(t), &(t, &e), || format!("formula {}; {}", show(t), show_edit(&e)), || {
                let mut r = tree(t); r.apply_edit(&to_edit(&e)); same_row("edited formula", &of_row(&r.root), &apply(t, &e))
            });
        }
        // a list of edits is its edits one after the other
        let mut cur = t.clone(); let mut es = vec![]; let mut shown = vec![]; let mut keys = vec![];
        let n = 1 + cx.rng.to(4);
        for _ in 0..n {
            let all = edits_of(&mut cx.rng, &cur, 40);
            let g = grid_edits_of(&mut cx.rng, &cur, 5);
            if !g.is_empty() && cx.rng.to(3) == 0 { let e = &g[0]; shown.push(show_grid_edit(e)); es.push(to_grid_edit(e)); cur = apply_grid(&cur, e); keys.push(show(&cur)); }
            else { let e = cx.rng.pick(&all).clone(); shown.push(show_edit(&e)); es.push(to_edit(&e)); cur = apply(&cur, &e); keys.push(show(&cur)); }
        }
        cx.case(n > 1, &(t, &keys), || format!("formula {}; edits {:?}", show(t), shown), || {
            let mut r = tree(t); r.apply_edits(&es); same_row("edited formula", &of_row(&r.root), &cur)
        });
    });
}
fn c02(cx: &mut Cx) {
    cx.rule = "fixed family and random formulas, row and table edits; apply, apply the inverse, compare; non-trivial: the edit changes the formula".into();
    cx.trees(|cx, t| {
        let mut es: Vec<(BasicEdit, String, Row)> = edits_of(&mut cx.rng, t, 40).iter().map(|e| (to_edit(e), show_edit(e), apply(t, e))).collect();
        es.extend(grid_edits_of(&mut cx.rng, t, 20).iter().map(|e| (to_grid_edit(e), show_grid_edit(e), apply_grid(t, e))));
        for (e, s, after) in &es {
            cx.case(after != t, &(t, s), || format!("formula {}; {}", show(t), s), || {
                let mut r = tree(t); r.apply_edit(e); same_row("edited formula", &of_row(&r.root), after)?;
                let i = e.inverse(); r.apply_edit(&i); same_row("after the inverse", &of_row(&r.root), t)?;
                check("inverting twice gives back the edit", i.inverse() == *e)
            });
        }
    });
}
/// what an edit says about the lines that move
fn described(e: &BasicEdit) -> Result<(), String> {
    use input_tree::editing::{row_indices_edit::RowIndicesEdit, EditType};
    let d = e.get_row_indices_edit();
    let (insert, at, n) = match e {
        BasicEdit::Row(r) => (r.edit_type == EditType::Insert, r.position.offset.0, r.values.len()),
        BasicEdit::Grid(g) => (g.edit_type == EditType::Insert, g.row_or_column.0, if g.direction == GridDirection::Column { g.values.width() } else { g.values.height() }),
    };
    let want = if insert { (at, at + n) } else { (at + n, at) };
    if n > 0 { same("an insertion is one", d.is_insert(), insert)?; }
    match (d, e) {
        (RowIndicesEdit::RowIndexEdit { row_indices, old_offset, new_offset }, BasicEdit::Row(r)) => { same("the edited row", row_indices, &r.position.row_indices)?; same("where the elements move", (old_offset.0, new_offset.0), want) }
        (RowIndicesEdit::GridIndexEdit { element_indices, direction, old_offset, new_offset }, BasicEdit::Grid(g)) => { same("the edited table", (element_indices.row_indices.clone(), element_indices.index, direction == g.direction), (g.element_indices.row_indices.clone(), g.element_indices.index, true))?; same("where the lines move", (old_offset.0, new_offset.0), want) }
        _ => Err("a row edit is described as a table edit, or the other way around".into()),
    }
}
fn c03(cx: &mut Cx) {
    cx.rule = "tables in the fixed family and in random formulas: insert and delete 0..2 rows or columns at every line; compared with the same done on lists of lines; non-trivial: cells move".into();
    cx.trees(|cx, t| {
        for e in grid_edits_of(&mut cx.rng, t, 60) {
            cx.case(!e.cells.is_empty(), &(t, &e), || format!("formula {}; {}", show(t), show_grid_edit(&e)), || {
                let mut r = tree(t); r.apply_edit(&to_grid_edit(&e)); same_row("edited formula", &of_row(&r.root), &apply_grid(t, &e))?;
                described(&to_grid_edit(&e))
            });
        }
    });
    cx.case(true, &"resizable", || "the elements whose rows and columns can be edited".into(), || {
        let row = || InputRow::new(vec![InputNode::symbol("a")]);
        same("elements that can be resized", [InputNode::symbol("a"), InputNode::fraction([row(), row()]), InputNode::root([row(), row()]), InputNode::sup(row()), InputNode::sub(row()), InputNode::table(vec![row()], 1)].map(|n| n.has_resizable_grid()), [false, false, false, false, false, true])?;
        same("kinds that can be resized", [InputNodeVariant::Fraction, InputNodeVariant::Root, InputNodeVariant::Sup, InputNodeVariant::Sub, InputNodeVariant::Table].map(|n| n.has_resizable_grid()), [false, false, false, false, true])
    });
    // wider tables
    while !cx.over() || cx.evals < 300 {
        if cx.failed() { return; }
        let (w, h) = (1 + cx.rng.to(5), cx.rng.to(6));
        let t = vec![sym("a"), M::Cont(K::Table, w, (0..w * h).map(|i| vec![sym(&format!("{i}"))]).collect())];
        for e in grid_edits_of(&mut cx.rng, &t, 10) {
            cx.case(!e.cells.is_empty(), &(&t, &e), || format!("formula {}; {}", show(&t), show_grid_edit(&e)), || {
                let mut r = tree(&t); r.apply_edit(&to_grid_edit(&e)); same_row("edited formula", &of_row(&r.root), &apply_grid(&t, &e))
            });
        }
    }
}
fn c04(cx: &mut Cx) {
    cx.rule = "fixed family and random formulas, row edits, every stored range of every row (both directions) and every stored place; compared with a direct oracle and checked for validity in the edited formula; non-trivial: the place is in or below the edited row".into();
    cx.trees(|cx, t| {
        for e in edits_of(&mut cx.rng, t, 16) {
            let after = apply(t, &e); let be = to_edit(&e);
            cx.case(false, &(t, &e), || format!("formula {}; {}", show(t), show_edit(&e)), || described(&be));
            let mut rs: Vec<(Path, usize, usize)> = vec![];
            for p in paths(t) { let n = row_at(t, &p).unwrap().len(); for s in 0..=n { for x in 0..=n { rs.push((p.clone(), s, x)); } } }
            while rs.len() > 80 { let i = cx.rng.to(rs.len()); rs.swap_remove(i); }
            for (p, s, x) in rs {
                let want = follow(&e, &p, s, x);
                cx.case(p.starts_with(&e.at.0), &(t, &e, &p, s, x), || format!("formula {}; {}; stored range {:?} {}..{}", show(t), show_edit(&e), p, s, x), || {
                    let mut r = mrange(&p, s, x); r.apply_edit(&be); let got = of_mrange(&r);
                    same("stored range", got.clone(), want.clone())?;
                    check("the range is valid in the edited formula", valid(&after, &(got.0.clone(), got.1)) && valid(&after, &(got.0, got.2)))?;
                    if s == x {
                        let mut q = mpos(&(p.clone(), s)); q.apply_edit(&be); let got = of_mpos(&q);
                        same("stored place", got.clone(), (want.0.clone(), want.1))?;
                        check("the place is valid in the edited formula", valid(&after, &got))?;
                        let mut q = mpos(&(p.clone(), s)); q.apply_edits(&[be.clone()]); same("stored place (list of edits)", of_mpos(&q), (want.0.clone(), want.1))?;
                    }
                    Ok(())
                });
            }
        }
    });
}
fn c05(cx: &mut Cx) {
    cx.rule = "fixed family and random formulas, all pairs of places (capped at 900 per formula) against their order in a left-to-right walk; non-trivial: the places are in different rows".into();
    cx.trees(|cx, t| {
        let ps = places(t); let r = tree(t);
        let all = ps.len() * ps.len() <= 900;
        let n = if all { ps.len() * ps.len() } else { 900 };
        for c in 0..n {
            let (i, j) = if all { (c / ps.len(), c % ps.len()) } else { (cx.rng.to(ps.len()), cx.rng.to(ps.len())) };
            let (p, q) = (&ps[i], &ps[j]);
            cx.case(p.0 != q.0, &(t, p, q), || format!("formula {}; places {:?} and {:?}", show(t), p, q), || {
                let a = InputRowPosition::from_minimal(r.root_focus(), &mpos(p)); let b = InputRowPosition::from_minimal(r.root_focus(), &mpos(q));
                let want = i.cmp(&j);
                same("cmp", a.cmp(&b), want)?;
                same("partial_cmp", a.partial_cmp(&b), Some(want))?;
                same("cmp_indices_and_offset", RowIndices::cmp_indices_and_offset(&idx(&p.0), &Offset(p.1), &idx(&q.0), &Offset(q.1)), want)?;
                same("<", a < b, want == Ordering::Less)?; same("<=", a <= b, want != Ordering::Greater)?;
                same(">", a > b, want == Ordering::Greater)?; same(">=", a >= b, want != Ordering::Less)?;
                same("==", a == b, want == Ordering::Equal)
            });
        }
    });
}
fn covers(r: (&Path, usize, usize), p: &Pos) -> bool {
    let (rp, l, h) = r;
    if p.0 == *rp { return l <= p.1 && p.1 <= h; }
    if p.0.len() > rp.len() && p.0[..rp.len()] == rp[..] { let i = p.0[rp.len()].0; return l <= i && i < h; }
    false
}
fn c06(cx: &mut Cx) {
    cx.rule = "fixed family and random formulas, all pairs of places (capped at 900 per formula); brute force over the ranges of the deepest shared row; non-trivial: the places are in different rows".into();
    cx.trees(|cx, t| {
        let ps = places(t); let r = tree(t);
        let all = ps.len() * ps.len() <= 900;
        let n = if all { ps.len() * ps.len() } else { 900 };
        for c in 0..n {
            let (i, j) = if all { (c / ps.len(), c % ps.len()) } else { (cx.rng.to(ps.len()), cx.rng.to(ps.len())) };
            let (p, q) = (&ps[i], &ps[j]);
            cx.case(p.0 != q.0, &(t, p, q), || format!("formula {}; from {:?} to {:?}", show(t), p, q), || {
                let a = InputRowPosition::from_minimal(r.root_focus(), &mpos(p)); let b = InputRowPosition::from_minimal(r.root_focus(), &mpos(q));
                let g = of_mrange(&r.range_from_positions(&a, &b).to_minimal());
                let k = p.0.iter().zip(q.0.iter()).take_while(|(x, y)| x == y).count();
                let row: Path = p.0[..k].to_vec();
                let len = row_at(t, &row).unwrap().len();
                let mut best: Option<(usize, usize)> = None;
                for l in 0..=len { for h in l..=len { if covers((&row, l, h), p) && covers((&row, l, h), q) && best.map_or(true, |(bl, bh)| h - l < bh - bl) { best = Some((l, h)); } } }
                let (l, h) = best.unwrap();
                let want = if i <= j { (row.clone(), l, h) } else { (row.clone(), h, l) };
                same("range", g.clone(), want)?;
                if p.0 == q.0 {
                    same("range in one row", (g.1, g.2), (p.1, q.1))?;
                    let range = r.range_from_positions(&a, &b); let (lo, hi) = (i.min(j), i.max(j));
                    for (k, x) in ps.iter().enumerate().filter(|(k, _)| ps.len() < 40 || (*k + 3 >= lo && *k <= hi + 3)) {
                        same("the places in the range", range.contains(&InputRowPosition::from_minimal(r.root_focus(), &mpos(x))), lo <= k && k <= hi)?;
                    }
                }
                Ok(())
            });
        }
    });
}
fn c07(cx: &mut Cx) {
    cx.rule = "fixed family and random formulas, every range (both directions) and place with several inserted contents; the built edits are applied and compared with the model; non-trivial: something is removed or inserted".into();
    cx.trees(|cx, t| {
        let mut rs: Vec<(Path, usize, usize)> = vec![];
        for p in paths(t) { let n = row_at(t, &p).unwrap().len(); for s in 0..=n { for x in 0..=n { rs.push((p.clone(), s, x)); } } }
        while rs.len() > 40 { let i = cx.rng.to(rs.len()); rs.swap_remove(i); }
        for (p, s, x) in rs {
            let (l, h) = (s.min(x), s.max(x));
            let vals = match cx.rng.to(4) { 0 => vec![], 1 => vec![sym("n")], _ => rand_row(&mut cx.rng, 2, 3) };
            let old: Row = row_at(t, &p).unwrap()[l..h].to_vec();
            let del = apply(t, &ME { ins: false, at: (p.clone(), l), vals: old.clone() });
            let rep = apply(&del, &ME { ins: true, at: (p.clone(), l), vals: vals.clone() });
            let ins = apply(t, &ME { ins: true, at: (p.clone(), s), vals: vals.clone() });
            cx.case(l < h || !vals.is_empty(), &(t, &p, s, x, &vals), || format!("formula {}; range {:?} {}..{}; new elements {}", show(t), p, s, x, show(&vals)), || {
                let r = tree(t);
                let range = InputRowRange::from_minimal(r.root_focus(), &mrange(&p, s, x));
                let pos = InputRowPosition::from_minimal(r.root_focus(), &mpos(&(p.clone(), s)));
                let (e1, p1) = BasicEdit::remove_range(&range);
                let (e2, p2) = BasicEdit::insert_at_position(&pos, to_nodes(&vals));
                let (e3, p3) = BasicEdit::replace_range(&range, to_nodes(&vals));
                let mut a = tree(t); a.apply_edits(&e1); same_row("after removing", &of_row(&a.root), &del)?;
                same("place after removing", of_mpos(&p1), (p.clone(), l))?;
                let back: Vec<BasicEdit> = e1.iter().rev().map(|e| e.inverse()).collect();
                a.apply_edits(&back); same_row("removal undone (recorded elements)", &of_row(&a.root), t)?;
                let mut a = tree(t); a.apply_edits(&e2); same_row("after inserting", &of_row(&a.root), &ins)?;
                same("place after inserting", of_mpos(&p2), (p.clone(), s + vals.len()))?;
                let mut a = tree(t); a.apply_edits(&e3); same_row("after replacing", &of_row(&a.root), &rep)?;
                let g = of_mrange(&p3);
                same("range after replacing", (g.0, g.1.min(g.2), g.1.max(g.2)), (p.clone(), l, l + vals.len()))?;
                let back: Vec<BasicEdit> = e3.iter().rev().map(|e| e.inverse()).collect();
                a.apply_edits(&back); same_row("replacement undone (recorded elements)", &of_row(&a.root), t)
            });
        }
    });
}
fn c08(cx: &mut Cx) {
    cx.rule = "fixed family and random formulas, every row: down, up, addresses, stored forms, absent steps, refused places, equality of every pair of places; non-trivial: the row is not the root".into();
    cx.trees(|cx, t| {
        let r = tree(t);
        for p in paths(t) {
            let mrow = row_at(t, &p).unwrap();
            cx.case(!p.is_empty(), &(t, &p), || format!("formula {}; row {:?}", show(t), p), || {
                let f = r.root_focus().walk_down_indices(&idx(&p));
                same("address", of_idx(f.row_indices()), p.clone())?;
                same_row("row reached", &of_row(f.row()), mrow)?;
                same("length", (f.len(), f.is_empty()), (mrow.len(), mrow.is_empty()))?;
                same("index in parent", f.index_in_parent(), p.last().map(|x| x.1))?;
                // up
                match f.clone().parent() {
                    None => check("the root has no parent, other rows have one", p.is_empty())?,
                    Some(n) => {
                        check("the root has no parent", !p.is_empty())?;
                        let (e, c) = *p.last().unwrap(); let up: Path = p[..p.len() - 1].to_vec();
                        same("element above", (of_idx(&n.element_indices().row_indices), n.element_indices().index, n.index_in_parent()), (up.clone(), e, e))?;
                        same("element above (content)", of_node(n.node()), row_at(t, &up).unwrap()[e].clone())?;
                        let g = n.clone().parent();
                        same("address above", of_idx(g.row_indices()), up.clone())?;
                        same_row("row above", &of_row(g.row()), row_at(t, &up).unwrap())?;
                        check("equal to the row walked to", g == r.root_focus().walk_down_indices(&idx(&up)))?;
                        // and down again
                        let d = n.clone().child_at(c).map_err(|_| "the row it came from is absent".to_string())?;
                        same("down again", of_idx(d.row_indices()), p.clone())?;
                        same_row("down again (content)", &of_row(d.row()), mrow)?;
                        check("down again is the same place", d == f)?;
                        same("up from there", d.parent().map(|x| (of_idx(&x.element_indices().row_indices), x.index_in_parent())), Some((up.clone(), e)))?;
                        let d = g.clone().row_at((e, c)).ok_or("row_at is absent")?;
                        same("row_at", of_idx(d.row_indices()), p.clone())?;
                        check("grandparents are absent or right", match g.clone().parent() { None => up.is_empty(), Some(x) => !up.is_empty() && x.index_in_parent() == up[up.len() - 1].0 })?;
                    }
                }
                // down
                for i in 0..mrow.len() + 3 {
                    same("node_at", f.node_at(i).map(of_node), mrow.get(i).cloned())?;
                    match f.clone().child_at(i) {
                        None => check("elements in the row are present", i >= mrow.len())?,
                        Some(n) => {
                            check("elements outside the row are absent", i < mrow.len())?;
                            same("element", of_node(n.node()), mrow[i].clone())?;
                            same("element address", (of_idx(&n.element_indices().row_indices), n.index_in_parent()), (p.clone(), i))?;
                            let cells: Vec<Row> = match &mrow[i] { M::Cont(_, _, c) => c.clone(), _ => vec![] };
                            for c in 0..cells.len() + 3 {
                                let mut want = p.clone(); want.push((i, c));
                                match n.clone().child_at(c) {
                                    Ok(x) => { check("rows outside are absent", c < cells.len())?; same("child address", of_idx(x.row_indices()), want.clone())?; same_row("child row", &of_row(x.row()), &cells[c])?;
                                        let y = x.parent().ok_or("a child row has a parent")?; check("back at the element", y == n)?; same("back at the row", of_idx(y.parent().row_indices()), p.clone())?; }
                                    Err(x) => { check("rows inside are present", c >= cells.len())?; check("the element is given back", x == n)?; same("with its address", of_idx(&x.element_indices().row_indices), p.clone())?; }
                                }
                                same("row_at", f.clone().row_at((i, c)).map(|x| of_idx(x.row_indices())), if c < cells.len() { Some(want) } else { None })?;
                            }
                        }
                    }
                }
                // the element beside an offset
                for o in (0..mrow.len() + 3).chain([usize::MAX]) {
                    let left = o.checked_sub(1); let right = if o < mrow.len() { Some(o) } else { None };
                    let h = [HorizontalDirection::Left, HorizontalDirection::Right];
                    if o <= mrow.len() { same("element beside an offset", h.map(|d| f.offset_to_index(Offset(o), d)), [left, right])?; }
                    same("element right of an offset", (f.row().offset_to_index(Offset(o), h[1]), f.offset_to_index(Offset(o), h[1])), (right, right))?;
                }
                // stored forms
                for o in 0..=mrow.len() {
                    let a = InputRowPosition::from_minimal(r.root_focus(), &mpos(&(p.clone(), o)));
                    same("stored place", of_mpos(&a.to_minimal()), (p.clone(), o))?;
                    check("resolved again is the same place", InputRowPosition::from_minimal(r.root_focus(), &a.to_minimal()) == a)?;
                    for o2 in 0..=mrow.len() {
                        let b = InputRowRange::from_minimal(r.root_focus(), &mrange(&p, o, o2));
                        same("stored range", of_mrange(&b.to_minimal()), (p.clone(), o, o2))?;
                        check("resolved again is the same range", InputRowRange::from_minimal(r.root_focus(), &b.to_minimal()) == b)?;
                        same("left, right, length", (b.left_offset().0, b.right_offset().0, b.len(), b.is_forwards(), b.is_collapsed(), b.is_empty()), (o.min(o2), o.max(o2), o.max(o2) - o.min(o2), o <= o2, o == o2, o == o2))?;
                        same("values", of_nodes(b.values()), mrow[o.min(o2)..o.max(o2)].to_vec())?;
                        same("positions", [b.start_position(), b.end_position(), b.left_position(), b.right_position()].map(|x| of_mpos(&x.to_minimal())), [(p.clone(), o), (p.clone(), o2), (p.clone(), o.min(o2)), (p.clone(), o.max(o2))])?;
                    }
                    let c: InputRowRange = (&a).into();
                    same("collapsed range", of_mrange(&c.to_minimal()), (p.clone(), o, o))?;
                }
                // places that do not exist are refused
                for far in [mrow.len() + 1, mrow.len() + 2, usize::MAX] {
                    check("a position behind the end is refused", panics(|| InputRowPosition::new(f.clone(), Offset(far))) && panics(|| InputRowPosition::from_minimal(r.root_focus(), &mpos(&(p.clone(), far)))))?;
                    for near in [0, mrow.len(), far] {
                        check("a range behind the end is refused", panics(|| InputRowRange::new(f.clone(), Offset(near), Offset(far))) && panics(|| InputRowRange::new(f.clone(), Offset(far), Offset(near)))
                            && panics(|| InputRowRange::from_minimal(r.root_focus(), &mrange(&p, near, far))))?;
                    }
                }
                let mut wrong: Vec<Path> = vec![];
                for i in 0..mrow.len() + 2 { let n = match mrow.get(i) { Some(M::Cont(_, _, c)) => c.len(), _ => 0 }; for c in [n, n + 1, usize::MAX] { let mut q = p.clone(); q.push((i, c)); wrong.push(q); } }
                for q in wrong { check("an address that does not exist is refused", panics(|| r.root_focus().walk_down_indices(&idx(&q))) && panics(|| InputRowPosition::from_minimal(r.root_focus(), &mpos(&(q.clone(), 0)))))?; }
                // equal exactly when the addresses are
                for q in paths(t) {
                    let g = r.root_focus().walk_down_indices(&idx(&q)); let qlen = row_at(t, &q).unwrap().len();
                    same("two rows are equal exactly when their addresses are", f == g, p == q)?;
                    for (i, j) in (0..mrow.len().min(4)).flat_map(|i| (0..qlen.min(4)).map(move |j| (i, j))) {
                        same("two elements are equal exactly when their addresses are", f.clone().child_at(i) == g.clone().child_at(j), p == q && i == j)?;
                        same("two positions are equal exactly when their addresses are", InputRowPosition::new(f.clone(), Offset(i)) == InputRowPosition::new(g.clone(), Offset(j)), p == q && i == j)?;
                    }
                }
                for (i, n) in mrow.iter().enumerate() { if let M::Cont(_, w, c) = n { if !c.is_empty() {
                    let f2 = f.clone().child_at(i).unwrap(); let g = f2.node().grid().unwrap();
                    let rect = GridRectangle::from_indices_inclusive(Index2D::from_index(0, g), Index2D::from_index(c.len() - 1, g), g);
                    let a = InputGridRange::new(f2, rect); let m = a.to_minimal();
                    same("stored table range", (of_idx(&m.row_indices), m.index, m.range), (p.clone(), i, rect))?;
                    check("resolved again is the same table range", InputGridRange::from_minimal(r.root_focus(), &m) == a)?;
                    same("width of the table", a.grid().width(), *w)?;
                    for k in 0..c.len() + 2 { same("cell of the table", a.get_row(k).map(of_row), c.get(k).cloned())?; }
                } } }
                Ok(())
            });
        }
    });
}
fn c09(cx: &mut Cx) {
    cx.rule = "all grids up to 5x5 (and random ones up to 12x12), all cells, cells outside, steps inside and outside, cells of other widths, huge numbers; non-trivial: the grid has cells".into();
    let mut shapes: Vec<(usize, usize)> = (1..=5).flat_map(|w| (0..=5).map(move |h| (w, h))).collect();
    for _ in 0..40 { shapes.push((1 + cx.rng.to(12), cx.rng.to(13))); }
    for (w, h) in shapes {
        let mk = || GridVec::from_one_dimensional((0..w * h).collect::<Vec<usize>>(), w);
        cx.case(h > 0, &(w, h), || format!("grid {w}x{h}: size and listing"), || {
            let g = mk(); same("size", (g.width(), g.height(), g.size(), g.is_empty()), (w, h, (w, h), h == 0))?;
            same("values", g.values().cloned().collect::<Vec<_>>(), (0..w * h).collect())?;
            same("into_iter", g.into_iter().collect::<Vec<_>>(), (0..w * h).collect())?;
            for i in 0..w * h + 3 * w { let g = mk(); let xy = Index2D::from_index(i, &g); same("from_index", (xy.x, xy.y), (i % w, i / w))?; same("to_index", xy.to_index(), i)?;
                same("to_index_checked", xy.to_index_checked(&g), if i < w * h { Some(i) } else { None })?; same("pair", <(usize, usize)>::from(xy), (i % w, i / w))?; }
            Ok(())
        });
        let big = [usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1];
        for y in (0..h + 3).chain(big) { for x in (0..w + 3).chain(big) { for ww in [w, w + 1, 1] {
            let inside = x < w && y < h && ww == w;
            cx.case(inside, &(w, h, x, y, ww), || format!("grid {w}x{h}, cell ({x}, {y}) of a grid {ww} wide"), || {
                let mut g = mk(); let xy = Index2D::new(x, y, ww);
                same("get", g.get(xy).copied(), if inside { Some(y * w + x) } else { None })?;
                same("get_mut", g.get_mut(xy).copied(), if inside { Some(y * w + x) } else { None })?;
                same("to_index_checked", xy.to_index_checked(&g), if inside { Some(y * w + x) } else { None })?;
                same("set gives the old value", g.set(xy, 77777), if inside { Some(y * w + x) } else { None })?;
                let want: Vec<usize> = (0..w * h).map(|i| if inside && i == y * w + x { 77777 } else { i }).collect();
                same("only that cell is written", g.values().cloned().collect::<Vec<_>>(), want)?;
                same("shape is kept", g.size(), (w, h))?;
                for (dx, dy) in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (0, 3), (w, 0), (0, h), (usize::MAX, 0), (0, usize::MAX)] {
                    let add = x.checked_add(dx).zip(y.checked_add(dy)).filter(|(a, b)| ww == w && *a < w && *b < h);
                    let sub = x.checked_sub(dx).zip(y.checked_sub(dy)).filter(|(a, b)| ww == w && *a < w && *b < h);
                    same("add_checked", xy.add_checked((dx, dy), &g).map(|r| (r.x, r.y, r.to_index())), add.map(|(a, b)| (a, b, b * w + a)))?;
                    same("sub_checked", xy.sub_checked((dx, dy), &g).map(|r| (r.x, r.y, r.to_index())), sub.map(|(a, b)| (a, b, b * w + a)))?;
                }
                Ok(())
            });
            if cx.failed() { return; }
        } } }
    }
    cx.case(true, &"default", || "the default grid".into(), || {
        let g = GridVec::<usize>::default(); same("default", (g.width(), g.height(), g.is_empty()), (1, 0, true))?;
        for n in 0..20usize { for w in (0..24usize).chain([usize::MAX, usize::MAX / 2 + 1]) {
            let legal = w > 0 && n % w == 0;
            check("exactly the grids whose cells fill whole rows can be built", panics(|| GridVec::from_one_dimensional((0..n).collect::<Vec<_>>(), w)) != legal)?;
            check("the same for tables", panics(|| InputNode::table((0..n).map(|_| InputRow::default()).collect(), w)) != legal)?;
        } }
        Ok(())
    });
    cx.case(true, &"elements", || "the constructors of elements".into(), || {
        let row = |s: &str| InputRow::new(vec![InputNode::symbol(s)]);
        let of = |n: InputNode| match n { InputNode::Container(k, g) => Some((k, g.width(), g.height(), g.values().cloned().collect::<Vec<_>>())), InputNode::Symbol(_) => None };
        same("fraction", of(InputNode::fraction([row("a"), row("b")])), Some((InputNodeVariant::Fraction, 1, 2, vec![row("a"), row("b")])))?;
        same("root", of(InputNode::root([row("a"), row("b")])), Some((InputNodeVariant::Root, 2, 1, vec![row("a"), row("b")])))?;
        same("superscript", of(InputNode::sup(row("a"))), Some((InputNodeVariant::Sup, 1, 1, vec![row("a")])))?;
        same("subscript", of(InputNode::sub(row("a"))), Some((InputNodeVariant::Sub, 1, 1, vec![row("a")])))?;
        same("table", of(InputNode::table(vec![row("a"), row("b"), row("c"), row("d")], 2)), Some((InputNodeVariant::Table, 2, 2, vec![row("a"), row("b"), row("c"), row("d")])))
    });
}
fn c10(cx: &mut Cx) {
    cx.rule = "all pairs of cells in all grids up to 5x5, the view of the rectangle cell by cell; non-trivial: the corners differ in both coordinates".into();
    for w in 1..=5usize { for h in 1..=5usize { for a in 0..w * h { for b in 0..w * h {
        let (ax, ay, bx, by) = (a % w, a / w, b % w, b / w);
        let (x0, x1, y0, y1) = (ax.min(bx), ax.max(bx), ay.min(by), ay.max(by));
        cx.case(ax != bx && ay != by, &(w, h, a, b), || format!("grid {w}x{h}, from cell ({ax}, {ay}) to cell ({bx}, {by})"), || {
            let g = GridVec::from_one_dimensional((0..w * h).collect::<Vec<usize>>(), w);
            let r = GridRectangle::from_indices_inclusive(Index2D::new(ax, ay, w), Index2D::new(bx, by, w), &g);
            same("size", (r.width(), r.height(), r.size(), r.is_empty()), (x1 - x0 + 1, y1 - y0 + 1, (x1 - x0 + 1, y1 - y0 + 1), false))?;
            same("first corner", <(usize, usize)>::from(r.start_index()), (x0, y0))?;
            same("last corner", r.end_index_inclusive().map(<(usize, usize)>::from), Some((x1, y1)))?;
            same("order of the corners", GridRectangle::from_indices_inclusive(Index2D::new(bx, by, w), Index2D::new(ax, ay, w), &g), r)?;
            let v = g.get_view(r);
            same("view size", (v.size(), v.is_empty()), ((x1 - x0 + 1, y1 - y0 + 1), false))?;
            let vw = x1 - x0 + 1;
            for y in 0..h + 2 { for x in 0..w + 2 {
                let inside = x <= x1 - x0 && y <= y1 - y0;
                same("cell of the view", v.get(Index2D::new(x, y, vw)).copied(), if inside { Some((y0 + y) * w + x0 + x) } else { None })?;
                if w != vw { same("cell of another grid", v.get(Index2D::new(x, y, w)).copied(), None)?; }
            } }
            for i in 0..(x1 - x0 + 1) * (y1 - y0 + 1) { same("view by linear index", v.get(Index2D::from_index(i, &v)).copied(), Some((y0 + i / vw) * w + x0 + i % vw))?; }
            // as a selection in a formula
            let t = vec![sym("a"), M::Cont(K::Table, w, (0..w * h).map(|i| vec![sym(&i.to_string())]).collect())];
            let tr = tree(&t); let n = tr.root_focus().child_at(1).unwrap();
            let s = InputGridRange::new(n, r);
            same("selection corners", (s.top_left_index(), s.bottom_right_index(), s.is_collapsed()), ((x0, y0), Some((x1, y1)), false))
        });
        if cx.failed() { return; }
    } } } }
    for w in 1..=4usize { for s in 0..9usize { cx.case(false, &(w, s), || format!("the empty rectangle {s}..{s} in a grid {w} wide"), || {
        let r = GridRectangle::new(s..s, w); same("empty", (r.is_empty(), r.size(), r.end_index_inclusive().is_none()), (true, (0, 0), true))?;
        let g = GridVec::from_one_dimensional((0..w * 9).collect::<Vec<usize>>(), w); let v = g.get_view(r);
        for y in 0..3 { for x in 0..3 { for ww in 0..4 { same("nothing is in the view", v.get(Index2D::new(x, y, ww)).copied(), None)?; } } }
        Ok(())
    }); } }
}
/// reads the printed form back, as far as it is the form known here; only used to find a second formula with the same text
fn read(text: &str) -> Option<Row> {
    fn eat(c: &[char], i: &mut usize, w: &str) -> Option<()> { for x in w.chars() { if c.get(*i) != Some(&x) { return None; } *i += 1; } Some(()) }
    fn num(c: &[char], i: &mut usize) -> Option<usize> { let a = *i; while c.get(*i).map_or(false, |x| x.is_ascii_digit()) { *i += 1; } c[a..*i].iter().collect::<String>().parse().ok() }
    fn row(c: &[char], i: &mut usize, depth: usize) -> Option<Row> {
        if depth > 200 { return None; }
        eat(c, i, "(row")?; let mut r = vec![];
        while c.get(*i) == Some(&' ') { *i += 1; r.push(node(c, i, depth)?); }
        eat(c, i, ")")?; Some(r)
    }
    fn node(c: &[char], i: &mut usize, depth: usize) -> Option<M> {
        if c.get(*i) == Some(&'"') {
            *i += 1; let mut s = String::new();
            loop { match *c.get(*i)? { '"' => { *i += 1; return Some(M::Sym(s)); } '\\' => { *i += 1; s.push(*c.get(*i)?); *i += 1; } x => { s.push(x); *i += 1; } } }
        }
        for (w, k) in [("(frac ", K::Fraction), ("(root ", K::Root), ("(sup ", K::Sup), ("(sub ", K::Sub), ("(table ", K::Table)] {
            let mut j = *i;
            if eat(c, &mut j, w).is_some() {
                let w = num(c, &mut j)?; eat(c, &mut j, "x")?; let h = num(c, &mut j)?;
                if w == 0 || w.checked_mul(h)? > 5000 || !shape(k, w, w * h) { return None; }
                let mut v = vec![]; for _ in 0..w * h { eat(c, &mut j, " ")?; v.push(row(c, &mut j, depth + 1)?); }
                eat(c, &mut j, ")")?; *i = j; return Some(M::Cont(k, w, v));
            }
        }
        None
    }
    let c: Vec<char> = text.chars().collect(); let mut i = 0;
    let r = row(&c, &mut i, 0)?; if i == c.len() { Some(r) } else { None }
}
fn shape(k: K, w: usize, n: usize) -> bool { match k { K::Fraction => (w, n) == (1, 2), K::Root => (w, n) == (2, 2), K::Sup | K::Sub => (w, n) == (1, 1), K::Table => w > 0 && n % w == 0 } }
/// a formula that differs a little
fn mutate(rng: &mut Rng, t: &Row) -> Row {
    let mut t = t.clone();
    let ps = paths(&t); let p = rng.pick(&ps).clone();
    let els: Vec<(Path, usize)> = elements(&t);
    let extra = rand_sym(rng);
    match rng.to(8) {
        0 => { let r = row_at_mut(&mut t, &p).unwrap(); let i = rng.to(r.len() + 1); r.insert(i, extra); }
        1 => { let r = row_at_mut(&mut t, &p).unwrap(); if !r.is_empty() { let i = rng.to(r.len()); r.remove(i); } }
        2 => { let q = rng.pick(&ps).clone(); let r = row_at_mut(&mut t, &p).unwrap(); if let Some(x) = r.pop() { match row_at_mut(&mut t, &q) { Some(r) => r.insert(0, x), None => () } } }
        3 => { let r = row_at_mut(&mut t, &p).unwrap(); if r.len() > 1 { if let (M::Sym(a), M::Sym(b)) = (r[0].clone(), r[1].clone()) { r.remove(0); r[0] = M::Sym(match rng.to(3) { 0 => format!("{a}{b}"), 1 => format!("{a} {b}"), _ => format!("{a}\" \"{b}") }); } } }
        _ => if !els.is_empty() {
            let (p, i) = rng.pick(&els).clone(); let odd = match extra { M::Sym(s) => s, _ => String::new() };
            match &mut row_at_mut(&mut t, &p).unwrap()[i] {
                M::Sym(s) => { let mut c: Vec<char> = s.chars().collect(); let j = rng.to(c.len() + 1);
                    match rng.to(4) { 0 if j < c.len() => { c.remove(j); } 1 if j < c.len() => { c[j] = odd.chars().next().unwrap_or('q'); } 2 => { c.insert(j, '\\'); } _ => { let o: Vec<char> = odd.chars().collect(); c.splice(j..j, o); } }
                    *s = c.into_iter().collect(); }
                M::Cont(k, w, cells) => match rng.to(4) {
                    0 => { *k = match *k { K::Sup => K::Sub, K::Sub => K::Sup, K::Table if (*w, cells.len()) == (1, 1) => K::Sup, K::Fraction => K::Table, K::Root => K::Table, k => k } }
                    1 => if *k == K::Table { let n = cells.len(); for d in 1..=n.max(1) + 1 { let d = (*w + d) % (n + 2); if d > 0 && d != *w && n % d == 0 { *w = d; break; } } }
                    2 => if cells.len() > 1 { let (a, b) = (rng.to(cells.len()), rng.to(cells.len())); cells.swap(a, b); }
                    _ => if *k == K::Table { let n = *w; cells.extend((0..n).map(|_| vec![])); }
                }
            }
        }
    }
    t
}
fn c11(cx: &mut Cx) {
    cx.rule = "fixed family, random formulas and all short rows over awkward symbols; no text twice among all of them, against slightly changed formulas and against the formula the text reads back as; non-trivial: a symbol needs escaping or there is a container".into();
    let mut texts: std::collections::HashMap<String, Row> = Default::default();
    fn print(t: &Row) -> Option<String> { let r = to_row(t); std::panic::catch_unwind(move || r.to_string()).ok() }
    let mut one = |cx: &mut Cx, t: &Row| {
        let got = cx.case(sizes(t) || t.iter().any(|n| matches!(n, M::Sym(s) if s.contains('"') || s.contains('\\'))), t, || format!("formula {}", show(t)), || {
            let s = to_row(t).to_string();
            same("printed again", to_row(t).to_string(), s.clone())?;
            Ok(s)
        });
        let Some(s) = got else { return };
        let mut others = vec![];
        if let Some(o) = read(&s) { if o != *t { others.push(o); } }
        if texts.len() < 400_000 { let old = texts.entry(s.clone()).or_insert_with(|| t.clone()).clone(); if old != *t { others.push(old); } }
        for _ in 0..2 { let o = mutate(&mut cx.rng, t); if o != *t { others.push(o); } }
        for o in others { cx.case(false, &0, || format!("formulas {} and {}", show(t), show(&o)), || check(&format!("both print {s}"), print(&o).as_ref() != Some(&s))); }
        // an element prints as it does inside a row
        for n in t.iter().take(2) {
            let m = mutate(&mut cx.rng, &vec![n.clone()]);
            if let [o] = &m[..] { if o != n { cx.case(false, &0, || format!("elements {} and {}", show(&vec![n.clone()]), show(&m)), || check("both print the same", to_node(n).to_string() != to_node(o).to_string())); } }
        }
    };
    let bits = ["", "a", "\"", "\\", " ", "\\\"", "\" \"", "(row)", ") (", "\\\\", "\"\\", "x\"", "\\x", "1x1", "é"];
    for a in bits { one(cx, &vec![sym(a)]); for b in bits { one(cx, &vec![sym(a), sym(b)]); for c in bits { one(cx, &vec![sym(a), sym(b), sym(c)]); }
        for k in [K::Sup, K::Sub, K::Table] { one(cx, &vec![M::Cont(k, 1, vec![vec![sym(a), sym(b)]])]); one(cx, &vec![M::Cont(k, 1, vec![vec![sym(a)]]), sym(b)]); } } }
    for w in [1, 2, 3, 9, 10, 11, 99, 100, 101, 120] { for h in [0usize, 1, 2, 10, 11] { one(cx, &vec![M::Cont(K::Table, w, vec![vec![]; w * h])]); } }
    for c in (0..0x3000u32).chain([0xfeff, 0xfffd, 0x1d4b3, 0x1f600]).filter_map(char::from_u32) { one(cx, &vec![M::Sym(c.to_string())]); one(cx, &vec![M::Sym(format!("a{c}"))]); one(cx, &vec![M::Sym(format!("{c}a"))]); }
    cx.trees(|cx, t| one(cx, t));
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, secs) = (a[1].as_str(), a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1u64), a.get(3).and_then(|s| s.parse().ok()).unwrap_or(5.0f64));
    quiet_panics();
    let mut cx = Cx::new(prop, seed, secs);
    match prop {
        "C01" => c01(&mut cx), "C02" => c02(&mut cx), "C03" => c03(&mut cx), "C04" => c04(&mut cx), "C05" => c05(&mut cx), "C06" => c06(&mut cx),
        "C07" => c07(&mut cx), "C08" => c08(&mut cx), "C09" => c09(&mut cx), "C10" => c10(&mut cx), "C11" => c11(&mut cx),
        _ => { eprintln!("unknown property"); std::process::exit(2) }
    }
    cx.finish()
}
