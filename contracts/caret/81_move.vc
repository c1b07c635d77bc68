%% primitive/movement.rs: moving the caret (C13, C14)
%derived PartialEq MoveMode
    *self == *other
%spec primitive::movement
use crate::row::{doc_cmp, RowIndex, InputRow};
use core::cmp::Ordering;
/// how many rows the element with that index has
pub open spec fn cells_at(r: SRow, i: int) -> Seq<SRow> {
    match r.values[i] { SNode::Cont(_, cells, _) => cells, SNode::Sym(_) => Seq::empty() }
}
/// what the property asks for: the next and the previous place of the formula in reading order
pub open spec fn is_next(r: SRow, p: Seq<RowIndex>, o: int, to: Option<(Seq<RowIndex>, int)>) -> bool {
    match to {
        Some((q, u)) => {
            &&& valid_pos(r, q, u)
            &&& doc_cmp(p, o, q, u) == Ordering::Less
            &&& forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) && #[trigger] doc_cmp(p, o, x, y) == Ordering::Less ==> doc_cmp(q, u, x, y) != Ordering::Greater
        }
        None => forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) ==> #[trigger] doc_cmp(p, o, x, y) != Ordering::Less,
    }
}
pub open spec fn is_prev(r: SRow, p: Seq<RowIndex>, o: int, to: Option<(Seq<RowIndex>, int)>) -> bool {
    match to {
        Some((q, u)) => {
            &&& valid_pos(r, q, u)
            &&& doc_cmp(q, u, p, o) == Ordering::Less
            &&& forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) && #[trigger] doc_cmp(x, y, p, o) == Ordering::Less ==> doc_cmp(x, y, q, u) != Ordering::Greater
        }
        None => forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) ==> #[trigger] doc_cmp(x, y, p, o) != Ordering::Less,
    }
}
/// there is only one such place
pub proof fn c13_unique(r: SRow, p: Seq<RowIndex>, o: int, a: Option<(Seq<RowIndex>, int)>, b: Option<(Seq<RowIndex>, int)>)
    ensures
        is_next(r, p, o, a) && is_next(r, p, o, b) ==> a == b,
        is_prev(r, p, o, a) && is_prev(r, p, o, b) ==> a == b,
{
    if a is Some && b is Some {
        let (q, u) = a->Some_0; let (x, y) = b->Some_0;
        crate::row::c05_antisymmetric(q, u, x, y);
    }
}
/// one step right or left, computed from the address
pub open spec fn right_of(r: SRow, p: Seq<RowIndex>, o: int) -> Option<(Seq<RowIndex>, int)> decreases p.len() {
    if p.len() == 0 {
        if o < r.values.len() {
            if cells_at(r, o).len() > 0 { Some((seq![RowIndex(o as usize, 0)], 0)) } else { Some((p, o + 1)) }
        } else { None }
    } else {
        match right_of(step(r, p[0]), p.skip(1), o) {
            Some((q, u)) => Some((seq![p[0]] + q, u)),
            None => if p[0].1 + 1 < cells_at(r, p[0].0 as int).len() { Some((seq![RowIndex(p[0].0, (p[0].1 + 1) as usize)], 0)) } else { Some((Seq::empty(), p[0].0 + 1)) },
        }
    }
}
pub open spec fn left_of(r: SRow, p: Seq<RowIndex>, o: int) -> Option<(Seq<RowIndex>, int)> decreases p.len() {
    if p.len() == 0 {
        if o > 0 {
            let n = cells_at(r, o - 1).len();
            if n > 0 { Some((seq![RowIndex((o - 1) as usize, (n - 1) as usize)], cells_at(r, o - 1)[n - 1].values.len() as int)) } else { Some((p, o - 1)) }
        } else { None }
    } else {
        match left_of(step(r, p[0]), p.skip(1), o) {
            Some((q, u)) => Some((seq![p[0]] + q, u)),
            None => if p[0].1 > 0 { Some((seq![RowIndex(p[0].0, (p[0].1 - 1) as usize)], cells_at(r, p[0].0 as int)[p[0].1 - 1].values.len() as int)) } else { Some((Seq::empty(), p[0].0 as int)) },
        }
    }
}
/// rows and tables in memory have at most usize::MAX elements
pub open spec fn mem_ok(r: SRow) -> bool decreases r {
    r.values.len() <= usize::MAX && forall|i: int| 0 <= i < r.values.len() ==> mem_node(#[trigger] r.values[i])
}
pub open spec fn mem_node(n: SNode) -> bool decreases n {
    match n { SNode::Sym(_) => true, SNode::Cont(_, cells, _) => cells.len() <= usize::MAX && forall|i: int| 0 <= i < cells.len() ==> mem_ok(#[trigger] cells[i]) }
}
pub proof fn lemma_mem_ok(r: InputRow)
    ensures mem_ok(r.sv()),
    decreases r
{
    crate::vx::lemma_vec_len(&r.values);
    assert forall|i: int| 0 <= i < r.sv().values.len() implies mem_node(#[trigger] r.sv().values[i]) by {
        assert(r.sv().values[i] == r.values@[i].sv());
        if let InputNode::Container(k, g) = r.values@[i] {
            crate::vx::lemma_vec_len(&g.values);
            assert forall|j: int| 0 <= j < g.sv_cells().len() implies mem_ok(#[trigger] g.sv_cells()[j]) by { lemma_mem_ok(g.values@[j]); assert(g.sv_cells()[j] == g.values@[j].sv()); }
            assert(g.sv_cells().len() == g.values@.len());
            assert(r.sv().values[i] == SNode::Cont(k, g.sv_cells(), g.width as int));
        }
    }
}
/// C13: one step right is the next place in reading order
pub proof fn c13_right(r: SRow, p: Seq<RowIndex>, o: int)
    requires valid_pos(r, p, o), mem_ok(r),
    ensures is_next(r, p, o, right_of(r, p, o)),
    decreases p.len()
{
    let to = right_of(r, p, o);
    if p.len() == 0 {
        if o < r.values.len() {
            assert(mem_node(r.values[o]));
            if cells_at(r, o).len() > 0 {
                let q = to->Some_0.0;
                assert(q.skip(1) =~= Seq::empty());
                assert(valid_step(r, q[0]));
                assert(valid_path(step(r, q[0]), q.skip(1)));
                assert(valid_path(r, q));
                assert(at_path(r, q) == at_path(step(r, q[0]), q.skip(1)));
                assert forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) && #[trigger] doc_cmp(p, o, x, y) == Ordering::Less implies doc_cmp(q, 0, x, y) != Ordering::Greater by {
                    if x.len() > 0 && x[0] == q[0] { assert(doc_cmp(q, 0, x, y) == doc_cmp(q.skip(1), 0, x.skip(1), y)); assert(valid_pos(step(r, x[0]), x.skip(1), y)); }
                }
            } else {
                assert forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) && #[trigger] doc_cmp(p, o, x, y) == Ordering::Less implies doc_cmp(p, o + 1, x, y) != Ordering::Greater by {
                    if x.len() > 0 { assert(valid_step(r, x[0])); assert(x[0].0 != o); }
                }
            }
        } else {
            assert forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) implies #[trigger] doc_cmp(p, o, x, y) != Ordering::Less by {
                if x.len() > 0 { assert(valid_step(r, x[0])); }
            }
        }
    } else {
        let s = step(r, p[0]); let p1 = p.skip(1);
        assert(valid_step(r, p[0]));
        assert(mem_node(r.values[p[0].0 as int]));
        assert(s == cells_at(r, p[0].0 as int)[p[0].1 as int]);
        assert(mem_ok(s));
        c13_right(s, p1, o);
        match right_of(s, p1, o) {
            Some((q1, u)) => {
                let q = seq![p[0]] + q1;
                assert(q.skip(1) =~= q1); assert(q[0] == p[0]);
                assert forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) && #[trigger] doc_cmp(p, o, x, y) == Ordering::Less implies doc_cmp(q, u, x, y) != Ordering::Greater by {
                    if x.len() > 0 && x[0] == p[0] { assert(valid_pos(s, x.skip(1), y)); assert(doc_cmp(p1, o, x.skip(1), y) == Ordering::Less); }
                }
            }
            None => {
                let c = cells_at(r, p[0].0 as int);
                if p[0].1 + 1 < c.len() {
                    let q = to->Some_0.0;
                    assert(q.skip(1) =~= Seq::empty());
                    assert(valid_step(r, q[0]));
                    assert(valid_path(step(r, q[0]), q.skip(1)));
                    assert forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) && #[trigger] doc_cmp(p, o, x, y) == Ordering::Less implies doc_cmp(q, 0, x, y) != Ordering::Greater by {
                        if x.len() > 0 { assert(valid_step(r, x[0])); assert(valid_pos(step(r, x[0]), x.skip(1), y)); if x[0] == p[0] { assert(doc_cmp(p1, o, x.skip(1), y) == Ordering::Less); } }
                        if x.len() > 0 && x[0] == q[0] { assert(doc_cmp(q, 0, x, y) == doc_cmp(q.skip(1), 0, x.skip(1), y)); }
                    }
                } else {
                    let q = Seq::<RowIndex>::empty(); let u = p[0].0 + 1;
                    assert forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) && #[trigger] doc_cmp(p, o, x, y) == Ordering::Less implies doc_cmp(q, u, x, y) != Ordering::Greater by {
                        if x.len() > 0 { assert(valid_step(r, x[0])); assert(valid_pos(step(r, x[0]), x.skip(1), y)); if x[0] == p[0] { assert(doc_cmp(p1, o, x.skip(1), y) == Ordering::Less); } }
                    }
                }
            }
        }
    }
}
/// C13: one step left is the previous place in reading order
pub proof fn c13_left(r: SRow, p: Seq<RowIndex>, o: int)
    requires valid_pos(r, p, o), mem_ok(r),
    ensures is_prev(r, p, o, left_of(r, p, o)),
    decreases p.len()
{
    let to = left_of(r, p, o);
    if p.len() == 0 {
        if o > 0 {
            assert(mem_node(r.values[o - 1]));
            let c = cells_at(r, o - 1);
            if c.len() > 0 {
                let q = to->Some_0.0; let u = to->Some_0.1;
                assert(q.skip(1) =~= Seq::empty());
                assert(valid_step(r, q[0]));
                assert(valid_path(step(r, q[0]), q.skip(1)));
                assert(at_path(r, q) == at_path(step(r, q[0]), q.skip(1)));
                assert forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) && #[trigger] doc_cmp(x, y, p, o) == Ordering::Less implies doc_cmp(x, y, q, u) != Ordering::Greater by {
                    if x.len() > 0 { assert(valid_step(r, x[0])); assert(valid_pos(step(r, x[0]), x.skip(1), y)); }
                    if x.len() > 0 && x[0] == q[0] {
                        assert(doc_cmp(x, y, q, u) == doc_cmp(x.skip(1), y, q.skip(1), u));
                        if x.skip(1).len() > 0 { assert(valid_step(step(r, x[0]), x.skip(1)[0])); }
                    }
                }
            } else {
                assert forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) && #[trigger] doc_cmp(x, y, p, o) == Ordering::Less implies doc_cmp(x, y, p, o - 1) != Ordering::Greater by {
                    if x.len() > 0 { assert(valid_step(r, x[0])); assert(x[0].0 != o - 1); }
                }
            }
        } else {
            assert forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) implies #[trigger] doc_cmp(x, y, p, o) != Ordering::Less by {
                if x.len() > 0 { assert(valid_step(r, x[0])); }
            }
        }
    } else {
        let s = step(r, p[0]); let p1 = p.skip(1);
        assert(valid_step(r, p[0]));
        assert(mem_node(r.values[p[0].0 as int]));
        let c = cells_at(r, p[0].0 as int);
        assert(s == c[p[0].1 as int]);
        assert(mem_ok(s));
        c13_left(s, p1, o);
        match left_of(s, p1, o) {
            Some((q1, u)) => {
                let q = seq![p[0]] + q1;
                assert(q.skip(1) =~= q1); assert(q[0] == p[0]);
                assert forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) && #[trigger] doc_cmp(x, y, p, o) == Ordering::Less implies doc_cmp(x, y, q, u) != Ordering::Greater by {
                    if x.len() > 0 && x[0] == p[0] { assert(valid_pos(s, x.skip(1), y)); assert(doc_cmp(x.skip(1), y, p1, o) == Ordering::Less); }
                }
            }
            None => {
                if p[0].1 > 0 {
                    let q = to->Some_0.0; let u = to->Some_0.1;
                    assert(q.skip(1) =~= Seq::empty());
                    assert(valid_step(r, q[0]));
                    assert(valid_path(step(r, q[0]), q.skip(1)));
                    assert(at_path(r, q) == at_path(step(r, q[0]), q.skip(1)));
                    assert(step(r, q[0]) == c[p[0].1 - 1]);
                    assert(valid_pos(r, q, u));
                    assert forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) && #[trigger] doc_cmp(x, y, p, o) == Ordering::Less implies doc_cmp(x, y, q, u) != Ordering::Greater by {
                        if x.len() > 0 { assert(valid_step(r, x[0])); assert(valid_pos(step(r, x[0]), x.skip(1), y)); if x[0] == p[0] { assert(doc_cmp(x.skip(1), y, p1, o) == Ordering::Less); } }
                        if x.len() > 0 && x[0] == q[0] {
                            assert(doc_cmp(x, y, q, u) == doc_cmp(x.skip(1), y, q.skip(1), u));
                            if x.skip(1).len() > 0 { assert(valid_step(step(r, x[0]), x.skip(1)[0])); }
                        }
                    }
                } else {
                    let q = Seq::<RowIndex>::empty(); let u = p[0].0 as int;
                    assert forall|x: Seq<RowIndex>, y: int| valid_pos(r, x, y) && #[trigger] doc_cmp(x, y, p, o) == Ordering::Less implies doc_cmp(x, y, q, u) != Ordering::Greater by {
                        if x.len() > 0 { assert(valid_step(r, x[0])); assert(valid_pos(step(r, x[0]), x.skip(1), y)); if x[0] == p[0] { assert(doc_cmp(x.skip(1), y, p1, o) == Ordering::Less); } }
                    }
                }
            }
        }
    }
}
/// the step, seen from the row the caret is in
pub proof fn lemma_right_of(r: SRow, p: Seq<RowIndex>, o: int)
    requires valid_pos(r, p, o),
    ensures
        o < at_path(r, p).values.len() ==> right_of(r, p, o) == (if cells_at(at_path(r, p), o).len() > 0 { Some((p.push(RowIndex(o as usize, 0)), 0int)) } else { Some((p, o + 1)) }),
        o == at_path(r, p).values.len() ==> right_of(r, p, o) == (if p.len() == 0 { None } else {
            let ix = p.last();
            if ix.1 + 1 < cells_at(at_path(r, p.drop_last()), ix.0 as int).len() { Some((p.drop_last().push(RowIndex(ix.0, (ix.1 + 1) as usize)), 0int)) } else { Some((p.drop_last(), ix.0 + 1)) }
        }),
    decreases p.len()
{
    if p.len() == 0 {
        assert(p.push(RowIndex(o as usize, 0)) =~= seq![RowIndex(o as usize, 0)]);
        assert(at_path(r, p) == r);
    } else {
        let s = step(r, p[0]); let p1 = p.skip(1);
        lemma_right_of(s, p1, o);
        assert(at_path(r, p) == at_path(s, p1));
        assert(seq![p[0]] + p1 =~= p);
        assert(seq![p[0]] + p1.push(RowIndex(o as usize, 0)) =~= p.push(RowIndex(o as usize, 0)));
        let ix = p.last(); let nx = RowIndex(ix.0, (ix.1 + 1) as usize);
        if p1.len() == 0 {
            assert(p.drop_last() =~= Seq::<RowIndex>::empty());
            assert(p.drop_last().push(nx) =~= seq![nx]);
            assert(at_path(r, p.drop_last()) == r);
        } else {
            assert(p.drop_last() =~= seq![p[0]] + p1.drop_last());
            assert(p.drop_last().skip(1) =~= p1.drop_last());
            assert(p.drop_last()[0] == p[0]);
            assert(p1.last() == p.last());
            assert(p.drop_last().push(nx) =~= seq![p[0]] + p1.drop_last().push(nx));
        }
    }
}
pub proof fn lemma_left_of(r: SRow, p: Seq<RowIndex>, o: int)
    requires valid_pos(r, p, o),
    ensures
        o > 0 ==> left_of(r, p, o) == ({ let c = cells_at(at_path(r, p), o - 1); if c.len() > 0 { Some((p.push(RowIndex((o - 1) as usize, (c.len() - 1) as usize)), c[c.len() - 1].values.len() as int)) } else { Some((p, o - 1)) } }),
        o == 0 ==> left_of(r, p, o) == (if p.len() == 0 { None } else {
            let ix = p.last();
            if ix.1 > 0 { Some((p.drop_last().push(RowIndex(ix.0, (ix.1 - 1) as usize)), cells_at(at_path(r, p.drop_last()), ix.0 as int)[ix.1 - 1].values.len() as int)) } else { Some((p.drop_last(), ix.0 as int)) }
        }),
    decreases p.len()
{
    let c = cells_at(at_path(r, p), o - 1);
    let lx = RowIndex((o - 1) as usize, (c.len() - 1) as usize);
    if p.len() == 0 {
        assert(p.push(lx) =~= seq![lx]);
        assert(at_path(r, p) == r);
    } else {
        let s = step(r, p[0]); let p1 = p.skip(1);
        lemma_left_of(s, p1, o);
        assert(at_path(r, p) == at_path(s, p1));
        assert(seq![p[0]] + p1 =~= p);
        assert(seq![p[0]] + p1.push(lx) =~= p.push(lx));
        let ix = p.last(); let nx = RowIndex(ix.0, (ix.1 - 1) as usize);
        if p1.len() == 0 {
            assert(p.drop_last() =~= Seq::<RowIndex>::empty());
            assert(p.drop_last().push(nx) =~= seq![nx]);
            assert(at_path(r, p.drop_last()) == r);
        } else {
            assert(p.drop_last() =~= seq![p[0]] + p1.drop_last());
            assert(p.drop_last().skip(1) =~= p1.drop_last());
            assert(p.drop_last()[0] == p[0]);
            assert(p1.last() == p.last());
            assert(p.drop_last().push(nx) =~= seq![p[0]] + p1.drop_last().push(nx));
        }
    }
}
/// stepping one row of cells up or down
pub proof fn lemma_rows(i: int, w: int, n: int)
    requires w > 0, 0 <= i < n, n % w == 0,
    ensures
        i / w >= 1 <==> i >= w, i >= w ==> (i / w - 1) * w + i % w == i - w,
        i / w + 1 < n / w <==> i + w < n, (i / w + 1) * w + i % w == i + w,
        i / w < n / w,
{
    crate::grid::index2d::lemma_roundtrip_index(i, w);
    crate::grid::index2d::lemma_roundtrip_index(n, w);
    let y = i / w; let x = i % w; let h = n / w;
    assert((y - 1) * w == y * w - w && (y + 1) * w == y * w + w) by (nonlinear_arith);
    assert(y >= 1 <==> i >= w) by (nonlinear_arith) requires y * w + x == i, 0 <= x < w, y >= 0;
    assert(y + 1 < h <==> i + w < n) by (nonlinear_arith) requires y * w + x == i, 0 <= x < w, y >= 0, h * w == n;
    assert(y < h) by (nonlinear_arith) requires y * w + x == i, 0 <= x < w, y >= 0, h * w == n, i < n;
}
/// the row the caret is in is a cell of the container around it
pub proof fn lemma_in_parent(f: crate::focus::InputFocusRow<'_>)
    requires f.wf(), f.p().len() > 0,
    ensures f.p().last().1 < usize::MAX, ({
        let ix = f.p().last();
        valid_path(f.sroot(), f.p().drop_last()) && ix.0 < at_path(f.sroot(), f.p().drop_last()).values.len() &&
        (at_path(f.sroot(), f.p().drop_last()).values[ix.0 as int] matches SNode::Cont(_, cells, w) && ix.1 < cells.len() <= usize::MAX && w > 0 && cells.len() as int % w == 0)
    }),
{
    let b = f.parent->Some_0;
    crate::focus::lemma_chain(*b.parent.row, b.parent.parent, f.p().drop_last());
    lemma_ok_at(f.sroot(), f.p().drop_last());
    assert(b.parent.row.sv().values[b.index_in_parent as int] == b.parent.row.values@[b.index_in_parent as int].sv());
    if let InputNode::Container(_, g) = *b.node { crate::vx::lemma_vec_len(&g.values); assert(g.sv_cells().len() == g.values@.len()); assert(ok_node(b.parent.row.sv().values[b.index_in_parent as int])); }
}
/// a place, or none
pub open spec fn place(x: Option<InputRowPosition<'_>>) -> Option<(Seq<RowIndex>, int)> { match x { Some(v) => Some((v.p(), v.o())), None => None } }
/// if there is one, it is a place of the same formula
pub open spec fn ok_place(x: Option<InputRowPosition<'_>>, root: InputRow) -> bool { x matches Some(v) ==> v.wf() && v.root() == root }
/// C14: up or down from the place
pub open spec fn vert_of(r: SRow, p: Seq<RowIndex>, d: VerticalDirection) -> Option<(Seq<RowIndex>, int)> decreases p.len() {
    if p.len() == 0 { None } else {
        let ix = p.last(); let up = p.drop_last();
        match at_path(r, up).values[ix.0 as int] {
            SNode::Sym(_) => None,
            SNode::Cont(k, cells, w) => {
                // out of a subscript downwards, out of a superscript upwards: directly in front of it
                if (k == InputNodeVariant::Sub && d == VerticalDirection::Down) || (k == InputNodeVariant::Sup && d == VerticalDirection::Up) { Some((up, ix.0 as int)) }
                // the cell directly above, at its end; the cell directly below, at its start
                else if d == VerticalDirection::Up && ix.1 >= w { Some((up.push(RowIndex(ix.0, (ix.1 - w) as usize)), cells[ix.1 - w].values.len() as int)) }
                else if d == VerticalDirection::Down && ix.1 + w < cells.len() { Some((up.push(RowIndex(ix.0, (ix.1 + w) as usize)), 0)) }
                // otherwise the next container around it
                else { vert_of(r, up, d) }
            }
        }
    }
}
/// where a movement in that direction leads
pub open spec fn moved(r: SRow, p: Seq<RowIndex>, o: int, d: Direction) -> Option<(Seq<RowIndex>, int)> {
    match d {
        Direction::Left => left_of(r, p, o),
        Direction::Right => right_of(r, p, o),
        Direction::Up => vert_of(r, p, VerticalDirection::Up),
        Direction::Down => vert_of(r, p, VerticalDirection::Down),
    }
}
%fn <NavigationSettings as Default>::default() -> r
%fn NavigationSettings::new() -> r
%fn NavigationSettings::move_horizontal_into(self, caret, direction) -> r
%requires
    caret.wf(),
%ensures
    ok_place(r, caret.root()),
    direction == HorizontalDirection::Right ==> (r is Some <==> caret.o() < caret.row_focus.row.values@.len()) && (r is Some ==> place(r) == right_of(caret.sroot(), caret.p(), caret.o())),
    direction == HorizontalDirection::Left ==> (r is Some <==> caret.o() > 0) && (r is Some ==> place(r) == left_of(caret.sroot(), caret.p(), caret.o())),
%start
    broadcast use crate::focus::c08_address, crate::focus::lemma_row_grid_wf;
    proof {
        crate::focus::row_position::c08_valid(*caret);
        lemma_right_of(caret.sroot(), caret.p(), caret.o()); lemma_left_of(caret.sroot(), caret.p(), caret.o());
        let v = caret.row_focus.row.values@;
        if caret.o() > 0 { if let InputNode::Container(_, g) = v[caret.o() - 1] { g.lemma_grid(); assert(g.wf()); } }
        if caret.o() < v.len() { if let InputNode::Container(_, g) = v[caret.o()] { g.lemma_grid(); } }
    }
%fn NavigationSettings::move_horizontal_beyond_edge(self, caret, direction) -> r
%requires
    caret.wf(),
    // at the very edge
    direction == HorizontalDirection::Right ==> caret.o() == caret.row_focus.row.values@.len(),
    direction == HorizontalDirection::Left ==> caret.o() == 0,
%ensures
    ok_place(r, caret.root()),
    direction == HorizontalDirection::Right ==> place(r) == right_of(caret.sroot(), caret.p(), caret.o()),
    direction == HorizontalDirection::Left ==> place(r) == left_of(caret.sroot(), caret.p(), caret.o()),
%start
    broadcast use crate::focus::c08_address, crate::focus::lemma_row_grid_wf;
    proof {
        crate::focus::row_position::c08_valid(*caret);
        lemma_right_of(caret.sroot(), caret.p(), caret.o()); lemma_left_of(caret.sroot(), caret.p(), caret.o());
        if caret.p().len() > 0 { lemma_in_parent(caret.row_focus); }
    }
%fn NavigationSettings::move_vertical(self, caret, direction, viewport) -> r
%requires
    caret.wf(),
%ensures
    ok_place(r, caret.root()),
    place(r) == vert_of(caret.sroot(), caret.p(), direction),
%decreases
    caret.p().len()
%start
    broadcast use crate::focus::c08_address, crate::focus::lemma_row_grid_wf;
    proof {
        crate::focus::row_position::c08_valid(*caret);
        if caret.p().len() > 0 {
            lemma_in_parent(caret.row_focus);
            let ix = caret.p().last();
            if let SNode::Cont(_, cells, w) = at_path(caret.sroot(), caret.p().drop_last()).values[ix.0 as int] { lemma_rows(ix.1 as int, w, cells.len() as int); }
        }
    }
%fn NavigationSettings::move_caret_internal(self, caret, direction, viewport) -> r
%requires
    caret.wf(),
%ensures
    ok_place(r, caret.root()),
    place(r) == moved(caret.sroot(), caret.p(), caret.o(), direction),
%fn NavigationSettings::move_caret_range(self, caret, direction, mode) -> r
%requires
    caret.wf(), mode == MoveMode::Char,
%ensures
    ok_place(r, caret.root()),
    // the edge in that direction
    place(r) == arrow(caret, direction),
%end
