%% primitive/primitive_edit.rs: typing over a selection, backspace and delete (C07, C15)
%spec primitive::primitive_edit
use crate::row::{RowIndex, InputRow};
use crate::node::sv_nodes;
use crate::editing::EditType;
use crate::editing::basic_edit::{row_edit_is, replacement};
use crate::primitive::movement::{moved, place, ok_place};
/// the contents of the cells, one after the other
pub open spec fn flat(c: Seq<SRow>) -> Seq<SNode> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { flat(c.drop_last()) + c.last().values }
}
pub open spec fn flat_in(c: Seq<InputRow>) -> Seq<InputNode> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { flat_in(c.drop_last()) + c.last().values@ }
}
pub proof fn lemma_flat(c: Seq<InputRow>)
    ensures sv_nodes(flat_in(c)) == flat(sv_row_cells(c)), flat_in(c).len() == flat(sv_row_cells(c)).len(),
    decreases c.len()
{
    if c.len() > 0 {
        lemma_flat(c.drop_last());
        assert(sv_row_cells(c.drop_last()) =~= sv_row_cells(c).drop_last());
        assert(c.last().sv().values =~= sv_nodes(c.last().values@));
        assert(sv_nodes(flat_in(c)) =~= flat(sv_row_cells(c)));
    } else { assert(sv_nodes(flat_in(c)) =~= flat(sv_row_cells(c))); }
}
/// every cell is part of it
pub proof fn lemma_flat_has(c: Seq<SRow>, i: int)
    requires 0 <= i < c.len(),
    ensures c[i].values.len() <= flat(c).len(),
    decreases c.len()
{
    if i < c.len() - 1 { lemma_flat_has(c.drop_last(), i); }
}
pub proof fn lemma_flat_ok(c: Seq<SRow>)
    requires forall|i: int| 0 <= i < c.len() ==> ok_row(#[trigger] c[i]),
    ensures forall|i: int| 0 <= i < flat(c).len() ==> ok_node(#[trigger] flat(c)[i]),
    decreases c.len()
{
    if c.len() > 0 {
        lemma_flat_ok(c.drop_last());
        assert forall|i: int| 0 <= i < flat(c).len() implies ok_node(#[trigger] flat(c)[i]) by {
            let n = flat(c.drop_last()).len();
            if i < n { assert(flat(c)[i] == flat(c.drop_last())[i]); } else { assert(ok_row(c.last())); assert(flat(c)[i] == c.last().values[i - n]); }
        }
    }
}
/// part of a row
pub proof fn lemma_sub(r: &InputRow)
    ensures forall|lo: int, hi: int| 0 <= lo <= hi <= r.values@.len() ==> sv_nodes(#[trigger] r.values@.subrange(lo, hi)) == r.sv().values.subrange(lo, hi),
{
    assert forall|lo: int, hi: int| 0 <= lo <= hi <= r.values@.len() implies sv_nodes(#[trigger] r.values@.subrange(lo, hi)) == r.sv().values.subrange(lo, hi) by {
        assert(sv_nodes(r.values@.subrange(lo, hi)) =~= r.sv().values.subrange(lo, hi));
    }
}
/// the grid around a row
pub proof fn lemma_around(f: crate::focus::InputFocusRow<'_>)
    requires f.wf(),
    ensures f.parent matches Some(b) ==> (*b.node matches InputNode::Container(_, g) && g.wf() && g.grid_size().0 * g.grid_size().1 == g.values@.len() && 0 < g.values@.len() <= usize::MAX
        && g.values@[0].values@.len() <= flat_in(g.values@).len() && 0int / g.width as int == 0 && 0int % g.width as int == 0 && 0 < g.spec_height()),
{
    crate::focus::c08_address(f);
    if let Some(b) = f.parent {
        crate::focus::lemma_chain(*b.parent.row, b.parent.parent, f.p().drop_last());
        lemma_ok_at(f.sroot(), f.p().drop_last());
        crate::focus::lemma_row_grid_wf(*b.parent.row, b.index_in_parent as int);
        if let InputNode::Container(_, g) = *b.node {
            g.lemma_grid();
            lemma_flat(g.values@); lemma_flat_has(sv_row_cells(g.values@), 0);
            assert(sv_row_cells(g.values@)[0].values.len() == g.values@[0].values@.len());
            vstd::arithmetic::div_mod::lemma_small_mod(0, g.width as nat);
            vstd::arithmetic::div_mod::lemma_basic_div(0, g.width as int);
            crate::grid::index2d::lemma_cell_index(0, g);
        }
    }
}
/// the edits delete exactly these elements, and the caret is left where they were
pub open spec fn deletes(r: SRow, es: Seq<BasicEdit>, p: Seq<RowIndex>, lo: int, hi: int, q: Seq<RowIndex>, u: int) -> bool {
    es.len() == 1 && deletion(r, es[0], p, lo, hi) && q == p && u == lo
}
pub open spec fn deletion(r: SRow, e: BasicEdit, p: Seq<RowIndex>, lo: int, hi: int) -> bool {
    &&& valid_path(r, p) && 0 <= lo <= hi <= at_path(r, p).values.len()
    &&& (e matches BasicEdit::Row(b) && b.edit_type == EditType::Delete && b.position.p() == p && b.position.o() == lo && sv_nodes(b.values@) == at_path(r, p).values.subrange(lo, hi))
}
/// the edits replace the container by all of its contents, in order; the caret is left at the contents
pub open spec fn unwraps(r: SRow, es: Seq<BasicEdit>, p: Seq<RowIndex>, i: int, q: Seq<RowIndex>, u: int) -> bool {
    &&& valid_path(r, p) && 0 <= i < at_path(r, p).values.len()
    &&& (at_path(r, p).values[i] matches SNode::Cont(_, c, _) && i <= u <= i + flat(c).len() && es.len() == 2
        && (es[1] matches BasicEdit::Row(b) && b.edit_type == EditType::Insert && b.position.p() == p && b.position.o() == i && sv_nodes(b.values@) == flat(c)))
    &&& deletion(r, es[0], p, i, i + 1)
    &&& q == p
}
/// the result of deleting at a caret without selection
pub open spec fn removes(x: crate::focus::InputFocusRow<'_>, o: int, d: HorizontalDirection, r: Option<(Vec<BasicEdit>, MinimalInputRowPosition)>) -> bool {
    let s = x.sroot(); let p = x.p(); let v = x.srow().values;
    let i = if d == HorizontalDirection::Left { o - 1 } else { o };
    let to = moved(s, p, o, if d == HorizontalDirection::Left { Direction::Left } else { Direction::Right });
    match r {
        // nothing there
        None => to is None,
        Some((es, m)) => if 0 <= i < v.len() && v[i] is Sym {
            // exactly the adjacent symbol
            deletes(s, es@, p, i, i + 1, m.p(), m.o())
        } else {
            // the caret moves
            ||| es@.len() == 0 && to == Some((m.p(), m.o()))
            // the adjacent container is unwrapped
            ||| unwraps(s, es@, p, i, m.p(), m.o())
            // the surrounding container is unwrapped
            ||| p.len() > 0 && unwraps(s, es@, p.drop_last(), p.last().0 as int, m.p(), m.o())
        },
    }
}
use crate::direction::Direction;
/// C15: a deletion can be applied, removes exactly those elements, and the caret is at a valid place afterwards
pub proof fn c15_delete(f: crate::focus::InputFocusRow<'_>, es: Seq<BasicEdit>, lo: int, hi: int, q: Seq<RowIndex>, u: int)
    requires f.wf(), deletes(f.sroot(), es, f.p(), lo, hi, q, u),
    ensures ({
        let r = f.sroot(); let r2 = put_path(r, f.p(), replaced(f.srow(), lo, hi, Seq::empty()));
        &&& st_all_ok(EditState::Tree(r), es) && st_all(EditState::Tree(r), es) == EditState::Tree(r2)
        &&& crate::input_tree::recorded_all(r, es)
        &&& valid_pos(r2, q, u) && ok_row(r2)
    }),
{
    let r = f.sroot();
    crate::focus::c08_address(f);
    lemma_deletion(f.root(), es[0], f.p(), lo, hi);
    lemma_all_1(r, es);
}
/// C15: unwrapping can be applied, puts exactly the contents of the cells in place of the container, and the caret is at a valid place afterwards
pub proof fn c15_unwrap(root: InputRow, es: Seq<BasicEdit>, p: Seq<RowIndex>, i: int, q: Seq<RowIndex>, u: int)
    requires ok_row(root.sv()), unwraps(root.sv(), es, p, i, q, u),
    ensures ({
        let r = root.sv(); let x = at_path(r, p);
        &&& (x.values[i] matches SNode::Cont(_, c, _) && st_all(EditState::Tree(r), es) == EditState::Tree(put_path(r, p, replaced(x, i, i + 1, flat(c)))) && ok_row(put_path(r, p, replaced(x, i, i + 1, flat(c)))) && valid_pos(put_path(r, p, replaced(x, i, i + 1, flat(c))), q, u))
        &&& st_all_ok(EditState::Tree(r), es)
        &&& crate::input_tree::recorded_all(r, es)
    }),
{
    let r = root.sv(); let x = at_path(r, p);
    lemma_deletion(root, es[0], p, i, i + 1);
    let x1 = replaced(x, i, i + 1, Seq::empty());
    let r1 = put_path(r, p, x1);
    lemma_put_get(r, p, x1);
    if let SNode::Cont(_, c, _) = x.values[i] { if let BasicEdit::Row(b) = es[1] {
        lemma_ok_at(r, p);
        lemma_flat_ok(c);
        assert(sv_nodes(b.values@).len() == b.values@.len());
        assert forall|k: int| 0 <= k < b.values@.len() implies ok_node(#[trigger] sv_nodes(b.values@)[k]) by { assert(ok_node(flat(c)[k])); }
        crate::row::lemma_nodes_len(&b.values);
        let x2 = edit_row(x1, es[1]);
        assert(valid_path(r1, p) && at_path(r1, p) == x1);
        assert(x1.values.len() == x.values.len() - 1);
        lemma_in_memory(root, p);
        assert(edit_applies(r1, es[1]));
        lemma_put_get(r1, p, x2);
        lemma_put_get(r, p, x2);
        assert(x2.values =~= replaced(x, i, i + 1, flat(c)).values);
        crate::input_tree::c03_still_wellformed(r1, es[1]);
        lemma_all_2(r, es);
    } }
}
/// what one deletion does
pub proof fn lemma_deletion(root: InputRow, e: BasicEdit, p: Seq<RowIndex>, lo: int, hi: int)
    requires ok_row(root.sv()), deletion(root.sv(), e, p, lo, hi),
    ensures ({
        let r = root.sv(); let r2 = put_path(r, p, replaced(at_path(r, p), lo, hi, Seq::empty()));
        &&& step_ok(r, e) && edit_result(r, e) == r2 && valid_pos(r2, p, lo)
        &&& crate::input_tree::in_memory(at_path(r2, p))
    }),
{
    let r = root.sv();
    lemma_in_memory(root, p);
    let x = at_path(r, p);
    if let BasicEdit::Row(b) = e {
        assert(sv_nodes(b.values@).len() == b.values@.len());
        crate::row::lemma_nodes_len(&b.values);
        lemma_put_get(r, p, edit_row(x, e));
        assert(edit_row(x, e).values =~= replaced(x, lo, hi, Seq::empty()).values);
        crate::input_tree::c03_still_wellformed(r, e);
    }
    let x1 = replaced(x, lo, hi, Seq::empty());
    assert forall|i: int| 0 <= i < x1.values.len() implies ((#[trigger] x1.values[i]) matches SNode::Cont(_, cells, w) ==> cells.len() <= usize::MAX && w <= usize::MAX) by {
        if i < lo { assert(x1.values[i] == x.values[i]); } else { assert(x1.values[i] == x.values[i + hi - lo]); }
    }
}
pub open spec fn step_ok(x: SRow, e: BasicEdit) -> bool {
    ok_row(x) && st_ok(EditState::Tree(x), e) && edit_applies(x, e) && recorded(x, e) && crate::input_tree::in_memory(at_path(x, edit_path(e))) && ok_row(edit_result(x, e))
}
pub proof fn lemma_all_1(r: SRow, es: Seq<BasicEdit>)
    requires es.len() == 1, step_ok(r, es[0]),
    ensures st_all_ok(EditState::Tree(r), es), st_all(EditState::Tree(r), es) == EditState::Tree(edit_result(r, es[0])), crate::input_tree::recorded_all(r, es),
{
    let s = EditState::Tree(r);
    assert(es.drop_last() =~= Seq::empty());
    assert(st_all(s, Seq::empty()) == s); assert(st_all_ok(s, Seq::empty())); assert(crate::input_tree::recorded_all(r, Seq::empty()));
}
pub proof fn lemma_all_2(r: SRow, es: Seq<BasicEdit>)
    requires es.len() == 2, step_ok(r, es[0]), step_ok(edit_result(r, es[0]), es[1]),
    ensures st_all_ok(EditState::Tree(r), es), st_all(EditState::Tree(r), es) == EditState::Tree(edit_result(edit_result(r, es[0]), es[1])), crate::input_tree::recorded_all(r, es),
{
    assert(es.drop_last() =~= seq![es[0]]);
    lemma_all_1(r, es.drop_last());
}
use crate::input_tree::{replaced, recorded, lemma_in_memory};
%fn insert_at_range(caret, values) -> r
%requires
    caret.wf(),
%ensures
    r matches Some((es, m)) && replacement(*caret, values@, es@)
        // the caret is left directly behind the new elements
        && m.p() == caret.p() && m.o() == caret.lo() + values@.len(),
%fn flatten_node(node_focus, offset_in_node) -> r
%requires
    node_focus.wf(), *node_focus.node is Container,
    *node_focus.node matches InputNode::Container(_, g) && offset_in_node.0 <= flat_in(g.values@).len(),
%ensures
    r matches Some((es, m)) && unwraps(node_focus.sroot(), es@, node_focus.parent.p(), node_focus.index_in_parent as int, m.p(), m.o()),
%start
    broadcast use crate::focus::c08_address, crate::focus::lemma_row_grid_wf;
    let ghost vx_nd = *node_focus.node;
    let ghost vx_f = node_focus;
    let ghost vx_c = vx_nd->Container_1.values@;
    proof {
        crate::row::lemma_row_len(node_focus.parent.row);
        crate::focus::c08_address(node_focus.parent);
        lemma_sub(node_focus.parent.row);
        lemma_flat(vx_c);
        assert(sv_row_cells(vx_c) =~= vx_nd->Container_1.sv_cells());
        assert(node_focus.parent.row.values@[node_focus.index_in_parent as int] == vx_nd);
        assert(vx_c.take(0) =~= Seq::empty());
        assert(vx_c.take(vx_c.len() as int) =~= vx_c);
    }
%loop 0 it
    invariant
        0 <= it.index@ <= vx_c.len(), it.seq().len() == vx_c.len(), forall|i: int| 0 <= i < vx_c.len() ==> *(#[trigger] it.seq()[i]) == vx_c[i],
        vx_acc@ == flat_in(vx_c.take(it.index@)),
%lstart 0
    proof {
        assert(vx_c.take(it.index@ + 1).drop_last() =~= vx_c.take(it.index@));
        assert(vx_c[it.index@].values@.take(0) =~= Seq::empty());
    }
%loop 1 jt
    invariant
        0 <= it.index@ < vx_c.len(),
        0 <= jt.index@ <= vx_c[it.index@].values@.len(), jt.seq().len() == vx_c[it.index@].values@.len(), forall|i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]) == vx_c[it.index@].values@[i],
        vx_acc@ =~= flat_in(vx_c.take(it.index@)) + vx_c[it.index@].values@.take(jt.index@),
%lend 1
    proof { let v = vx_c[it.index@].values@; assert(v.take(jt.index@ + 1) =~= v.take(jt.index@).push(v[jt.index@])); }
%lend 0
    proof { let v = vx_c[it.index@].values@; assert(v.take(v.len() as int) =~= v); }
%fn move_caret(caret_mover, caret, direction) -> r
%requires
    caret.wf(),
%ensures
    ({
        let to = moved(caret.sroot(), caret.p(), caret.o(), if direction == HorizontalDirection::Left { Direction::Left } else { Direction::Right });
        match r { None => to is None, Some((es, m)) => es@.len() == 0 && to == Some((m.p(), m.o())) }
    }),
%fn remove_at_caret_position(caret_mover, caret, direction) -> r
%requires
    caret.wf(),
%ensures
    removes(caret.row_focus, caret.o(), direction, r),
%start
    broadcast use crate::focus::c08_address, crate::focus::lemma_row_grid_wf;
    proof {
        crate::focus::row_position::c08_valid(caret);
        crate::row::lemma_row_len(caret.row_focus.row);
        lemma_sub(caret.row_focus.row);
        lemma_around(caret.row_focus);
    }
%spec primitive::primitive_edit
pub open spec fn removed(caret: InputRowRange<'_>, mode: CaretRemoveMode, r: Option<(Vec<BasicEdit>, MinimalInputRowPosition)>) -> bool {
    // a selection: exactly the selected elements
    &&& caret.start.0 != caret.end.0 || mode is Range ==> (r matches Some((es, m)) && deletes(caret.sroot(), es@, caret.p(), caret.lo(), caret.hi(), m.p(), m.o()))
    &&& caret.start.0 == caret.end.0 && mode is Left ==> removes(caret.row_focus, caret.start.0 as int, HorizontalDirection::Left, r)
    &&& caret.start.0 == caret.end.0 && mode is Right ==> removes(caret.row_focus, caret.start.0 as int, HorizontalDirection::Right, r)
}
%fn remove_at_caret(caret_mover, caret, mode) -> r
%requires
    caret.wf(),
%ensures
    removed(*caret, mode, r),
%start
    proof { crate::focus::row_range::c08_valid_range(*caret); crate::focus::c08_address(caret.row_focus); lemma_sub(caret.row_focus.row); }
%end
