%% caret.rs: carets and what they select (C10, C16)
%spec caret
use crate::row::{shared, RowIndex, InputRow};
use crate::node::InputNodeVariant;
use crate::grid::grid_view::{imin, imax};
impl MinimalCaret {
    /// both ends are places of the formula
    pub open spec fn valid_in(&self, r: SRow) -> bool {
        valid_pos(r, self.start_position.p(), self.start_position.o()) && valid_pos(r, self.end_position.p(), self.end_position.o())
    }
}
impl<'a> Caret<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& ok_row(self.tree.root.sv())
        &&& self.start_position.wf() && self.start_position.root() == self.tree.root
        &&& self.end_position.wf() && self.end_position.root() == self.tree.root
        &&& selects(self.selection, self.tree.root, self.start_position, self.end_position)
    }
}
/// both places are in cells of the same table, and no row deeper down contains both
pub open spec fn in_table(r: SRow, p: Seq<RowIndex>, q: Seq<RowIndex>) -> bool {
    let s = shared(p, q); let n = s.len() as int;
    n < p.len() && n < q.len() && p[n].0 == q[n].0 && p[n].0 < at_path(r, s).values.len()
        && (at_path(r, s).values[p[n].0 as int] matches SNode::Cont(k, _, _) && k == InputNodeVariant::Table)
}
/// C10: what is selected between two places: in a table the rectangle between their cells, otherwise the smallest range (C06)
pub open spec fn selects<'a>(c: CaretSelection<'a>, root: InputRow, a: InputRowPosition<'a>, b: InputRowPosition<'a>) -> bool {
    let s = shared(a.p(), b.p()); let n = s.len() as int;
    if in_table(root.sv(), a.p(), b.p()) {
        c matches CaretSelection::Grid(g) && {
            let w = g.range.width as int; let i = a.p()[n].1 as int; let j = b.p()[n].1 as int;
            &&& g.wf() && g.grid_focus.root() == root
            &&& g.grid_focus.parent.p() == s && g.grid_focus.index_in_parent == a.p()[n].0
            &&& g.range.nonempty()
            &&& g.range.x0() == imin(i % w, j % w) && g.range.x1() == imax(i % w, j % w)
            &&& g.range.y0() == imin(i / w, j / w) && g.range.y1() == imax(i / w, j / w)
        }
    } else {
        c matches CaretSelection::Row(x) && x.wf() && x.root() == root
            && crate::input_tree::is_selection(x.p(), x.start.0 as int, x.end.0 as int, a.p(), a.o(), b.p(), b.o())
    }
}
/// from one place in a row to another of the same row: exactly that range
pub broadcast proof fn lemma_same_row<'a>(c: CaretSelection<'a>, root: InputRow, a: InputRowPosition<'a>, b: InputRowPosition<'a>)
    requires #[trigger] selects(c, root, a, b), a.p() == b.p(),
    ensures c matches CaretSelection::Row(x) && x.p() == a.p() && x.start.0 == a.o() && x.end.0 == b.o(),
{
    assert(a.p().take(a.p().len() as int) =~= a.p());
    crate::row::lemma_shared_unique(a.p(), b.p(), a.p());
    crate::row::lemma_doc_cmp_shared(a.p(), a.o(), b.p(), b.o());
}
/// nothing is selected exactly between a place and itself
pub broadcast proof fn lemma_nothing_selected<'a>(c: CaretSelection<'a>, root: InputRow, a: InputRowPosition<'a>, b: InputRowPosition<'a>)
    requires #[trigger] selects(c, root, a, b), c matches CaretSelection::Row(x) && x.start.0 == x.end.0,
    ensures a.p() == b.p() && a.o() == b.o(),
{
    crate::row::lemma_shared(a.p(), b.p());
    let s = shared(a.p(), b.p()); let n = s.len() as int;
    assert(n == a.p().len() ==> s =~= a.p());
    assert(n == b.p().len() ==> s =~= b.p());
}
%fn <MinimalCaret as Default>::default() -> r
%ensures
    r.start_position.p().len() == 0, r.start_position.o() == 0, r.end_position.p().len() == 0, r.end_position.o() == 0,
%fn CaretSelection::from_positions(tree, start, end) -> r
%requires
    ok_row(tree.root.sv()), start.wf(), end.wf(), start.root() == tree.root, end.root() == tree.root,
%ensures
    selects(r, tree.root, *start, *end),
%start
    broadcast use crate::focus::c08_address, crate::focus::lemma_row_grid_wf;
    proof {
        crate::focus::c08_address(start.row_focus); crate::focus::c08_address(end.row_focus);
        let s = shared(start.p(), end.p()); let n = s.len() as int;
        crate::row::lemma_shared(start.p(), end.p());
        crate::row::lemma_doc_cmp_shared(start.p(), start.o(), end.p(), end.o());
        if n < start.p().len() { crate::input_tree::lemma_path_at(tree.root.sv(), start.p(), n); }
        if n < end.p().len() { crate::input_tree::lemma_path_at(tree.root.sv(), end.p(), n); }
        assert(start.p().take(n) == s && end.p().take(n) == s);
    }
%after let selected_grid
    proof {
        let g = *selected_grid; let n = shared(start.p(), end.p()).len() as int;
        let i = start_row_index.1 as int; let j = end_row_index.1 as int;
        assert(start_row_index == start.p()[n] && end_row_index == end.p()[n]);
        assert(shared_range.row_focus.srow() == at_path(tree.root.sv(), shared(start.p(), end.p())));
        assert(i < g.values@.len() && j < g.values@.len());
        crate::grid::index2d::lemma_cell_index(i, g); crate::grid::index2d::lemma_cell_index(j, g);
        crate::grid::lemma_grid_size(g);
        crate::grid::index2d::lemma_roundtrip_index(i, g.width as int); crate::grid::index2d::lemma_roundtrip_index(j, g.width as int);
    }
%spec caret
/// the stored form of a selection
pub open spec fn stored_as(s: CaretSelection<'_>, r: MinimalCaretSelection) -> bool {
    &&& s matches CaretSelection::Row(x) ==> (r matches MinimalCaretSelection::Row(m) && m.p() == x.p() && m.start == x.start && m.end == x.end)
    &&& s matches CaretSelection::Grid(x) ==> (r matches MinimalCaretSelection::Grid(m) && m.row_indices.0@ == x.grid_focus.parent.p() && m.index == x.grid_focus.index_in_parent && m.range == x.range)
}
%fn CaretSelection::to_minimal(self) -> r
%ensures
    stored_as(*self, r),
%fn Caret::new(tree, start, end) -> r
%requires
    ok_row(tree.root.sv()), start.wf(), end.wf(), start.root() == tree.root, end.root() == tree.root,
%ensures
    r.wf(), r.tree == tree, r.start_position == start, r.end_position == end,
%fn Caret::to_minimal(self) -> r
%ensures
    r.start_position.p() == self.start_position.p(), r.start_position.o() == self.start_position.o(),
    r.end_position.p() == self.end_position.p(), r.end_position.o() == self.end_position.o(),
%fn Caret::from_minimal(tree, minimal) -> r
%requires
    ok_row(tree.root.sv()), minimal.valid_in(tree.root.sv()),
%ensures
    r.wf(), r.tree == tree,
    r.start_position.p() == minimal.start_position.p(), r.start_position.o() == minimal.start_position.o(),
    r.end_position.p() == minimal.end_position.p(), r.end_position.o() == minimal.end_position.o(),
%start
    proof { assert(Seq::<RowIndex>::empty() + minimal.start_position.p() =~= minimal.start_position.p()); assert(Seq::<RowIndex>::empty() + minimal.end_position.p() =~= minimal.end_position.p()); }
%fn Caret::start_position(self) -> r
%ensures
    *r == self.start_position,
%fn Caret::end_position(self) -> r
%ensures
    *r == self.end_position,
%fn Caret::set_start_position(self, position)
%requires
    old(self).wf(), position.wf(), position.root() == old(self).tree.root,
%ensures
    final(self).wf(), final(self).tree == old(self).tree, final(self).start_position == position, final(self).end_position == old(self).end_position,
%fn Caret::set_end_position(self, position)
%requires
    old(self).wf(), position.wf(), position.root() == old(self).tree.root,
%ensures
    final(self).wf(), final(self).tree == old(self).tree, final(self).end_position == position, final(self).start_position == old(self).start_position,
%fn Caret::selection(self) -> r
%ensures
    *r == self.selection,
%fn Caret::into_selection(self) -> r
%ensures
    r == self.selection,
%fn Caret::set_selection(self, selection)
%requires
    old(self).wf(), selection.wf(), selection.root() == old(self).tree.root,
%ensures
    final(self).wf(), final(self).tree == old(self).tree,
    final(self).start_position.p() == selection.p(), final(self).start_position.o() == selection.start.0,
    final(self).end_position.p() == selection.p(), final(self).end_position.o() == selection.end.0,
%spec primitive::movement
/// where an arrow leads: from a selection, on from its edge in that direction
pub open spec fn arrow(x: crate::focus::InputRowRange<'_>, direction: Direction) -> Option<(Seq<RowIndex>, int)> {
    let o = if direction is Left || direction is Up { x.lo() } else { x.hi() };
    match moved(x.sroot(), x.p(), o, direction) {
        Some(y) => Some(y),
        None => if x.start.0 == x.end.0 { None } else { Some((x.p(), o)) },
    }
}
/// C13: from every place, right and left lead to the next and the previous one in reading order
pub proof fn c13_arrows(x: InputRowPosition<'_>)
    requires x.wf(),
    ensures
        is_next(x.sroot(), x.p(), x.o(), moved(x.sroot(), x.p(), x.o(), Direction::Right)),
        is_prev(x.sroot(), x.p(), x.o(), moved(x.sroot(), x.p(), x.o(), Direction::Left)),
{
    crate::focus::row_position::c08_valid(x);
    lemma_mem_ok(x.root());
    c13_right(x.sroot(), x.p(), x.o());
    c13_left(x.sroot(), x.p(), x.o());
}
%fn NavigationSettings::move_caret(self, caret, direction, mode)
%requires
    old(caret).wf(), mode == MoveMode::Char,
%ensures
    final(caret).wf(), final(caret).tree == old(caret).tree,
    // a selected rectangle is not moved
    old(caret).selection is Grid ==> *final(caret) == *old(caret),
    old(caret).selection matches CaretSelection::Row(x) ==> {
        match arrow(x, direction) {
            Some((q, u)) => final(caret).start_position.p() == q && final(caret).start_position.o() == u && final(caret).end_position.p() == q && final(caret).end_position.o() == u,
            None => *final(caret) == *old(caret),
        }
    },
%end
