%% focus/row_position.rs, focus/row_range.rs, focus/grid_range.rs: places and ranges (C04 to C08, C10)
%spec focus::row_position
impl<'a> InputRowPosition<'a> {
    pub open spec fn wf(&self) -> bool { self.row_focus.wf() && self.offset.0 <= self.row_focus.row.values@.len() }
    pub open spec fn root(&self) -> InputRow { self.row_focus.root() }
    pub open spec fn sroot(&self) -> SRow { self.row_focus.sroot() }
}
use crate::row::InputRow;
impl MinimalInputRowPosition {
    pub open spec fn p(&self) -> Seq<crate::row::RowIndex> { self.row_indices.0@ }
    pub open spec fn o(&self) -> int { self.offset.0 as int }
}
/// C08: a place in a formula is a valid place, also after it has been stored
pub broadcast proof fn c08_valid(x: InputRowPosition<'_>)
    requires #[trigger] x.wf(),
    ensures valid_pos(x.sroot(), x.p(), x.o()), x.small(),
{
    crate::focus::c08_address(x.row_focus);
    crate::focus::lemma_small(x.row_focus, x.o());
}
%fn InputRowPosition::new(row_focus, offset) -> r
%requires
    offset.0 <= row_focus.row.values@.len(),
%ensures
    r.row_focus == row_focus, r.offset == offset,
%% the same text once more: whatever it is given, a position that gets built is an offset of its row (C08)
%fn InputRowPosition::vx_checked_new(row_focus, offset) -> r
%checked
%ensures
    r.row_focus == row_focus, r.offset == offset, offset.0 <= row_focus.row.values@.len(),
%fn InputRowPosition::row_indices(self) -> r
%ensures
    *r == self.row_focus.row_indices,
%fn InputRowPosition::to_minimal(self) -> r
%ensures
    r.p() == self.p(), r.o() == self.o(),
%fn InputRowPosition::from_minimal(root, minimal) -> r
%requires
    root.wf(), valid_pos(root.srow(), minimal.p(), minimal.o()),
%ensures
    r.wf(), r.p() == root.p() + minimal.p(), r.o() == minimal.o(), r.root() == root.root(),
%start
    broadcast use crate::focus::c08_address;
%fn InputRowPosition::vx_checked_from_minimal(root, minimal) -> r
%checked
%requires
    root.wf(),
%ensures
    valid_pos(root.srow(), minimal.p(), minimal.o()),
    r.wf(), r.p() == root.p() + minimal.p(), r.o() == minimal.o(), r.root() == root.root(),
%start
    broadcast use crate::focus::c08_address;
%fn InputRowPosition::in_range(self, range) -> r
%requires
    self.wf(), range.wf(),
%ensures
    r == range.spec_contains(*self),

%spec focus::row_range
impl<'a> InputRowRange<'a> {
    pub open spec fn wf(&self) -> bool { self.row_focus.wf() && self.start.0 <= self.row_focus.row.values@.len() && self.end.0 <= self.row_focus.row.values@.len() }
    pub open spec fn p(&self) -> Seq<crate::row::RowIndex> { self.row_focus.row_indices.0@ }
    pub open spec fn root(&self) -> crate::row::InputRow { self.row_focus.root() }
    pub open spec fn sroot(&self) -> SRow { self.row_focus.sroot() }
    pub open spec fn lo(&self) -> int { if self.start.0 <= self.end.0 { self.start.0 as int } else { self.end.0 as int } }
    pub open spec fn hi(&self) -> int { if self.start.0 <= self.end.0 { self.end.0 as int } else { self.start.0 as int } }
    /// the place is not before the left and not after the right end, in document order
    pub open spec fn spec_contains(&self, x: InputRowPosition<'a>) -> bool {
        crate::input_tree::between(self.p(), self.lo(), self.hi(), x.p(), x.o())
    }
}
impl MinimalInputRowRange {
    pub open spec fn p(&self) -> Seq<crate::row::RowIndex> { self.row_indices.0@ }
}
%spec input_tree
/// the place (q, u) is not before (p, lo) and not behind (p, hi)
pub open spec fn between(p: Seq<crate::row::RowIndex>, lo: int, hi: int, q: Seq<crate::row::RowIndex>, u: int) -> bool {
    &&& crate::row::doc_cmp(p, lo, q, u) != core::cmp::Ordering::Greater
    &&& crate::row::doc_cmp(q, u, p, hi) != core::cmp::Ordering::Greater
}
%spec focus::row_range
/// both ends are valid places
pub open spec fn valid_range(r: SRow, p: Seq<crate::row::RowIndex>, a: int, b: int) -> bool { valid_pos(r, p, a) && valid_pos(r, p, b) }
pub broadcast proof fn c08_valid_range(x: InputRowRange<'_>)
    requires #[trigger] x.wf(),
    ensures valid_range(x.sroot(), x.p(), x.start.0 as int, x.end.0 as int), crate::row::small(x.p(), x.lo()), crate::row::small(x.p(), x.hi()),
{
    crate::focus::c08_address(x.row_focus);
    crate::focus::lemma_small(x.row_focus, x.lo());
    crate::focus::lemma_small(x.row_focus, x.hi());
}
%fn InputRowRange::new(row_focus, start, end) -> r
%requires
    start.0 <= row_focus.row.values@.len(), end.0 <= row_focus.row.values@.len(),
%ensures
    r.row_focus == row_focus, r.start == start, r.end == end,
%fn InputRowRange::vx_checked_new(row_focus, start, end) -> r
%checked
%ensures
    r.row_focus == row_focus, r.start == start, r.end == end, start.0 <= row_focus.row.values@.len(), end.0 <= row_focus.row.values@.len(),
%fn InputRowRange::left_offset(self) -> r
%ensures
    r.0 == self.lo(),
%fn InputRowRange::right_offset(self) -> r
%ensures
    r.0 == self.hi(),
%fn InputRowRange::len(self) -> r
%ensures
    r == self.hi() - self.lo(),
%fn InputRowRange::is_empty(self) -> r
%ensures
    r == (self.start.0 == self.end.0),
%fn InputRowRange::is_collapsed(self) -> r
%ensures
    r == (self.start.0 == self.end.0),
%fn InputRowRange::is_forwards(self) -> r
%ensures
    r == (self.start.0 <= self.end.0),
%fn InputRowRange::start_position(self) -> r
%ensures
    r.row_focus == self.row_focus, r.offset == self.start,
%fn InputRowRange::end_position(self) -> r
%ensures
    r.row_focus == self.row_focus, r.offset == self.end,
%fn InputRowRange::left_position(self) -> r
%ensures
    r.row_focus == self.row_focus, r.offset.0 == self.lo(),
%fn InputRowRange::right_position(self) -> r
%ensures
    r.row_focus == self.row_focus, r.offset.0 == self.hi(),
%fn InputRowRange::values(self) -> r
%requires
    self.wf(),
%ensures
    r@ == self.row_focus.row.values@.subrange(self.lo(), self.hi()),
%fn InputRowRange::row_indices(self) -> r
%ensures
    *r == self.row_focus.row_indices,
%fn InputRowRange::contains(self, position) -> r
%requires
    self.wf(), position.wf(),
%ensures
    r == self.spec_contains(*position),
%start
    broadcast use crate::focus::c08_valid, crate::focus::c08_valid_range;
    proof { crate::row::c05_antisymmetric(self.p(), self.lo(), position.p(), position.o()); crate::row::c05_antisymmetric(self.p(), self.hi(), position.p(), position.o()); }
%fn InputRowRange::to_minimal(self) -> r
%ensures
    r.p() == self.p(), r.start == self.start, r.end == self.end,
%fn InputRowRange::from_minimal(root, minimal) -> r
%requires
    root.wf(), valid_range(root.srow(), minimal.p(), minimal.start.0 as int, minimal.end.0 as int),
%ensures
    r.wf(), r.p() == root.p() + minimal.p(), r.start == minimal.start, r.end == minimal.end, r.root() == root.root(),
%start
    broadcast use crate::focus::c08_address;
%fn InputRowRange::vx_checked_from_minimal(root, minimal) -> r
%checked
%requires
    root.wf(),
%ensures
    valid_range(root.srow(), minimal.p(), minimal.start.0 as int, minimal.end.0 as int),
    r.wf(), r.p() == root.p() + minimal.p(), r.start == minimal.start, r.end == minimal.end, r.root() == root.root(),
%start
    broadcast use crate::focus::c08_address;
%fn <MinimalInputRowRange as Editable>::apply_edit(self, edit)
%start
    proof { let q = edit_path(*edit); assert(is_prefix(q, self.p()) && q.len() == self.p().len() ==> q =~= self.p()); assert(q.len() < self.p().len() ==> self.p().update(q.len() as int, self.p()[q.len() as int]) =~= self.p()); }

%% ---- grid ranges
%spec focus::grid_range
impl<'a> InputGridRange<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& self.grid_focus.wf()
        &&& self.range.wf()
        &&& (*self.grid_focus.node matches InputNode::Container(_, g) && (self.range.nonempty() ==> self.range.width == g.width && self.range.end <= g.values@.len()))
    }
}
%fn InputGridRange::new(grid_focus, range) -> r
%ensures
    *r.grid_focus == grid_focus, r.range == range,
%fn InputGridRange::top_left_index(self) -> r
%requires
    self.range.width > 0,
%ensures
    r.0 == self.range.x0(), r.1 == self.range.y0(),
%fn InputGridRange::bottom_right_index(self) -> r
%requires
    self.range.wf(),
%ensures
    r is Some <==> self.range.nonempty(),
    r matches Some(e) ==> e.0 == self.range.x1() && e.1 == self.range.y1(),
%fn InputGridRange::is_collapsed(self) -> r
%ensures
    r == !self.range.nonempty(),
%fn InputGridRange::grid(self) -> r
%requires
    *self.grid_focus.node is Container,
%ensures
    *self.grid_focus.node matches InputNode::Container(_, g) && g == *r,
%fn InputGridRange::get_row(self, index) -> r
%requires
    self.grid_focus.wf(), *self.grid_focus.node is Container,
%ensures
    *self.grid_focus.node matches InputNode::Container(_, g) && (r is Some <==> index < g.values@.len()) && (r matches Some(v) ==> *v == g.values@[index as int]),
%start
    broadcast use crate::focus::c08_address, crate::focus::lemma_row_grid_wf;
    let ghost vx_nd = self.grid_focus.node;
    proof { if let InputNode::Container(_, g) = *vx_nd { crate::grid::index2d::lemma_cell_index(index as int, g); } }
%fn InputGridRange::to_minimal(self) -> r
%ensures
    r.row_indices.0@ == self.grid_focus.parent.p(), r.index == self.grid_focus.index_in_parent, r.range == self.range,
%fn InputGridRange::from_minimal(root, minimal) -> r
%requires
    root.wf(), valid_path(root.srow(), minimal.row_indices.0@), minimal.index < at_path(root.srow(), minimal.row_indices.0@).values.len(),
%ensures
    r.grid_focus.wf(), r.range == minimal.range, r.grid_focus.root() == root.root(),
    r.grid_focus.parent.p() == root.p() + minimal.row_indices.0@, r.grid_focus.index_in_parent == minimal.index,
%start
    broadcast use crate::focus::c08_address;
%fn InputGridRange::vx_checked_from_minimal(root, minimal) -> r
%checked
%requires
    root.wf(),
%ensures
    valid_path(root.srow(), minimal.row_indices.0@), minimal.index < at_path(root.srow(), minimal.row_indices.0@).values.len(),
    r.grid_focus.wf(), r.range == minimal.range, r.grid_focus.root() == root.root(),
    r.grid_focus.parent.p() == root.p() + minimal.row_indices.0@, r.grid_focus.index_in_parent == minimal.index,
%start
    broadcast use crate::focus::c08_address;
%fn <MinimalInputGridRange as Editable>::apply_edit(self, _edit)
%start
    proof { assert(!st_ok(self.st(), *_edit)); }
%spec grid::index2d
/// the linear indices of cells are exactly those of the 2D indices inside the grid
pub proof fn lemma_cell_index<T>(i: int, g: crate::grid::GridVec<T>)
    requires g.wf(), 0 <= i,
    ensures i < g.values@.len() <==> i / (g.width as int) < g.spec_height(),
{
    crate::grid::lemma_grid_size(g);
    lemma_roundtrip_index(i, g.width as int);
    let w = g.width as int; let y = i / w; let x = i % w; let h = g.spec_height();
    if i < g.values@.len() { assert(y < h) by (nonlinear_arith) requires y * w + x < w * h, x >= 0, w > 0; }
    else { assert(y >= h) by (nonlinear_arith) requires y * w + x >= w * h, x < w, w > 0; }
}
%end
