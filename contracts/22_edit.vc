%% editing/*.rs: edits and their inverses (C02), the change an edit makes to addresses (C04), edit builders (C07)
%trait Invertible
    /// r is the inverse
    spec fn inv_is(&self, r: Self::Inverse) -> bool;
%fn Invertible::inverse(self) -> r
%ensures
    self.inv_is(r),
%impl <EditType as Invertible>
    open spec fn inv_is(&self, r: EditType) -> bool { r == self.inv() }
%impl <RowEdit as Invertible>
    open spec fn inv_is(&self, r: RowEdit) -> bool { r == self.inv() }
%impl <GridEdit as Invertible>
    open spec fn inv_is(&self, r: GridEdit) -> bool { r == self.inv() }
%impl <BasicEdit as Invertible>
    open spec fn inv_is(&self, r: BasicEdit) -> bool { r == self.inv() }
%spec editing::basic_edit
impl EditType {
    /// the inverse
    pub open spec fn inv(&self) -> EditType { match self { EditType::Delete => EditType::Insert, EditType::Insert => EditType::Delete } }
}
impl RowEdit {
    pub open spec fn inv(&self) -> RowEdit { RowEdit { edit_type: self.edit_type.inv(), position: self.position, values: self.values } }
}
impl GridEdit {
    pub open spec fn inv(&self) -> GridEdit { GridEdit { edit_type: self.edit_type.inv(), element_indices: self.element_indices, direction: self.direction, row_or_column: self.row_or_column, values: self.values } }
}
impl BasicEdit {
    pub open spec fn inv(&self) -> BasicEdit { match self { BasicEdit::Row(e) => BasicEdit::Row(e.inv()), BasicEdit::Grid(e) => BasicEdit::Grid(e.inv()) } }
}
%end

%trait Editable
    /// what is edited, seen abstractly
    spec fn st(&self) -> crate::sp::EditState;
%fn Editable::apply_edit(self, edit)
%requires
    st_ok(old(self).st(), *edit),
%ensures
    final(self).st() == st_next(old(self).st(), *edit),
%fn Editable::apply_edits(self, edits)
%requires
    st_all_ok(old(self).st(), edits@),
%ensures
    final(self).st() == st_all(old(self).st(), edits@),
%start
    let ghost vx_s0 = self.st();
    proof { lemma_st_all(vx_s0, edits@); }
%loop 0 it
    invariant
        0 <= it.index@ <= edits@.len(), vx_s0 == old(self).st(),
        forall|k: int| 0 <= k < edits@.len() ==> st_ok(st_all(vx_s0, edits@.take(k)), #[trigger] edits@[k]) && st_all(vx_s0, edits@.take(k + 1)) == st_next(st_all(vx_s0, edits@.take(k)), edits@[k]),
        self.st() == st_all(vx_s0, edits@.take(it.index@)),
%impl <InputTree as Editable>
    open spec fn st(&self) -> crate::sp::EditState { EditState::Tree(self.root.sv()) }
%impl <MinimalInputRowRange as Editable>
    open spec fn st(&self) -> crate::sp::EditState { EditState::Range(self.row_indices.0@, self.start.0 as int, self.end.0 as int) }
%impl <MinimalInputRowPosition as Editable>
    open spec fn st(&self) -> crate::sp::EditState { EditState::Pos(self.row_indices.0@, self.offset.0 as int) }
%impl <MinimalInputGridRange as Editable>
    open spec fn st(&self) -> crate::sp::EditState { EditState::Other }
%end
%spec editing::row_indices_edit
impl<'a> RowIndicesEdit<'a> {
    pub open spec fn old_off(&self) -> int { match self { RowIndicesEdit::RowIndexEdit { old_offset, .. } => old_offset.0 as int, RowIndicesEdit::GridIndexEdit { old_offset, .. } => old_offset.0 as int } }
    pub open spec fn new_off(&self) -> int { match self { RowIndicesEdit::RowIndexEdit { new_offset, .. } => new_offset.0 as int, RowIndicesEdit::GridIndexEdit { new_offset, .. } => new_offset.0 as int } }
}
%fn RowIndicesEdit::is_insert(self) -> r
%ensures
    r == (self.new_off() > self.old_off()),
%fn BasicEdit::get_row_indices_edit(self) -> r
%requires
    self matches BasicEdit::Row(e) ==> e.position.offset.0 + e.values@.len() <= usize::MAX,
    self matches BasicEdit::Grid(e) ==> e.values.wf() && e.row_or_column.0 + e.values.width <= usize::MAX && e.row_or_column.0 + e.values.spec_height() <= usize::MAX,
%ensures
    self matches BasicEdit::Row(e) ==> r is RowIndexEdit && r->RowIndexEdit_row_indices.0@ == e.position.row_indices.0@ && ri_offsets(r, e.edit_type, e.position.offset.0 as int, e.values@.len() as int),
    self matches BasicEdit::Grid(e) ==> r is GridIndexEdit && r->element_indices.row_indices.0@ == e.element_indices.row_indices.0@ && r->element_indices.index == e.element_indices.index
        && r->direction == e.direction && ri_offsets(r, e.edit_type, e.row_or_column.0 as int, if e.direction == GridDirection::Column { e.values.width as int } else { e.values.spec_height() }),
%spec editing::basic_edit
/// where elements move: from the old to the new offset
pub open spec fn ri_offsets(r: RowIndicesEdit<'_>, t: EditType, o: int, n: int) -> bool {
    match t { EditType::Insert => r.old_off() == o && r.new_off() == o + n, EditType::Delete => r.old_off() == o + n && r.new_off() == o }
}
%fn RowEdit::get_row_indices_edit(self) -> r
%requires
    self.position.offset.0 + self.values@.len() <= usize::MAX,
%ensures
    r is RowIndexEdit, r->RowIndexEdit_row_indices.0@ == self.position.row_indices.0@,
    ri_offsets(r, self.edit_type, self.position.offset.0 as int, self.values@.len() as int),
%fn GridEdit::get_row_indices_edit(self) -> r
%requires
    self.values.wf(), self.row_or_column.0 + self.values.width <= usize::MAX, self.row_or_column.0 + self.values.spec_height() <= usize::MAX,
%ensures
    r is GridIndexEdit, r->element_indices.row_indices.0@ == self.element_indices.row_indices.0@, r->element_indices.index == self.element_indices.index,
    r->direction == self.direction,
    ri_offsets(r, self.edit_type, self.row_or_column.0 as int, if self.direction == GridDirection::Column { self.values.width as int } else { self.values.spec_height() }),
%fn GridEdit::new_grid_size(self, old_grid) -> r
%requires
    self.values.wf(), old_grid.wf(),
    self.edit_type == EditType::Insert && self.direction == GridDirection::Column ==> old_grid.width + self.values.width <= usize::MAX,
    self.edit_type == EditType::Insert && self.direction == GridDirection::Row ==> old_grid.spec_height() + self.values.spec_height() <= usize::MAX,
    self.edit_type == EditType::Delete && self.direction == GridDirection::Column ==> self.values.width <= old_grid.width,
    self.edit_type == EditType::Delete && self.direction == GridDirection::Row ==> self.values.spec_height() <= old_grid.spec_height(),
%ensures
    r.0 == (match (self.edit_type, self.direction) {
        (EditType::Insert, GridDirection::Column) => old_grid.width + self.values.width,
        (EditType::Delete, GridDirection::Column) => old_grid.width - self.values.width,
        _ => old_grid.width as int,
    }),
    r.1 == (match (self.edit_type, self.direction) {
        (EditType::Insert, GridDirection::Row) => old_grid.spec_height() + self.values.spec_height(),
        (EditType::Delete, GridDirection::Row) => old_grid.spec_height() - self.values.spec_height(),
        _ => old_grid.spec_height(),
    }),

%% ---- C07: builders of range edits
%spec editing::basic_edit
/// an edit of that kind, at that place
pub open spec fn row_edit_is(e: BasicEdit, t: EditType, p: Seq<crate::row::RowIndex>, o: int, v: Seq<InputNode>) -> bool {
    e matches BasicEdit::Row(x) && x.edit_type == t && x.position.p() == p && x.position.o() == o && x.values@ == v
}
/// the edits take out the range and put the new elements there
pub open spec fn replacement(x: InputRowRange<'_>, values: Seq<InputNode>, es: Seq<BasicEdit>) -> bool {
    &&& es.len() == 2
    &&& row_edit_is(es[0], EditType::Delete, x.p(), x.lo(), x.row_focus.row.values@.subrange(x.lo(), x.hi()))
    &&& row_edit_is(es[1], EditType::Insert, x.p(), x.lo(), values)
}
%fn BasicEdit::remove_range(range) -> r
%requires
    range.wf(),
%ensures
    // the recorded elements are the ones in the range
    r.0@.len() == 1, row_edit_is(r.0@[0], EditType::Delete, range.p(), range.lo(), range.row_focus.row.values@.subrange(range.lo(), range.hi())),
    r.1.p() == range.p(), r.1.o() == range.lo(),
%start
    proof {
        let s = range.row_focus.row.values@.subrange(range.lo(), range.hi());
        assert forall|v: Vec<InputNode>| #[trigger] v@.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> cloned(s[i], v@[i])) implies v@ == s by { assert(v@ =~= s); }
    }
%fn BasicEdit::insert_at_position(position, values) -> r
%requires
    position.wf(),
%ensures
    r.0@.len() == 1, row_edit_is(r.0@[0], EditType::Insert, position.p(), position.o(), values@),
    r.1.p() == position.p(), r.1.o() == position.o() + values@.len(),
%start
    proof { crate::row::lemma_nodes_len(&values); crate::row::lemma_row_len(position.row_focus.row); }
%fn BasicEdit::replace_range(range, values) -> r
%requires
    range.wf(),
%ensures
    replacement(*range, values@, r.0@),
    r.1.p() == range.p(), r.1.start.0 == range.lo(), r.1.end.0 == range.lo() + values@.len(),
%end
%% the parts can be cloned one by one
%fn <RowEdit as Invertible>::inverse(self) -> r
%start
    broadcast use crate::vx::axiom_vec_ext;
