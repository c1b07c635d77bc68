%% undo_redo_manager.rs: the history (C12)
%spec undo_redo_manager
impl<T: Invertible + Clone> UndoRedoManager<T> {
    /// the whole history, oldest action first: the done ones, then the undone ones
    pub open spec fn hist(&self) -> Seq<T> { self.undo_stack@ + self.redo_stack@.reverse() }
    /// how many of them are done
    pub open spec fn done(&self) -> int { self.undo_stack@.len() as int }
}
/// the same history, up to cloning one action
pub open spec fn same_hist<T: Clone>(a: Seq<T>, b: Seq<T>, at: int) -> bool {
    &&& a.len() == b.len() && 0 <= at < a.len()
    &&& forall|i: int| 0 <= i < a.len() && i != at ==> (#[trigger] a[i]) == b[i]
    &&& (a[at] == b[at] || cloned(a[at], b[at]))
}
/// C12: what the operations do to the history; undoing and redoing leave it as it was
pub proof fn c12_undo_redo<T: Clone>(h: Seq<T>, h2: Seq<T>, at: int)
    requires same_hist(h, h2, at), forall|x: T, y: T| cloned(x, y) ==> x == y,
    ensures h2 == h,
{
    assert(h2 =~= h);
}
%fn <UndoRedoManager as Default>::default() -> r
%ensures
    r.hist().len() == 0, r.done() == 0,
%fn UndoRedoManager::new() -> r
%ensures
    r.hist().len() == 0, r.done() == 0,
%fn UndoRedoManager::push(self, action)
%ensures
    // exactly the undone actions are forgotten
    final(self).hist() == old(self).hist().take(old(self).done()).push(action),
    final(self).done() == old(self).done() + 1,
%start
    proof { assert(old(self).hist().take(old(self).done()) =~= old(self).undo_stack@); }
%tail
    proof { assert(self.hist() =~= self.undo_stack@); }
%fn UndoRedoManager::undo(self) -> r
%ensures
    r is None <==> old(self).done() == 0,
    r is None ==> final(self).hist() == old(self).hist() && final(self).done() == 0,
    r matches Some(x) ==> {
        &&& old(self).hist()[old(self).done() - 1].inv_is(x)
        &&& final(self).hist() == old(self).hist()
        &&& final(self).done() == old(self).done() - 1
    },
%fn UndoRedoManager::redo(self) -> r
%ensures
    r is None <==> old(self).done() == old(self).hist().len(),
    r is None ==> final(self).hist() == old(self).hist() && final(self).done() == old(self).done(),
    r matches Some(x) ==> {
        &&& (x == old(self).hist()[old(self).done()] || cloned(old(self).hist()[old(self).done()], x))
        &&& same_hist(old(self).hist(), final(self).hist(), old(self).done())
        &&& final(self).done() == old(self).done() + 1
    },
%fn UndoRedoManager::can_undo(self) -> r
%ensures
    r == (self.done() > 0),
%fn UndoRedoManager::can_redo(self) -> r
%ensures
    r == (self.done() < self.hist().len()),
%end
%spec primitive::caret_edit
impl vstd::std_specs::convert::FromSpecImpl<CaretEdit> for UndoAction {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(val: CaretEdit) -> UndoAction { UndoAction::CaretEdit(val) }
}
%% primitive/caret_edit.rs: recorded actions (C02, C12)
%impl <UndoAction as Invertible>
    open spec fn inv_is(&self, r: UndoAction) -> bool { self matches UndoAction::CaretEdit(a) && (r matches UndoAction::CaretEdit(b) && a.inv_is(b)) }
%impl <CaretEdit as Invertible>
    /// the inverted edits, last edit first, and the carets swapped
    open spec fn inv_is(&self, r: CaretEdit) -> bool { r.caret_before == self.caret_after && r.caret_after == self.caret_before && r.edits@ == crate::input_tree::inv_all(self.edits@) }
%fn CaretEdit::is_empty(self) -> r
%ensures
    r == (self.edits@.len() == 0),
%fn <CaretEdit as Invertible>::inverse(self) -> r
%start
    proof { assert(crate::input_tree::inv_all(self.edits@).take(self.edits@.len() as int) =~= crate::input_tree::inv_all(self.edits@)); }
%loop 0 it
    invariant
        it.seq().len() == self.edits@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.edits@[self.edits@.len() - 1 - i],
        vx_acc@ == crate::input_tree::inv_all(self.edits@).take(it.index@),
%end
%spec primitive::caret_edit
/// C02: undoing a recorded action gives back the formula and the caret from before it, redoing it (the inverse of the inverse) those from after it
pub proof fn c02_action(r: crate::sp::SRow, a: CaretEdit, i: CaretEdit, j: CaretEdit)
    requires crate::sp::ok_row(r), crate::input_tree::recorded_all(r, a.edits@), a.inv_is(i), i.inv_is(j),
    ensures
        crate::sp::st_all(crate::sp::st_all(crate::sp::EditState::Tree(r), a.edits@), i.edits@) == crate::sp::EditState::Tree(r),
        i.caret_after == a.caret_before && i.caret_before == a.caret_after,
        j.edits@ == a.edits@ && j.caret_before == a.caret_before && j.caret_after == a.caret_after,
{
    crate::input_tree::c02_list(r, a.edits@);
}
/// C12: what the manager hands out, for recorded actions
pub proof fn c12_action(a: UndoAction, x: UndoAction, y: UndoAction)
    requires a.inv_is(x), x.inv_is(y),
    ensures x->CaretEdit_0.caret_after == a->CaretEdit_0.caret_before, y->CaretEdit_0.edits@ == a->CaretEdit_0.edits@,
{
    let e = a->CaretEdit_0.edits@;
    let s = crate::input_tree::inv_all(crate::input_tree::inv_all(e));
    assert forall|k: int| 0 <= k < e.len() implies s[k] == e[k] by { match e[k] { BasicEdit::Row(b) => {} BasicEdit::Grid(b) => {} } }
    assert(s =~= e);
}
%end
