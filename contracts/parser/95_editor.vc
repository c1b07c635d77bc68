%% caret/src/math_editor.rs, editor_action_builder.rs: between operations (C16)
%spec editor_action_builder
use crate::sp::*;
use crate::primitive::UndoAction;
use crate::math_editor::*;
impl<'e> EditorActionBuilder<'e> {
    /// what finishing needs
    pub open spec fn ready(&self, c: MinimalCaret) -> bool {
        &&& (*self.editor).inv() && self.caret_before == self.editor.caret
        &&& crate::input_tree::recorded_all(self.editor.f(), self.edits@)
        &&& st_all(EditState::Tree(self.editor.f()), self.edits@) matches EditState::Tree(r2) && c.valid_in(r2)
    }
}
%fn EditorActionBuilder::new(editor) -> r
%ensures
    *r.editor == *old(editor), *final(r.editor) == *final(editor),
    r.caret_before == old(editor).caret, r.edits@.len() == 0,
%fn EditorActionBuilder::add_edit(self, edit)
%ensures
    final(self).edits@ == old(self).edits@.push(edit), final(self).caret_before == old(self).caret_before,
    *final(self).editor == *old(self).editor, *final(final(self).editor) == *final(old(self).editor),
%fn EditorActionBuilder::add_edits(self, edits)
%ensures
    final(self).edits@ == old(self).edits@ + edits@, final(self).caret_before == old(self).caret_before,
    *final(self).editor == *old(self).editor, *final(final(self).editor) == *final(old(self).editor),
%fn EditorActionBuilder::discard(self)
%ensures
    *final(self.editor) == *old(self.editor),
%fn EditorActionBuilder::finish(self, caret_after) -> r
%requires
    self.ready(caret_after),
%ensures
    // the edits are applied, recorded as one action, and the caret is moved
    final(self.editor).inv(),
    finished(*old(self.editor), *final(self.editor), r), extends(*old(self.editor), *final(self.editor)), r.caret_after == caret_after, r.edits == self.edits,
%start
    proof {
        let e = *self.editor; let es = self.edits@;
        crate::input_tree::c02_list(e.f(), es);
        if es.len() > 0 {
            let h = e.undo_stack.hist(); let k = e.undo_stack.done();
            let a = UndoAction::CaretEdit(CaretEdit { caret_before: self.caret_before, caret_after: caret_after, edits: self.edits });
            let r2 = crate::sp::st_all(crate::sp::EditState::Tree(e.f()), es)->Tree_0;
            assert(recorded_step(e.f(), a, r2));
            lemma_push(h, k, e.f(), a, r2);
            assert(h.take(k).push(a).take(k) =~= h.take(k));
        }
    }
%fn <EditorActionBuilder as Deref>::deref(self) -> r
%ensures
    *r == *old(self.editor),

%spec math_editor
use crate::sp::*;
use crate::input_tree::{recorded_all, ok_nodes};
use crate::row::RowIndex;
use crate::input_tree::valid_range;
use crate::editing::RowEdit;
use crate::undo_redo_manager::same_hist;
use crate::editing::invertible::Invertible;
/// the tree the parser builds (the parser itself is not under contract)
pub uninterp spec fn parsed_of(parser: MathParser, v: Seq<InputNode>) -> SyntaxNode;
/// an action that leads from one formula to the next
pub open spec fn recorded_step(r: SRow, a: UndoAction, r2: SRow) -> bool {
    a matches UndoAction::CaretEdit(c) && recorded_all(r, c.edits@) && st_all(EditState::Tree(r), c.edits@) == EditState::Tree(r2)
        && c.caret_before.valid_in(r) && c.caret_after.valid_in(r2)
}
/// the formulas between the actions
pub open spec fn history(h: Seq<UndoAction>, s: Seq<SRow>) -> bool {
    &&& s.len() == h.len() + 1
    &&& forall|i: int| 0 <= i < s.len() ==> ok_row(#[trigger] s[i])
    &&& forall|i: int| 0 <= i < h.len() ==> recorded_step(s[i], #[trigger] h[i], s[i + 1])
}
/// after the first k actions the formula is r
pub open spec fn hist_ok(h: Seq<UndoAction>, k: int, r: SRow) -> bool {
    0 <= k <= h.len() && exists|s: Seq<SRow>| #[trigger] history(h, s) && s[k] == r
}
pub open spec fn good_rule(r: AutocompleteRule) -> bool { r.parser@.len() > 0 && ok_nodes(r.result@) }
pub open spec fn good_rules(s: Seq<AutocompleteRule>) -> bool { forall|i: int| 0 <= i < s.len() ==> good_rule(#[trigger] s[i]) }
impl MathEditor {
    /// the formula
    pub open spec fn f(&self) -> SRow { self.input.root.sv() }
    pub open spec fn inv(&self) -> bool {
        &&& ok_row(self.f()) && self.caret.valid_in(self.f())
        &&& good_rules((*self.parser).rules())
        &&& hist_ok(self.undo_stack.hist(), self.undo_stack.done(), self.f())
        &&& (self.parsed matches Some(t) ==> t == parsed_of(*self.parser, self.input.root.values@))
    }
}
/// what finishing an action leaves alone
pub open spec fn keeps(e: MathEditor, e2: MathEditor) -> bool {
    e2.parser == e.parser && e2.selection_mode == e.selection_mode && e2.autocomplete_state == e.autocomplete_state && e2.caret_mover == e.caret_mover
}
/// the history is the old one and then only further actions; nothing else changes the formula
pub open spec fn extends(e: MathEditor, e2: MathEditor) -> bool {
    let h = e.undo_stack.hist(); let k = e.undo_stack.done(); let h2 = e2.undo_stack.hist(); let k2 = e2.undo_stack.done();
    ||| h2 == h && k2 == k && e2.input == e.input
    ||| k2 > k && h2.len() == k2 && h2.take(k) == h.take(k)
}
pub open spec fn finished(e: MathEditor, e2: MathEditor, r: CaretEdit) -> bool {
    &&& r.caret_before == e.caret && e2.caret == r.caret_after && keeps(e, e2)
    &&& recorded_all(e.f(), r.edits@)
    &&& EditState::Tree(e2.f()) == st_all(EditState::Tree(e.f()), r.edits@)
    &&& if r.edits@.len() == 0 { e2.input == e.input && e2.parsed == e.parsed && e2.undo_stack == e.undo_stack }
        else {
            &&& e2.parsed is None && e2.undo_stack.done() == e.undo_stack.done() + 1
            &&& e2.undo_stack.hist() == e.undo_stack.hist().take(e.undo_stack.done()).push(UndoAction::CaretEdit(r))
        }
}
/// one more action
pub proof fn lemma_push(h: Seq<UndoAction>, k: int, r: SRow, a: UndoAction, r2: SRow)
    requires hist_ok(h, k, r), recorded_step(r, a, r2), ok_row(r2),
    ensures hist_ok(h.take(k).push(a), k + 1, r2),
{
    let s = choose|s: Seq<SRow>| #[trigger] history(h, s) && s[k] == r;
    let h2 = h.take(k).push(a); let s2 = s.take(k + 1).push(r2);
    assert forall|i: int| 0 <= i < h2.len() implies recorded_step(s2[i], #[trigger] h2[i], s2[i + 1]) by { if i < k { assert(h2[i] == h[i]); } }
    assert(history(h2, s2));
}

/// C16: undoing an action gives back exactly the formula from before it
pub proof fn c16_undo_exact(r: SRow, a: UndoAction, r2: SRow, x: SRow)
    requires ok_row(r), ok_row(x), recorded_step(r, a, r2), recorded_step(x, a, r2),
    ensures x == r,
{
    let es = a->CaretEdit_0.edits@;
    crate::input_tree::c02_list(r, es); crate::input_tree::c02_list(x, es);
}
/// C16: redoing it gives back exactly the formula from after it
pub proof fn c16_redo_exact(r: SRow, a: UndoAction, r2: SRow, x: SRow)
    requires recorded_step(r, a, r2), recorded_step(r, a, x),
    ensures x == r2,
{ }
/// the last action was taken back
pub open spec fn undone(e: MathEditor, e2: MathEditor) -> bool {
    let k = e2.undo_stack.done(); let h = e2.undo_stack.hist();
    &&& h == e.undo_stack.hist() && k == e.undo_stack.done() - 1
    &&& recorded_step(e2.f(), h[k], e.f()) && e2.caret == h[k]->CaretEdit_0.caret_before
    &&& e2.parsed is None && keeps(e, e2)
}
/// the next action was done again
pub open spec fn redone(e: MathEditor, e2: MathEditor) -> bool {
    let k = e.undo_stack.done(); let h = e2.undo_stack.hist();
    &&& h == e.undo_stack.hist() && e2.undo_stack.done() == k + 1
    &&& recorded_step(e.f(), h[k], e2.f()) && e2.caret == h[k]->CaretEdit_0.caret_after
    &&& e2.parsed is None && keeps(e, e2)
}
/// C16: undo and then redo, and the other way around, change nothing
pub proof fn c16_there_and_back(a: MathEditor, b: MathEditor, c: MathEditor)
    requires a.inv(), b.inv(), c.inv(),
    ensures
        undone(a, b) && redone(b, c) ==> c.f() == a.f() && c.undo_stack.hist() == a.undo_stack.hist() && c.undo_stack.done() == a.undo_stack.done(),
        redone(a, b) && undone(b, c) ==> c.f() == a.f() && c.undo_stack.hist() == a.undo_stack.hist() && c.undo_stack.done() == a.undo_stack.done(),
{
    if undone(a, b) && redone(b, c) { c16_redo_exact(b.f(), b.undo_stack.hist()[b.undo_stack.done()], a.f(), c.f()); }
    if redone(a, b) && undone(b, c) { c16_undo_exact(a.f(), b.undo_stack.hist()[a.undo_stack.done()], b.f(), c.f()); }
}
/// C16: an action that was just recorded, and then undone: the formula and the caret are as before it
pub proof fn c16_undo_last(a: MathEditor, b: MathEditor, c: MathEditor, r: CaretEdit)
    requires a.inv(), b.inv(), c.inv(), finished(a, b, r), r.edits@.len() > 0, undone(b, c), recorded_step(a.f(), UndoAction::CaretEdit(r), b.f()),
    ensures c.f() == a.f() && c.caret == a.caret,
{
    c16_undo_exact(a.f(), UndoAction::CaretEdit(r), b.f(), c.f());
}
/// the inverse of the last action can be applied, and leads back
pub broadcast proof fn lemma_undo(h: Seq<UndoAction>, k: int, r: SRow, x: UndoAction)
    requires #[trigger] hist_ok(h, k, r), k > 0, (#[trigger] h[k - 1].inv_is(x)),
    ensures ({
        let es = x->CaretEdit_0.edits@;
        st_all_ok(EditState::Tree(r), es) && (st_all(EditState::Tree(r), es) matches EditState::Tree(r1) && ok_row(r1) && recorded_step(r1, h[k - 1], r) && hist_ok(h, k - 1, r1)
            && x->CaretEdit_0.caret_after.valid_in(r1) && x->CaretEdit_0.caret_after == h[k - 1]->CaretEdit_0.caret_before)
    }),
{
    let s = choose|s: Seq<SRow>| #[trigger] history(h, s) && s[k] == r;
    let es = h[k - 1]->CaretEdit_0.edits@;
    assert(recorded_step(s[k - 1], h[k - 1], s[k - 1 + 1]));
    crate::input_tree::c02_list(s[k - 1], es);
}
/// the next action can be applied
pub broadcast proof fn lemma_redo(h: Seq<UndoAction>, k: int, r: SRow, h2: Seq<UndoAction>)
    requires #[trigger] hist_ok(h, k, r), k < h.len(), #[trigger] same_hist(h, h2, k),
    ensures ({
        let c = h[k]->CaretEdit_0;
        h2 == h && st_all_ok(EditState::Tree(r), c.edits@) && (st_all(EditState::Tree(r), c.edits@) matches EditState::Tree(r1) && ok_row(r1) && recorded_step(r, h[k], r1) && hist_ok(h, k + 1, r1) && c.caret_after.valid_in(r1))
    }),
{
    assert(h2 =~= h);
    let s = choose|s: Seq<SRow>| #[trigger] history(h, s) && s[k] == r;
    assert(recorded_step(s[k], h[k], s[k + 1]));
    crate::input_tree::c02_list(s[k], h[k]->CaretEdit_0.edits@);
}
/// nothing but what the popup remembers has changed
pub open spec fn popup_only(e: MathEditor, e2: MathEditor) -> bool {
    e2.input == e.input && e2.parser == e.parser && e2.parsed == e.parsed && e2.caret == e.caret && e2.selection_mode == e.selection_mode && e2.undo_stack == e.undo_stack && e2.caret_mover == e.caret_mover
}
pub open spec fn row_edits(es: Seq<BasicEdit>) -> bool { forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]) is Row }
/// C04: stored places follow a list of edits
pub proof fn lemma_follow_all(r: SRow, es: Seq<BasicEdit>, p: Seq<RowIndex>, x: int, y: int)
    requires ok_row(r), recorded_all(r, es), row_edits(es), valid_range(r, p, x, y),
    ensures
        st_all_ok(EditState::Range(p, x, y), es), st_all_ok(EditState::Pos(p, x), es),
        st_all(EditState::Tree(r), es) matches EditState::Tree(r2)
            && (st_all(EditState::Range(p, x, y), es) matches EditState::Range(q, u, v) && valid_range(r2, q, u, v))
            && (st_all(EditState::Pos(p, x), es) matches EditState::Pos(s, w) && valid_pos(r2, s, w)),
    decreases es.len()
{
    if es.len() > 0 {
        let d = es.drop_last(); let l = es.last();
        lemma_follow_all(r, d, p, x, y);
        crate::input_tree::c02_list(r, d);
        if let EditState::Tree(r1) = st_all(EditState::Tree(r), d) { if let EditState::Range(q, u, v) = st_all(EditState::Range(p, x, y), d) { if let EditState::Pos(s, w) = st_all(EditState::Pos(p, x), d) { if let BasicEdit::Row(b) = l {
            lemma_range_ok(r1, b, q, u, v); lemma_range_ok(r1, b, s, w, w);
            crate::input_tree::c04_follow(r1, b, q, u, v);
            crate::input_tree::c04_position(r1, b, s, w);
        } } } }
    }
}
pub proof fn lemma_range_ok(r: SRow, b: RowEdit, p: Seq<RowIndex>, x: int, y: int)
    requires ok_row(r), edit_applies(r, BasicEdit::Row(b)), crate::input_tree::in_memory(at_path(r, b.position.p())), valid_range(r, p, x, y),
    ensures range_ok(p, x, y, BasicEdit::Row(b)),
{
    let q = b.position.p();
    if is_prefix(q, p) && q != p {
        assert(q.len() < p.len()) by { if q.len() == p.len() { assert(p.take(q.len() as int) =~= p); } }
        crate::input_tree::lemma_path_at(r, p, q.len() as int);
    }
}
pub broadcast proof fn lemma_follow_ranges(r: SRow, es: Seq<BasicEdit>, p: Seq<RowIndex>, x: int, y: int)
    requires ok_row(r), #[trigger] recorded_all(r, es), row_edits(es), #[trigger] valid_range(r, p, x, y),
    ensures
        st_all_ok(EditState::Range(p, x, y), es),
        st_all(EditState::Tree(r), es) matches EditState::Tree(r2) && (st_all(EditState::Range(p, x, y), es) matches EditState::Range(q, u, v) && valid_range(r2, q, u, v)),
{ lemma_follow_all(r, es, p, x, y); }
pub broadcast proof fn lemma_follow_positions(r: SRow, es: Seq<BasicEdit>, p: Seq<RowIndex>, x: int)
    requires ok_row(r), #[trigger] recorded_all(r, es), row_edits(es), #[trigger] valid_pos(r, p, x),
    ensures
        st_all_ok(EditState::Pos(p, x), es),
        st_all(EditState::Tree(r), es) matches EditState::Tree(r2) && (st_all(EditState::Pos(p, x), es) matches EditState::Pos(q, u) && valid_pos(r2, q, u)),
{ lemma_follow_all(r, es, p, x, x); }
pub broadcast proof fn lemma_no_edits(es: Seq<BasicEdit>)
    ensures #[trigger] (Seq::<BasicEdit>::empty() + es) == es,
{ assert(Seq::<BasicEdit>::empty() + es =~= es); }
/// what finishing needs of a replacement
pub broadcast proof fn lemma_replacement(x: InputRowRange<'_>, values: Seq<InputNode>, es: Seq<BasicEdit>)
    requires x.wf(), ok_nodes(values), values.len() <= usize::MAX, #[trigger] replacement(x, values, es),
    ensures ({
        let r = x.sroot();
        let r2 = put_path(r, x.p(), replaced(at_path(r, x.p()), x.lo(), x.hi(), sv_nodes(values)));
        recorded_all(r, es) && row_edits(es) && ok_row(r) && st_all(EditState::Tree(r), es) == EditState::Tree(r2) && valid_pos(r2, x.p(), x.lo() + values.len())
    }),
{
    if let BasicEdit::Row(b) = es[1] { crate::input_tree::c07_replace(x, b.values, es); }
    crate::focus::c08_address(x.row_focus);
}
/// what finishing needs of a removal
pub broadcast proof fn lemma_removal(x: InputFocusRow<'_>, o: int, d: HorizontalDirection, r: Option<(Vec<BasicEdit>, MinimalInputRowPosition)>)
    requires x.wf(), 0 <= o <= x.row.values@.len(), #[trigger] removes(x, o, d, r),
    ensures r matches Some((es, m)) ==> applicable(x.sroot(), es@, m),
{
    crate::focus::c08_address(x);
    if let Some((es, m)) = r {
        let s = x.sroot(); let p = x.p(); let v = x.srow().values; let i = if d == HorizontalDirection::Left { o - 1 } else { o };
        if 0 <= i < v.len() && v[i] is Sym { c15_delete(x, es@, i, i + 1, m.p(), m.o()); }
        else if es@.len() == 0 {
            crate::row::lemma_row_len(x.row);
            crate::primitive::movement::c13_arrows(InputRowPosition { row_focus: x, offset: Offset(o as usize) });
            assert(valid_pos(s, m.p(), m.o()));
            assert(st_all(EditState::Tree(s), es@) == EditState::Tree(s));
            assert(applicable(x.sroot(), es@, m));
        } else if unwraps(s, es@, p, i, m.p(), m.o()) { c15_unwrap(x.root(), es@, p, i, m.p(), m.o()); }
        else { c15_unwrap(x.root(), es@, p.drop_last(), p.last().0 as int, m.p(), m.o()); }
    }
}
pub broadcast proof fn lemma_deletes(x: InputRowRange<'_>, es: Seq<BasicEdit>, m: MinimalInputRowPosition)
    requires x.wf(), #[trigger] deletes(x.sroot(), es, x.p(), x.lo(), x.hi(), m.p(), m.o()),
    ensures applicable(x.sroot(), es, m),
{
    c15_delete(x.row_focus, es, x.lo(), x.hi(), m.p(), m.o());
}
/// they can be applied, and lead to a formula with that place
pub open spec fn applicable(r: SRow, es: Seq<BasicEdit>, m: MinimalInputRowPosition) -> bool {
    recorded_all(r, es) && row_edits(es) && (st_all(EditState::Tree(r), es) matches EditState::Tree(r2) && valid_pos(r2, m.p(), m.o()))
}
pub broadcast proof fn lemma_ok_push(v: Seq<InputNode>, x: InputNode)
    requires #[trigger] ok_nodes(v), ok_node(x.sv()),
    ensures ok_nodes(#[trigger] v.push(x)),
{
    assert forall|i: int| 0 <= i < v.len() + 1 implies ok_node(#[trigger] sv_nodes(v.push(x))[i]) by { if i < v.len() { assert(ok_node(sv_nodes(v)[i])); } }
}
%fn MathEditor::new(parser) -> r
%requires
    good_rules((*parser).rules()),
%ensures
    r.inv(), r.f().values.len() == 0, r.undo_stack.hist().len() == 0, r.parser == parser,
%tail
    proof {
        let f = input.root.sv();
        assert(f.values.len() == 0);
        assert forall|h: Seq<UndoAction>| #[trigger] h.len() == 0 implies hist_ok(h, 0, f) by { assert(history(h, seq![f])); }
    }
%fn MathEditor::apply_action(self, action)
%requires
    action matches UndoAction::CaretEdit(c) && st_all_ok(EditState::Tree(old(self).f()), c.edits@),
%ensures
    action matches UndoAction::CaretEdit(c) && EditState::Tree(final(self).f()) == st_all(EditState::Tree(old(self).f()), c.edits@) && final(self).caret == c.caret_after,
    final(self).parsed is None, keeps(*old(self), *final(self)), final(self).undo_stack == old(self).undo_stack,
%fn MathEditor::undo(self) -> r
%requires
    old(self).inv(),
%ensures
    final(self).inv(),
    r is None <==> old(self).undo_stack.done() == 0,
    r is None ==> popup_only(*old(self), *final(self)) || (final(self).f() == old(self).f() && final(self).caret == old(self).caret),
    r is Some ==> undone(*old(self), *final(self)),
%start
    broadcast use lemma_undo;
%fn MathEditor::redo(self) -> r
%requires
    old(self).inv(),
%ensures
    final(self).inv(),
    r is None <==> old(self).undo_stack.done() == old(self).undo_stack.hist().len(),
    r is None ==> final(self).f() == old(self).f() && final(self).caret == old(self).caret,
    r is Some ==> redone(*old(self), *final(self)),
%start
    broadcast use lemma_redo;
%derived PartialEq AutocompleteRule
crate::node::sv_nodes(self.result@) == crate::node::sv_nodes(other.result@) && self.parser@ == other.parser@
%fn AutocompleteState::get_autocomplete(self, matches, caret_position) -> r
%ensures
    shown(matches@, caret_position, r),
    remembered(old(self).current_autocomplete, r, final(self).current_autocomplete),
%loop 0 it
    invariant_except_break
        vx_n == it.index@, vx_acc is None,
        forall|j: int| 0 <= j < it.index@ ==> !same_rule(*(#[trigger] matches@[j]).rule, last_rule),
    invariant
        it.seq().len() == matches@.len(), matches@.len() <= usize::MAX, forall|j: int| 0 <= j < matches@.len() ==> *(#[trigger] it.seq()[j]) == matches@[j],
        vx_acc matches Some(i) ==> i < matches@.len() && first_of(matches@, last_rule, i as int),
    ensures
        vx_acc is None ==> forall|j: int| 0 <= j < matches@.len() ==> !same_rule(*(#[trigger] matches@[j]).rule, last_rule),
%at let selected_index
    proof { crate::vx::lemma_vec_len(&matches); }
%spec math_editor
pub open spec fn same_rule(a: AutocompleteRule, b: AutocompleteRule) -> bool { sv_nodes(a.result@) == sv_nodes(b.result@) && a.parser@ == b.parser@ }
pub open spec fn first_of(ms: Seq<AutocompleteRuleMatch<'_>>, l: AutocompleteRule, i: int) -> bool {
    0 <= i < ms.len() && same_rule(*ms[i].rule, l) && forall|j: int| 0 <= j < i ==> !same_rule(*(#[trigger] ms[j]).rule, l)
}
/// the chosen rule stays chosen as long as it is offered; otherwise the first one is
pub open spec fn remembered(last: Option<AutocompleteRule>, r: Option<AutocompleteResults<'_>>, now: Option<AutocompleteRule>) -> bool {
    match r {
        None => now is None,
        Some(x) => {
            &&& now == Some(*x.matches@[x.selected_index as int].rule)
            &&& chosen(last, x)
        }
    }
}
pub open spec fn chosen(last: Option<AutocompleteRule>, x: AutocompleteResults<'_>) -> bool {
    &&& last is None ==> x.selected_index == 0
    &&& last matches Some(l) ==> {
        ||| first_of(x.matches@, l, x.selected_index as int)
        ||| x.selected_index == 0 && forall|j: int| 0 <= j < x.matches@.len() ==> !same_rule(*(#[trigger] x.matches@[j]).rule, l)
    }
}
/// the popup with these matches: all of them, and there is none without a match
pub open spec fn shown(ms: Seq<AutocompleteRuleMatch<'_>>, c: MinimalInputRowPosition, r: Option<AutocompleteResults<'_>>) -> bool {
    &&& r is None <==> ms.len() == 0
    &&& r matches Some(x) ==> x.wf() && x.caret_position == c && x.matches@.to_multiset() == ms.to_multiset() && x.matches@.len() == ms.len() && ordered(x.matches@)
}
/// the more of a rule is there, the further down it is in the list
pub open spec fn ordered(ms: Seq<AutocompleteRuleMatch<'_>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ms.len() ==> (#[trigger] ms[i]).rule_match_length <= (#[trigger] ms[j]).rule_match_length
}
/// the caret is not a selection
pub open spec fn collapsed(c: MinimalCaret) -> bool { c.start_position.p() == c.end_position.p() && c.start_position.o() == c.end_position.o() }
/// both ends are in cells of one table (editing such a selection is a todo!())
pub open spec fn selects_cells(e: MathEditor) -> bool { crate::caret::in_table(e.f(), e.caret.start_position.p(), e.caret.end_position.p()) }
/// what the popup shows at that place: the matches in front of it
pub open spec fn offered(e: MathEditor, p: Seq<RowIndex>, o: int, ms: Seq<AutocompleteRuleMatch<'_>>) -> bool {
    exists|f: InputFocusRow<'_>| #[trigger] f.wf() && f.root() == e.input.root && f.p() == p && exactly((*e.parser).rules(), f.row.values@, o, 2, ms)
}
pub open spec fn popup(e: MathEditor, r: Option<AutocompleteResults<'_>>) -> bool {
    match r {
        Some(x) => {
            &&& x.wf() && valid_pos(e.f(), x.caret_position.p(), x.caret_position.o())
            &&& collapsed(e.caret) && x.caret_position.p() == e.caret.start_position.p() && x.caret_position.o() == e.caret.start_position.o()
            &&& ordered(x.matches@)
            &&& exists|ms: Seq<AutocompleteRuleMatch<'_>>| #[trigger] offered(e, x.caret_position.p(), x.caret_position.o(), ms) && ms.len() == x.matches@.len() && ms.to_multiset() == x.matches@.to_multiset()
            &&& forall|i: int| 0 <= i < x.matches@.len() ==> (*e.parser).rules().contains(*(#[trigger] x.matches@[i]).rule)
        }
        None => collapsed(e.caret) ==> offered(e, e.caret.start_position.p(), e.caret.start_position.o(), Seq::empty()),
    }
}
/// what the popup offers are rules of the parser
pub proof fn lemma_offered(rs: Seq<AutocompleteRule>, v: Seq<InputNode>, o: int, ms: Seq<AutocompleteRuleMatch<'_>>, xs: Seq<AutocompleteRuleMatch<'_>>)
    requires exactly(rs, v, o, 2, ms), ms.to_multiset() == xs.to_multiset(),
    ensures forall|i: int| 0 <= i < xs.len() ==> rs.contains(*(#[trigger] xs[i]).rule),
{
    c17_exact(rs, v, o, 2, ms);
    assert forall|i: int| 0 <= i < xs.len() implies rs.contains(*(#[trigger] xs[i]).rule) by {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        let m = xs[i];
        assert(xs.contains(m)); assert(xs.to_multiset().count(m) > 0);
        assert(ms.contains(m));
        let k = choose|k: int| 0 <= k < ms.len() && ms[k] == m;
        let j = choose|j: int| 0 <= j < rs.len() && is_match(#[trigger] rs[j], v, o, 2, ms[k]);
        assert(rs[j] == *m.rule);
    }
}
/// the popup at a place
pub broadcast proof fn lemma_popup(e: MathEditor, x: InputRowPosition<'_>, ms: Seq<AutocompleteRuleMatch<'_>>, c: MinimalInputRowPosition, r: Option<AutocompleteResults<'_>>)
    requires
        x.wf(), x.root() == e.input.root, c.p() == x.p(), c.o() == x.o(), collapsed(e.caret), x.p() == e.caret.start_position.p(), x.o() == e.caret.start_position.o(),
        #[trigger] exactly((*e.parser).rules(), x.row_focus.row.values@, x.o(), 2, ms), #[trigger] shown(ms, c, r),
    ensures popup(e, r),
{
    crate::focus::row_position::c08_valid(x);
    let f = x.row_focus;
    assert(f.wf());
    assert(offered(e, x.p(), x.o(), ms));
    assert(ms.len() == 0 ==> ms =~= Seq::empty());
    if let Some(y) = r { lemma_offered((*e.parser).rules(), f.row.values@, x.o(), ms, y.matches@); }
}
use crate::focus::{InputFocusRow, InputRowPosition};
use crate::editing::EditType;
use crate::editing::basic_edit::replacement;
use crate::parser::autocomplete::{exactly, is_match, c17_exact};
%fn MathEditor::get_autocomplete(self) -> r
%requires
    old(self).inv(),
%ensures
    popup_only(*old(self), *final(self)), final(self).inv(),
    popup(*old(self), r),
    r matches Some(x) ==> chosen(old(self).autocomplete_state.current_autocomplete, x) && final(self).autocomplete_state.current_autocomplete == Some(*x.matches@[x.selected_index as int].rule),
%start
    broadcast use {crate::caret::lemma_same_row, crate::caret::lemma_nothing_selected, lemma_popup};
%fn MathEditor::start_autocorrect(self) -> r
%requires
    old(self).inv(),
%ensures
    popup_only(*old(self), *final(self)), final(self).inv(),
    r.autocorrect matches Some(a) ==> (*old(self).parser).rules().contains(a.rule) && valid_range(old(self).f(), a.caret_range.p(), a.caret_range.start.0 as int, a.caret_range.end.0 as int),
    started(*old(self), r.autocorrect),
%fn MathEditor::splice_at_range(self, range, values)
%requires
    old(self).inv(), valid_range(old(self).f(), range.p(), range.start.0 as int, range.end.0 as int), ok_nodes(values@),
%ensures
    final(self).inv(), extends(*old(self), *final(self)),
    spliced(*old(self), *final(self), range.p(), imin(range.start.0 as int, range.end.0 as int), imax(range.start.0 as int, range.end.0 as int), values@),
%start
    broadcast use {lemma_replacement, lemma_follow_ranges, lemma_follow_positions, lemma_no_edits};
    proof { assert(Seq::<RowIndex>::empty() + range.p() =~= range.p()); }
%spec math_editor
use crate::grid::grid_view::{imin, imax};
use crate::input_tree::replaced;
use crate::node::sv_nodes;
/// the elements from lo to hi were replaced, as one action, and the caret stayed at the same content (C04 says where that is)
pub open spec fn spliced(e: MathEditor, e2: MathEditor, p: Seq<RowIndex>, lo: int, hi: int, v: Seq<InputNode>) -> bool {
    let k = e.undo_stack.done(); let h2 = e2.undo_stack.hist();
    &&& e2.f() == put_path(e.f(), p, replaced(at_path(e.f(), p), lo, hi, sv_nodes(v)))
    &&& e2.undo_stack.done() == k + 1 && h2.len() == k + 1
    &&& h2[k] matches UndoAction::CaretEdit(c) && row_edits(c.edits@) && c.edits@.len() == 2 && {
        &&& EditState::Pos(e2.caret.start_position.p(), e2.caret.start_position.o()) == st_all(EditState::Pos(e.caret.start_position.p(), e.caret.start_position.o()), c.edits@)
        &&& EditState::Pos(e2.caret.end_position.p(), e2.caret.end_position.o()) == st_all(EditState::Pos(e.caret.end_position.p(), e.caret.end_position.o()), c.edits@)
    }
}
/// what the caret selects
pub open spec fn selected(root: InputRow, c: MinimalCaret, s: CaretSelection<'_>) -> bool {
    exists|a: InputRowPosition<'_>, b: InputRowPosition<'_>| #[trigger] crate::caret::selects(s, root, a, b) && at(root, a, c.start_position) && at(root, b, c.end_position)
}
pub open spec fn at(root: InputRow, a: InputRowPosition<'_>, m: MinimalInputRowPosition) -> bool { a.wf() && a.root() == root && a.p() == m.p() && a.o() == m.o() }
pub proof fn lemma_selected(e: MathEditor)
    ensures forall|c: Caret<'_>| #[trigger] c.wf() && c.tree.root == e.input.root && c.start_position.p() == e.caret.start_position.p() && c.start_position.o() == e.caret.start_position.o()
        && c.end_position.p() == e.caret.end_position.p() && c.end_position.o() == e.caret.end_position.o() ==> selected(e.input.root, e.caret, c.selection),
{
    assert forall|c: Caret<'_>| #[trigger] c.wf() && c.tree.root == e.input.root && c.start_position.p() == e.caret.start_position.p() && c.start_position.o() == e.caret.start_position.o()
        && c.end_position.p() == e.caret.end_position.p() && c.end_position.o() == e.caret.end_position.o() implies selected(e.input.root, e.caret, c.selection) by {
        assert(at(e.input.root, c.start_position, e.caret.start_position) && at(e.input.root, c.end_position, e.caret.end_position));
    }
}
pub open spec fn is_at(m: MinimalInputRowPosition, p: Seq<RowIndex>, o: int) -> bool { m.p() == p && m.o() == o }
/// the caret is there, nothing selected
pub open spec fn caret_at(c: MinimalCaret, p: Seq<RowIndex>, o: int) -> bool { is_at(c.start_position, p, o) && is_at(c.end_position, p, o) }
pub open spec fn same_place(a: MinimalInputRowPosition, b: MinimalInputRowPosition) -> bool { is_at(a, b.p(), b.o()) }
/// no action was recorded
pub open spec fn no_action(e: MathEditor, m: MathEditor) -> bool { m.input == e.input && m.undo_stack == e.undo_stack && m.parsed == e.parsed }
/// an arrow key
pub open spec fn arrowed(e: MathEditor, m: MathEditor, d: Direction) -> bool {
    no_action(e, m) && exists|s: CaretSelection<'_>| #[trigger] selected(e.input.root, e.caret, s) && match s {
        CaretSelection::Grid(_) => same_place(m.caret.start_position, e.caret.start_position) && same_place(m.caret.end_position, e.caret.end_position),
        CaretSelection::Row(x) => match arrow(x, d) {
            Some((q, u)) => caret_at(m.caret, q, u),
            None => same_place(m.caret.start_position, e.caret.start_position) && same_place(m.caret.end_position, e.caret.end_position),
        },
    }
}
/// an arrow key while selecting: only the end moves
pub open spec fn selecting(e: MathEditor, m: MathEditor, d: Direction) -> bool {
    no_action(e, m) && same_place(m.caret.start_position, e.caret.start_position) && exists|s: CaretSelection<'_>| #[trigger] selected(e.input.root, e.caret, s) && (s matches CaretSelection::Row(x) && moved(x.sroot(), x.p(), x.end.0 as int, d) == Some((m.caret.end_position.p(), m.caret.end_position.o())))
}
/// there is nowhere to move the end of the selection
pub open spec fn stuck(e: MathEditor, d: Direction) -> bool {
    exists|s: CaretSelection<'_>| #[trigger] selected(e.input.root, e.caret, s) && (s matches CaretSelection::Row(x) && moved(x.sroot(), x.p(), x.end.0 as int, d) is None)
}
/// C15: nothing can be deleted there
pub open spec fn nothing_to_remove(e: MathEditor, mode: CaretRemoveMode) -> bool {
    exists|x: InputRowRange<'_>, q: Option<(Vec<BasicEdit>, MinimalInputRowPosition)>| #[trigger] removed(x, mode, q) && selected(e.input.root, e.caret, CaretSelection::Row(x)) && q is None
}
/// typing or pasting: the selected elements are replaced by these, as one action, and the caret is directly behind them
pub open spec fn typed(e: MathEditor, m: MathEditor, v: Seq<InputNode>) -> bool {
    &&& m.undo_stack.done() == e.undo_stack.done() + 1
    &&& exists|s: CaretSelection<'_>| #[trigger] selected(e.input.root, e.caret, s) && (s matches CaretSelection::Row(x) && {
        &&& m.f() == put_path(e.f(), x.p(), replaced(at_path(e.f(), x.p()), x.lo(), x.hi(), sv_nodes(v)))
        &&& caret_at(m.caret, x.p(), x.lo() + v.len())
    })
}
pub open spec fn symbols(v: Seq<String>) -> Seq<InputNode> { v.map_values(|t: String| InputNode::Symbol(t)) }
/// backspace, delete: what C15 says about the selection
pub open spec fn erased(e: MathEditor, m: MathEditor, mode: CaretRemoveMode) -> bool {
    exists|x: InputRowRange<'_>, q: Option<(Vec<BasicEdit>, MinimalInputRowPosition)>| #[trigger] removed(x, mode, q) && selected(e.input.root, e.caret, CaretSelection::Row(x)) && (q matches Some((es, c)) && {
        &&& EditState::Tree(m.f()) == st_all(EditState::Tree(e.f()), es@)
        &&& m.undo_stack.done() == e.undo_stack.done() + (if es@.len() == 0 { 0int } else { 1int })
        &&& caret_at(m.caret, c.p(), c.o())
    })
}
/// before a command: autocorrect remembers the chosen suggestion of the popup, if its whole text is there
pub open spec fn started(e: MathEditor, a: Option<AutocorrectAction>) -> bool {
    exists|r: Option<AutocompleteResults<'_>>| #[trigger] popup(e, r) && (r matches Some(x) ==> chosen(e.autocomplete_state.current_autocomplete, x)) && remembers(r, a)
}
pub open spec fn remembers(r: Option<AutocompleteResults<'_>>, a: Option<AutocorrectAction>) -> bool {
    match r {
        None => a is None,
        Some(x) => {
            let m = x.matches@[x.selected_index as int]; let o = x.caret_position.o();
            if complete(x.matches@, x.selected_index as int) {
                a matches Some(a) && a.rule == *m.rule && a.caret_range.p() == x.caret_position.p() && a.caret_range.start.0 == o
                    && a.caret_range.end.0 == if m.input_match_length <= o { o - m.input_match_length } else { 0 }
            } else { a is None }
        }
    }
}
/// the edits of the command, if it recorded any
pub open spec fn done_edits(e: MathEditor, m: MathEditor) -> Seq<BasicEdit> {
    if m.undo_stack.done() == e.undo_stack.done() { Seq::empty() } else { m.undo_stack.hist()[m.undo_stack.done() - 1]->CaretEdit_0.edits@ }
}
/// after the command (e to m): autocorrect
pub open spec fn settled(e: MathEditor, m: MathEditor, e2: MathEditor) -> bool {
    exists|a: Option<AutocorrectAction>, b: Option<AutocorrectAction>| #[trigger] followed(a, b, done_edits(e, m)) && started(e, a) && outcome(m, e2, b)
}
/// applied exactly if the caret is not among the symbols of the range and these still spell the whole rule
pub open spec fn outcome(m: MathEditor, e2: MathEditor, b: Option<AutocorrectAction>) -> bool {
    match b {
        None => e2 == m,
        Some(a) => {
            // (a selection of table cells: never)
            ||| e2 == m && exists|s: CaretSelection<'_>| #[trigger] selected(m.input.root, m.caret, s) && s is Grid
            ||| exists|x: InputRowRange<'_>, s: CaretSelection<'_>| #[trigger] correcting(m, a, x, s) && corrects(m, e2, a, x, s)
        },
    }
}
pub open spec fn corrects(m: MathEditor, e2: MathEditor, a: AutocorrectAction, x: InputRowRange<'_>, s: CaretSelection<'_>) -> bool {
    let v = x.row_focus.row.values@.subrange(x.lo(), x.hi());
    &&& e2 == m || away(x, s) && whole(a.rule, v) && corrected(m, e2, a)
    &&& away(x, s) && whole(a.rule, v) && crate::parser::autocomplete::no_empty(v, v.len() as int) ==> corrected(m, e2, a)
}
pub broadcast proof fn lemma_settled(e: MathEditor, m: MathEditor, e2: MathEditor, a: Option<AutocorrectAction>, b: Option<AutocorrectAction>, es: Seq<BasicEdit>)
    requires #[trigger] outcome(m, e2, b), #[trigger] followed(a, b, es), #[trigger] started(e, a), es =~= done_edits(e, m),
    ensures settled(e, m, e2),
{ }
/// (it does not depend on the selection mode)
pub proof fn lemma_started(e: MathEditor)
    ensures forall|x: MathEditor, a: Option<AutocorrectAction>| #[trigger] started(x, a) && x.input == e.input && x.parser == e.parser && x.caret == e.caret && x.autocomplete_state == e.autocomplete_state ==> started(e, a),
{
    assert forall|x: MathEditor, a: Option<AutocorrectAction>| #[trigger] started(x, a) && x.input == e.input && x.parser == e.parser && x.caret == e.caret && x.autocomplete_state == e.autocomplete_state implies started(e, a) by {
        let r = choose|r: Option<AutocompleteResults<'_>>| #[trigger] popup(x, r) && (r matches Some(y) ==> chosen(x.autocomplete_state.current_autocomplete, y)) && remembers(r, a);
        assert forall|p: Seq<RowIndex>, o: int, ms: Seq<AutocompleteRuleMatch<'_>>| #[trigger] offered(x, p, o, ms) implies offered(e, p, o, ms) by { }
        assert(popup(e, r));
    }
}
/// the range, and what the caret selects
pub open spec fn correcting(m: MathEditor, a: AutocorrectAction, x: InputRowRange<'_>, s: CaretSelection<'_>) -> bool {
    x.wf() && x.root() == m.input.root && x.p() == a.caret_range.p() && x.start == a.caret_range.start && x.end == a.caret_range.end && selected(m.input.root, m.caret, s)
}
pub open spec fn away(x: InputRowRange<'_>, s: CaretSelection<'_>) -> bool {
    s matches CaretSelection::Row(y) && !crate::input_tree::between(x.p(), x.lo(), x.hi(), y.p(), y.start.0 as int)
}
/// autocorrect: the symbols are replaced
pub open spec fn corrected(e: MathEditor, e2: MathEditor, a: AutocorrectAction) -> bool {
    &&& (*e.parser).rules().contains(a.rule)
    &&& spliced(e, e2, a.caret_range.p(), imin(a.caret_range.start.0 as int, a.caret_range.end.0 as int), imax(a.caret_range.start.0 as int, a.caret_range.end.0 as int), a.rule.result@)
}
pub open spec fn whole(rule: AutocompleteRule, v: Seq<InputNode>) -> bool { exists|k: int| k >= 1 && #[trigger] crate::parser::autocomplete::spelled(v, v.len() as int, k) == Some(rule.parser@) }
pub open spec fn complete(ms: Seq<AutocompleteRuleMatch<'_>>, i: int) -> bool { 0 <= i < ms.len() && ms[i].rule_match_length == crate::vx::blen(ms[i].rule.parser@) }
pub broadcast proof fn lemma_whole(rule: AutocompleteRule, v: Seq<InputNode>, ms: Seq<AutocompleteRuleMatch<'_>>, i: int)
    requires #[trigger] exactly(seq![rule], v, v.len() as int, 1, ms), #[trigger] complete(ms, i),
    ensures whole(rule, v),
{
    c17_exact(seq![rule], v, v.len() as int, 1, ms);
    let j = choose|j: int| 0 <= j < 1 && is_match(#[trigger] seq![rule][j], v, v.len() as int, 1, ms[i]);
    crate::parser::autocomplete::c17_complete(rule, v, v.len() as int, 1, ms[i]);
}
pub proof fn lemma_correcting(m: MathEditor, a: AutocorrectAction)
    ensures forall|x: InputRowRange<'_>, c: Caret<'_>| #[trigger] x.wf() && #[trigger] c.wf() && x.root() == m.input.root && x.p() == a.caret_range.p() && x.start == a.caret_range.start && x.end == a.caret_range.end
        && selected(m.input.root, m.caret, c.selection) ==> correcting(m, a, x, c.selection),
{ }
/// and the other way around
pub broadcast proof fn lemma_whole_found(rule: AutocompleteRule, v: Seq<InputNode>, ms: Seq<AutocompleteRuleMatch<'_>>)
    requires #[trigger] exactly(seq![rule], v, v.len() as int, 1, ms), whole(rule, v), crate::parser::autocomplete::no_empty(v, v.len() as int),
    ensures exists|i: int| #[trigger] complete(ms, i),
{
    c17_exact(seq![rule], v, v.len() as int, 1, ms);
    let k = choose|k: int| k >= 1 && #[trigger] crate::parser::autocomplete::spelled(v, v.len() as int, k) == Some(rule.parser@);
    assert(rule.parser@.take(rule.parser@.len() as int) =~= rule.parser@);
    assert(crate::parser::autocomplete::matched(seq![rule][0], v, v.len() as int, k));
    let i = choose|i: int| 0 <= i < ms.len() && is_match(seq![rule][0], v, v.len() as int, 1, #[trigger] ms[i]) && ms[i].input_match_length == k;
    assert(complete(ms, i));
}
/// accepting a suggestion of the popup: what it matched is replaced
pub open spec fn accepted(e: MathEditor, e2: MathEditor, x: AutocompleteResults<'_>) -> bool {
    let m = x.matches@[x.selected_index as int]; let o = x.caret_position.o();
    spliced(e, e2, x.caret_position.p(), if m.input_match_length <= o { o - m.input_match_length } else { 0 }, o, m.rule.result@)
}
pub broadcast proof fn lemma_copied(s: Seq<InputNode>, v: Vec<InputNode>)
    requires #[trigger] s.len() == #[trigger] v@.len(), forall|i: int| 0 <= i < s.len() ==> cloned(s[i], v@[i]),
    ensures v@ == s,
{ assert(v@ =~= s); }
pub broadcast proof fn lemma_extends(a: MathEditor, b: MathEditor, c: MathEditor)
    requires a.inv(), b.inv(), #[trigger] extends(a, b), #[trigger] extends(b, c),
    ensures extends(a, c),
{
    let k = a.undo_stack.done();
    if b.undo_stack.done() > k && c.undo_stack.done() > b.undo_stack.done() {
        assert(c.undo_stack.hist().take(b.undo_stack.done()).take(k) =~= c.undo_stack.hist().take(k));
        assert(b.undo_stack.hist().take(b.undo_stack.done()) =~= b.undo_stack.hist());
    }
}
%fn MathEditor::apply_autocorrect(self, autocorrect) -> r
%requires
    old(self).inv(),
    autocorrect matches Some(a) ==> (*old(self).parser).rules().contains(a.rule) && valid_range(old(self).f(), a.caret_range.p(), a.caret_range.start.0 as int, a.caret_range.end.0 as int),
%ensures
    final(self).inv(), extends(*old(self), *final(self)), outcome(*old(self), *final(self), autocorrect),
    r is None ==> *final(self) == *old(self),
    r is Some ==> (autocorrect matches Some(a) && corrected(*old(self), *final(self), a)),
%start
    broadcast use {lemma_copied, lemma_whole, lemma_whole_found, crate::caret::lemma_same_row};
    proof { assert forall|x: Seq<RowIndex>| Seq::<RowIndex>::empty() + x == x by { assert(Seq::<RowIndex>::empty() + x =~= x); } }
    let ghost vx_e = *self;
    proof {
        lemma_selected(vx_e);
        lemma_correcting(vx_e, autocorrect->0);
    }
%loop 0 it
    invariant_except_break
        !vx_acc, forall|i: int| 0 <= i < it.index@ ==> !#[trigger] complete(vx_src@, i),
    invariant
        it.seq().len() == vx_src@.len(), forall|j: int| 0 <= j < vx_src@.len() ==> *(#[trigger] it.seq()[j]) == vx_src@[j],
        vx_acc ==> exists|i: int| #[trigger] complete(vx_src@, i),
    ensures
        !vx_acc ==> forall|i: int| !#[trigger] complete(vx_src@, i),
%lstart 0
    proof { if vx_x.rule_match_length == crate::vx::blen(vx_x.rule.parser@) { assert(complete(vx_src@, it.index@)); } }
%local autocorrect 0
%tail
    proof { assert(corrected(*old(self), *self, autocorrect)); }
%fn MathEditor::move_caret(self, direction, mode)
%requires
    old(self).inv(), mode == MoveMode::Char,
%ensures
    final(self).inv(), extends(*old(self), *final(self)),
    exists|m: MathEditor| #[trigger] settled(*old(self), m, *final(self)) && arrowed(*old(self), m, direction),
%start
    broadcast use {lemma_follow_ranges, lemma_no_edits, lemma_extends, lemma_settled, crate::focus::c08_valid};
    proof { lemma_selected(*self); }
%fn MathEditor::select_with_caret(self, direction, mode) -> r
%requires
    old(self).inv(), mode == MoveMode::Char, !selects_cells(*old(self)),
%ensures
    final(self).inv(), extends(*old(self), *final(self)),
    r is None ==> popup_only(*old(self), *final(self)) && stuck(*old(self), direction),
    r is Some ==> exists|m: MathEditor| #[trigger] settled(*old(self), m, *final(self)) && selecting(*old(self), m, direction),
%start
    broadcast use {lemma_follow_ranges, lemma_no_edits, lemma_extends, lemma_settled, crate::focus::c08_valid};
    proof { lemma_selected(*self); }
%fn MathEditor::remove_at_caret(self, remove_mode, _move_mode) -> r
%requires
    old(self).inv(), !selects_cells(*old(self)),
%ensures
    final(self).inv(), extends(*old(self), *final(self)),
    r is None ==> popup_only(*old(self), *final(self)) && nothing_to_remove(*old(self), remove_mode),
    r is Some ==> exists|m: MathEditor| #[trigger] settled(*old(self), m, *final(self)) && erased(*old(self), m, remove_mode),
%start
    broadcast use {lemma_follow_ranges, lemma_no_edits, lemma_extends, lemma_settled, lemma_removal, lemma_deletes};
    proof { lemma_selected(*self); }
%fn MathEditor::insert_at_caret(self, values)
%requires
    old(self).inv(), !selects_cells(*old(self)),
%ensures
    final(self).inv(), extends(*old(self), *final(self)),
    exists|m: MathEditor| #[trigger] settled(*old(self), m, *final(self)) && typed(*old(self), m, symbols(values@)),
%start
    broadcast use {lemma_follow_ranges, lemma_no_edits, lemma_extends, lemma_settled, lemma_ok_push};
    let ghost vx_v = values@;
    proof { assert(vx_v.take(vx_v.len() as int) =~= vx_v); }
%loop 0 it
    invariant
        ok_nodes(vx_acc@), it.seq() == vx_v, vx_acc@ =~= symbols(vx_v.take(it.index@)),
%lstart 0
    broadcast use lemma_ok_push;
%fn MathEditor::insert_nodes_at_caret(self, values) -> r
%requires
    old(self).inv(), !selects_cells(*old(self)), ok_nodes(values@),
%ensures
    final(self).inv(), extends(*old(self), *final(self)), r matches Some(a) && finished(*old(self), *final(self), a) && row_edits(a.edits@),
    typed(*old(self), *final(self), values@),
%start
    broadcast use {lemma_replacement, lemma_no_edits};
    proof { lemma_selected(*self); }
    proof { crate::row::lemma_nodes_len(&values); }
%fn MathEditor::start_selection(self, position, mode)
%requires
    old(self).inv(), valid_pos(old(self).f(), position.p(), position.o()),
%ensures
    final(self).inv(), extends(*old(self), *final(self)),
    exists|m: MathEditor| #[trigger] settled(*old(self), m, *final(self)) && no_action(*old(self), m) && caret_at(m.caret, position.p(), position.o()),
%start
    broadcast use {lemma_follow_ranges, lemma_no_edits, lemma_extends, lemma_settled};
    proof { lemma_started(*self); }
%fn MathEditor::extend_selection(self, position)
%requires
    old(self).inv(), valid_pos(old(self).f(), position.p(), position.o()),
%ensures
    final(self).inv(), extends(*old(self), *final(self)),
    exists|m: MathEditor| #[trigger] settled(*old(self), m, *final(self)) && no_action(*old(self), m) && same_place(m.caret.start_position, old(self).caret.start_position) && is_at(m.caret.end_position, position.p(), position.o()),
%start
    broadcast use {lemma_follow_ranges, lemma_no_edits, lemma_extends, lemma_settled};
%fn MathEditor::finish_selection(self)
%requires
    old(self).inv(),
%ensures
    final(self).inv(), no_action(*old(self), *final(self)), final(self).caret == old(self).caret,
%fn MathEditor::focus(self)
%ensures
    *final(self) == *old(self),
%fn MathEditor::unfocus(self)
%ensures
    *final(self) == *old(self),
%fn MathEditor::select_all(self)
%requires
    old(self).inv(),
%ensures
    final(self).inv(), no_action(*old(self), *final(self)),
    is_at(final(self).caret.start_position, Seq::empty(), 0), is_at(final(self).caret.end_position, Seq::empty(), old(self).f().values.len() as int),
%fn MathEditor::copy(self, data_type) -> r
%requires
    self.inv(), !selects_cells(*self),
%ensures
    // exactly the selected elements
    exists|s: CaretSelection<'_>| #[trigger] selected(self.input.root, self.caret, s) && (s matches CaretSelection::Row(x) && r == crate::serialization::serialized(x.row_focus.row.values@.subrange(x.lo(), x.hi()), data_type)),
%start
    proof { lemma_selected(*self); }
%fn MathEditor::paste(self, data, data_type) -> r
%requires
    old(self).inv(), !selects_cells(*old(self)), data_type is Some,
%ensures
    final(self).inv(), extends(*old(self), *final(self)),
    r is Err ==> popup_only(*old(self), *final(self)),
    match crate::serialization::deserialized(data, data_type) {
        Err(_) => r is Err,
        Ok(v) => r is Ok && exists|m: MathEditor| #[trigger] settled(*old(self), m, *final(self)) && typed(*old(self), m, v@),
    },
%start
    broadcast use {lemma_follow_ranges, lemma_no_edits, lemma_extends, lemma_settled};
%fn MathEditor::open_autocomplete(self) -> r
%requires
    old(self).inv(),
%ensures
    final(self).inv(), popup_only(*old(self), *final(self)),
    r is None ==> popup(*old(self), None), r is Some ==> exists|x: AutocompleteResults<'_>| #[trigger] popup(*old(self), Some(x)),
%fn MathEditor::finish_autocomplete(self, accept) -> r
%requires
    old(self).inv(),
%ensures
    final(self).inv(), extends(*old(self), *final(self)),
    r is None ==> popup_only(*old(self), *final(self)), r is None && accept ==> popup(*old(self), None), !accept ==> r is None && *final(self) == *old(self),
    r is Some ==> exists|x: AutocompleteResults<'_>| #[trigger] popup(*old(self), Some(x)) && chosen(old(self).autocomplete_state.current_autocomplete, x) && accepted(*old(self), *final(self), x),
%start
    broadcast use lemma_copied;
%fn MathEditor::move_in_autocomplete(self, direction) -> r
%requires
    old(self).inv(),
%ensures
    final(self).inv(), popup_only(*old(self), *final(self)),
    r is None ==> popup(*old(self), None),
    r is Some ==> exists|x: AutocompleteResults<'_>| #[trigger] popup(*old(self), Some(x)) && chosen(old(self).autocomplete_state.current_autocomplete, x) && final(self).autocomplete_state.current_autocomplete == Some(*x.matches@[x.next(direction)].rule),
%fn MathEditor::get_caret(self) -> r
%requires
    self.inv(),
%ensures
    r@.len() == 1, exists|s: CaretSelection<'_>| #[trigger] selected(self.input.root, self.caret, s) && crate::caret::stored_as(s, r@[0]),
%start
    proof { lemma_selected(*self); }
%fn MathEditor::get_input_tree(self) -> r
%ensures
    *r == self.input.root,
%fn MathEditor::get_syntax_tree(self) -> r
%requires
    old(self).inv(),
%ensures
    *r == parsed_of(*old(self).parser, old(self).input.root.values@),
    final(self).inv(), final(self).input == old(self).input, final(self).caret == old(self).caret, final(self).undo_stack == old(self).undo_stack, keeps(*old(self), *final(self)),
%fn AutocompleteState::new() -> r
%ensures
    r.current_autocomplete is None,
%fn <AutocompleteState as Default>::default() -> r
%ensures
    r.current_autocomplete is None,
%fn AutocompleteState::set_current_autocomplete(self, rule)
%ensures
    final(self).current_autocomplete == rule,
%spec math_editor
use crate::autocomplete::followed;
use crate::primitive::primitive_edit::{removed, removes, deletes, unwraps, deletion, c15_delete, c15_unwrap};
use crate::direction::HorizontalDirection;
use crate::primitive::movement::{arrow, moved};
%end
