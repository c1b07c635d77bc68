%% caret/src/autocomplete.rs: what the popup offers and which range it replaces (C17)
%spec autocomplete
impl<'a> AutocompleteResults<'a> {
    pub open spec fn wf(&self) -> bool { self.selected_index < self.matches@.len() }
    /// one further, staying on the list
    pub open spec fn next(&self, direction: VerticalDirection) -> int {
        match direction {
            VerticalDirection::Up => if self.selected_index > 0 { self.selected_index - 1 } else { 0 },
            VerticalDirection::Down => if self.selected_index + 1 < self.matches@.len() { self.selected_index + 1 } else { self.selected_index as int },
        }
    }
}
/// its range follows the edits of the command
pub open spec fn followed(a: Option<AutocorrectAction>, b: Option<AutocorrectAction>, es: Seq<BasicEdit>) -> bool {
    match a { None => b is None, Some(a) => b matches Some(b) && b.rule == a.rule && b.caret_range.st() == st_all(a.caret_range.st(), es) }
}
%derived Default AutocorrectActionBuilder
    r.autocorrect is None
%fn AutocorrectActionBuilder::finish(self, edits) -> r
%requires
    self.autocorrect matches Some(a) ==> st_all_ok(a.caret_range.st(), edits@),
%ensures
    // the replaced range follows the edits (C04)
    followed(self.autocorrect, r, edits@),
%fn AutocompleteResults::new(selected_index, matches, caret_position) -> r
%requires
    selected_index < matches@.len(),
%ensures
    r.wf(), r.selected_index == selected_index, r.matches == matches, r.caret_position == caret_position,
%fn AutocompleteResults::start_autocorrect(self) -> r
%requires
    self.wf(),
%ensures
    // C17: only a suggestion whose whole text is there
    r.autocorrect is Some <==> self.matches@[self.selected_index as int].rule_match_length == crate::vx::blen(self.matches@[self.selected_index as int].rule.parser@),
    r.autocorrect matches Some(a) ==> {
        let m = self.matches@[self.selected_index as int];
        &&& a.rule == *m.rule
        &&& a.caret_range.row_indices.0@ == self.caret_position.p() && a.caret_range.start.0 == self.caret_position.o()
        &&& a.caret_range.end.0 == if m.input_match_length <= self.caret_position.o() { self.caret_position.o() - m.input_match_length } else { 0 }
    },
%fn AutocompleteResults::get_selected(self) -> r
%requires
    self.wf(),
%ensures
    *r == self.matches@[self.selected_index as int],
%fn AutocompleteResults::move_selection(self, direction)
%requires
    old(self).wf(),
%ensures
    // C17: one further, staying on the list
    final(self).wf(), final(self).matches == old(self).matches, final(self).caret_position == old(self).caret_position,
    final(self).selected_index == old(self).next(direction),
%start
    let vx_n = self.matches.len();
%fn AutocompleteResults::get_caret_range(self, rule_match) -> r
%ensures
    r.p() == self.caret_position.p(), r.start.0 == self.caret_position.o(),
    r.end.0 == if rule_match.input_match_length <= self.caret_position.o() { self.caret_position.o() - rule_match.input_match_length } else { 0 },
%fn AutocompleteResults::destructure(self) -> r
%ensures
    r.0 == self.selected_index, *r.1 == self.matches, r.2 == self.caret_position,
%end
