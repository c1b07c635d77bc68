%% conversions
%spec grid::index2d
impl vstd::std_specs::convert::FromSpecImpl<Index2D> for (usize, usize) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Index2D) -> Self { (v.x, v.y) }
}
%spec row
impl vstd::std_specs::convert::FromSpecImpl<Vec<InputNode>> for InputRow {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Vec<InputNode>) -> Self { InputRow { values: v } }
}
impl vstd::std_specs::convert::FromSpecImpl<(usize, usize)> for RowIndex {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: (usize, usize)) -> Self { RowIndex(v.0, v.1) }
}
impl vstd::std_specs::convert::FromSpecImpl<usize> for Offset {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: usize) -> Self { Offset(v) }
}
%spec direction
impl vstd::std_specs::convert::FromSpecImpl<HorizontalDirection> for Direction {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: HorizontalDirection) -> Self { match v { HorizontalDirection::Left => Direction::Left, HorizontalDirection::Right => Direction::Right } }
}
impl vstd::std_specs::convert::FromSpecImpl<VerticalDirection> for Direction {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: VerticalDirection) -> Self { match v { VerticalDirection::Up => Direction::Up, VerticalDirection::Down => Direction::Down } }
}
%spec editing::basic_edit
impl vstd::std_specs::convert::FromSpecImpl<RowEdit> for BasicEdit {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: RowEdit) -> Self { BasicEdit::Row(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<GridEdit> for BasicEdit {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: GridEdit) -> Self { BasicEdit::Grid(v) }
}
%spec focus::row_position
impl<'a> vstd::std_specs::convert::FromSpecImpl<&InputRowPosition<'a>> for InputRowRange<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &InputRowPosition<'a>) -> Self { InputRowRange { row_focus: v.row_focus, start: v.offset, end: v.offset } }
}
%end
