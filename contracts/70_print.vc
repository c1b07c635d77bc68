%% print_helpers.rs and the Display impls: the printed form (C11)
%drop write_with_separator
%spec print_helpers
use crate::node::{InputNode, InputNodeVariant};
use crate::row::InputRow;
use crate::grid::GridVec;
/// a symbol's text with quotes and backslashes escaped
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc_char(s.last()) }
}
pub open spec fn esc_char(c: char) -> Seq<char> { if c == '"' { seq!['\\', '"'] } else if c == '\\' { seq!['\\', '\\'] } else { seq![c] } }
pub open spec fn kind_name(k: InputNodeVariant) -> Seq<char> {
    match k { InputNodeVariant::Fraction => seq!['f', 'r', 'a', 'c'], InputNodeVariant::Root => seq!['r', 'o', 'o', 't'], InputNodeVariant::Sup => seq!['s', 'u', 'p'],
        InputNodeVariant::Sub => seq!['s', 'u', 'b'], InputNodeVariant::Table => seq!['t', 'a', 'b', 'l', 'e'] }
}
pub open spec fn pr_node(n: SNode) -> Seq<char> decreases n {
    match n {
        SNode::Sym(s) => seq!['"'] + esc(s) + seq!['"'],
        SNode::Cont(k, cells, w) => seq!['('] + kind_name(k) + seq![' '] + pr_size(w, cells.len() as int) + pr_cells(cells) + seq![')'],
    }
}
pub open spec fn pr_size(w: int, n: int) -> Seq<char> { crate::vx::dec(w as nat) + seq!['x'] + crate::vx::dec((n / w) as nat) }
pub open spec fn pr_cells(cells: Seq<SRow>) -> Seq<char> decreases cells, 1nat {
    pr_cells_to(cells, cells.len() as int)
}
pub open spec fn pr_cells_to(cells: Seq<SRow>, i: int) -> Seq<char> decreases cells, 0nat, i {
    if i <= 0 || i > cells.len() { Seq::empty() } else { pr_cells_to(cells, i - 1) + seq![' '] + pr_row(cells[i - 1]) }
}
pub open spec fn pr_row(r: SRow) -> Seq<char> decreases r {
    seq!['(', 'r', 'o', 'w'] + pr_nodes_to(r.values, r.values.len() as int) + seq![')']
}
pub open spec fn pr_nodes_to(v: Seq<SNode>, i: int) -> Seq<char> decreases v, 0nat, i {
    if i <= 0 || i > v.len() { Seq::empty() } else { pr_nodes_to(v, i - 1) + seq![' '] + pr_node(v[i - 1]) }
}
%spec node
impl crate::vx::VxPrinted for InputNodeVariant {
    open spec fn printed(&self) -> Seq<char> { crate::print_helpers::kind_name(*self) }
    open spec fn printable(&self) -> bool { true }
}
impl crate::vx::VxPrinted for InputNode {
    open spec fn printed(&self) -> Seq<char> { crate::print_helpers::pr_node(self.sv()) }
    open spec fn printable(&self) -> bool { ok_node(self.sv()) }
}
impl crate::vx::VxPrinted for InputRow {
    open spec fn printed(&self) -> Seq<char> { crate::print_helpers::pr_row(self.sv()) }
    open spec fn printable(&self) -> bool { ok_row(self.sv()) }
}
%spec grid
/// the cells, each behind a space
pub open spec fn pr_values<T: crate::vx::VxPrinted>(v: Seq<T>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { pr_values(v.drop_last()) + seq![' '] + v.last().printed() }
}
impl<T: crate::vx::VxPrinted> crate::vx::VxPrinted for GridVec<T> {
    open spec fn printed(&self) -> Seq<char> { crate::print_helpers::pr_size(self.width as int, self.values@.len() as int) + pr_values(self.values@) }
    open spec fn printable(&self) -> bool { self.wf() && forall|i: int| 0 <= i < self.values@.len() ==> (#[trigger] self.values@[i]).printable() }
}
%fn write_with_escaped_double_quotes(value, f) -> r
%ensures
    r is Ok ==> crate::vx::fmt_out(*final(f)) =~= crate::vx::fmt_out(*old(f)) + esc(value@),
%start
    let ghost vx_f = crate::vx::fmt_out(*f);
    proof { assert(value@.take(0) =~= Seq::empty()); assert(value@.take(value@.len() as int) =~= value@); }
%loop 0 it
    invariant
        0 <= it.index@ <= value@.len(), it.seq() =~= value@, vx_f == crate::vx::fmt_out(*old(f)),
        crate::vx::fmt_out(*f) =~= vx_f + esc(value@.take(it.index@)),
%lstart 0
    proof { assert(value@.take(it.index@ + 1).drop_last() =~= value@.take(it.index@)); assert(value@.take(it.index@ + 1).last() == value@[it.index@]); }
%fn <InputNodeVariant as Display>::fmt(self, f) -> r
%ensures
    r is Ok ==> crate::vx::fmt_out(*final(f)) =~= crate::vx::fmt_out(*old(f)) + self.printed(),
%fn <InputNode as Display>::fmt(self, f) -> r
%requires
    self.printable(),
%ensures
    r is Ok ==> crate::vx::fmt_out(*final(f)) =~= crate::vx::fmt_out(*old(f)) + self.printed(),
%start
    proof { crate::print_helpers::lemma_grid_printed(*self); }
%fn <InputRow as Display>::fmt(self, f) -> r
%requires
    self.printable(),
%ensures
    r is Ok ==> crate::vx::fmt_out(*final(f)) =~= crate::vx::fmt_out(*old(f)) + self.printed(),
%start
    let ghost vx_f = crate::vx::fmt_out(*f);
    let ghost vx_v = self.values@;
    let ghost vx_s = self.sv().values;
    proof { assert forall|i: int| 0 <= i < vx_v.len() implies (#[trigger] vx_v[i]).printable() && vx_s[i] == vx_v[i].sv() by { assert(ok_node(vx_s[i])); } }
%loop 0 it
    invariant
        0 <= it.index@ <= vx_v.len(), it.seq().len() == vx_v.len(), forall|i: int| 0 <= i < vx_v.len() ==> *(#[trigger] it.seq()[i]) == vx_v[i],
        vx_s.len() == vx_v.len(), forall|i: int| 0 <= i < vx_v.len() ==> (#[trigger] vx_v[i]).printable() && vx_s[i] == vx_v[i].sv(),
        crate::vx::fmt_out(*f) =~= vx_f + seq!['(', 'r', 'o', 'w'] + crate::print_helpers::pr_nodes_to(vx_s, it.index@),
%fn <GridVec as Display>::fmt(self, f) -> r
%requires
    self.printable(),
%ensures
    r is Ok ==> crate::vx::fmt_out(*final(f)) =~= crate::vx::fmt_out(*old(f)) + self.printed(),
%start
    let ghost vx_f = crate::vx::fmt_out(*f);
    let ghost vx_v = self.values@;
    proof { assert(vx_v.take(0) =~= Seq::empty()); assert(vx_v.take(vx_v.len() as int) =~= vx_v); lemma_grid_size(*self); }
%loop 0 it
    invariant
        0 <= it.index@ <= vx_v.len(), it.seq().len() == vx_v.len(), forall|i: int| 0 <= i < vx_v.len() ==> *(#[trigger] it.seq()[i]) == vx_v[i],
        forall|i: int| 0 <= i < vx_v.len() ==> (#[trigger] vx_v[i]).printable(),
        crate::vx::fmt_out(*f) =~= vx_f + crate::print_helpers::pr_size(self.width as int, self.values@.len() as int) + pr_values(vx_v.take(it.index@)),
%lstart 0
    proof { assert(vx_v.take(it.index@ + 1).drop_last() =~= vx_v.take(it.index@)); assert(vx_v.take(it.index@ + 1).last() == vx_v[it.index@]); }
%spec print_helpers
pub proof fn lemma_pr_values(g: GridVec<InputRow>, n: int)
    requires 0 <= n <= g.values@.len(),
    ensures crate::grid::pr_values(g.values@.take(n)) == pr_cells_to(g.sv_cells(), n),
    decreases n
{
    if n > 0 {
        lemma_pr_values(g, n - 1);
        assert(g.values@.take(n).drop_last() =~= g.values@.take(n - 1));
        assert(g.values@.take(n).last() == g.values@[n - 1]);
        assert(g.sv_cells()[n - 1] == g.values@[n - 1].sv());
    }
}
pub proof fn lemma_grid_printed(n: InputNode)
    requires ok_node(n.sv()),
    ensures n matches InputNode::Container(k, g) ==> crate::vx::VxPrinted::printable(&g) && crate::vx::VxPrinted::printed(&g) == pr_size(g.width as int, g.values@.len() as int) + pr_cells(g.sv_cells()),
{
    if let InputNode::Container(k, g) = n {
        lemma_pr_values(g, g.values@.len() as int);
        assert(g.values@.take(g.values@.len() as int) =~= g.values@);
        assert(g.sv_cells().len() == g.values@.len());
        assert forall|i: int| 0 <= i < g.values@.len() implies crate::vx::VxPrinted::printable(#[trigger] &g.values@[i]) by { assert(ok_row(g.sv_cells()[i])); }
    }
}
%end
