%% parser/src/syntax_tree/syntax_node.rs, syntax_node_builder.rs: ranges nest and tile (C18)
%spec parser::syntax_tree::syntax_node
/// the children that have to tile
pub open spec fn row_children(c: SyntaxNodeChildren) -> Seq<SyntaxNode> { match c { SyntaxNodeChildren::Children(v) => v@, _ => Seq::empty() } }
/// C18: consecutive children meet, the first starts and the last ends inside the parent's range
pub open spec fn tiles(c: Seq<SyntaxNode>, r: Range<usize>) -> bool {
    c.len() > 0 ==> {
        &&& r.start <= c[0].range.start && c.last().range.end <= r.end
        &&& forall|i: int| 0 <= i < c.len() - 1 ==> (#[trigger] c[i]).range.end == c[i + 1].range.start
    }
}
pub open spec fn tiled(n: SyntaxNode) -> bool { tiles(row_children(n.children), n.range) }
/// C18: children with proper ranges lie inside the parent, in order, without overlapping
pub proof fn c18_cover(n: SyntaxNode)
    requires tiled(n), forall|i: int| 0 <= i < row_children(n.children).len() ==> (#[trigger] row_children(n.children)[i]).range.start <= row_children(n.children)[i].range.end,
    ensures
        forall|i: int| 0 <= i < row_children(n.children).len() ==> n.range.start <= (#[trigger] row_children(n.children)[i]).range.start && row_children(n.children)[i].range.end <= n.range.end,
        forall|i: int, j: int| 0 <= i < j < row_children(n.children).len() ==> (#[trigger] row_children(n.children)[i]).range.end <= (#[trigger] row_children(n.children)[j]).range.start,
{
    let c = row_children(n.children);
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).range.end <= (#[trigger] c[j]).range.start by { lemma_in_order(c, i, j); }
    assert forall|i: int| 0 <= i < c.len() implies n.range.start <= (#[trigger] c[i]).range.start && c[i].range.end <= n.range.end by {
        if i > 0 { lemma_in_order(c, 0, i); }
        if i < c.len() - 1 { lemma_in_order(c, i, c.len() - 1); }
    }
}
pub proof fn lemma_in_order(c: Seq<SyntaxNode>, i: int, j: int)
    requires 0 <= i < j < c.len(), forall|k: int| 0 <= k < c.len() - 1 ==> (#[trigger] c[k]).range.end == c[k + 1].range.start,
        forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).range.start <= c[k].range.end,
    ensures c[i].range.end <= c[j].range.start,
    decreases j - i
{ if j > i + 1 { lemma_in_order(c, i, j - 1); assert(c[j - 1].range.end == c[j - 1 + 1].range.start); } else { assert(c[i].range.end == c[i + 1].range.start); } }
%fn SyntaxNode::new(name, range, children) -> r
%checked
%ensures
    r.name == name, r.range == range, r.children == children, r.value@.len() == 0,
    tiled(r),
%fn SyntaxNode::get_combined_range(children) -> r
%checked
%ensures
    r is Some <==> row_children(*children).len() > 0,
    r matches Some(x) ==> (x.start == row_children(*children)[0].range.start && x.end == row_children(*children).last().range.end),
    forall|i: int| 0 <= i < row_children(*children).len() - 1 ==> (#[trigger] row_children(*children)[i]).range.end == row_children(*children)[i + 1].range.start,
%loop 0 it
    invariant
        it.seq().len() == children@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == children@[i],
        vx_acc@.len() == it.index@, forall|i: int| 0 <= i < vx_acc@.len() ==> (#[trigger] vx_acc@[i]) == children@[i].range,
%at let mut child_iter
    let ghost vx_b = binding@;
    let ghost vx_c = row_children(*children);
    proof { assert(vx_b.len() == vx_c.len()); assert(forall|i: int| #![trigger vx_b[i]] #![trigger vx_c[i]] 0 <= i < vx_b.len() ==> vx_b[i] == vx_c[i].range); }
%loop 1 it
    invariant
        vx_b.len() > 0, it.seq().len() == vx_b.len() - 1, forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == vx_b[i + 1],
        *prev_child_range == vx_b[it.index@],
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] vx_b[i]).end == vx_b[i + 1].start,
%fn SyntaxNode::range(self) -> r
%ensures
    r == self.range,
%end
%spec parser::syntax_tree::syntax_node_builder
use crate::parser::syntax_tree::syntax_node::*;
%fn SyntaxNodeBuilder::new(children) -> r
%ensures
    r.children == children, r.value@.len() == 0,
%fn SyntaxNodeBuilder::set_value(self, value) -> r
%ensures
    r.children == self.children, r.value == value,
%fn SyntaxNodeBuilder::new_leaf_node(symbols, node_type) -> r
%ensures
    r.children matches SyntaxNodeChildren::Leaf(l) && l.symbols == symbols && l.node_type == node_type, r.value@.len() == 0,
%fn SyntaxNodeBuilder::build(self, name, range) -> r
%ensures
    r.name == name, r.range == range, r.children == self.children, r.value == self.value,
    tiled(r),
%fn SyntaxLeafNode::new(node_type, symbols) -> r
%ensures
    r.node_type == node_type, r.symbols == symbols,
%fn SyntaxNodeChildren::is_empty(self) -> r
%ensures
    r == (match self { SyntaxNodeChildren::NewRows(g) => g.values@.len() == 0, SyntaxNodeChildren::Children(c) => c@.len() == 0, SyntaxNodeChildren::Leaf(_) => false }),
%end
