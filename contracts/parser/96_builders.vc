%% parser/src/rule_collection.rs, rule_collections/built_in_rules.rs: the nodes built for operators, errors and spaces (C18)
%spec parser::rule_collection
use crate::parser::syntax_tree::syntax_node::*;
pub open spec fn low(a: usize, b: usize) -> usize { if a <= b { a } else { b } }
pub open spec fn high(a: usize, b: usize) -> usize { if a >= b { a } else { b } }
/// the node's children are exactly these, in this order
pub open spec fn built_of(n: SyntaxNode, name: SyntaxNodeNameId, c: Seq<SyntaxNode>) -> bool {
    n.name == name && n.value@.len() == 0 && tiled(n) && (n.children matches SyntaxNodeChildren::Children(v) && v@ =~= c)
}
/// the smallest range around all of them
pub open spec fn spans(r: core::ops::Range<usize>, c: Seq<SyntaxNode>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> r.start <= (#[trigger] c[i]).range.start && c[i].range.end <= r.end
    &&& exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).range.start == r.start
    &&& exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).range.end == r.end
}
pub broadcast proof fn lemma_spans(r: core::ops::Range<usize>, c: Seq<SyntaxNode>)
    requires
        2 <= c.len() <= 3,
        r.start == low(c[0].range.start, if c.len() == 2 { c[1].range.start } else { low(c[1].range.start, c[2].range.start) }),
        r.end == high(c[0].range.end, if c.len() == 2 { c[1].range.end } else { high(c[1].range.end, c[2].range.end) }),
    ensures #[trigger] spans(r, c),
{
    assert(c[0] == c[0] && c[1] == c[1] && (c.len() == 3 ==> c[2] == c[2]));
    let n = c.len();
    let ls = if c[0].range.start == r.start { 0int } else if c[1].range.start == r.start { 1 } else { 2 };
    let le = if c[0].range.end == r.end { 0int } else if c[1].range.end == r.end { 1 } else { 2 };
    assert(0 <= ls < n && c[ls].range.start == r.start);
    assert(0 <= le < n && c[le].range.end == r.end);
}
%fn combine_ranges(a, b) -> r
%ensures
    r.start == low(a.start, b.start), r.end == high(a.end, b.end),
%fn <InfixBuilderImpl as InfixBuilder<SyntaxNode,SyntaxNode>>::build(self, op, children) -> r
%ensures
    built_of(r, self.name, seq![children.0, op, children.1]), spans(r.range, seq![children.0, op, children.1]),
%start
    broadcast use lemma_spans;
%fn <PrefixBuilderImpl as PrefixBuilder<SyntaxNode,SyntaxNode>>::build(self, op, right) -> r
%ensures
    built_of(r, self.name, seq![op, right]), spans(r.range, seq![op, right]),
%start
    broadcast use lemma_spans;
%fn <PostfixBuilderImpl as PostfixBuilder<SyntaxNode,SyntaxNode>>::build(self, op, left) -> r
%ensures
    built_of(r, self.name, seq![left, op]), spans(r.range, seq![left, op]),
%start
    broadcast use lemma_spans;
%end
%spec parser::rule_collections::built_in_rules
use crate::parser::syntax_tree::syntax_node::*;
use crate::parser::rule_collection::built_of;
/// an element that is missing: nothing, at that place
pub open spec fn missing_at(n: SyntaxNode, name: SyntaxNodeNameId, p: usize) -> bool { built_of(n, name, Seq::empty()) && n.range.start == p && n.range.end == p }
/// these are the texts of the first symbols
pub open spec fn texts_of(t: Seq<String>, v: Seq<InputNode>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] v[i])->Symbol_0@ == t[i]@ }
%fn BuiltInRules::error_missing_token(self, position) -> r
%ensures
    missing_at(r, self.error_missing_token_name, position),
%fn BuiltInRules::error_missing_operator(self, range, child_a, child_b) -> r
%ensures
    r.range == range,
    exists|m: SyntaxNode| #[trigger] missing_at(m, self.error_missing_token_name, child_a.range.end) && built_of(r, self.error_missing_operator_name, seq![child_a, m, child_b]),
%fn BuiltInRules::error_unknown_token(self, range, values) -> r
%requires
    forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i]) is Symbol,
%ensures
    r.name == self.error_unknown_token_name, r.range == range, r.value@.len() == 0,
    r.children matches SyntaxNodeChildren::Leaf(l) && l.node_type == crate::parser::syntax_tree::LeafNodeType::Symbol && l.symbols@.len() == values@.len()
        && forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i])->Symbol_0@ == l.symbols@[i]@,
%loop 0 it
    invariant
        it.seq().len() == values@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == values@[i],
        forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i]) is Symbol,
        vx_acc@.len() == it.index@, texts_of(vx_acc@, values@),
%fn BuiltInRules::nothing_node(self, position) -> r
%ensures
    missing_at(r, self.nothing_name, position),
%fn BuiltInRules::nothing_node_with_name(name, position) -> r
%ensures
    missing_at(r, name, position),
%fn BuiltInRules::whitespace_node(self, symbols, range) -> r
%ensures
    r.name == self.whitespace_rule_name, r.range == range,
    r.children matches SyntaxNodeChildren::Leaf(l) && l.symbols == symbols && l.node_type == crate::parser::syntax_tree::LeafNodeType::Operator,
%fn BuiltInRules::whitespaces_node(self, spaces_before, node, spaces_after, range) -> r
%ensures
    spaces_before is None && spaces_after is None ==> r == node,
    spaces_before is Some || spaces_after is Some ==> r.range == range && built_of(r, self.whitespaces_rule_name,
        (if spaces_before is Some { seq![spaces_before->0] } else { Seq::empty() }) + seq![node] + (if spaces_after is Some { seq![spaces_after->0] } else { Seq::empty() })),
%end
