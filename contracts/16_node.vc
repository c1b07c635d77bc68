%% node.rs (C01, C03, C09)
%fn InputNodeVariant::has_resizable_grid(self) -> r
%ensures
    r == (*self == InputNodeVariant::Table),
%fn InputNode::has_resizable_grid(self) -> r
%ensures
    r == (*self matches InputNode::Container(k, _) && k == InputNodeVariant::Table),
%fn InputNode::grid(self) -> r
%ensures
    r is Some <==> *self is Container,
    *self matches InputNode::Container(_, g) ==> r == Some(&g),
%fn InputNode::grid_mut(self) -> r
%ensures
    r is Some <==> *old(self) is Container,
    r is None ==> *final(self) == *old(self),
    *old(self) matches InputNode::Container(k, g) ==> (r matches Some(v) && *v == g && *final(self) == InputNode::Container(k, *final(v))),
%fn InputNode::row_mut(self, index) -> r
%requires
    *old(self) matches InputNode::Container(_, g) && g.wf() && index < g.values@.len(),
%ensures
    *old(self) matches InputNode::Container(k, g) && *r == g.values@[index as int]
        && (*final(self) matches InputNode::Container(k2, g2) && k2 == k && g2.width == g.width && g2.values@ == g.values@.update(index as int, *final(r))),
%start
    let ghost vx_n = *self;
    proof { if let InputNode::Container(_, g) = vx_n { crate::grid::index2d::lemma_cell_index(index as int, g); } }
%fn InputNode::container_with_type(container_type, rows) -> r
%ensures
    r == InputNode::Container(container_type, rows),
%fn InputNode::fraction(values) -> r
%ensures
    r matches InputNode::Container(k, g) && k == InputNodeVariant::Fraction && g.wf() && g.width == 1 && g.values@ == values@,
%fn InputNode::root(values) -> r
%ensures
    r matches InputNode::Container(k, g) && k == InputNodeVariant::Root && g.wf() && g.width == 2 && g.values@ == values@,
%fn InputNode::sup(value) -> r
%ensures
    r matches InputNode::Container(k, g) && k == InputNodeVariant::Sup && g.wf() && g.width == 1 && g.values@ == seq![value],
%fn InputNode::sub(value) -> r
%ensures
    r matches InputNode::Container(k, g) && k == InputNodeVariant::Sub && g.wf() && g.width == 1 && g.values@ == seq![value],
%fn InputNode::table(values, width) -> r
%requires
    width > 0, values@.len() % (width as nat) == 0,
%ensures
    r matches InputNode::Container(k, g) && k == InputNodeVariant::Table && g.wf() && g.width == width && g.values@ == values@,
%fn InputNode::symbol(value) -> r
%ensures
    r is Symbol,
%fn InputNode::symbols(values) -> r
%ensures
    r@.len() == values@.len(), forall|i: int| 0 <= i < r@.len() ==> r@[i] is Symbol,
%loop 0 it
    invariant
        0 <= it.index@ <= values@.len(), it.seq().len() == values@.len(), vx_acc@.len() == it.index@, forall|i: int| 0 <= i < vx_acc@.len() ==> vx_acc@[i] is Symbol,
%end
