%% focus.rs: places reached by navigation, and their addresses (C08)
%spec focus
pub open spec fn into_known<A: Into<RowIndex>>(a: A) -> bool { <A as vstd::std_specs::convert::IntoSpec<RowIndex>>::obeys_into_spec() }
pub open spec fn into_index<A: Into<RowIndex>>(a: A) -> RowIndex { vstd::std_specs::convert::IntoSpec::<RowIndex>::into_spec(a) }
/// std's reflexive conversion is the identity
pub broadcast axiom fn axiom_into_self(a: RowIndex)
    ensures #[trigger] into_known(a), into_index(a) == a;
/// the row has a child row with that address
pub open spec fn child_there(f: InputFocusRow<'_>, ix: RowIndex) -> bool {
    ix.0 < f.row.values@.len() && (f.row.values@[ix.0 as int] matches InputNode::Container(_, g) && ix.1 < g.values@.len())
}
/// following the parents up: the row is the one at address idx of the topmost row
pub open spec fn chain<'a>(row: InputRow, parent: Option<Box<InputFocusNode<'a>>>, idx: Seq<RowIndex>) -> bool decreases parent {
    match parent {
        None => idx.len() == 0,
        Some(b) => {
            &&& idx.len() > 0
            &&& idx.last().0 == b.index_in_parent
            &&& b.index_in_parent < b.parent.row.values@.len()
            &&& *b.node == b.parent.row.values@[b.index_in_parent as int]
            &&& (*b.node matches InputNode::Container(_, g) && idx.last().1 < g.values@.len() && row == g.values@[idx.last().1 as int])
            &&& chain(*b.parent.row, b.parent.parent, idx.drop_last())
        }
    }
}
/// the topmost row
pub open spec fn top<'a>(row: InputRow, parent: Option<Box<InputFocusNode<'a>>>) -> InputRow decreases parent {
    match parent { None => row, Some(b) => top(*b.parent.row, b.parent.parent) }
}
impl<'a> InputFocusRow<'a> {
    pub open spec fn root(&self) -> InputRow { top(*self.row, self.parent) }
    /// the address is the one of this row, in a well-formed formula
    pub open spec fn wf(&self) -> bool { chain(*self.row, self.parent, self.row_indices.0@) && ok_row(self.root().sv()) }
    pub open spec fn p(&self) -> Seq<RowIndex> { self.row_indices.0@ }
    /// the abstract row
    pub open spec fn srow(&self) -> SRow { self.row.sv() }
    /// the abstract formula
    pub open spec fn sroot(&self) -> SRow { self.root().sv() }
}
impl<'a> InputFocusNode<'a> {
    pub open spec fn wf(&self) -> bool {
        self.parent.wf() && self.index_in_parent < self.parent.row.values@.len() && *self.node == self.parent.row.values@[self.index_in_parent as int]
    }
    pub open spec fn root(&self) -> InputRow { self.parent.root() }
    pub open spec fn sroot(&self) -> SRow { self.root().sv() }
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for InputFocusRow<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.row_indices.0@ == other.row_indices.0@ }
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for InputFocusNode<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.parent.row_indices.0@ == other.parent.row_indices.0@ && self.index_in_parent == other.index_in_parent }
}
/// C08: the address of a place reached denotes, from the root, exactly that row
pub broadcast proof fn c08_address(f: InputFocusRow<'_>)
    requires #[trigger] f.wf(),
    ensures valid_path(f.sroot(), f.p()), at_path(f.sroot(), f.p()) == f.srow(), ok_row(f.srow()), f.srow().values.len() == f.row.values@.len(),
        f.p().len() == 0 <==> f.parent is None,
{
    lemma_chain(*f.row, f.parent, f.p());
    lemma_ok_at(f.sroot(), f.p());
}
pub proof fn lemma_chain<'a>(row: InputRow, parent: Option<Box<InputFocusNode<'a>>>, idx: Seq<RowIndex>)
    requires chain(row, parent, idx),
    ensures valid_path(top(row, parent).sv(), idx), at_path(top(row, parent).sv(), idx) == row.sv(),
    decreases parent
{
    if let Some(b) = parent {
        lemma_chain(*b.parent.row, b.parent.parent, idx.drop_last());
        assert(idx.drop_last().push(idx.last()) =~= idx);
        lemma_push_path(top(row, parent).sv(), idx.drop_last(), idx.last());
        lemma_row_sv(*b.parent.row, idx.last());
    }
}
/// one step in the abstract formula is one step in the real one
pub broadcast proof fn lemma_row_sv(r: InputRow, ix: RowIndex)
    ensures
        #[trigger] valid_step(r.sv(), ix) <==> ix.0 < r.values@.len() && (r.values@[ix.0 as int] matches InputNode::Container(_, g) && ix.1 < g.values@.len()),
        valid_step(r.sv(), ix) ==> (r.values@[ix.0 as int] matches InputNode::Container(_, g) && step(r.sv(), ix) == g.values@[ix.1 as int].sv()),
{
    if ix.0 < r.values@.len() {
        assert(r.sv().values[ix.0 as int] == r.values@[ix.0 as int].sv());
    }
}
/// grids in a well-formed row are rectangles
pub broadcast proof fn lemma_row_grid_wf(r: InputRow, i: int)
    requires ok_row(r.sv()), 0 <= i < r.values@.len(),
    ensures (#[trigger] r.values@[i]) matches InputNode::Container(_, g) ==> g.wf() && r.sv().values[i] == SNode::Cont(r.values@[i]->Container_0, g.sv_cells(), g.width as int),
{
    assert(r.sv().values[i] == r.values@[i].sv());
    assert(ok_node(r.sv().values[i]));
    if let InputNode::Container(k, g) = r.values@[i] {
        assert(g.sv_cells().len() == g.values@.len());
    }
}
/// indices in memory are small (a row takes at least a byte of memory per element)
pub proof fn lemma_small(f: InputFocusRow<'_>, o: int)
    requires f.wf(), 0 <= o <= f.row.values@.len(),
    ensures crate::row::small(f.p(), o), 2 * f.row.values@.len() < usize::MAX,
{
    crate::row::lemma_row_len(f.row);
    lemma_small_chain(*f.row, f.parent, f.p());
}
pub proof fn lemma_small_chain<'a>(row: InputRow, parent: Option<Box<InputFocusNode<'a>>>, idx: Seq<RowIndex>)
    requires chain(row, parent, idx),
    ensures forall|i: int| 0 <= i < idx.len() ==> 2 * (#[trigger] idx[i]).0 + 1 <= usize::MAX,
    decreases parent
{
    if let Some(b) = parent {
        lemma_small_chain(*b.parent.row, b.parent.parent, idx.drop_last());
        crate::row::lemma_row_len(b.parent.row);
        assert forall|i: int| 0 <= i < idx.len() implies 2 * (#[trigger] idx[i]).0 + 1 <= usize::MAX by {
            if i < idx.len() - 1 { assert(idx.drop_last()[i] == idx[i]); }
        }
    }
}
%spec row
/// a Vec holds at most isize::MAX bytes, and an element (a String or a Vec) takes at least four (assumed: a fact of the memory model)
#[verifier::external_body]
pub proof fn lemma_nodes_len(v: &Vec<InputNode>)
    ensures 8 * v@.len() < usize::MAX,
{ }
pub proof fn lemma_row_len(r: &InputRow)
    ensures 8 * r.values@.len() < usize::MAX,
{ lemma_nodes_len(&r.values); }

%fn InputFocusRow::new(row, parent, row_indices) -> r
%ensures
    r.row == row, r.row_indices == row_indices,
    parent is None <==> r.parent is None,
    parent matches Some(n) ==> (r.parent matches Some(b) && *b == n),
%fn InputFocusRow::from_root(row) -> r
%requires
    ok_row(row.sv()),
%ensures
    r.wf(), r.row == row, r.root() == *row, r.p().len() == 0, r.p() == Seq::<RowIndex>::empty(),
%fn InputFocusRow::walk_down_indices(self, indices) -> r
%requires
    self.wf(), valid_path(self.srow(), indices.0@),
%ensures
    r.wf(), r.root() == self.root(),
    r.p() == self.p() + indices.0@,
    r.srow() == at_path(self.srow(), indices.0@),
%start
    broadcast use c08_address;
    let ghost vx_f = self;
    proof { assert(self.p() + indices.0@.take(0) =~= self.p()); assert(indices.0@.take(indices.0@.len() as int) =~= indices.0@); assert(indices.0@.skip(0) =~= indices.0@); }
%loop 0 it
    invariant
        0 <= it.index@ <= indices.0@.len(),
        it.seq().len() == indices.0@.len(), forall|i: int| 0 <= i < indices.0@.len() ==> *(#[trigger] it.seq()[i]) == indices.0@[i],
        vx_f.wf(), current.wf(), current.root() == vx_f.root(),
        current.p() == vx_f.p() + indices.0@.take(it.index@),
        valid_path(current.srow(), indices.0@.skip(it.index@)),
        at_path(current.srow(), indices.0@.skip(it.index@)) == at_path(vx_f.srow(), indices.0@),
%lstart 0
    broadcast use {c08_address, axiom_into_self};
    proof {
        let rest = indices.0@.skip(it.index@);
        assert(rest[0] == indices.0@[it.index@]);
        assert(rest.skip(1) =~= indices.0@.skip(it.index@ + 1));
        assert(indices.0@.take(it.index@ + 1) =~= indices.0@.take(it.index@).push(indices.0@[it.index@]));
        assert(vx_f.p() + indices.0@.take(it.index@ + 1) =~= (vx_f.p() + indices.0@.take(it.index@)).push(indices.0@[it.index@]));
        lemma_row_sv(*current.row, rest[0]);
        assert(into_known(indices.0@[it.index@]) && into_index(indices.0@[it.index@]) == rest[0]);
    }
%% the same text once more: whatever it is given, the row that is found is the row of that address (C08)
%fn InputFocusRow::vx_checked_walk_down_indices(self, indices) -> r
%checked
%requires
    self.wf(),
%ensures
    valid_path(self.srow(), indices.0@),
    r.wf(), r.root() == self.root(),
    r.p() == self.p() + indices.0@,
    r.srow() == at_path(self.srow(), indices.0@),
%start
    broadcast use c08_address;
    let ghost vx_f = self;
    proof { assert(self.p() + indices.0@.take(0) =~= self.p()); assert(indices.0@.take(indices.0@.len() as int) =~= indices.0@); assert(indices.0@.skip(0) =~= indices.0@); assert(indices.0@.skip(indices.0@.len() as int) =~= Seq::<RowIndex>::empty()); }
%loop 0 it
    invariant
        0 <= it.index@ <= indices.0@.len(),
        it.seq().len() == indices.0@.len(), forall|i: int| 0 <= i < indices.0@.len() ==> *(#[trigger] it.seq()[i]) == indices.0@[i],
        vx_f.wf(), current.wf(), current.root() == vx_f.root(),
        current.p() == vx_f.p() + indices.0@.take(it.index@),
        valid_path(current.srow(), indices.0@.skip(it.index@)) <==> valid_path(vx_f.srow(), indices.0@),
        valid_path(vx_f.srow(), indices.0@) ==> at_path(current.srow(), indices.0@.skip(it.index@)) == at_path(vx_f.srow(), indices.0@),
%lstart 0
    broadcast use {c08_address, axiom_into_self};
    proof {
        let rest = indices.0@.skip(it.index@);
        assert(rest[0] == indices.0@[it.index@]);
        assert(rest.skip(1) =~= indices.0@.skip(it.index@ + 1));
        assert(indices.0@.take(it.index@ + 1) =~= indices.0@.take(it.index@).push(indices.0@[it.index@]));
        assert(vx_f.p() + indices.0@.take(it.index@ + 1) =~= (vx_f.p() + indices.0@.take(it.index@)).push(indices.0@[it.index@]));
        lemma_row_sv(*current.row, rest[0]);
        assert(into_known(indices.0@[it.index@]) && into_index(indices.0@[it.index@]) == rest[0]);
    }
%fn InputFocusRow::row_at(self, row_index) -> r
%requires
    self.wf(),
%ensures
    r matches Some(c) ==> c.wf() && c.root() == self.root() && exists|ix: RowIndex| #![trigger self.p().push(ix)] c.p() == self.p().push(ix),
    // the child row with that address, absent exactly if there is none
    into_known(row_index) ==> {
        let ix = into_index(row_index);
        &&& r is Some <==> child_there(self, ix)
        &&& r matches Some(c) ==> c.p() == self.p().push(ix) && valid_step(self.srow(), ix) && c.srow() == step(self.srow(), ix)
    },
%start
    broadcast use lemma_row_sv;
%fn InputFocusRow::parent(self) -> r
%requires
    self.wf(),
%ensures
    r is None <==> self.p().len() == 0,
    r matches Some(n) ==> {
        &&& n.wf()
        &&& (self.parent matches Some(b) && b.node == n.node && b.index_in_parent == n.index_in_parent)
        &&& n.root() == self.root()
        &&& n.parent.p() == self.p().drop_last()
        &&& n.index_in_parent == self.p().last().0
        &&& (*n.node matches InputNode::Container(_, g) && g.wf() && self.p().last().1 < g.values@.len() && *self.row == g.values@[self.p().last().1 as int])
    },
%start
    broadcast use c08_address, lemma_row_grid_wf;
%fn InputFocusRow::child_at(self, index) -> r
%requires
    self.wf(),
%ensures
    r is Some <==> index < self.row.values@.len(),
    r matches Some(n) ==> n.wf() && n.parent == self && n.index_in_parent == index && *n.node == self.row.values@[index as int],
%fn InputFocusRow::node_at(self, index) -> r
%ensures
    r is Some <==> index < self.row.values@.len(),
    r matches Some(n) ==> *n == self.row.values@[index as int],
%fn InputFocusRow::row(self) -> r
%ensures
    r == self.row,
%fn InputFocusRow::len(self) -> r
%ensures
    r == self.row.values@.len(), r == self.srow().values.len(),
%fn InputFocusRow::is_empty(self) -> r
%ensures
    r == (self.row.values@.len() == 0),
%fn InputFocusRow::row_indices(self) -> r
%ensures
    *r == self.row_indices,
%fn InputFocusRow::index_in_parent(self) -> r
%ensures
    r == (if self.p().len() == 0 { None } else { Some(self.p().last().1) }),
%fn InputFocusRow::offset_to_index(self, offset, direction) -> r
%ensures
    direction == HorizontalDirection::Left ==> r == (if offset.0 == 0 { None } else { Some((offset.0 - 1) as usize) }),
    direction == HorizontalDirection::Right ==> r == (if offset.0 >= self.row.values@.len() { None } else { Some(offset.0) }),
%fn InputFocusNode::new(node, parent, index_in_parent) -> r
%ensures
    r.node == node, r.parent == parent, r.index_in_parent == index_in_parent,
%fn InputFocusNode::node(self) -> r
%ensures
    r == self.node,
%fn InputFocusNode::parent(self) -> r
%ensures
    r == self.parent,
%fn InputFocusNode::child_at(self, index) -> r
%requires
    self.wf(),
%ensures
    // present exactly if there is such a cell
    r is Ok <==> (*self.node matches InputNode::Container(_, g) && index < g.values@.len()),
    r matches Err(n) ==> n == self,
    r matches Ok(c) ==> {
        &&& c.wf()
        &&& c.root() == self.root()
        &&& c.p() == self.parent.p().push(RowIndex(self.index_in_parent, index))
        &&& (*self.node matches InputNode::Container(_, g) && *c.row == g.values@[index as int])
    },
%start
    broadcast use c08_address, lemma_row_grid_wf;
    let ghost vx_nd = *self.node;
    proof {
        assert(self.parent.p().push(RowIndex(self.index_in_parent, index)).drop_last() =~= self.parent.p());
        if let InputNode::Container(_, g) = vx_nd { crate::grid::index2d::lemma_cell_index(index as int, g); }
    }
%fn InputFocusNode::element_indices(self) -> r
%ensures
    r.row_indices.0@ == self.parent.p(), r.index == self.index_in_parent,
%fn InputFocusNode::index_in_parent(self) -> r
%ensures
    r == self.index_in_parent,
%end
