%% C07: the edits that the builders return can be applied, do what they say, and the returned place is valid
%spec input_tree
use crate::editing::basic_edit::row_edit_is;
/// a row with the elements from lo to hi replaced by others
pub open spec fn replaced(x: SRow, lo: int, hi: int, v: Seq<SNode>) -> SRow { SRow { values: x.values.take(lo) + v + x.values.skip(hi) } }
pub proof fn c07_remove(range: InputRowRange<'_>, e: BasicEdit)
    requires range.wf(), row_edit_is(e, EditType::Delete, range.p(), range.lo(), range.row_focus.row.values@.subrange(range.lo(), range.hi())),
    ensures ({
        let r = range.sroot(); let x = range.row_focus.srow();
        &&& edit_applies(r, e) && recorded(r, e) && in_memory(at_path(r, edit_path(e)))
        &&& st_ok(EditState::Tree(r), e)
        &&& edit_result(r, e) == put_path(r, range.p(), replaced(x, range.lo(), range.hi(), Seq::empty()))
        &&& valid_pos(edit_result(r, e), range.p(), range.lo())
        &&& ok_row(edit_result(r, e))
    }),
{
    let r = range.sroot();
    crate::focus::row_range::c08_valid_range(range);
    crate::focus::c08_address(range.row_focus);
    lemma_in_memory(range.root(), range.p());
    if let BasicEdit::Row(b) = e {
        let x = range.row_focus.srow();
        assert(sv_nodes(b.values@) =~= x.values.subrange(range.lo(), range.hi()));
        lemma_put_get(r, range.p(), edit_row(x, e));
        assert(edit_row(x, e).values =~= replaced(x, range.lo(), range.hi(), Seq::empty()).values);
        c03_still_wellformed(r, e);
    }
}
pub open spec fn ok_nodes(v: Seq<InputNode>) -> bool { forall|i: int| 0 <= i < v.len() ==> ok_node(#[trigger] sv_nodes(v)[i]) }
pub proof fn c07_insert(pos: InputRowPosition<'_>, values: Vec<InputNode>, e: BasicEdit)
    requires pos.wf(), row_edit_is(e, EditType::Insert, pos.p(), pos.o(), values@), ok_nodes(values@),
    ensures ({
        let r = pos.sroot(); let x = pos.row_focus.srow();
        &&& edit_applies(r, e) && recorded(r, e) && in_memory(at_path(r, edit_path(e)))
        &&& st_ok(EditState::Tree(r), e)
        &&& edit_result(r, e) == put_path(r, pos.p(), replaced(x, pos.o(), pos.o(), sv_nodes(values@)))
        &&& valid_pos(edit_result(r, e), pos.p(), pos.o() + values@.len())
        // the returned place is directly behind the new elements
        &&& at_path(edit_result(r, e), pos.p()).values.subrange(pos.o(), pos.o() + values@.len()) == sv_nodes(values@)
        &&& ok_row(edit_result(r, e))
    }),
{
    let r = pos.sroot();
    crate::focus::row_position::c08_valid(pos);
    crate::focus::c08_address(pos.row_focus);
    lemma_in_memory(pos.root(), pos.p());
    crate::row::lemma_row_len(pos.row_focus.row);
    crate::row::lemma_nodes_len(&values);
    let x = pos.row_focus.srow();
    lemma_put_get(r, pos.p(), edit_row(x, e));
    assert(edit_row(x, e).values =~= replaced(x, pos.o(), pos.o(), sv_nodes(values@)).values);
    assert(edit_row(x, e).values.subrange(pos.o(), pos.o() + values@.len()) =~= sv_nodes(values@));
    c03_still_wellformed(r, e);
}
pub proof fn c07_replace(range: InputRowRange<'_>, values: Vec<InputNode>, es: Seq<BasicEdit>)
    requires range.wf(), ok_nodes(values@), crate::editing::basic_edit::replacement(range, values@, es),
    ensures ({
        let r = range.sroot(); let x = range.row_focus.srow(); let s = EditState::Tree(r);
        let r2 = put_path(r, range.p(), replaced(x, range.lo(), range.hi(), sv_nodes(values@)));
        &&& st_all_ok(s, es) && recorded_all(r, es)
        &&& st_all(s, es) == EditState::Tree(r2)
        &&& valid_range(r2, range.p(), range.lo(), range.lo() + values@.len())
        // the returned range is exactly the new elements
        &&& at_path(r2, range.p()).values.subrange(range.lo(), range.lo() + values@.len()) == sv_nodes(values@)
        &&& ok_row(r2)
    }),
{
    let r = range.sroot(); let x = range.row_focus.srow(); let s = EditState::Tree(r); let p = range.p();
    c07_remove(range, es[0]);
    let r1 = edit_result(r, es[0]);
    let x1 = replaced(x, range.lo(), range.hi(), Seq::empty());
    crate::focus::c08_address(range.row_focus);
    lemma_put_get(r, p, x1);
    crate::row::lemma_row_len(range.row_focus.row);
    crate::row::lemma_nodes_len(&values);
    lemma_in_memory(range.root(), p);
    assert(edit_applies(r1, es[1]));
    let x2 = edit_row(x1, es[1]);
    lemma_put_get(r, p, x2);
    lemma_put_get(r1, p, x2);
    assert(x2.values =~= replaced(x, range.lo(), range.hi(), sv_nodes(values@)).values);
    c03_still_wellformed(r1, es[1]);
    assert(in_memory(x1)) by {
        assert forall|i: int| 0 <= i < x1.values.len() implies ((#[trigger] x1.values[i]) matches SNode::Cont(_, cells, w) ==> cells.len() <= usize::MAX && w <= usize::MAX) by {
            if i < range.lo() { assert(x1.values[i] == x.values[i]); } else { assert(x1.values[i] == x.values[i + range.hi() - range.lo()]); }
        }
    }
    assert(es.drop_last() =~= seq![es[0]]); assert(es.drop_last().drop_last() =~= Seq::empty());
    assert(st_all(s, Seq::empty()) == s); assert(st_all_ok(s, Seq::empty())); assert(recorded_all(r, Seq::empty()));
    assert(es.drop_last().last() == es[0]);
    assert(st_all(s, es.drop_last()) == EditState::Tree(r1)); assert(st_all_ok(s, es.drop_last())); assert(recorded_all(r, es.drop_last()));
    assert(x2.values.subrange(range.lo(), range.lo() + values@.len()) =~= sv_nodes(values@));
}
%end
