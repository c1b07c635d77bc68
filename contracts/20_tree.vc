%% node.rs, row.rs: the abstract formula, places in it, edits of it

%spec node
impl InputNode {
    /// the abstract element
    pub open spec fn sv(&self) -> SNode decreases self {
        match self { InputNode::Symbol(s) => SNode::Sym(s@), InputNode::Container(k, g) => SNode::Cont(*k, g.sv_cells(), g.width as int) }
    }
}
impl InputRow {
    /// the abstract row
    pub open spec fn sv(&self) -> SRow decreases self {
        SRow { values: Seq::new(self.values@.len(), |i: int| if 0 <= i < self.values@.len() { self.values@[i].sv() } else { arbitrary() }) }
    }
}
impl GridVec<InputRow> {
    /// the abstract cells, row by row
    pub open spec fn sv_cells(&self) -> Seq<SRow> decreases self {
        Seq::new(self.values@.len(), |i: int| if 0 <= i < self.values@.len() { self.values@[i].sv() } else { arbitrary() })
    }
}
/// the abstract elements of a list of elements
pub open spec fn sv_nodes(v: Seq<InputNode>) -> Seq<SNode> { v.map_values(|n: InputNode| n.sv()) }

%prelude
pub mod sp {
use vstd::prelude::*;
use core::cmp::Ordering;
use crate::node::{InputNode, InputNodeVariant, sv_nodes};
use crate::row::{InputRow, RowIndex};
use crate::grid::{GridDirection, GridVec};
use crate::editing::{BasicEdit, EditType, GridEdit, RowEdit};
verus! {
// ================================================================ the abstract formula
/// Rows of elements; an element is a symbol or a container with a grid of rows (row by row) and its width.
pub enum SNode { Sym(Seq<char>), Cont(InputNodeVariant, Seq<SRow>, int) }
pub struct SRow { pub values: Seq<SNode> }

/// every grid in it is a rectangle
pub open spec fn ok_row(r: SRow) -> bool decreases r {
    forall|i: int| 0 <= i < r.values.len() ==> ok_node(#[trigger] r.values[i])
}
pub open spec fn ok_node(n: SNode) -> bool decreases n {
    match n {
        SNode::Sym(_) => true,
        SNode::Cont(_, cells, w) => {
            &&& w > 0 && cells.len() % (w as nat) == 0
            &&& forall|i: int| 0 <= i < cells.len() ==> ok_row(#[trigger] cells[i])
        }
    }
}

// ---------------------------------------------------------------- addresses
pub open spec fn valid_step(r: SRow, ix: RowIndex) -> bool {
    ix.0 < r.values.len() && (r.values[ix.0 as int] matches SNode::Cont(_, cells, _) && ix.1 < cells.len())
}
pub open spec fn step(r: SRow, ix: RowIndex) -> SRow {
    match r.values[ix.0 as int] { SNode::Cont(_, cells, _) => cells[ix.1 as int], _ => arbitrary() }
}
pub open spec fn put_step(r: SRow, ix: RowIndex, x: SRow) -> SRow {
    match r.values[ix.0 as int] {
        SNode::Cont(k, cells, w) => SRow { values: r.values.update(ix.0 as int, SNode::Cont(k, cells.update(ix.1 as int, x), w)) },
        _ => r,
    }
}
/// the address denotes a row of the formula
pub open spec fn valid_path(r: SRow, p: Seq<RowIndex>) -> bool decreases p.len() {
    p.len() == 0 || (valid_step(r, p[0]) && valid_path(step(r, p[0]), p.skip(1)))
}
/// the row it denotes
pub open spec fn at_path(r: SRow, p: Seq<RowIndex>) -> SRow decreases p.len() {
    if p.len() == 0 { r } else { at_path(step(r, p[0]), p.skip(1)) }
}
/// the formula with that row replaced
pub open spec fn put_path(r: SRow, p: Seq<RowIndex>, x: SRow) -> SRow decreases p.len() {
    if p.len() == 0 { x } else { put_step(r, p[0], put_path(step(r, p[0]), p.skip(1), x)) }
}
pub open spec fn is_prefix(p: Seq<RowIndex>, q: Seq<RowIndex>) -> bool {
    p.len() <= q.len() && q.take(p.len() as int) == p
}
/// a caret place
pub open spec fn valid_pos(r: SRow, p: Seq<RowIndex>, o: int) -> bool {
    valid_path(r, p) && 0 <= o <= at_path(r, p).values.len()
}

pub proof fn lemma_push_path(r: SRow, p: Seq<RowIndex>, ix: RowIndex)
    ensures
        valid_path(r, p.push(ix)) <==> valid_path(r, p) && valid_step(at_path(r, p), ix),
        valid_path(r, p) ==> at_path(r, p.push(ix)) == step(at_path(r, p), ix),
        valid_path(r, p) ==> forall|x: SRow| #[trigger] put_path(r, p.push(ix), x) == put_path(r, p, put_step(at_path(r, p), ix, x)),
    decreases p.len()
{
    let q = p.push(ix);
    if p.len() == 0 {
        assert(q.skip(1) =~= Seq::<RowIndex>::empty());
        assert(q[0] == ix);
        assert(valid_path(step(r, ix), q.skip(1)));
        assert(at_path(step(r, ix), q.skip(1)) == step(r, ix));
        assert forall|x: SRow| #[trigger] put_path(r, q, x) == put_path(r, p, put_step(at_path(r, p), ix, x)) by {
            assert(put_path(step(r, ix), q.skip(1), x) == x);
        }
    } else {
        let p1 = p.skip(1);
        assert(q.skip(1) =~= p1.push(ix));
        assert(q[0] == p[0]);
        lemma_push_path(step(r, p[0]), p1, ix);
        if valid_path(r, p) {
            assert forall|x: SRow| #[trigger] put_path(r, q, x) == put_path(r, p, put_step(at_path(r, p), ix, x)) by {
                assert(put_path(step(r, p[0]), p1.push(ix), x) == put_path(step(r, p[0]), p1, put_step(at_path(step(r, p[0]), p1), ix, x)));
            }
        }
    }
}
pub proof fn lemma_concat_path(r: SRow, p: Seq<RowIndex>, q: Seq<RowIndex>)
    ensures
        valid_path(r, p + q) <==> valid_path(r, p) && valid_path(at_path(r, p), q),
        valid_path(r, p) ==> at_path(r, p + q) == at_path(at_path(r, p), q),
        valid_path(r, p) ==> forall|x: SRow| #[trigger] put_path(r, p + q, x) == put_path(r, p, put_path(at_path(r, p), q, x)),
    decreases p.len()
{
    if p.len() == 0 {
        assert(p + q =~= q);
    } else {
        assert((p + q).skip(1) =~= p.skip(1) + q);
        assert((p + q)[0] == p[0]);
        let p1 = p.skip(1);
        lemma_concat_path(step(r, p[0]), p1, q);
        if valid_path(r, p) {
            assert forall|x: SRow| #[trigger] put_path(r, p + q, x) == put_path(r, p, put_path(at_path(r, p), q, x)) by {
                assert(put_path(step(r, p[0]), p1 + q, x) == put_path(step(r, p[0]), p1, put_path(at_path(step(r, p[0]), p1), q, x)));
            }
        }
    }
}
pub proof fn lemma_put_same(r: SRow, p: Seq<RowIndex>)
    requires valid_path(r, p),
    ensures put_path(r, p, at_path(r, p)) == r,
    decreases p.len()
{
    if p.len() > 0 {
        lemma_put_same(step(r, p[0]), p.skip(1));
        if let SNode::Cont(k, cells, w) = r.values[p[0].0 as int] {
            assert(cells.update(p[0].1 as int, cells[p[0].1 as int]) =~= cells);
            assert(r.values.update(p[0].0 as int, r.values[p[0].0 as int]) =~= r.values);
        }
    }
}
pub proof fn lemma_put_get(r: SRow, p: Seq<RowIndex>, x: SRow)
    requires valid_path(r, p),
    ensures
        valid_path(put_path(r, p, x), p),
        at_path(put_path(r, p, x), p) == x,
        forall|y: SRow| #[trigger] put_path(put_path(r, p, x), p, y) == put_path(r, p, y),
    decreases p.len()
{
    if p.len() > 0 {
        let s = put_path(step(r, p[0]), p.skip(1), x);
        lemma_put_get(step(r, p[0]), p.skip(1), x);
        assert(step(put_path(r, p, x), p[0]) == s);
        assert forall|y: SRow| #[trigger] put_path(put_path(r, p, x), p, y) == put_path(r, p, y) by {
            assert(put_path(s, p.skip(1), y) == put_path(step(r, p[0]), p.skip(1), y));
            if let SNode::Cont(k, cells, w) = r.values[p[0].0 as int] {
                let z = put_path(s, p.skip(1), y);
                assert(cells.update(p[0].1 as int, s).update(p[0].1 as int, z) =~= cells.update(p[0].1 as int, z));
                let i = p[0].0 as int;
                let n1 = SNode::Cont(k, cells.update(p[0].1 as int, s), w);
                let n2 = SNode::Cont(k, cells.update(p[0].1 as int, z), w);
                assert(r.values.update(i, n1).update(i, n2) =~= r.values.update(i, n2));
            }
        }
    }
}
pub proof fn lemma_ok_at(r: SRow, p: Seq<RowIndex>)
    requires ok_row(r), valid_path(r, p),
    ensures ok_row(at_path(r, p)),
    decreases p.len()
{
    if p.len() > 0 {
        assert(ok_node(r.values[p[0].0 as int]));
        lemma_ok_at(step(r, p[0]), p.skip(1));
    }
}
pub proof fn lemma_ok_put(r: SRow, p: Seq<RowIndex>, x: SRow)
    requires ok_row(r), valid_path(r, p), ok_row(x),
    ensures ok_row(put_path(r, p, x)),
    decreases p.len()
{
    if p.len() > 0 {
        assert(ok_node(r.values[p[0].0 as int]));
        let s = put_path(step(r, p[0]), p.skip(1), x);
        lemma_ok_put(step(r, p[0]), p.skip(1), x);
        if let SNode::Cont(k, cells, w) = r.values[p[0].0 as int] {
            let c2 = cells.update(p[0].1 as int, s);
            assert forall|i: int| 0 <= i < c2.len() implies ok_row(#[trigger] c2[i]) by { if i != p[0].1 { assert(c2[i] == cells[i]); } }
            let r2 = put_path(r, p, x);
            assert forall|i: int| 0 <= i < r2.values.len() implies ok_node(#[trigger] r2.values[i]) by {
                if i != p[0].0 { assert(r2.values[i] == r.values[i]); } else { assert(r2.values[i] == SNode::Cont(k, c2, w)); }
            }
        }
    }
}
/// replacing one row changes no row that is not above or below it
pub proof fn lemma_put_frame(r: SRow, p: Seq<RowIndex>, x: SRow, q: Seq<RowIndex>)
    requires valid_path(r, p), valid_path(r, q), !is_prefix(p, q), !is_prefix(q, p),
    ensures valid_path(put_path(r, p, x), q), at_path(put_path(r, p, x), q) == at_path(r, q),
    decreases p.len()
{
    if p.len() == 0 { assert(q.take(0) =~= p); }
    else if q.len() == 0 { assert(p.take(0) =~= q); }
    else {
        let s = put_path(step(r, p[0]), p.skip(1), x);
        let r2 = put_path(r, p, x);
        if p[0] == q[0] {
            if is_prefix(p.skip(1), q.skip(1)) {
                assert(q.take(p.len() as int) =~= p) by { assert forall|i: int| 0 <= i < p.len() implies q.take(p.len() as int)[i] == p[i] by { if i > 0 { assert(p.skip(1)[i - 1] == q.skip(1).take(p.len() - 1)[i - 1]); } } }
            }
            if is_prefix(q.skip(1), p.skip(1)) {
                assert(p.take(q.len() as int) =~= q) by { assert forall|i: int| 0 <= i < q.len() implies p.take(q.len() as int)[i] == q[i] by { if i > 0 { assert(q.skip(1)[i - 1] == p.skip(1).take(q.len() - 1)[i - 1]); } } }
            }
            lemma_put_frame(step(r, p[0]), p.skip(1), x, q.skip(1));
            assert(step(r2, q[0]) == s);
        } else {
            assert(step(r2, q[0]) == step(r, q[0]));
        }
    }
}

// ================================================================ edits
pub open spec fn sv_row_cells(v: Seq<InputRow>) -> Seq<SRow> { v.map_values(|n: InputRow| n.sv()) }

/// the row after inserting / removing
pub open spec fn ins(r: SRow, o: int, v: Seq<SNode>) -> SRow { SRow { values: r.values.take(o) + v + r.values.skip(o) } }
pub open spec fn del(r: SRow, o: int, n: int) -> SRow { SRow { values: r.values.take(o) + r.values.skip(o + n) } }

/// the cells after inserting vh rows at row r / vw columns at column c (cell by cell)
pub open spec fn ins_rows<T>(cells: Seq<T>, w: int, h: int, at: int, v: Seq<T>, vh: int) -> Seq<T> {
    Seq::new(((h + vh) * w) as nat, |i: int| { let x = i % w; let y = i / w;
        if y < at { cells[y * w + x] } else if y < at + vh { v[(y - at) * w + x] } else { cells[(y - vh) * w + x] } })
}
pub open spec fn ins_cols<T>(cells: Seq<T>, w: int, h: int, at: int, v: Seq<T>, vw: int) -> Seq<T> {
    Seq::new((h * (w + vw)) as nat, |i: int| { let x = i % (w + vw); let y = i / (w + vw);
        if x < at { cells[y * w + x] } else if x < at + vw { v[y * vw + (x - at)] } else { cells[y * w + (x - vw)] } })
}
pub open spec fn del_rows<T>(cells: Seq<T>, w: int, h: int, at: int, vh: int) -> Seq<T> {
    Seq::new(((h - vh) * w) as nat, |i: int| { let x = i % w; let y = i / w;
        if y < at { cells[y * w + x] } else { cells[(y + vh) * w + x] } })
}
pub open spec fn del_cols<T>(cells: Seq<T>, w: int, h: int, at: int, vw: int) -> Seq<T> {
    Seq::new((h * (w - vw)) as nat, |i: int| { let x = i % (w - vw); let y = i / (w - vw);
        if x < at { cells[y * w + x] } else { cells[y * w + (x + vw)] } })
}

/// the edit can be applied to the formula
pub open spec fn edit_applies(r: SRow, e: BasicEdit) -> bool {
    match e {
        BasicEdit::Row(e) => {
            let p = e.position.row_indices.0@;
            &&& valid_path(r, p)
            &&& match e.edit_type {
                EditType::Insert => e.position.offset.0 <= at_path(r, p).values.len() && 4 * (at_path(r, p).values.len() + e.values@.len()) <= usize::MAX,
                EditType::Delete => e.position.offset.0 + e.values@.len() <= at_path(r, p).values.len(),
            }
        }
        BasicEdit::Grid(e) => {
            let p = e.element_indices.row_indices.0@;
            &&& valid_path(r, p)
            &&& e.element_indices.index < at_path(r, p).values.len()
            &&& e.values.wf()
            &&& match at_path(r, p).values[e.element_indices.index as int] {
                SNode::Cont(k, cells, w) => {
                    let h = cells.len() as int / w;
                    &&& k == InputNodeVariant::Table
                    &&& w > 0 && cells.len() % (w as nat) == 0
                    &&& match (e.edit_type, e.direction) {
                        (EditType::Insert, GridDirection::Row) => e.values.width == w && e.row_or_column.0 <= h && cells.len() + e.values.values@.len() <= usize::MAX,
                        (EditType::Insert, GridDirection::Column) => e.values.spec_height() == h && e.row_or_column.0 <= w && cells.len() + e.values.values@.len() <= usize::MAX && w + e.values.width <= usize::MAX,
                        (EditType::Delete, GridDirection::Row) => e.values.width == w && e.row_or_column.0 + e.values.spec_height() <= h,
                        (EditType::Delete, GridDirection::Column) => e.values.spec_height() == h && e.row_or_column.0 + e.values.width <= w && e.values.width < w,
                    }
                }
                _ => false,
            }
        }
    }
}
pub open spec fn grid_result(n: SNode, e: GridEdit) -> SNode {
    match n {
        SNode::Cont(k, cells, w) => {
            let h = cells.len() as int / w;
            let v = sv_row_cells(e.values.values@);
            let at = e.row_or_column.0 as int;
            match (e.edit_type, e.direction) {
                (EditType::Insert, GridDirection::Row) => SNode::Cont(k, ins_rows(cells, w, h, at, v, e.values.spec_height()), w),
                (EditType::Insert, GridDirection::Column) => SNode::Cont(k, ins_cols(cells, w, h, at, v, e.values.width as int), w + e.values.width),
                (EditType::Delete, GridDirection::Row) => SNode::Cont(k, del_rows(cells, w, h, at, e.values.spec_height()), w),
                (EditType::Delete, GridDirection::Column) => SNode::Cont(k, del_cols(cells, w, h, at, e.values.width as int), w - e.values.width),
            }
        }
        _ => n,
    }
}
/// the row that the edit changes, afterwards
pub open spec fn edit_row(r: SRow, e: BasicEdit) -> SRow {
    match e {
        BasicEdit::Row(e) => match e.edit_type {
            EditType::Insert => ins(r, e.position.offset.0 as int, sv_nodes(e.values@)),
            EditType::Delete => del(r, e.position.offset.0 as int, e.values@.len() as int),
        },
        BasicEdit::Grid(e) => SRow { values: r.values.update(e.element_indices.index as int, grid_result(r.values[e.element_indices.index as int], e)) },
    }
}
pub open spec fn edit_path(e: BasicEdit) -> Seq<RowIndex> {
    match e { BasicEdit::Row(e) => e.position.row_indices.0@, BasicEdit::Grid(e) => e.element_indices.row_indices.0@ }
}
/// the formula after the edit: the addressed row is changed, nothing else
pub open spec fn edit_result(r: SRow, e: BasicEdit) -> SRow {
    put_path(r, edit_path(e), edit_row(at_path(r, edit_path(e)), e))
}

// ---------------------------------------------------------------- things that can be edited
/// a formula, or a stored range or position in a formula
pub enum EditState { Tree(SRow), Range(Seq<RowIndex>, int, int), Pos(Seq<RowIndex>, int), Other }
/// the edit can be applied
pub open spec fn st_ok(s: EditState, e: BasicEdit) -> bool {
    match s {
        EditState::Tree(r) => ok_row(r) && edit_applies(r, e),
        EditState::Range(p, a, b) => range_ok(p, a, b, e),
        EditState::Pos(p, a) => range_ok(p, a, a, e),
        EditState::Other => false,
    }
}
pub open spec fn st_next(s: EditState, e: BasicEdit) -> EditState {
    match s {
        EditState::Tree(r) => EditState::Tree(edit_result(r, e)),
        EditState::Range(p, a, b) => { let n = range_next(p, a, b, e); EditState::Range(n.0, n.1, n.2) }
        // a position stays in front of elements inserted at it
        EditState::Pos(p, a) => { let n = range_next(p, a, a, e); EditState::Pos(n.0, n.1) }
        EditState::Other => EditState::Other,
    }
}
/// one edit after the other
pub open spec fn st_all(s: EditState, es: Seq<BasicEdit>) -> EditState decreases es.len() {
    if es.len() == 0 { s } else { st_next(st_all(s, es.drop_last()), es.last()) }
}
pub open spec fn st_all_ok(s: EditState, es: Seq<BasicEdit>) -> bool decreases es.len() {
    es.len() == 0 || (st_all_ok(s, es.drop_last()) && st_ok(st_all(s, es.drop_last()), es.last()))
}
pub proof fn lemma_st_all(s: EditState, es: Seq<BasicEdit>)
    requires st_all_ok(s, es),
    ensures
        es.take(es.len() as int) == es, es.take(0) == Seq::<BasicEdit>::empty(),
        forall|k: int| 0 <= k < es.len() ==> st_ok(st_all(s, es.take(k)), #[trigger] es[k]) && st_all(s, es.take(k + 1)) == st_next(st_all(s, es.take(k)), es[k]),
    decreases es.len()
{
    assert(es.take(es.len() as int) =~= es); assert(es.take(0) =~= Seq::<BasicEdit>::empty());
    if es.len() > 0 {
        let d = es.drop_last();
        lemma_st_all(s, d);
        assert forall|k: int| 0 <= k < es.len() implies st_ok(st_all(s, es.take(k)), #[trigger] es[k]) && st_all(s, es.take(k + 1)) == st_next(st_all(s, es.take(k)), es[k]) by {
            assert(es.take(k + 1).drop_last() =~= es.take(k));
            assert(es.take(k + 1).last() == es[k]);
            if k < d.len() {
                assert(d.take(k) =~= es.take(k)); assert(d[k] == es[k]);
            } else {
                assert(es.take(k) =~= d);
            }
        }
    }
}

// ---------------------------------------------------------------- stored ranges (C04)
/// a place in the edited row, after inserting n elements at o
pub open spec fn after_ins(x: int, o: int, n: int, at_start: bool) -> int { if o < x || (o == x && !at_start) { x + n } else { x } }
/// a place in the edited row, after removing n elements at o
pub open spec fn after_del(x: int, o: int, n: int) -> int { if x <= o { x } else if x <= o + n { o } else { x - n } }
/// the stored range from a to b in the row at p, after the edit
pub open spec fn range_next(p: Seq<RowIndex>, a: int, b: int, e: BasicEdit) -> (Seq<RowIndex>, int, int) {
    match e {
        BasicEdit::Row(e) => {
            let q = e.position.row_indices.0@;
            let o = e.position.offset.0 as int;
            let n = e.values@.len() as int;
            if !is_prefix(q, p) { (p, a, b) }
            else if q == p {
                match e.edit_type {
                    // the left end stays in front of elements inserted at it, the right end goes behind them
                    EditType::Insert => if a <= b { (p, after_ins(a, o, n, true), after_ins(b, o, n, false)) } else { (p, after_ins(a, o, n, false), after_ins(b, o, n, true)) },
                    EditType::Delete => (p, after_del(a, o, n), after_del(b, o, n)),
                }
            } else {
                let i = p[q.len() as int];
                match e.edit_type {
                    // the container moves with the elements around it
                    EditType::Insert => if o <= i.0 { (p.update(q.len() as int, RowIndex((i.0 + n) as usize, i.1)), a, b) } else { (p, a, b) },
                    EditType::Delete =>
                        if i.0 < o { (p, a, b) }
                        else if i.0 < o + n { (q, o, o) }
                        else { (p.update(q.len() as int, RowIndex((i.0 - n) as usize, i.1)), a, b) },
                }
            }
        }
        BasicEdit::Grid(_) => (p, a, b),
    }
}
/// no overflow; table edits only for ranges that are not inside the table's row
pub open spec fn range_ok(p: Seq<RowIndex>, a: int, b: int, e: BasicEdit) -> bool {
    match e {
        BasicEdit::Row(e) => {
            let q = e.position.row_indices.0@;
            &&& e.position.offset.0 + e.values@.len() <= usize::MAX
            &&& is_prefix(q, p) && e.edit_type == EditType::Insert ==> {
                &&& e.position.offset.0 + 2 * e.values@.len() <= usize::MAX
                &&& if q == p { a + e.position.offset.0 + 2 * e.values@.len() <= usize::MAX && b + e.position.offset.0 + 2 * e.values@.len() <= usize::MAX }
                else { p[q.len() as int].0 + e.position.offset.0 + 2 * e.values@.len() <= usize::MAX }
            }
        }
        BasicEdit::Grid(g) => g.values.wf() && !is_prefix(g.element_indices.row_indices.0@, p) && g.row_or_column.0 + g.values.width <= usize::MAX && g.row_or_column.0 + g.values.spec_height() <= usize::MAX,
    }
}

} // verus!
} // mod sp
%% equality and order that the derives give
%derived PartialEq Offset
self.0 == other.0
%derived Ord Offset
crate::vx::cmp_int(self.0 as int, other.0 as int)
%derived PartialEq RowIndex
self.0 == other.0 && self.1 == other.1
%derived Ord RowIndex
if self.0 != other.0 { crate::vx::cmp_int(self.0 as int, other.0 as int) } else { crate::vx::cmp_int(self.1 as int, other.1 as int) }
%derived PartialEq RowIndices
self.0@ == other.0@
%derived PartialEq ElementIndices
self.row_indices.0@ == other.row_indices.0@ && self.index == other.index
%derived PartialEq InputNode
self.sv() == other.sv()
%derived PartialEq InputRow
self.sv() == other.sv()
%derived PartialEq Direction
*self == *other
%derived PartialEq HorizontalDirection
*self == *other
%derived PartialEq VerticalDirection
*self == *other
%derived PartialEq EditType
*self == *other
%derived PartialEq GridDirection
*self == *other
%derived PartialEq InputNodeVariant
*self == *other
%derived PartialEq Index2D
*self == *other
%derived PartialEq GridRectangle
*self == *other
%end
