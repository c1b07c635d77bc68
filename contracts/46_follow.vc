%% C01, C04: what an edit leaves alone, and where stored places go (over the contracts of apply_edit)
%spec input_tree
/// C01/C03: rows that are not the edited row, above it or below it are exactly as before
pub proof fn c01_frame(r: SRow, e: BasicEdit, q: Seq<RowIndex>)
    requires edit_applies(r, e), valid_path(r, q), !is_prefix(edit_path(e), q), !is_prefix(q, edit_path(e)),
    ensures valid_path(edit_result(r, e), q), at_path(edit_result(r, e), q) == at_path(r, q),
{ lemma_put_frame(r, edit_path(e), edit_row(at_path(r, edit_path(e)), e), q); }
/// C01: in the edited row the given elements appear at the offset, or the stated number disappears; the others keep their order
pub proof fn c01_row(r: SRow, b: RowEdit)
    requires edit_applies(r, BasicEdit::Row(b)),
    ensures ({
        let p = b.position.row_indices.0@; let o = b.position.offset.0 as int; let n = b.values@.len() as int;
        let x = at_path(r, p).values; let r2 = edit_result(r, BasicEdit::Row(b)); let y = at_path(r2, p).values;
        &&& valid_path(r2, p)
        &&& b.edit_type == EditType::Insert ==> y.len() == x.len() + n && (forall|i: int| 0 <= i < y.len() ==> #[trigger] y[i] == if i < o { x[i] } else if i < o + n { b.values@[i - o].sv() } else { x[i - n] })
        &&& b.edit_type == EditType::Delete ==> y.len() == x.len() - n && (forall|i: int| 0 <= i < y.len() ==> #[trigger] y[i] == if i < o { x[i] } else { x[i + n] })
    }),
{ lemma_put_get(r, b.position.row_indices.0@, edit_row(at_path(r, b.position.row_indices.0@), BasicEdit::Row(b))); }
/// C03: cell by cell
pub proof fn c03_cells(r: SRow, b: GridEdit)
    requires ok_row(r), edit_applies(r, BasicEdit::Grid(b)),
    ensures ({
        let p = b.element_indices.row_indices.0@; let i = b.element_indices.index as int; let at = b.row_or_column.0 as int;
        let vw = b.values.width as int; let vh = b.values.spec_height();
        let r2 = edit_result(r, BasicEdit::Grid(b)); let x = at_path(r, p).values; let y = at_path(r2, p).values;
        &&& valid_path(r2, p) && y.len() == x.len() && (forall|j: int| 0 <= j < x.len() && j != i ==> #[trigger] y[j] == x[j])
        &&& x[i] matches SNode::Cont(k, c, w) && (y[i] matches SNode::Cont(k2, c2, w2) && k2 == k && {
            let h = c.len() as int / w; let h2 = c2.len() as int / w2;
            match (b.edit_type, b.direction) {
                (EditType::Insert, GridDirection::Row) => w2 == w && h2 == h + vh
                    && forall|cx: int, cy: int| #![trigger c2[cy * w2 + cx]] 0 <= cx < w2 && 0 <= cy < h2 ==> c2[cy * w2 + cx] == if cy < at { c[cy * w + cx] } else if cy < at + vh { b.values.values@[(cy - at) * w + cx].sv() } else { c[(cy - vh) * w + cx] },
                (EditType::Insert, GridDirection::Column) => w2 == w + vw && h2 == h
                    && forall|cx: int, cy: int| #![trigger c2[cy * w2 + cx]] 0 <= cx < w2 && 0 <= cy < h2 ==> c2[cy * w2 + cx] == if cx < at { c[cy * w + cx] } else if cx < at + vw { b.values.values@[cy * vw + (cx - at)].sv() } else { c[cy * w + (cx - vw)] },
                (EditType::Delete, GridDirection::Row) => w2 == w && h2 == h - vh
                    && forall|cx: int, cy: int| #![trigger c2[cy * w2 + cx]] 0 <= cx < w2 && 0 <= cy < h2 ==> c2[cy * w2 + cx] == if cy < at { c[cy * w + cx] } else { c[(cy + vh) * w + cx] },
                (EditType::Delete, GridDirection::Column) => w2 == w - vw && h2 == h
                    && forall|cx: int, cy: int| #![trigger c2[cy * w2 + cx]] 0 <= cx < w2 && 0 <= cy < h2 ==> c2[cy * w2 + cx] == if cx < at { c[cy * w + cx] } else { c[cy * w + (cx + vw)] },
            }
        })
    }),
{
    let p = b.element_indices.row_indices.0@; let i = b.element_indices.index as int; let at = b.row_or_column.0 as int;
    let vw = b.values.width as int; let vh = b.values.spec_height();
    let x = at_path(r, p).values;
    lemma_put_get(r, p, edit_row(at_path(r, p), BasicEdit::Grid(b)));
    lemma_grid_after(r, b);
    if let SNode::Cont(k, c, w) = x[i] { if let SNode::Cont(k2, c2, w2) = grid_result(x[i], b) {
        let h2 = c2.len() as int / w2; let h = c.len() as int / w;
        let v = sv_row_cells(b.values.values@);
        assert forall|cx: int, cy: int| #![trigger c2[cy * w2 + cx]] 0 <= cx < w2 && 0 <= cy < h2 implies cy * w2 + cx < c2.len() && 0 <= cy * w2 + cx && (cy * w2 + cx) % w2 == cx && (cy * w2 + cx) / w2 == cy
            && (b.edit_type == EditType::Insert && b.direction == GridDirection::Row && at <= cy < at + vh ==> v[(cy - at) * w + cx] == b.values.values@[(cy - at) * w + cx].sv())
            && (b.edit_type == EditType::Insert && b.direction == GridDirection::Column && at <= cx < at + vw ==> v[cy * vw + (cx - at)] == b.values.values@[cy * vw + (cx - at)].sv()) by {
            crate::grid::index2d::lemma_index_bounds(cx, cy, w2, h2);
            crate::grid::index2d::lemma_index_roundtrip(cx, cy, w2);
            if b.edit_type == EditType::Insert && b.direction == GridDirection::Row && at <= cy < at + vh { crate::grid::index2d::lemma_index_bounds(cx, cy - at, w, vh); }
            if b.edit_type == EditType::Insert && b.direction == GridDirection::Column && at <= cx < at + vw { crate::grid::index2d::lemma_index_bounds(cx - at, cy, vw, h); }
        }
    } }
}
pub open spec fn valid_range(r: SRow, p: Seq<RowIndex>, a: int, b: int) -> bool { valid_pos(r, p, a) && valid_pos(r, p, b) }
/// the container on the way is removed by the edit
pub open spec fn inside_deleted(p: Seq<RowIndex>, b: RowEdit) -> bool {
    let q = b.position.row_indices.0@;
    b.edit_type == EditType::Delete && is_prefix(q, p) && q != p && b.position.offset.0 <= p[q.len() as int].0 < b.position.offset.0 + b.values@.len()
}
/// C04: stored places stay valid, follow the content, and ranges keep their direction
pub proof fn c04_follow(r: SRow, b: RowEdit, p: Seq<RowIndex>, x: int, y: int)
    requires ok_row(r), edit_applies(r, BasicEdit::Row(b)), range_ok(p, x, y, BasicEdit::Row(b)), valid_range(r, p, x, y), b.edit_type == EditType::Delete ==> true,
    ensures ({
        let e = BasicEdit::Row(b); let q = b.position.row_indices.0@; let o = b.position.offset.0 as int; let k = b.values@.len() as int;
        let r2 = edit_result(r, e); let n = range_next(p, x, y, e);
        // still valid
        &&& valid_range(r2, n.0, n.1, n.2)
        // in another row (not inside removed elements): the same place of the same row, moved along
        &&& q != p && !inside_deleted(p, b) ==> n.1 == x && n.2 == y && (!is_prefix(p, q) ==> at_path(r2, n.0) == at_path(r, p)) && at_path(r2, n.0).values.len() == at_path(r, p).values.len()
        // outside of everything edited: not moved at all
        &&& !is_prefix(q, p) ==> n == (p, x, y)
        // inside removed elements: the point of deletion
        &&& inside_deleted(p, b) ==> n == (q, o, o)
        // in the edited row: behind the same element
        &&& q == p ==> n.0 == p
            && (x < o ==> n.1 == x) && (y < o ==> n.2 == y)
            && (b.edit_type == EditType::Insert ==> (x > o ==> n.1 == x + k) && (y > o ==> n.2 == y + k) && (o <= n.1 <= o + k <==> x == o) && (o <= n.2 <= o + k <==> y == o))
            && (b.edit_type == EditType::Delete ==> (x >= o + k ==> n.1 == x - k) && (y >= o + k ==> n.2 == y - k) && (o <= x <= o + k ==> n.1 == o) && (o <= y <= o + k ==> n.2 == o))
        // direction and growth
        &&& (x <= y ==> n.1 <= n.2) && (x >= y && (x > y || b.edit_type == EditType::Delete || q != p || x != o) ==> n.1 >= n.2)
        &&& q == p && b.edit_type == EditType::Insert && (x == o || y == o) && (x <= o <= y || y <= o <= x) ==>
            (x <= y ==> n.1 == x && n.2 == y + k) && (x > y ==> n.2 == y && n.1 == x + k)
    }),
{
    let e = BasicEdit::Row(b); let q = b.position.row_indices.0@; let o = b.position.offset.0 as int; let k = b.values@.len() as int;
    let r2 = edit_result(r, e); let n = range_next(p, x, y, e);
    let row = at_path(r, q); let row2 = edit_row(row, e);
    lemma_put_get(r, q, row2);
    assert(q.take(q.len() as int) =~= q); assert(p.take(p.len() as int) =~= p);
    if q == p {
    } else if !is_prefix(q, p) {
        if is_prefix(p, q) {
            // the edit is below: this row keeps its length
            let t = q.skip(p.len() as int);
            assert(p + t =~= q);
            assert(t.len() > 0) by { if t.len() == 0 { assert(p =~= q); } }
            lemma_concat_path(r, p, t);
            let z = put_path(at_path(r, p), t, row2);
            assert(r2 == put_path(r, p, z));
            lemma_put_get(r, p, z);
            assert(z.values.len() == at_path(r, p).values.len());
        } else {
            lemma_put_frame(r, q, row2, p);
        }
    } else {
        let i = p[q.len() as int];
        let t = p.skip(q.len() as int);
        assert(q.len() < p.len()) by { if q.len() == p.len() { assert(p.take(q.len() as int) =~= p); } }
        assert(q + t =~= p);
        assert(t[0] == i);
        lemma_concat_path(r, q, t);
        assert(valid_step(row, i));
        let rest = t.skip(1);
        if !inside_deleted(p, b) {
            let j = if b.edit_type == EditType::Insert { if o <= i.0 { RowIndex((i.0 + k) as usize, i.1) } else { i } } else { if i.0 < o { i } else { RowIndex((i.0 - k) as usize, i.1) } };
            let t2 = t.update(0, j);
            assert(n.0 =~= q + t2);
            assert(t2.skip(1) =~= rest); assert(t2[0] == j);
            assert(row2.values[j.0 as int] == row.values[i.0 as int]);
            assert(valid_step(row2, j) && step(row2, j) == step(row, i));
            assert(valid_path(row2, t2) && at_path(row2, t2) == at_path(row, t));
            lemma_concat_path(r2, q, t2);
            if is_prefix(p, q) { assert(q.take(p.len() as int) =~= p); assert(false); }
        }
    }
}
/// C04: a stored place stays valid; exactly at an insertion it stays in front
pub proof fn c04_position(r: SRow, b: RowEdit, p: Seq<RowIndex>, x: int)
    requires ok_row(r), edit_applies(r, BasicEdit::Row(b)), range_ok(p, x, x, BasicEdit::Row(b)), valid_pos(r, p, x),
    ensures ({
        let n = range_next(p, x, x, BasicEdit::Row(b));
        valid_pos(edit_result(r, BasicEdit::Row(b)), n.0, n.1) && (b.position.row_indices.0@ == p && b.position.offset.0 == x ==> n.1 == x)
    }),
{ c04_follow(r, b, p, x, x); }
/// C04: a table edit elsewhere leaves stored places alone
pub proof fn c04_table(r: SRow, g: GridEdit, p: Seq<RowIndex>, x: int, y: int)
    requires ok_row(r), edit_applies(r, BasicEdit::Grid(g)), range_ok(p, x, y, BasicEdit::Grid(g)), valid_range(r, p, x, y),
    ensures range_next(p, x, y, BasicEdit::Grid(g)) == (p, x, y), valid_range(edit_result(r, BasicEdit::Grid(g)), p, x, y),
{
    let q = g.element_indices.row_indices.0@;
    let row2 = edit_row(at_path(r, q), BasicEdit::Grid(g));
    let r2 = edit_result(r, BasicEdit::Grid(g));
    if is_prefix(p, q) {
        let t = q.skip(p.len() as int);
        assert(p.take(p.len() as int) =~= p);
        assert(p + t =~= q) by { assert(q.take(p.len() as int) =~= p); }
        assert(t.len() > 0) by { if t.len() == 0 { assert(p =~= q); } }
        lemma_concat_path(r, p, t);
        let z = put_path(at_path(r, p), t, row2);
        lemma_put_get(r, p, z);
    } else {
        lemma_put_frame(r, q, row2, p);
    }
}
%end
