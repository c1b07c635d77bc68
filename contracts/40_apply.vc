%% input_tree.rs: applying edits (C01, C03), ranges from two places (C06)
%spec input_tree
/// one step: the row with the child row replaced, abstractly
pub proof fn lemma_put_sv(r: InputRow, f: InputRow, ix: crate::row::RowIndex)
    requires
        valid_step(r.sv(), ix),
        f.values@.len() == r.values@.len(), f.values@ =~= r.values@.update(ix.0 as int, f.values@[ix.0 as int]),
        r.values@[ix.0 as int] matches InputNode::Container(k, g) && (f.values@[ix.0 as int] matches InputNode::Container(k2, g2) && k2 == k && g2.width == g.width
            && g2.values@.len() == g.values@.len() && g2.values@ =~= g.values@.update(ix.1 as int, g2.values@[ix.1 as int])),
    ensures
        f.values@[ix.0 as int] matches InputNode::Container(k2, g2) && f.sv() == put_step(r.sv(), ix, g2.values@[ix.1 as int].sv()),
{
    crate::focus::lemma_row_sv(r, ix);
    if let InputNode::Container(k, g) = r.values@[ix.0 as int] {
        if let InputNode::Container(k2, g2) = f.values@[ix.0 as int] {
            assert(g2.sv_cells() =~= g.sv_cells().update(ix.1 as int, g2.values@[ix.1 as int].sv()));
            assert(r.sv().values[ix.0 as int] == r.values@[ix.0 as int].sv());
            assert(f.sv().values[ix.0 as int] == f.values@[ix.0 as int].sv());
            assert(f.sv().values =~= put_step(r.sv(), ix, g2.values@[ix.1 as int].sv()).values);
        }
    }
}
pub proof fn lemma_ok_step(r: SRow, ix: crate::row::RowIndex)
    requires ok_row(r), valid_step(r, ix),
    ensures ok_row(step(r, ix)),
{ assert(ok_node(r.values[ix.0 as int])); }
use crate::node::{sv_nodes, InputNode, InputNodeVariant};

/// the cells written row by row are the cells given cell by cell
pub proof fn lemma_ins_rows<T>(cells: Seq<T>, w: int, h: int, at: int, v: Seq<T>, vh: int)
    requires w > 0, h >= 0, vh >= 0, cells.len() == w * h, v.len() == w * vh, 0 <= at <= h,
    ensures ins_rows(cells, w, h, at, v, vh) == cells.take(w * at) + v + cells.skip(w * at), 0 <= w * at <= cells.len(), cells.len() + v.len() == w * (h + vh),
{
    let a = ins_rows(cells, w, h, at, v, vh); 
    assert(0 <= w * at <= w * h) by (nonlinear_arith) requires w > 0, 0 <= at <= h;
    let b = cells.take(w * at) + v + cells.skip(w * at);
    assert((h + vh) * w == w * h + w * vh && w * (h + vh) == w * h + w * vh) by (nonlinear_arith);
    assert(b.len() == a.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        let x = i % w; let y = i / w;
        crate::grid::index2d::lemma_roundtrip_index(i, w);
        if y < at { assert(y * w + x < w * at) by (nonlinear_arith) requires y < at, x < w, w > 0; }
        else if y < at + vh {
            assert((y - at) * w + x == i - w * at) by (nonlinear_arith) requires i == y * w + x;
            assert(w * at <= i < w * at + w * vh) by (nonlinear_arith) requires i == y * w + x, at <= y < at + vh, 0 <= x < w;
        } else {
            assert((y - vh) * w + x == i - w * vh) by (nonlinear_arith) requires i == y * w + x;
            assert(w * at + w * vh <= i) by (nonlinear_arith) requires i == y * w + x, at + vh <= y, 0 <= x, w > 0;
        }
    }
    assert(a =~= b);
}
pub proof fn lemma_del_rows<T>(cells: Seq<T>, w: int, h: int, at: int, vh: int)
    requires w > 0, h >= 0, vh >= 0, cells.len() == w * h, 0 <= at, at + vh <= h,
    ensures del_rows(cells, w, h, at, vh) == cells.take(w * at) + cells.skip(w * at).skip(w * vh), 0 <= w * at <= cells.len(), 0 <= w * vh <= cells.len() - w * at,
        cells.len() - w * vh == w * (h - vh),
{
    let a = del_rows(cells, w, h, at, vh);
    assert(0 <= w * at && 0 <= w * vh && w * at + w * vh <= w * h) by (nonlinear_arith) requires w > 0, 0 <= at, 0 <= vh, at + vh <= h;
    let b = cells.take(w * at) + cells.skip(w * at).skip(w * vh);
    assert((h - vh) * w == w * h - w * vh && w * (h - vh) == w * h - w * vh) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        let x = i % w; let y = i / w;
        crate::grid::index2d::lemma_roundtrip_index(i, w);
        if y < at { assert(y * w + x < w * at) by (nonlinear_arith) requires y < at, x < w, w > 0; }
        else {
            assert((y + vh) * w + x == i + w * vh) by (nonlinear_arith) requires i == y * w + x;
            assert(w * at <= i) by (nonlinear_arith) requires i == y * w + x, at <= y, 0 <= x, w > 0;
        }
    }
    assert(a =~= b);
}
/// one more row of the table with the new columns
pub proof fn lemma_ins_cols<T>(cells: Seq<T>, w: int, h: int, at: int, v: Seq<T>, vw: int, k: int)
    requires w > 0, h >= 0, vw > 0, cells.len() == w * h, v.len() == vw * h, 0 <= at <= w, 0 <= k < h,
    ensures
        0 <= k * w && k * w + w <= cells.len(), (k + 1) * w == k * w + w,
        0 <= k * vw && k * vw + vw <= v.len(), (k + 1) * vw == k * vw + vw,
        0 <= k * (w + vw), (k + 1) * (w + vw) == k * (w + vw) + w + vw, (k + 1) * (w + vw) <= h * (w + vw),
        ins_cols(cells, w, h, at, v, vw).take((k + 1) * (w + vw)) == ins_cols(cells, w, h, at, v, vw).take(k * (w + vw))
            + cells.skip(k * w).take(at) + v.skip(k * vw).take(vw) + cells.skip(k * w).skip(at).take(w - at),
        cells.skip(k * w).skip(at).skip(w - at) == cells.skip((k + 1) * w),
        v.skip(k * vw).skip(vw) == v.skip((k + 1) * vw),
{
    let n = w + vw;
    let a = ins_cols(cells, w, h, at, v, vw);
    assert(0 <= k * w && k * w + w <= w * h && (k + 1) * w == k * w + w) by (nonlinear_arith) requires 0 <= k < h, w > 0;
    assert(0 <= k * vw && k * vw + vw <= vw * h && (k + 1) * vw == k * vw + vw) by (nonlinear_arith) requires 0 <= k < h, vw > 0;
    assert(0 <= k * n && k * n + n <= h * n && (k + 1) * n == k * n + n) by (nonlinear_arith) requires 0 <= k < h, n > 0;
    let b = a.take(k * n) + cells.skip(k * w).take(at) + v.skip(k * vw).take(vw) + cells.skip(k * w).skip(at).take(w - at);
    assert forall|i: int| 0 <= i < (k + 1) * n implies a.take((k + 1) * n)[i] == b[i] by {
        if i >= k * n {
            let x = i - k * n;
            crate::grid::index2d::lemma_index_roundtrip(x, k, n);
        }
    }
    assert(a.take((k + 1) * n) =~= b);
    assert(cells.skip(k * w).skip(at).skip(w - at) =~= cells.skip((k + 1) * w));
    assert(v.skip(k * vw).skip(vw) =~= v.skip((k + 1) * vw));
}
pub proof fn lemma_del_cols<T>(cells: Seq<T>, w: int, h: int, at: int, vw: int, k: int)
    requires w > 0, h >= 0, 0 < vw < w, cells.len() == w * h, 0 <= at, at + vw <= w, 0 <= k < h,
    ensures
        0 <= k * w && k * w + w <= cells.len(), (k + 1) * w == k * w + w,
        0 <= k * (w - vw), (k + 1) * (w - vw) == k * (w - vw) + w - vw, (k + 1) * (w - vw) <= h * (w - vw),
        del_cols(cells, w, h, at, vw).take((k + 1) * (w - vw)) == del_cols(cells, w, h, at, vw).take(k * (w - vw))
            + cells.skip(k * w).take(at) + cells.skip(k * w).skip(at).skip(vw).take(w - at - vw),
        cells.skip(k * w).skip(at).skip(vw).skip(w - at - vw) == cells.skip((k + 1) * w),
{
    let n = w - vw;
    let a = del_cols(cells, w, h, at, vw);
    assert(0 <= k * w && k * w + w <= w * h && (k + 1) * w == k * w + w) by (nonlinear_arith) requires 0 <= k < h, w > 0;
    assert(0 <= k * n && k * n + n <= h * n && (k + 1) * n == k * n + n) by (nonlinear_arith) requires 0 <= k < h, n > 0;
    let b = a.take(k * n) + cells.skip(k * w).take(at) + cells.skip(k * w).skip(at).skip(vw).take(w - at - vw);
    assert forall|i: int| 0 <= i < (k + 1) * n implies a.take((k + 1) * n)[i] == b[i] by {
        if i >= k * n {
            let x = i - k * n;
            crate::grid::index2d::lemma_index_roundtrip(x, k, n);
        }
    }
    assert(a.take((k + 1) * n) =~= b);
    assert(cells.skip(k * w).skip(at).skip(vw).skip(w - at - vw) =~= cells.skip((k + 1) * w));
}

/// sharing commutes with the abstraction
pub proof fn lemma_map_ins_rows(cells: Seq<InputRow>, w: int, h: int, at: int, v: Seq<InputRow>, vh: int)
    requires w > 0, h >= 0, vh >= 0, cells.len() == w * h, v.len() == w * vh, 0 <= at <= h,
    ensures sv_row_cells(ins_rows(cells, w, h, at, v, vh)) == ins_rows(sv_row_cells(cells), w, h, at, sv_row_cells(v), vh),
{
    lemma_ins_rows(cells, w, h, at, v, vh);
    lemma_ins_rows(sv_row_cells(cells), w, h, at, sv_row_cells(v), vh);
    assert(sv_row_cells(ins_rows(cells, w, h, at, v, vh)) =~= ins_rows(sv_row_cells(cells), w, h, at, sv_row_cells(v), vh));
}
pub proof fn lemma_map_del_rows(cells: Seq<InputRow>, w: int, h: int, at: int, vh: int)
    requires w > 0, h >= 0, vh >= 0, cells.len() == w * h, 0 <= at, at + vh <= h,
    ensures sv_row_cells(del_rows(cells, w, h, at, vh)) == del_rows(sv_row_cells(cells), w, h, at, vh),
{
    lemma_del_rows(cells, w, h, at, vh);
    lemma_del_rows(sv_row_cells(cells), w, h, at, vh);
    assert(sv_row_cells(del_rows(cells, w, h, at, vh)) =~= del_rows(sv_row_cells(cells), w, h, at, vh));
}
pub proof fn lemma_map_ins_cols(cells: Seq<InputRow>, w: int, h: int, at: int, v: Seq<InputRow>, vw: int)
    requires w > 0, h >= 0, vw > 0, cells.len() == w * h, v.len() == vw * h, 0 <= at <= w,
    ensures sv_row_cells(ins_cols(cells, w, h, at, v, vw)) == ins_cols(sv_row_cells(cells), w, h, at, sv_row_cells(v), vw),
{
    let n = w + vw;
    let a = sv_row_cells(ins_cols(cells, w, h, at, v, vw)); let b = ins_cols(sv_row_cells(cells), w, h, at, sv_row_cells(v), vw);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        crate::grid::index2d::lemma_roundtrip_index(i, n);
        let x = i % n; let y = i / n;
        assert(0 <= y < h) by (nonlinear_arith) requires 0 <= i < h * n, n > 0, y * n + x == i, 0 <= x < n, 0 <= y;
        if x < at { crate::grid::index2d::lemma_index_bounds(x, y, w, h); }
        else if x < at + vw { crate::grid::index2d::lemma_index_bounds(x - at, y, vw, h); assert(vw * h == v.len()); }
        else { crate::grid::index2d::lemma_index_bounds(x - vw, y, w, h); }
    }
    assert(a =~= b);
}
pub proof fn lemma_map_del_cols(cells: Seq<InputRow>, w: int, h: int, at: int, vw: int)
    requires w > 0, h >= 0, 0 < vw < w, cells.len() == w * h, 0 <= at, at + vw <= w,
    ensures sv_row_cells(del_cols(cells, w, h, at, vw)) == del_cols(sv_row_cells(cells), w, h, at, vw),
{
    let n = w - vw;
    let a = sv_row_cells(del_cols(cells, w, h, at, vw)); let b = del_cols(sv_row_cells(cells), w, h, at, vw);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        crate::grid::index2d::lemma_roundtrip_index(i, n);
        let x = i % n; let y = i / n;
        assert(0 <= y < h) by (nonlinear_arith) requires 0 <= i < h * n, n > 0, y * n + x == i, 0 <= x < n, 0 <= y;
        if x < at { crate::grid::index2d::lemma_index_bounds(x, y, w, h); }
        else { crate::grid::index2d::lemma_index_bounds(x + vw, y, w, h); }
    }
    assert(a =~= b);
}
/// the cells of the table after a table edit, in memory
pub open spec fn grid_cells_after(g: GridVec<InputRow>, e: GridEdit) -> Seq<InputRow> {
    let h = g.spec_height(); let w = g.width as int; let at = e.row_or_column.0 as int;
    match (e.edit_type, e.direction) {
        (EditType::Insert, GridDirection::Row) => ins_rows(g.values@, w, h, at, e.values.values@, e.values.spec_height()),
        (EditType::Insert, GridDirection::Column) => ins_cols(g.values@, w, h, at, e.values.values@, e.values.width as int),
        (EditType::Delete, GridDirection::Row) => del_rows(g.values@, w, h, at, e.values.spec_height()),
        (EditType::Delete, GridDirection::Column) => del_cols(g.values@, w, h, at, e.values.width as int),
    }
}
pub open spec fn grid_width_after(g: GridVec<InputRow>, e: GridEdit) -> int {
    match (e.edit_type, e.direction) {
        (EditType::Insert, GridDirection::Column) => g.width + e.values.width,
        (EditType::Delete, GridDirection::Column) => g.width - e.values.width,
        _ => g.width as int,
    }
}
/// the edit fits that table (what edit_applies says about the container)
pub open spec fn grid_fits(g: GridVec<InputRow>, e: GridEdit) -> bool {
    let h = g.spec_height(); let w = g.width as int; let at = e.row_or_column.0 as int;
    g.wf() && e.values.wf() && match (e.edit_type, e.direction) {
        (EditType::Insert, GridDirection::Row) => e.values.width == w && at <= h && g.values@.len() + e.values.values@.len() <= usize::MAX,
        (EditType::Insert, GridDirection::Column) => e.values.spec_height() == h && at <= w && g.values@.len() + e.values.values@.len() <= usize::MAX && w + e.values.width <= usize::MAX,
        (EditType::Delete, GridDirection::Row) => e.values.width == w && at + e.values.spec_height() <= h,
        (EditType::Delete, GridDirection::Column) => e.values.spec_height() == h && at + e.values.width <= w && e.values.width < w,
    }
}
pub proof fn lemma_grid_fits(r: InputRow, e: GridEdit)
    requires ok_row(r.sv()), edit_applies(r.sv(), BasicEdit::Grid(e)), e.element_indices.row_indices.0@.len() == 0,
    ensures
        e.element_indices.index < r.values@.len(),
        r.values@[e.element_indices.index as int] matches InputNode::Container(k, g) && k == InputNodeVariant::Table && grid_fits(g, e),
{
    crate::focus::lemma_row_grid_wf(r, e.element_indices.index as int);
}
pub proof fn lemma_grid_sizes(g: GridVec<InputRow>, e: GridEdit)
    requires grid_fits(g, e),
    ensures
        g.width * g.spec_height() == g.values@.len(), e.values.width * e.values.spec_height() == e.values.values@.len(),
        g.spec_height() <= g.values@.len(), e.values.spec_height() <= e.values.values@.len(),
        e.edit_type == EditType::Insert && e.direction == GridDirection::Row ==> (g.spec_height() + e.values.spec_height()) * g.width == g.values@.len() + e.values.values@.len()
            && g.width * e.row_or_column.0 <= usize::MAX,
        e.edit_type == EditType::Insert && e.direction == GridDirection::Column ==> g.spec_height() * (g.width + e.values.width) == g.values@.len() + e.values.values@.len(),
        e.edit_type == EditType::Delete && e.direction == GridDirection::Row ==> 0 <= (g.spec_height() - e.values.spec_height()) * g.width <= g.values@.len()
            && g.width * e.row_or_column.0 <= g.values@.len() && e.values.width * e.values.spec_height() <= g.values@.len(),
        e.edit_type == EditType::Delete && e.direction == GridDirection::Column ==> 0 <= g.spec_height() * (g.width - e.values.width) <= g.values@.len(),
        g.values@.len() <= usize::MAX, e.values.values@.len() <= usize::MAX,
        grid_width_after(g, e) * (grid_cells_after(g, e).len() as int / grid_width_after(g, e)) == grid_cells_after(g, e).len(),
        grid_width_after(g, e) <= usize::MAX,
        g.spec_height() >= 0, e.values.spec_height() >= 0,
        ({ let n = grid_cells_after(g, e); let w = grid_width_after(g, e);
           0 < w && n.len() % (w as nat) == 0 && n.len() <= usize::MAX && n.len() as int / w == (match (e.edit_type, e.direction) {
               (EditType::Insert, GridDirection::Row) => g.spec_height() + e.values.spec_height(),
               (EditType::Delete, GridDirection::Row) => g.spec_height() - e.values.spec_height(),
               _ => g.spec_height() }) }),
{
    let w = g.width as int; let h = g.spec_height(); let w2 = e.values.width as int; let h2 = e.values.spec_height(); let at = e.row_or_column.0 as int;
    crate::grid::lemma_grid_size(g);
    crate::grid::lemma_grid_size(e.values);
    crate::vx::lemma_vec_len(&g.values);
    crate::vx::lemma_vec_len(&e.values.values);
    assert(h <= w * h) by (nonlinear_arith) requires w >= 1, h >= 0;
    assert(h2 <= w2 * h2) by (nonlinear_arith) requires w2 >= 1, h2 >= 0;
    let nw = grid_width_after(g, e);
    let nh = match (e.edit_type, e.direction) {
               (EditType::Insert, GridDirection::Row) => h + h2,
               (EditType::Delete, GridDirection::Row) => h - h2,
               _ => h };
    match (e.edit_type, e.direction) {
        (EditType::Insert, GridDirection::Row) => {
            assert((h + h2) * w == w * h + w2 * h2) by (nonlinear_arith) requires w == w2;
            assert(w * at <= w * h) by (nonlinear_arith) requires at <= h, w >= 1;
        }
        (EditType::Insert, GridDirection::Column) => { assert(h * (w + w2) == w * h + w2 * h2) by (nonlinear_arith) requires h == h2; }
        (EditType::Delete, GridDirection::Row) => {
            assert(0 <= (h - h2) * w <= w * h) by (nonlinear_arith) requires 0 <= h2 <= h, w >= 1;
            assert(w * at <= w * h) by (nonlinear_arith) requires at <= h, w >= 1;
            assert(w2 * h2 <= w * h) by (nonlinear_arith) requires w == w2, h2 <= h, w >= 1;
        }
        (EditType::Delete, GridDirection::Column) => { assert(0 <= h * (w - w2) <= w * h) by (nonlinear_arith) requires 0 <= w2 < w, h >= 0; }
    }
    assert(nh * nw == nw * nh && nh * nw == h * nw + (nh - h) * nw && h * nw == nw * h) by (nonlinear_arith);
    assert(grid_cells_after(g, e).len() == nh * nw);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(nh * nw, nw, nh, 0);
}
/// row by row, the cells are the pieces the edit puts together
pub proof fn lemma_grid_cells(g: GridVec<InputRow>, e: GridEdit)
    requires grid_fits(g, e),
    ensures
        ({ let w = g.width as int; let at = e.row_or_column.0 as int; let n = grid_cells_after(g, e);
           &&& 0 * g.width == 0 && 0 * e.values.width == 0
           &&& g.values@.skip(0) == g.values@ && e.values.values@.skip(0) == e.values.values@ && n.take(0) == Seq::<InputRow>::empty() && n.take(n.len() as int) == n
           &&& e.direction == GridDirection::Row ==> 0 <= w * at <= g.values@.len()
           &&& e.direction == GridDirection::Row && e.edit_type == EditType::Insert ==> n == g.values@.take(w * at) + e.values.values@ + g.values@.skip(w * at)
           &&& e.direction == GridDirection::Row && e.edit_type == EditType::Delete ==> {
               let k = e.values.width * e.values.spec_height();
               0 <= k <= g.values@.len() - w * at && n == g.values@.take(w * at) + g.values@.skip(w * at).skip(k)
           }
        }),
        forall|k: InputNodeVariant, m: GridVec<InputRow>| m.values@ =~= grid_cells_after(g, e) && m.width == grid_width_after(g, e) ==> #[trigger] InputNode::Container(k, m).sv() == grid_result(InputNode::Container(k, g).sv(), e),
{
    let w = g.width as int; let h = g.spec_height(); let at = e.row_or_column.0 as int; let n = grid_cells_after(g, e);
    lemma_grid_sizes(g, e);
    assert(g.values@.skip(0) =~= g.values@); assert(e.values.values@.skip(0) =~= e.values.values@); assert(n.take(0) =~= Seq::<InputRow>::empty()); assert(n.take(n.len() as int) =~= n);
    if e.direction == GridDirection::Row {
        if e.edit_type == EditType::Insert { lemma_ins_rows(g.values@, w, h, at, e.values.values@, e.values.spec_height()); }
        else { lemma_del_rows(g.values@, w, h, at, e.values.spec_height()); }
    }
    assert forall|k: InputNodeVariant, m: GridVec<InputRow>| m.values@ =~= grid_cells_after(g, e) && m.width == grid_width_after(g, e) implies #[trigger] InputNode::Container(k, m).sv() == grid_result(InputNode::Container(k, g).sv(), e) by {
        lemma_grid_result(g, e, m);
    }
}
/// a table edit on the table in memory is the table edit on the abstract one
pub proof fn lemma_grid_result(g: GridVec<InputRow>, e: GridEdit, n: GridVec<InputRow>)
    requires grid_fits(g, e), n.values@ == grid_cells_after(g, e), n.width == grid_width_after(g, e),
    ensures forall|k: InputNodeVariant| #![auto] InputNode::Container(k, n).sv() == grid_result(InputNode::Container(k, g).sv(), e),
{
    let w = g.width as int; let h = g.spec_height(); let w2 = e.values.width as int; let h2 = e.values.spec_height(); let at = e.row_or_column.0 as int;
    lemma_grid_sizes(g, e);
    assert(g.sv_cells() =~= sv_row_cells(g.values@));
    assert(n.sv_cells() =~= sv_row_cells(n.values@));
    assert(h * w == w * h) by (nonlinear_arith);
    match (e.edit_type, e.direction) {
        (EditType::Insert, GridDirection::Row) => { lemma_map_ins_rows(g.values@, w, h, at, e.values.values@, h2); }
        (EditType::Insert, GridDirection::Column) => { lemma_map_ins_cols(g.values@, w, h, at, e.values.values@, w2); }
        (EditType::Delete, GridDirection::Row) => { lemma_map_del_rows(g.values@, w, h, at, h2); }
        (EditType::Delete, GridDirection::Column) => { lemma_map_del_cols(g.values@, w, h, at, w2); }
    }
}
/// inserting / removing elements in memory is inserting / removing them in the abstract row
pub broadcast proof fn lemma_row_ins(r: InputRow, f: InputRow, o: int, v: Seq<InputNode>)
    requires 0 <= o <= r.values@.len(), f.values@ =~= r.values@.take(o) + v + r.values@.skip(o),
    ensures #[trigger] f.sv() == #[trigger] ins(r.sv(), o, sv_nodes(v)),
{ assert(f.sv().values =~= ins(r.sv(), o, sv_nodes(v)).values); }
pub broadcast proof fn lemma_row_del(r: InputRow, f: InputRow, o: int, n: int)
    requires 0 <= o, 0 <= n, o + n <= r.values@.len(), f.values@ =~= r.values@.take(o) + r.values@.skip(o + n),
    ensures #[trigger] f.sv() == #[trigger] del(r.sv(), o, n),
{ assert(f.sv().values =~= del(r.sv(), o, n).values); }
pub broadcast proof fn lemma_row_len_usize(r: InputRow)
    ensures #[trigger] r.sv().values.len() == r.values@.len(), r.values@.len() <= usize::MAX,
{ crate::vx::lemma_vec_len(&r.values); }
/// replacing an element in memory is replacing it in the abstract row
pub broadcast proof fn lemma_row_upd(r: InputRow, f: InputRow, b: BasicEdit)
    requires b matches BasicEdit::Grid(e) && {
        let i = e.element_indices.index as int;
        0 <= i < r.values@.len() && f.values@ =~= r.values@.update(i, f.values@[i]) && f.values@[i].sv() == grid_result(r.values@[i].sv(), e)
    },
    ensures #[trigger] f.sv() == #[trigger] edit_row(r.sv(), b),
{ assert(f.sv().values =~= edit_row(r.sv(), b).values); }

%fn <GridVec as IntoIterator>::into_iter(self) -> r
%ensures
    crate::vx::VxSeqIter::rem(&r) == self.values@,
%start
    broadcast use crate::vx::lemma_intoiter;

%fn InputTree::new(root) -> r
%ensures
    r.root == root,
%fn <InputTree as Default>::default() -> r
%ensures
    r.root.values@.len() == 0,
%fn InputTree::root_focus(self) -> r
%requires
    ok_row(self.root.sv()),
%ensures
    // the topmost row of this formula
    r.wf(), *r.row == self.root, r.root() == self.root, r.p() == Seq::<crate::row::RowIndex>::empty(),
%fn <InputTree as Editable>::apply_edit(self, edit)
%start
    broadcast use crate::focus::c08_address, lemma_row_ins, lemma_row_del, lemma_row_upd, lemma_row_len_usize;
    let ghost vx_f0 = final(self).root.sv();
    let ghost vx_r0 = self.root.sv();
    let ghost vx_p = edit_path(*edit);
    proof {
        assert(vx_p.skip(vx_p.len() as int) =~= Seq::empty()); assert(vx_p.skip(0) =~= vx_p); assert(vx_p.take(0) =~= Seq::empty()); assert(vx_p.take(vx_p.len() as int) =~= vx_p);
    }
%loop 0 it
    invariant
        0 <= it.index@ <= vx_p.len(),
        it.seq().len() == vx_p.len(), forall|i: int| 0 <= i < vx_p.len() ==> *(#[trigger] it.seq()[i]) == vx_p[i],
        vx_p == edit_path(*edit), vx_r0 == old(self).root.sv(),
        ok_row(row.sv()),
        valid_path(row.sv(), vx_p.skip(it.index@)),
        at_path(row.sv(), vx_p.skip(it.index@)) == at_path(vx_r0, vx_p),
        valid_path(vx_r0, vx_p.take(it.index@)),
        at_path(vx_r0, vx_p.take(it.index@)) == row.sv(),
        vx_f0 == put_path(vx_r0, vx_p.take(it.index@), final(row).sv()),
%lstart 0
    let ghost vx_k = it.index@;
    let ghost vx_row = *row;
    let ghost vx_fin = *final(row);
    proof {
        let rest = vx_p.skip(it.index@);
        assert(rest[0] == vx_p[it.index@]);
        assert(rest.skip(1) =~= vx_p.skip(it.index@ + 1));
        assert(vx_p.take(it.index@ + 1) =~= vx_p.take(it.index@).push(vx_p[it.index@]));
        crate::focus::lemma_row_sv(vx_row, rest[0]);
        lemma_ok_step(row.sv(), rest[0]);
        crate::focus::lemma_row_grid_wf(vx_row, rest[0].0 as int);
        lemma_push_path(vx_r0, vx_p.take(it.index@), vx_p[it.index@]);
    }
%lend 0
    proof { lemma_put_sv(vx_row, vx_fin, vx_p[vx_k]); }
%at let node = row
    let ghost vx_i = element_indices.index as int;
    let ghost vx_row = *row;
    let ghost vx_g = vx_row.values@[vx_i]->Container_1;
    proof {
        let e0 = *edit;
        assert(vx_p.skip(vx_p.len() as int) =~= Seq::empty());
        crate::focus::lemma_row_grid_wf(vx_row, vx_i);
        assert(grid_fits(vx_g, e0));
        lemma_grid_sizes(vx_g, e0);
        lemma_grid_cells(vx_g, e0);
        assert(vx_row.values@[vx_i] == InputNode::Container(InputNodeVariant::Table, vx_g));
    }
%loop 1 it
    invariant
        0 <= it.index@ <= values.spec_height(),
        edit.direction == GridDirection::Column, edit.edit_type == EditType::Insert, values == edit.values, row_or_column == edit.row_or_column,
        grid_fits(vx_g, *edit), old_size.0 == vx_g.width, old_size.1 == vx_g.spec_height(),
        vx_g.width * vx_g.spec_height() == vx_g.values@.len(), values.width * values.spec_height() == values.values@.len(),
        crate::vx::VxSeqIter::rem(&old_grid) =~= vx_g.values@.skip(it.index@ * vx_g.width),
        insert_grid@ =~= values.values@.skip(it.index@ * values.width),
        new_grid@ == grid_cells_after(vx_g, *edit).take(it.index@ * (vx_g.width + values.width)),
%lstart 1
    proof { lemma_ins_cols(vx_g.values@, vx_g.width as int, vx_g.spec_height(), row_or_column.0 as int, values.values@, values.width as int, it.index@); }
%loop 2 it
    invariant
        0 <= it.index@ <= values.spec_height(),
        edit.direction == GridDirection::Column, edit.edit_type == EditType::Delete, values == edit.values, row_or_column == edit.row_or_column,
        grid_fits(vx_g, *edit), old_size.0 == vx_g.width, old_size.1 == vx_g.spec_height(),
        vx_g.width * vx_g.spec_height() == vx_g.values@.len(), values.width * values.spec_height() == values.values@.len(),
        crate::vx::VxSeqIter::rem(&old_grid) =~= vx_g.values@.skip(it.index@ * vx_g.width),
        new_grid@ == grid_cells_after(vx_g, *edit).take(it.index@ * (vx_g.width - values.width)),
%lstart 2
    proof { lemma_del_cols(vx_g.values@, vx_g.width as int, vx_g.spec_height(), row_or_column.0 as int, values.width as int, it.index@); }

%% ---- C06
%spec input_tree
/// the range of row s that covers the places (p, o) and (q, u) of a formula and runs forwards exactly if (p, o) is not behind
pub open spec fn is_selection(s: Seq<crate::row::RowIndex>, a: int, b: int, p: Seq<crate::row::RowIndex>, o: int, q: Seq<crate::row::RowIndex>, u: int) -> bool {
    let n = s.len() as int;
    let lo = if crate::row::ext_lo(p, o, n) <= crate::row::ext_lo(q, u, n) { crate::row::ext_lo(p, o, n) } else { crate::row::ext_lo(q, u, n) };
    let hi = if crate::row::ext_hi(p, o, n) <= crate::row::ext_hi(q, u, n) { crate::row::ext_hi(q, u, n) } else { crate::row::ext_hi(p, o, n) };
    &&& s == crate::row::shared(p, q)
    &&& if crate::row::doc_cmp(p, o, q, u) != core::cmp::Ordering::Greater { a == lo && b == hi } else { a == hi && b == lo }
}
/// the row s has the place (p, o) in its part between lo and hi
pub open spec fn covers(s: Seq<crate::row::RowIndex>, lo: int, hi: int, p: Seq<crate::row::RowIndex>, o: int) -> bool {
    is_prefix(s, p) && lo <= crate::row::ext_lo(p, o, s.len() as int) && crate::row::ext_hi(p, o, s.len() as int) <= hi
}
/// C06: the selection covers both places, and every range that does lies in a row above it or is at least as large;
/// it runs forwards exactly if the first place is not behind the second; in one row it is exactly from the one to the other
pub proof fn c06_smallest(s: Seq<crate::row::RowIndex>, a: int, b: int, p: Seq<crate::row::RowIndex>, o: int, q: Seq<crate::row::RowIndex>, u: int)
    requires is_selection(s, a, b, p, o, q, u),
    ensures
        a <= b <==> crate::row::doc_cmp(p, o, q, u) != core::cmp::Ordering::Greater,
        ({ let lo = if a <= b { a } else { b }; let hi = if a <= b { b } else { a };
           &&& covers(s, lo, hi, p, o) && covers(s, lo, hi, q, u)
           &&& forall|t: Seq<crate::row::RowIndex>, x: int, y: int| #![auto] covers(t, x, y, p, o) && covers(t, x, y, q, u) ==> is_prefix(t, s) && (t == s ==> x <= lo && hi <= y) }),
        p == q ==> s == p && a == o && b == u,
{
    crate::row::lemma_shared(p, q);
    crate::row::lemma_doc_cmp_shared(p, o, q, u);
    if p == q {
        assert(p.take(p.len() as int) =~= p);
        crate::row::lemma_shared_unique(p, q, p);
        crate::row::c05_reading_order(p, o, u, crate::row::RowIndex(0, 0), crate::row::RowIndex(0, 0), p, p, o, u);
    }
}
/// an address below a row's, by the step into it
pub proof fn lemma_path_at(r: SRow, p: Seq<crate::row::RowIndex>, n: int)
    requires valid_path(r, p), 0 <= n < p.len(),
    ensures valid_path(r, p.take(n)), valid_step(at_path(r, p.take(n)), p[n]), p[n].0 < at_path(r, p.take(n)).values.len(),
{
    lemma_concat_path(r, p.take(n), p.skip(n));
    assert(p.take(n) + p.skip(n) =~= p);
    assert(p.skip(n)[0] == p[n]);
}
pub proof fn lemma_valid_prefix(r: SRow, p: Seq<crate::row::RowIndex>, s: Seq<crate::row::RowIndex>)
    requires valid_path(r, p), is_prefix(s, p),
    ensures valid_path(r, s), s.len() == p.len() ==> s == p,
{
    lemma_concat_path(r, s, p.skip(s.len() as int));
    assert(s + p.skip(s.len() as int) =~= p) by { assert(p.take(s.len() as int) =~= s); }
    if s.len() == p.len() { assert(p.take(p.len() as int) =~= p); }
}
%fn InputTree::range_from_positions(self, start, end) -> r
%requires
    ok_row(self.root.sv()), start.wf(), end.wf(), start.root() == self.root, end.root() == self.root,
%ensures
    r.wf(), r.root() == self.root,
    is_selection(r.p(), r.start.0 as int, r.end.0 as int, start.p(), start.o(), end.p(), end.o()),
%start
    broadcast use crate::focus::row_position::c08_valid, crate::focus::c08_address;
    proof {
        let r0 = self.root.sv();
        let s = crate::row::shared(start.p(), end.p());
        crate::focus::row_position::c08_valid(*start); crate::focus::row_position::c08_valid(*end);
        crate::row::lemma_shared(start.p(), end.p());
        crate::row::lemma_doc_cmp_shared(start.p(), start.o(), end.p(), end.o());
        lemma_valid_prefix(r0, start.p(), s); lemma_valid_prefix(r0, end.p(), s);
        if s.len() < start.p().len() { lemma_path_at(r0, start.p(), s.len() as int); }
        if s.len() < end.p().len() { lemma_path_at(r0, end.p(), s.len() as int); }
        assert(Seq::<crate::row::RowIndex>::empty() + s =~= s);
    }
%end
