%% C02: an edit followed by its inverse gives the formula back (over the contracts of apply_edit and inverse)
%spec input_tree
use crate::row::RowIndex as RowIndex;
/// rows and tables in memory have at most usize::MAX elements
pub open spec fn in_memory(x: SRow) -> bool {
    4 * x.values.len() <= usize::MAX && forall|i: int| 0 <= i < x.values.len() ==> ((#[trigger] x.values[i]) matches SNode::Cont(_, cells, w) ==> cells.len() <= usize::MAX && w <= usize::MAX)
}
pub proof fn lemma_in_memory(r: InputRow, p: Seq<RowIndex>)
    requires valid_path(r.sv(), p),
    ensures in_memory(at_path(r.sv(), p)), 8 * at_path(r.sv(), p).values.len() < usize::MAX,
    decreases p.len()
{
    if p.len() == 0 {
        lemma_row_len_usize(r); crate::row::lemma_row_len(&r);
        assert forall|i: int| 0 <= i < r.values@.len() implies ((#[trigger] r.sv().values[i]) matches SNode::Cont(_, cells, w) ==> cells.len() <= usize::MAX && w <= usize::MAX) by {
            assert(r.sv().values[i] == r.values@[i].sv());
            if let InputNode::Container(k, g) = r.values@[i] { crate::vx::lemma_vec_len(&g.values); }
        }
    } else {
        crate::focus::lemma_row_sv(r, p[0]);
        if let InputNode::Container(k, g) = r.values@[p[0].0 as int] { lemma_in_memory(g.values@[p[0].1 as int], p.skip(1)); }
    }
}
/// what a deletion says it removes is what is there
pub open spec fn recorded(r: SRow, e: BasicEdit) -> bool {
    match e {
        BasicEdit::Row(e) => e.edit_type == EditType::Delete ==> {
            let o = e.position.offset.0 as int;
            sv_nodes(e.values@) == at_path(r, e.position.row_indices.0@).values.subrange(o, o + e.values@.len())
        },
        BasicEdit::Grid(e) => e.edit_type == EditType::Delete ==> (at_path(r, e.element_indices.row_indices.0@).values[e.element_indices.index as int] matches SNode::Cont(_, cells, w) && {
            let h = cells.len() as int / w; let at = e.row_or_column.0 as int; let v = sv_row_cells(e.values.values@);
            match e.direction {
                GridDirection::Row => forall|x: int, y: int| #![trigger cells[y * w + x]] 0 <= x < w && at <= y < at + e.values.spec_height() ==> v[(y - at) * w + x] == cells[y * w + x],
                GridDirection::Column => forall|x: int, y: int| #![trigger cells[y * w + x]] at <= x < at + e.values.width && 0 <= y < h ==> v[y * e.values.width + (x - at)] == cells[y * w + x],
            }
        }),
    }
}
pub proof fn lemma_ins_del_rows<T>(cells: Seq<T>, w: int, h: int, at: int, v: Seq<T>, vh: int)
    requires w > 0, h >= 0, vh >= 0, cells.len() == w * h, v.len() == w * vh, 0 <= at <= h,
    ensures del_rows(ins_rows(cells, w, h, at, v, vh), w, h + vh, at, vh) == cells,
{
    let a = ins_rows(cells, w, h, at, v, vh);
    let b = del_rows(a, w, h + vh, at, vh);
    assert((h + vh - vh) * w == w * h) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < b.len() implies b[i] == cells[i] by {
        let x = i % w; let y = i / w;
        crate::grid::index2d::lemma_roundtrip_index(i, w);
        assert(0 <= y < h) by (nonlinear_arith) requires 0 <= i < w * h, w > 0, y * w + x == i, 0 <= x < w, 0 <= y;
        let yy = if y < at { y } else { y + vh };
        crate::grid::index2d::lemma_index_bounds(x, yy, w, h + vh);
        assert(w * (h + vh) == (h + vh) * w) by (nonlinear_arith);
        crate::grid::index2d::lemma_index_roundtrip(x, yy, w);
        assert((y + vh - vh) * w + x == i);
    }
    assert(b =~= cells);
}
pub proof fn lemma_ins_del_cols<T>(cells: Seq<T>, w: int, h: int, at: int, v: Seq<T>, vw: int)
    requires w > 0, h >= 0, vw > 0, cells.len() == w * h, v.len() == vw * h, 0 <= at <= w,
    ensures del_cols(ins_cols(cells, w, h, at, v, vw), w + vw, h, at, vw) == cells,
{
    let n = w + vw;
    let a = ins_cols(cells, w, h, at, v, vw);
    let b = del_cols(a, n, h, at, vw);
    assert(h * (n - vw) == w * h) by (nonlinear_arith) requires n == w + vw;
    assert forall|i: int| 0 <= i < b.len() implies b[i] == cells[i] by {
        let x = i % w; let y = i / w;
        crate::grid::index2d::lemma_roundtrip_index(i, w);
        assert(0 <= y < h) by (nonlinear_arith) requires 0 <= i < w * h, w > 0, y * w + x == i, 0 <= x < w, 0 <= y;
        let xx = if x < at { x } else { x + vw };
        crate::grid::index2d::lemma_index_bounds(xx, y, n, h);
        assert(n * h == h * n) by (nonlinear_arith);
        crate::grid::index2d::lemma_index_roundtrip(xx, y, n);
    }
    assert(b =~= cells);
}
pub proof fn lemma_del_ins_rows<T>(cells: Seq<T>, w: int, h: int, at: int, v: Seq<T>, vh: int)
    requires w > 0, h >= 0, vh >= 0, cells.len() == w * h, v.len() == w * vh, 0 <= at, at + vh <= h,
        forall|x: int, y: int| #![trigger cells[y * w + x]] 0 <= x < w && at <= y < at + vh ==> v[(y - at) * w + x] == cells[y * w + x],
    ensures ins_rows(del_rows(cells, w, h, at, vh), w, h - vh, at, v, vh) == cells,
{
    let a = del_rows(cells, w, h, at, vh);
    let b = ins_rows(a, w, h - vh, at, v, vh);
    assert((h - vh + vh) * w == w * h) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < b.len() implies b[i] == cells[i] by {
        let x = i % w; let y = i / w;
        crate::grid::index2d::lemma_roundtrip_index(i, w);
        assert(0 <= y < h) by (nonlinear_arith) requires 0 <= i < w * h, w > 0, y * w + x == i, 0 <= x < w, 0 <= y;
        if at <= y < at + vh { assert(cells[y * w + x] == cells[i]); }
        else {
            let yy = if y < at { y } else { y - vh };
            crate::grid::index2d::lemma_index_bounds(x, yy, w, h - vh);
            assert(w * (h - vh) == (h - vh) * w) by (nonlinear_arith);
            crate::grid::index2d::lemma_index_roundtrip(x, yy, w);
            assert((y - vh + vh) * w + x == i);
        }
    }
    assert(b =~= cells);
}
pub proof fn lemma_del_ins_cols<T>(cells: Seq<T>, w: int, h: int, at: int, v: Seq<T>, vw: int)
    requires w > 0, h >= 0, 0 < vw < w, cells.len() == w * h, v.len() == vw * h, 0 <= at, at + vw <= w,
        forall|x: int, y: int| #![trigger cells[y * w + x]] at <= x < at + vw && 0 <= y < h ==> v[y * vw + (x - at)] == cells[y * w + x],
    ensures ins_cols(del_cols(cells, w, h, at, vw), w - vw, h, at, v, vw) == cells,
{
    let n = w - vw;
    let a = del_cols(cells, w, h, at, vw);
    let b = ins_cols(a, n, h, at, v, vw);
    assert(h * (n + vw) == w * h) by (nonlinear_arith) requires n == w - vw;
    assert forall|i: int| 0 <= i < b.len() implies b[i] == cells[i] by {
        let x = i % w; let y = i / w;
        crate::grid::index2d::lemma_roundtrip_index(i, w);
        assert(0 <= y < h) by (nonlinear_arith) requires 0 <= i < w * h, w > 0, y * w + x == i, 0 <= x < w, 0 <= y;
        assert(n + vw == w);
        if at <= x < at + vw { assert(cells[y * w + x] == cells[i]); }
        else {
            let xx = if x < at { x } else { x - vw };
            crate::grid::index2d::lemma_index_bounds(xx, y, n, h);
            assert(n * h == h * n) by (nonlinear_arith);
            crate::grid::index2d::lemma_index_roundtrip(xx, y, n);
        }
    }
    assert(b =~= cells);
}
/// the table after the edit (C03): still a rectangle, its size changed by the inserted or removed amount
pub proof fn lemma_grid_after(r: SRow, e: GridEdit)
    requires ok_row(r), edit_applies(r, BasicEdit::Grid(e)),
    ensures ({
        let n = at_path(r, e.element_indices.row_indices.0@).values[e.element_indices.index as int];
        let m = grid_result(n, e);
        n matches SNode::Cont(k, cells, w) && (m matches SNode::Cont(k2, cells2, w2) && k2 == k && w2 > 0 && {
            let h = cells.len() as int / w;
            let h2 = match (e.edit_type, e.direction) { (EditType::Insert, GridDirection::Row) => h + e.values.spec_height(), (EditType::Delete, GridDirection::Row) => h - e.values.spec_height(), _ => h };
            &&& w2 == (match (e.edit_type, e.direction) { (EditType::Insert, GridDirection::Column) => w + e.values.width, (EditType::Delete, GridDirection::Column) => w - e.values.width, _ => w })
            &&& cells2.len() == w2 * h2 && cells2.len() as int / w2 == h2 && h2 >= 0 && cells2.len() % (w2 as nat) == 0
            &&& cells.len() == w * h && h >= 0
            &&& e.values.values@.len() == e.values.width * e.values.spec_height() && e.values.spec_height() >= 0
            &&& e.edit_type == EditType::Insert ==> cells2.len() == cells.len() + e.values.values@.len()
            &&& e.edit_type == EditType::Delete ==> cells2.len() == cells.len() - e.values.values@.len()
        })
    }),
{
    let p = e.element_indices.row_indices.0@;
    let n = at_path(r, p).values[e.element_indices.index as int];
    crate::grid::lemma_grid_size(e.values);
    if let SNode::Cont(k, cells, w) = n {
        let h = cells.len() as int / w; let vw = e.values.width as int; let vh = e.values.spec_height();
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(cells.len() as int, w);
        vstd::arithmetic::div_mod::lemma_div_pos_is_pos(cells.len() as int, w);
        let w2 = match (e.edit_type, e.direction) { (EditType::Insert, GridDirection::Column) => w + vw, (EditType::Delete, GridDirection::Column) => w - vw, _ => w };
        let h2 = match (e.edit_type, e.direction) { (EditType::Insert, GridDirection::Row) => h + vh, (EditType::Delete, GridDirection::Row) => h - vh, _ => h };
        assert((h + vh) * w == w * (h + vh) && (h - vh) * w == w * (h - vh) && h * (w + vw) == (w + vw) * h && h * (w - vw) == (w - vw) * h) by (nonlinear_arith);
        assert(w * (h + vh) == w * h + w * vh && w * (h - vh) == w * h - w * vh && (w + vw) * h == w * h + vw * h && (w - vw) * h == w * h - vw * h) by (nonlinear_arith);
        assert(0 <= w2 * h2) by (nonlinear_arith) requires w2 > 0, h2 >= 0;
        assert(w2 * h2 == h2 * w2) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(w2 * h2, w2, h2, 0);
    }
}
/// C02: for every edit that applies (and records what it removes), its inverse applies afterwards and gives the formula back
pub proof fn c02_inverse(r: SRow, e: BasicEdit)
    requires ok_row(r), edit_applies(r, e), recorded(r, e), in_memory(at_path(r, edit_path(e))),
    ensures edit_applies(edit_result(r, e), e.inv()), edit_result(edit_result(r, e), e.inv()) == r, e.inv().inv() == e, recorded(edit_result(r, e), e.inv()),
{
    let p = edit_path(e);
    let x = at_path(r, p);
    let y = edit_row(x, e);
    let r2 = edit_result(r, e);
    lemma_put_get(r, p, y);
    lemma_put_same(r, p);
    lemma_ok_at(r, p);
    assert(edit_path(e.inv()) == p);
    assert(at_path(r2, p) == y);
    match e {
        BasicEdit::Row(b) => {
            let o = b.position.offset.0 as int; let n = b.values@.len() as int;
            let back = edit_row(y, e.inv());
            assert(back.values =~= x.values);
            assert(back == x);
            match b.edit_type {
                EditType::Insert => { assert(sv_nodes(b.values@) =~= y.values.subrange(o, o + n)); }
                EditType::Delete => { assert(y.values.len() + n == x.values.len()); }
            }
        }
        BasicEdit::Grid(b) => {
            lemma_grid_after(r, b);
            let i = b.element_indices.index as int; let at = b.row_or_column.0 as int;
            let v = sv_row_cells(b.values.values@); let vw = b.values.width as int; let vh = b.values.spec_height();
            if let SNode::Cont(k, cells, w) = x.values[i] {
                let h = cells.len() as int / w;
                assert(v.len() == vw * vh);
                let m = grid_result(x.values[i], b);
                let back = grid_result(m, b.inv());
                if let SNode::Cont(k2, cells2, w2) = m {
                    assert(w <= usize::MAX && cells.len() <= usize::MAX);
                    match (b.edit_type, b.direction) {
                        (EditType::Insert, GridDirection::Row) => {
                            lemma_ins_del_rows(cells, w, h, at, v, vh);
                            assert forall|x: int, y: int| #![trigger cells2[y * w + x]] 0 <= x < w && at <= y < at + vh implies v[(y - at) * w + x] == cells2[y * w + x] by {
                                crate::grid::index2d::lemma_index_bounds(x, y, w, h + vh);
                                crate::grid::index2d::lemma_index_roundtrip(x, y, w);
                                assert((h + vh) * w == w * (h + vh)) by (nonlinear_arith);
                            }
                        }
                        (EditType::Insert, GridDirection::Column) => {
                            lemma_ins_del_cols(cells, w, h, at, v, vw);
                            assert forall|x: int, y: int| #![trigger cells2[y * w2 + x]] at <= x < at + vw && 0 <= y < h implies v[y * vw + (x - at)] == cells2[y * w2 + x] by {
                                crate::grid::index2d::lemma_index_bounds(x, y, w2, h);
                                crate::grid::index2d::lemma_index_roundtrip(x, y, w2);
                                assert(h * w2 == w2 * h) by (nonlinear_arith);
                            }
                        }
                        (EditType::Delete, GridDirection::Row) => { lemma_del_ins_rows(cells, w, h, at, v, vh); }
                        (EditType::Delete, GridDirection::Column) => { lemma_del_ins_cols(cells, w, h, at, v, vw); }
                    }
                    assert(back == x.values[i]);
                }
                assert(y.values[i] == m);
                assert(edit_row(y, e.inv()).values =~= x.values);
                assert(edit_row(y, e.inv()) == x);
            }
        }
    }
}
/// edits keep formulas well-formed (C01, C03: tables stay rectangular)
pub proof fn c03_still_wellformed(r: SRow, e: BasicEdit)
    requires ok_row(r), edit_applies(r, e),
        e matches BasicEdit::Row(b) ==> b.edit_type == EditType::Insert ==> forall|i: int| 0 <= i < b.values@.len() ==> ok_node(#[trigger] sv_nodes(b.values@)[i]),
        e matches BasicEdit::Grid(b) ==> b.edit_type == EditType::Insert ==> forall|i: int| 0 <= i < b.values.values@.len() ==> ok_row(#[trigger] sv_row_cells(b.values.values@)[i]),
    ensures ok_row(edit_result(r, e)),
{
    let p = edit_path(e);
    let x = at_path(r, p);
    let y = edit_row(x, e);
    lemma_ok_at(r, p);
    match e {
        BasicEdit::Row(b) => {
            let o = b.position.offset.0 as int; let n = b.values@.len() as int;
            assert forall|i: int| 0 <= i < y.values.len() implies ok_node(#[trigger] y.values[i]) by {
                match b.edit_type {
                    EditType::Insert => { if i < o { assert(y.values[i] == x.values[i]); } else if i < o + n { assert(y.values[i] == sv_nodes(b.values@)[i - o]); } else { assert(y.values[i] == x.values[i - n]); } }
                    EditType::Delete => { if i < o { assert(y.values[i] == x.values[i]); } else { assert(y.values[i] == x.values[i + n]); } }
                }
            }
        }
        BasicEdit::Grid(b) => {
            lemma_grid_after(r, b);
            let i = b.element_indices.index as int; let at = b.row_or_column.0 as int;
            let v = sv_row_cells(b.values.values@); let vw = b.values.width as int; let vh = b.values.spec_height();
            assert(ok_node(x.values[i]));
            if let SNode::Cont(k, cells, w) = x.values[i] {
                let h = cells.len() as int / w;
                let m = grid_result(x.values[i], b);
                if let SNode::Cont(k2, cells2, w2) = m {
                    assert forall|j: int| 0 <= j < cells2.len() implies ok_row(#[trigger] cells2[j]) by {
                        let xx = j % w2; let yy = j / w2; let h2 = cells2.len() as int / w2;
                        crate::grid::index2d::lemma_roundtrip_index(j, w2);
                        assert(0 <= yy < h2) by (nonlinear_arith) requires 0 <= j < w2 * h2, w2 > 0, yy * w2 + xx == j, 0 <= xx < w2, 0 <= yy;
                        match (b.edit_type, b.direction) {
                            (EditType::Insert, GridDirection::Row) => {
                                if yy < at { crate::grid::index2d::lemma_index_bounds(xx, yy, w, h); } else if yy < at + vh { crate::grid::index2d::lemma_index_bounds(xx, yy - at, w, vh); } else { crate::grid::index2d::lemma_index_bounds(xx, yy - vh, w, h); }
                            }
                            (EditType::Insert, GridDirection::Column) => {
                                if xx < at { crate::grid::index2d::lemma_index_bounds(xx, yy, w, h); } else if xx < at + vw { crate::grid::index2d::lemma_index_bounds(xx - at, yy, vw, h); } else { crate::grid::index2d::lemma_index_bounds(xx - vw, yy, w, h); }
                            }
                            (EditType::Delete, GridDirection::Row) => { if yy < at { crate::grid::index2d::lemma_index_bounds(xx, yy, w, h); } else { crate::grid::index2d::lemma_index_bounds(xx, yy + vh, w, h); } }
                            (EditType::Delete, GridDirection::Column) => { if xx < at { crate::grid::index2d::lemma_index_bounds(xx, yy, w, h); } else { crate::grid::index2d::lemma_index_bounds(xx + vw, yy, w, h); } }
                        }
                    }
                }
                assert(ok_node(m));
                assert forall|j: int| 0 <= j < y.values.len() implies ok_node(#[trigger] y.values[j]) by { if j == i { assert(y.values[j] == m); } else { assert(y.values[j] == x.values[j]); } }
            }
        }
    }
    lemma_ok_put(r, p, y);
}
/// the inverses, last edit first
pub open spec fn inv_all(es: Seq<BasicEdit>) -> Seq<BasicEdit> { Seq::new(es.len(), |i: int| es[es.len() - 1 - i].inv()) }
/// every edit can be applied in turn, keeps the formula well-formed and in memory, and records what it removes
pub open spec fn recorded_all(r: SRow, es: Seq<BasicEdit>) -> bool decreases es.len() {
    es.len() == 0 || (recorded_all(r, es.drop_last()) && (st_all(EditState::Tree(r), es.drop_last()) matches EditState::Tree(x) && ok_row(x) && edit_applies(x, es.last()) && recorded(x, es.last()) && in_memory(at_path(x, edit_path(es.last()))) && ok_row(edit_result(x, es.last()))))
}
pub proof fn lemma_st_all_first(s: EditState, e: BasicEdit, es: Seq<BasicEdit>)
    ensures
        st_all(s, seq![e] + es) == st_all(st_next(s, e), es),
        st_all_ok(s, seq![e] + es) <==> st_ok(s, e) && st_all_ok(st_next(s, e), es),
    decreases es.len()
{
    let a = seq![e] + es;
    if es.len() == 0 {
        assert(a =~= seq![e]); assert(a.drop_last() =~= Seq::empty()); assert(a.last() == e);
        assert(st_all(s, a.drop_last()) == s);
        assert(st_all_ok(s, a.drop_last())); assert(st_all_ok(s, a) <==> st_ok(s, e));
    } else {
        assert(a.drop_last() =~= seq![e] + es.drop_last()); assert(a.last() == es.last());
        lemma_st_all_first(s, e, es.drop_last());
    }
}
/// C02: the same for whole lists of edits
pub proof fn c02_list(r: SRow, es: Seq<BasicEdit>)
    requires ok_row(r), recorded_all(r, es),
    ensures
        st_all_ok(EditState::Tree(r), es),
        st_all_ok(st_all(EditState::Tree(r), es), inv_all(es)),
        st_all(st_all(EditState::Tree(r), es), inv_all(es)) == EditState::Tree(r),
        inv_all(inv_all(es)) == es,
        st_all(EditState::Tree(r), es) matches EditState::Tree(x) && ok_row(x),
    decreases es.len()
{
    assert forall|i: int| 0 <= i < es.len() implies inv_all(inv_all(es))[i] == es[i] by { match es[i] { BasicEdit::Row(b) => {} BasicEdit::Grid(b) => {} } }
    assert(inv_all(inv_all(es)) =~= es);
    if es.len() > 0 {
        let d = es.drop_last(); let l = es.last();
        c02_list(r, d);
        if let EditState::Tree(x) = st_all(EditState::Tree(r), d) {
            c02_inverse(x, l);
            assert(inv_all(es) =~= seq![l.inv()] + inv_all(d));
            lemma_st_all_first(st_all(EditState::Tree(r), es), l.inv(), inv_all(d));
        }
    }
}
%end
