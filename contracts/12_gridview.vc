%% grid/grid_view.rs: rectangles in a grid and views of them (C10)
%spec grid::grid_view
impl GridRectangle {
    pub open spec fn nonempty(&self) -> bool { self.start < self.end }
    /// columns and rows of the two corners
    pub open spec fn x0(&self) -> int { self.start as int % self.width as int }
    pub open spec fn y0(&self) -> int { self.start as int / self.width as int }
    pub open spec fn x1(&self) -> int { (self.end - 1) % self.width as int }
    pub open spec fn y1(&self) -> int { (self.end - 1) / self.width as int }
    /// the corners are the top left and the bottom right one
    pub open spec fn wf(&self) -> bool {
        self.nonempty() ==> self.width > 0 && self.x0() <= self.x1() && self.y0() <= self.y1()
    }
    pub open spec fn spec_size(&self) -> (int, int) {
        if self.nonempty() { (self.x1() - self.x0() + 1, self.y1() - self.y0() + 1) } else { (0, 0) }
    }
}
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a <= b { b } else { a } }

impl<'a, T> GridView<'a, T> {
    pub open spec fn wf(&self) -> bool {
        &&& self.grid.wf()
        &&& self.range.wf()
        &&& self.range.nonempty() ==> self.range.width == self.grid.width && self.range.end <= self.grid.values@.len()
    }
}
pub proof fn lemma_rect_bounds(start: int, end: int, w: int)
    requires 0 <= start < end, 0 < w,
    ensures
        0 <= start % w < w, 0 <= (end - 1) % w < w, 0 <= start / w, start / w <= (end - 1) / w,
        (start / w) * w + start % w == start, ((end - 1) / w) * w + (end - 1) % w == end - 1,
        (start / w) * w <= start, ((end - 1) / w) * w <= end - 1,
{
    crate::grid::index2d::lemma_roundtrip_index(start, w);
    crate::grid::index2d::lemma_roundtrip_index(end - 1, w);
    vstd::arithmetic::div_mod::lemma_div_is_ordered(start, end - 1, w);
}
pub proof fn lemma_view_size<'a, T>(v: GridView<'a, T>)
    requires v.wf(),
    ensures
        v.range.nonempty() ==> 1 <= v.range.spec_size().0 <= v.grid.width && 1 <= v.range.spec_size().1 <= v.grid.spec_height(),
        v.range.nonempty() ==> 0 <= v.range.x0() && v.range.x1() < v.grid.width && 0 <= v.range.y0() && v.range.y1() < v.grid.spec_height(),
        v.range.spec_size().0 * v.range.spec_size().1 <= v.grid.values@.len(),
{
    crate::grid::lemma_grid_size(*v.grid);
    if v.range.nonempty() {
        let w = v.grid.width as int;
        let len = v.grid.values@.len() as int;
        lemma_rect_bounds(v.range.start as int, v.range.end as int, w);
        assert(v.range.y1() < v.grid.spec_height()) by (nonlinear_arith)
            requires v.range.y1() * w + v.range.x1() == v.range.end - 1, 0 <= v.range.x1(), v.range.end <= len, w * v.grid.spec_height() == len, w > 0;
        assert(v.range.spec_size().0 * v.range.spec_size().1 <= w * v.grid.spec_height()) by (nonlinear_arith)
            requires 1 <= v.range.spec_size().0 <= w, 1 <= v.range.spec_size().1 <= v.grid.spec_height();
    }
}

%impl <GridView as Grid<T>>
    open spec fn grid_wf(&self) -> bool { self.wf() }
    open spec fn grid_size(&self) -> (int, int) { self.range.spec_size() }
    /// exactly the cells of the grid inside the rectangle, row by row
    open spec fn grid_cells(&self) -> Seq<T> {
        Seq::new((self.range.spec_size().0 * self.range.spec_size().1) as nat,
            |i: int| self.grid.cell(self.range.x0() + i % self.range.spec_size().0, self.range.y0() + i / self.range.spec_size().0))
    }
    proof fn lemma_grid(&self) {
        lemma_view_size(*self); self.grid.lemma_grid();
        if self.range.nonempty() { assert(self.range.spec_size().0 * self.range.spec_size().1 >= 0) by (nonlinear_arith) requires self.range.spec_size().0 >= 0, self.range.spec_size().1 >= 0; }
    }

%fn <GridView as Grid<T>>::size(self) -> r
%start
    proof { lemma_view_size(*self); }
%fn <GridView as Grid<T>>::get(self, xy) -> r
%split
%start
    proof { lemma_view_size(*self); }
    proof { if xy.inside(self.grid_size()) {
        let sz = self.grid_size();
        crate::grid::index2d::lemma_index_roundtrip(xy.x as int, xy.y as int, sz.0);
        crate::grid::index2d::lemma_index_bounds(xy.x as int, xy.y as int, sz.0, sz.1);
        assert(sz.0 * sz.1 == (sz.0 * sz.1) as nat);
    } }
%fn GridView::new(grid, range) -> r
%ensures
    r.grid == grid, r.range == range,
%fn GridView::is_empty(self) -> r
%ensures
    r == !self.range.nonempty(),

%fn GridRectangle::new(range, width) -> r
%requires
    range.start < range.end ==> width > 0 && ((range.end - 1) / width as int) * width + width <= usize::MAX,
%ensures
    r.wf(), r.width == width,
    r.nonempty() == (range.start < range.end),
    range.start < range.end ==> {
        &&& r.x0() == imin(range.start as int % width as int, (range.end - 1) % width as int)
        &&& r.x1() == imax(range.start as int % width as int, (range.end - 1) % width as int)
        &&& r.y0() == range.start as int / width as int
        &&& r.y1() == (range.end - 1) / width as int
        &&& r.end == r.y1() * width + r.x1() + 1
    },
%start
    proof { if range.start < range.end {
        let w = width as int;
        lemma_rect_bounds(range.start as int, range.end as int, w);
        let a = range.start as int / w;
        let b = (range.end - 1) / w;
        let xa = imin(range.start as int % w, (range.end - 1) % w);
        let xb = imax(range.start as int % w, (range.end - 1) % w);
        crate::grid::index2d::lemma_index_roundtrip(xa, a, w);
        crate::grid::index2d::lemma_index_roundtrip(xb, b, w);
        assert(a * w <= b * w) by (nonlinear_arith) requires a <= b, w > 0;
    } }
%fn GridRectangle::width(self) -> r
%requires
    self.wf(),
%ensures
    r == self.spec_size().0,
%fn GridRectangle::height(self) -> r
%requires
    self.wf(),
%ensures
    r == self.spec_size().1,
%fn GridRectangle::size(self) -> r
%requires
    self.wf(),
%ensures
    r.0 == self.spec_size().0, r.1 == self.spec_size().1,
%fn GridRectangle::is_empty(self) -> r
%ensures
    r == !self.nonempty(),
%fn GridRectangle::start_index(self) -> r
%requires
    self.width > 0,
%ensures
    r.x == self.x0(), r.y == self.y0(), r.width == self.width,
%start
    proof { lemma_rect_bounds(self.start as int, self.start + 1, self.width as int); }
%fn GridRectangle::end_index_inclusive(self) -> r
%requires
    self.nonempty() ==> self.width > 0,
%ensures
    r is Some <==> self.nonempty(),
    r matches Some(e) ==> e.x == self.x1() && e.y == self.y1() && e.width == self.width,
%start
    proof { if self.nonempty() { lemma_rect_bounds(self.start as int, self.end as int, self.width as int); } }
%fn GridRectangle::from_indices_inclusive(start_index, end_index, grid) -> r
%requires
    grid.grid_wf(),
    start_index.inside(grid.grid_size()), end_index.inside(grid.grid_size()),
%ensures
    r.wf(), r.nonempty(), r.width == grid.grid_size().0,
    // the corners are the two cells, whichever is named first
    r.x0() == imin(start_index.x as int, end_index.x as int),
    r.x1() == imax(start_index.x as int, end_index.x as int),
    r.y0() == imin(start_index.y as int, end_index.y as int),
    r.y1() == imax(start_index.y as int, end_index.y as int),
    r.end <= grid.grid_size().0 * grid.grid_size().1,
%start
    let ghost vx_a = start_index; let ghost vx_b = end_index;
    proof {
        let w = grid.grid_size().0; let h = grid.grid_size().1;
        crate::grid::index2d::lemma_index_roundtrip(vx_a.x as int, vx_a.y as int, w);
        crate::grid::index2d::lemma_index_roundtrip(vx_b.x as int, vx_b.y as int, w);
        crate::grid::index2d::lemma_index_bounds(vx_a.x as int, vx_a.y as int, w, h);
        crate::grid::index2d::lemma_index_bounds(vx_b.x as int, vx_b.y as int, w, h);
        grid.lemma_grid();
        lemma_order_rows(vx_a.x as int, vx_a.y as int, vx_b.x as int, vx_b.y as int, w);
        lemma_order_rows(vx_b.x as int, vx_b.y as int, vx_a.x as int, vx_a.y as int, w);
        crate::grid::index2d::lemma_index_bounds(imax(vx_a.x as int, vx_b.x as int), imax(vx_a.y as int, vx_b.y as int), w, h);
        lemma_rect_bounds(vx_a.y * w + vx_a.x, vx_a.y * w + vx_a.x + 1, w);
        lemma_rect_bounds(vx_b.y * w + vx_b.x, vx_b.y * w + vx_b.x + 1, w);
        let m = imax(vx_a.y as int, vx_b.y as int);
        assert(m * w + w <= w * h) by (nonlinear_arith) requires m + 1 <= h, w > 0;
    }
%spec grid::grid_view
/// the linear order of cells is the order of their rows, then of their columns
pub proof fn lemma_order_rows(x: int, y: int, x2: int, y2: int, w: int)
    requires 0 <= x < w, 0 <= x2 < w, 0 <= y, 0 <= y2,
    ensures y < y2 ==> y * w + x < y2 * w + x2,
{
    if y < y2 {
        assert(y * w + w <= y2 * w) by (nonlinear_arith) requires y + 1 <= y2, w > 0;
    }
}
%end
