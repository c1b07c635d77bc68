%% grid.rs, grid/index2d.rs, grid/grid_view.rs

%trait Grid
    /// representation invariant of the grid
    spec fn grid_wf(&self) -> bool;
    spec fn grid_size(&self) -> (int, int);
    /// the cells, row by row
    spec fn grid_cells(&self) -> Seq<T>;
    /// the number of cells is width times height
    proof fn lemma_grid(&self)
        requires self.grid_wf(),
        ensures
            0 <= self.grid_size().0 <= usize::MAX, 0 <= self.grid_size().1 <= usize::MAX,
            0 <= self.grid_size().0 * self.grid_size().1 <= usize::MAX,
            self.grid_cells().len() == self.grid_size().0 * self.grid_size().1;

%fn Grid::width(self) -> r
%requires
    self.grid_wf(),
%ensures
    r == self.grid_size().0,
%fn Grid::height(self) -> r
%requires
    self.grid_wf(),
%ensures
    r == self.grid_size().1,
%fn Grid::size(self) -> r
%requires
    self.grid_wf(),
%ensures
    r.0 == self.grid_size().0, r.1 == self.grid_size().1,
%fn Grid::get(self, xy) -> r
%requires
    self.grid_wf(),
%ensures
    // a cell is present exactly if the index is inside the grid
    r is Some <==> (xy.width == self.grid_size().0 && xy.x < self.grid_size().0 && xy.y < self.grid_size().1),
    r matches Some(v) ==> 0 <= xy.y * self.grid_size().0 + xy.x < self.grid_cells().len() && *v == self.grid_cells()[xy.y * self.grid_size().0 + xy.x],

%impl <GridVec as Grid<T>>
    open spec fn grid_wf(&self) -> bool { self.wf() }
    open spec fn grid_size(&self) -> (int, int) { (self.width as int, self.spec_height()) }
    open spec fn grid_cells(&self) -> Seq<T> { self.values@ }
    proof fn lemma_grid(&self) {
        lemma_grid_size(*self);
        let w = self.width as int; let h = self.spec_height();
        assert(h <= w * h) by (nonlinear_arith) requires w >= 1, h >= 0;
        crate::vx::lemma_vec_len(&self.values);
    }

%fn <GridVec as Grid<T>>::get(self, xy) -> r
%split
%start
    proof { self.lemma_grid(); if xy.inside(self.grid_size()) { crate::grid::index2d::lemma_index_bounds(xy.x as int, xy.y as int, self.grid_size().0, self.grid_size().1); } }

%prelude
/// (before the impl it belongs to)
pub mod vx_try_from {
use vstd::prelude::*;
verus! {
impl<T> vstd::std_specs::convert::TryFromSpecImpl<crate::grid::GridVecData<T>> for crate::grid::GridVec<T> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: crate::grid::GridVecData<T>) -> Result<Self, Self::Error> { arbitrary() }
}
}
}
%fn <GridVec as TryFrom<GridVecData>>::try_from(data) -> r
%ensures
    // a grid exactly of this data, or refused
    data.width > 0 && data.values@.len() % (data.width as nat) == 0 ==> r is Ok,
    r matches Ok(g) ==> g.wf() && g.values@ == data.values@ && g.width == data.width,
%start
    proof { crate::grid::lemma_whole_rows(data.values@.len() as int, data.width as int); }

%spec grid
/// a number of cells is a number of whole rows exactly if nothing is left over
pub proof fn lemma_whole_rows(n: int, w: int)
    requires 0 <= n, 0 <= w,
    ensures w > 0 ==> 0 <= (n / w) * w <= n && 0 <= w * (n / w) <= n && ((n / w) * w == n <==> n % w == 0) && (w * (n / w) == n <==> n % w == 0),
{
    if w > 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, w);
        assert((n / w) * w == w * (n / w)) by (nonlinear_arith);
        assert(0 <= n / w) by (nonlinear_arith) requires 0 <= n, w > 0;
        assert(0 <= (n / w) * w) by (nonlinear_arith) requires 0 <= n / w, w > 0;
    }
}
impl<T> GridVec<T> {
    pub open spec fn wf(&self) -> bool {
        self.width > 0 && self.values@.len() % (self.width as nat) == 0
    }
    pub open spec fn spec_height(&self) -> int { self.values@.len() as int / self.width as int }
    /// the cell in column x and row y
    pub open spec fn cell(&self, x: int, y: int) -> T { self.values@[y * self.width + x] }
}
pub broadcast proof fn lemma_grid_size<T>(g: GridVec<T>)
    requires #[trigger] g.wf(),
    ensures g.width * g.spec_height() == g.values@.len(), g.spec_height() >= 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(g.values@.len() as int, g.width as int);
    assert(g.values@.len() as int / g.width as int >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(g.values@.len() as int, g.width as int); }
}

%fn GridVec::from_one_dimensional(values, width) -> r
%requires
    width > 0, values@.len() % (width as nat) == 0,
%ensures
    r.wf(), r.values@ == values@, r.width == width,
%start
    proof { lemma_whole_rows(values@.len() as int, width as int); }
%% the same text once more: whatever it is given, a grid that gets built is one (C09)
%fn GridVec::vx_checked_from_one_dimensional(values, width) -> r
%checked
%ensures
    r.wf(), r.values@ == values@, r.width == width,
%start
    proof { lemma_whole_rows(values@.len() as int, width as int); }
%fn GridVec::get_mut(self, xy) -> r
%requires
    old(self).wf(),
%ensures
    r is Some <==> (xy.width == old(self).width && xy.x < old(self).width && xy.y < old(self).spec_height()),
    r is None ==> *final(self) == *old(self),
    r matches Some(v) ==> {
        let i = xy.y * old(self).width + xy.x;
        &&& 0 <= i < old(self).values@.len()
        &&& *v == old(self).values@[i]
        &&& final(self).width == old(self).width
        &&& final(self).values@ == old(self).values@.update(i, *final(v))
    },
%start
    proof { self.lemma_grid(); if xy.inside(self.grid_size()) { crate::grid::index2d::lemma_index_bounds(xy.x as int, xy.y as int, self.grid_size().0, self.grid_size().1); } }
%fn GridVec::set(self, xy, value) -> r
%requires
    old(self).wf(),
%ensures
    final(self).wf(),
    r is Some <==> (xy.width == old(self).width && xy.x < old(self).width && xy.y < old(self).spec_height()),
    r is None ==> *final(self) == *old(self),
    r matches Some(v) ==> {
        let i = xy.y * old(self).width + xy.x;
        &&& v == old(self).values@[i]
        &&& final(self).width == old(self).width
        &&& final(self).values@ == old(self).values@.update(i, value)
    },
%start
    proof { self.lemma_grid(); if xy.inside(self.grid_size()) { crate::grid::index2d::lemma_index_bounds(xy.x as int, xy.y as int, self.grid_size().0, self.grid_size().1); } }
%fn GridVec::values(self) -> r
%ensures
    r.remaining() == self.values@.map_values(|x: T| &x),
    r.obeys_prophetic_iter_laws(), r.decrease() is Some,
%fn GridVec::is_empty(self) -> r
%ensures
    r == (self.values@.len() == 0),
%fn GridVec::get_view(self, range) -> r
%ensures
    r.grid == self, r.range == range,
%end
%spec grid::index2d
pub proof fn lemma_index_bounds(x: int, y: int, w: int, h: int)
    requires 0 <= x < w, 0 <= y < h,
    ensures 0 <= y * w + x < w * h, 0 <= y * w, y * w + w <= w * h,
{
    assert(0 <= y * w && y * w + w <= w * h) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h;
}
pub proof fn lemma_index_roundtrip(x: int, y: int, w: int)
    requires 0 <= x < w, 0 <= y,
    ensures (y * w + x) % w == x, (y * w + x) / w == y,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + x, w, y, x);
}
pub proof fn lemma_roundtrip_index(i: int, w: int)
    requires 0 <= i, 0 < w,
    ensures (i / w) * w + (i % w) == i, 0 <= i % w < w, 0 <= i / w,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, w);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(i, w);
    vstd::arithmetic::div_mod::lemma_mod_bound(i, w);
    assert((i / w) * w == w * (i / w)) by (nonlinear_arith);
}
impl Index2D {
    /// the index is inside a grid of that size
    pub open spec fn inside(&self, size: (int, int)) -> bool {
        self.width == size.0 && self.x < size.0 && self.y < size.1
    }
}

%fn Index2D::new(x, y, width) -> r
%ensures
    r.x == x, r.y == y, r.width == width,
%fn Index2D::from_index(index, grid) -> r
%requires
    grid.grid_wf(), grid.grid_size().0 > 0,
%ensures
    r.width == grid.grid_size().0,
    r.x < r.width,
    r.x == index as int % grid.grid_size().0, r.y == index as int / grid.grid_size().0,
    r.y * r.width + r.x == index,
%start
    proof { lemma_roundtrip_index(index as int, grid.grid_size().0); }
%fn Index2D::to_index(self) -> r
%requires
    self.y * self.width + self.x <= usize::MAX,
%ensures
    r == self.y * self.width + self.x,
%fn Index2D::add_checked(self, other, grid) -> r
%requires
    grid.grid_wf(),
%ensures
    r is Some <==> self.width == grid.grid_size().0 && self.x + other.0 < grid.grid_size().0 && self.y + other.1 < grid.grid_size().1,
    r matches Some(v) ==> v.x == self.x + other.0 && v.y == self.y + other.1 && v.width == self.width,
%start
    proof { grid.lemma_grid(); }
%fn Index2D::sub_checked(self, other, grid) -> r
%requires
    grid.grid_wf(),
%ensures
    r is Some <==> self.width == grid.grid_size().0 && 0 <= self.x - other.0 < grid.grid_size().0 && 0 <= self.y - other.1 < grid.grid_size().1,
    r matches Some(v) ==> v.x == self.x - other.0 && v.y == self.y - other.1 && v.width == self.width,
%start
    proof { grid.lemma_grid(); }
%fn Index2D::with_grid(self, grid) -> r
%requires
    grid.grid_wf(),
%ensures
    r == (if self.inside(grid.grid_size()) { Some(self) } else { None }),
%fn Index2D::to_index_checked(self, grid) -> r
%requires
    grid.grid_wf(),
%ensures
    r is Some <==> self.inside(grid.grid_size()),
    r matches Some(i) ==> i == self.y * self.width + self.x && i < grid.grid_size().0 * grid.grid_size().1,
%start
    proof { grid.lemma_grid(); if self.inside(grid.grid_size()) { lemma_index_bounds(self.x as int, self.y as int, grid.grid_size().0, grid.grid_size().1); } }
%end
