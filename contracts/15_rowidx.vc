%% row.rs: rows, addresses and their order (C01, C05, C06, C08)
%spec row
impl crate::vx::VxCmp for [RowIndex] {
    open spec fn vx_cmp_spec(&self, o: &Self) -> core::cmp::Ordering { lex_cmp(self@, o@) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Self) -> (r: core::cmp::Ordering) { Ord::cmp(self, o) }
}
/// lexicographic order of slices
pub open spec fn lex_cmp(a: Seq<RowIndex>, b: Seq<RowIndex>) -> core::cmp::Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Less } }
    else if b.len() == 0 { core::cmp::Ordering::Greater }
    else {
        let c = cmp_ix(a[0], b[0]);
        if c == core::cmp::Ordering::Equal { lex_cmp(a.skip(1), b.skip(1)) } else { c }
    }
}
pub open spec fn cmp_ix(a: RowIndex, b: RowIndex) -> core::cmp::Ordering {
    if a.0 != b.0 { crate::vx::cmp_int(a.0 as int, b.0 as int) } else { crate::vx::cmp_int(a.1 as int, b.1 as int) }
}

%fn InputRow::new(values) -> r
%ensures
    r.values == values,
%fn InputRow::len(self) -> r
%ensures
    r == self.values@.len(), r == self.sv().values.len(),
%fn InputRow::is_empty(self) -> r
%ensures
    r == (self.values@.len() == 0),
%fn InputRow::offset_to_index(self, offset, direction) -> r
%ensures
    // the element directly left or right of the offset
    direction == HorizontalDirection::Left ==> r == (if offset.0 == 0 { None } else { Some((offset.0 - 1) as usize) }),
    direction == HorizontalDirection::Right ==> r == (if offset.0 >= self.values@.len() { None } else { Some(offset.0) }),
%fn RowIndices::new(values) -> r
%ensures
    r.0 == values,
%fn <RowIndices as Default>::default() -> r
%ensures
    r.0@.len() == 0, r.0@ == Seq::<RowIndex>::empty(),
%fn <InputRow as Default>::default() -> r
%ensures
    r.values@.len() == 0,
%fn RowIndices::push(self, value)
%ensures
    final(self).0@ == old(self).0@.push(value),
%fn RowIndices::pop(self) -> r
%ensures
    old(self).0@.len() == 0 ==> r is None && final(self).0@ == old(self).0@,
    old(self).0@.len() > 0 ==> r == Some(old(self).0@.last()) && final(self).0@ == old(self).0@.drop_last(),
%fn RowIndices::starts_with(self, other) -> r
%ensures
    r == is_prefix(other.0@, self.0@),
%start
    proof { lemma_prefix_elementwise(other.0@, self.0@); }
%spec row
pub proof fn lemma_prefix_elementwise(p: Seq<RowIndex>, q: Seq<RowIndex>)
    ensures
        is_prefix(p, q) == (p.len() <= q.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] q[i]).eq_spec(&p[i])),
        // the same through the front part of the longer one
        p.len() <= q.len() ==> forall|i: int| 0 <= i < p.len() ==> (#[trigger] q[i]) == q.subrange(0, p.len() as int)[i],
        p.subrange(0, p.len() as int) == p,
{
    assert(p.subrange(0, p.len() as int) =~= p);
    if p.len() <= q.len() {
        if forall|i: int| 0 <= i < p.len() ==> (#[trigger] q[i]).eq_spec(&p[i]) {
            assert(q.take(p.len() as int) =~= p) by { assert forall|i: int| 0 <= i < p.len() implies q[i] == p[i] by { assert(q[i].eq_spec(&p[i])); } }
        }
        if is_prefix(p, q) {
            assert forall|i: int| 0 <= i < p.len() implies (#[trigger] q[i]).eq_spec(&p[i]) by { assert(q.take(p.len() as int)[i] == p[i]); }
        }
    }
}
%fn RowIndices::at(self, index) -> r
%ensures
    r == (if index < self.0@.len() { Some(self.0@[index as int]) } else { None }),
%fn RowIndices::at_mut(self, index) -> r
%ensures
    index >= old(self).0@.len() ==> r is None && final(self).0@ == old(self).0@,
    index < old(self).0@.len() ==> (r matches Some(v) && *v == old(self).0@[index as int] && final(self).0@ == old(self).0@.update(index as int, *final(v))),
%fn RowIndices::get_slice(self, range) -> r
%requires
    range.start <= range.end <= self.0@.len(),
%ensures
    r@ == self.0@.subrange(range.start as int, range.end as int),
%fn RowIndices::len(self) -> r
%ensures
    r == self.0@.len(),
%fn RowIndices::is_empty(self) -> r
%ensures
    r == (self.0@.len() == 0),
%fn RowIndices::iter(self) -> r
%ensures
    r.remaining() == self.0@.map_values(|x: RowIndex| &x),
    r.obeys_prophetic_iter_laws(), r.decrease() is Some,

%% ---- C06: the longest common prefix
%spec row
/// the longest common prefix of two addresses
pub open spec fn shared(p: Seq<RowIndex>, q: Seq<RowIndex>) -> Seq<RowIndex> decreases p.len() {
    if p.len() == 0 || q.len() == 0 || p[0] != q[0] { Seq::empty() } else { seq![p[0]] + shared(p.skip(1), q.skip(1)) }
}
pub proof fn lemma_shared(p: Seq<RowIndex>, q: Seq<RowIndex>)
    ensures
        is_prefix(shared(p, q), p), is_prefix(shared(p, q), q),
        shared(p, q).len() < p.len() && shared(p, q).len() < q.len() ==> p[shared(p, q).len() as int] != q[shared(p, q).len() as int],
        forall|s: Seq<RowIndex>| #![auto] is_prefix(s, p) && is_prefix(s, q) ==> s.len() <= shared(p, q).len() && is_prefix(s, shared(p, q)),
    decreases p.len()
{
    let s0 = shared(p, q);
    if p.len() == 0 || q.len() == 0 || p[0] != q[0] {
        assert(p.take(0) =~= s0 && q.take(0) =~= s0);
        assert forall|s: Seq<RowIndex>| #![auto] is_prefix(s, p) && is_prefix(s, q) implies s.len() <= s0.len() && is_prefix(s, s0) by {
            if s.len() > 0 { assert(p.take(s.len() as int)[0] == p[0]); assert(q.take(s.len() as int)[0] == q[0]); }
            assert(s0.take(s.len() as int) =~= s);
        }
    } else {
        let p1 = p.skip(1); let q1 = q.skip(1); let s1 = shared(p1, q1);
        lemma_shared(p1, q1);
        assert(p.take(s0.len() as int) =~= s0) by { assert forall|i: int| 0 < i < s0.len() implies p[i] == s0[i] by { assert(p1.take(s1.len() as int)[i - 1] == p1[i - 1]); } }
        assert(q.take(s0.len() as int) =~= s0) by { assert forall|i: int| 0 < i < s0.len() implies q[i] == s0[i] by { assert(q1.take(s1.len() as int)[i - 1] == q1[i - 1]); } }
        assert forall|s: Seq<RowIndex>| #![auto] is_prefix(s, p) && is_prefix(s, q) implies s.len() <= s0.len() && is_prefix(s, s0) by {
            if s.len() > 0 {
                let t = s.skip(1);
                assert(p1.take(t.len() as int) =~= t) by { assert forall|i: int| 0 <= i < t.len() implies p1[i] == t[i] by { assert(p.take(s.len() as int)[i + 1] == p[i + 1]); } }
                assert(q1.take(t.len() as int) =~= t) by { assert forall|i: int| 0 <= i < t.len() implies q1[i] == t[i] by { assert(q.take(s.len() as int)[i + 1] == q[i + 1]); } }
                assert(is_prefix(t, p1) && is_prefix(t, q1));
                assert(is_prefix(t, s1));
                assert(s0.take(s.len() as int) =~= s) by { assert forall|i: int| 0 <= i < s.len() implies s0[i] == s[i] by {
                    if i > 0 { assert(s1.take(t.len() as int)[i - 1] == s1[i - 1]); } else { assert(p.take(s.len() as int)[0] == p[0]); } } }
            } else { assert(s0.take(0) =~= s); }
        }
    }
}
/// a common prefix that cannot be extended is the longest one
pub proof fn lemma_shared_unique(p: Seq<RowIndex>, q: Seq<RowIndex>, s: Seq<RowIndex>)
    requires is_prefix(s, p), is_prefix(s, q), s.len() == p.len() || s.len() == q.len() || p[s.len() as int] != q[s.len() as int],
    ensures s == shared(p, q),
{
    lemma_shared(p, q);
    let s0 = shared(p, q);
    assert(s0.take(s.len() as int) == s);
    if s.len() < s0.len() {
        assert(p.take(s0.len() as int)[s.len() as int] == p[s.len() as int]);
        assert(q.take(s0.len() as int)[s.len() as int] == q[s.len() as int]);
    }
    assert(s0.take(s0.len() as int) =~= s0);
}

%fn RowIndices::get_shared(self, other) -> r
%ensures
    r.0@ == shared(self.0@, other.0@),
%start
    proof {
        assert(self.0@.take(0) =~= Seq::empty()); assert(other.0@.take(0) =~= Seq::empty());
        assert forall|s: Seq<RowIndex>| #[trigger] is_prefix(s, self.0@) && is_prefix(s, other.0@) && (s.len() == self.0@.len() || s.len() == other.0@.len() || self.0@[s.len() as int] != other.0@[s.len() as int])
            implies s == shared(self.0@, other.0@) by { lemma_shared_unique(self.0@, other.0@, s); }
    }
%loop 0 it
    invariant_except_break
        0 <= it.index@ <= self.0@.len(), it.index@ <= other.0@.len(),
        vx_acc@.len() == it.index@, is_prefix(vx_acc@, self.0@), is_prefix(vx_acc@, other.0@),
        forall|s: Seq<RowIndex>| #[trigger] is_prefix(s, self.0@) && is_prefix(s, other.0@) && (s.len() == self.0@.len() || s.len() == other.0@.len() || self.0@[s.len() as int] != other.0@[s.len() as int])
            ==> s == shared(self.0@, other.0@),
    ensures
        vx_acc@ == shared(self.0@, other.0@),
%lstart 0
    proof { if self.0@[it.index@] == other.0@[it.index@] {
        assert(self.0@.take(it.index@ + 1) =~= vx_acc@.push(self.0@[it.index@]));
        assert(other.0@.take(it.index@ + 1) =~= vx_acc@.push(self.0@[it.index@]));
        assert(is_prefix(vx_acc@.push(self.0@[it.index@]), self.0@));
    } }

%% ---- C05: document order
%spec row
/// Reading order of the places (p, o) and (q, u): the smaller offset first; the contents of element i
/// between offsets i and i + 1; earlier elements and earlier child rows first.
pub open spec fn doc_cmp(p: Seq<RowIndex>, o: int, q: Seq<RowIndex>, u: int) -> core::cmp::Ordering decreases p.len() {
    if p.len() == 0 && q.len() == 0 { crate::vx::cmp_int(o, u) }
    else if p.len() == 0 { if o <= q[0].0 { core::cmp::Ordering::Less } else { core::cmp::Ordering::Greater } }
    else if q.len() == 0 { if u <= p[0].0 { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Less } }
    else if p[0].0 != q[0].0 { crate::vx::cmp_int(p[0].0 as int, q[0].0 as int) }
    else if p[0].1 != q[0].1 { crate::vx::cmp_int(p[0].1 as int, q[0].1 as int) }
    else { doc_cmp(p.skip(1), o, q.skip(1), u) }
}
pub open spec fn flip(c: core::cmp::Ordering) -> core::cmp::Ordering {
    match c { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less }
}
/// C05: a total order, equal exactly at the same place
pub proof fn c05_antisymmetric(p: Seq<RowIndex>, o: int, q: Seq<RowIndex>, u: int)
    ensures
        doc_cmp(q, u, p, o) == flip(doc_cmp(p, o, q, u)),
        doc_cmp(p, o, q, u) == core::cmp::Ordering::Equal <==> p == q && o == u,
    decreases p.len()
{
    if p.len() == 0 && q.len() == 0 { assert(p =~= q); }
    if p.len() > 0 && q.len() > 0 && p[0] == q[0] {
        c05_antisymmetric(p.skip(1), o, q.skip(1), u);
        assert(p =~= seq![p[0]] + p.skip(1)); assert(q =~= seq![q[0]] + q.skip(1));
    }
}
pub proof fn c05_transitive(p: Seq<RowIndex>, o: int, q: Seq<RowIndex>, u: int, r: Seq<RowIndex>, v: int)
    requires doc_cmp(p, o, q, u) != core::cmp::Ordering::Greater, doc_cmp(q, u, r, v) != core::cmp::Ordering::Greater,
    ensures
        doc_cmp(p, o, r, v) != core::cmp::Ordering::Greater,
        doc_cmp(p, o, q, u) == core::cmp::Ordering::Less || doc_cmp(q, u, r, v) == core::cmp::Ordering::Less ==> doc_cmp(p, o, r, v) == core::cmp::Ordering::Less,
    decreases p.len()
{
    if p.len() > 0 && q.len() > 0 && r.len() > 0 && p[0] == q[0] && q[0] == r[0] {
        c05_transitive(p.skip(1), o, q.skip(1), u, r.skip(1), v);
    }
}
/// what the order means: same row by offset; a container's content strictly between the offsets around it; child rows in order
pub proof fn c05_reading_order(p: Seq<RowIndex>, o: int, u: int, i: RowIndex, j: RowIndex, x: Seq<RowIndex>, y: Seq<RowIndex>, a: int, b: int)
    ensures
        doc_cmp(p, o, p, u) == crate::vx::cmp_int(o, u),
        o <= i.0 ==> doc_cmp(p, o, p + seq![i] + x, a) == core::cmp::Ordering::Less,
        o > i.0 ==> doc_cmp(p, o, p + seq![i] + x, a) == core::cmp::Ordering::Greater,
        i.0 < j.0 || (i.0 == j.0 && i.1 < j.1) ==> doc_cmp(p + seq![i] + x, a, p + seq![j] + y, b) == core::cmp::Ordering::Less,
    decreases p.len()
{
    let pi = p + seq![i] + x; let pj = p + seq![j] + y;
    if p.len() == 0 {
        assert(pi[0] == i); assert(pj[0] == j);
    } else {
        assert(pi.skip(1) =~= p.skip(1) + seq![i] + x);
        assert(pj.skip(1) =~= p.skip(1) + seq![j] + y);
        assert(pi[0] == p[0]); assert(pj[0] == p[0]);
        c05_reading_order(p.skip(1), o, u, i, j, x, y, a, b);
    }
}
/// the order the code computes: common part first, then doubled offsets against doubled indices plus one
pub proof fn lemma_doc_cmp_split(p: Seq<RowIndex>, o: int, q: Seq<RowIndex>, u: int)
    ensures ({
        let n = crate::row::minlen(p, q);
        let c = lex_cmp(p.take(n), q.take(n));
        doc_cmp(p, o, q, u) == if c != core::cmp::Ordering::Equal { c } else {
            crate::vx::cmp_int(if p.len() > n { p[n].0 * 2 + 1 } else { o * 2 }, if q.len() > n { q[n].0 * 2 + 1 } else { u * 2 })
        }
    }),
    decreases p.len()
{
    let n = minlen(p, q);
    if p.len() == 0 || q.len() == 0 {
        assert(p.take(n).len() == 0 && q.take(n).len() == 0);
    } else {
        assert(p.take(n)[0] == p[0] && q.take(n)[0] == q[0]);
        assert(p.take(n).skip(1) =~= p.skip(1).take(n - 1));
        assert(q.take(n).skip(1) =~= q.skip(1).take(n - 1));
        lemma_doc_cmp_split(p.skip(1), o, q.skip(1), u);
    }
}
pub open spec fn minlen(p: Seq<RowIndex>, q: Seq<RowIndex>) -> int { if p.len() <= q.len() { p.len() as int } else { q.len() as int } }
/// every index and offset is small enough for the doubling (true of all addresses of rows in memory)
pub open spec fn small(p: Seq<RowIndex>, o: int) -> bool {
    2 * o <= usize::MAX && forall|i: int| 0 <= i < p.len() ==> 2 * (#[trigger] p[i]).0 + 1 <= usize::MAX
}

%spec row
/// the part of a row that the place (p, o) takes up, seen from a row above it: the container it is in, or just the offset
pub open spec fn ext_lo(p: Seq<RowIndex>, o: int, n: int) -> int { if n < p.len() { p[n].0 as int } else { o } }
pub open spec fn ext_hi(p: Seq<RowIndex>, o: int, n: int) -> int { if n < p.len() { p[n].0 + 1 } else { o } }
/// below the shared row, the parts decide the order
pub proof fn lemma_doc_cmp_shared(p: Seq<RowIndex>, o: int, q: Seq<RowIndex>, u: int)
    ensures ({
        let n = shared(p, q).len() as int;
        if doc_cmp(p, o, q, u) != core::cmp::Ordering::Greater { ext_lo(p, o, n) <= ext_lo(q, u, n) && ext_hi(p, o, n) <= ext_hi(q, u, n) }
        else { ext_lo(p, o, n) >= ext_lo(q, u, n) && ext_hi(p, o, n) >= ext_hi(q, u, n) && ext_hi(p, o, n) > ext_lo(q, u, n) }
    }),
    decreases p.len()
{
    if p.len() > 0 && q.len() > 0 && p[0] == q[0] {
        lemma_doc_cmp_shared(p.skip(1), o, q.skip(1), u);
    }
}

%fn RowIndices::cmp_indices_and_offset(self_indices, self_offset, other_indices, other_offset) -> r
%requires
    small(self_indices.0@, self_offset.0 as int), small(other_indices.0@, other_offset.0 as int),
%ensures
    r == doc_cmp(self_indices.0@, self_offset.0 as int, other_indices.0@, other_offset.0 as int),
%start
    proof { lemma_doc_cmp_split(self_indices.0@, self_offset.0 as int, other_indices.0@, other_offset.0 as int); }
%end
%spec focus::row_position
impl vstd::std_specs::cmp::PartialEqSpecImpl for InputRowPosition<'_> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.p() == other.p() && self.o() == other.o() }
}
impl vstd::std_specs::cmp::OrdSpecImpl for InputRowPosition<'_> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> core::cmp::Ordering {
        pos_cmp(self, other)
    }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for InputRowPosition<'_> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<core::cmp::Ordering> { Some(pos_cmp(self, other)) }
}
impl crate::vx::VxCmp for InputRowPosition<'_> {
    open spec fn vx_cmp_spec(&self, o: &Self) -> core::cmp::Ordering { pos_cmp(self, o) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Self) -> (r: core::cmp::Ordering) { Ord::cmp(self, o) }
}
pub open spec fn pos_cmp<'a, 'b>(a: &InputRowPosition<'a>, b: &InputRowPosition<'b>) -> core::cmp::Ordering {
    if a.small() && b.small() { crate::row::doc_cmp(a.p(), a.o(), b.p(), b.o()) } else { overflowing_cmp(a.p(), a.o(), b.p(), b.o()) }
}
/// what comparing gives for indices too large for any formula in memory (never relied on)
pub uninterp spec fn overflowing_cmp(p: Seq<crate::row::RowIndex>, o: int, q: Seq<crate::row::RowIndex>, u: int) -> core::cmp::Ordering;
impl<'a> InputRowPosition<'a> {
    pub open spec fn p(&self) -> Seq<crate::row::RowIndex> { self.row_focus.row_indices.0@ }
    pub open spec fn o(&self) -> int { self.offset.0 as int }
    pub open spec fn small(&self) -> bool { crate::row::small(self.p(), self.o()) }
}
%fn <InputRowPosition as Ord>::cmp(self, other) -> r
%split
%requires
    self.small(), other.small(),
%ensures
    r == crate::row::doc_cmp(self.p(), self.o(), other.p(), other.o()),
    r == self.cmp_spec(other),
%end
