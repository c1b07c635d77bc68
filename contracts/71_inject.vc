%% C11: different formulas never print the same text (over the contracts of the Display impls)
%spec print_helpers
use crate::vx::{dec, digit};
pub open spec fn is_digit(c: char) -> bool { c == '0' || c == '1' || c == '2' || c == '3' || c == '4' || c == '5' || c == '6' || c == '7' || c == '8' || c == '9' }
/// equal texts have equal heads and tails
pub proof fn lemma_split(a: Seq<char>, t: Seq<char>, b: Seq<char>, u: Seq<char>)
    requires a + t == b + u, a.len() == b.len(),
    ensures a == b, t == u,
{
    let x = a + t; let y = b + u;
    assert(x == y);
    assert(x.len() == a.len() + t.len());
    assert(y.len() == b.len() + u.len());
    assert(t.len() == u.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(x[i] == a[i]); assert(y[i] == b[i]); }
    assert(a =~= b);
    assert forall|i: int| 0 <= i < t.len() implies t[i] == u[i] by { assert(x[a.len() + i] == t[i]); assert(y[a.len() + i] == u[i]); }
    assert(t =~= u);
}
pub proof fn lemma_dec_digits(n: nat)
    ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> is_digit(#[trigger] dec(n)[i]),
    decreases n
{ if n >= 10 { lemma_dec_digits(n / 10); } }
pub proof fn lemma_dec_injective(a: nat, b: nat)
    requires dec(a) == dec(b),
    ensures a == b,
    decreases a
{
    lemma_dec_digits(a / 10); lemma_dec_digits(b / 10);
    assert(dec(a).last() == dec(b).last());
    assert(dec(a).last() == digit((a % 10) as nat)); assert(dec(b).last() == digit((b % 10) as nat));
    assert(a % 10 == b % 10);
    if a >= 10 && b >= 10 {
        assert(dec(a).drop_last() =~= dec(a / 10)); assert(dec(b).drop_last() =~= dec(b / 10));
        lemma_dec_injective(a / 10, b / 10);
    } else if a >= 10 {
        assert(dec(a).len() > 1 && dec(b).len() == 1);
    } else if b >= 10 {
        assert(dec(b).len() > 1 && dec(a).len() == 1);
    }
}
/// a number ends where the digits end
pub proof fn lemma_dec_read(a: nat, t: Seq<char>, b: nat, u: Seq<char>)
    requires dec(a) + t == dec(b) + u, t.len() > 0, u.len() > 0, !is_digit(t[0]), !is_digit(u[0]),
    ensures a == b, t == u,
{
    lemma_dec_digits(a); lemma_dec_digits(b);
    let x = dec(a); let y = dec(b);
    if x.len() < y.len() { assert((x + t)[x.len() as int] == t[0]); assert((y + u)[x.len() as int] == y[x.len() as int]); }
    if y.len() < x.len() { assert((y + u)[y.len() as int] == u[0]); assert((x + t)[y.len() as int] == x[y.len() as int]); }
    lemma_split(x, t, y, u);
    lemma_dec_injective(a, b);
}
pub proof fn lemma_esc_left(s: Seq<char>)
    requires s.len() > 0,
    ensures esc(s) == esc_char(s[0]) + esc(s.skip(1)),
    decreases s.len()
{
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty());
        assert(esc(s.drop_last()) =~= Seq::empty()); assert(esc(s.skip(1)) =~= Seq::empty());
        assert(esc(s) =~= esc_char(s[0]) + esc(s.skip(1)));
    } else {
        lemma_esc_left(s.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(s.skip(1).last() == s.last()); assert(s.drop_last()[0] == s[0]);
        assert(esc(s) =~= esc_char(s[0]) + esc(s.skip(1)));
    }
}
/// a symbol's text ends at the first quote that is not escaped
pub proof fn lemma_esc_read(s: Seq<char>, t: Seq<char>, z: Seq<char>, u: Seq<char>)
    requires esc(s) + (seq!['"'] + t) == esc(z) + (seq!['"'] + u),
    ensures s == z, t == u,
    decreases s.len()
{
    let a = esc(s) + (seq!['"'] + t); let b = esc(z) + (seq!['"'] + u);
    if s.len() > 0 { lemma_esc_left(s); }
    if z.len() > 0 { lemma_esc_left(z); }
    if s.len() == 0 && z.len() == 0 {
        assert(s =~= z); assert(a =~= seq!['"'] + t); assert(b =~= seq!['"'] + u);
        lemma_split(seq!['"'], t, seq!['"'], u);
    } else if s.len() == 0 {
        assert(a[0] == '"'); assert(b[0] == esc_char(z[0])[0]);
    } else if z.len() == 0 {
        assert(b[0] == '"'); assert(a[0] == esc_char(s[0])[0]);
    } else {
        let a1 = esc(s.skip(1)) + (seq!['"'] + t); let b1 = esc(z.skip(1)) + (seq!['"'] + u);
        assert(a =~= esc_char(s[0]) + a1); assert(b =~= esc_char(z[0]) + b1);
        assert(a[0] == esc_char(s[0])[0]); assert(b[0] == esc_char(z[0])[0]);
        if s[0] != z[0] {
            // both are escaped, with different second characters
            assert(a[1] == esc_char(s[0])[1]); assert(b[1] == esc_char(z[0])[1]);
        }
        lemma_split(esc_char(s[0]), a1, esc_char(z[0]), b1);
        lemma_esc_read(s.skip(1), t, z.skip(1), u);
        assert(s =~= seq![s[0]] + s.skip(1)); assert(z =~= seq![z[0]] + z.skip(1));
    }
}
/// the rest of the elements, from the left
pub open spec fn pr_nodes_from(v: Seq<SNode>, i: int) -> Seq<char> decreases v.len() - i {
    if 0 <= i < v.len() { seq![' '] + pr_node(v[i]) + pr_nodes_from(v, i + 1) } else { Seq::empty() }
}
pub open spec fn pr_cells_from(v: Seq<SRow>, i: int) -> Seq<char> decreases v.len() - i {
    if 0 <= i < v.len() { seq![' '] + pr_row(v[i]) + pr_cells_from(v, i + 1) } else { Seq::empty() }
}
pub proof fn lemma_nodes_from(v: Seq<SNode>, i: int)
    requires 0 <= i <= v.len(),
    ensures pr_nodes_to(v, v.len() as int) == pr_nodes_to(v, i) + pr_nodes_from(v, i),
    decreases v.len() - i
{
    if i < v.len() {
        lemma_nodes_from(v, i + 1);
        assert(pr_nodes_to(v, i) + pr_nodes_from(v, i) =~= pr_nodes_to(v, i + 1) + pr_nodes_from(v, i + 1));
    } else { assert(pr_nodes_to(v, i) + pr_nodes_from(v, i) =~= pr_nodes_to(v, i)); }
}
pub proof fn lemma_cells_from(v: Seq<SRow>, i: int)
    requires 0 <= i <= v.len(),
    ensures pr_cells_to(v, v.len() as int) == pr_cells_to(v, i) + pr_cells_from(v, i),
    decreases v.len() - i
{
    if i < v.len() {
        lemma_cells_from(v, i + 1);
        assert(pr_cells_to(v, i) + pr_cells_from(v, i) =~= pr_cells_to(v, i + 1) + pr_cells_from(v, i + 1));
    } else { assert(pr_cells_to(v, i) + pr_cells_from(v, i) =~= pr_cells_to(v, i)); }
}
pub proof fn lemma_row_parts(a: SRow, t: Seq<char>)
    ensures pr_row(a) + t == seq!['(', 'r', 'o', 'w'] + (pr_nodes_from(a.values, 0) + (seq![')'] + t)),
{
    let v = a.values;
    lemma_nodes_from(v, 0);
    assert(pr_nodes_to(v, 0) =~= Seq::empty());
    let x = pr_nodes_from(v, 0); let z = pr_nodes_to(v, v.len() as int);
    assert(z =~= x);
    let h = seq!['(', 'r', 'o', 'w']; let q = seq![')'];
    assert(pr_row(a) == h + z + q);
    assert(((h + x) + q) + t =~= h + (x + (q + t)));
}
pub proof fn lemma_node_parts(n: SNode, t: Seq<char>)
    requires n is Cont,
    ensures n matches SNode::Cont(k, c, w) && pr_node(n) + t == seq!['('] + (kind_name(k) + (seq![' '] + (dec(w as nat) + (seq!['x'] + (dec((c.len() as int / w) as nat) + (pr_cells_from(c, 0) + (seq![')'] + t))))))),
{
    if let SNode::Cont(k, c, w) = n {
        lemma_cells_from(c, 0);
        assert(pr_cells_to(c, 0) =~= Seq::empty());
        let x = pr_cells_from(c, 0); let z = pr_cells(c);
        assert(z =~= x);
        let dw = dec(w as nat); let dh = dec((c.len() as int / w) as nat); let kn = kind_name(k);
        let sz = pr_size(w, c.len() as int);
        assert(sz == dw + seq!['x'] + dh);
        let p = seq!['(']; let q = seq![')']; let s = seq![' ']; let e = seq!['x'];
        assert(pr_node(n) == p + kn + s + sz + z + q);
        lemma_assoc(p, kn, s, dw, e, dh, x, q, t);
    }
}
pub proof fn lemma_assoc(p: Seq<char>, k: Seq<char>, s: Seq<char>, w: Seq<char>, e: Seq<char>, h: Seq<char>, x: Seq<char>, q: Seq<char>, t: Seq<char>)
    ensures (p + k + s + (w + e + h) + x + q) + t == p + (k + (s + (w + (e + (h + (x + (q + t))))))),
{
    let t1 = q + t; let t2 = x + t1; let t3 = h + t2; let t4 = e + t3; let t5 = w + t4; let t6 = s + t5;
    let a1 = p + k; let a2 = a1 + s; let a3 = a2 + (w + e + h); let a4 = a3 + x;
    assert((a4 + q) + t =~= a4 + t1);
    assert(a4 + t1 =~= a3 + t2);
    assert((w + e + h) + t2 =~= t5) by { assert((w + e + h) + t2 =~= (w + e) + t3); assert((w + e) + t3 =~= w + t4); }
    assert(a3 + t2 =~= a2 + ((w + e + h) + t2));
    assert(a2 + t5 =~= a1 + t6);
    assert(a1 + t6 =~= p + (k + t6));
}
/// the printed node starts with a quote or a parenthesis
pub proof fn lemma_node_head(n: SNode, t: Seq<char>)
    ensures (pr_node(n) + t).len() > 0, n is Sym ==> (pr_node(n) + t)[0] == '"', n is Cont ==> (pr_node(n) + t)[0] == '(',
{
    match n {
        SNode::Sym(s) => { lemma_sym_parts(s, t); }
        SNode::Cont(k, c, w) => { lemma_node_parts(n, t); }
    }
}
pub proof fn lemma_sym_parts(s: Seq<char>, t: Seq<char>)
    ensures pr_node(SNode::Sym(s)) + t == seq!['"'] + (esc(s) + (seq!['"'] + t)),
{
    let q = seq!['"']; let e = esc(s);
    assert(pr_node(SNode::Sym(s)) == q + e + q);
    assert((q + e + q) + t =~= q + (e + (q + t)));
}
pub proof fn lemma_cells_head(c: Seq<SRow>, i: int, t: Seq<char>)
    requires 0 <= i <= c.len(),
    ensures (pr_cells_from(c, i) + (seq![')'] + t)).len() > 0, (pr_cells_from(c, i) + (seq![')'] + t))[0] == (if i < c.len() { ' ' } else { ')' }),
{
    let r = seq![')'] + t;
    if i < c.len() {
        let z = pr_row(c[i]) + pr_cells_from(c, i + 1);
        assert(pr_cells_from(c, i) =~= seq![' '] + z);
        assert((seq![' '] + z + r)[0] == ' ');
    } else { assert(pr_cells_from(c, i) + r =~= r); }
}
pub proof fn lemma_row_read(a: SRow, t: Seq<char>, b: SRow, u: Seq<char>)
    requires ok_row(a), ok_row(b), pr_row(a) + t == pr_row(b) + u,
    ensures a == b, t == u,
    decreases a, 2nat, 0int
{
    hide(pr_row);
    lemma_row_parts(a, t); lemma_row_parts(b, u);
    let x = pr_nodes_from(a.values, 0) + (seq![')'] + t); let y = pr_nodes_from(b.values, 0) + (seq![')'] + u);
    lemma_split(seq!['(', 'r', 'o', 'w'], x, seq!['(', 'r', 'o', 'w'], y);
    lemma_nodes_read(a, 0, t, b, u);
    assert(a.values =~= b.values);
}
pub proof fn lemma_next_node(v: Seq<SNode>, i: int, t: Seq<char>)
    requires 0 <= i < v.len(),
    ensures pr_nodes_from(v, i) + (seq![')'] + t) == seq![' '] + (pr_node(v[i]) + (pr_nodes_from(v, i + 1) + (seq![')'] + t))),
{
    let s = seq![' ']; let n = pr_node(v[i]); let m = pr_nodes_from(v, i + 1); let r = seq![')'] + t;
    assert(pr_nodes_from(v, i) == s + n + m);
    assert((s + n + m) + r =~= s + (n + (m + r)));
}
pub proof fn lemma_next_cell(v: Seq<SRow>, i: int, t: Seq<char>)
    requires 0 <= i < v.len(),
    ensures pr_cells_from(v, i) + (seq![')'] + t) == seq![' '] + (pr_row(v[i]) + (pr_cells_from(v, i + 1) + (seq![')'] + t))),
{
    let s = seq![' ']; let n = pr_row(v[i]); let m = pr_cells_from(v, i + 1); let r = seq![')'] + t;
    assert(pr_cells_from(v, i) == s + n + m);
    assert((s + n + m) + r =~= s + (n + (m + r)));
}
pub proof fn lemma_nodes_read(a: SRow, i: int, t: Seq<char>, b: SRow, u: Seq<char>)
    requires ok_row(a), ok_row(b), 0 <= i <= a.values.len(), i <= b.values.len(), pr_nodes_from(a.values, i) + (seq![')'] + t) == pr_nodes_from(b.values, i) + (seq![')'] + u),
    ensures a.values.len() == b.values.len(), forall|j: int| i <= j < a.values.len() ==> #[trigger] a.values[j] == b.values[j], t == u,
    decreases a, 1nat, a.values.len() - i
{
    let x = pr_nodes_from(a.values, i) + (seq![')'] + t); let y = pr_nodes_from(b.values, i) + (seq![')'] + u);
    if i < a.values.len() && i < b.values.len() {
        let x1 = pr_nodes_from(a.values, i + 1) + (seq![')'] + t); let y1 = pr_nodes_from(b.values, i + 1) + (seq![')'] + u);
        lemma_next_node(a.values, i, t); lemma_next_node(b.values, i, u);
        lemma_split(seq![' '], pr_node(a.values[i]) + x1, seq![' '], pr_node(b.values[i]) + y1);
        lemma_node_read(a.values[i], x1, b.values[i], y1);
        lemma_nodes_read(a, i + 1, t, b, u);
    } else if i < a.values.len() {
        assert(x[0] == ' '); assert(y[0] == ')');
    } else if i < b.values.len() {
        assert(x[0] == ')'); assert(y[0] == ' ');
    } else {
        assert(x =~= seq![')'] + t); assert(y =~= seq![')'] + u);
        lemma_split(seq![')'], t, seq![')'], u);
    }
}
pub proof fn lemma_kind_read(a: InputNodeVariant, t: Seq<char>, b: InputNodeVariant, u: Seq<char>)
    requires kind_name(a) + t == kind_name(b) + u,
    ensures a == b, t == u,
{
    let x = kind_name(a) + t; let y = kind_name(b) + u;
    assert(x[0] == kind_name(a)[0] && y[0] == kind_name(b)[0]);
    assert(x[2] == kind_name(a)[2] && y[2] == kind_name(b)[2]);
    assert(a == b);
    lemma_split(kind_name(a), t, kind_name(b), u);
}
pub proof fn lemma_node_read(a: SNode, t: Seq<char>, b: SNode, u: Seq<char>)
    requires ok_node(a), ok_node(b), pr_node(a) + t == pr_node(b) + u,
    ensures a == b, t == u,
    decreases a, 2nat, 0int
{
    hide(pr_node); hide(esc); hide(dec); hide(pr_cells_from); hide(kind_name);
    lemma_node_head(a, t); lemma_node_head(b, u);
    match (a, b) {
        (SNode::Sym(s), SNode::Sym(z)) => {
            let q = seq!['"'];
            lemma_sym_parts(s, t); lemma_sym_parts(z, u);
            lemma_split(q, esc(s) + (q + t), q, esc(z) + (q + u));
            lemma_esc_read(s, t, z, u);
        }
        (SNode::Cont(k, c, w), SNode::Cont(k2, c2, w2)) => {
            lemma_node_parts(a, t); lemma_node_parts(b, u);
            let h = (c.len() as int / w) as nat; let h2 = (c2.len() as int / w2) as nat;
            let x4 = pr_cells_from(c, 0) + (seq![')'] + t); let y4 = pr_cells_from(c2, 0) + (seq![')'] + u);
            let x3 = seq!['x'] + (dec(h) + x4); let y3 = seq!['x'] + (dec(h2) + y4);
            let x2 = seq![' '] + (dec(w as nat) + x3); let y2 = seq![' '] + (dec(w2 as nat) + y3);
            lemma_split(seq!['('], kind_name(k) + x2, seq!['('], kind_name(k2) + y2);
            lemma_kind_read(k, x2, k2, y2);
            lemma_split(seq![' '], dec(w as nat) + x3, seq![' '], dec(w2 as nat) + y3);
            assert(x3[0] == 'x' && y3[0] == 'x');
            lemma_dec_read(w as nat, x3, w2 as nat, y3);
            lemma_split(seq!['x'], dec(h) + x4, seq!['x'], dec(h2) + y4);
            lemma_cells_head(c, 0, t); lemma_cells_head(c2, 0, u);
            lemma_dec_read(h, x4, h2, y4);
            lemma_cells_read(a, 0, t, b, u);
            assert(c =~= c2);
        }
        _ => { }
    }
}
pub open spec fn cells_of(n: SNode) -> Seq<SRow> { match n { SNode::Cont(_, c, _) => c, _ => Seq::empty() } }
pub proof fn lemma_cells_read(a: SNode, i: int, t: Seq<char>, b: SNode, u: Seq<char>)
    requires ok_node(a), ok_node(b), a is Cont, b is Cont, 0 <= i <= cells_of(a).len(), i <= cells_of(b).len(),
        pr_cells_from(cells_of(a), i) + (seq![')'] + t) == pr_cells_from(cells_of(b), i) + (seq![')'] + u),
    ensures cells_of(a).len() == cells_of(b).len(), forall|j: int| i <= j < cells_of(a).len() ==> #[trigger] cells_of(a)[j] == cells_of(b)[j], t == u,
    decreases a, 1nat, cells_of(a).len() - i
{
    let c = cells_of(a); let d = cells_of(b);
    let x = pr_cells_from(c, i) + (seq![')'] + t); let y = pr_cells_from(d, i) + (seq![')'] + u);
    if i < c.len() && i < d.len() {
        let x1 = pr_cells_from(c, i + 1) + (seq![')'] + t); let y1 = pr_cells_from(d, i + 1) + (seq![')'] + u);
        lemma_next_cell(c, i, t); lemma_next_cell(d, i, u);
        lemma_split(seq![' '], pr_row(c[i]) + x1, seq![' '], pr_row(d[i]) + y1);
        lemma_row_read(c[i], x1, d[i], y1);
        lemma_cells_read(a, i + 1, t, b, u);
    } else if i < c.len() {
        assert(x[0] == ' '); assert(y[0] == ')');
    } else if i < d.len() {
        assert(x[0] == ')'); assert(y[0] == ' ');
    } else {
        assert(x =~= seq![')'] + t); assert(y =~= seq![')'] + u);
        lemma_split(seq![')'], t, seq![')'], u);
    }
}
/// C11: formulas that print the same text are the same
pub proof fn c11_injective(a: SRow, b: SRow)
    requires ok_row(a), ok_row(b), pr_row(a) == pr_row(b),
    ensures a == b,
{
    let e = Seq::<char>::empty();
    assert(pr_row(a) + e =~= pr_row(a)); assert(pr_row(b) + e =~= pr_row(b));
    lemma_row_read(a, e, b, e);
}
%end
