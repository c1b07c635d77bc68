%% parser/src/autocomplete.rs: matching backwards from the caret (C17)
%spec parser::autocomplete
use crate::vx::*;
/// what the last k elements before the caret spell, if they are symbols
pub open spec fn spelled(s: Seq<InputNode>, caret: int, k: int) -> Option<Seq<char>> decreases k {
    if k <= 0 { Some(Seq::empty()) }
    else if k > caret || caret > s.len() { None }
    else { match (s[caret - k], spelled(s, caret, k - 1)) { (InputNode::Symbol(t), Some(w)) => Some(t@ + w), _ => None } }
}
/// k symbols before the caret spell a beginning of the rule's text
pub open spec fn matched(rule: AutocompleteRule, s: Seq<InputNode>, caret: int, k: int) -> bool {
    1 <= k <= caret && (spelled(s, caret, k) matches Some(w) && w.is_prefix_of(rule.parser@))
}
pub open spec fn is_match(rule: AutocompleteRule, s: Seq<InputNode>, caret: int, min: int, m: AutocompleteRuleMatch<'_>) -> bool {
    &&& *m.rule == rule && m.input_match_length >= min
    &&& matched(rule, s, caret, m.input_match_length as int)
    &&& m.rule_match_length == blen(spelled(s, caret, m.input_match_length as int)->0)
}
pub open spec fn no_empty(s: Seq<InputNode>, caret: int) -> bool { forall|i: int| 0 <= i < caret ==> ((#[trigger] s[i]) matches InputNode::Symbol(t) ==> t@.len() > 0) }
/// C17: exactly the matching beginnings of one rule, each once
pub open spec fn exactly_of(rule: AutocompleteRule, s: Seq<InputNode>, caret: int, min: int, r: Seq<AutocompleteRuleMatch<'_>>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> is_match(rule, s, caret, min, #[trigger] r[i])
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).rule_match_length < (#[trigger] r[j]).rule_match_length
    &&& no_empty(s, caret) ==> forall|k: int| min <= k && #[trigger] matched(rule, s, caret, k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).input_match_length == k
}
/// C17: of several rules, in their order
pub open spec fn exactly(rules: Seq<AutocompleteRule>, s: Seq<InputNode>, caret: int, min: int, r: Seq<AutocompleteRuleMatch<'_>>) -> bool decreases rules.len() {
    if rules.len() == 0 { r.len() == 0 }
    else { exists|n: int| 0 <= n <= r.len() && exactly(rules.drop_last(), s, caret, min, #[trigger] r.take(n)) && exactly_of(rules.last(), s, caret, min, r.skip(n)) }
}
/// C17: a suggestion is complete exactly when the symbols spell the whole rule
pub proof fn c17_complete(rule: AutocompleteRule, s: Seq<InputNode>, caret: int, min: int, m: AutocompleteRuleMatch<'_>)
    requires is_match(rule, s, caret, min, m),
    ensures m.rule_match_length == blen(rule.parser@) <==> spelled(s, caret, m.input_match_length as int) == Some(rule.parser@),
{
    let w = spelled(s, caret, m.input_match_length as int)->0;
    let t = rule.parser@;
    assert(t.take(w.len() as int) =~= w); assert(t.take(t.len() as int) =~= t);
    if w.len() < t.len() { lemma_blen(t, w.len() as int, t.len() as int); }
}
/// C17: for any list of rules, everything suggested matches and everything that matches is suggested
pub proof fn c17_exact(rules: Seq<AutocompleteRule>, s: Seq<InputNode>, caret: int, min: int, r: Seq<AutocompleteRuleMatch<'_>>)
    requires exactly(rules, s, caret, min, r),
    ensures
        forall|i: int| 0 <= i < r.len() ==> exists|j: int| 0 <= j < rules.len() && is_match(#[trigger] rules[j], s, caret, min, #[trigger] r[i]),
        no_empty(s, caret) ==> forall|j: int, k: int| 0 <= j < rules.len() && min <= k && #[trigger] matched(rules[j], s, caret, k) ==> exists|i: int| 0 <= i < r.len() && is_match(rules[j], s, caret, min, #[trigger] r[i]) && r[i].input_match_length == k,
    decreases rules.len()
{
    if rules.len() > 0 {
        let n = choose|n: int| 0 <= n <= r.len() && exactly(rules.drop_last(), s, caret, min, #[trigger] r.take(n)) && exactly_of(rules.last(), s, caret, min, r.skip(n));
        let a = r.take(n); let b = r.skip(n); let d = rules.drop_last();
        c17_exact(d, s, caret, min, a);
        assert forall|i: int| 0 <= i < r.len() implies exists|j: int| 0 <= j < rules.len() && is_match(#[trigger] rules[j], s, caret, min, #[trigger] r[i]) by {
            if i < n { assert(a[i] == r[i]); let j = choose|j: int| 0 <= j < d.len() && is_match(#[trigger] d[j], s, caret, min, a[i]); assert(rules[j] == d[j]); }
            else { assert(b[i - n] == r[i]); assert(rules[rules.len() - 1] == rules.last()); }
        }
        if no_empty(s, caret) {
            assert forall|j: int, k: int| 0 <= j < rules.len() && min <= k && #[trigger] matched(rules[j], s, caret, k) implies exists|i: int| 0 <= i < r.len() && is_match(rules[j], s, caret, min, #[trigger] r[i]) && r[i].input_match_length == k by {
                if j < d.len() {
                    assert(d[j] == rules[j]);
                    let i = choose|i: int| 0 <= i < a.len() && is_match(d[j], s, caret, min, #[trigger] a[i]) && a[i].input_match_length == k;
                    assert(r[i] == a[i]);
                } else {
                    let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).input_match_length == k;
                    assert(r[n + i] == b[i]);
                }
            }
        }
    }
}
/// longer ends of the input spell longer texts
pub proof fn lemma_spelled(s: Seq<InputNode>, caret: int, q: int, k: int)
    requires 0 <= q <= k <= caret, spelled(s, caret, k) is Some,
    ensures spelled(s, caret, q) is Some, spelled(s, caret, q)->0.is_suffix_of(spelled(s, caret, k)->0),
        no_empty(s, caret) && q < k ==> spelled(s, caret, q)->0.len() < spelled(s, caret, k)->0.len(),
    decreases k - q
{
    if q < k {
        lemma_spelled(s, caret, q, k - 1);
        let t = s[caret - k]->Symbol_0@; let w = spelled(s, caret, k - 1)->0; let v = spelled(s, caret, q)->0;
        assert(spelled(s, caret, k) == Some(t + w));
        assert((t + w).subrange((t + w).len() - v.len(), (t + w).len() as int) =~= w.subrange(w.len() - v.len(), w.len() as int));
    } else {
        let w = spelled(s, caret, k)->0;
        assert(w.subrange(w.len() - w.len(), w.len() as int) =~= w);
    }
}
pub proof fn lemma_blen_same(t: Seq<char>, c: int, d: int)
    requires 0 <= c <= t.len(), 0 <= d <= t.len(), blen(t.take(c)) == blen(t.take(d)),
    ensures c == d,
{
    if c < d { lemma_blen(t, c, d); } else if d < c { lemma_blen(t, d, c); }
}
/// q symbols spell t[d..e]; if no further symbol fits in front of d, then nothing else spells t[..e]
pub open spec fn extensible(t: Seq<char>, s: Seq<InputNode>, caret: int, q: int, d: int) -> bool {
    q < caret && (s[caret - q - 1] matches InputNode::Symbol(x) && x@.is_suffix_of(t.take(d)))
}
pub open spec fn only_here(rule: AutocompleteRule, s: Seq<InputNode>, caret: int, q: int, d: int, e: int) -> bool {
    no_empty(s, caret) ==> forall|k: int| #[trigger] matched(rule, s, caret, k) && blen(spelled(s, caret, k)->0) == e ==> k == q && d == 0
}
pub proof fn lemma_final(rule: AutocompleteRule, s: Seq<InputNode>, caret: int, q: int, d: int, e: int)
    requires
        1 <= q <= caret <= s.len(), 0 <= d <= e <= rule.parser@.len(), spelled(s, caret, q) == Some(rule.parser@.subrange(d, e)),
    ensures !extensible(rule.parser@, s, caret, q, d) ==> only_here(rule, s, caret, q, d, blen(rule.parser@.take(e))),
{
    let t = rule.parser@;
    if !extensible(t, s, caret, q, d) && no_empty(s, caret) {
        assert forall|k: int| #[trigger] matched(rule, s, caret, k) && blen(spelled(s, caret, k)->0) == blen(t.take(e)) implies k == q && d == 0 by {
            let w = spelled(s, caret, k)->0;
            assert(t.take(w.len() as int) =~= w);
            lemma_blen_same(t, w.len() as int, e);
            assert(w == t.take(e));
            if q < k {
                lemma_spelled(s, caret, q + 1, k);
                let x = s[caret - q - 1]->Symbol_0@;
                let v = spelled(s, caret, q + 1)->0;
                assert(v == x + t.subrange(d, e));
                assert(v =~= w.subrange(w.len() - v.len(), w.len() as int));
                assert(x =~= v.take(x.len() as int));
                assert(x =~= t.take(d).subrange(d - x.len(), d));
            } else if k < q {
                lemma_spelled(s, caret, k, q);
            }
        }
    }
}
pub proof fn lemma_no_symbol(rule: AutocompleteRule, s: Seq<InputNode>, caret: int)
    ensures caret <= 0 || caret > s.len() || !(s[caret - 1] is Symbol) ==> forall|k: int| !#[trigger] matched(rule, s, caret, k),
{
    assert forall|k: int| (caret <= 0 || caret > s.len() || !(s[caret - 1] is Symbol)) && #[trigger] matched(rule, s, caret, k) implies false by {
        lemma_spelled(s, caret, 1, k);
        assert(spelled(s, caret, 1) is Some);
    }
}
pub broadcast proof fn lemma_suffix_blen(n: Seq<char>, t: Seq<char>)
    requires #[trigger] n.is_suffix_of(t),
    ensures blen(n) <= blen(t),
{
    let a = t.take(t.len() - n.len());
    assert(t =~= a + n);
    lemma_blen_concat(a, n);
}
/// an occurrence ends inside the text
pub proof fn lemma_occurs(n: Seq<char>, t: Seq<char>, c: int)
    requires 0 <= c <= t.len(), n.is_prefix_of(t.skip(c)),
    ensures c + n.len() <= t.len(), blen(t.take(c)) + blen(n) == blen(t.take(c + n.len() as int)), blen(t.take(c)) + blen(n) <= blen(t), t.subrange(c, c + n.len() as int) == n,
{
    let e = c + n.len() as int;
    assert(t.skip(c).subrange(0, n.len() as int) =~= n);
    assert(t.subrange(c, e) =~= n);
    assert(t.take(e) =~= t.take(c) + n);
    lemma_blen_concat(t.take(c), n);
    assert(t.take(t.len() as int) =~= t);
    if e < t.len() { lemma_blen(t, e, t.len() as int); }
}
/// the places where a match may end
pub open spec fn starts(pm: Seq<(usize, usize)>, n: Seq<char>, t: Seq<char>) -> bool {
    forall|j: int| 0 <= j < pm.len() ==> (#[trigger] pm[j]).1 == pm[j].0 + blen(n) && occurs(n, t, pm[j].0 as int)
}
pub open spec fn copied(pm: Seq<(usize, usize)>, ix: Seq<usize>) -> bool { pm.len() <= ix.len() && forall|j: int| 0 <= j < pm.len() ==> (#[trigger] pm[j]).0 == ix[j] }
pub open spec fn increasing(pm: Seq<(usize, usize)>) -> bool { forall|i: int, j: int| 0 <= i < j < pm.len() ==> (#[trigger] pm[i]).1 < (#[trigger] pm[j]).1 }
/// every match of the rule ends at one of them
pub open spec fn all_starts(pm: Seq<(usize, usize)>, rule: AutocompleteRule, s: Seq<InputNode>, caret: int) -> bool {
    no_empty(s, caret) ==> forall|k: int| #[trigger] matched(rule, s, caret, k) ==> exists|j: int| 0 <= j < pm.len() && (#[trigger] pm[j]).1 == blen(spelled(s, caret, k)->0)
}
/// the first n of them are dealt with
pub open spec fn found(r: Seq<AutocompleteRuleMatch<'_>>, pm: Seq<(usize, usize)>, n: int, rule: AutocompleteRule, s: Seq<InputNode>, caret: int, min: int) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> is_match(rule, s, caret, min, #[trigger] r[i])
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).rule_match_length < (#[trigger] r[j]).rule_match_length
    &&& forall|i: int| 0 <= i < r.len() ==> n > 0 && (#[trigger] r[i]).rule_match_length <= pm[n - 1].1
    &&& no_empty(s, caret) ==> forall|k: int, j: int| min <= k && 0 <= j < n && #[trigger] matched(rule, s, caret, k) && (#[trigger] pm[j]).1 == blen(spelled(s, caret, k)->0) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).input_match_length == k
}
pub proof fn lemma_all_starts(pm: Seq<(usize, usize)>, rule: AutocompleteRule, s: Seq<InputNode>, caret: int, n: Seq<char>, ix: Seq<usize>)
    requires
        0 < caret <= s.len(), s[caret - 1] matches InputNode::Symbol(x) && x@ == n,
        copied(pm, ix), pm.len() == ix.len(), starts(pm, n, rule.parser@),
        n.len() > 0 ==> forall|c: int, b: int| #[trigger] occurs_at(n, rule.parser@, c, b) ==> exists|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == b,
    ensures all_starts(pm, rule, s, caret),
{
    let t = rule.parser@;
    if no_empty(s, caret) {
        assert forall|k: int| #[trigger] matched(rule, s, caret, k) implies exists|j: int| 0 <= j < pm.len() && (#[trigger] pm[j]).1 == blen(spelled(s, caret, k)->0) by {
            lemma_spelled(s, caret, 1, k);
            let w = spelled(s, caret, k)->0;
            assert(spelled(s, caret, 0) == Some(Seq::<char>::empty()));
            assert(n + Seq::<char>::empty() =~= n);
            assert(spelled(s, caret, 1) == Some(n));
            let c = w.len() - n.len();
            assert(t.take(w.len() as int) =~= w);
            assert(n =~= t.skip(c).take(n.len() as int));
            assert(occurs_at(n, t, c, blen(t.take(c))));
            lemma_occurs(n, t, c);
            let i = choose|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == blen(t.take(c));
            assert(pm[i].1 == blen(w));
        }
    }
}
/// the occurrences of the last symbol, in order
pub open spec fn all_occurrences(ix: Seq<usize>, n: Seq<char>, t: Seq<char>) -> bool {
    &&& n.len() > 0 ==> forall|c: int, b: int| #[trigger] occurs_at(n, t, c, b) ==> exists|i: int| 0 <= i < ix.len() && #[trigger] ix[i] == b
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() ==> (#[trigger] ix[i]) < (#[trigger] ix[j])
}
pub proof fn lemma_complete_starts(rule: AutocompleteRule, s: Seq<InputNode>, caret: int, n: Seq<char>)
    requires 0 < caret <= s.len(), s[caret - 1] matches InputNode::Symbol(x) && x@ == n,
    ensures forall|pm: Seq<(usize, usize)>, ix: Seq<usize>| #[trigger] copied(pm, ix) && pm.len() == ix.len() && starts(pm, n, rule.parser@) && all_occurrences(ix, n, rule.parser@)
        ==> all_starts(pm, rule, s, caret) && increasing(pm),
        forall|ix: Seq<usize>| ix.len() == 0 && #[trigger] all_occurrences(ix, n, rule.parser@) ==> all_starts(Seq::<(usize, usize)>::empty(), rule, s, caret),
{
    assert forall|ix: Seq<usize>| ix.len() == 0 && #[trigger] all_occurrences(ix, n, rule.parser@) implies all_starts(Seq::<(usize, usize)>::empty(), rule, s, caret) by {
        lemma_all_starts(Seq::<(usize, usize)>::empty(), rule, s, caret, n, ix);
    }
    assert forall|pm: Seq<(usize, usize)>, ix: Seq<usize>| #[trigger] copied(pm, ix) && pm.len() == ix.len() && starts(pm, n, rule.parser@) && all_occurrences(ix, n, rule.parser@)
        implies all_starts(pm, rule, s, caret) && increasing(pm) by {
        lemma_all_starts(pm, rule, s, caret, n, ix);
    }
}
pub open spec fn occurs_before(n: Seq<char>, t: Seq<char>, k: int, b: int) -> bool { exists|c: int| c < k && #[trigger] occurs_at(n, t, c, b) }
/// (somewhere)
pub open spec fn occurs(n: Seq<char>, t: Seq<char>, b: int) -> bool { exists|c: int| #[trigger] occurs_at(n, t, c, b) }
pub open spec fn occurs_at(n: Seq<char>, t: Seq<char>, c: int, b: int) -> bool { 0 <= c <= t.len() && b == blen(t.take(c)) && n.is_prefix_of(t.skip(c)) }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for AutocompleteRuleMatch<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self == o }
}
impl<'a> vstd::std_specs::cmp::OrdSpecImpl for AutocompleteRuleMatch<'a> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> core::cmp::Ordering { cmp_int(self.rule_match_length as int, o.rule_match_length as int) }
}
impl<'a> vstd::std_specs::cmp::PartialOrdSpecImpl for AutocompleteRuleMatch<'a> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(cmp_int(self.rule_match_length as int, o.rule_match_length as int)) }
}
impl<'a> crate::vx::VxCmp for AutocompleteRuleMatch<'a> {
    open spec fn vx_cmp_spec(&self, o: &Self) -> core::cmp::Ordering { cmp_int(self.rule_match_length as int, o.rule_match_length as int) }
    #[verifier::external_body]
    fn vx_cmp(&self, o: &Self) -> (r: core::cmp::Ordering) { unimplemented!() }
}
%trait AutocompleteMatcher
    /// the rules it knows
    spec fn rules(&self) -> Seq<AutocompleteRule>;
%fn AutocompleteMatcher::matches(self, input, caret_position, min_rule_match_length) -> r
%requires
    caret_position <= input@.len(),
    forall|i: int| 0 <= i < self.rules().len() ==> (#[trigger] self.rules()[i]).parser@.len() > 0,
%ensures
    exactly(self.rules(), input@, caret_position as int, min_rule_match_length as int, r@),
%impl <AutocompleteRule as AutocompleteMatcher>
    open spec fn rules(&self) -> Seq<AutocompleteRule> { seq![*self] }
%impl <AutocompleteRules as AutocompleteMatcher>
    open spec fn rules(&self) -> Seq<AutocompleteRule> { self.0@ }
%fn AutocompleteRuleMatch::is_complete_match(self) -> r
%ensures
    r == (self.rule_match_length == blen(self.rule.parser@)),
%fn indices_of(needle, haystack) -> r
%ensures
    needle@.len() == 0 ==> r@.len() == 0,
    // every occurrence, once, in order
    forall|i: int| 0 <= i < r@.len() ==> occurs(needle@, haystack@, (#[trigger] r@[i]) as int),
    all_occurrences(r@, needle@, haystack@),
%loop 0 it
    invariant
        needle@.len() > 0,
        it.seq().len() == haystack@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == blen(haystack@.take(i)),
        forall|i: int| 0 <= i < indices@.len() ==> occurs_before(needle@, haystack@, it.index@, (#[trigger] indices@[i]) as int),
        forall|i: int, j: int| 0 <= i < j < indices@.len() ==> (#[trigger] indices@[i]) < (#[trigger] indices@[j]),
        forall|c: int, b: int| c < it.index@ && #[trigger] occurs_at(needle@, haystack@, c, b) ==> exists|i: int| 0 <= i < indices@.len() && #[trigger] indices@[i] == b,
%lstart 0
    proof {
        broadcast use lemma_blen;
        let c = it.index@;
        assert(index == blen(haystack@.take(c)));
        assert(haystack@.take(haystack@.len() as int) =~= haystack@);
        assert(on_boundary(haystack@, index as int)); assert(on_boundary(haystack@, blen(haystack@)));
        assert(haystack@.subrange(c, haystack@.len() as int) =~= haystack@.skip(c));
    }
    let ghost vx_old = indices@;
%lend 0
    proof {
        let c = it.index@;
        assert forall|i: int| 0 <= i < vx_old.len() implies vx_old[i] < index by {
            let c2 = choose|c2: int| c2 < c && #[trigger] occurs_at(needle@, haystack@, c2, vx_old[i] as int);
            lemma_blen(haystack@, c2, c);
        }
        if needle@.is_prefix_of(haystack@.skip(c)) {
            assert(indices@ == vx_old.push(index));
            assert(occurs_at(needle@, haystack@, c, index as int));
            assert(indices@[vx_old.len() as int] == index);
            assert forall|c2: int, b: int| c2 < c + 1 && #[trigger] occurs_at(needle@, haystack@, c2, b) implies exists|i: int| 0 <= i < indices@.len() && #[trigger] indices@[i] == b by {
                if c2 < c { let i = choose|i: int| 0 <= i < vx_old.len() && #[trigger] vx_old[i] == b; assert(indices@[i] == vx_old[i]); }
            }
        }
    }
%tail
    proof {
        assert forall|c: int, b: int| needle@.len() > 0 && #[trigger] occurs_at(needle@, haystack@, c, b) implies c < haystack@.len() by { lemma_occurs(needle@, haystack@, c); }
    }
%fn <AutocompleteRule as AutocompleteMatcher>::matches(self, input, caret_position, min_rule_match_length) -> r
%attr
#[verifier::loop_isolation(true)]
%start
    let ghost vx_s = input@;
    let ghost vx_k = caret_position as int;
    let ghost vx_t = self.parser@;
    let ghost mut vx_sym: Seq<char> = Seq::empty();
    proof { lemma_no_symbol(*self, vx_s, vx_k); assert(self.rules() =~= seq![*self]); assert(self.rules()[0] == *self); lemma_text_len(&self.parser); assert(vx_t.take(0).len() == 0); lemma_blen_pos(vx_t.take(0)); }
%at for i in indices_of
    proof { vx_sym = starting_symbol@; assert(input@[vx_k - 1] == vx_s[vx_k - 1]); lemma_complete_starts(*self, vx_s, vx_k, vx_sym); assert(potential_matches@ =~= Seq::empty()); }
%loop 0 it
    invariant
        vx_t == self.parser@, starting_symbol@ == vx_sym, blen(vx_t) <= usize::MAX, all_occurrences(it.seq(), vx_sym, vx_t),
        forall|pm: Seq<(usize, usize)>, ix: Seq<usize>| #[trigger] copied(pm, ix) && pm.len() == ix.len() && starts(pm, vx_sym, vx_t) && all_occurrences(ix, vx_sym, vx_t)
            ==> all_starts(pm, *self, vx_s, vx_k) && increasing(pm),
        forall|j: int| 0 <= j < it.seq().len() ==> occurs(vx_sym, vx_t, (#[trigger] it.seq()[j]) as int),
        potential_matches@.len() == it.index@,
        copied(potential_matches@, it.seq()), starts(potential_matches@, vx_sym, vx_t),
        potential_matches@.len() == it.seq().len() ==> increasing(potential_matches@),
        potential_matches@.len() == it.seq().len() ==> all_starts(potential_matches@, *self, vx_s, vx_k),
%lstart 0
    proof {
        assert(i == it.seq()[it.index@]);
        let c = choose|c: int| #[trigger] occurs_at(vx_sym, vx_t, c, i as int);
        lemma_occurs(vx_sym, vx_t, c);
    }
%lend 0
    proof {
       assert(copied(potential_matches@, it.seq())); assert(starts(potential_matches@, vx_sym, vx_t));
       assert(all_occurrences(it.seq(), vx_sym, vx_t)); assert(potential_matches@.len() == it.seq().len() ==> increasing(potential_matches@));
       assert(potential_matches@.len() == it.seq().len() ==> all_starts(potential_matches@, *self, vx_s, vx_k));
    }
%loop 1 it
    invariant
        vx_t == self.parser@, vx_k <= vx_s.len(), input@ == vx_s.subrange(0, vx_k), vx_k == caret_position, vx_t.len() > 0,
        it.seq().len() > 0 ==> vx_k > 0 && (vx_s[vx_k - 1] matches InputNode::Symbol(x) && x@ == vx_sym),
        all_starts(it.seq(), *self, vx_s, vx_k),
        starts(it.seq(), vx_sym, vx_t), increasing(it.seq()),
        found(matches@, it.seq(), it.index@, *self, vx_s, vx_k, min_rule_match_length as int),
        it.index@ == it.seq().len() ==> exactly_of(*self, vx_s, vx_k, min_rule_match_length as int, matches@),
%lstart 1
    let ghost vx_pm = it.seq();
    let ghost vx_m = matches@;
    let ghost vx_j = it.index@;
    let ghost vx_c = choose|c: int| #[trigger] occurs_at(vx_sym, vx_t, c, parser_start_index as int);
    let ghost mut vx_d = vx_c;
    let ghost vx_e = vx_c + vx_sym.len() as int;
    proof {
        assert(vx_pm[vx_j] == (parser_start_index, parser_end_index));
        lemma_occurs(vx_sym, vx_t, vx_c);
        assert(spelled(vx_s, vx_k, 0) == Some(Seq::<char>::empty()));
        assert(vx_sym + Seq::<char>::empty() =~= vx_sym);
        assert(spelled(vx_s, vx_k, 1) == Some(vx_sym));
    }
%loop 2
    invariant_except_break
        input_reverse.n == vx_k - symbol_count,
    invariant
        vx_t == self.parser@, vx_k <= vx_s.len(), input@ == vx_s.subrange(0, vx_k), vx_k == caret_position,
        1 <= symbol_count <= vx_k, 0 <= vx_d <= vx_e <= vx_t.len(), parser_current_index == blen(vx_t.take(vx_d)),
        spelled(vx_s, vx_k, symbol_count as int) == Some(vx_t.subrange(vx_d, vx_e)),
        input_reverse.v == input,
    ensures
        only_here(*self, vx_s, vx_k, symbol_count as int, vx_d, blen(vx_t.take(vx_e))),
    decreases vx_k - symbol_count
%lstart 2
    proof {
        broadcast use lemma_suffix_blen;
        lemma_final(*self, vx_s, vx_k, symbol_count as int, vx_d, vx_e);
        assert(vx_t.take(0).len() == 0); lemma_blen_pos(vx_t.take(0));
        assert(on_boundary(vx_t, 0)); assert(on_boundary(vx_t, parser_current_index as int));
        assert(vx_t.subrange(0, vx_d) =~= vx_t.take(vx_d));
    }
    let ghost vx_q = symbol_count as int;
%lend 2
    proof {
        let x = symbol@;
        let d2 = vx_d - x.len() as int;
        assert(vx_t.take(vx_d) =~= vx_t.take(d2) + x);
        lemma_blen_concat(vx_t.take(d2), x);
        assert(vx_t.subrange(d2, vx_e) =~= x + vx_t.subrange(vx_d, vx_e));
        vx_d = d2;
    }
%lend 1
    proof {
        let q = symbol_count as int; let min = min_rule_match_length as int;
        if vx_d > 0 { lemma_blen(vx_t, 0, vx_d); }
        if vx_d == 0 {
            assert(vx_t.subrange(0, vx_e) =~= vx_t.take(vx_e));
            assert(vx_t.take(vx_e).is_prefix_of(vx_t));
            assert(matched(*self, vx_s, vx_k, q));
        }
        assert(vx_pm[vx_j].1 == blen(vx_t.take(vx_e)));
        assert forall|k: int, j: int| no_empty(vx_s, vx_k) && min <= k && 0 <= j < vx_j + 1 && #[trigger] matched(*self, vx_s, vx_k, k) && (#[trigger] vx_pm[j]).1 == blen(spelled(vx_s, vx_k, k)->0)
            implies exists|i: int| 0 <= i < matches@.len() && (#[trigger] matches@[i]).input_match_length == k by {
            if j < vx_j {
                let i = choose|i: int| 0 <= i < vx_m.len() && (#[trigger] vx_m[i]).input_match_length == k;
                assert(matches@[i] == vx_m[i]);
            } else {
                assert(k == q && vx_d == 0);
                assert(matches@[vx_m.len() as int].input_match_length == k);
            }
        }
    }
%tail
    proof {
        let rs = self.rules(); let min = min_rule_match_length as int;
        assert(rs.drop_last() =~= Seq::empty()); assert(matches@.skip(0) =~= matches@); assert(matches@.take(0) =~= Seq::empty());
        assert(exactly(rs.drop_last(), vx_s, vx_k, min, matches@.take(0)));
    }
%fn <AutocompleteRules as AutocompleteMatcher>::matches(self, input, caret_position, min_rule_match_length) -> r
%start
    proof { assert(self.rules() == self.0@); assert(self.0@.take(0) =~= Seq::empty()); assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
%loop 0 it
    invariant
        caret_position <= input@.len(), it.seq().len() == self.0@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.0@[i],
        forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).parser@.len() > 0,
        exactly(self.0@.take(it.index@), input@, caret_position as int, min_rule_match_length as int, matches@),
%lstart 0
    let ghost vx_m = matches@;
%lend 0
    proof { assert(*rule == self.0@[it.index@]); assert(rule.rules() =~= seq![self.0@[it.index@]]); lemma_one_more(self.0@, it.index@, input@, caret_position as int, min_rule_match_length as int, vx_m, matches@); }
%fn <MathParser as AutocompleteMatcher>::matches(self, input, caret_position, min_rule_match_length) -> r
%start
    proof { assert(self.rules() == self.autocomplete_rules@); assert(self.autocomplete_rules@.take(0) =~= Seq::empty()); assert(self.autocomplete_rules@.take(self.autocomplete_rules@.len() as int) =~= self.autocomplete_rules@); }
%loop 0 it
    invariant
        caret_position <= input@.len(), it.seq().len() == self.autocomplete_rules@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.autocomplete_rules@[i],
        forall|i: int| 0 <= i < self.autocomplete_rules@.len() ==> (#[trigger] self.autocomplete_rules@[i]).parser@.len() > 0,
        exactly(self.autocomplete_rules@.take(it.index@), input@, caret_position as int, min_rule_match_length as int, matches@),
%lstart 0
    let ghost vx_m = matches@;
%lend 0
    proof { assert(*rule == self.autocomplete_rules@[it.index@]); assert(rule.rules() =~= seq![self.autocomplete_rules@[it.index@]]); lemma_one_more(self.autocomplete_rules@, it.index@, input@, caret_position as int, min_rule_match_length as int, vx_m, matches@); }
%impl <MathParser as AutocompleteMatcher>
    open spec fn rules(&self) -> Seq<AutocompleteRule> { self.autocomplete_rules@ }
%spec parser::parser
use crate::parser::autocomplete::*;
%spec parser::autocomplete
/// appending the matches of one rule
pub proof fn lemma_one_more(rules: Seq<AutocompleteRule>, n: int, s: Seq<InputNode>, caret: int, min: int, a: Seq<AutocompleteRuleMatch<'_>>, b: Seq<AutocompleteRuleMatch<'_>>)
    requires
        0 <= n < rules.len(), exactly(rules.take(n), s, caret, min, a), exists|x: Seq<AutocompleteRuleMatch<'_>>| b == #[trigger] (a + x) && exactly(seq![rules[n]], s, caret, min, x),
    ensures exactly(rules.take(n + 1), s, caret, min, b),
{
    let one = seq![rules[n]];
    let c = choose|x: Seq<AutocompleteRuleMatch<'_>>| b == #[trigger] (a + x) && exactly(seq![rules[n]], s, caret, min, x);
    assert(a =~= b.take(a.len() as int)); assert(b.skip(a.len() as int) =~= c);
    assert(one.drop_last() =~= Seq::empty()); assert(one.last() == rules[n]);
    let k = choose|k: int| 0 <= k <= c.len() && exactly(one.drop_last(), s, caret, min, #[trigger] c.take(k)) && exactly_of(one.last(), s, caret, min, c.skip(k));
    assert(k == 0); assert(c.skip(0) =~= c);
    let r = rules.take(n + 1);
    assert(r.drop_last() =~= rules.take(n)); assert(r.last() == rules[n]);
    assert(exactly(r.drop_last(), s, caret, min, b.take(a.len() as int)));
}
%end
