%% parser/src/parser/pratt_parser.rs: operators bind by their declared powers (C20)
%drop <RcOrWeak as Clone>
%drop <PrattParserCaller_ as Clone>
%drop PrattParseResult::map
%spec pratt_parser
use crate::chumsky::*;
impl VxLess for Strength { open spec fn less(self, o: Strength) -> bool { vx_rank_Strength(self) < vx_rank_Strength(o) } }
/// the first parser of the list that reads something here
pub open spec fn first<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: Parser<'a, I, O, E>, H: HasParser<P>>(l: Seq<H>, toks: Seq<I::Token>, pos: int) -> Option<(int, O, int)>
    decreases l.len()
{
    if l.len() == 0 { None } else { match l[0].sp_parser().parses(toks, pos) { Some((v, e)) => Some((0int, v, e)), None => match first::<I, O, E, P, H>(l.skip(1), toks, pos) { Some((i, v, e)) => Some((i + 1, v, e)), None => None } } }
}
pub proof fn lemma_first_skip<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: Parser<'a, I, O, E>, H: HasParser<P>>(l: Seq<H>, toks: Seq<I::Token>, pos: int, k: int)
    requires 0 <= k <= l.len(), forall|i: int| 0 <= i < k ==> (#[trigger] l[i]).sp_parser().parses(toks, pos) is None
    ensures first::<I, O, E, P, H>(l, toks, pos) == (match first::<I, O, E, P, H>(l.skip(k), toks, pos) { Some((i, v, e)) => Some((i + k, v, e)), None => None })
    decreases k
{
    if k == 0 { assert(l.skip(0) =~= l); } else {
        assert forall|i: int| 0 <= i < k - 1 implies (#[trigger] l.skip(1)[i]).sp_parser().parses(toks, pos) is None by { assert(l.skip(1)[i] == l[i + 1]); }
        lemma_first_skip::<I, O, E, P, H>(l.skip(1), toks, pos, k - 1);
        assert(l.skip(1).skip(k - 1) =~= l.skip(k));
        assert(l[0].sp_parser().parses(toks, pos) is None);
    }
}
/// the parsers before k read nothing here
pub open spec fn none_before<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: Parser<'a, I, O, E>, H: HasParser<P>>(l: Seq<H>, toks: Seq<I::Token>, pos: int, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> (#[trigger] l[i]).sp_parser().parses(toks, pos) is None
}
pub proof fn lemma_first<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: Parser<'a, I, O, E>, H: HasParser<P>>(l: Seq<H>, toks: Seq<I::Token>, pos: int)
    ensures
        forall|k: int| 0 <= k < l.len() && none_before::<I, O, E, P, H>(l, toks, pos, k) && (#[trigger] l[k]).sp_parser().parses(toks, pos) is Some
            ==> first::<I, O, E, P, H>(l, toks, pos) == Some((k, (l[k].sp_parser().parses(toks, pos)->0).0, (l[k].sp_parser().parses(toks, pos)->0).1)),
        none_before::<I, O, E, P, H>(l, toks, pos, l.len() as int) ==> first::<I, O, E, P, H>(l, toks, pos) is None,
{
    assert forall|k: int| 0 <= k < l.len() && none_before::<I, O, E, P, H>(l, toks, pos, k) && (#[trigger] l[k]).sp_parser().parses(toks, pos) is Some
        implies first::<I, O, E, P, H>(l, toks, pos) == Some((k, (l[k].sp_parser().parses(toks, pos)->0).0, (l[k].sp_parser().parses(toks, pos)->0).1)) by {
        lemma_first_skip::<I, O, E, P, H>(l, toks, pos, k);
        assert(l.skip(k)[0] == l[k]);
    }
    if none_before::<I, O, E, P, H>(l, toks, pos, l.len() as int) { lemma_first_skip::<I, O, E, P, H>(l, toks, pos, l.len() as int); }
}
pub open spec fn result_of<O>(r: PrattParseResult<O>) -> O { match r { PrattParseResult::Expression(o) => o, PrattParseResult::End(o) => o } }
pub open spec fn flip(s: Strength) -> Strength { match s { Strength::Weak => Strength::Strong, Strength::Strong => Strength::Weak } }
pub open spec fn sp_left(b: BindingPower) -> (u16, Strength) { match b { BindingPower::Prefix(v) | BindingPower::LeftInfix(v) => (v, Strength::Weak), BindingPower::Postfix(v) | BindingPower::RightInfix(v) => (v, Strength::Strong) } }
pub open spec fn sp_right(b: BindingPower) -> (u16, Strength) { (sp_left(b).0, flip(sp_left(b).1)) }
/// weaker than
pub open spec fn below(a: (u16, Strength), b: (u16, Strength)) -> bool { a.0 < b.0 || a.0 == b.0 && a.1 is Weak && b.1 is Strong }
pub enum Tree<O, Op> {
    Atom { at: int, to: int, value: O },
    Hole { at: int },
    Unknown { at: int },
    Prefix { i: int, at: int, to: int, op: Op, right: Box<Tree<O, Op>> },
    Postfix { left: Box<Tree<O, Op>>, i: int, at: int, to: int, op: Op },
    Infix { left: Box<Tree<O, Op>>, i: int, at: int, to: int, op: Op, right: Box<Tree<O, Op>> },
    Missing { left: Box<Tree<O, Op>>, at: int, right: Box<Tree<O, Op>> },
    Junk { left: Box<Tree<O, Op>>, at: int, right: Box<Tree<O, Op>> },
}
pub open spec fn junk<O, Op>(t: Tree<O, Op>) -> bool decreases t { match t { Tree::Unknown { at } => true, Tree::Junk { left, at, right } => junk(*left) && *right is Unknown, _ => false } }
pub open spec fn consuming<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: Parser<'a, I, O, E>>(p: P) -> bool {
    forall|toks: Seq<I::Token>, pos: int| 0 <= pos <= toks.len() && (#[trigger] p.parses(toks, pos)) is Some ==> pos < (p.parses(toks, pos)->0).1 <= toks.len()
}
pub open spec fn all_consuming<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: Parser<'a, I, O, E>, H: HasParser<P>>(l: Seq<H>) -> bool {
    forall|i: int| 0 <= i < l.len() ==> consuming::<I, O, E, P>((#[trigger] l[i]).sp_parser())
}
pub proof fn lemma_first_consumes<'a, I: Input<'a>, O, E: ParserExtra<'a, I>, P: Parser<'a, I, O, E>, H: HasParser<P>>(l: Seq<H>, toks: Seq<I::Token>, pos: int)
    requires all_consuming::<I, O, E, P, H>(l), 0 <= pos <= toks.len()
    ensures first::<I, O, E, P, H>(l, toks, pos) is Some ==> pos < (first::<I, O, E, P, H>(l, toks, pos)->0).2 <= toks.len()
    decreases l.len()
{
    if l.len() > 0 {
        assert(consuming::<I, O, E, P>(l[0].sp_parser()));
        assert forall|i: int| 0 <= i < l.skip(1).len() implies consuming::<I, O, E, P>((#[trigger] l.skip(1)[i]).sp_parser()) by { assert(l.skip(1)[i] == l[i + 1]); }
        lemma_first_consumes::<I, O, E, P, H>(l.skip(1), toks, pos);
    }
}
impl<'a, I, O, E, AtomParser, InfixParser, PrefixParser, PostfixParser, EndingParser, InfixBuilder, PrefixBuilder, PostfixBuilder, Op> PrattParser<'a, I, O, E, PrattSymbolParsers<AtomParser, InfixParser, PrefixParser, PostfixParser, InfixBuilder, PrefixBuilder, PostfixBuilder, Op>, EndingParser>
where
    I: Input<'a>,
    E: ParserExtra<'a, I>,
    EndingParser: Parser<'a, I, (), E>,
    AtomParser: Parser<'a, I, O, E>,
    InfixParser: Parser<'a, I, Op, E>,
    PrefixParser: Parser<'a, I, Op, E>,
    PostfixParser: Parser<'a, I, Op, E>,
    InfixBuilder: self::InfixBuilder<Op, O>,
    PrefixBuilder: self::PrefixBuilder<Op, O>,
    PostfixBuilder: self::PostfixBuilder<Op, O>,
{

    pub open spec fn fx(&self, toks: Seq<I::Token>, p: int) -> Option<(int, Op, int)> { first::<I, Op, E, InfixParser, OpParser<InfixParser, InfixBuilder>>(self.symbols.infix_ops@, toks, p) }
    pub open spec fn fpre(&self, toks: Seq<I::Token>, p: int) -> Option<(int, Op, int)> { first::<I, Op, E, PrefixParser, OpParser<PrefixParser, PrefixBuilder>>(self.symbols.prefix_ops@, toks, p) }
    pub open spec fn fpost(&self, toks: Seq<I::Token>, p: int) -> Option<(int, Op, int)> { first::<I, Op, E, PostfixParser, OpParser<PostfixParser, PostfixBuilder>>(self.symbols.postfix_ops@, toks, p) }
    pub open spec fn atom_at(&self, toks: Seq<I::Token>, p: int) -> Option<(O, int)> { self.symbols.atom.parses(toks, p) }
    pub open spec fn operand(&self, toks: Seq<I::Token>, p: int) -> bool { self.fpre(toks, p) is Some || self.atom_at(toks, p) is Some }
    pub open spec fn operator(&self, toks: Seq<I::Token>, p: int) -> bool { self.fx(toks, p) is Some || self.fpost(toks, p) is Some }
    pub open spec fn ended(&self, e: EndingParser, toks: Seq<I::Token>, p: int) -> bool { p == toks.len() || e.parses(toks, p) is Some }
    pub open spec fn unreadable(&self, e: EndingParser, toks: Seq<I::Token>, p: int) -> bool { 0 <= p < toks.len() && !self.operand(toks, p) && !self.operator(toks, p) && !self.ended(e, toks, p) }
    pub open spec fn usable(&self) -> bool {
        &&& consuming::<I, O, E, AtomParser>(self.symbols.atom)
        &&& all_consuming::<I, Op, E, InfixParser, OpParser<InfixParser, InfixBuilder>>(self.symbols.infix_ops@)
        &&& all_consuming::<I, Op, E, PrefixParser, OpParser<PrefixParser, PrefixBuilder>>(self.symbols.prefix_ops@)
        &&& all_consuming::<I, Op, E, PostfixParser, OpParser<PostfixParser, PostfixBuilder>>(self.symbols.postfix_ops@)
    }
    pub open spec fn lbp(&self, i: int) -> (u16, Strength) { sp_left(self.symbols.infix_ops@[i].binding_power) }
    pub open spec fn rbp(&self, i: int) -> (u16, Strength) { sp_right(self.symbols.infix_ops@[i].binding_power) }
    pub open spec fn prebp(&self, i: int) -> (u16, Strength) { sp_right(self.symbols.prefix_ops@[i].binding_power) }
    pub open spec fn postbp(&self, i: int) -> (u16, Strength) { sp_left(self.symbols.postfix_ops@[i].binding_power) }
    pub open spec fn mis(&self) -> BindingPower { self.error_handler.missing_operator_binding_power }
    /// how strongly the next operator (or a missing one) pulls on what is to its left
    pub open spec fn pull(&self, toks: Seq<I::Token>, p: int) -> Option<(u16, Strength)> {
        match self.fx(toks, p) { Some((i, op, to)) => Some(self.lbp(i)), None =>
        match self.fpost(toks, p) { Some((i, op, to)) => Some(self.postbp(i)), None => if self.operand(toks, p) { Some(sp_left(self.mis())) } else { None } } }
    }
    /// the tree reads exactly the input from p to q, element by element
    pub open spec fn reads(&self, e: EndingParser, toks: Seq<I::Token>, t: Tree<O, Op>, p: int, q: int) -> bool decreases t {
        match t {
            Tree::Atom { at, to, value } => p == at && q == to && self.fpre(toks, at) is None && self.atom_at(toks, at) == Some((value, to)),
            Tree::Hole { at } => p == at && q == at && !self.operand(toks, at) && (self.operator(toks, at) || self.ended(e, toks, at)),
            Tree::Unknown { at } => p == at && q == at + 1 && self.unreadable(e, toks, at),
            Tree::Prefix { i, at, to, op, right } => p == at && self.fpre(toks, at) == Some((i, op, to)) && self.reads(e, toks, *right, to, q),
            Tree::Postfix { left, i, at, to, op } => self.reads(e, toks, *left, p, at) && self.fx(toks, at) is None && self.fpost(toks, at) == Some((i, op, to)) && q == to,
            Tree::Infix { left, i, at, to, op, right } => self.reads(e, toks, *left, p, at) && self.fx(toks, at) == Some((i, op, to)) && self.reads(e, toks, *right, to, q),
            Tree::Missing { left, at, right } => self.reads(e, toks, *left, p, at) && !self.operator(toks, at) && self.operand(toks, at) && self.reads(e, toks, *right, at, q),
            Tree::Junk { left, at, right } => self.reads(e, toks, *left, p, at) && self.unreadable(e, toks, at) && self.reads(e, toks, *right, at, q),
        }
    }
    /// what is built for it
    pub open spec fn built(&self, toks: Seq<I::Token>, t: Tree<O, Op>) -> O decreases t {
        match t {
            Tree::Atom { at, to, value } => value,
            Tree::Hole { at } => self.error_handler.make_missing_atom.of((I::span_at(toks, at),)),
            Tree::Unknown { at } => self.error_handler.make_unknown_atom.of((I::span_at(toks, at), vx_token(toks[at]))),
            Tree::Prefix { i, at, to, op, right } => self.symbols.prefix_ops@[i].build.built(op, self.built(toks, *right)),
            Tree::Postfix { left, i, at, to, op } => self.symbols.postfix_ops@[i].build.built(op, self.built(toks, *left)),
            Tree::Infix { left, i, at, to, op, right } => self.symbols.infix_ops@[i].build.built(op, self.built(toks, *left), self.built(toks, *right)),
            Tree::Missing { left, at, right } => self.error_handler.make_missing_operator.of((I::span_at(toks, at), (self.built(toks, *left), self.built(toks, *right)))),
            Tree::Junk { left, at, right } => self.error_handler.make_missing_operator.of((I::span_at(toks, at), (self.built(toks, *left), self.built(toks, *right)))),
        }
    }
    /// every operator whose right operand ends the tree binds that operand more strongly than s
    pub open spec fn holds(&self, t: Tree<O, Op>, s: (u16, Strength)) -> bool decreases t {
        match t {
            Tree::Prefix { i, at, to, op, right } => below(s, self.prebp(i)) && self.holds(*right, s),
            Tree::Infix { left, i, at, to, op, right } => below(s, self.rbp(i)) && self.holds(*right, s),
            Tree::Missing { left, at, right } => below(s, sp_right(self.mis())) && self.holds(*right, s),
            _ => true,
        }
    }
    /// operators bind by their declared power
    pub open spec fn binds(&self, t: Tree<O, Op>, min: (u16, Strength)) -> bool decreases t {
        match t {
            Tree::Prefix { i, at, to, op, right } => self.binds(*right, self.prebp(i)),
            Tree::Postfix { left, i, at, to, op } => !below(self.postbp(i), min) && self.binds(*left, min) && self.holds(*left, self.postbp(i)),
            Tree::Infix { left, i, at, to, op, right } => !below(self.lbp(i), min) && self.binds(*left, min) && self.holds(*left, self.lbp(i)) && self.binds(*right, self.rbp(i)),
            Tree::Missing { left, at, right } => !below(sp_left(self.mis()), min) && self.binds(*left, min) && self.holds(*left, sp_left(self.mis())) && self.binds(*right, sp_right(self.mis())),
            Tree::Junk { left, at, right } => self.binds(*left, min) && self.binds(*right, min),
            _ => true,
        }
    }
    pub open spec fn skipped(&self, e: EndingParser, toks: Seq<I::Token>, t: Tree<O, Op>, p: int, q: int, o: O) -> bool { junk(t) && 0 <= p <= q <= toks.len() && self.reads(e, toks, t, p, q) && o == self.built(toks, t) }
    pub open spec fn parsed(&self, e: EndingParser, toks: Seq<I::Token>, t: Tree<O, Op>, p: int, q: int, min: (u16, Strength), o: O) -> bool {
        0 <= p <= q <= toks.len() && self.reads(e, toks, t, p, q) && self.binds(t, min) && o == self.built(toks, t)
    }

    pub proof fn lemma_unknown(&self, e: EndingParser, toks: Seq<I::Token>, p: int)
        ensures self.unreadable(e, toks, p) ==> self.unknown_upto(e, toks, p, p + 1, self.error_handler.make_unknown_atom.of((I::span_at(toks, p), vx_token(toks[p])))),
            forall|q: int, l: O| #[trigger] self.unknown_upto(e, toks, p, q, l) && self.unreadable(e, toks, q) ==> self.unknown_upto(e, toks, p, q + 1, self.error_handler.make_missing_operator.of((I::span_at(toks, q), (l, self.error_handler.make_unknown_atom.of((I::span_at(toks, q), vx_token(toks[q]))))))),
    {
        reveal(PrattParser::started); reveal(PrattParser::done); reveal(PrattParser::unknown_upto);
        let h = self.error_handler;
        if self.unreadable(e, toks, p) { let n: Tree<O, Op> = Tree::Unknown { at: p }; assert(self.skipped(e, toks, n, p, p + 1, h.make_unknown_atom.of((I::span_at(toks, p), vx_token(toks[p]))))); }
        assert forall|q: int, l: O| #[trigger] self.unknown_upto(e, toks, p, q, l) && self.unreadable(e, toks, q) implies self.unknown_upto(e, toks, p, q + 1, h.make_missing_operator.of((I::span_at(toks, q), (l, h.make_unknown_atom.of((I::span_at(toks, q), vx_token(toks[q]))))))) by {
            let t = choose|t: Tree<O, Op>| self.skipped(e, toks, t, p, q, l);
            let u: Tree<O, Op> = Tree::Unknown { at: q };
            assert(self.reads(e, toks, u, q, q + 1));
            assert(self.built(toks, u) == h.make_unknown_atom.of((I::span_at(toks, q), vx_token(toks[q]))));
            let n = Tree::Junk { left: Box::new(t), at: q, right: Box::new(u) };
            assert(self.skipped(e, toks, n, p, q + 1, h.make_missing_operator.of((I::span_at(toks, q), (l, h.make_unknown_atom.of((I::span_at(toks, q), vx_token(toks[q]))))))));
        }
    }
    pub proof fn lemma_consumes(&self, toks: Seq<I::Token>, p: int)
        requires self.usable(), 0 <= p <= toks.len()
        ensures self.fx(toks, p) matches Some((i, op, to)) ==> p < to <= toks.len(), self.fpre(toks, p) matches Some((i, op, to)) ==> p < to <= toks.len(),
            self.fpost(toks, p) matches Some((i, op, to)) ==> p < to <= toks.len(), self.atom_at(toks, p) matches Some((v, to)) ==> p < to <= toks.len()
    {
        lemma_first_consumes::<I, Op, E, InfixParser, OpParser<InfixParser, InfixBuilder>>(self.symbols.infix_ops@, toks, p);
        lemma_first_consumes::<I, Op, E, PrefixParser, OpParser<PrefixParser, PrefixBuilder>>(self.symbols.prefix_ops@, toks, p);
        lemma_first_consumes::<I, Op, E, PostfixParser, OpParser<PostfixParser, PostfixBuilder>>(self.symbols.postfix_ops@, toks, p);
    }
    /// the tree read so far, which the next operator may take as its left operand
    pub open spec fn so_far(&self, e: EndingParser, toks: Seq<I::Token>, t: Tree<O, Op>, p: int, q: int, min: (u16, Strength), o: O) -> bool {
        self.parsed(e, toks, t, p, q, min, o) && (self.pull(toks, q) matches Some(s) ==> self.holds(t, s))
    }
    /// there is nothing more to read
    pub open spec fn stopped(&self, e: EndingParser, toks: Seq<I::Token>, q: int) -> bool { self.ended(e, toks, q) && !self.operand(toks, q) && !self.operator(toks, q) }
    pub open spec fn outcome(&self, e: EndingParser, toks: Seq<I::Token>, t: Tree<O, Op>, p: int, q: int, min: (u16, Strength), r: PrattParseResult<O>) -> bool {
        match r {
            PrattParseResult::Expression(o) => self.parsed(e, toks, t, p, q, min, o) && (self.stopped(e, toks, q) || (self.pull(toks, q) matches Some(s) && below(s, min) && self.holds(t, s))),
            PrattParseResult::End(o) => self.parsed(e, toks, t, p, q, min, o) && self.stopped(e, toks, q),
        }
    }
    #[verifier::opaque]
    pub open spec fn started(&self, e: EndingParser, toks: Seq<I::Token>, p: int, q: int, min: (u16, Strength), o: O) -> bool { exists|t: Tree<O, Op>| self.so_far(e, toks, t, p, q, min, o) }
    #[verifier::opaque]
    pub open spec fn done(&self, e: EndingParser, toks: Seq<I::Token>, p: int, q: int, min: (u16, Strength), r: PrattParseResult<O>) -> bool { exists|t: Tree<O, Op>| self.outcome(e, toks, t, p, q, min, r) }
    #[verifier::opaque]
    pub open spec fn unknown_upto(&self, e: EndingParser, toks: Seq<I::Token>, p: int, q: int, o: O) -> bool { exists|t: Tree<O, Op>| self.skipped(e, toks, t, p, q, o) }
    /// what follows from having read `l` from p to q
    pub open spec fn next(&self, e: EndingParser, toks: Seq<I::Token>, p: int, q: int, min: (u16, Strength), l: O) -> bool {
        let h = self.error_handler;
        (q == toks.len() ==> !self.operand(toks, q) && !self.operator(toks, q)) && (match self.fx(toks, q) {
            Some((i, op, to)) => q < to <= toks.len() && if below(self.lbp(i), min) { self.done(e, toks, p, q, min, PrattParseResult::Expression(l)) } else {
                forall|y: int, b: (u16, Strength), x: int, r: PrattParseResult<O>| #[trigger] self.done(e, toks, y, x, b, r) && y == to && b == self.rbp(i) ==> match r {
                    PrattParseResult::Expression(o) => self.started(e, toks, p, x, min, self.symbols.infix_ops@[i].build.built(op, l, o)),
                    PrattParseResult::End(o) => self.done(e, toks, p, x, min, PrattParseResult::End(self.symbols.infix_ops@[i].build.built(op, l, o))) } },
            None => match self.fpost(toks, q) {
                Some((i, op, to)) => q < to <= toks.len() && if below(self.postbp(i), min) { self.done(e, toks, p, q, min, PrattParseResult::Expression(l)) } else { self.started(e, toks, p, to, min, self.symbols.postfix_ops@[i].build.built(op, l)) },
                None => if self.operand(toks, q) {
                    if below(sp_left(self.mis()), min) { self.done(e, toks, p, q, min, PrattParseResult::Expression(l)) } else {
                        forall|y: int, b: (u16, Strength), x: int, r: PrattParseResult<O>| #[trigger] self.done(e, toks, y, x, b, r) && y == q && b == sp_right(self.mis()) ==> match r {
                            PrattParseResult::Expression(o) => self.started(e, toks, p, x, min, h.make_missing_operator.of((I::span_at(toks, q), (l, o)))),
                            PrattParseResult::End(o) => self.done(e, toks, p, x, min, PrattParseResult::End(h.make_missing_operator.of((I::span_at(toks, q), (l, o))))) } }
                } else if self.ended(e, toks, q) { self.done(e, toks, p, q, min, PrattParseResult::End(l)) }
                else { forall|y: int, x: int, o: O| #[trigger] self.unknown_upto(e, toks, y, x, o) && y == q ==> self.started(e, toks, p, x, min, h.make_missing_operator.of((I::span_at(toks, q), (l, o)))) },
            },
        })
    }
    /// how reading can start at p
    pub open spec fn first_step(&self, e: EndingParser, toks: Seq<I::Token>, p: int, min: (u16, Strength)) -> bool {
        let h = self.error_handler;
        match self.fpre(toks, p) {
            Some((i, op, to)) => p < to <= toks.len() && forall|y: int, b: (u16, Strength), x: int, r: PrattParseResult<O>| #[trigger] self.done(e, toks, y, x, b, r) && y == to && b == self.prebp(i) ==> match r {
                    PrattParseResult::Expression(o) => self.started(e, toks, p, x, min, self.symbols.prefix_ops@[i].build.built(op, o)),
                    PrattParseResult::End(o) => self.done(e, toks, p, x, min, PrattParseResult::End(self.symbols.prefix_ops@[i].build.built(op, o))) },
            None => match self.atom_at(toks, p) {
                Some((v, to)) => p < to <= toks.len() && self.started(e, toks, p, to, min, v),
                None => if self.operator(toks, p) { self.started(e, toks, p, p, min, h.make_missing_atom.of((I::span_at(toks, p),))) }
                    else if self.ended(e, toks, p) { self.done(e, toks, p, p, min, PrattParseResult::End(h.make_missing_atom.of((I::span_at(toks, p),)))) }
                    else { forall|y: int, x: int, o: O| #[trigger] self.unknown_upto(e, toks, y, x, o) && y == p ==> self.started(e, toks, p, x, min, o) },
            },
        }
    }
    pub proof fn lemma_junk(&self, t: Tree<O, Op>, m: (u16, Strength))
        requires junk(t)
        ensures self.holds(t, m), self.binds(t, m)
        decreases t
    { match t { Tree::Junk { left, at, right } => { self.lemma_junk(*left, m); assert(self.binds(*right, m)); } _ => {} } }
    pub proof fn lemma_first_step(&self, e: EndingParser, toks: Seq<I::Token>, p: int, min: (u16, Strength))
        requires self.usable(), 0 <= p <= toks.len()
        ensures self.first_step(e, toks, p, min)
    {
        reveal(PrattParser::started); reveal(PrattParser::done); reveal(PrattParser::unknown_upto);
        self.lemma_consumes(toks, p);
        let h = self.error_handler;
        match self.fpre(toks, p) {
            Some((i, op, to)) => {
                assert forall|y: int, b: (u16, Strength), x: int, r: PrattParseResult<O>| #[trigger] self.done(e, toks, y, x, b, r) && y == to && b == self.prebp(i) implies match r {
                    PrattParseResult::Expression(o) => self.started(e, toks, p, x, min, self.symbols.prefix_ops@[i].build.built(op, o)),
                    PrattParseResult::End(o) => self.done(e, toks, p, x, min, PrattParseResult::End(self.symbols.prefix_ops@[i].build.built(op, o))) } by {
                    let t = choose|t: Tree<O, Op>| self.outcome(e, toks, t, to, x, self.prebp(i), r);
                    let n = Tree::Prefix { i, at: p, to, op, right: Box::new(t) };
                    match r { PrattParseResult::Expression(o) => { assert(self.so_far(e, toks, n, p, x, min, self.symbols.prefix_ops@[i].build.built(op, o))); }
                        PrattParseResult::End(o) => { assert(self.outcome(e, toks, n, p, x, min, PrattParseResult::End(self.symbols.prefix_ops@[i].build.built(op, o)))); } }
                }
            }
            None => match self.atom_at(toks, p) {
                Some((v, to)) => { let n: Tree<O, Op> = Tree::Atom { at: p, to, value: v }; assert(self.so_far(e, toks, n, p, to, min, v)); }
                None => if self.operator(toks, p) { let n: Tree<O, Op> = Tree::Hole { at: p }; assert(self.so_far(e, toks, n, p, p, min, h.make_missing_atom.of((I::span_at(toks, p),)))); }
                    else if self.ended(e, toks, p) { let n: Tree<O, Op> = Tree::Hole { at: p }; assert(self.outcome(e, toks, n, p, p, min, PrattParseResult::End(h.make_missing_atom.of((I::span_at(toks, p),))))); }
                    else { assert forall|y: int, x: int, o: O| #[trigger] self.unknown_upto(e, toks, y, x, o) && y == p implies self.started(e, toks, p, x, min, o) by {
                        let t = choose|t: Tree<O, Op>| self.skipped(e, toks, t, p, x, o); self.lemma_junk(t, min); self.lemma_unknown_held(t);
                        assert(self.so_far(e, toks, t, p, x, min, o));
                    } },
            },
        }
    }
    pub proof fn lemma_unknown_held(&self, t: Tree<O, Op>)
        requires junk(t)
        ensures forall|s: (u16, Strength)| self.holds(t, s)
    { assert forall|s: (u16, Strength)| self.holds(t, s) by { self.lemma_junk(t, s); } }
    pub proof fn lemma_next(&self, e: EndingParser, toks: Seq<I::Token>, p: int, q: int, min: (u16, Strength), l: O)
        requires self.usable(), self.started(e, toks, p, q, min, l)
        ensures self.next(e, toks, p, q, min, l)
    {
        reveal(PrattParser::started); reveal(PrattParser::done); reveal(PrattParser::unknown_upto);
        let h = self.error_handler;
        let tl = choose|t: Tree<O, Op>| self.so_far(e, toks, t, p, q, min, l);
        self.lemma_consumes(toks, q);
        match self.fx(toks, q) {
            Some((i, op, to)) => if below(self.lbp(i), min) { assert(self.outcome(e, toks, tl, p, q, min, PrattParseResult::Expression(l))); } else {
                assert forall|y: int, b: (u16, Strength), x: int, r: PrattParseResult<O>| #[trigger] self.done(e, toks, y, x, b, r) && y == to && b == self.rbp(i) implies match r {
                    PrattParseResult::Expression(o) => self.started(e, toks, p, x, min, self.symbols.infix_ops@[i].build.built(op, l, o)),
                    PrattParseResult::End(o) => self.done(e, toks, p, x, min, PrattParseResult::End(self.symbols.infix_ops@[i].build.built(op, l, o))) } by {
                    let t = choose|t: Tree<O, Op>| self.outcome(e, toks, t, to, x, self.rbp(i), r);
                    let n = Tree::Infix { left: Box::new(tl), i, at: q, to, op, right: Box::new(t) };
                    match r { PrattParseResult::Expression(o) => { assert(self.so_far(e, toks, n, p, x, min, self.symbols.infix_ops@[i].build.built(op, l, o))); }
                        PrattParseResult::End(o) => { assert(self.outcome(e, toks, n, p, x, min, PrattParseResult::End(self.symbols.infix_ops@[i].build.built(op, l, o)))); } }
                }
            },
            None => match self.fpost(toks, q) {
                Some((i, op, to)) => if below(self.postbp(i), min) { assert(self.outcome(e, toks, tl, p, q, min, PrattParseResult::Expression(l))); } else {
                    let n = Tree::Postfix { left: Box::new(tl), i, at: q, to, op };
                    assert(self.so_far(e, toks, n, p, to, min, self.symbols.postfix_ops@[i].build.built(op, l))); },
                None => if self.operand(toks, q) {
                    if below(sp_left(self.mis()), min) { assert(self.outcome(e, toks, tl, p, q, min, PrattParseResult::Expression(l))); } else {
                        assert forall|y: int, b: (u16, Strength), x: int, r: PrattParseResult<O>| #[trigger] self.done(e, toks, y, x, b, r) && y == q && b == sp_right(self.mis()) implies match r {
                            PrattParseResult::Expression(o) => self.started(e, toks, p, x, min, h.make_missing_operator.of((I::span_at(toks, q), (l, o)))),
                            PrattParseResult::End(o) => self.done(e, toks, p, x, min, PrattParseResult::End(h.make_missing_operator.of((I::span_at(toks, q), (l, o))))) } by {
                            let t = choose|t: Tree<O, Op>| self.outcome(e, toks, t, q, x, sp_right(self.mis()), r);
                            let n = Tree::Missing { left: Box::new(tl), at: q, right: Box::new(t) };
                            match r { PrattParseResult::Expression(o) => { assert(self.so_far(e, toks, n, p, x, min, h.make_missing_operator.of((I::span_at(toks, q), (l, o))))); }
                                PrattParseResult::End(o) => { assert(self.outcome(e, toks, n, p, x, min, PrattParseResult::End(h.make_missing_operator.of((I::span_at(toks, q), (l, o)))))); } }
                        }
                    }
                } else if self.ended(e, toks, q) { assert(self.outcome(e, toks, tl, p, q, min, PrattParseResult::End(l))); }
                else { assert forall|y: int, x: int, o: O| #[trigger] self.unknown_upto(e, toks, y, x, o) && y == q implies self.started(e, toks, p, x, min, h.make_missing_operator.of((I::span_at(toks, q), (l, o)))) by {
                    let t = choose|t: Tree<O, Op>| self.skipped(e, toks, t, q, x, o); self.lemma_junk(t, min);
                    let n = Tree::Junk { left: Box::new(tl), at: q, right: Box::new(t) };
                    assert(self.so_far(e, toks, n, p, x, min, h.make_missing_operator.of((I::span_at(toks, q), (l, o)))));
                } },
            },
        }
    }
    pub proof fn lemma_steps(&self, e: EndingParser, toks: Seq<I::Token>, p: int, min: (u16, Strength))
        requires self.usable(), 0 <= p <= toks.len()
        ensures self.first_step(e, toks, p, min), forall|q: int, l: O| #[trigger] self.started(e, toks, p, q, min, l) ==> self.next(e, toks, p, q, min, l),
            // at the end it does not matter whether the end is reported right away
            forall|y: int, x: int, b: (u16, Strength), o: O| #[trigger] self.done(e, toks, y, x, b, PrattParseResult::End(o)) ==> self.done(e, toks, y, x, b, PrattParseResult::Expression(o)) && self.started(e, toks, y, x, b, o),
    {
        assert forall|y: int, x: int, b: (u16, Strength), o: O| #[trigger] self.done(e, toks, y, x, b, PrattParseResult::End(o)) implies self.done(e, toks, y, x, b, PrattParseResult::Expression(o)) && self.started(e, toks, y, x, b, o) by {
            reveal(PrattParser::done); reveal(PrattParser::started);
            let t = choose|t: Tree<O, Op>| self.outcome(e, toks, t, y, x, b, PrattParseResult::End(o));
            assert(self.outcome(e, toks, t, y, x, b, PrattParseResult::Expression(o)));
            assert(self.so_far(e, toks, t, y, x, b, o));
        }
        self.lemma_first_step(e, toks, p, min);
        assert forall|q: int, l: O| #[trigger] self.started(e, toks, p, q, min, l) implies self.next(e, toks, p, q, min, l) by { self.lemma_next(e, toks, p, q, min, l); }
    }
    /// C20: with the weakest outer power, the whole input up to its end (or a token that ends the expression) is read, each element once and in order,
    /// by a tree in which operators bind by their declared powers, and the result is what the builders make of this tree
    pub proof fn c20_whole(&self, e: EndingParser, toks: Seq<I::Token>, p: int, q: int, r: PrattParseResult<O>)
        requires self.done(e, toks, p, q, (0, Strength::Weak), r)
        ensures self.stopped(e, toks, q)
            && exists|t: Tree<O, Op>| #[trigger] self.parsed(e, toks, t, p, q, (0, Strength::Weak), result_of(r))
    {
        reveal(PrattParser::done);
        let t = choose|t: Tree<O, Op>| self.outcome(e, toks, t, p, q, (0, Strength::Weak), r);
        assert(self.outcome(e, toks, t, p, q, (0, Strength::Weak), r));
        assert(self.parsed(e, toks, t, p, q, (0, Strength::Weak), result_of(r)));
    }
    /// C20: in such a tree, an operand of an infix operator is never held by an operator of lower power, on either side
    pub proof fn c20_precedence(&self, t: Tree<O, Op>, min: (u16, Strength))
        requires self.binds(t, min)
        ensures
            t matches Tree::Infix { left, i, at, to, op, right } ==> {
                &&& *right matches Tree::Infix { left: l2, i: j, at: a2, to: t2, op: o2, right: r2 } ==> self.lbp(j).0 >= self.lbp(i).0
                &&& *left matches Tree::Infix { left: l2, i: j, at: a2, to: t2, op: o2, right: r2 } ==> self.lbp(j).0 >= self.lbp(i).0
                &&& *left matches Tree::Prefix { i: j, at: a2, to: t2, op: o2, right: r2 } ==> self.prebp(j).0 >= self.lbp(i).0
                &&& *right matches Tree::Postfix { left: l2, i: j, at: a2, to: t2, op: o2 } ==> self.postbp(j).0 >= self.lbp(i).0
            },
            t matches Tree::Prefix { i, at, to, op, right } ==> {
                &&& *right matches Tree::Infix { left: l2, i: j, at: a2, to: t2, op: o2, right: r2 } ==> self.lbp(j).0 >= self.prebp(i).0
                &&& *right matches Tree::Postfix { left: l2, i: j, at: a2, to: t2, op: o2 } ==> self.postbp(j).0 >= self.prebp(i).0
            },
            t matches Tree::Postfix { left, i, at, to, op } ==> {
                &&& *left matches Tree::Infix { left: l2, i: j, at: a2, to: t2, op: o2, right: r2 } ==> self.lbp(j).0 >= self.postbp(i).0
                &&& *left matches Tree::Prefix { i: j, at: a2, to: t2, op: o2, right: r2 } ==> self.prebp(j).0 >= self.postbp(i).0
            },
    {
        match t {
            Tree::Infix { left, i, at, to, op, right } => { assert(self.binds(*right, self.rbp(i))); assert(self.binds(*left, min)); assert(self.holds(*left, self.lbp(i))); }
            Tree::Prefix { i, at, to, op, right } => { assert(self.binds(*right, self.prebp(i))); }
            Tree::Postfix { left, i, at, to, op } => { assert(self.holds(*left, self.postbp(i))); }
            _ => {}
        }
    }
    /// C20: equal powers: `a + b + c` is `(a + b) + c` for a left associative operator
    pub proof fn c20_left_assoc(&self, t: Tree<O, Op>, min: (u16, Strength), v: u16)
        requires self.binds(t, min)
        ensures t matches Tree::Infix { left, i, at, to, op, right } ==> (*right matches Tree::Infix { left: l2, i: j, at: a2, to: t2, op: o2, right: r2 }
            ==> !(self.symbols.infix_ops@[i].binding_power == BindingPower::LeftInfix(v) && self.symbols.infix_ops@[j].binding_power == BindingPower::LeftInfix(v)))
    {
        match t {
            Tree::Infix { left, i, at, to, op, right } => { assert(self.binds(*right, self.rbp(i))); assert(self.binds(*left, min)); assert(self.holds(*left, self.lbp(i))); }
            Tree::Prefix { i, at, to, op, right } => { assert(self.binds(*right, self.prebp(i))); }
            Tree::Postfix { left, i, at, to, op } => { assert(self.holds(*left, self.postbp(i))); }
            _ => {}
        }
    }
    /// C20: and `a ^ b ^ c` is `a ^ (b ^ c)` for a right associative one
    pub proof fn c20_right_assoc(&self, t: Tree<O, Op>, min: (u16, Strength), v: u16)
        requires self.binds(t, min)
        ensures t matches Tree::Infix { left, i, at, to, op, right } ==> (*left matches Tree::Infix { left: l2, i: j, at: a2, to: t2, op: o2, right: r2 }
            ==> !(self.symbols.infix_ops@[i].binding_power == BindingPower::RightInfix(v) && self.symbols.infix_ops@[j].binding_power == BindingPower::RightInfix(v)))
    {
        match t {
            Tree::Infix { left, i, at, to, op, right } => { assert(self.binds(*right, self.rbp(i))); assert(self.binds(*left, min)); assert(self.holds(*left, self.lbp(i))); }
            Tree::Prefix { i, at, to, op, right } => { assert(self.binds(*right, self.prebp(i))); }
            Tree::Postfix { left, i, at, to, op } => { assert(self.holds(*left, self.postbp(i))); }
            _ => {}
        }
    }
}
impl<T> RcOrWeak<T> {
    pub open spec fn it(&self) -> T { match *self { RcOrWeak::Owned(v) => *v, RcOrWeak::Weak(w) => vx_target(w) } }
}
%end

%derived PartialEq Strength
*self == *other
%derived PartialEq BindingPower
*self == *other
%trait InfixBuilder
    spec fn built(&self, op: Op, l: O, r: O) -> O;
%end
%fn InfixBuilder::build(self, op, children) -> r
%ensures
    r == self.built(op, children.0, children.1)
%end
%trait PrefixBuilder
    spec fn built(&self, op: Op, r: O) -> O;
%end
%fn PrefixBuilder::build(self, op, right) -> r
%ensures
    r == self.built(op, right)
%end
%trait PostfixBuilder
    spec fn built(&self, op: Op, l: O) -> O;
%end
%fn PostfixBuilder::build(self, op, left) -> r
%ensures
    r == self.built(op, left)
%end
%trait HasParser
    spec fn sp_parser(&self) -> P;
%end
%fn HasParser::parser(self) -> r
%ensures
    *r == self.sp_parser()
%end
%impl <OpParser as HasParser<P>>
    open spec fn sp_parser(&self) -> P { self.parser }
%end
%fn <OpParser as HasParser<P>>::parser(self)
%end
%fn left_infix(parser, strength, build) -> r
%ensures
    r == (OpParser { binding_power: BindingPower::LeftInfix(strength), parser, build })
%end
%fn right_infix(parser, strength, build) -> r
%ensures
    r == (OpParser { binding_power: BindingPower::RightInfix(strength), parser, build })
%end
%fn prefix(parser, strength, build) -> r
%ensures
    r == (OpParser { binding_power: BindingPower::Prefix(strength), parser, build })
%end
%fn postfix(parser, strength, build) -> r
%ensures
    r == (OpParser { binding_power: BindingPower::Postfix(strength), parser, build })
%end
%fn PrattSymbolParsers::new(atom, infix_ops, prefix_ops, postfix_ops) -> r
%ensures
    r.atom == atom, r.infix_ops == infix_ops, r.prefix_ops == prefix_ops, r.postfix_ops == postfix_ops
%end
%fn PrattParser::new(atom, infix_ops, prefix_ops, postfix_ops, error_handler) -> r
%ensures
    r.symbols.atom == atom, r.symbols.infix_ops == infix_ops, r.symbols.prefix_ops == prefix_ops, r.symbols.postfix_ops == postfix_ops,
    r.error_handler == error_handler
%end
%fn Strength::invert(self) -> r
%ensures
    r == flip(self)
%end
%fn BindingPower::strength_left(self) -> r
%ensures
    r == sp_left(*self)
%end
%fn BindingPower::strength_right(self) -> r
%ensures
    r == sp_right(*self)
%end
%trait InputRefExt
    spec fn sp_toks(&self) -> Seq<I::Token>;
    spec fn sp_pos(&self) -> int;
%end
%fn InputRefExt::input_position(self) -> r
%ensures
    r == I::span_at(self.sp_toks(), self.sp_pos())
%end
%fn InputRefExt::is_at_end(self) -> r
%requires
    0 <= self.sp_pos() <= self.sp_toks().len()
%ensures
    r <==> self.sp_pos() == self.sp_toks().len()
%end
%fn InputRefExt::parse_safe(self, parser) -> r
%requires
    0 <= old(self).sp_pos() <= old(self).sp_toks().len()
%ensures
    final(self).sp_toks() == old(self).sp_toks(),
    r is Ok <==> parser.parses(old(self).sp_toks(), old(self).sp_pos()) is Some,
    r is Ok ==> parser.parses(old(self).sp_toks(), old(self).sp_pos()) == Some((r->Ok_0, final(self).sp_pos())),
    r is Err ==> final(self).sp_pos() == old(self).sp_pos(),
%end
%fn InputRefExt::parse_iter(self, parsers) -> r
%requires
    0 <= old(self).sp_pos() <= old(self).sp_toks().len()
%ensures
    final(self).sp_toks() == old(self).sp_toks(), r is None ==> final(self).sp_pos() == old(self).sp_pos(),
    match first::<I, O, E, P, HasP>(parsers@, old(self).sp_toks(), old(self).sp_pos()) {
        None => r is None,
        Some((i, v, e)) => r == Some((v, &parsers@[i])) && final(self).sp_pos() == e && 0 <= i < parsers@.len(),
    },
%end
%fn InputRefExt::can_parse(self, parser) -> r
%requires
    0 <= old(self).sp_pos() <= old(self).sp_toks().len()
%ensures
    final(self).sp_toks() == old(self).sp_toks(), final(self).sp_pos() == old(self).sp_pos(),
    r <==> parser.parses(old(self).sp_toks(), old(self).sp_pos()) is Some,
%end
%fn InputRefExt::can_parse_iter(self, parsers) -> r
%requires
    0 <= old(self).sp_pos() <= old(self).sp_toks().len()
%ensures
    final(self).sp_toks() == old(self).sp_toks(), final(self).sp_pos() == old(self).sp_pos(),
    r <==> first::<I, O, E, P, HasP>(parsers@, old(self).sp_toks(), old(self).sp_pos()) is Some,
%end
%impl <InputRef as InputRefExt<I,E>>
    open spec fn sp_toks(&self) -> Seq<I::Token> { self.toks() }
    open spec fn sp_pos(&self) -> int { self.pos() }
%end
%fn <InputRef as InputRefExt<I,E>>::input_position(self)
%end
%fn <InputRef as InputRefExt<I,E>>::is_at_end(self)
%end
%fn <InputRef as InputRefExt<I,E>>::parse_safe(self, parser)
%end
%fn <InputRef as InputRefExt<I,E>>::can_parse(self, parser)
%end
%fn <InputRef as InputRefExt<I,E>>::parse_iter(self, parsers)
%attr
#[verifier::loop_isolation(false)]
%start
    proof { lemma_first::<I, O, E, P, HasP>(parsers@, self.toks(), self.pos()); }
%loops 1
%loop 0 it
    invariant
        self.toks() == old(self).toks(), self.pos() == old(self).pos(), it.seq().len() == parsers@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == parsers@[i],
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] parsers@[i]).sp_parser().parses(old(self).toks(), old(self).pos()) is None,
%end
%fn <InputRef as InputRefExt<I,E>>::can_parse_iter(self, parsers)
%attr
#[verifier::loop_isolation(false)]
%start
    proof { lemma_first::<I, O, E, P, HasP>(parsers@, self.toks(), self.pos()); }
%loops 1
%loop 0 it
    invariant
        self.toks() == old(self).toks(), self.pos() == old(self).pos(), it.seq().len() == parsers@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == parsers@[i],
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] parsers@[i]).sp_parser().parses(old(self).toks(), old(self).pos()) is None,
%end
%fn PrattParser::is_at_end(self, inp, ending_parser) -> r
%requires
    old(inp).valid()
%ensures
    final(inp).toks() == old(inp).toks(), final(inp).pos() == old(inp).pos(), r == self.ended(*ending_parser, old(inp).toks(), old(inp).pos())
%end
%fn PrattParser::parse_unknown(self, inp, ending_parser) -> r
%requires
    old(inp).valid(), self.unreadable(*ending_parser, old(inp).toks(), old(inp).pos()),
%ensures
    final(inp).toks() == old(inp).toks(), old(inp).pos() < final(inp).pos() <= old(inp).toks().len(),
    !self.unreadable(*ending_parser, old(inp).toks(), final(inp).pos()),
    self.unknown_upto(*ending_parser, old(inp).toks(), old(inp).pos(), final(inp).pos(), r),
%attr
#[verifier::loop_isolation(false)]
%start
    let ghost vx_toks = inp.toks(); let ghost vx_p0 = inp.pos();
    proof { self.lemma_unknown(*ending_parser, vx_toks, vx_p0); }
%local unknown_atom 2
%loops 1
%loop 0
    invariant
        inp.toks() == vx_toks, vx_p0 < inp.pos() <= vx_toks.len(), self.unknown_upto(*ending_parser, vx_toks, vx_p0, inp.pos(), unknown_atom),
    decreases vx_toks.len() - inp.pos()
%end
%fn PrattParser::pratt_parse(self, inp, min_binding_power, ending_parser) -> r
%requires
    old(inp).valid(), self.usable(),
%ensures
    final(inp).toks() == old(inp).toks(), old(inp).pos() <= final(inp).pos() <= old(inp).toks().len(),
    self.done(*ending_parser, old(inp).toks(), old(inp).pos(), final(inp).pos(), min_binding_power, r),
    self.operand(old(inp).toks(), old(inp).pos()) ==> old(inp).pos() < final(inp).pos(),
%decreases
    old(inp).toks().len() - old(inp).pos()
%attr
#[verifier::loop_isolation(false)]
%start
    let ghost vx_toks = inp.toks(); let ghost vx_p0 = inp.pos();
    proof { self.lemma_steps(*ending_parser, vx_toks, vx_p0, min_binding_power); }
%local left 0
%loops 1
%loop 0
    invariant
        inp.toks() == vx_toks, vx_p0 <= inp.pos() <= vx_toks.len(), self.started(*ending_parser, vx_toks, vx_p0, inp.pos(), min_binding_power, left),
        inp.pos() > vx_p0 || self.operator(vx_toks, vx_p0) && !self.operand(vx_toks, vx_p0),
    decreases vx_toks.len() - inp.pos()
%end
%fn RcOrWeak::inner(self) -> r
%ensures
    *r == self.it()
%end
%fn call_pratt_parser(parser_internal, min_binding_power, ending_parser) -> r
%ensures
    r.0.internal == parser_internal, r.0.min_binding_power == min_binding_power, r.0.ending_parser == ending_parser
%end
%fn pratt_parse_recursive(ending_parser, f) -> r
%ensures
    r.0.min_binding_power == (0u16, Strength::Weak), r.0.ending_parser == ending_parser
%end
%impl <PrattParserCaller_ as ExtParser<I,O,E>>
    open spec fn vx_ready(&self) -> bool { self.internal.it().usable() }
    open spec fn vx_reads(&self, toks: Seq<I::Token>, p: int, q: int, r: Result<O, E::Error>) -> bool {
        r matches Ok(v) && (self.internal.it().done(self.ending_parser, toks, p, q, self.min_binding_power, PrattParseResult::Expression(v))
            || self.internal.it().done(self.ending_parser, toks, p, q, self.min_binding_power, PrattParseResult::End(v)))
    }
%end
%fn <PrattParserCaller_ as ExtParser<I,O,E>>::parse(self, inp)
%end
