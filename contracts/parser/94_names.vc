%% parser/src/syntax_tree/node_type_id.rs: names of syntax nodes and their ids (C25)
%spec parser::syntax_tree::node_type_id
#[verifier::external]
impl core::hash::Hash for SyntaxNodeNameId { fn hash<H: core::hash::Hasher>(&self, _h: &mut H) { } }
pub broadcast axiom fn axiom_id_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<SyntaxNodeNameId>();
impl SyntaxNodeNameMap {
    /// the ids given out so far
    pub open spec fn ids(&self) -> Map<PathIdentifier, SyntaxNodeNameId> { self.values@ }
    pub open spec fn names(&self) -> Map<SyntaxNodeNameId, PathIdentifier> { self.reverse_values@ }
    pub open spec fn wf(&self) -> bool {
        &&& forall|k: PathIdentifier| #![trigger self.ids().contains_key(k)] #![trigger self.ids()[k]] self.ids().contains_key(k) ==> self.names().contains_key(self.ids()[k]) && self.names()[self.ids()[k]] == k && self.ids()[k].0 < self.ids().len()
        &&& forall|i: SyntaxNodeNameId| #![trigger self.names().contains_key(i)] #![trigger self.names()[i]] self.names().contains_key(i) ==> self.ids().contains_key(self.names()[i]) && self.ids()[self.names()[i]] == i
    }
}
/// a name that is not there yet gets the next id
pub broadcast proof fn lemma_named(a: SyntaxNodeNameMap, b: SyntaxNodeNameMap, p: PathIdentifier, id: SyntaxNodeNameId)
    requires
        a.wf(), !a.ids().contains_key(p), id.0 == a.ids().len(),
        b.values@ == #[trigger] a.values@.insert(p, id), b.reverse_values@ == #[trigger] a.reverse_values@.insert(id, p),
        b.ids().len() == a.ids().len() + 1,
    ensures #[trigger] b.wf(),
{
    assert(!a.names().contains_key(id));
    assert(forall|k: PathIdentifier| b.ids().contains_key(k) ==> b.names().contains_key(b.ids()[k]) && b.names()[b.ids()[k]] == k);
    assert(forall|i: SyntaxNodeNameId| b.names().contains_key(i) ==> b.ids().contains_key(b.names()[i]) && b.ids()[b.names()[i]] == i);
}
/// C25: two names never have the same id
pub proof fn c25_one_to_one(m: SyntaxNodeNameMap, a: PathIdentifier, b: PathIdentifier)
    requires m.wf(), m.ids().contains_key(a), m.ids().contains_key(b), m.ids()[a] == m.ids()[b],
    ensures a == b,
{ }
%fn SyntaxNodeNameMap::new() -> r
%ensures
    r.wf(), r.ids() == Map::<PathIdentifier, SyntaxNodeNameId>::empty(),
%start
    broadcast use {crate::parser::syntax_tree::axiom_path_key, axiom_id_key, vstd::std_specs::hash::group_hash_axioms};
%fn <SyntaxNodeNameMap as Default>::default() -> r
%ensures
    r.wf(), r.ids() == Map::<PathIdentifier, SyntaxNodeNameId>::empty(),
%fn SyntaxNodeNameId::new(id) -> r
%ensures
    r.0 == id,
%fn SyntaxNodeNameMap::add(self, path) -> r
%requires
    old(self).wf(), old(self).ids().len() < u32::MAX,
%ensures
    final(self).wf(), final(self).ids().contains_key(path), final(self).ids()[path] == r,
    final(self).ids() == (if old(self).ids().contains_key(path) { old(self).ids() } else { old(self).ids().insert(path, r) }),
%start
    broadcast use {lemma_named, crate::parser::syntax_tree::axiom_path_key, axiom_id_key, vstd::std_specs::hash::group_hash_axioms};
%fn SyntaxNodeNameMap::get(self, path) -> r
%ensures
    r == (if self.ids().contains_key(*path) { Some(self.ids()[*path]) } else { None::<SyntaxNodeNameId> }),
%start
    broadcast use {crate::parser::syntax_tree::axiom_path_key, axiom_id_key, vstd::std_specs::hash::group_hash_axioms};
%fn SyntaxNodeNameMap::get_reverse(self, id) -> r
%ensures
    r is Some <==> self.names().contains_key(id), r matches Some(p) ==> *p == self.names()[id],
    self.wf() ==> (r is Some <==> exists|k: PathIdentifier| #[trigger] self.ids().contains_key(k) && self.ids()[k] == id),
    self.wf() ==> (r matches Some(p) ==> self.ids().contains_key(*p) && self.ids()[*p] == id),
%start
    broadcast use {crate::parser::syntax_tree::axiom_path_key, axiom_id_key, vstd::std_specs::hash::group_hash_axioms};
%end
%% parser/src/parse_modules.rs: the names that the modules of rules add
%spec parser::parse_modules
impl ParseModules {
    pub open spec fn ids(&self) -> Map<PathIdentifier, SyntaxNodeNameId> { self.rule_name_map.ids() }
    pub open spec fn wf(&self) -> bool { self.rule_name_map.wf() }
}
%fn ParseModules::new() -> r
%ensures
    r.wf(), r.ids() == Map::<PathIdentifier, SyntaxNodeNameId>::empty(),
%fn <ParseModules as Default>::default() -> r
%ensures
    r.wf(), r.ids() == Map::<PathIdentifier, SyntaxNodeNameId>::empty(),
%fn ParseModules::with_rule_name(self, name) -> r
%requires
    old(self).wf(), old(self).ids().len() < u32::MAX,
%ensures
    final(self).wf(), final(self).ids().contains_key(name), final(self).ids()[name] == r,
    final(self).ids() == (if old(self).ids().contains_key(name) { old(self).ids() } else { old(self).ids().insert(name, r) }),
%fn ParseModules::get_rule_name(self, name) -> r
%requires
    self.ids().contains_key(name),
%ensures
    r == self.ids()[name],
%fn ParseModules::get_rule_name_map(self) -> r
%ensures
    *r == self.rule_name_map,
%fn ParseModuleCollection::new(built_in, modules) -> r
%ensures
    *r.built_in == *built_in, r.modules@ == modules@,
%fn ParseModuleCollection::get_modules(self) -> r
%ensures
    r@ == self.modules@,
%fn ParseModuleCollection::get_built_in(self) -> r
%ensures
    **r == *self.built_in,
%end
