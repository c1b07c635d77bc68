%% What the parser crate's woven modules refer to and what is not woven: opaque types.
%prelude
pub fn input_nodes() { }
pub mod chumsky {
pub mod cache {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cache<T> { inner: core::marker::PhantomData<T> }
}
}
}
%end
%spec parser
pub mod math_parser { use vstd::prelude::*; verus! { #[verifier::external_body] pub struct CachedMathParser { x: u8 } } }
pub mod parse_module { use vstd::prelude::*; verus! { #[verifier::external_body] pub struct ParseRule { x: u8 } pub trait ParseModule { } } }
pub mod parser_debug_error { use vstd::prelude::*; verus! { #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct ParserDebugError<T> { x: core::marker::PhantomData<T> } } }
%end
%spec parser::parser
/// the interface between the parser of operators and what builds the nodes (pratt_parser.rs itself: see pratt/51_pratt.vc)
pub mod pratt_parser {
use vstd::prelude::*;
verus! {
pub trait InfixBuilder<Op, O> { fn build(&self, op: Op, children: (O, O)) -> O; }
pub trait PrefixBuilder<Op, O> { fn build(&self, op: Op, right: O) -> O; }
pub trait PostfixBuilder<Op, O> { fn build(&self, op: Op, left: O) -> O; }
pub struct Strength { }
pub struct PrattParser { }
pub struct PrattSymbolParsers { }
pub struct RcOrWeak { }
pub fn call_pratt_parser() { }
}
}
%drop ParserInput
%drop BasicParserExtra
%drop TokenParser
%drop <T as TokenParser>
%drop BoxedTokenParser
%drop BoxedNodeParser
%drop BoxedNothingParser
%drop PrattParserType
%drop RcPrattParserType
%drop BuiltInRules::new
%drop BuiltInRules::rule_name
%drop BuiltInRules::error_rule_name
%drop BuiltInRules::make_container_parser
%drop BuiltInRules::make_rules
%drop BuiltInRules::get_autocomplete_rules
%drop <BuiltInRules as ParseModule>
%spec parser::rule_collection
/// (only its name is imported elsewhere)
pub struct BoxedNodeParser { }
%end
%spec parser::syntax_tree
/// identifiers (node_identifier.rs) are not looked into
#[verifier::external_body]
pub struct PathIdentifier { x: u8 }
#[verifier::external]
impl Clone for PathIdentifier { fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external]
impl PartialEq for PathIdentifier { fn eq(&self, _o: &Self) -> bool { unimplemented!() } }
#[verifier::external]
impl Eq for PathIdentifier { }
#[verifier::external]
impl core::hash::Hash for PathIdentifier { fn hash<H: core::hash::Hasher>(&self, _h: &mut H) { } }
pub assume_specification [<PathIdentifier as Clone>::clone] (a: &PathIdentifier) -> (r: PathIdentifier)
    ensures r == *a;
/// Eq and Hash of identifiers and of ids are derived: equal keys are the same key and have the same hash
pub broadcast axiom fn axiom_path_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<PathIdentifier>();
%end
%drop AutocompleteRule::new
%fn MathParser::new(parse_modules) -> r
%trusted
%fn MathParser::parse(self, input) -> r
%ensures
    r == crate::math_editor::parsed_of(*self, input@),
%trusted
%end
