%% parser/src/parse_module.rs: how a module declares its rules (C20)
%prelude
pub mod make_parser { use vstd::prelude::*; verus! { pub trait MakeParser { } } }
pub mod autocomplete { use vstd::prelude::*; verus! { #[verifier::external_body] pub struct AutocompleteRule { x: u8 } } }
pub mod syntax_tree { use vstd::prelude::*; verus! { #[derive(Clone, Copy)] pub struct SyntaxNodeNameId(u32); } }
%end
%drop ParseModule::boxed
%spec parse_module
%end
%fn ParseRule::rule_name(self) -> r
%ensures
    r matches Some(n) && *n == (match *self { ParseRule::NameOnly(n) => n, ParseRule::Atom(n, _) => n, ParseRule::Prefix(n, _, _) => n, ParseRule::LeftInfix(n, _, _) => n, ParseRule::RightInfix(n, _, _) => n, ParseRule::Postfix(n, _, _) => n }),
%fn name_only_rule(name) -> r
%ensures
    r == ParseRule::NameOnly(name),
%fn atom_rule(name, parser) -> r
%ensures
    r matches ParseRule::Atom(n, _) && n == name,
%fn prefix_rule(name, priority, parser) -> r
%ensures
    r matches ParseRule::Prefix(n, p, _) && n == name && p == priority,
%fn left_infix_rule(name, priority, parser) -> r
%ensures
    r matches ParseRule::LeftInfix(n, p, _) && n == name && p == priority,
%fn right_infix_rule(name, priority, parser) -> r
%ensures
    r matches ParseRule::RightInfix(n, p, _) && n == name && p == priority,
%fn postfix_rule(name, priority, parser) -> r
%ensures
    r matches ParseRule::Postfix(n, p, _) && n == name && p == priority,
%end
