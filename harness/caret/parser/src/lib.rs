#[path = "/repo/aftermath-core/parser/src/autocomplete.rs"]
pub mod autocomplete;
pub mod syntax_tree {
    #[path = "/repo/aftermath-core/parser/src/syntax_tree/display_syntax_tree.rs"]
    mod display_syntax_tree;
    #[path = "/repo/aftermath-core/parser/src/syntax_tree/node_identifier.rs"]
    mod node_identifier;
    #[path = "/repo/aftermath-core/parser/src/syntax_tree/node_type_id.rs"]
    mod node_type_id;
    #[path = "/repo/aftermath-core/parser/src/syntax_tree/syntax_node.rs"]
    mod syntax_node;
    #[path = "/repo/aftermath-core/parser/src/syntax_tree/syntax_node_builder.rs"]
    mod syntax_node_builder;
    pub use display_syntax_tree::*;
    pub use node_identifier::*;
    pub use node_type_id::*;
    pub use syntax_node::*;
    pub use syntax_node_builder::*;
}
pub mod parser {
    use crate::{autocomplete::*, syntax_tree::*};
    use input_tree::node::InputNode;
    pub struct MathParser { pub autocomplete_rules: Vec<AutocompleteRule> }
    impl MathParser {
        pub fn new(autocomplete_rules: Vec<AutocompleteRule>) -> Self { MathParser { autocomplete_rules } }
        pub fn parse(&self, input: &[InputNode]) -> SyntaxNode {
            // a tree that shows what was parsed
            let text = input.iter().map(|n| n.to_string().into()).collect();
            SyntaxNode::new(SyntaxNodeNameId::new(0), 0..input.len(), SyntaxNodeChildren::Leaf(SyntaxLeafNode::new(LeafNodeType::Symbol, text)))
        }
    }
    impl AutocompleteMatcher for MathParser {
        fn matches<'b>(&'b self, input: &[InputNode], caret_position: usize, min_rule_match_length: usize) -> Vec<AutocompleteRuleMatch<'b>> {
            let mut matches = Vec::new();
            for rule in &self.autocomplete_rules { matches.extend(rule.matches(input, caret_position, min_rule_match_length)); }
            matches
        }
    }
}
