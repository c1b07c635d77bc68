"""Which functions (contracts) and lemmas each property rests on.

`fns`: regular expressions over the keys of the weave report.  A failed obligation of one of these
functions, or of a lemma they use, is a failure of the property; others are not.
`lemmas`: the statements of the property itself.  `must`: functions that have to exist.
"""

ROW = [r"InputRow::.*", r"<InputRow as (From|Default).*", r"RowIndices::(new|push|pop|at|at_mut|get_slice|len|is_empty|iter|starts_with)", r"<RowIndices as Default>.*",
       r"<RowIndex as From.*", r"<Offset as From.*", r"<Option<Offset> as .*"]
GRID = [r"Grid::.*", r"<GridVec as Grid<T>>::.*", r"GridVec::.*", r"<GridVec as (Default|IntoIterator)>::.*"]
INDEX = [r"Index2D::.*", r"<\(usize,usize\) as From<Index2D>>::from"]
APPLY = [r"<InputTree as Editable>::apply_edit", r"Editable::apply_edits?", r"InputTree::new", r"<InputTree as Default>::default", r"InputNode::(row_mut|grid|grid_mut|has_resizable_grid|container_with_type|symbol)",
         r"InputNodeVariant::has_resizable_grid", r"<BasicEdit as From<.*"]
INV = [r"Invertible::inverse", r"<.* as Invertible>::inverse"]
FOCUS = [r"InputFocusRow::.*", r"InputFocusNode::.*", r"<InputFocus(Row|Node) as PartialEq>::eq"]
POS = [r"InputRowPosition::.*", r"<InputRowRange as From<&InputRowPosition>>::from"]
RANGE = [r"InputRowRange::.*"]
ORDER = [r"RowIndices::(cmp_indices_and_offset|get_shared|iter|len|at|new|get_slice|starts_with|is_empty)", r"<InputRowPosition as (Ord|PartialOrd)>::.*", r"InputRowPosition::(new|row_indices)"]

CARET = [r"Caret::.*", r"CaretSelection::.*", r"<MinimalCaret as Default>::default"]
MOVE = [r"<Direction as From<.*", r"NavigationSettings::.*", r"<NavigationSettings as Default>::default"]
REMOVE = [r"insert_at_range", r"remove_at_caret", r"move_caret", r"flatten_node", r"remove_at_caret_position"]
POPUP = [r"AutocompleteResults::.*", r"AutocorrectActionBuilder::.*", r"<AutocorrectActionBuilder as Default>::default"]
MATCHES = [r"AutocompleteMatcher::matches", r"<.* as AutocompleteMatcher>::matches", r"indices_of", r"AutocompleteRuleMatch::is_complete_match", r"AutocompleteRule::.*"]
SYNTAX = [r"SyntaxNode::.*", r"SyntaxNodeBuilder::.*", r"SyntaxLeafNode::.*", r"SyntaxNodeChildren::.*"]
HISTORY = [r"UndoRedoManager::.*", r"<UndoRedoManager as Default>::default"]

BUILDER = [r"EditorActionBuilder::.*", r"<EditorActionBuilder as Deref>::deref"]
CHANGING = [r"MathEditor::(new|move_caret|select_with_caret|remove_at_caret|insert_at_caret|insert_nodes_at_caret|select_all|undo|redo|apply_action|start_selection|extend_selection|finish_selection|paste|open_autocomplete|finish_autocomplete|move_in_autocomplete|start_autocorrect|apply_autocorrect|get_autocomplete|splice_at_range|focus|unfocus)"]
SUGGEST = [r"AutocompleteState::.*", r"<AutocompleteState as Default>::default"]
EDITOR_EXCLUDED = "Commands on a selection of table cells, paste without a data type and the move modes Word and Line are todo!() in the code and excluded by precondition."
EDITOR_STUBS = "The parser's rules are the value of its field autocomplete_rules and parsing is a function of the parser and the symbols (assumed); clipboard text and what it is read as are functions of the elements and of the text (see C19)."

NO_OVERFLOW = "A formula whose row lengths, table sizes and indices stay below usize::MAX / 4 (any formula that fits in memory)."
APPLICABLE = "The edit can be applied to the formula: its address exists, its range lies in the row or table, its inserted tables have the table's other dimension (these are the preconditions of apply_edit)."
RIGID = "Edits of tables are for containers with a resizable grid, and do not remove the last row or column."

PROPS = {
    "C01": dict(crates="input_tree", harness="core", level="proof",
                fns=ROW + GRID + INDEX + APPLY, must=[r"<InputTree as Editable>::apply_edit", r"Editable::apply_edits"],
                lemmas=["c01_frame", "c01_row"], assumptions=[APPLICABLE, NO_OVERFLOW]),
    "C02": dict(crates="input_tree,caret", harness="caret", level="proof",
                fns=ROW + GRID + INDEX + APPLY + INV + [r"GridEdit::new_grid_size", r"<UndoAction as From<CaretEdit>>::from"],
                must=[r"<InputTree as Editable>::apply_edit", r"<BasicEdit as Invertible>::inverse", r"<CaretEdit as Invertible>::inverse"],
                lemmas=["c02_inverse", "c02_list", "c02_action"], assumptions=[APPLICABLE, RIGID]),
    "C03": dict(crates="input_tree", harness="core", level="proof",
                fns=GRID + INDEX + APPLY + [r"GridEdit::new_grid_size", r"RowIndices::iter"], must=[r"<InputTree as Editable>::apply_edit", r"GridEdit::new_grid_size", r"GridVec::from_one_dimensional"],
                lemmas=["c03_cells", "c03_still_wellformed"], assumptions=[APPLICABLE, RIGID]),
    "C04": dict(crates="input_tree", harness="core", level="proof",
                fns=[r"<MinimalInputRow(Range|Position) as Editable>::apply_edit", r"(BasicEdit|RowEdit|GridEdit)::get_row_indices_edit", r"RowIndicesEdit::is_insert",
                     r"RowIndices::(starts_with|at|at_mut|len|is_empty|get_slice|iter|new)", r"<Offset as From.*", r"<RowIndex as From.*", r"Editable::apply_edits?"],
                must=[r"<MinimalInputRowRange as Editable>::apply_edit", r"<MinimalInputRowPosition as Editable>::apply_edit"],
                lemmas=["c04_follow", "c04_position", "c04_table"],
                assumptions=["A table edit that would shift a stored place is a todo!() in the code and excluded by precondition.", NO_OVERFLOW]),
    "C05": dict(crates="input_tree", harness="core", level="proof",
                fns=ORDER, must=[r"RowIndices::cmp_indices_and_offset", r"<InputRowPosition as Ord>::cmp"],
                lemmas=["c05_antisymmetric", "c05_transitive", "c05_reading_order"], assumptions=["Both positions are places of the same formula.", NO_OVERFLOW]),
    "C06": dict(crates="input_tree", harness="core", level="proof",
                fns=ORDER + FOCUS + [r"InputTree::(range_from_positions|root_focus)", r"InputRowRange::(new|contains|left_position|right_position|left_offset|right_offset|is_forwards)"],
                must=[r"InputTree::range_from_positions", r"RowIndices::get_shared"], lemmas=["c06_smallest"], assumptions=["Both positions are places of the formula.", NO_OVERFLOW]),
    "C07": dict(crates="input_tree,caret", harness="core", level="proof",
                fns=[r"BasicEdit::(remove_range|insert_at_position|replace_range)", r"<BasicEdit as From<RowEdit>>::from"] + RANGE + POS + [r"InputRow::.*"] + APPLY + [r"InputFocusRow::(row|row_indices|len)", r"insert_at_range"],
                must=[r"BasicEdit::remove_range", r"BasicEdit::insert_at_position", r"BasicEdit::replace_range", r"insert_at_range"], lemmas=["c07_remove", "c07_insert", "c07_replace"],
                assumptions=["The range or position is a place of the formula.", NO_OVERFLOW]),
    "C08": dict(crates="input_tree", harness="core", level="proof",
                fns=FOCUS + POS + RANGE + [r"InputGridRange::.*"] + ROW + [r"InputTree::root_focus", r"InputNode::grid", r"Index2D::.*", r"<GridVec as Grid<T>>::.*"],
                must=[r"InputRow(Position|Range)::(new|vx_checked_new)", r"InputFocusRow::(parent|child_at|walk_down_indices|from_root|index_in_parent)", r"InputFocusNode::(parent|child_at)", r"InputRow(Position|Range)::(vx_checked_)?from_minimal", r"InputFocusRow::vx_checked_walk_down_indices", r"InputGridRange::vx_checked_from_minimal"],
                lemmas=["c08_address", "c08_valid", "c08_valid_range"], assumptions=["The walk starts from the root of a formula, as InputTree::root_focus does.", NO_OVERFLOW]),
    "C09": dict(crates="input_tree", harness="core", level="proof",
                fns=GRID + INDEX + [r"<GridVec as TryFrom<GridVecData>>::try_from", r"InputNode::(fraction|root|sup|sub|table|container_with_type)"], must=[r"GridVec::vx_checked_from_one_dimensional", r"InputNode::(fraction|root|sup|sub|table)", r"Index2D::(from_index|to_index|with_grid|to_index_checked|add_checked|sub_checked)", r"GridVec::(from_one_dimensional|get_mut|set)"],
                lemmas=["lemma_index_roundtrip", "lemma_roundtrip_index"], assumptions=["Grids are built by from_one_dimensional, default or, when read, try_from."]),
    "C10": dict(crates="input_tree,caret", harness="caret", harness_also=["core"], level="proof",
                fns=[r"GridRectangle::.*", r"GridView::.*", r"<GridView as Grid<T>>::.*", r"InputGridRange::.*", r"GridVec::get_view"] + CARET + [r"InputTree::range_from_positions", r"RowIndices::get_shared"] + INDEX + [r"<GridVec as Grid<T>>::.*", r"Grid::.*"],
                must=[r"GridRectangle::(from_indices_inclusive|width|height|new)", r"<GridView as Grid<T>>::get", r"InputGridRange::(new|grid)", r"CaretSelection::from_positions", r"Caret::(selection|into_selection)"],
                lemmas=[], assumptions=["The two cells are cells of the table."]),
    "C11": dict(crates="input_tree", harness="core", level="proof",
                fns=[r"write_with_escaped_double_quotes", r"<(InputRow|InputNode|InputNodeVariant|GridVec) as Display>::fmt", r"GridVec::values", r"<GridVec as Grid<T>>::.*", r"Grid::.*"],
                must=[r"write_with_escaped_double_quotes", r"<(InputRow|InputNode|InputNodeVariant|GridVec) as Display>::fmt"], lemmas=["c11_injective"],
                assumptions=["A Formatter appends what it is given and reports no error; Display of usize prints its decimal digits, and decimal printing is injective (assumed, see trusted_base)."]),
    "C12": dict(crates="input_tree,caret", harness="caret", level="proof",
                fns=HISTORY + INV + [r"<UndoAction as From<CaretEdit>>::from"], must=[r"UndoRedoManager::(new|push|undo|redo|can_undo|can_redo)", r"<CaretEdit as Invertible>::inverse"],
                lemmas=["c12_undo_redo", "c12_action"], assumptions=["Cloning an action gives an equal action (the actions' Clone is derived)."]),
    "C13": dict(crates="input_tree,caret", harness="caret", level="proof",
                fns=MOVE + FOCUS + POS + RANGE + CARET, must=[r"NavigationSettings::(move_caret|move_caret_range|move_horizontal_into|move_horizontal_beyond_edge|move_caret_internal)"],
                lemmas=["c13_right", "c13_left", "c13_unique", "c13_arrows"],
                assumptions=["The caret is a place of the formula; every container has at least one cell.", "MoveMode::Word and MoveMode::Line are todo!() in the code and excluded by precondition; so is moving a caret that selects table cells.", NO_OVERFLOW]),
    "C14": dict(crates="input_tree,caret", harness="caret", level="proof",
                fns=MOVE + FOCUS + POS + RANGE + INDEX, must=[r"NavigationSettings::(move_vertical|move_caret_range|move_caret_internal)"],
                lemmas=[], assumptions=["The caret is a place of the formula.", "MoveMode::Word and MoveMode::Line are todo!() in the code and excluded by precondition.", NO_OVERFLOW]),
    "C15": dict(crates="input_tree,caret", harness="caret", level="proof",
                fns=REMOVE + MOVE + POS + RANGE + FOCUS + APPLY + [r"InputRow::.*", r"BasicEdit::(remove_range|insert_at_position|replace_range)"],
                must=[r"remove_at_caret", r"remove_at_caret_position", r"flatten_node"], lemmas=["c15_delete", "c15_unwrap"],
                assumptions=["The caret is a place of the formula; every container has at least one cell.", "Removing a selection of table cells is a todo!() in the code and excluded by precondition.", NO_OVERFLOW]),
    "C16": dict(crates="input_tree,caret,parser,serialization", harness="caret", level="proof",
                fns=[r"CaretEdit::is_empty"] + CHANGING + BUILDER + HISTORY + INV + APPLY + REMOVE + CARET + POPUP + SUGGEST + POS + [r"<UndoAction as From<CaretEdit>>::from", r"BasicEdit::.*", r"<MinimalInputRow(Range|Position) as Editable>::apply_edit"],
                must=[r"MathEditor::(new|undo|redo|apply_action|move_caret|remove_at_caret|insert_at_caret|insert_nodes_at_caret|splice_at_range|apply_autocorrect|start_selection|extend_selection|paste)", r"EditorActionBuilder::finish", r"UndoRedoManager::(push|undo|redo)"],
                lemmas=["c16_undo_exact", "c16_redo_exact", "c16_there_and_back", "c16_undo_last"],
                assumptions=["The rules' texts are not empty and their results are well-formed elements; every container has at least one cell.", EDITOR_EXCLUDED, EDITOR_STUBS, NO_OVERFLOW]),
    "C17": dict(crates="input_tree,caret,parser,serialization", harness="caret", harness_also=["parser"], level="proof",
                fns=MATCHES + POPUP + SUGGEST + [r"MathEditor::get_autocomplete", r"<AutocompleteRuleMatch as (Partial)?Ord>::.*"], must=[r"<AutocompleteRule as AutocompleteMatcher>::matches", r"<MathParser as AutocompleteMatcher>::matches", r"indices_of", r"AutocompleteRuleMatch::is_complete_match",
                                           r"AutocompleteResults::(start_autocorrect|get_caret_range|move_selection)"],
                lemmas=["c17_exact", "c17_complete"],
                assumptions=["A rule's text is not empty (matching asserts it); the caret offset is an offset of the row.", "Everything that matches is suggested: for rows without empty symbols before the caret.",
                             "Proved for MathParser::matches over the parser's list of rules. That this list holds the rules of all modules, those declared last first (MathParser::new, an iterator chain over trait objects), is a bounded check on the real crate (up to 4 modules of 4 rules; never counted as proved)."]),
    "C18": dict(crates="input_tree,caret,parser,serialization", harness="caret", harness_also=["parser"], level="proof",
                fns=SYNTAX + [r"<(In|Pre|Post)fixBuilderImpl as (In|Pre|Post)fixBuilder<SyntaxNode,SyntaxNode>>::build", r"combine_ranges", r"BuiltInRules::.*"],
                must=[r"SyntaxNode::(new|get_combined_range|range)", r"SyntaxNodeBuilder::(new|build|new_leaf_node)", r"<(In|Pre|Post)fixBuilderImpl as (In|Pre|Post)fixBuilder<SyntaxNode,SyntaxNode>>::build",
                      r"BuiltInRules::(error_missing_token|error_missing_operator|error_unknown_token|nothing_node|whitespace_node|whitespaces_node)"],
                lemmas=["c18_cover"],
                assumptions=["A failed assert! ends the construction: the property is about the trees that could be built.", "Each child's own range has start <= end.", "error_unknown_token is given symbols (for a container it panics; every kind of container has a rule)."]),
    "C22": dict(crates="input_tree,caret,parser,serialization", harness="caret", level="proof",
                fns=CHANGING + BUILDER + [r"MathEditor::get_syntax_tree", r"MathEditor::get_input_tree"],
                must=[r"MathEditor::(get_syntax_tree|undo|redo|apply_action|splice_at_range|insert_nodes_at_caret|remove_at_caret)", r"EditorActionBuilder::finish"],
                lemmas=[], assumptions=["Parsing is a function of the parser and the formula's symbols (assumed contract of MathParser::parse, whose chumsky-based body is outside the proof).", EDITOR_EXCLUDED]),
    "C23": dict(crates="input_tree,caret,parser,serialization", harness="caret", level="proof",
                fns=[r"MathEditor::(move_caret|select_with_caret|remove_at_caret|insert_at_caret|insert_nodes_at_caret|select_all|start_selection|extend_selection|finish_selection|copy|paste|get_caret|get_input_tree|focus|unfocus)"] + BUILDER + REMOVE + CARET + MOVE + RANGE + POS + [r"InputTree::range_from_positions", r"BasicEdit::(remove_range|insert_at_position|replace_range)"],
                must=[r"MathEditor::(move_caret|select_with_caret|remove_at_caret|insert_at_caret|insert_nodes_at_caret|select_all|start_selection|extend_selection|copy|paste|get_caret)", r"EditorActionBuilder::finish", r"insert_at_range", r"remove_at_caret"],
                lemmas=["c07_replace", "c15_delete", "c15_unwrap"], assumptions=[EDITOR_EXCLUDED, EDITOR_STUBS, "An autocorrection that follows the command is what C24 says.", NO_OVERFLOW]),
    "C24": dict(crates="input_tree,caret,parser,serialization", harness="caret", level="proof",
                fns=[r"MathEditor::(start_autocorrect|apply_autocorrect|get_autocomplete|open_autocomplete|finish_autocomplete|move_in_autocomplete|splice_at_range|move_caret|select_with_caret|remove_at_caret|insert_at_caret|start_selection|extend_selection|paste)"] + POPUP + SUGGEST + MATCHES + [r"BasicEdit::replace_range", r"InputRowRange::(contains|from_minimal|values|len)", r"<MinimalInputRow(Range|Position) as Editable>::apply_edit"],
                must=[r"MathEditor::(start_autocorrect|apply_autocorrect|get_autocomplete|finish_autocomplete|move_in_autocomplete|splice_at_range)", r"AutocompleteState::get_autocomplete", r"AutocompleteResults::(start_autocorrect|get_caret_range|move_selection)", r"AutocorrectActionBuilder::finish"],
                lemmas=["c17_exact", "c17_complete"], assumptions=["A rule's text is not empty and its result are well-formed elements.", "Rows without empty symbols, where it is said that something is corrected.", EDITOR_EXCLUDED, EDITOR_STUBS, NO_OVERFLOW]),
    "C19": dict(crates="input_tree,caret,parser,serialization", harness="caret", level="proof",
                fns=[r"(de)?serialize_input_nodes", r"<GridVec as TryFrom<GridVecData>>::try_from", r"GridVec::from_one_dimensional", r"MathEditor::(copy|paste|insert_nodes_at_caret)"],
                must=[r"(de)?serialize_input_nodes", r"<GridVec as TryFrom<GridVecData>>::try_from", r"MathEditor::(copy|paste)"],
                lemmas=["c19_wellformed", "c19_round_trip"],
                assumptions=["serde's derived code and serde_json: for types of the shape in contracts/serialization (derives, serde attributes, fields; compared with the source on every run) reading is the inverse of writing wherever try_from lets grids through, every grid that is read is what try_from gave, writing does not fail.",
                             "Round trip for elements nested at most 20 containers deep: serde_json refuses text with more than 127 levels of brackets.", "Well-formed: the cells of every grid fill whole rows, and there is a column. Reading without a data type is a todo!() in the code and excluded by precondition.", EDITOR_EXCLUDED]),
    "C25": dict(crates="input_tree,caret,parser,serialization", harness="parser", level="proof",
                fns=[r"SyntaxNodeNameMap::.*", r"SyntaxNodeNameId::new", r"<SyntaxNodeNameMap as Default>::default", r"ParseModules::.*", r"<ParseModules as Default>::default"], must=[r"SyntaxNodeNameMap::(new|add|get|get_reverse)", r"ParseModules::(new|with_rule_name|get_rule_name|get_rule_name_map)"],
                lemmas=["c25_one_to_one"],
                assumptions=["Fewer than 2^32 names are registered.", "That a name consists of two or more identifiers (PathIdentifier::new, which panics otherwise; the letters of identifiers are another crate's tables) is a bounded check (names of up to 3 parts; never counted as proved).", "The derived equality and hash of names and ids agree (assumed: vstd's model of the keys of a HashMap)."]),
    "C20": dict(crates="pratt", harness="pratt", harness_also=["parser"], level="proof",
                fns=[r"PrattParser::.*", r"PrattSymbolParsers::new", r"(<InputRef as )?InputRefExt(<I,E>>)?::.*", r"BindingPower::.*", r"Strength::invert", r"(left_infix|right_infix|prefix|postfix)",
                     r"HasParser::parser", r"<OpParser as HasParser<P>>::parser", r"(Infix|Prefix|Postfix)Builder::build", r"RcOrWeak::inner", r"call_pratt_parser", r"pratt_parse_recursive",
                     r"<PrattParserCaller_ as ExtParser<I,O,E>>::parse", r"ParseRule::rule_name", r"(name_only|atom|prefix|left_infix|right_infix|postfix)_rule"],
                must=[r"PrattParser::(pratt_parse|parse_unknown|is_at_end)", r"BindingPower::strength_(left|right)", r"Strength::invert", r"<InputRef as InputRefExt<I,E>>::(parse_iter|can_parse_iter|parse_safe|can_parse)", r"(left_infix|right_infix|prefix|postfix)", r"(atom|prefix|left_infix|right_infix|postfix)_rule"],
                lemmas=["c20_whole", "c20_precedence", "c20_left_assoc", "c20_right_assoc"],
                assumptions=["The parser library chumsky is not installed here: its input cursor is an assumed contract (position, save and rewind, next, parse; listed in trusted_base), and Rc<dyn Fn>, Rc::new_cyclic and Weak are stand-ins with assumed contracts.",
                             "A token parser is a function of the input and the position and reads at least one token when it succeeds; handlers and builders are functions of their arguments.",
                             "Proved for the precedence parser of pratt_parser.rs. That the parser as a whole hands it the declared rules (math_parser.rs, make_parser.rs, the rule modules) is combinator code over chumsky and out of the verifier's reach: a bounded check on the real crate, with a stand-in for chumsky, stands in for it (rows of up to 12 elements, 15 declared rules; never counted as proved)."]),
}

# no body of their own (derived), or a body that is todo!() and excluded by precondition
KNOWN_VACUOUS = {"focus::grid_range::MinimalInputGridRange::apply_edit"}

NOT_APPLICABLE = {
    "C21": "TypeScript front end: no deductive verifier for it is installed.",
}
