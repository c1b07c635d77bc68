#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay reviewable)."""
import json, os
P = []
IT = "aftermath-core/input_tree/src/"
CA = "aftermath-core/caret/src/"
PA = "aftermath-core/parser/src/"

def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "Inserting or deleting elements changes exactly the addressed place",
  "Applying an insertion to a formula puts exactly the given elements, in order, at the given offset of the addressed row, and applying a deletion removes exactly the stated number of elements there. Every other row, element, container kind and table shape in the whole formula is left exactly as it was. A list of edits behaves like its edits applied one after the other.",
  ["inputs", "histories"], "every formula (any nesting), every valid row address and offset, every list of inserted or deleted elements, every list of edits",
  "The edit tests apply a handful of edits to three small formulas and look at the printed result; nothing quantifies over nesting depth, offsets or the untouched remainder of the formula.",
  [IT+"input_tree.rs", IT+"editing/basic_edit.rs", IT+"editing/editable.rs", IT+"node.rs", IT+"grid.rs", IT+"grid/index2d.rs", IT+"row.rs"],
  [("walk down the row indices, then splice", IT+"input_tree.rs InputTree::apply_edit"), ("edit lists applied in order", IT+"editing/editable.rs Editable::apply_edits")],
  [("formula", "tree of rows, elements and grids", IT+"input_tree.rs InputTree::root")], ["the formula after the edit"])
p("C02", "Undoing an edit restores the formula exactly",
  "For every edit that can be applied to a formula, applying it and then applying its inverse gives back exactly the original formula; inverting twice gives back the original edit. The same holds for a whole recorded action: its inverse (the inverted edits in reverse order, with the before and after caret swapped) takes the edited formula back to the original.",
  ["inputs", "histories"], "every formula, every applicable row or table edit, every list of edits",
  "One test inverts one insertion in one row; table edits and lists of edits are never inverted by a test.",
  [IT+"editing/basic_edit.rs", IT+"editing/invertible.rs", IT+"input_tree.rs", CA+"primitive/caret_edit.rs"],
  [("inverse swaps insert and delete and keeps position and values", IT+"editing/basic_edit.rs Invertible impls"), ("inverse of an action reverses the edit list", CA+"primitive/caret_edit.rs CaretEdit::inverse")],
  (), ["the formula after edit and inverse"])
p("C03", "Table row and column edits move whole rows and columns, nothing else",
  "Inserting rows (or columns) into a table puts the new cells at the given row (or column) index and keeps every existing cell in its place relative to its neighbours; deleting removes exactly the addressed rows (or columns). The table stays rectangular with its size changed by exactly the inserted or removed amount. Nothing outside that table changes.",
  ["inputs"], "every formula with a table at any depth, every table size, every row/column index, every matching block of inserted or removed cells",
  "Two tests insert one row and one column into a 2x2 table; deletion of table rows or columns is never tested, and no test varies sizes or positions.",
  [IT+"input_tree.rs", IT+"editing/basic_edit.rs", IT+"grid.rs"],
  [("cells are streamed from the old grid into the new one", IT+"input_tree.rs InputTree::apply_edit (Grid arm)"), ("size after the edit", IT+"editing/basic_edit.rs GridEdit::new_grid_size")],
  (), ["table cells and size after the edit"])
p("C04", "Stored carets and ranges follow the content through edits",
  "When elements are inserted into or deleted from a formula, every stored position or range that was valid stays valid in the edited formula. A stored place before or outside the edit does not move, one after it moves with the surrounding elements (including places inside containers that are shifted), and a place inside deleted content collapses to the point of deletion. Inserting exactly at a range's edges grows the range rather than moving its start, and the direction of a range is never flipped.",
  ["inputs", "histories"], "every formula, every valid position or range (any depth, both directions), every applicable insertion or deletion",
  "Two tests move one forward range in a flat row; nested places, containers that shift, backward ranges and places inside deleted content are not tested.",
  [IT+"focus/row_range.rs", IT+"focus/row_position.rs", IT+"editing/row_indices_edit.rs", IT+"editing/basic_edit.rs"],
  [("row-index edit applied to a minimal range", IT+"focus/row_range.rs MinimalInputRowRange::apply_edit"), ("position handled as collapsed range", IT+"focus/row_position.rs MinimalInputRowPosition::apply_edit")],
  (), ["the stored position or range after the edit"])
p("C05", "Positions are totally ordered, in document order",
  "Comparing two positions is a total order that agrees with reading the formula from left to right: within one row smaller offsets come first, a container's content lies strictly between the offsets before and after it, and earlier child rows come before later ones. Two positions compare as equal exactly when they are the same place.",
  ["inputs"], "every pair and triple of positions of one formula, at any nesting depth",
  "Three tests sort a few hand-picked positions; transitivity, antisymmetry and agreement with reading order over all positions are not settled by samples.",
  [IT+"row.rs", IT+"focus/row_position.rs"],
  [("common prefix first, then offsets doubled against indices doubled plus one", IT+"row.rs RowIndices::cmp_indices_and_offset")],
  (), ["result of comparing positions"])
p("C06", "A selection between two positions is the smallest row range around both",
  "Selecting from one position to another gives a range in the deepest row that contains both, which covers both positions entirely (a position inside a container makes the whole container part of the range) and is as small as possible. It runs forwards exactly when the first position is not after the second. If both positions are in the same row, the range is exactly from the one to the other.",
  ["inputs"], "every formula and every ordered pair of valid positions in it, at any depths",
  "One file of selection tests (not runnable here) samples a few fractions; no stable test covers selection between different rows.",
  [IT+"input_tree.rs", IT+"row.rs", IT+"focus/row_range.rs"],
  [("shared row indices, then offsets widened around the container", IT+"input_tree.rs InputTree::range_from_positions"), ("common prefix", IT+"row.rs RowIndices::get_shared")],
  (), ["row, start and end of the resulting range"])
p("C07", "Range edits do what they say and return the right caret place",
  "The edits produced for removing a range, inserting at a position or replacing a range, when applied, remove exactly the elements of the range and insert exactly the given elements at that place. The position or range returned with them is valid in the edited formula and denotes the place directly behind the inserted elements (or the inserted elements themselves, or where the removed elements were). The recorded removed elements are the ones that were really there.",
  ["inputs"], "every formula, every range in either direction, every list of new elements",
  "No existing test calls these functions and applies the result; the promise relates two computations on arbitrary formulas.",
  [IT+"editing/basic_edit.rs", IT+"focus/row_range.rs", IT+"focus/row_position.rs", IT+"input_tree.rs", CA+"primitive/primitive_edit.rs"],
  [("edit builders", IT+"editing/basic_edit.rs BasicEdit::remove_range, insert_at_position, replace_range"), ("insert over selection", CA+"primitive/primitive_edit.rs insert_at_range")],
  (), ["the edits, the returned place and the formula after applying them"])
p("C08", "Addresses and navigation agree: down and up again is the same place",
  "Walking from a row into a child row and back up to the parent gives the same place, and the address of the place reached always denotes, from the root, exactly the row that is reached. A position or range turned into its stored form and resolved again in the same formula denotes the same place. Steps that do not exist (index out of bounds, into a plain symbol, above the root) are reported as absent instead of crashing. A position or range outside its row cannot be built, and an address that does not exist is refused rather than resolved to some other place. Two rows, elements or positions reached in one formula compare equal exactly when their addresses are the same.",
  ["inputs", "histories"], "every formula and every sequence of navigation steps and address conversions",
  "Two tests walk one step into a fraction; nothing covers deep paths, the parent step, or the absent cases.",
  [IT+"focus.rs", IT+"focus/row_position.rs", IT+"focus/row_range.rs", IT+"focus/grid_range.rs", IT+"row.rs"],
  [("row indices handed down to the child and given back to the parent", IT+"focus.rs InputFocusRow::parent, InputFocusNode::child_at"), ("address walk", IT+"focus.rs InputFocusRow::walk_down_indices")],
  [("focus", "chain of references with the address of the innermost row", IT+"focus.rs InputFocusRow")], ["row content and address of the reached place"])
p("C09", "Grid cells: linear and 2D indices are a bijection, bounds are respected",
  "In every grid the number of cells is width times height, and cell (x, y) is reached by the one linear index that lists the rows one after the other; converting back and forth is the identity. Cells that do not fill whole rows (or a width of zero) are refused: no such grid is ever built, and every constructor of an element (fraction, root, superscript, subscript, table) builds one with the cells it was given. Reading, writing or stepping to a cell outside the grid is reported as absent and never touches another cell; writing a cell changes that cell only.",
  ["inputs"], "every grid size and every index, including huge ones",
  "No test addresses a grid by index at all; the identity and bounds hold or fail at particular sizes.",
  [IT+"grid.rs", IT+"grid/index2d.rs"],
  [("x = i mod w, y = i div w", IT+"grid/index2d.rs Index2D::from_index, to_index"), ("bounds check", IT+"grid/index2d.rs Index2D::with_grid"), ("constructor checks", IT+"grid.rs GridVec::from_one_dimensional")],
  (), ["results of get, get_mut, set, size"])
p("C10", "A table selection is exactly the rectangle between its two cells",
  "Selecting in a table from one cell to another gives the rectangle whose corners are these two cells, whichever corner is named first. Its width and height are the numbers of selected columns and rows, and looking at the selection cell by cell shows exactly the table cells inside the rectangle and nothing else.",
  ["inputs"], "every table size and every ordered pair of cells",
  "No stable test creates a rectangular selection.",
  [IT+"grid/grid_view.rs", IT+"focus/grid_range.rs", CA+"caret.rs"],
  [("rectangle from two corner cells", IT+"grid/grid_view.rs GridRectangle::from_indices_inclusive"), ("view onto the rectangle", IT+"grid/grid_view.rs GridView::get")],
  (), ["size of the rectangle, cells of the view, corner indices"])
p("C11", "The printed form of a formula determines the formula",
  "Printing is a function of the formula's content, and two different formulas never print the same text: container kinds, table sizes, row boundaries and symbol texts (also ones with quotes, backslashes, spaces or parentheses) can all be read off unambiguously.",
  ["inputs"], "every pair of formulas, with arbitrary symbol texts",
  "The printing tests compare a few fixed formulas without special characters; injectivity is a statement about all pairs.",
  [IT+"print_helpers.rs", IT+"node.rs", IT+"row.rs", IT+"grid.rs"],
  [("escaping of quotes and backslashes", IT+"print_helpers.rs write_with_escaped_double_quotes"), ("parenthesised, separated output", IT+"node.rs, row.rs, grid.rs Display impls")],
  (), ["the printed text"])
p("C12", "Undo and redo walk the history in order without losing anything",
  "Undo hands out the inverses of the recorded actions, newest first, and redo hands out the undone actions, most recently undone first; undoing and redoing (or the other way round) leaves the history as it was. Recording a new action forgets exactly the undone ones. Whether undo or redo is available is reported truthfully.",
  ["histories"], "every sequence of recording, undoing and redoing",
  "No existing test touches the history; the promise is about arbitrary sequences of calls.",
  [CA+"undo_redo_manager.rs", CA+"primitive/caret_edit.rs"],
  [("two stacks", CA+"undo_redo_manager.rs UndoRedoManager")],
  [("undo_stack, redo_stack", "actions in order", CA+"undo_redo_manager.rs")], ["results of undo, redo, can_undo, can_redo"])
p("C13", "Left and right arrow step through every caret place in reading order",
  "Moving the caret right goes to the next caret place of the formula in reading order and moving left to the previous one, entering and leaving containers on the way; only at the very end or start does it report that it cannot move. A non-empty selection collapses or moves according to the edge in that direction. The place reached is always a valid place of the same formula, and no move crashes.",
  ["inputs", "histories"], "every formula without empty tables, every valid caret place or selection, both directions",
  "The caret crate's tests do not run here and cover selections only; arrow keys have no test at all.",
  [CA+"primitive/movement.rs", IT+"focus.rs"],
  [("enter the adjacent element, or else leave at the edge", CA+"primitive/movement.rs move_horizontal_into, move_horizontal_beyond_edge")],
  (), ["the place reached"])
p("C14", "Up and down arrow reach the cell above or below, or leave the container",
  "Moving up or down inside a container goes to the cell directly above (entering at its end) or directly below (entering at its start); where there is none, the nearest enclosing container that has one is used, and otherwise the caret cannot move. From a superscript moving up, and from a subscript moving down, leads directly in front of it in the surrounding row. The place reached is always a valid place of the same formula, and no move crashes.",
  ["inputs"], "every formula, every valid caret place, both vertical directions",
  "Vertical movement has no test at all.",
  [CA+"primitive/movement.rs", IT+"grid/index2d.rs", IT+"focus.rs"],
  [("2D step with bounds check, recursion to the grandparent", CA+"primitive/movement.rs move_vertical")],
  (), ["the place reached"])
p("C15", "Backspace and delete never lose more than asked",
  "Deleting a non-empty selection removes exactly the selected elements. With a collapsed caret, backspace or delete removes exactly the adjacent symbol, or unwraps the adjacent or surrounding container while keeping all of its contents in order, or only moves the caret. The edits can always be applied to the formula, the returned caret is a valid place afterwards, and no call crashes.",
  ["inputs"], "every formula, every valid caret or selection, every remove mode",
  "No existing test runs the remove functions.",
  [CA+"primitive/primitive_edit.rs", CA+"primitive/movement.rs", IT+"editing/basic_edit.rs"],
  [("case distinction on neighbour and parent", CA+"primitive/primitive_edit.rs remove_at_caret_position"), ("unwrapping", CA+"primitive/primitive_edit.rs flatten_node")],
  (), ["the edits, the returned caret and the formula after applying them"])
p("C16", "Between editor operations the caret is valid and undo is exact",
  "After every editor operation that finishes, the main caret denotes valid places of the current formula. Undo brings back exactly the formula and caret from before the undone action, and redo brings back those from after it. Replacing a range from outside (as autocorrect does) keeps the caret at the same content.",
  ["histories", "inputs"], "every sequence of editor operations from the empty document",
  "There is no test of the editor object; validity is an invariant over arbitrary operation sequences.",
  [CA+"math_editor.rs", CA+"editor_action_builder.rs", CA+"undo_redo_manager.rs", CA+"primitive/caret_edit.rs", CA+"caret.rs"],
  [("edits are collected and applied once", CA+"editor_action_builder.rs EditorActionBuilder::finish"), ("undo applies the inverse action", CA+"math_editor.rs MathEditor::apply_action")],
  [("caret", "stored start and end position", CA+"math_editor.rs MathEditor::caret")], ["formula and caret after each operation"])
p("C17", "Autocomplete suggests exactly the rules that match before the caret",
  "A rule is suggested exactly when the symbols directly before the caret spell a prefix of the rule's text of at least the required length, and the reported lengths say how much of the rule and how many symbols were matched. A suggestion counts as complete exactly when the whole text of the rule is there. The rules are those of all modules, the one declared last comes first. Asking never crashes, for any symbols (including ones with accents or other multi-byte characters).",
  ["inputs"], "every rule text, every row of symbols and containers, every caret offset",
  "The parser crate does not build offline and its autocomplete tests use a few ASCII words.",
  [PA+"autocomplete.rs", CA+"autocomplete.rs"],
  [("match backwards from the caret", PA+"autocomplete.rs AutocompleteRule::matches"), ("replaced range", CA+"autocomplete.rs AutocompleteResults::get_caret_range")],
  (), ["the list of matches"])
p("C18", "Syntax tree ranges nest and tile their parent",
  "Every node of a syntax tree that could be built covers the ranges of its children, and children in the same row follow each other without gaps or overlaps, in order. A node reports exactly the range and children it was built with. The nodes built for operators, for missing and unknown elements and for spaces hold exactly the parts they are built from, in order, and cover exactly them or the range they are given.",
  ["inputs"], "every syntax tree that the constructors accept",
  "Parser tests compare printed trees of a few inputs and cannot run offline.",
  [PA+"syntax_tree/syntax_node.rs", PA+"syntax_tree/syntax_node_builder.rs", PA+"rule_collection.rs", PA+"rule_collections/built_in_rules.rs"],
  [("checks in the constructor", PA+"syntax_tree/syntax_node.rs SyntaxNode::new, get_combined_range"), ("nodes of operators", PA+"rule_collection.rs InfixBuilderImpl, PrefixBuilderImpl, PostfixBuilderImpl"), ("error and space nodes", PA+"rule_collections/built_in_rules.rs BuiltInRules")],
  (), ["ranges of a node and its children"])
p("C19", "Copied content pasted back is the same content",
  "Serializing elements for the clipboard and reading them back gives exactly the same elements (nested at most 20 containers deep, which is as much as the JSON reader takes). Data that does not describe elements with rectangular grids is rejected with an error, and pasting it changes neither the formula nor the caret.",
  ["inputs"], "every list of elements; every text offered as clipboard data",
  "No existing test serializes anything.",
  ["aftermath-core/serialization/src/lib.rs", IT+"node.rs", IT+"grid.rs"],
  [("serde derives", IT+"node.rs, grid.rs, row.rs"), ("versioned envelope", "aftermath-core/serialization/src/lib.rs")],
  (), ["deserialized elements"])
p("C20", "Operators bind by declared precedence and no input element is lost",
  "The precedence parser turns a row of elements into one tree in which operators bind by their declared binding power and associativity: an operand of an operator never contains, outside further operators' operands, an operator that binds more weakly; operators of equal power group to the left or to the right as declared. Every element up to the end of the input or the ending token is read exactly once and in order; what no rule can read becomes an error node in its place, and a missing operand or a missing operator between two operands becomes an error node too. Parsing ends without panic on every input. This also holds for the parser as a whole: the operators that modules declare bind as declared, later rules before earlier ones, and the tree of a formula contains every element of it, in nested rows too, in exactly one leaf and in order.",
  ["inputs", "configurations"], "every row of elements, every list of atom, prefix, infix and postfix rules with any binding powers, every ending token",
  "The parser tests sample a few expressions, and the parser crate cannot be built offline; the promise relates all input rows and all tables of operators.",
  [PA+"parser/pratt_parser.rs", PA+"math_parser.rs", PA+"parser.rs", PA+"make_parser.rs", PA+"rule_collections.rs"],
  [("climbs by binding power", PA+"parser/pratt_parser.rs PrattParser::pratt_parse"), ("reads what no rule can read", PA+"parser/pratt_parser.rs PrattParser::parse_unknown"), ("left and right strength", PA+"parser/pratt_parser.rs BindingPower::strength_left, strength_right"), ("rules become token parsers and operators", PA+"math_parser.rs CachedMathParser::make_parser")],
  [("min_binding_power", "the weakest operator that may still be taken", PA+"parser/pratt_parser.rs PrattParser::pratt_parse")], ["the syntax tree"])
p("C21", "Stored addresses in the front end are the addresses of the rendered rows",
  "The address a click or caret rendering resolves to denotes the same row and offset in the front end as in the core, for every formula on screen.",
  ["inputs"], "every formula and pointer location", "There are no front-end tests.",
  ["src/input-tree/row-indices.ts", "src/rendering/render-result.ts", "src/mathml/renderer.ts"],
  [("row indices in TypeScript", "src/input-tree/row-indices.ts")],
  (), ["caret element positions"])

p("C22", "The syntax tree handed out is always that of the current formula",
  "Whenever the editor hands out the syntax tree, it is the tree that parsing the current formula gives: no command (typing, deleting, replacing, undo, redo, autocorrect, pasting) leaves an outdated tree behind, however commands and reads are mixed. Asking for the tree changes neither the formula, the caret nor the history.",
  ["histories"], "every sequence of editor commands with the syntax tree read at any moments in between",
  "The editor object has no test, and a stale tree only shows up in sequences that read, change and read again.",
  [CA+"math_editor.rs", CA+"editor_action_builder.rs"],
  [("cached tree, cleared when a formula changes", CA+"math_editor.rs MathEditor::get_syntax_tree, apply_action"), ("cleared when edits are applied", CA+"editor_action_builder.rs EditorActionBuilder::finish")],
  [("parsed", "the cached tree, if there is one", CA+"math_editor.rs MathEditor::parsed")], ["the returned syntax tree"])
p("C23", "Editor commands act on exactly what the caret selects",
  "Typing or pasting replaces exactly the selected elements by exactly the new ones, as one action of the history, and puts the caret directly behind them; deleting does what deleting the selection says. Copying hands exactly the selected elements to the clipboard and changes nothing. The reported caret is the selection between the stored start and end. Selecting (by key, by pointer, everything) changes no element; extending a selection moves only its end, and an arrow key moves the caret as navigation says. Clipboard text that cannot be read changes nothing.",
  ["inputs"], "every formula, every caret and selection in either direction, every command",
  "The editor object has no test; the promise relates the stored caret, the selection computed from it, the edits and the result for all formulas.",
  [CA+"math_editor.rs", CA+"editor_action_builder.rs", CA+"caret.rs", CA+"primitive/primitive_edit.rs", CA+"primitive/movement.rs"],
  [("selection, then edits through the builder", CA+"math_editor.rs MathEditor::insert_nodes_at_caret, remove_at_caret"), ("selected values are serialized", CA+"math_editor.rs MathEditor::copy"), ("the end moves", CA+"math_editor.rs MathEditor::select_with_caret, extend_selection")],
  [("caret", "stored start and end position", CA+"math_editor.rs MathEditor::caret")], ["formula, reported caret and clipboard text after the command"])
p("C24", "Autocorrect and accepted suggestions replace exactly the matched symbols",
  "Accepting a suggestion replaces exactly the symbols it matched, as one action, and keeps the caret at the same content; refusing changes nothing. Autocorrect applies the chosen suggestion after a command exactly if its whole text was in front of the caret, these symbols still spell it and the caret has left them; otherwise it changes nothing. Browsing the suggestions moves the choice by one and stays on the list, and the chosen rule stays chosen as long as it is offered. Suggestions are offered only while nothing is selected, in the order of how much of the rule is there.",
  ["histories", "inputs"], "every list of rules, every formula and caret, every command, every sequence of browsing steps",
  "The editor object has no test; the replaced range goes through arbitrary edits between the match and its replacement.",
  [CA+"math_editor.rs", CA+"autocomplete.rs", PA+"autocomplete.rs"],
  [("range remembered, followed through the edits, checked again", CA+"math_editor.rs MathEditor::start_autocorrect, apply_autocorrect"), ("chosen rule is remembered", CA+"math_editor.rs AutocompleteState::get_autocomplete"), ("replaced range", CA+"autocomplete.rs AutocompleteResults::get_caret_range")],
  [("current_autocomplete", "the chosen rule", CA+"math_editor.rs AutocompleteState")], ["formula and caret after the command", "the offered suggestions and which one is chosen"])
p("C25", "Names of syntax nodes and their ids correspond one to one",
  "A name that is registered keeps its id for good and has the same id when it is registered again; different names have different ids; a name that was never registered has none. Looking up an id gives back exactly the name it stands for, and no other id has a name. A name consists of two or more identifiers (a namespace and a name); anything else is refused.",
  ["histories"], "every sequence of registrations and lookups (of fewer than 2^32 names)",
  "No test covers the map; a syntax tree is read by its ids only, so two rules sharing one would be confused everywhere.",
  [PA+"syntax_tree/node_type_id.rs", PA+"parse_modules.rs"],
  [("two maps kept in step", PA+"syntax_tree/node_type_id.rs SyntaxNodeNameMap::add")],
  [("values", "the id of each name", PA+"syntax_tree/node_type_id.rs SyntaxNodeNameMap"), ("reverse_values", "the name of each id", PA+"syntax_tree/node_type_id.rs SyntaxNodeNameMap")], ["the id of a name", "the name of an id"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
