#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run by hand after editing; checks never run it)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note="", na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))


prop("C01", "Passes that run on several threads never race on shared state",
     "When a pass, the hasher, the code generator or the simulator processes modules on several threads, every piece of state those threads share (the pass's own members and results, process-wide tables and caches, the design context) is modified only under a lock that all of them use, and a lock taken is always released. The result therefore does not depend on how the threads are scheduled.",
     ["schedules", "programs"], "every interleaving of the worker threads, every design",
     "A race shows up only under particular interleavings; the tests run tiny designs once and cannot enumerate schedules.",
     ["src/ir.cc", "src/hash.cc", "src/codegen.cc", "src/expr.cc", "src/sim.cc", "src/analysis.cc", "src/optimize.cc", "src/transform.cc", "src/syntax.cc", "src/util.cc", "src/context.hh"],
     [("worker dispatch", "IRVisitor::visit_generator_root_p/_tp, visit_root_tp (src/ir.cc), hash_generators_context, generate_verilog_no_pkg"), ("locks", "InterfaceVisitor, MarkTrackedVisitor, the constant table")],
     "interprocedural lockset/effect analysis over the call graph reachable from every worker lambda (visitor-type-sensitive)",
     "decides member/global/captured/Context state; races inside the IR of two different modules are not modelled")

prop("C02", "Every error message can be built and is complete",
     "Whenever an input is rejected or a diagnostic is produced, the message's placeholders and the values supplied for it agree, so that the intended error (and not a formatting failure) reaches the user and no placeholder is left unexpanded or value silently dropped.",
     ["inputs"], "every input that makes any error path run",
     "Most error paths are never executed by a test; a bad placeholder only shows when its path runs.",
     ["src/analysis.cc", "src/codegen.cc", "src/expr.cc", "src/fault.cc", "src/fsm.cc", "src/generator.cc", "src/stmt.cc", "src/tb.cc", "src/transform.cc", "src/util.cc", "src/port.cc", "src/interface.cc"],
     [("format calls", "every fmt::format/print call and every exception literal in src/")],
     "format-string/argument agreement over every resolved call site, with constant propagation of the format string",
     "exact for literal format strings; dynamic ones are counted")

prop("C03", "Operands of assignments and expressions agree in width, sign and type",
     "An assignment, binary or conditional expression, concatenation, enum assignment or linked-variable move only comes into existence when its operands agree: non-null, equal width and sign, matching packedness of arrays, same enum type, a one-bit condition, event or clock, and an assignable target. Operands that agree are never rejected. A narrower operand may be extended to match; an operand is shrunk only if it is a constant or loop variable that provably fits.",
     ["inputs", "programs"], "every pair of operands, every operator, every order of construction",
     "Tests try a handful of widths and operators; the guarantee is over all operand combinations and every constructor that can create such a node.",
     ["src/expr.cc", "src/stmt.cc", "src/port.cc"],
     [("construction checks", "AssignStmt, Expr, ConditionalExpr, VarConcat, VarCasted, EventControl, Port constructors; Var::assign_ and overrides; Var::move_linked_to; IterVar resizing")],
     "must-check (validation dominates normal exit) path analysis over interprocedural CFGs, with operator/case splits, and accepts-dual reachability of throws",
     "decides that the stated comparison is made on every path; the numeric correctness of width() itself is C11")

prop("C04", "Slices, indices, extensions and member accesses stay in range",
     "Selecting bits, elements or members of a variable, indexing it by another variable, or extending it succeeds only if the selection lies inside the variable (low not above high, high below the width or first dimension, index no wider than needed, extension not narrower, member declared). A selection inside the variable is always accepted. Variables, dimensions and repeat counts are never zero-sized.",
     ["inputs"], "every variable shape and every selection of it",
     "Out-of-range selections at each boundary and for each kind of variable are far more than the tests sample.",
     ["src/expr.cc", "src/port.cc"],
     [("selection", "Var::operator[], VarSlice, VarVarSlice, PackedSlice, VarExtend, VarDuplicated, Var constructors, Var::set_size_param")],
     "must-check path analysis with shape case splits; index limit by value-dependence analysis")

prop("C05", "Constants always fit the width and sign they are declared with",
     "A constant's value can be stored, changed or moved to another width only if it is representable in that width and sign (string and large hexadecimal constants included), otherwise the request is rejected. Every representable value is accepted.",
     ["inputs"], "every value, width and sign",
     "The boundary cases (sign bit, 64-bit and wider, resizing inside expressions) are unbounded in number and reached through many call paths.",
     ["src/expr.cc"],
     [("representability check", "Const constructors, Const::is_legal, set_value, set_width, Param::set_value, resize_var, IterVar::fix_width, StringConst")],
     "must-check path analysis for every writer of a constant's value or width; structural check of the limit computation",
     "the arithmetic of the limits is checked structurally (which shift by which amount under which sign), not evaluated")

prop("C07", "Every expression prints as text that reads back as the same expression",
     "The emitted text of an expression, whatever operators are nested in whatever operand positions, parses by SystemVerilog's precedence and associativity into exactly the expression that was built; selections, casts, concatenations, repetitions, conditionals, constants and calls use the form the language gives them with operands in order. A hierarchical name is the instance path joined by dots relative to the requested scope, and is refused outside it.",
     ["inputs", "programs"], "every expression tree over every operator and operand kind",
     "Tests print a few expressions; a lost parenthesis or swapped operand changes the hardware only for particular operator pairs and positions.",
     ["src/expr.cc", "src/except.cc", "src/codegen.cc", "src/port.cc", "src/util.cc"],
     [("printing", "Expr::to_string and helpers, ConditionalExpr, VarSlice/VarVarSlice/PackedSlice, VarCasted, VarConcat, VarExtend, VarDuplicated, Const, FunctionCallVar"), ("hierarchy", "Var::handle_name, Generator::handle_name")],
     "path-sensitive constant propagation of the printed string for every outer operator x inner operator x operand position, judged by a SystemVerilog precedence parser in the rule",
     "one level of nesting per position; deeper trees follow by induction because printing is compositional; literal digits of constants are decided by form, not by value")

prop("C08", "Expressions build the operator asked for, with the right width, sign and bits",
     "Every operator of the embedded language builds the expression of that operator with its operands in order; the expression's width, sign and array shape follow from the operands by SystemVerilog's rules (one bit for comparisons, logic and reductions, sum for concatenation, product for repetition). A selection, index or struct member covers exactly the bits and dimensions it names, however deeply selections are nested. An expression belongs to the module its operands belong to, a constant never decides it, and the port of a child read next to a variable of its parent belongs to the parent.",
     ["inputs", "programs"], "every operator, every operand shape, every selection path",
     "The operator table, shapes and bit arithmetic are sampled by tests at a few widths; each must be right for all widths, shapes and nesting depths.",
     ["src/expr.cc", "src/expr.hh", "src/port.cc", "src/util.cc", "src/generator.cc"],
     [("operators", "Var::operator*, Generator::expr, is_relational_op/is_reduction_op/is_expand_op/is_unary_op"), ("shapes", "Expr, VarConcat, VarExtend, VarDuplicated, VarCasted, PackedStruct constructors and width()"), ("selections", "VarSlice, VarVarSlice, PackedSlice::set_up, compute_var_high_low")],
     "path-sensitive constant propagation against per-operator decision tables; resulting widths and bit bounds compared as integer polynomials over symbolic dimensions",
     "dimension lists of length 1 and 3 (symbolic extents) stand for all lengths")
prop("C06", "Names are legal, unique in scope and always refer to the same object",
     "A module, instance, port, variable, parameter, function, enum value or named block never receives a reserved word as its name, and nothing can be declared under a name already taken in its scope (asking again for a derived object, such as an equal constant, returns the existing one). Looking a name up yields the object declared under it, or reports that there is none. Renaming, replacing, removing or merging objects leaves every table that knows the name in step.",
     ["inputs", "histories"], "every name, every order of declarations, renames, replacements and removals",
     "Clashes and stale table entries depend on the history of declarations; tests try a few names once.",
     ["src/generator.cc", "src/context.cc", "src/expr.cc", "src/syntax.cc", "src/stmt.cc", "src/port.cc", "src/interface.cc", "src/transform.cc", "src/util.cc"],
     [("keywords", "is_valid_variable_name and its callers"), ("tables", "Generator::vars_/ports_/params_/funcs_/named_blocks_/enums_, Context::enum_defs_/modules_"), ("renames", "Generator::rename_var/remove_var/replace_child_generator, transform merging")],
     "must-check path analysis of every registration site (free-name test dominates insertion) plus path-sensitive propagation of table effects",
     "Python-side naming is not covered")
prop("C15", "The module hierarchy and the design context stay consistent",
     "Adding a child makes it findable under its instance name, last in order, with its parent set; removing it detaches it and every connection to it, renaming keeps its position, comment and source location, and replacing it requires an identical port interface and moves every connection. A rejected edit changes nothing. The design context lists each module under its current name and no other, clones follow the name of the module they instantiate, and statements belong to the module they were added to.",
     ["inputs", "histories"], "every sequence of adding, removing, renaming, replacing and cloning of modules",
     "Stale names, parents and connections appear only after particular sequences of edits; tests run one edit each.",
     ["src/generator.cc", "src/generator.hh", "src/context.cc", "src/context.hh"],
     [("children", "Generator::add/remove/rename/replace child, has_child_generator"), ("registry", "Context::modules_, change_generator_name, is_unique, clear"), ("contents", "Generator::add_stmt, remove_stmt")],
     "path-sensitive propagation of table effects: every completing path of each edit must leave every table in step, every rejecting path must leave them untouched",
     "one symbolic port/clone stands for all in loops")
prop("C17", "Ports, bundles and interfaces connect in the right direction or are rejected",
     "Wiring two ports or a port and a variable makes the one that drives the source and the one that receives the target, for every pair of directions and every relation between their modules, and rejects the pairs that cannot be connected. Port bundles and interfaces connect every member with its namesake in its declared direction; modports contain exactly their members; unwiring removes exactly the connection between the two. Clock, reset and enable ports stay one bit wide, and a port reports itself connected only when something drives or reads it from the proper side.",
     ["inputs", "configurations"], "every pair of ports, directions and module relations, every bundle and interface definition",
     "The wiring rules are a table over directions and hierarchy positions; tests exercise a few of its cells.",
     ["src/generator.cc", "src/port.cc", "src/interface.cc"],
     [("direction", "Generator::correct_wire_direction, wire_ports, wire, unwire, wire_interface"), ("bundles", "PortBundleDefinition, PortBundleRef::assign"), ("ports", "Port::connected, set_port_type; InterfaceDefinition, InterfaceModPortDefinition")],
     "path-sensitive constant propagation over the table of directions and hierarchy relations: the pair returned or the statement added must be the tabulated one on every path",
     "one symbolic member stands for all in loops over bundles and interfaces")
prop("C27", "Functions, tasks, DPI imports and calls agree on their arguments and results",
     "Every function, task, DPI import and system function is declared once under its own name, with its arguments in the requested order, direction, width and sign; a call passes every argument it takes, of equal width and sign, and no other, in the declared order, and is as wide and signed as the value the function returns. The printed declaration, call, return and DPI import statements carry exactly these names, types and argument order. Imports that share a name must agree in every attribute, breaks are only legal inside loops, and anything else is rejected.",
     ["inputs", "programs"], "every function declaration, argument list and call",
     "A call whose arguments are swapped or of another width still prints legal text; tests use a handful of one-argument functions.",
     ["src/stmt.cc", "src/expr.cc", "src/generator.cc", "src/codegen.cc", "src/analysis.cc", "src/tb.cc"],
     [("declarations", "Generator::function, task, dpi_function, builtin_function, add_function; FunctionStmtBlock::input, set_port_ordering"), ("calls", "FunctionCallVar, FunctionCallStmt, Generator::call, get_builtin_function_info"), ("printing", "stmt_code(FunctionStmtBlock/ReturnStmt/FunctionCallStmt), extract_dpi_function")],
     "path-sensitive constant propagation with tabulated outcomes and text templates: what each declaration, call and printed statement becomes must equal the tabulated shape on every path",
     "one or two symbolic arguments stand for all; widths in the DPI type table are sampled at every boundary")
prop("C13", "Every construct is printed as the SystemVerilog of its kind",
     "Every module, declaration, statement and instance prints as the SystemVerilog construct of its kind: the keyword, the operands, branches and delimiters in their order, every statement of a block exactly once and in sequence, each declaration with its direction, type, sign, dimensions and name, each instance with its module, changed parameters and every port connected by name to its own connection. Distinct modules are printed once each and a package holds every type definition once, indentation is restored, and what cannot be printed legally is rejected.",
     ["programs", "inputs", "configurations"],
     "all designs: every statement and block kind, every combination of direction, type, sign, packedness, size and width of a declaration, every order of ports, statements and case labels",
     "golden files pin a few dozen designs; the printing code of codegen.cc has some fifty routines whose combinations no golden file enumerates, and a slip in a rare one (an else branch of a property, a for loop counting down) still compiles and prints something",
     ["src/codegen.cc", "src/interface.cc", "src/stmt.cc", "src/stream.cc"],
     [("dispatch", "SystemVerilogCodeGen::dispatch_node, stmt_code(StmtBlock)"), ("statements", "SystemVerilogCodeGen::stmt_code overloads"), ("declarations", "get_port_str, Stream::get_var_decl, generate_parameters, enum_code_, extract_struct_info"), ("modules", "output_module_def, generate_port_interface, generate_sv_package_header, UniqueGeneratorVisitor")],
     "path-sensitive constant propagation to text templates: on every path of every printing routine the text written to the output must equal the tabulated template of the construct",
     "blocks, port lists, case statements and parameter lists are sampled with up to three symbolic members; sizes and widths at 1 and above")
prop("C10", "Traversals reach every node once and call the handler of its kind",
     "Every node type enumerates exactly its own children, in order and without gaps; a traversal calls the handler of every reachable node exactly once, parents before children, also when a handler replaces or removes the node it was given, restores the nesting level, and hands each node to the visit overload of its own kind. The instance graph holds each instance once below its parent, its levels are the distances from the top, its sorted order puts children first, an instance used twice is rejected, and the statement graph holds every statement of a module.",
     ["programs", "histories"],
     "all trees of modules, statements and expressions, and all edits a handler may make to the node it visits",
     "every pass rests on the traversals, but tests only see a pass's result on small trees; a child skipped after a removal, or a node kind routed to the wrong handler, only shows in designs that use that kind inside that pass",
     ["src/ir.cc", "src/ir.hh", "src/graph.cc", "src/stmt.cc", "src/expr.cc", "src/generator.cc"],
     [("children", "child_count, get_child and index_of of every IRNode"), ("dispatch", "accept of every IRNode, Generator::accept"), ("walks", "IRVisitor::visit_root, visit_root_s, visit_root_tp, visit_generator_root, _p, _tp, visit_content"), ("graphs", "GeneratorGraph, StatementGraph")],
     "path-sensitive constant propagation over symbolic child lists: child tables, virtual-dispatch resolution of accept, and effect sequences of each walk, including children that vanish when visited",
     "walks are followed over up to three symbolic children; the graphs over four small hierarchies in two node orders")
prop("C09", "Every variable's record of its uses and definitions is exact",
     "When an assignment joins a design, it is recorded once as a use of exactly the variables its right side is made of and as a definition of exactly those its left side is made of, through slices, variable-indexed slices, casts, concatenations, conditionals, extensions, calls and modport wrappers; conditions of if and case statements count as uses. Whatever removes it (clearing a statement or block, replacing a condition, unassigning, unwiring, removing an instance) removes every one of those records, and moving a variable's uses or definitions re-targets every matching operand and moves the records with it.",
     ["programs", "histories"],
     "all expressions on either side of an assignment and all sequences of adding, moving and removing statements",
     "optimisation, connection and checking passes trust the records; a stale or missing one only shows in a later pass on a particular operand kind and edit history that tests do not reach",
     ["src/expr.cc", "src/expr.hh", "src/port.hh", "src/port.cc", "src/stmt.cc", "src/generator.cc"],
     [("records", "add_sink/add_source/remove_sink/remove_source of every Var class"), ("statements", "AssignStmt::set_parent/clear, IfStmt, SwitchStmt, StmtBlock::clear"), ("edits", "Var::unassign, clear_sources/clear_sinks, Generator::unwire, remove_child_generator"), ("moves", "Var::move_src_to/move_sink_to, change_var_expr, set_slice_var_parent"), ("questions", "Port::connected, connected_from, connected_to")],
     "path-sensitive constant propagation of effects per variable class: the set of records reached by removing contains the set reached by adding; effect tables of every edit and move",
     "concatenations and calls are followed with three operands, nested slices to depth three; slices' own linked lists (move_linked_to) are C03's")
prop("C18", "Verification passes reject exactly the designs that break their rule",
     "The design checks reject every design that breaks their rule and accept every other: assignments (and nested expressions) of unequal width or sign; variables assigned both blocking and non-blocking or wired from a module they cannot see; edges on anything but clocks and asynchronous resets; resets used against their kind or polarity; unsynthesisable constructs; functions that miss a return or continue after one; latches inferred from partial assignment in combinational logic or reset branches; bits driven twice in one scope; a top-level wire fed by itself; clocked blocks that mix an if with other statements; undriven bits of outputs and inner inputs; two struct or interface definitions of one name that differ. The extraction passes list registers, variables and enumerations exactly, and the enable condition computed for a statement is the one under which it runs.",
     ["programs", "inputs"],
     "all designs: every statement tree, width, sign, port kind, polarity, driver combination and placement",
     "each pass is tested on one good and one bad design; a pass that misses a case arm, a second port, a deeper branch or a boundary width accepts broken hardware silently, one that is too strict rejects good hardware",
     ["src/analysis.cc", "src/expr.cc"],
     [("checks", "verify_assignments, check_mixed_assignment, check_always_sensitivity, check_active_high, check_non_synthesizable_content, check_function_return, check_inferred_latch, check_multiple_driver, check_combinational_loop, check_flip_flop_always_ff, verify_generator_connectivity"), ("extraction", "extract_struct_info, extract_interface_info, extract_register_names, extract_var_names, extract_enum_info, compute_enable_condition")],
     "path-sensitive constant propagation over enumerated small design shapes: for each abstract design (statement tree, operand kinds, driver set) every path of the visitor must end in the verdict the rule prescribes",
     "statement trees up to depth three and four cases, two variables, up to three drivers; numeric widths sampled at 1, 4, 8, 32 and 64; loops through ternary conditions are not seen by the pass and are left out")
prop("C19", "The built-in simulator and constant evaluator compute what SystemVerilog computes",
     "For values up to 64 bits, every operator yields the standard's result for its operands' own width and sign (unknown where the standard says x), every read of a variable, slice, element, variable index, cast, concatenation or constant yields exactly its bits, every write changes exactly the bits it names and announces exactly those that changed. A statement takes the branch its condition selects; non-blocking assignments are committed together after all active events with the index of when they executed; a statement runs again whenever anything it reads changes and a clocked block only on its own edges. A width or size given by an expression is its positive value, or is rejected.",
     ["inputs", "programs"], "every operator, operand width and sign, variable shape, index and statement",
     "The simulator decides parameters, sizes and elaboration-time values; one test case evaluates a handful of operands of one width.",
     ["src/sim.cc", "src/sim.hh", "src/eval.cc", "src/eval.hh"],
     [("evaluator", "eval_bin_op, eval_unary_op, eval_ternary_op"), ("storage", "Simulator::get, set, get_slice_index, compute_var_high_low, set_complex_value_"), ("scheduling", "Simulator::process_stmt, eval, trigger_event, DependencyVisitor"), ("elaboration", "static_evaluate_expr")],
     "path-sensitive constant propagation through the evaluator and simulator: each operator, access, statement and dependency shape is folded from the source over a table of widths, signs and boundary operands and compared with the standard's tables",
     "operands are tabulated at width boundaries (quick: 7 widths; thorough: 26); arrays up to 3x2; the event loop is followed for up to three queued events; convergence itself is not decided")
prop("C11", "Statements and blocks hold exactly what they were built from, and clones are copies",
     "A block contains exactly the statements added to it, once each and in order, with the block as their parent; null statements, blocks, repeated statements and assignments of the wrong kind are rejected. Branches of an if, cases of a case statement (equal values share one body) and loop bodies receive exactly their statements; removing, replacing or clearing affects exactly what is named; scope variables reach every child; sensitivity lists have no duplicates. A clone is of the same kind with the same operands, conditions and metadata and cloned children. Instantiating a module or interface maps every port to its connection in the parent and takes that assignment over, or rejects unconnected inputs, several drivers, slices and inouts. A statement finds its module, its outermost statement, the one before it and its place.",
     ["programs", "histories"],
     "all sequences of adding, removing, replacing and cloning statements, all statement kinds and all connections of an instance",
     "tests build each statement once in the plain way; a second addition, a removal from the else branch, a case listed twice or a clone of a rare kind is what passes and generators meet later",
     ["src/stmt.cc", "src/stmt.hh"],
     [("blocks", "StmtBlock, SequentialStmtBlock, ScopedStmtBlock, FunctionStmtBlock"), ("branches", "IfStmt, SwitchStmt, ForStmt"), ("navigation", "Stmt::generator_parent, stmt_parent, pre_stmt, remove_from_parent"), ("clones", "clone of every statement class, Stmt::copy_meta"), ("instances", "InstantiationStmt::process_port, ModuleInstantiationStmt, InterfaceInstantiationStmt")],
     "path-sensitive constant propagation over enumerated small designs: each operation is folded from the source on concrete blocks, branches and connections and the resulting fields and calls compared with the stated outcome",
     "blocks of up to three statements, two cases, three levels of nesting and two connections; break, assert and event statements (whose clone returns the statement itself) are left out")
prop("C30", "Enum and struct variables have the shape of their type and take only its values",
     "A variable or port declared with an enumeration or packed struct is as wide as that type, unsigned, packed where the type is a struct, and has only the array dimensions asked for. An enum target accepts exactly constants and variables of an enumeration of the same name. A struct's members are exactly those listed, each found under its own name with its own width and sign, a member of a member is looked up in the inner struct, and two definitions agree exactly when they list the same members in the same order. An enumeration holds exactly the listed values, and no two enumerations in one scope share a name or a value name.",
     ["programs", "inputs"],
     "all enumerations, structs (nested, arrays) and assignments to enum targets",
     "tests use one two-value enumeration and one two-member struct; the second member, a nested struct, an enumeration redefined under the same name or a value shared between scopes is not sampled",
     ["src/expr.cc", "src/expr.hh", "src/port.cc", "src/port.hh"],
     [("types", "Enum, PackedStruct, PackedStructFieldDef"), ("variables", "EnumVar, EnumPort, VarPackedStruct, PortPackedStruct"), ("assignment", "EnumVar::assign_, EnumPort::assign_"), ("members", "member_names, get_definition, PackedSlice::slice_member")],
     "path-sensitive constant propagation on enumerated type definitions: constructors, comparisons and assignments are folded from the source and compared with the stated tables",
     "up to three members and values; where a member's bits lie is C08's and C04's")
prop("C20", "Optimisation passes preserve what the design computes",
     "Every optimisation pass (merging wire assignments, fan-out and dead-code elimination, constant propagation into ports, case and if merging, pass-through removal) leaves a design that computes the same outputs for all inputs and all sequences of clock edges.",
     ["programs", "inputs", "histories"], "all designs and all input sequences",
     "equivalence of two designs quantifies over all inputs and clock histories",
     ["src/optimize.cc", "src/transform.cc"], [("passes", "merge_wire_assignments, remove_pass_through_modules, dead_code_elimination, merge_const_port_assignment, merge_if_block, remove_fanout_one_wires")],
     na="sequential equivalence of the design before and after each pass depends on run-time values; deciding it needs a solver or simulation, and the syntactic side conditions one could check instead are already violated by several passes as they stand (listed in DESIGN.md), so a static lint would either restate those defects or certify nothing")
prop("C31", "A width, dimension or type given by a parameter follows that parameter",
     "A variable, port, slice or array dimension declared with a parameter or an expression of parameters has the size that expression evaluates to, when it is declared and after every later change of any of those parameters or of the parameters they are set to; it depends on no parameter it was given before, and values no width can have are rejected. A parameter set to another one follows exactly that one. Copies of a variable, port or module are parametrised by the corresponding parameters of the new owner (or by the value, when there is none, or are rejected), content moved into another module follows the parameters there, and a parameter prints as its value, the parameter it is set to, or its text.",
     ["programs", "histories"],
     "all parameters, expressions over them and sequences of declaring, setting, re-parametrising, copying and moving",
     "a variable that keeps listening to its former parameter, or misses the second parameter of an expression, only shows after a particular sequence of updates",
     ["src/expr.cc", "src/expr.hh", "src/generator.cc"],
     [("registration", "Var::set_width_param, set_size_param, VarSlice::set_width_param, Param::add_param_*/remove_param_*"), ("updates", "Param::set_value"), ("copies", "Var::copy_meta_data, copy_var_const_parm, check_parent_param, Generator::clone"), ("moves", "set_var_params, Var::move_src_to, move_sink_to")],
     "path-sensitive constant propagation of registration and update effects over enumerated parameter histories (none, same, another) and dependents",
     "the value of a parameter expression is C19's; one or two dependents of each kind")
prop("C32", "Copied, cloned and imported declarations keep their type",
     "A variable or port declared as a copy of another one has the same width, dimensions, sign, packing, direction, port kind, reset polarity and enum or struct type, is declared under the requested name in the copying module, and keeps its parametrisation. The ports of a cloned module, or of a module completed from a reference, are those of the original with the same types; no port the module already has changes. A module imported from a Verilog file lists that file first and then every library file, and has exactly the ports declared in it, each with the direction, range and sign of its own declaration; a file, module or port that does not exist is reported.",
     ["programs", "inputs"],
     "every kind, shape and direction of the copied declaration, every set of ports of a cloned module, every form of port declaration",
     "a lost attribute only shows when the copied declaration has it and something later depends on it; tests copy plain unsigned ports",
     ["src/generator.cc", "src/util.cc", "src/expr.cc"],
     [("copy", "Generator::var(const Var &), Generator::port(const Port & / PortPackedStruct & / EnumPort &)"), ("clone", "Generator::clone, copy_over_missing_ports"), ("import", "Generator::from_verilog, get_port_from_verilog, get_port_from_mod_def, string::get_tokens")],
     "path-sensitive constant propagation of every copying function over enumerated source declarations; the object created is compared with its source attribute by attribute",
     "the regular expressions that find modules and declarations in a Verilog file are not interpreted; the text they match is enumerated")
prop("C14", "Preparation passes complete a design without changing what it computes",
     "The passes that ready a design for printing add, replace and move exactly what their task needs. Assignments without a kind become blocking, non-blocking inside clocked blocks, and one of the wrong kind is rejected. A stub drives each output with a zero of its width and sign and holds nothing else. In a module marked so, exactly the unconnected bits of its instances' inputs are tied to zero, in that module. Every child module and internal interface is instantiated once, in its parent, with its comment, taking over its connections. A port connected to one plain net of the parent keeps it; any other connected port gets a variable of its own width, size, sign, packedness or struct type, cast to its clock or reset kind, and all its uses in the parent. Instances of one module become a generate loop only when each port reads one shared net or the element of the instance's own index. A use of an input port outside its module reads the net that drives the port. Sorting keeps every statement once, in the order of its class; state machines are realised once; properties are asserted in their module, and a sequence without an edge takes the only clock or is rejected. A flattening wrapper has one port for every element of every port of the module it holds, connected in its direction, and a stub text declares every port of the module.",
     ["programs", "inputs"], "all designs: every assignment kind and block, every set of connected bits, every port kind, shape and connection, every order of statements, every indexing of instances",
     "Each pass is tested on one small design; a pass that slips in a rare shape (an input connected in two ranges, a port that is signed or a reset, instances wired crosswise) silently changes the printed hardware.",
     ["src/transform.cc", "src/codegen.cc", "src/util.cc"],
     [("passes", "fix_assignment_type, zero_out_stubs, zero_generator_inputs, create_module_instantiation, create_interface_instantiation, decouple_generator_ports, change_property_into_stmt, lift_genvar_instances, port_legality_fix, realize_fsm, sort_stmts, sort_initial_stmts, infer_property_clocking"), ("wrapper", "create_wrapper_flatten, get_flatten_slices, create_stub")],
     "path-sensitive constant propagation over enumerated small design shapes: on every path of the pass, what it creates, moves and removes must equal what the rule prescribes",
     "designs of up to three instances and ports, widths up to 8 bits; change_port_bundle_struct is not covered")
#@@MORE@@
def main():
    with open(H + "/properties.jsonl", "w") as fp:
        for p in P:
            o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            fp.write(json.dumps(o) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        if not os.path.exists(H + "/ka/rules/%s.py" % p["id"]):
            na.append({"property": p["id"], "reason": "not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "bash /verif/check.sh %s quick" % p["id"],
                       "thorough_cmd": "bash /verif/check.sh %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na,
         "notes": "All checks parse /repo/src with a libTooling extractor (tool/kfacts.cc) and decide rules in ka/rules on the resolved facts. Findings kept open are in known_findings.json; repaired ones in the same file under 'fixed'."}
    json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)


main()
