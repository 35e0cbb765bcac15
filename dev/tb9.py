T="transform.cc"; C="C14"
B=[
("at-drop-cloned",C,[(T,"        if (parent && (parent->is_cloned() || parent->external())) return;\n        if (stmt->assign_type()","        if (parent && parent->external()) return;\n        if (stmt->assign_type()")]),
("at-check",C,[(T,"else if (check_type_ && stmt->assign_type() != type_)","else if (check_type_ && stmt->assign_type() == AssignmentType::NonBlocking && stmt->assign_type() != type_)")]),
("at-seq-blocking",C,[(T,"AssignmentTypeVisitor visitor(AssignmentType::NonBlocking, true);","AssignmentTypeVisitor visitor(AssignmentType::NonBlocking, false);")]),
("at-attr-true",C,[(T,'attr->type_str == "check_assignment" && attr->value_str == "false"','attr->type_str == "check_assignment"')]),
("at-final-nb",C,[(T,"final_visitor(AssignmentType::Blocking, false)","final_visitor(AssignmentType::Blocking, true)")]),
("at-final-g",C,[(T,"final_visitor.visit_root_s(top->ast_node());","final_visitor.visit_generator_root(top);")]),
("stub-stmts",C,[(T,"generator->stmts_count() > 0","generator->stmts_count() > 1")]),
("stub-vars",C,[(T,"        if (!vars.empty()) {\n            throw GeneratorException(","        if (vars.size() > 1) {\n            throw GeneratorException(")]),
("stub-in",C,[(T,"if (!port->sinks().empty())","if (!port->sources().empty())")]),
("stub-out-only",C,[(T,"            } else {\n                if (!port->sources().empty())","            } else if (port->sinks().empty()) {\n                if (!port->sources().empty())")]),
("zero-gap",C,[(T,"if (high - pre_high > 1) {","if (high - pre_high > 2) {")]),
("zero-low",C,[(T,"                                low = high;\n                                pre_high = low;","                                pre_high = high;")]),
("zero-last",C,[(T,"                        wire_zero(high, low);","                        if (high > low) wire_zero(high, low);")]),
("zero-inout",C,[(T,"if (port->port_direction() == PortDirection::Out) continue;\n                    std::unordered","if (port->port_direction() != PortDirection::In) continue;\n                    std::unordered")]),
("zero-align",C,[(T,"if (l % port->var_width() || (h + 1) % port->var_width())","if (l % port->var_width() || h % port->var_width())")]),
("zero-align2",C,[(T,"if (l % port->var_width() || (h + 1) % port->var_width())","if (l % port->var_width())")]),
("zero-hh",C,[(T,"hh = h / port->var_width();","hh = (h + 1) / port->var_width();")]),
("zero-attr",C,[(T,'                if (attr->type_str == "zero_inputs") {\n                    has_attribute = true;\n                    break;\n                }','                has_attribute = attr->type_str == "zero_inputs";')]),
("mi-ext",C,[(T,"if (generator->is_cloned() || generator->external()) return;\n        for (auto& child","if (generator->external()) return;\n        for (auto& child")]),
("mi-inst",C,[(T,"if (child->has_instantiated()) continue;","if (child->has_instantiated()) break;")]),
("mi-comment",C,[(T,"if (!comment.empty()) stmt->comment = comment;","if (!comment.empty() && !generator->debug) stmt->comment = comment;")]),
("mi-set",C,[(T,"            child->set_instantiation_stmt(stmt.get());","            if (stmt->comment.empty()) child->set_instantiation_stmt(stmt.get());")]),
("ii-port",C,[(T,"if (interface->is_port()) continue;","if (interface->is_port()) break;")]),
("dec-srccount",C,[(T,"if (sources.size() == 1) {","if (!sources.empty()) {")]),
("dec-left",C,[(T,"if (stmt->parent()->ir_node_kind() == IRNodeKind::GeneratorKind &&\n                    stmt->left() == port) {","if (stmt->parent()->ir_node_kind() == IRNodeKind::GeneratorKind) {")]),
("dec-slice-any",C,[(T,"(src->type() == VarType::Slice &&\n                         src->generator() == generator->parent())","(src->type() == VarType::Slice)")]),
("dec-type",C,[(T,"(src->type() == VarType::PortIO && src->parent() == generator->parent());","(src->type() == VarType::PortIO);")]),
("dec-cast",C,[(T,"        if (src->type() == VarType::BaseCasted) {\n            auto casted = src->as<VarCasted>();\n            src = casted->parent_var();\n        }\n        return src","        if (src->type() == VarType::BaseCasted) return true;\n        return src")]),
("dec-signed-in",C,[(T,"""                auto& v = parent->var(new_name, port->var_width(), port->size(), port->is_signed());
                v.set_is_packed(port->is_packed());
                v.set_explicit_array(port->explicit_array());
            }
            Var* var""","""                auto& v = parent->var(new_name, port->var_width(), port->size());
                v.set_is_packed(port->is_packed());
                v.set_explicit_array(port->explicit_array());
            }
            Var* var""")]),
("dec-explicit-out",C,[(T,"""                v.set_explicit_array(port->explicit_array());
            }
            auto var =""","""            }
            auto var =""")]),
("dec-cast-reset",C,[(T,"{PortType::AsyncReset, VarCastType::AsyncReset}","{PortType::AsyncReset, VarCastType::Reset}")]),
("dec-cast-ce",C,[(T,"                {PortType::Reset, VarCastType::Reset},\n                {PortType::ClockEnable, VarCastType::ClockEnable}};","                {PortType::Reset, VarCastType::Reset}};")]),
("dec-keep",C,[(T,"Var::move_src_to(port, var, parent, true);","Var::move_src_to(port, var, parent, false);")]),
("dec-out-filter",C,[(T,"if (stmt->generator_parent() == port->generator()->parent_generator())\n                    sinks.emplace(stmt);","sinks.emplace(stmt);")]),
("dec-out-gen",C,[(T,"correct_src_type_ && src->generator() == generator->parent() &&","correct_src_type_ &&")]),
("dec-out-right",C,[(T,"&&\n                    stmt->right() == port) {",") {")]),
("dec-struct",C,[(T,"            if (port->is_struct()) {\n                auto packed = port->as<PortPackedStruct>();\n                parent->var_packed(new_name, packed->packed_struct());\n            } else {\n                auto& v = parent->var(new_name, port->var_width(), port->size(), port->is_signed());\n                v.set_is_packed(port->is_packed());\n                v.set_explicit_array(port->explicit_array());\n            }\n            auto var","            if (port->is_struct() && port->size().front() == 1) {\n                auto packed = port->as<PortPackedStruct>();\n                parent->var_packed(new_name, packed->packed_struct());\n            } else {\n                auto& v = parent->var(new_name, port->var_width(), port->size(), port->is_signed());\n                v.set_is_packed(port->is_packed());\n                v.set_explicit_array(port->explicit_array());\n            }\n            auto var")]),
("dec-iface-internal",C,[(T,"                process_port(generator, port, port_name);\n            }","                if (!interface->is_port()) process_port(generator, port, port_name);\n            }")]),
("lift-one",C,[(T,"if (generators.size() <= 1) continue;","if (generators.size() <= 2) continue;")]),
("lift-range",C,[(T,"if (slice->high != slice->low) {","if (slice->high < slice->low) {")]),
("lift-two-parents",C,[(T,"if (info.size() != 1) {","if (info.empty()) {")]),
("lift-size",C,[(T,"""                                   if (links.size() != generators.size()) {
                                       return false;
                                   }
                                   for (uint64_t i = 0; i < generators.size(); i++) {
                                       if (links.find(i) == links.end()) {
                                           return false;
                                       }
                                   }""","""                                   if (links.size() != generators.size()) {
                                       return false;
                                   }""")]),
("lift-range-end",C,[(T,"ForStmt>(new_var, 0, generators.size(), 1)","ForStmt>(new_var, 0, generators.size() - 1, 1)")]),
("lift-target",C,[(T,"target_var = target_var_base->operator[](iter).shared_from_this();","target_var = target_var_base->operator[](*mapping.second.begin()).shared_from_this();")]),
("lift-remove",C,[(T,"            gen->remove_stmt(s->shared_from_this());\n","")]),
("lift-setparent",C,[(T,"            s->set_parent(for_stmt.get());\n","")]),
("legal-dir",C,[(T,"if (port->port_direction() != PortDirection::In) continue;\n            auto sinks","if (port->port_direction() == PortDirection::Out) continue;\n            auto sinks")]),
("legal-parent",C,[(T,"if (stmt->generator_parent() != parent_gen) continue;","if (stmt->generator_parent() == gen) continue;")]),
("legal-case",C,[(T,"                            case_->set_target(src);","                            case_->set_target(port);")]),
("legal-expr",C,[(T,"                        auto expr = right->as<Expr>();\n                        change_var_expr(expr, port.get(), src.get(), false);","                        auto expr = right->as<Expr>();\n                        change_var_expr(expr, port.get(), src.get(), true);")]),
("fsm-parent",C,[(T,"!iter.second->realized() && !iter.second->parent_fsm()","!iter.second->realized()")]),
("fsm-cloned",C,[(T,"        if (generator->is_cloned()) return;\n        for (auto const& iter : generator->fsms())","        for (auto const& iter : generator->fsms())")]),
("sort-latch",C,[(T,"&latch_assignments,\n                      &combinational_assignments, &sequential_assignments}","\n                      &combinational_assignments, &sequential_assignments, &latch_assignments}")]),
("sort-init-order",C,[(T,"!= StatementBlockType::Initial) return 0;","== StatementBlockType::Sequential) return 0;")]),
("clk-next",C,[(T,"if (!edge.var && seq->next()) {","if (!edge.var) {")]),
("clk-neg",C,[(T,"edge.edge = EventEdgeType::Posedge;","edge.edge = EventEdgeType::Negedge;")]),
("clk-cast",C,[(T,"if (casted->cast_type() == VarCastType::Clock)\n","")]),
("clk-gen",C,[(T,"if (src_var->generator() == generator) {","{")]),
("clk-many",C,[(T,"if (clk_vars.size() == 1) {","if (!clk_vars.empty()) {")]),
("prop-set",C,[(T,"            generator->add_stmt(stmt);\n            stmt->set_parent(generator);","            stmt->set_parent(generator);")]),
]
