X="analysis.cc"
def e(*p): return [(X,a,b) for a,b in p]
B=[
("va-top-last","C18",e(("            if (stmt->parent()->ir_node_kind() == IRNodeKind::GeneratorKind) {\n                is_top_level = true;\n                break;\n            }","            is_top_level = stmt->parent()->ir_node_kind() == IRNodeKind::GeneratorKind;\n            if (!is_top_level) break;"))),
("va-expr-shift","C18",e(("            if (!is_relational && !is_reduction && right && right->width() != width && !is_expand) {","            if (!is_relational && !is_reduction && right && right->width() != width && !is_expand &&\n                right->type() != VarType::Expression) {"))),
("va-expr-rec","C18",e(("            if (right && right->type() == VarType::Expression) {\n                check_expr(right, stmt);\n            }\n        }\n    }\n};","            else if (right && right->type() == VarType::Expression) {\n                check_expr(right, stmt);\n            }\n        }\n    }\n};"))),
("mix-first","C18",e(("            if (type == AssignmentType ::Undefined)\n                type = stmt->assign_type();","            if (type == AssignmentType ::Undefined || stmt->left() != var.get())\n                type = stmt->assign_type();"))),
("mix-slice","C18",e(("            if (stmt->left()->get_var_root_parent() != var.get()) continue;\n            if (type","            if (stmt->left() != var.get()) continue;\n            if (type"))),
("mix-nonport","C18",e(("            return has_non_port(context, expr->left) || has_non_port(context, expr->right);","            return has_non_port(context, expr->right ? expr->right : expr->left);"))),
("mix-nonport-const","C18",e(("            return var->generator() != context && var->type() != VarType::PortIO &&","            return var->generator() != context && var->type() == VarType::Base &&"))),
("mix-in-sibling","C18",e(("                    if (gen != context_g && gen->parent() != context_g &&\n                        gen->parent() != context_g) {","                    if (gen != context_g && gen->parent() != context_g &&\n                        gen->parent() != generator) {"))),
("mix-gen-parent","C18",e(("            if ((gen->parent() != generator && gen->parent() != generator->parent()) ||\n                has_non_port(generator, var)) {","            if ((gen->parent() != generator && gen->parent() != generator->parent()) &&\n                has_non_port(generator, var)) {"))),
("syn-dpi-task","C18",e(("        if (def->is_dpi() || def->is_task()) {","        if (def->is_dpi() && !def->is_task()) {"))),
("syn-builtin","C18",e(("            if (info && !info->synthesizable) {","            if (info && !info->synthesizable && info->return_width == 0) {"))),
("syn-initial","C18",e(("    void visit(InitialStmtBlock* stmt) override { nodes_.emplace_back(stmt); }","    void visit(InitialStmtBlock* stmt) override {\n        if (!stmt->empty()) nodes_.emplace_back(stmt);\n    }"))),
("act-low-reset","C18",e(("            if (expr->op == ExprOp::UNot || expr->op == ExprOp::UInvert) {","            if (expr->op == ExprOp::UInvert) {"))),
("act-sync-low","C18",e(("                    } else if (port->port_type() == PortType::Reset) {\n                        if (reset_map_.find(port.get()) != reset_map_.end()) {","                    } else if (port->port_type() == PortType::Reset && port->active_high()) {\n                        if (reset_map_.find(port.get()) != reset_map_.end()) {"))),
("act-declared","C18",e(("                    if (port->active_high()) {\n                        if (reset_high != (*port->active_high())) {","                    if (port->active_high() && reset_map_.find(port) == reset_map_.end()) {\n                        if (reset_high && reset_high != (*port->active_high())) {"))),
("act-inconsistent","C18",e(("                        if (reset_map_.at(port) != reset_high) {","                        if (reset_map_.at(port) && !reset_high && reset_stmt_.at(port) == stmt) {"))),
("ret-unreach","C18",e(("            if (index != block->size() - 1) {","            if (index + 2 < block->size()) {"))),
("ret-block-any","C18",e(("            if (check_stmt_condition(s, cond, check_unreachable, full_branch)) {\n                found = true;\n                break;","            if (check_stmt_condition(s, cond, check_unreachable, full_branch || check_unreachable)) {\n                found = true;\n                break;"))),
("ret-switch-default","C18",e(("            return cases.find(nullptr) != cases.end() || found_case == targeted_cases;","            return cases.find(nullptr) != cases.end() || found_case >= targeted_cases / 2;"))),
("ret-switch-enum","C18",e(("            targeted_cases = enum_def->values.size();","            targeted_cases = enum_def->values.size() - 1;"))),
("ret-if-unreach","C18",e(("            return check_stmt_condition(then.get(), cond, check_unreachable, full_branch) &&\n                   check","            return check_stmt_condition(then.get(), cond, false, full_branch) &&\n                   check"))),
("ret-for","C18",e(("        return check_stmt_condition(body.get(), cond, check_unreachable, full_branch);\n    }\n    return false;","        return check_stmt_condition(body.get(), cond, check_unreachable, true);\n    }\n    return false;"))),
("latch-slice","C18",e(("                    left = const_cast<Var*>(slice->get_var_root_parent());\n                }\n                return left == var;","                    if (!slice->sliced_by_var()) left = const_cast<Var*>(slice->get_var_root_parent());\n                }\n                return left == var;"))),
("latch-seq-first","C18",e(("                if (port->port_type() == PortType::Clock) continue;\n            }\n            // check every","                if (port->port_type() != PortType::AsyncReset) continue;\n            }\n            // check every"))),
("latch-seq-clock","C18",e(("                if (port->port_type() == PortType::Clock) continue;\n            }\n            // check every","                if (port->port_type() == PortType::Clock) break;\n            }\n            // check every"))),
("latch-comb-body","C18",e(("            check_stmt_block(stmt, iter.first, iter.second, true);","            check_stmt_block(stmt, iter.first, iter.second, iter.second.size() < 3);"))),
("latch-hasvar","C18",e(("                bool right = expr->right ? has_var(expr->right, target) : false;\n                return left || right;","                bool right = expr->right && left ? has_var(expr->right, target) : false;\n                return left || right;"))),
("md-share","C18",e(("        return !diff.empty();\n    }","        return !diff.empty() || node1 == node2;\n    }"))),
("md-forloop","C18",e(("            if (has_for_loop(stmt.get())) continue;","            if (has_for_loop(stmt.get())) break;"))),
("md-high","C18",e(("            uint32_t var_high = v->var_high();\n            for (uint32_t i = var_low; i <= var_high; i++) {","            uint32_t var_high = v->var_high();\n            for (uint32_t i = var_low; i < var_high || i == var_low; i++) {"))),
("md-comb","C18",e(("                                    if (block->block_type() == StatementBlockType::Combinational ||\n                                        block->block_type() == StatementBlockType::Latch) {","                                    if (block->block_type() != StatementBlockType::Sequential) {"))),
("md-seq-share","C18",e(("                                        has_multiple_driver = !share_root(parent, ref_parent);","                                        has_multiple_driver = !share_root(parent, stmt_parent);"))),
("loop-blocking","C18",e(("            if (stmt->assign_type() == AssignmentType::Blocking && has_var(stmt->right(), var) &&","            if (stmt->assign_type() == AssignmentType::Blocking && has_var(stmt->right(), stmt->left()) &&"))),
("ff-if-first","C18",e(("            if (s->type() == StatementType::If) has_if = true;\n            i++;\n        }","            if (s->type() == StatementType::If) has_if = true;\n            if (s->type() != StatementType::Comment) i++;\n            else break;\n        }"))),
("en-else","C18",e(("            if (if_->then_body().get() == stmt) {\n                expr = if_->predicate();","            if (if_->then_body().get() == stmt || if_->then_body()->empty()) {\n                expr = if_->predicate();"))),
("en-default","C18",e(("                    expr = expr ? expr->operator&&(*differs).shared_from_this() : differs;","                    expr = expr ? expr->operator||(*differs).shared_from_this() : differs;"))),
("en-nest","C18",e(("        auto rest_expr = get_cond(parent_stmt);\n        if (rest_expr) {","        auto rest_expr = get_cond(parent_stmt);\n        if (rest_expr && rest_expr != expr) {"))),
("en-attr","C18",e(("        auto pos = value_str.rfind(en_str);\n        if (pos == 0) {","        auto pos = value_str.rfind(en_str);\n        if (pos != std::string::npos) {"))),
("st-redef","C18",e(("            if (!struct_def->same(*struct_)) {","            if (struct_def->bitwidth() != struct_->bitwidth()) {"))),
("st-inner","C18,C13",e(("                if (attr.struct_) {\n                    process_struct_(attr.struct_, var);","                if (attr.struct_ && !attr.struct_->external) {\n                    process_struct_(attr.struct_, var);"))),
("st-signed","C13",e(("                if (def.width > 1) str.emplace_back(::format(\"[{0}:0]\", def.width - 1));\n                str.emplace_back(def.name);","                if (def.width > 1 || def.signed_) str.emplace_back(::format(\"[{0}:0]\", def.width - 1));\n                str.emplace_back(def.name);"))),
("dpi-size","C27",e(("            if (ref_ports.size() != ports.size())","            if (ref_ports.size() < ports.size())"))),
("dpi-dir","C27",e(("port->size() != port_ref->size() ||\n                    port->is_signed() != port_ref->is_signed() ||\n                    port->port_direction() != port_ref->port_direction()) {","port->size() != port_ref->size() ||\n                    port->is_signed() != port_ref->is_signed() ||\n                    (port->port_direction() != port_ref->port_direction() && port->width() > 1)) {"))),
("dpi-attr","C27",e(("            if (dpi_stmt->is_context() != ref_stmt->is_context() ||\n                dpi_stmt->is_pure() != ref_stmt->is_pure())","            if (dpi_stmt->is_context() != ref_stmt->is_context() &&\n                dpi_stmt->is_pure() != ref_stmt->is_pure())"))),
("dpi-width","C27",e(("        } else if (stmt->return_width() <= 8) {","        } else if (stmt->return_width() < 8) {"))),
("dpi-int-width","C27",e(("                if (port->width() <= 8) {\n                    type_str","                if (port->width() <= 8 && port->width() > 1) {\n                    type_str"))),
("if-ports","C18,C17",e(("                if (def->port(port_name) != ref_def->port(port_name))","                if (std::get<0>(def->port(port_name)) != std::get<0>(ref_def->port(port_name)))"))),
("if-vars","C18",e(("            if (ref_def->vars() != vars)","            if (ref_def->vars().size() > vars.size())"))),
("if-modport-comma","C13",e(("                stream << \"input \" << name;\n                if (++count != ports.size()) stream << \", \";","                stream << \"input \" << name;\n                if (++count != inputs.size()) stream << \", \";"))),
("reg-any","C18",e(("                if (stmt->assign_type() == AssignmentType::NonBlocking)\n                    names_","                if (stmt->assign_type() == AssignmentType::NonBlocking && sources.size() < 8)\n                    names_"))),
("sens-cast","C18",e(("                if (var_casted->cast_type() != VarCastType::Clock &&\n                    var_casted->cast_type() != VarCastType::AsyncReset) {","                if (var_casted->cast_type() == VarCastType::Signed ||\n                    var_casted->cast_type() == VarCastType::Unsigned) {"))),
("conn-slice-low","C18",e(("                        low = ptr->var_low();\n                        high = ptr->var_high();\n                    }\n                }","                        low = ptr->low;\n                        high = ptr->var_high();\n                    }\n                }"))),
("conn-top-flag","C18",e(("        if (generator->external() || generator->is_stub()) return;\n        const auto& port_names = generator->get_port_names();\n        for (const auto& port_name : port_names) {\n            auto const& port = generator->get_port(port_name);\n\n            // based","        if (generator->external() || generator->is_stub()) return;\n        const auto& port_names = generator->get_port_names();\n        if (port_names.empty()) return;\n        for (const auto& port_name : port_names) {\n            auto const& port = generator->get_port(port_name);\n\n            // based"))),
("conn-varslice","C18",e(("                        // possibly to hit all bits\n                        low = 0;\n                        high = port->width() - 1;","                        // possibly to hit all bits\n                        low = 0;\n                        high = port->var_width() - 1;"))),
]
