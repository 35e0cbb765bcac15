X="stmt.cc"
B=[
("pre-stmt-last","C11",[(X,"    if (index != 0 && index < block->size()) {","    if (index > 1 && index < block->size()) {")]),
("stmt-parent-last","C11,C13",[(X,"""            pre = p;
            p = p->parent();
        } else {
            break;
        }
    }
    return dynamic_cast<Stmt *>""","""            if (reinterpret_cast<const Stmt *>(p)->type() != StatementType::For) pre = p;
            p = p->parent();
        } else {
            break;
        }
    }
    return dynamic_cast<Stmt *>""")]),
("scope-override","C11",[(X,"    if (override || scope_context_.find(name) == scope_context_.end()) {","    if (scope_context_.find(name) == scope_context_.end() || (override && is_var)) {")]),
("assign-const-width","C03,C05",[(X,"            if (Const::is_legal(const_->value(), left->width(), left->is_signed()) ==\n                Const::ConstantLegal::Legal) {\n                has_error = false;\n                const_","            if (right->width() > left->width() || Const::is_legal(const_->value(), left->width(), left->is_signed()) ==\n                Const::ConstantLegal::Legal) {\n                has_error = false;\n                const_")]),
("assign-packed-size","C03",[(X,"    if (((left->size().front() > 1 || left->size().size() > 1 || left->explicit_array()) ||\n         (right->size()","    if (((left->size().front() > 1 || left->size().size() > 1 || left->explicit_array()) &&\n         (right->size()")]),
("assign-equal-op","C11,C06",[(X,"bool AssignStmt::equal(const std::shared_ptr<AssignStmt> &stmt) const {\n    return left_ == stmt->left_ && right_ == stmt->right_;","bool AssignStmt::equal(const std::shared_ptr<AssignStmt> &stmt) const {\n    return left_ == stmt->left_ && right_->width() == stmt->right_->width() && (right_ == stmt->right_ || right_->name == stmt->right_->name);")]),
("assign-clone-delay","C11",[(X,"    stmt->delay_ = delay_;\n    copy_meta(stmt);","    if (assign_type_ != AssignmentType::Blocking) stmt->delay_ = delay_;\n    copy_meta(stmt);")]),
("assign-clear-right","C09",[(X,"    right_->remove_sink(shared_from_this()->as<AssignStmt>());\n    parent_ = nullptr;","    if (parent_) right_->remove_sink(shared_from_this()->as<AssignStmt>());\n    parent_ = nullptr;")]),
("assign-clear-parent","C09",[(X,"    right_->remove_sink(shared_from_this()->as<AssignStmt>());\n    parent_ = nullptr;","    right_->remove_sink(shared_from_this()->as<AssignStmt>());")]),
("if-setpred-late","C09",[(X,"    predicate_stmt_->clear();\n    assert(var->ir_node_kind() == IRNodeKind::VarKind);\n    predicate_ = var;","    assert(var->ir_node_kind() == IRNodeKind::VarKind);\n    if (predicate_->width() != var->width()) predicate_stmt_->clear();\n    predicate_ = var;")]),
("if-remove-both","C11",[(X,"        if (s == stmt) {\n            remove_then_stmt(stmt);\n            return;","        if (s == stmt || s->type() == stmt->type()) {\n            remove_then_stmt(stmt);\n            return;")]),
("if-setelse-noclear","C11",[(X,"    if (else_body_ != stmt) {\n        else_body_->clear();","    if (else_body_ != stmt) {\n        if (!stmt->empty()) else_body_->clear();")]),
("if-clone-pred","C11",[(X,"    if_->else_body_->set_parent(if_.get());\n\n    copy_meta(if_);","    if_->else_body_->set_parent(else_body_->parent());\n\n    copy_meta(if_);")]),
("for-sign-start","C11,C08",[(X,"    bool sign = start < 0 || end < 0;","    bool sign = start < 0 || step < 0;")]),
("for-parent-gen","C11,C15",[(X,"    if (gen) {\n        iter_->set_generator(gen);\n    }\n    Stmt::set_parent(node);","    if (gen && !iter_->generator()) {\n        iter_->set_generator(gen);\n    }\n    Stmt::set_parent(node);")]),
("for-genvar-kind","C11,C18",[(X,"            if (!is_genvar || !all_instantiation || node->ir_node_kind()","XX")] if False else [(X,"        if (!is_genvar || !all_instantiation ||","        if ((!is_genvar && !all_instantiation) ||")]),
("for-clone-step","C11",[(X,"std::make_shared<ForStmt>(iter_->name, start_, end_, step_);","std::make_shared<ForStmt>(iter_->name, start_, end_, end_ < start_ ? -1 : step_);")]),
("genvar-index","C11",[(X,"        return pos - gen_var_stmts_.begin();","        return gen_var_stmts_.end() - pos - 1;")]),
("block-dup","C11",[(X,"    if (std::find(stmts_.begin(), stmts_.end(), stmt) != stmts_.end()) {","    if (!stmts_.empty() && stmts_.back() == stmt) {")]),
("block-nb","C11,C18",[(X,"                   block_type_ == StatementBlockType::Combinational) {","                   block_type_ == StatementBlockType::Combinational && !stmts_.empty()) {")]),
("block-blocking","C11,C18",[(X,"""        } else if (assign_stmt->assign_type() == AssignmentType::Blocking &&
                   block_type_ == StatementBlockType::Sequential) {""","""        } else if (assign_stmt->assign_type() == AssignmentType::Blocking &&
                   block_type_ == StatementBlockType::Initial) {""")]),
("block-setchild","C11",[(X,"        stmts_[index] = stmt;\n        stmt->set_parent(this);","        if (stmts_[index]) stmts_[index]->clear();\n        stmts_[index] = stmt;\n        stmt->set_parent(parent_);")]),
("clone-block-order","C11",[(X,"        block->add_stmt(stmt->clone());\n    }","        block->add_stmt(stmt->type() == StatementType::Comment ? stmt : stmt->clone());\n    }")]),
("seq-cond","C11",[(X,"            return event.var == condition.second.get() && event.edge == condition.first;","            return event.var == condition.second.get();")]),
("seq-child","C10",[(X,"        auto const &cond = conditions_[index - stmts_.size()];","        auto const &cond = conditions_[stmts_.size() + conditions_.size() - 1 - index];")]),
("seq-child-off","C10",[(X,"    } else if (index < stmts_.size() + conditions_.size()) {","    } else if (index + 1 < stmts_.size() + conditions_.size()) {")]),
("switch-settarget","C09",[(X,"    target_ = target;\n    target_stmt_ =","    target_stmt_ =")] ),
("switch-clear-old","C09",[(X,"    target_stmt_->clear();\n    target_ = target;","    if (target_ != target) target_stmt_->clear();\n    target_ = target;")]),
("switch-default-dup","C11",[(X,"        if ((!switch_case && !c) || (switch_case","        if ((!switch_case && !c && !s->empty()) || (switch_case")]),
("switch-value-width","C11",[(X,"c && c->value() == switch_case->value())) {","c && c->value() == switch_case->value() && c->is_signed() == switch_case->is_signed())) {")]),
("switch-vec-empty","C11",[(X,"    for (const auto &stmt : stmts) body = &add_switch_case(switch_case, stmt);\n    return","    for (const auto &stmt : stmts) {\n        if (stmt->parent() != this) body = &add_switch_case(switch_case, stmt);\n    }\n    return")]),
("switch-child-default","C10",[(X,"                iter.first ? iter.first->value() : std::numeric_limits<uint64_t>::max(),","                iter.first ? iter.first->value() : 0,")]),
("switch-remove-all","C11",[(X,"            if (s == stmt) {\n                remove_switch_case(c, stmt);\n                break;","            if (s == stmt) {\n                remove_switch_case(c);\n                return;")]),
("switch-clear-target","C09",[(X,"void SwitchStmt::clear() {\n    target_stmt_->clear();","void SwitchStmt::clear() {\n    if (body_.empty()) target_stmt_->clear();")]),
("switch-scope","C11",[(X,"    for (auto &iter : body_) {\n        iter.second->add_scope_variable(name, value, is_var, override);","    for (auto &iter : body_) {\n        if (iter.first) iter.second->add_scope_variable(name, value, is_var, override);")]),
("comb-clone-gp","C11",[(X,"    stmt->general_purpose_ = general_purpose_;\n","")]),
("seq-clone","C11",[(X,"    stmt->conditions_ = std::vector(conditions_);","    stmt->conditions_ = {conditions_.begin(), conditions_.begin() + 1};")]),
("fn-handler-name","C27",[(X,"function_name_ + \"_return\", width, 1,\n                               PortType::Data, is_signed);","function_name_ + \"_return\", width, 1,\n                               PortType::Data, is_signed && width > 1);")]),
("fn-order","C27",[(X,"    if (ordering.size() != ports_.size())","    if (ordering.size() > ports_.size())")]),
("dpi-order","C27",[(X,"                                                  bool is_signed) {\n    // record the ordering\n    port_ordering_.emplace(name, port_ordering_.size());","                                                  bool is_signed) {\n    // record the ordering\n    port_ordering_.emplace(name, ports_.size() + 1);")]),
("dpi-pure","C27",[(X,"    is_pure_ = value;\n    is_context_ = !value;","    is_pure_ = value;\n    if (value) is_context_ = true;")]),
("return-task","C27",[(X,"    func_def_->set_has_return_value(true);","    if (func_def_->function_handler()) func_def_->set_has_return_value(true);")]),
("return-width","C27",[(X,"        func_def_->create_function_handler(value_->width(), value_->is_signed());","        func_def_->create_function_handler(value_->var_width(), value_->is_signed());")]),
("break-switch","C27,C11",[(X,"            if (s->type() == StatementType::For) {\n                for_ = s;","            if (s->type() == StatementType::For || s->type() == StatementType::Switch) {\n                for_ = s;")]),
("call-width-sign","C27,C03",[(X,"        if (func_port->is_signed() != arg_port->is_signed())\n            throw","        if (func_port->is_signed() && !arg_port->is_signed())\n            throw")]),
("inst-in-conn","C11,C13",[(X,"            connection_stmt_.emplace(stmt.get());\n","            if (parent->debug) connection_stmt_.emplace(stmt.get());\n")]),
("inst-out-left","C11",[(X,"                port_mapping_.emplace(port, stmt->left());\n                stmt->remove_from_parent();","                port_mapping_.emplace(port, stmt->left());\n                if (stmt->left()->type() != VarType::Slice) stmt->remove_from_parent();")]),
("inst-filter","C11",[(X,"            if (stmt->right()->generator() == target) result.emplace(stmt);","            if (stmt->generator_parent() == target) result.emplace(stmt);")]),
("comment-nl","C13",[(X,"        comment.erase(pos, 1);\n","        comment.erase(pos++, 1);\n")]),
("raw-empty","C13,C11",[(X,"    for (auto const &lines : stmt) {\n        auto tokens = string::get_tokens(lines, \"\\r\\n\");\n        for (auto const &line : tokens) {\n            if (!line.empty()) {","    for (auto const &lines : stmt) {\n        auto tokens = string::get_tokens(lines, \"\\r\\n\");\n        for (auto const &line : tokens) {\n            if (!line.empty() && stmts_.size() < stmt.size()) {")]),
]
