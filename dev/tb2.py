B = [
 ("prestmt-first", "C11", [("stmt.cc", "    if (index != 0 && index < block->size()) {", "    if (index > 1 && index < block->size()) {")]),
 ("scope-override", "C11", [("stmt.cc", "    if (override || scope_context_.find(name) == scope_context_.end()) {", "    if (override && scope_context_.find(name) == scope_context_.end()) {")]),
 ("copymeta-comment", "C11", [("stmt.cc", "    stmt->verilog_ln = verilog_ln;\n    stmt->comment = comment;", "    stmt->verilog_ln = verilog_ln;\n    if (stmt->comment.empty()) stmt->comment = stmt->comment;")]),
 ("const-narrow", "C03,C05", [("stmt.cc", "Const::is_legal(const_->value(), left->width(), left->is_signed()) ==", "Const::is_legal(const_->value(), const_->width(), left->is_signed()) ==")]),
 ("set-predicate-sink", "C09,C11", [("stmt.cc", "void IfStmt::set_predicate(const std::shared_ptr<Var> &var) {\n    predicate_stmt_->clear();", "void IfStmt::set_predicate(const std::shared_ptr<Var> &var) {")]),
 ("set-then-noparent", "C11,C09", [("stmt.cc", "        then_body_->clear();\n        for (auto &s : *stmt) {\n            then_body_->add_stmt(s);\n        }", "        then_body_->clear();\n        for (auto &s : *stmt) {\n            if (s->type() != StatementType::Switch) then_body_->add_stmt(s);\n        }")]),
 ("if-clone-else", "C11", [("stmt.cc", "    if_->else_body_ = else_clone->as<ScopedStmtBlock>();\n    if_->else_body_->set_parent(if_.get());", "    if (else_body_->size() > 1) if_->else_body_ = else_clone->as<ScopedStmtBlock>();\n    if_->else_body_->set_parent(if_.get());")]),
 ("for-sign", "C11,C05,C08", [("stmt.cc", "    bool sign = start < 0 || end < 0;", "    bool sign = start < 0;")]),
 ("seq-cond-dedupe", "C11,C13", [("stmt.cc", "return event.var == condition.second.get() && event.edge == condition.first;", "return event.var == condition.second.get();")]),
 ("seq-child-cond", "C10", [("stmt.cc", "        auto const &cond = conditions_[index - stmts_.size()];", "        auto const &cond = conditions_[conditions_.size() - 1];")]),
 ("switch-default-merge", "C11", [("stmt.cc", "        if ((!switch_case && !c) || (switch_case && c && c->value() == switch_case->value())) {", "        if (!c == !switch_case || (switch_case && c && c->value() == switch_case->value())) {")]),
 ("switch-set-target", "C11,C09", [("stmt.cc", "    target_stmt_->clear();\n    target_ = target;", "    if (target_ != target) target_stmt_->clear();\n    target_ = target;"), ]),
 ("switch-child-order", "C10", [("stmt.cc", "[](auto const &a, auto const &b) { return a.first < b.first; });", "[](auto const &a, auto const &b) { return a.second < b.second; });")]),
 ("switch-remove-all", "C11", [("stmt.cc", "            if (s == stmt) {\n                remove_switch_case(c, stmt);\n                break;", "            if (s == stmt) {\n                remove_switch_case(c);\n                break;")]),
 ("filter-target", "C11", [("stmt.cc", "            if (stmt->right()->generator() == target) result.emplace(stmt);", "            if (stmt->left()->generator() == target) result.emplace(stmt);")]),
 ("fn-handler-sign", "C27", [("stmt.cc", "        std::make_shared<Port>(parent_, PortDirection::In, function_name_ + \"_return\", width, 1,\n                               PortType::Data, is_signed);", "        std::make_shared<Port>(parent_, PortDirection::In, function_name_ + \"_return\", width, 1,\n                               PortType::Data, is_signed && width > 1);")]),
 ("dpi-order", "C27", [("stmt.cc", "    // record the ordering\n    port_ordering_.emplace(name, port_ordering_.size());\n    return FunctionStmtBlock::input(name, width, is_signed);", "    // record the ordering\n    port_ordering_.emplace(name, ports_.size() + 1);\n    return FunctionStmtBlock::input(name, width, is_signed);")]),
 ("block-parent", "C15,C11", [("stmt.cc", "        if (p->ir_node_kind() != IRNodeKind::GeneratorKind) {\n            p = p->parent();", "        if (p->ir_node_kind() == IRNodeKind::StmtKind) {\n            p = p->parent();")]),
 ("addstmt-null-type", "C11", [("stmt.cc", "        } else if (assign_stmt->assign_type() == AssignmentType::NonBlocking &&\n                   block_type_ == StatementBlockType::Combinational) {", "        } else if (assign_stmt->assign_type() == AssignmentType::NonBlocking &&\n                   block_type_ != StatementBlockType::Sequential) {")]),
 ("event-width", "C03,C11,C13", [("stmt.cc", "            return ::format(\"{0} {1}\", edge == EventEdgeType::Posedge ? \"posedge\" : \"negedge\",", "            return ::format(\"{0} {1}\", edge == EventEdgeType::Negedge ? \"posedge\" : \"negedge\",")]),
 ("assign-eq", "C11", [("stmt.cc", "bool AssignStmt::equal(const std::shared_ptr<AssignStmt> &stmt) const {\n    return left_ == stmt->left_ && right_ == stmt->right_;", "bool AssignStmt::equal(const std::shared_ptr<AssignStmt> &stmt) const {\n    return left_ == stmt->left_ || right_ == stmt->right_;")]),
 ("block-clear", "C09,C11", [("stmt.cc", "    for (auto &stmt : stmts_) {\n        stmt->clear();\n    }\n    stmts_.clear();", "    for (auto &stmt : stmts_) {\n        if (stmt->type() == StatementType::Assign) stmt->clear();\n    }\n    stmts_.clear();")]),
 ("scope-case", "C11", [("stmt.cc", "    for (auto &iter : body_) {\n        iter.second->add_scope_variable(name, value, is_var, override);\n    }", "    for (auto &iter : body_) {\n        if (iter.first) iter.second->add_scope_variable(name, value, is_var, override);\n    }")]),
 ("comb-clone-gp", "C11", [("stmt.cc", "    stmt->general_purpose_ = general_purpose_;\n", "")]),
 ("setchild", "C11", [("stmt.cc", "    if (index < stmts_.size()) {\n        stmts_[index] = stmt;\n        stmt->set_parent(this);\n    }", "    if (index < stmts_.size()) {\n        stmts_[index] = stmt;\n        if (!stmt->parent()) stmt->set_parent(this);\n    }")]),
]
