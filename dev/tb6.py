X="expr.cc"
B=[
("concat-nested-left","C08,C09",[(X,"""    vars_ = std::vector<Var *>(first->vars_.begin(), first->vars_.end());
    vars_.emplace_back(second.get());
    var_width_ = first->width() + second->width();""","""    vars_ = std::vector<Var *>(first->vars_.begin(), first->vars_.end());
    if (second->type() == VarType::Expression && second->as<Expr>()->op == ExprOp::Concat) {
        auto const &other = second->as<VarConcat>()->vars();
        vars_.insert(vars_.end(), other.begin(), other.end() - 1);
    }
    vars_.emplace_back(second.get());
    var_width_ = first->width() + second->width();""")]),
("concat-add-var-sink","C09,C08",[(X,"""    vars_[0]->add_concat_var(result);
    return *result;""","""    vars_.back()->add_concat_var(result);
    return *result;""")]),
("extend-width-eq","C04,C08",[(X,"""    if (width < left->width()) {
        throw VarException(::format("Cannot extend {0}""","""    if (width <= left->width() && !left->is_signed()) {
        throw VarException(::format("Cannot extend {0}""")]),
("extend-array-const","C04",[(X,"""    if (left->size().size() > 1 || left->size().front() > 1 ||
        (left->explicit_array()""","""    if (left->size().size() > 1 || left->size().front() > 2 ||
        (left->explicit_array()""")]),
("extend-sign-late","C08",[(X,"""    var_width_ = width;
    is_signed_ = left->is_signed();
    if (left->size()""","""    var_width_ = width;
    is_signed_ = left->is_signed() && left->type() != VarType::Slice;
    if (left->size()""")]),
("dup-count-width","C08,C31",[(X,"""    return static_cast<uint32_t>(count->value()) * left->width();
}

void VarDuplicated::add_sink""","""    return static_cast<uint32_t>(count->value()) * left->var_width();
}

void VarDuplicated::add_sink""")]),
("dup-str-nest","C07",[(X,"""        if (expr->op == ExprOp::Concat) {
            return fmt::format("{{{0}{1}}}", right->to_string(), value);""","""        if (is_expand_op(expr->op)) {
            return fmt::format("{{{0}{1}}}", right->to_string(), value);""")]),
("const-to-string-min","C07",[(X,"""        return ::format("-{0}\\'h{1:X}", width(), -static_cast<uint64_t>(value_));""","""        return ::format("-{0}\\'h{1:X}", width(), static_cast<uint32_t>(-value_));""")]),
("const-str-signed64","C07",[(X,"""    } else if (is_signed_ && value_ < 0) {
        return ::format("-{0}""","""    } else if (is_signed_ && value_ < 0 && width() < 64) {
        return ::format("-{0}""")]),
("expr-str-assoc","C07",[(X,"""                      expr->op == right->as<Expr>()->op && is_associative_op(expr->op), use_handle,""","""                      expr->op == right->as<Expr>()->op && !is_relational_op(expr->op), use_handle,""")]),
("expr-str-unary-paren","C07",[(X,"""                                         right && expr->op == left->as<Expr>()->op, use_handle,""","""                                         expr->op == left->as<Expr>()->op, use_handle,""")]),
("expr-str-neg-const","C07",[(X,"""        if (!left_str.empty() && left_str.front() == '-') left_str""","""        if (!left_str.empty() && left_str.front() == '-' && !is_top) left_str""")]),
("expr-scope-ignored","C07",[(X,"""                      expr->op == right->as<Expr>()->op && is_associative_op(expr->op), use_handle,
                      ignore_top, scope)""","""                      expr->op == right->as<Expr>()->op && is_associative_op(expr->op), use_handle,
                      ignore_top)""")]),
("cond-str","C07",[(X,"""    std::string cond_str =
        condition->type() == VarType::Expression ?""","""    std::string cond_str =
        condition->type() == VarType::Expression && condition->as<Expr>()->right ?""")]),
("cond-handle","C07",[(X,"""    return conditional_str(condition->handle_name(scope), left->handle_name(scope),
                           right->handle_name(scope));""","""    return conditional_str(condition->handle_name(scope), left->handle_name(scope),
                           right->to_string());""")]),
("slice-nested-order","C09",[(X,"""    std::reverse(slices.begin(), slices.end());
    for (auto const &s : slices) {""","""    if (slices.size() > 2) std::reverse(slices.begin(), slices.end());
    for (auto const &s : slices) {""")]),
("change-expr-else","C09",[(X,"""    if (expr->right && expr->right == target) {
        expr->right = new_var;
        if (move_linked)""","""    else if (expr->right && expr->right == target) {
        expr->right = new_var;
        if (move_linked)""")]),
("change-cast-right","C09",[(X,"""    if (expr->right && expr->right->type() == VarType::BaseCasted) {
        change_operand(expr->right, target""","""    else if (expr->right && expr->right->type() == VarType::BaseCasted) {
        change_operand(expr->right, target""")]),
("change-setparent","C09,C08",[(X,"""        change_operand(ternary->condition, target, new_var, move_linked);
    }
    expr->set_parent();""","""        change_operand(ternary->condition, target, new_var, move_linked);
        return;
    }
    expr->set_parent();""")]),
("move-linked-concat","C09",[(X,"""        concat->move_linked_to(new_var);
        concat->replace_var(""","""        concat->replace_var(""")]),
("move-linked-slices","C09",[(X,"""    new_var->slices_ = std::vector(slices_.begin(), slices_.end());
    slices_.clear();""","""    if (new_var->slices_.empty()) new_var->slices_ = std::vector(slices_.begin(), slices_.end());
    slices_.clear();""")]),
("move-src-clear","C09",[(X,"""    var->clear_sources(false);

    if (keep""","""    if (!keep_connection) var->clear_sources(false);

    if (keep""")]),
("move-sink-param","C31,C09",[(X,"""        if (stmt->left()->parametrized() && !new_var->parametrized() &&
            stmt->left()->width_param()->generator() == new_var->generator()) {""","""        if (stmt->left()->parametrized() &&
            stmt->left()->width_param()->generator() == new_var->generator()) {""")]),
("move-sink-parent","C09",[(X,"""        if (stmt->generator_parent() != parent) {
            continue;
        }
        stmt_set_right""","""        if (stmt->generator_parent() != parent) {
            break;
        }
        stmt_set_right""")]),
("clear-sinks-parent","C09",[(X,"""            if (stmt->parent()) stmt->remove_from_parent();""","""            if (stmt->parent() && stmt->generator_parent()) stmt->remove_from_parent();""")]),
("cond-remove-sink","C09",[(X,"""    condition->remove_sink(stmt);
    left->remove_sink(stmt);
    right->remove_sink(stmt);""","""    if (condition != left) condition->remove_sink(stmt);
    if (left != right) left->remove_sink(stmt);
    right->remove_sink(stmt);""")]),
("cond-create-sign","C08,C03,C05",[(X,"""Const::constant(left, right->width(), right->is_signed()).shared_from_this();
    return std::make_shared<ConditionalExpr>(condition, left_const, right);""","""Const::constant(left, right->width(), right->is_signed() || left < 0).shared_from_this();
    return std::make_shared<ConditionalExpr>(condition, left_const, right);""")]),
("struct-def-same","C30",[(X,"""        return name == def.name && width == def.width && signed_ == def.signed_;""","""        return name == def.name && width == def.width && (width == 1 || signed_ == def.signed_);""")]),
("struct-same-mixed","C30",[(X,"""    return false;
}

PackedStruct::PackedStruct(std::string struct_name,
                           const std::vector<std::tuple<std::string, uint32_t, bool>>""","""    return name == def.name && bitwidth() == def.bitwidth();
}

PackedStruct::PackedStruct(std::string struct_name,
                           const std::vector<std::tuple<std::string, uint32_t, bool>>""")]),
("struct-nested-width","C30,C08",[(X,"""            low_ += def.bitwidth();""","""            low_ += def.width ? def.width : def.bitwidth();""")]),
("struct-varlow","C08,C30",[(X,"""            var_low_ = low + parent_var->var_low();
            var_width_ = var_high_ - var_low_ + 1;""","""            var_low_ = low + parent_var->var_low();
            var_width_ = def.bitwidth();""")]),
("member-original","C30",[(X,"""    if (original_struct_) {
        struct_ = original_struct_;
    } else if (is_struct()) {
        struct_ = def_->struct_;""","""    if (is_struct()) {
        struct_ = def_->struct_;
    } else if (original_struct_) {
        struct_ = original_struct_;""")]),
("pstruct-array","C30,C04",[(X,"""    if (width() != var_width())
        throw UserException(
            ::format("Unable to access member of {0}, which is an array", to_string()));
    auto ptr = std::make_shared<PackedSlice>(this, member_name);""","""    if (size_.size() > 1 && width() != var_width())
        throw UserException(
            ::format("Unable to access member of {0}, which is an array", to_string()));
    auto ptr = std::make_shared<PackedSlice>(this, member_name);""")]),
("enum-overlap","C30,C06",[(X,"""        for (auto const &iter2 : values_) {
            used_names.emplace(iter2.first);""","""        for (auto const &iter2 : values_) {
            if (enum_->values.size() != values.size()) continue;
            used_names.emplace(iter2.first);""")]),
("strconst-size","C05",[(X,"""    auto const min_size = value_.size() * 8u;
    if (min_size > width)""","""    auto const min_size = value_.size() * 8u;
    if (min_size > width && min_size <= 64)""")]),
("safe-resize-parent","C03",[(X,"""        if (p->type() == VarType::Base || p->type() == VarType::PortIO)
            return var->width() <= target_size;""","""        if (p->type() == VarType::Base)
            return var->width() <= target_size;""")]),
("iter-extract-unary","C03",[(X,"""        extract_iter_var(expr->left, iters);
        extract_iter_var(expr->right, iters);""","""        extract_iter_var(expr->left, iters);
        if (iters.empty()) extract_iter_var(expr->right, iters);""")]),
]
