import sys; sys.path.insert(0,'/verif/dev')
from fx import *
sub('expr.cc','''                                             ExprOp::LessEqThan, ExprOp::GreaterEqThan,
                                             ExprOp::Eq,         ExprOp::Neq};''','''                                             ExprOp::LessEqThan, ExprOp::GreaterEqThan,
                                             ExprOp::Eq,         ExprOp::Neq,
                                             ExprOp::LAnd,       ExprOp::LOr};''')
commit('fix: logical and/or yield a single bit')
sub('expr.cc','''ExprOp::UXor,  ExprOp::UPlus, ExprOp::UOr,
                                             ExprOp::UNot,  ExprOp::UXor,  ExprOp::UInvert,''','''ExprOp::UAnd,  ExprOp::UPlus, ExprOp::UOr,
                                             ExprOp::UNot,  ExprOp::UXor,  ExprOp::UInvert,''')
sub('expr.cc','''    return generator()->expr(ExprOp::Minus, const_cast<Var *>(this), nullptr);''','''    return generator()->expr(ExprOp::UMinus, const_cast<Var *>(this), nullptr);''')
commit('fix: unary minus and reduction and are unary operators')
sub('expr.cc','''            size_.back() = high - low + 1;''','''            size_.front() = high - low + 1;''')
commit('fix: a range slice resizes the dimension it selects from')
sub('expr.cc','''void VarSlice::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
    Var *parent = parent_var;
    parent->remove_source(stmt);''','''void VarSlice::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
    Var *parent = parent_var;
    parent->remove_sink(stmt);''')
sub('expr.cc','''    VarSlice::remove_source(stmt);
    sliced_var_->remove_source(stmt);''','''    VarSlice::remove_source(stmt);
    sliced_var_->remove_sink(stmt);''')
sub('expr.hh','''    void clear_sinks(bool remove_parent) override { parent_var_->clear_sources(remove_parent); }
    void clear_sources(bool remove_parent) override { parent_var_->clear_sinks(remove_parent); }''','''    void clear_sinks(bool remove_parent) override { parent_var_->clear_sinks(remove_parent); }
    void clear_sources(bool remove_parent) override { parent_var_->clear_sources(remove_parent); }''')
sub('port.hh','''    void clear_sinks(bool remove_parent = false) override { var_->clear_sources(remove_parent); }
    void clear_sources(bool remove_parent = false) override { var_->clear_sinks(remove_parent); }''','''    void clear_sinks(bool remove_parent = false) override { var_->clear_sinks(remove_parent); }
    void clear_sources(bool remove_parent = false) override { var_->clear_sources(remove_parent); }''')
commit('fix: remove uses and drivers from the set they were added to')
# handle names
sub('expr.cc','''std::string Expr::handle_name(kratos::Generator *scope) const {
    return expr_to_string(this, true, false, scope);''','''std::string Expr::handle_name(kratos::Generator *scope) const {
    return expr_to_string(this, true, false, false, scope);''')
sub('expr.hh','''    std::string to_string() const override;
    Var *parent_var() const { return parent_; }

private:
    Var *parent_;
};''','''    std::string to_string() const override;
    std::string handle_name(bool ignore_top) const override;
    std::string handle_name(Generator *scope) const override;
    // the operand; passes may replace it
    Var *parent_var() const { return left; }
};''')
s=rd('expr.hh')
s=s.replace('''return index == 0 ? parent_ : nullptr; }

    std::string to_string() const override;
    std::string handle_name(bool ignore_top)''','''return index == 0 ? left : nullptr; }

    std::string to_string() const override;
    std::string handle_name(bool ignore_top)''')
s=s.replace('''    void remove_source(const std::shared_ptr<AssignStmt> &stmt) override;

    std::string to_string() const override;
};

struct ConditionalExpr''','''    void remove_source(const std::shared_ptr<AssignStmt> &stmt) override;

    std::string to_string() const override;
    std::string handle_name(bool ignore_top) const override;
    std::string handle_name(Generator *scope) const override;

private:
    [[nodiscard]] std::string duplicate_str(const std::string &value) const;
};

struct ConditionalExpr''')
wr('expr.hh',s)
s=rd('expr.cc')
a=s.index('VarExtend::VarExtend('); b=s.index('VarDuplicated::VarDuplicated(Var *var, uint32_t count)')
x=s[a:b].replace(', parent_(var.get())','').replace('parent_','left')
x=x.replace('''    return ::format("{0}'({1})", width(), left->to_string());
}
''','''    return ::format("{0}'({1})", width(), left->to_string());
}

std::string VarExtend::handle_name(bool ignore_top) const {
    return ::format("{0}'({1})", width(), left->handle_name(ignore_top));
}

std::string VarExtend::handle_name(kratos::Generator *scope) const {
    return ::format("{0}'({1})", width(), left->handle_name(scope));
}
''')
s=s[:a]+x+s[b:]
s=s.replace('''std::string VarDuplicated::to_string() const {
    if (left''','''std::string VarDuplicated::duplicate_str(const std::string &value) const {
    if (left''')
s=s.replace('''            return fmt::format("{{{0}{1}}}", right->to_string(), left->to_string());
        }
    }

    return fmt::format("{{{0}{{{1}}}}}", right->to_string(), left->to_string());
}''','''            return fmt::format("{{{0}{1}}}", right->to_string(), value);
        }
    }

    return fmt::format("{{{0}{{{1}}}}}", right->to_string(), value);
}

std::string VarDuplicated::to_string() const { return duplicate_str(left->to_string()); }

std::string VarDuplicated::handle_name(bool ignore_top) const {
    return duplicate_str(left->handle_name(ignore_top));
}

std::string VarDuplicated::handle_name(kratos::Generator *scope) const {
    return duplicate_str(left->handle_name(scope));
}''')
wr('expr.cc',s)
sub('expr.cc','''    auto pos = var_name.find(gen_name);
    if (pos != 0) {''','''    auto pos = var_name.find(gen_name);
    // the scope has to be a complete prefix: top.inst1 is not part of top.inst
    if (pos != 0 || var_name.size() <= gen_name.size() || var_name[gen_name.size()] != '.') {''')
sub('expr.cc','''    std::string cond_str = condition->type() == VarType::Expression
                               ? ::format("({0})", condition->to_string())
                               : condition->to_string();
    return ::format("{0} ? {1}: {2}", cond_str, left->to_string(), right->to_string());''','''    return conditional_str(condition->to_string(), left->to_string(), right->to_string());''')
sub('expr.cc','''std::string ConditionalExpr::to_string() const {''','''std::string ConditionalExpr::conditional_str(const std::string &cond, const std::string &left_str,
                                             const std::string &right_str) const {
    std::string cond_str =
        condition->type() == VarType::Expression ? ::format("({0})", cond) : cond;
    return ::format("{0} ? {1}: {2}", cond_str, left_str, right_str);
}

std::string ConditionalExpr::to_string() const {''')
sub('expr.cc','''    return ::format("{0} ? {1}: {2}", condition->handle_name(ignore_top),
                    left->handle_name(ignore_top), right->handle_name(ignore_top));''','''    return conditional_str(condition->handle_name(ignore_top), left->handle_name(ignore_top),
                           right->handle_name(ignore_top));''')
sub('expr.cc','''    return ::format("{0} ? {1}: {2}", condition->handle_name(scope), left->handle_name(scope),
                    right->handle_name(scope));''','''    return conditional_str(condition->handle_name(scope), left->handle_name(scope),
                           right->handle_name(scope));''')
sub('expr.hh','''    Var *condition;
};''','''    Var *condition;

private:
    [[nodiscard]] std::string conditional_str(const std::string &cond, const std::string &left_str,
                                              const std::string &right_str) const;
};''')
commit('fix: hierarchical names of expressions')
sub('expr.cc','''    std::vector<std::string> names;
    names.reserve(args_.size());
    for (auto const &iter : args_) names.emplace_back(iter.second->to_string());
    // calling ordering
    if (!func_def_->port_ordering().empty()) {
        auto ordering = func_def_->port_ordering();
        std::unordered_map<std::string, uint32_t> indexing;
        indexing.reserve(ordering.size());
        for (auto const &[var_name, var] : args_) {
            indexing.emplace(var->to_string(), ordering.at(var_name));
        }
        std::sort(names.begin(), names.end(), [&](auto const &lhs, auto const &rhs) {
            return indexing.at(lhs) < indexing.at(rhs);
        });
    }
''','''    std::vector<std::string> arg_names;
    arg_names.reserve(args_.size());
    for (auto const &iter : args_) arg_names.emplace_back(iter.first);
    // calling ordering
    if (!func_def_->port_ordering().empty()) {
        auto ordering = func_def_->port_ordering();
        std::sort(arg_names.begin(), arg_names.end(), [&](auto const &lhs, auto const &rhs) {
            return ordering.at(lhs) < ordering.at(rhs);
        });
    }
    std::vector<std::string> names;
    names.reserve(args_.size());
    for (auto const &arg_name : arg_names) names.emplace_back(args_.at(arg_name)->to_string());
''')
sub('expr.cc','''        var_width_ = handle->width();
        size_ = handle->size();''','''        var_width_ = handle->var_width();
        size_ = handle->size();''')
commit('fix: function call arguments follow the port order, array return width')
