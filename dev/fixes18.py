from fx import *
sub('expr.cc','''void change_var_expr(const std::shared_ptr<Expr> &expr, Var *target, Var *new_var,
                     bool move_linked = true) {
''','''void change_operand(Var *&var, Var *target, Var *new_var, bool move_linked);

void change_var_expr(const std::shared_ptr<Expr> &expr, Var *target, Var *new_var,
                     bool move_linked = true) {
''')
sub('expr.cc','''        set_slice_var_parent(expr->right, target, new_var, false);
    }
    // we did''','''        set_slice_var_parent(expr->right, target, new_var, false);
    }
    // and what is being casted
    if (expr->left->type() == VarType::BaseCasted) {
        change_operand(expr->left, target, new_var, move_linked);
    }
    if (expr->right && expr->right->type() == VarType::BaseCasted) {
        change_operand(expr->right, target, new_var, move_linked);
    }
    // we did''')
sub('expr.cc','''        concat->replace_var(target->shared_from_this(), new_var->shared_from_this());
    }
    // need to deal with ternary op as well
    if (expr->op == ExprOp::Conditional) {
        auto ternary = expr->as<ConditionalExpr>();
        auto *cond = ternary->condition;
        if (cond->type() == VarType::Expression) {
            change_var_expr(cond->as<Expr>(), target, new_var);
        } else if (cond == target) {
            ternary->condition = new_var;
        } else if (cond->type() == VarType::Slice) {
            set_slice_var_parent(cond, target, new_var, false);
        }
    }
    expr->set_parent();
}
''','''        for (auto *&var : concat->vars()) {
            change_operand(var, target, new_var, move_linked);
        }
    }
    // need to deal with ternary op as well
    if (expr->op == ExprOp::Conditional) {
        auto ternary = expr->as<ConditionalExpr>();
        change_operand(ternary->condition, target, new_var, move_linked);
    }
    expr->set_parent();
}

void change_operand(Var *&var, Var *target, Var *new_var, bool move_linked) {
    if (var == target) {
        var = new_var;
    } else if (var->type() == VarType::Slice) {
        set_slice_var_parent(var, target, new_var, false);
    } else if (var->type() == VarType::Expression) {
        change_var_expr(var->as<Expr>(), target, new_var, move_linked);
    } else if (var->type() == VarType::BaseCasted) {
        change_operand(var->as<VarCasted>()->parent_var(), target, new_var, move_linked);
    }
}
''')
sub('expr.hh','''    const std::vector<Var *> &vars() const { return vars_; }
''','''    const std::vector<Var *> &vars() const { return vars_; }
    std::vector<Var *> &vars() { return vars_; }
''')
commit("fix: moving a variable re-targets casts, conditions and every operand of a concatenation")
