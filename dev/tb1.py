B = [
 ("slice-reuse-high", "C04,C06,C08", [("expr.cc", "            if (high == s->high && low == s->low) return *s;", "            if (high == s->high && low <= s->low) return *s;")]),
 ("slice-high-multi", "C04", [("expr.cc", "        if (high >= size_.front()) {", "        if (high > size_.front()) {")]),
 ("concat-reuse", "C08,C06", [("expr.cc", "exist_var->vars().size() == 2 && exist_var->vars().back() == ptr", "exist_var->vars().size() >= 2 && exist_var->vars().back() == ptr")]),
 ("expr-gen-const", "C08", [("expr.cc", "        } else if (right_gen == Const::const_gen() || !right_gen) {", "        } else if (!right_gen) {")]),
 ("slice-low-base", "C04,C08", [("expr.cc", "            var_high_ = slice->var_low() + (high + 1) * base_width - 1;", "            var_high_ = slice->var_low() + (high + 1) * parent->var_width() - 1;")]),
 ("idx-nodim", "C04", [("expr.cc", "            required_width = clog2(parent->width());", "            required_width = clog2(parent->width() + 1);")]),
 ("slice-text-w1", "C07", [("expr.cc", "        if (high == 0 && parent_var->width() == 1) {", "        if (high == 0 && parent_var->var_width() == 1) {")]),
 ("cast-clock-dim", "C03", [("expr.cc", "parent->size().size() != 1 || parent->size().front() != 1 || parent->width() != 1", "parent->size().size() != 1 || parent->width() != 1")]),
 ("enumcast-text", "C07", [("expr.cc", "        return ::format(\"{0}'({1})\", target_width_, parent_var_->to_string());", "        return ::format(\"{0}'({1})\", var_width_, parent_var_->to_string());")]),
 ("const-signed-min", "C05", [("expr.cc", "        if (value < min) return Const::ConstantLegal::Small;", "        if (value < min && width < 32) return Const::ConstantLegal::Small;")]),
 ("expr-signed-shift", "C03,C08", [("expr.cc", "    if (right != nullptr)\n        is_signed_ = left->is_signed() && right->is_signed();", "    if (right != nullptr && !is_relational_op(op))\n        is_signed_ = left->is_signed() && right->is_signed();")]),
 ("varslice-setwidth", "C31", [("expr.cc", "        if (slice->parametrized()) slice->set_width_param(param);", "        if (!slice->parametrized()) slice->set_width_param(param);")]),
 ("varvar-packed", "C03,C04,C08", [("expr.cc", "        var_width_ = parent->var_width();\n        is_packed_ = parent->is_packed();\n        // peel one layer", "        var_width_ = parent->var_width();\n        // peel one layer")]),
 ("varvar-reuse", "C06,C08", [("expr.cc", "            if (s_->sliced_var() == var.get()) return *s_;", "            if (s_->sliced_var()->width() == var->width()) return *s_;")]),
 ("unassign-sink", "C09", [("expr.cc", "    stmt->right()->remove_sink(stmt);\n    stmt->left()->remove_source(stmt);\n    // erase", "    stmt->left()->remove_source(stmt);\n    // erase")]),
]
