e="expr.cc"
B = [
 ("slice-high-strict", "C04", [(e, "        if (high >= size_.front()) {\n            throw", "        if (high > size_.front()) {\n            throw")]),
 ("slice-prod", "C04", [(e, "        if (high >= size_.front()) {\n            throw", "        if (high >= size_.front() * (size_.size() > 2 ? size_[1] : 1)) {\n            throw")]),
 ("slice-1d-explicit", "C04,C08", [(e, "        if (high != 0 || low != 0) {\n            throw VarException(::format(\"Parent", "        if (high != low) {\n            throw VarException(::format(\"Parent")]),
 ("slice-reuse-low", "C08,C06", [(e, "            if (high == s->high && low == s->low) return *s;", "            if (high == s->high && low >= s->low) return *s;")]),
 ("slice-struct-arr", "C08,C30", [(e, "if (get_var_root_parent()->is_struct() && var_slice->width() == var_slice->var_width()) {", "if (get_var_root_parent()->is_struct() && var_slice->size().size() == 1) {")]),
 ("concat-reuse", "C08", [(e, "        if (exist_var->vars().size() == 2 && exist_var->vars().back() == ptr) {", "        if (exist_var->vars().back() == ptr) {")]),
 ("extend-reuse", "C08", [(e, "        extended_.emplace(width, p);", "        extended_.emplace(this->width(), p);")]),
 ("varslice-str", "C07", [(e, "        if (high == 0 && parent_var->width() == 1) {", "        if (high == 0 && parent_var->width() == parent_var->var_width()) {")]),
 ("varslice-str2", "C07", [(e, "        if (high == 0 && parent_var->width() == 1) {", "        if (high == 0 && parent_var->var_width() == 1) {")]),
 ("handle-rel", "C07", [(e, "    if (pos != 0 || var_name.size() <= gen_name.size() || var_name[gen_name.size()] != '.') {", "    if (pos == std::string::npos || var_name.size() <= gen_name.size() || var_name[pos + gen_name.size()] != '.') {")]),
 ("sizeparam-low", "C31", [(e, "                if (high >= new_dim_size || low >= new_dim_size)", "                if (low >= new_dim_size)")]),
 ("sizeparam-index", "C31", [(e, "                auto [high, low] = slice_index[index];", "                auto [high, low] = slice_index.back();")]),
 ("copyexpr-right", "C31", [(e, "            return parent->expr(expr->op, &left, &right);\n        } else {", "            return parent->expr(expr->op, &right, &left);\n        } else {")]),
 ("copyparam-sign", "C31,C32", [(e, "            auto &c = constant(param->value(), param->width(), param->is_signed());", "            auto &c = constant(param->value(), 32, param->is_signed());")]),
 ("copymeta-raw", "C32,C31", [(e, "        new_var->raw_type_param_ = const_cast<Param *>(parent_param);", "        new_var->raw_type_param_ = raw_type_param_;")]),
 ("numdec", "C08", [(e, "            return diff + num_size_decrease(reinterpret_cast<VarSlice *>(parent));", "            return num_size_decrease(reinterpret_cast<VarSlice *>(parent)) + 1;")]),
 ("slice-rows-width", "C08", [(e, "            size_.front() = high - low + 1;\n            var_width_ = parent->var_width();\n            is_packed_ = parent->is_packed();", "            size_.front() = high - low + 1;\n            var_width_ = parent->var_width();\n            is_packed_ = true;")]),
 ("slice-varlow-nested", "C08", [(e, "            var_low_ = slice->var_low() + low * base_width;\n", "            var_low_ = slice->var_low() + low * parent->var_width();\n")]),
 ("slice-varhigh-nested", "C08", [(e, "            var_high_ = (high + 1) + slice->var_low() - 1;", "            var_high_ = std::min((high + 1) + slice->var_low() - 1, slice->var_high() - low);")]),
 ("varslice-req", "C04", [(e, "            required_width = clog2(parent->size().front());", "            required_width = clog2(parent->size().back());")]),
 ("varslice-req2", "C04", [(e, "            required_width = clog2(parent->width());\n", "            required_width = clog2(parent->width() + 1);\n")]),
 ("varvar-rows", "C08", [(e, "        if (parent->size().size() > 1)\n            size_ = std::vector<uint32_t>(parent->size().begin() + 1, parent->size().end());\n        else\n            size_ = {1};\n        var_high_", "        if (parent->size().size() > 2)\n            size_ = std::vector<uint32_t>(parent->size().begin() + 1, parent->size().end());\n        else\n            size_ = {1};\n        var_high_")]),
 ("resize-const", "C03,C05", [(e, "        var->as<Const>()->set_width(target_width);\n    } else {\n        auto new_var", "        if (var->width() < target_width) var->as<Const>()->set_width(target_width);\n    } else {\n        auto new_var")]),
 ("shift-resize", "C03", [(e, "        (left->width() > right->width())) {\n        // resize right", "        (left->width() != right->width())) {\n        // resize right")]),
 ("expr-sign", "C08", [(e, "        is_signed_ = left->is_signed() && right->is_signed();\n    else", "        is_signed_ = left->is_signed() || right->is_signed();\n    else")]),
 ("expr-size", "C08", [(e, "        var_width_ = 1;\n        size_ = {1};\n    } else {\n        var_width_ = left->var_width();\n    }\n\n    if (right", "        var_width_ = 1;\n    } else {\n        var_width_ = left->var_width();\n    }\n\n    if (right")]),
 ("parent-port2", "C08", [(e, "            if (left_gen == right_gen->parent() && right->type() == VarType::PortIO) {", "            if (left_gen == right_gen->parent() || right->type() == VarType::PortIO) {")]),
 ("assign-concat", "C03", [(e, "        if (!all_concat.legal)\n            throw VarException(", "        if (!all_concat.legal && as<Expr>()->op != ExprOp::Concat)\n            throw VarException(")]),
 ("unassign-sink", "C09", [(e, "    stmt->right()->remove_sink(stmt);\n    stmt->left()->remove_source(stmt);\n    // erase", "    stmt->right()->remove_sink(stmt);\n    remove_source(stmt);\n    // erase")]),
 ("const-legal64", "C05", [(e, "    if (width > 64) return Const::ConstantLegal::Legal;\n    if (is_signed)", "    if (width >= 64) return Const::ConstantLegal::Legal;\n    if (is_signed)")]),
 ("const-min", "C05", [(e, "        if (value < min) return Const::ConstantLegal::Small;\n        temp = (1ull << (width - 1)) - 1;", "        if (value < min) return Const::ConstantLegal::Small;\n        temp = (1ull << (width - 1));")]),
 ("const-setvalue-width", "C05", [(e, "    if (Const::is_legal(new_value, width(), is_signed()) != Const::ConstantLegal::Legal) {", "    if (Const::is_legal(new_value, std::max(width(), 32u), is_signed()) != Const::ConstantLegal::Legal) {")]),
 ("const-str", "C05", [(e, "        idx += 8;", "        idx += 8;\n        if (idx >= 56) break;")]),
 ("const-numbits", "C05", [(e, "Const::ConstantLegal::Legal ||\n        num_bits_ > target_width) {", "Const::ConstantLegal::Legal &&\n        num_bits_ > target_width) {")]),
 ("const-sink-gen", "C08,C09", [(e, "    if (parent && parent->ir_node_kind() == GeneratorKind) {\n        auto *gen", "    if (parent && left->type() == VarType::PortIO && parent->ir_node_kind() == GeneratorKind) {\n        auto *gen")]),
 ("cast-reuse", "C08,C07", [(e, "            if (casted->cast_type() == cast_type && cast_type != VarCastType::Resize &&\n                cast_type != VarCastType::Enum) {", "            if (casted->cast_type() == cast_type && cast_type != VarCastType::Resize) {")]),
 ("cast-signed", "C08,C03", [(e, "    if (cast_type == VarCastType::Signed && is_signed_) {\n        return", "    if ((cast_type == VarCastType::Signed) == is_signed_) {\n        return")]),
 ("cast-width", "C08,C03", [(e, "    if (cast_type_ == VarCastType::Resize) {\n        target_width_ = width;\n        var_width_ = width;", "    if (cast_type_ == VarCastType::Resize) {\n        target_width_ = width;\n        if (width > var_width_) var_width_ = width;")]),
 ("cast-sink", "C09", [(e, "void VarCasted::add_source(const std::shared_ptr<AssignStmt> &stmt) {\n    parent_var_->add_source(stmt);", "void VarCasted::add_source(const std::shared_ptr<AssignStmt> &stmt) {\n    Var::add_source(stmt);")]),
 ("param-chain", "C31", [(e, "    for (const auto &param : param_params_) {\n        param->set_value(new_value);\n    }", "    for (const auto &param : param_params_) {\n        param->Const::set_value(new_value);\n    }")]),
 ("param-raw", "C31", [(e, "            if (raw_str_value_) return *raw_str_value_;\n            if (initial_raw_str_value_) return *initial_raw_str_value_;", "            if (initial_raw_str_value_) return *initial_raw_str_value_;\n            if (raw_str_value_) return *raw_str_value_;")]),
 ("param-nonpos", "C31", [(e, "    if (new_value <= 0 && (!param_vars_width_.empty() || !param_vars_size_.empty())) {", "    if (new_value <= 0 && !param_vars_width_.empty()) {")]),
 ("concat-src", "C09", [(e, "void VarConcat::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {\n    for (auto &var : vars_) {\n        var->remove_sink(stmt);\n    }", "void VarConcat::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {\n    for (auto &var : vars_) {\n        if (var != vars_.front()) var->remove_sink(stmt);\n    }")]),
 ("packed-slice-nested", "C30,C08", [(e, "    if (is_struct()) {\n        auto *packed = dynamic_cast<PackedSlice *>(this);\n        return packed->slice_member(member_name);", "    if (is_struct() && !root->is_param()) {\n        auto *packed = dynamic_cast<PackedSlice *>(this);\n        if (root->as<Var>() == parent_var->shared_from_this()) return packed->slice_member(member_name);\n        def = dynamic_cast<PackedInterface *>(root)->get_definition(member_name);")]),
 ("wparam-slices", "C31", [(e, "        if (slice->parametrized()) slice->set_width_param(param);\n    }\n}\n\nVarSlice &Var::operator[](uint32_t bit)", "        if (slice->parametrized() && !slice->sliced_by_var()) slice->set_width_param(param);\n    }\n}\n\nVarSlice &Var::operator[](uint32_t bit)")]),
]
