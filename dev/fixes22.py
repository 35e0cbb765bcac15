from fx import *
import sys
# 1 ternary + extend + wide
sub('sim.cc','''                if (v >> (var->width() - 1)) {
                    // do a signed extension
                    for (uint32_t i = base_var->width(); i < var->width(); i++) {
                        v |= 1u << i;
                    }
                }
''','''                if (v >> (base_var->width() - 1)) {
                    // do a signed extension
                    for (uint32_t i = base_var->width(); i < var->width(); i++) {
                        v |= 1ull << i;
                    }
                }
''')
commit("fix: sign extend from the sign bit of the operand in the simulator")
sub('sim.cc','''            auto left_val = get_complex_value_(expr->left);
            if (!left_val) return left_val;
            auto right_val = get_complex_value_(expr->right);
            if (is_ternary_op(expr->op)) {
                auto const *cond = reinterpret_cast<const ConditionalExpr *>(expr);
                auto predicate_val = get_complex_value_(cond->condition);
                if (!predicate_val) return right_val;
                bool c = (*predicate_val)[0];
                auto result = eval_ternary_op(c, (*left_val)[0], (*right_val)[0], expr->width());
                return std::vector<uint64_t>{result};
            } else if''','''            if (is_ternary_op(expr->op)) {
                auto const *cond = reinterpret_cast<const ConditionalExpr *>(expr);
                auto predicate_val = get_complex_value_(cond->condition);
                if (!predicate_val) return std::nullopt;
                // only the selected operand has to be known
                return get_complex_value_((*predicate_val)[0] ? expr->left : expr->right);
            }
            auto left_val = get_complex_value_(expr->left);
            if (!left_val) return left_val;
            auto right_val = get_complex_value_(expr->right);
            if''')
commit("fix: only the selected operand of a conditional has to be known")
sub('sim.cc','''            auto value = get_value_(var);
            if (!value)
                throw InternalException(''','''            auto value = get_value_(root);
            if (!value)
                throw InternalException(''')
sub('sim.cc','''        return (value >> low) & (~(0xFFFFFFFFFFFFFFFF << (high + 1)));
''','''        return truncate(value >> low, high - low + 1);
''')
commit("fix: values of slices in the simulator")
sub('sim.cc','''        uint64_t mask = (0xFFFFFFFFFFFFFFFF >> (var_high + 1)) >> var_low;
        *v = *v & (~mask);
        value = value & (0xFFFFFFFFFFFFFFFF >> (var_high - var_low + 1));
        *v = *v | (value << var_low);
        if (*v != temp) {
            std::unordered_set<uint32_t> changed_bits;
            uint64_t m = (*v) ^ temp;
            for (uint32_t bit = 0; bit < root->width(); bit++) {
                if ((m >> bit) & 1u) {
                    changed_bits.emplace(bit);
                }
            }
            trigger_event(root, changed_bits);
        }
''','''        auto const slice_width = var_high - var_low + 1;
        uint64_t mask = truncate(UINT64_MASK, slice_width) << var_low;
        *v = *v & (~mask);
        value = truncate(value, slice_width);
        *v = *v | (value << var_low);
        // every bit of the slice changes when nothing was known before
        uint64_t m = known ? (*v) ^ temp : mask;
        if (m) {
            std::unordered_set<uint32_t> changed_bits;
            for (uint32_t bit = 0; bit < root->var_width(); bit++) {
                if ((m >> bit) & 1u) {
                    changed_bits.emplace(bit + base * root->var_width());
                }
            }
            trigger_event(root, changed_bits);
        }
''')
sub('sim.cc','''        std::vector<uint64_t *> values;
        if (root->type() == VarType::ConstValue || root->type() == VarType::Parameter) {
            throw UserException''','''        std::vector<uint64_t *> values;
        bool const known = values_.find(root) != values_.end() ||
                           complex_values_.find(root) != complex_values_.end();
        if (root->type() == VarType::ConstValue || root->type() == VarType::Parameter) {
            throw UserException''')
commit("fix: only write the bits of a slice in the simulator")
