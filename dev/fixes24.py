from fx import *
sub('eval.cc','''    return value & (UINT64_MASK >> (UINT64_WIDTH_ - width));
''','''    return width < UINT64_WIDTH_ ? value & (UINT64_MASK >> (UINT64_WIDTH_ - width)) : value;
''')
sub('sim.cc','''        return param->value();
    } else''','''        return truncate(param->value(), param->width());
    } else''')
sub('sim.cc','''        return const_->value();
    } else''','''        return truncate(const_->value(), const_->width());
    } else''')
sub('sim.cc','''        std::unordered_set<uint32_t> changed_bits;
        if (values_.find(var) != values_.end()) {
''','''        value = truncate(value, var->width());
        std::unordered_set<uint32_t> changed_bits;
        if (values_.find(var) != values_.end()) {
''')
sub('sim.cc','''    auto value = static_cast<int64_t>((*result)[0]);
    if (value <= 0)
''','''    auto value = static_cast<int64_t>((*result)[0]);
    if (expr->is_signed() && expr->width() < 64) {
        auto const sign_bit = static_cast<int64_t>(1ull << (expr->width() - 1));
        value = (value ^ sign_bit) - sign_bit;
    }
    if (value <= 0)
''')
commit("fix: values in the simulator are as wide as their variable")
sub('sim.cc','''            const auto *var_concat = reinterpret_cast<const VarConcat *>(expr);
''','''            // wider values are not supported
            if (expr->width() > 64) return std::nullopt;
            const auto *var_concat = reinterpret_cast<const VarConcat *>(expr);
''')
sub('sim.cc','''            auto left_val = get_complex_value_(expr->left);
            if (!left_val) return left_val;
''','''            // wider values are not supported
            if (expr->left->width() > 64) return std::nullopt;
            auto left_val = get_complex_value_(expr->left);
            if (!left_val) return left_val;
''')
commit("fix: don't evaluate expressions that are too wide in the simulator")
# NBA
sub('sim.hh','''    std::unordered_map<Var *, std::vector<uint64_t>> nba_values_;
''','''    // assigned together once all the active events are processed, in the order of the statements
    std::vector<std::pair<Var *, std::vector<uint64_t>>> nba_values_;
''')
sub('sim.cc','''            nba_values_.emplace(stmt->left(), *val);
''','''            nba_values_.emplace_back(stmt->left(), *val);
''')
sub('sim.cc','''    process_stmt(reinterpret_cast<StmtBlock *>(block), var_);

    for (auto const &[var, value] : nba_values_) {
        set_complex_value_(var, value);
    }
    // clear the nba regions
    nba_values_.clear();
}
''','''    process_stmt(reinterpret_cast<StmtBlock *>(block), var_);
}
''')
sub('sim.cc','''    while (!event_queue_.empty()) {
        if (simulation_depth_''','''    while (!event_queue_.empty() || !nba_values_.empty()) {
        if (event_queue_.empty()) {
            // every block has used the old values. the nba region is next
            auto const nba_values = std::move(nba_values_);
            nba_values_.clear();
            for (auto const &[var, value] : nba_values) set_complex_value_(var, value);
            continue;
        }
        if (simulation_depth_''')
commit("fix: commit non-blocking assignments after all the active events")
