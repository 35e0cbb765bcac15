from fx import *
sub('sim.cc','''    } else if (var->type() == VarType::Slice) {
        auto const *root = var->get_var_root_parent();
        std::vector<uint64_t> values;
''','''    } else if (var->type() == VarType::BaseCasted) {
        auto *casted = const_cast<VarCasted *>(reinterpret_cast<const VarCasted *>(var));
        auto const *parent = casted->parent_var();
        auto value = get_value_(parent);
        if (!value) return std::nullopt;
        auto const width = parent->width();
        // a signed value stays the same when it is resized
        if (parent->is_signed() && width < 64 && (*value >> (width - 1)))
            *value |= UINT64_MASK << width;
        return truncate(*value, var->width());
    } else if (var->type() == VarType::Slice) {
        auto const *root = var->get_var_root_parent();
        std::vector<uint64_t> values;
''')
commit("fix: values of cast variables in the simulator")
s=rd('sim.hh')
s=s.replace('''    std::vector<std::pair<Var *, std::vector<uint64_t>>> nba_values_;
''','''    struct NonBlockingValue {
        Var *var;
        // the element is selected when the statement is executed
        std::vector<std::pair<uint32_t, uint32_t>> index;
        std::vector<uint64_t> value;
    };
    std::vector<NonBlockingValue> nba_values_;
''')
s=s.replace('''    void set_value_(const Var *var, std::optional<uint64_t> op_value);
    void set_complex_value_(const Var *var, const std::optional<std::vector<uint64_t>> &op_value);
''','''    using SliceIndex = std::vector<std::pair<uint32_t, uint32_t>>;
    void set_value_(const Var *var, std::optional<uint64_t> op_value);
    void set_value_(const Var *var, std::optional<uint64_t> op_value, const SliceIndex &index);
    void set_complex_value_(const Var *var, const std::optional<std::vector<uint64_t>> &op_value);
    void set_complex_value_(const Var *var, const std::optional<std::vector<uint64_t>> &op_value,
                            const SliceIndex &index);
''')
s=s.replace('''        std::vector<std::pair<uint32_t, uint32_t>> index;
        std::vector<uint64_t> value;''','''        SliceIndex index;
        std::vector<uint64_t> value;''')
wr('sim.hh',s)
s=rd('sim.cc')
s=s.replace('''void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_value) {
    if (!op_value) return;
    auto value = *op_value;
    if (var->size().size() != 1 || var->size().front() != 1) {
        set_complex_value_(var, std::vector<uint64_t>{value});
''','''void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_value) {
    set_value_(var, op_value, get_slice_index(var));
}

void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_value,
                           const SliceIndex &index) {
    if (!op_value) return;
    auto value = *op_value;
    if (var->size().size() != 1 || var->size().front() != 1) {
        set_complex_value_(var, std::vector<uint64_t>{value}, index);
''')
s=s.replace('''                                   const std::optional<std::vector<uint64_t>> &op_value) {
    if (!op_value) return;
    auto value = *op_value;
''','''                                   const std::optional<std::vector<uint64_t>> &op_value) {
    set_complex_value_(var, op_value, get_slice_index(var));
}

void Simulator::set_complex_value_(const kratos::Var *var,
                                   const std::optional<std::vector<uint64_t>> &op_value,
                                   const SliceIndex &index) {
    if (!op_value) return;
    auto value = *op_value;
''')
s=s.replace('''        set_value_(var, value[0]);
        return;''','''        set_value_(var, value[0], index);
        return;''')
assert s.count('''        auto index = get_slice_index(var);
        if (index.empty()) throw''')==2
s=s.replace('''        auto index = get_slice_index(var);
        if (index.empty()) throw''','''        if (index.empty()) throw''')
s=s.replace('''            nba_values_.emplace_back(stmt->left(), *val);
''','''            nba_values_.push_back({stmt->left(), get_slice_index(stmt->left()), *val});
''')
s=s.replace('''            for (auto const &[var, value] : nba_values) set_complex_value_(var, value);
''','''            for (auto const &[var, index, value] : nba_values)
                set_complex_value_(var, value, index);
''')
wr('sim.cc',s)
commit("fix: non-blocking assignments use the index of when they are executed")
