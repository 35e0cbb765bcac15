from fx import *
sub('sim.cc','''        auto low = var_low / root->var_width();
        auto high = var_high / root->var_width();
        return std::vector<uint64_t>(values.begin() + low, values.end() + high + 1);
''','''        auto low = var_low / root->var_width();
        auto high = var_high / root->var_width();
        return std::vector<uint64_t>(values.begin() + low, values.begin() + high + 1);
''')
commit("fix: only read the elements of an array slice in the simulator")
s=rd('sim.cc')
a=s.index("        low = var_low;\n        high = var_high;\n"); b=s.index("    if (values.size() != value.size()) {")
s=s[:a]+'''        // in elements
        low = var_low / root->var_width();
        high = var_high / root->var_width();
        for (uint32_t s : root->size()) {
            base *= s;
        }
    } else {
        for (uint32_t s : var->size()) {
            base *= s;
        }
        fill_var = var;
        low = 0;
        high = base - 1;
    }
    bool fill_in = false;
    if (complex_values_.find(fill_var) == complex_values_.end()) {
        // whatever bits changed
        // fill in values
        fill_in = true;
        complex_values_.emplace(fill_var, std::vector<uint64_t>(base, 0));
    }

    // get the elements that are written
    auto &v_ref = complex_values_.at(fill_var);
    values.reserve(high - low + 1);
    for (uint64_t i = low; i <= high; i++) values.emplace_back(&v_ref[i]);

'''+s[b:]
wr('sim.cc',s)
sub('sim.cc','''    for (uint32_t i = low; i <= high; i++) {
        if (*(values[i]) != value[i] || fill_in) {
            uint32_t bit_mask = (*values[i]) ^ value[i];
            *(values[i]) = value[i];
            for (uint32_t bit = 0; bit < var_width; bit++) {
                if ((bit_mask >> bit) & 1u || fill_in) {
                    changed_bits.emplace(bit + var_width * i);
                }
''','''    for (uint32_t i = 0; i < values.size(); i++) {
        if (*(values[i]) != value[i] || fill_in) {
            uint64_t bit_mask = (*values[i]) ^ value[i];
            *(values[i]) = value[i];
            for (uint32_t bit = 0; bit < var_width; bit++) {
                if ((bit_mask >> bit) & 1u || fill_in) {
                    changed_bits.emplace(bit + var_width * (i + low));
                }
''')
commit("fix: write the elements of an array slice in the simulator")
sub('sim.cc','''                v_[i] = (v >> (w * i)) & (~(UINT64_MASK << w));
''','''                v_[i] = w * i < 64 ? truncate(v >> (w * i), w) : 0;
''')
sub('sim.cc','''            u_v = truncate(u_v, var->width());
            u_vs.emplace_back(u_v);
''','''            u_v = truncate(u_v, var->var_width());
            u_vs.emplace_back(u_v);
''')
commit("fix: split values by the width of the elements in the simulator")
sub('sim.cc','''            bits &= (0xFFFFFFFFFFFFFFFF >> target->width());
''','''            bits = truncate(bits, target->width());
''')
commit("fix: compare every bit of a case label in the simulator")
# out of range
sub('sim.cc','''        if (var_high + 1 - var_low > root->width())
            throw InternalException("Unable to resolve variable slicing");
        auto base = var_low / root->var_width();
        auto low =''','''        if (var_high + 1 - var_low > root->width())
            throw InternalException("Unable to resolve variable slicing");
        // what is out of range is unknown
        if (var_high >= root->width()) return std::nullopt;
        auto base = var_low / root->var_width();
        auto low =''')
sub('sim.cc','''        if (var_high + 1 - var_low > root->width())
            throw InternalException("Unable to resolve variable slicing");
        auto base = var_low / root->var_width();
        var_high =''','''        if (var_high + 1 - var_low > root->width())
            throw InternalException("Unable to resolve variable slicing");
        // there is nothing to write out of range
        if (var_high >= root->width()) return;
        auto base = var_low / root->var_width();
        var_high =''')
sub('sim.cc','''            throw InternalException("Misaligned vector slicing");
        if (complex_values_''','''            throw InternalException("Misaligned vector slicing");
        if (var_high >= root->width()) return std::nullopt;
        if (complex_values_''')
sub('sim.cc','''            throw InternalException("Misaligned vector slicing");
        // in elements''','''            throw InternalException("Misaligned vector slicing");
        if (var_high >= root->width()) return;
        // in elements''')
commit("fix: out of range elements in the simulator")
