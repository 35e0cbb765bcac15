from fx import *
sub('util.cc','''    while (i < index.size()) {
        auto const &[slice_high, slice_low] = index[i];
        if (slice_high > slice_low) {
            var_low += slice_low * bases[index_to_size] * root->var_width();
            var_high = var_low +
                       (slice_high - slice_low + 1) * bases[index_to_size] * root->var_width() - 1;
        } else if (slice_high == slice_low && index_to_size < var_sizes.size() &&
                   var_sizes[index_to_size] > 1) {
            var_low += slice_low * bases[index_to_size];
            var_high = var_low + (slice_high - slice_low + 1) * bases[index_to_size] - 1;
            index_to_size++;
        } else {
            break;
        }
        i++;
    }
''','''    bool const is_array =
        var_sizes.size() > 1 || var_sizes.front() > 1 || root->explicit_array();
    // the bases already include the element width. a range keeps the dimension, an index drops it
    while (is_array && i < index.size() && index_to_size < var_sizes.size()) {
        auto const &[slice_high, slice_low] = index[i];
        var_low += slice_low * bases[index_to_size];
        var_high = var_low + (slice_high - slice_low + 1) * bases[index_to_size] - 1;
        if (slice_high == slice_low) index_to_size++;
        i++;
    }
''')
commit('fix: bits covered by ranges and partial indices of a variable')
sub('expr.cc','''VarCasted::VarCasted(Var *parent, VarCastType cast_type)
    : Var(parent->generator(), "", parent->width(), parent->size(), false, parent->type()),''','''static uint32_t element_width(const Var *var) {
    uint32_t width = var->width();
    for (auto const &size : var->size()) width /= size;
    return width;
}

VarCasted::VarCasted(Var *parent, VarCastType cast_type)
    : Var(parent->generator(), "", element_width(parent), parent->size(), false, parent->type()),''')
sub('expr.cc','''    if (parent_var_->size().size() > 1 && parent_var_->size().front() != 1) {''','''    if (parent_var_->size().size() > 1 || parent_var_->size().front() != 1) {''')
# the results of these operators are not arrays
sub('expr.cc','''    if (is_relational_op(op) || is_reduction_op(op))
        var_width_ = 1;
    else
        var_width_ = left->var_width();
''','''    if (is_relational_op(op) || is_reduction_op(op)) {
        var_width_ = 1;
        size_ = {1};
    } else {
        var_width_ = left->var_width();
    }
''')
s=rd('expr.cc')
assert s.count('''    var_width_ = first->width() + second->width();
''')==2
s=s.replace('''    var_width_ = first->width() + second->width();
''','''    var_width_ = first->width() + second->width();
    size_ = {1};
''')
s=s.replace('''    var_width_ = count * var->width();
}''','''    var_width_ = count * var->width();
    size_ = {1};
}''')
s=s.replace('''    var_width_ = static_cast<uint32_t>(count->value()) * var->width();
}''','''    var_width_ = static_cast<uint32_t>(count->value()) * var->width();
    size_ = {1};
}''')
wr('expr.cc',s)
commit('fix: shape of casts, comparisons, concatenations and repetitions of arrays')
sub('expr.cc','''            if (casted->cast_type() == cast_type && cast_type != VarCastType::Resize) {''','''            if (casted->cast_type() == cast_type && cast_type != VarCastType::Resize &&
                cast_type != VarCastType::Enum) {''')
commit('fix: do not share a cast between enum types')
sub('expr.cc','''        return struct_->same(*def.struct_);''','''        return name == def.name && struct_->same(*def.struct_);''')
commit('fix: members of equal structs have equal names')
