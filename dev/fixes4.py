import sys; sys.path.insert(0,'/verif/dev')
from fx import *
sub('expr.cc','''            for (const auto &p : params) {
                p->add_param_width_var(this);
            }
        }
        width_param_= nullptr;
        return;
    }
    // set width to the current param value
    auto value = Simulator::static_evaluate_expr(param);
    var_width_ = value;
    width_param_ = param;
''','''            for (const auto &p : params) {
                p->remove_param_width_var(this);
            }
        }
        width_param_= nullptr;
        return;
    }
    // set width to the current param value
    auto value = Simulator::static_evaluate_expr(param);
    // no longer depends on the previous one
    if (width_param_ && width_param_ != param) Var::set_width_param(nullptr);
    var_width_ = value;
    width_param_ = param;
''')
sub('expr.cc','''    for (const auto &p : params) {
        p->add_param_width_var(this);
    }
}
''','''    for (const auto &p : params) {
        p->add_param_width_var(this);
    }
    // slices are as wide as the variable they select from
    for (auto const &slice : slices_) {
        if (slice->parametrized()) slice->set_width_param(param);
    }
}
''')
sub('expr.cc','''    VarSlice s(parent_var, high, low);
    var_width_ = s.var_width_;
}''','''    VarSlice s(parent_var, high, low);
    var_width_ = s.var_width_;
    if (!sliced_by_var()) {
        var_high_ = s.var_high_;
        var_low_ = s.var_low_;
    }
    for (auto const &slice : slices_) {
        if (slice->parametrized()) slice->set_width_param(param);
    }
}''')
sub('expr.cc','''    // all good. now we need to resize the index
    size_[index] = new_dim_size;''','''    // all good. now we need to resize the index
    // no longer depends on the previous one
    if (get_size_param(index) && get_size_param(index) != param) set_size_param(index, nullptr);
    size_[index] = new_dim_size;''')
sub('expr.cc','''    // change the width of parametrized variables
    for (const auto &var : param_vars_width_) {
        var->var_width() = new_value;
    }
    // change the size as well
    for (const auto &[var, index, expr] : param_vars_size_) {''','''    // change the width of parametrized variables. the width can be an expression of the parameter,
    // and slices follow the variable they select from
    auto const width_vars = param_vars_width_;
    for (const auto &var : width_vars) {
        if (var->type() != VarType::Slice) var->set_width_param(var->width_param());
    }
    // change the size as well
    auto const size_vars = param_vars_size_;
    for (const auto &[var, index, expr] : size_vars) {''')
sub('expr.cc','''    if (new_value <= 0 && !param_vars_width_.empty()) {
        throw VarException(
            ::format(
                "{0} is used for parametrizing variable width, thus cannot be non-positive ({1})",''','''    if (new_value <= 0 && (!param_vars_width_.empty() || !param_vars_size_.empty())) {
        throw VarException(
            ::format(
                "{0} is used for parametrizing variable width, thus cannot be non-positive ({1})",''')
commit('fix: keep parametrized widths and sizes in step with their parameters')
