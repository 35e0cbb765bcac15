from fx import *
s=rd('sim.cc')
a='''    if (var->type() == VarType::Parameter || var->type() == VarType::ConstValue) {
        throw UserException(::format("Cannot set value for constant {0}", var->handle_name()));
    } else if (var->type() == VarType::Slice) {'''
assert s.count(a)==1
s=s.replace(a,'''    if (var->type() == VarType::Parameter || var->type() == VarType::ConstValue) {
        throw UserException(::format("Cannot set value for constant {0}", var->handle_name()));
    } else if (var->type() == VarType::Expression) {
        auto const *expr = reinterpret_cast<const Expr *>(var);
        if (expr->op != ExprOp::Concat || var->width() > 64)
            throw UserException(::format("Cannot set value for {0}", var->handle_name()));
        // the last one has the lowest bits
        auto const &vars = reinterpret_cast<const VarConcat *>(expr)->vars();
        for (auto it = vars.rbegin(); it != vars.rend(); it++) {
            set_value_(*it, truncate(value, (*it)->width()));
            value = (*it)->width() < 64 ? value >> (*it)->width() : 0;
        }
    } else if (var->type() == VarType::Slice) {''')
wr('sim.cc',s)
commit("fix: assign every operand of a concatenation in the simulator")
