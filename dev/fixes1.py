import sys; sys.path.insert(0,'/verif/dev')
from fx import *
sub('expr.cc','''VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
''','''VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
    if (count == 0)
        throw VarException(::format("Cannot duplicate {0} zero times", var->to_string()), {var});
''')
sub('expr.cc','''    : Expr(ExprOp::Duplicate, var, nullptr) {
    right = count.get();
''','''    : Expr(ExprOp::Duplicate, var, nullptr) {
    if (count->value() <= 0)
        throw VarException(::format("Cannot duplicate {0} {1} times", var->to_string(),
                                    count->value()),
                           {var, count.get()});
    right = count.get();
''')
commit("fix: reject duplicating a variable zero times")
sub('expr.cc','''    if (var_width == 0) throw UserException(::format("variable {0} cannot have size 0", name));
''','''    if (var_width == 0) throw UserException(::format("variable {0} cannot have size 0", name));
    if (std::find(size_.begin(), size_.end(), 0u) != size_.end() || size_.empty())
        throw UserException(::format("variable {0} cannot have an empty dimension", name));
''')
commit("fix: reject variables with an empty array dimension")
sub('expr.cc','''        if (parent->size().size() != 1 || parent->size().front() != 1) {
            throw VarException(::format("Can only cast bit width 1 to "
                                        "Clock or AsyncReset. {0} is {1}",
                                        parent->to_string(), parent->size().front()),
''','''        if (parent->size().size() != 1 || parent->size().front() != 1 || parent->width() != 1) {
            throw VarException(::format("Can only cast bit width 1 to "
                                        "Clock or AsyncReset. {0} is {1}",
                                        parent->to_string(), parent->width()),
''')
commit("fix: reject casting a multi-bit variable to a clock or reset")
