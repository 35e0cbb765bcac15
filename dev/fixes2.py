import sys; sys.path.insert(0,'/verif/dev')
from fx import *
sub('expr.cc','''    if (var->type() == VarType::ConstValue) {
        var->var_width() = target_width;
    } else {
        auto new_var''','''    if (var->type() == VarType::ConstValue) {
        // only legal if the value fits
        var->as<Const>()->set_width(target_width);
    } else {
        auto new_var''')
commit("fix: check that a constant operand still fits when it is resized")
sub('expr.cc','''Const::ConstantLegal Const::is_legal(int64_t value, uint32_t width, bool is_signed) {
''','''Const::ConstantLegal Const::is_legal(int64_t value, uint32_t width, bool is_signed) {
    // every 64-bit value fits
    if (width > 64) return Const::ConstantLegal::Legal;
''')
commit("fix: any value fits in a constant wider than 64 bits")
sub('expr.cc','if ((new_value.size() * 8) > sizeof(uint64_t)) {','if (new_value.size() > sizeof(uint64_t)) {')
commit("fix: compare string size in bytes when setting a constant")
sub('expr.cc','''    if (Const::is_legal(value_, target_width, is_signed()) != Const::ConstantLegal::Legal) {
        throw VarException(::format("Unable to set const {0} to width {1}", value_, target_width),
                           {this});
    }
''','''    if (Const::is_legal(value_, target_width, is_signed()) != Const::ConstantLegal::Legal ||
        num_bits_ > target_width) {
        throw VarException(
            ::format("Unable to set const {0} to width {1}", to_string(), target_width), {this});
    }
''')
sub('expr.cc','''        throw std::invalid_argument("Invalid hex value for constant " + hex_value);
    }
''','''        throw std::invalid_argument("Invalid hex value for constant " + hex_value);
    }
    if (num_bits > width) {
        throw UserException(::format("{0} is larger than the maximum value given width {1}",
                                     hex_value, width));
    }
''')
commit("fix: a large constant has to fit its width")
