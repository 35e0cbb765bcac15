from fx import *
import sys
step=int(sys.argv[1])
if step==1:
    sub('eval.cc','''    auto v = ~value;
    v ^= UINT64_MASK << width;
    return v;
}
''','''    return truncate(~value, width);
}
''')
    sub('eval.cc','''    uint64_t inverted = invert(value, width) + 1;
    return inverted & (UINT64_MASK >> (UINT64_WIDTH_ - width));
''','''    return truncate(invert(value, width) + 1, width);
''')
    commit("fix: invert 64-bit values in the evaluator")
if step==2:
    sub('eval.cc','__builtin_popcount(value)','__builtin_popcountll(value)',2)
    sub('sim.cc','''                auto result = eval_unary_op(left_value, expr->op, expr->width());
''','''                // the result of a reduction is one bit wide
                auto result = eval_unary_op(left_value, expr->op, expr->left->width());
''')
    commit("fix: evaluate reductions over the width of their operand")
if step==3:
    s=rd('eval.cc')
    a=s.index("        case ExprOp::GreaterEqThan:"); b=s.index("        case ExprOp::SignedShiftRight:")
    s=s[:a]+'''        case ExprOp::Neq:
            result = left_value != right_value;
            break;
        case ExprOp::LessThan:
            result = less_than;
            break;
        case ExprOp::GreaterEqThan:
            result = !less_than;
            break;
        case ExprOp::GreaterThan:
            result = !less_than && left_value != right_value;
            break;
        case ExprOp::LessEqThan:
            result = less_than || left_value == right_value;
            break;
'''+s[b:]
    s=s.replace('''    auto const mask = UINT64_MASK >> (64u - width);
    uint64_t result;
''','''    auto const mask = UINT64_MASK >> (64u - width);
    // two's complement values of the same sign are ordered like unsigned ones
    bool less_than =
        left_negative == right_negative ? left_value < right_value : left_negative;
    uint64_t result;
''')
    wr('eval.cc',s)
    sub('sim.cc','''                auto result = eval_bin_op(left_value, right_value, expr->op, expr->width(),
                                          expr->is_signed());
''','''                // a comparison is one bit wide, but it compares the whole operands
                auto result = eval_bin_op(left_value, right_value, expr->op, expr->left->width(),
                                          expr->is_signed());
''')
    commit("fix: compare whole operands in the simulator")
if step==4:
    sub('eval.cc','''        case ExprOp::And:
            result = left_value & right_value;
''','''        case ExprOp::Mod:
            // the result takes the sign of the first operand
            result = left_abs_value % right_abs_value;
            if (left_negative) result = two_complement(result, width);
            break;
        case ExprOp::LAnd:
            result = left_value && right_value;
            break;
        case ExprOp::LOr:
            result = left_value || right_value;
            break;
        case ExprOp::And:
            result = left_value & right_value;
''')
    sub('sim.cc','''                // a comparison is one bit wide, but''','''                // the result of a division by zero is unknown
                if ((expr->op == ExprOp::Divide || expr->op == ExprOp::Mod) && right_value == 0)
                    return std::nullopt;
                // a comparison is one bit wide, but''')
    commit("fix: evaluate modulo, logical operators and division by zero")
if step==5:
    s=rd('eval.cc')
    a=s.index("        case ExprOp::SignedShiftRight:"); b=s.index("        default: {\n            throw",a)
    s=s[:a]+'''        case ExprOp::SignedShiftRight:
            // shift in copies of the sign bit
            if (right_value >= width)
                result = left_negative ? mask : 0;
            else
                result = left_value >> right_value;
            if (left_negative && right_value < width) result |= ~(mask >> right_value);
            break;
        case ExprOp::LogicalShiftRight:
            result = right_value >= width ? 0 : left_value >> right_value;
            break;
        case ExprOp::ShiftLeft:
            result = right_value >= width ? 0 : left_value << right_value;
            break;
'''+s[b:]
    s=s.replace('''            result = static_cast<uint64_t>(std::pow(left_value, right_value));
''','''            result = power(left_value, right_value);
            // only one and minus one have a non-zero integer power for a negative exponent
            if (right_negative) {
                if (left_value == mask)
                    result = right_value % 2 ? mask : 1;
                else
                    result = left_value == 1;
            }
''')
    s=s.replace('#include <cmath>\n','')
    s=s.replace('''uint64_t eval_bin_op(''','''static uint64_t power(uint64_t base, uint64_t exponent) {
    uint64_t result = 1;
    for (; exponent; exponent >>= 1u, base *= base) {
        if (exponent & 1u) result *= base;
    }
    return result;
}

uint64_t eval_bin_op(''',1)
    wr('eval.cc',s)
    commit("fix: exact shifts and powers in the evaluator")
