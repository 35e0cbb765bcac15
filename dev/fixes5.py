from fx import *
sub('expr.cc','''    } else if (is_signed_ && value_ < 0) {
        return ::format("-{0}\\'h{1:X}", width(), -value_);
    } else {
        return ::format("{0}\\'h{1:X}", width(), value_);
    }''','''    } else if (is_signed_ && value_ < 0) {
        return ::format("-{0}\\'h{1:X}", width(), -static_cast<uint64_t>(value_));
    } else {
        // the bit pattern of an unsigned 64-bit constant may look like a negative number
        return ::format("{0}\\'h{1:X}", width(), static_cast<uint64_t>(value_));
    }''')
commit('fix: print 64-bit constants that have the top bit set')
sub('expr.cc','''    } else {
        if (is_top)
            return ::format("{0}{1}", ExprOpStr(expr->op), left_str);''','''    } else {
        // a negative constant starts with an operator: -(-4'h1) is not --4'h1
        if (!left_str.empty() && left_str.front() == '-') left_str = ::format("({0})", left_str);
        if (is_top)
            return ::format("{0}{1}", ExprOpStr(expr->op), left_str);''')
commit('fix: do not print two adjacent unary operators')
