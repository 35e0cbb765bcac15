from fx import *
sub('analysis.cc','''                // it's the default one. we nor them together
                std::shared_ptr<Var> or_;
''','''                // it's the default one: the target is none of the listed values
''')
sub('analysis.cc','''                or_ = conditions[0];
                if (conditions.size() > 1) {
                    for (uint64_t i = 1; i < conditions.size(); i++) {
                        or_ = or_->operator||(*conditions[i]).shared_from_this();
                    }
                }
                expr = (switch_->target()->operator!=(*or_)).shared_from_this();
            }
''','''                for (auto const& condition : conditions) {
                    auto differs = switch_->target()->operator!=(*condition).shared_from_this();
                    expr = expr ? expr->operator&&(*differs).shared_from_this() : differs;
                }
                // with no other case, the default is always active
                if (!expr) return get_cond(parent_stmt);
            }
''')
commit("fix: the default of a case is active when no listed value matches")
