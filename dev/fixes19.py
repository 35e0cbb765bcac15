from fx import *
sub('analysis.cc','reset_map_.emplace(std::make_pair(port, stmt));','reset_stmt_.emplace(std::make_pair(port, stmt));')
commit("fix: remember where a reset's polarity was first used")
sub('analysis.cc','''        uint32_t targeted_cases;
''','''        uint64_t targeted_cases;
''')
sub('analysis.cc','''            targeted_cases = 1u << stmt_->target()->width();
''','''            // a wide target can't be covered by listing its values
            auto const target_width = stmt_->target()->width();
            targeted_cases = target_width < 64 ? 1ull << target_width : ~0ull;
''')
commit("fix: a case over a wide target is only complete with a default")
