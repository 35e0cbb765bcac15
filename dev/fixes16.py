from fx import *
sub('graph.cc','''        add_stmt_child(stmt.get());
    }
''','''        add_stmt_child(stmt.get());
    }
    for (auto const &iter : root_->functions()) {
        auto *func = iter.second.get();
        nodes_.emplace(func, StmtNode{nullptr, func, {}});
        add_stmt_child(func);
    }
''')
commit("fix: the statement graph includes the statements of functions")
