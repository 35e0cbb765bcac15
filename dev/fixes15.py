from fx import *
sub('stmt.hh','''    LatchStmtBlock() : StmtBlock(StatementBlockType::Latch) {}
''','''    LatchStmtBlock() : StmtBlock(StatementBlockType::Latch) {}

    void accept(IRVisitor *visitor) override { visitor->visit(this); }
''')
commit("fix: visitors see latch blocks")
sub('stmt.hh','''    explicit EventDelayStmt(EventControl event);
''','''    explicit EventDelayStmt(EventControl event);

    void accept(IRVisitor *visitor) override { visitor->visit(this); }
''')
commit("fix: visitors see delay statements")
sub('graph.cc','''    for (auto const &stmt : stmts) add_stmt_child(stmt.get());
''','''    for (auto const &stmt : stmts) {
        nodes_.emplace(stmt.get(), StmtNode{nullptr, stmt.get(), {}});
        add_stmt_child(stmt.get());
    }
''')
commit("fix: the statement graph includes the top-level statements")
