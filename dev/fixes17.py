from fx import *
sub('expr.cc','''    stmt->right()->sinks_.erase(stmt);
    sources_.erase(stmt);
''','''    stmt->right()->remove_sink(stmt);
    stmt->left()->remove_source(stmt);
''')
commit("fix: unassigning releases the variables below slices and expressions")
