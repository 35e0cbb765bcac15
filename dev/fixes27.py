from fx import *
sub('expr.cc','''        var_high_ = parent->width() - 1;
        var_low_ = 0;
        if (parent->width_param())
            required_width = clog2(''','''        var_high_ = parent->var_high();
        var_low_ = parent->var_low();
        if (parent->width_param())
            required_width = clog2(''')
commit("fix: bits covered by a variable index of an array element")
s=rd('sim.cc')
s=s.replace('''        for (auto const &iter : lst) {
            dependency_[iter.var].emplace(block);
        }
''','''        for (auto const &iter : lst) {
            // the edge can be on a slice or on a cast variable
            auto const &[dep, linked] = get_dep(iter.var);
            for (auto const &v : dep) dependency_[v].emplace(block);
            merge_linked_dep(linked_dependency_, linked);
        }
''')
s=s.replace('''        if (event.var != var_) continue;
''','''        auto const dep = DependencyVisitor::get_dep(event.var).first;
        if (dep.find(var_) == dep.end()) continue;
''')
a='''                for (auto const &stmt : deps) {
                    if (scope_.find(stmt) == scope_.end())
                        event_queue_.emplace(std::make_pair(var, stmt));
'''
assert s.count(a)==1
s=s.replace(a,'''                for (auto const &stmt : deps) {
                    if (scope_.find(stmt) == scope_.end())
                        event_queue_.emplace(std::make_pair(v, stmt));
''')
wr('sim.cc',s)
commit("fix: edges of slices and cast variables in the simulator")
