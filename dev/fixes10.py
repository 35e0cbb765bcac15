from fx import *
sub('context.cc','''    if (module_set.find(shared_ptr) != module_set.end()) module_set.erase(shared_ptr);
''','''    if (module_set.find(shared_ptr) != module_set.end()) module_set.erase(shared_ptr);
    if (module_set.empty()) modules_.erase(generator->name);
''')
sub('context.cc','''    list.erase(pos);
''','''    list.erase(pos);
    if (list.empty()) modules_.erase(generator->name);
''')
commit('fix: a module name is only known while a module has it')
sub('generator.cc','''    auto child_name = child->instance_name;
    auto pos = std::find(children_names_''','''    if (!has_child_generator(child)) return;
    auto child_name = child->instance_name;
    auto pos = std::find(children_names_''',2) if 0 else None
s=rd('generator.cc')
a='''void Generator::remove_child_generator(const std::shared_ptr<Generator> &child) {
'''
assert s.count(a)==1
wr('generator.cc',s.replace(a,a+'''    // another child may have the same instance name
    if (!has_child_generator(child)) return;
'''))
commit('fix: removing a module that is not a child leaves the children alone')
s=rd('generator.cc')
a='''    generator->def_instance_ = this;
'''
assert s.count(a)==1
s=s.replace(a,a+'''    clones_.emplace(generator);
''')
a='''    def_instance_ = ref.get();
'''
assert s.count(a)==1
s=s.replace(a,a+'''    ref->clones_.emplace(shared_from_this());
''')
wr('generator.cc',s)
sub('context.cc','''    for (const auto &g : generator->get_clones()) {
        g->name = new_name;
    }
''','''    for (const auto &g : generator->get_clones()) {
        // clones are not necessarily registered in the context
        if (modules_.find(g->name) != modules_.end() && modules_.at(g->name).count(g)) {
            remove(g.get());
            modules_[new_name].emplace(g);
        }
        g->name = new_name;
    }
''')
