from fx import *
sub('generator.cc','''        throw VarException(::format("{0} already exists in {1}", port_name, name),
                           {vars_.at(port_name).get()});
    ports_.emplace(port_name);''','''        throw VarException(::format("{0} already exists in {1}", port_name, name),
                           {vars_.at(port_name).get()});
    if (vars_.find(port_name) != vars_.end())
        throw VarException(::format("{0} already exists in {1} as a variable", port_name, name),
                           {vars_.at(port_name).get()});
    ports_.emplace(port_name);''')
sub('generator.cc','''    auto ptr = std::make_shared<Param>(this, parameter_name);
    params_''','''    check_param_name_conflict(parameter_name);
    auto ptr = std::make_shared<Param>(this, parameter_name);
    params_''')
sub('generator.cc','''    const std::string &func_name) {
    auto p = std::make_shared<BuiltInFunctionStmtBlock>''','''    const std::string &func_name) {
    if (funcs_.find(func_name) != funcs_.end())
        throw UserException(::format("function {0} already exists", func_name));
    auto p = std::make_shared<BuiltInFunctionStmtBlock>''')
sub('interface.cc','''    if (ports_.find(name) != ports_.end())
        throw UserException(::format("{0} already exists in {1}", name, name_));
    ports_''','''    if (has_port(name) || has_var(name))
        throw UserException(::format("{0} already exists in {1}", name, name_));
    ports_''')
sub('interface.cc','''    if (vars_.find(name) != vars_.end())
        throw UserException(::format("{0} already exists in {1}", name, name_));
    vars_''','''    if (has_port(name) || has_var(name))
        throw UserException(::format("{0} already exists in {1}", name, name_));
    vars_''')
commit('fix: two ports, variables, parameters or functions cannot share a name')
sub('generator.cc','''    auto p = std::make_shared<PortPackedStruct>(this, port.port_direction(), port_name,
                                                port.packed_struct());''','''    auto p = std::make_shared<PortPackedStruct>(this, port.port_direction(), port_name,
                                                port.packed_struct(), port.size());''')
sub('generator.cc','''        if (v_p->width() != width || v_p->is_signed() != is_signed)
            throw VarException(::format("redefinition of {0} with different width/sign", var_name),''','''        if (v_p->var_width() != width || v_p->size() != size || v_p->is_signed() != is_signed)
            throw VarException(::format("redefinition of {0} with different width/sign", var_name),''')
commit('fix: array shape of copied struct ports and reused variables')
sub('generator.cc','''    auto handle = vars_.extract(old_name);
    handle.key() = new_name;''','''    if (old_name == new_name) return;
    if (has_var(new_name))
        throw VarException(::format("{0} already exists in {1}", new_name, name), {var.get()});
    if (ports_.erase(old_name)) ports_.emplace(new_name);
    auto handle = vars_.extract(old_name);
    handle.key() = new_name;''')
sub('generator.cc','''    child->instance_name = instance_name_;
    if (children_.find(child->instance_name) == children_.end()) {
''','''    if (children_.find(instance_name_) == children_.end()) {
        child->instance_name = instance_name_;
''')
sub('generator.cc','''            ::format("{0} already exists  in {1}", child->instance_name, instance_name),''','''            ::format("{0} already exists  in {1}", instance_name_, instance_name),''')
sub('generator.cc','''    if (debug) {
        children_debug_.emplace(instance_name_, debug_info);
    }
    add_child_generator(instance_name_, child);''','''    add_child_generator(instance_name_, child);
    if (debug) {
        children_debug_[instance_name_] = debug_info;
    }''')
sub('generator.cc','''        children_comments_.erase(child_name);
        // need''','''        children_comments_.erase(child_name);
        children_debug_.erase(child_name);
        // need''')
sub('generator.cc','''    replace(child_name, new_child);
    children_debug_.emplace(child_name, debug_info);''','''    replace(child_name, new_child);
    children_debug_[child_name] = debug_info;''')
sub('generator.cc','''    children_comments_.emplace(child_name, comment);''','''    children_comments_[child_name] = comment;''')
sub('generator.cc','''    return children_.find(child->instance_name) != children_.end();
}

bool Generator::has_child_generator(const std::string''','''    auto const it = children_.find(child->instance_name);
    return it != children_.end() && it->second == child;
}

bool Generator::has_child_generator(const std::string''')
sub('generator.cc','''            target_name = get_unique_variable_name(prefix, var_name);''','''            target_name = gen.get_unique_variable_name(prefix, var_name);''')
commit('fix: keep the name tables of a module consistent when renaming, replacing and merging')
sub('generator.cc','''            if (port->port_direction() == PortDirection::In) {
                // do a copy
                auto srcs''','''            if (port->port_direction() != PortDirection::Out) {
                // do a copy
                auto srcs''')
sub('generator.cc','''            } else {
                auto sinks = std::unordered_set''','''            }
            if (port->port_direction() != PortDirection::In) {
                auto sinks = std::unordered_set''')
sub('generator.cc','''                               {old_port.get(), new_port.get()});
        }

        // all passed, now replace the port!
''','''                               {old_port.get(), new_port.get()});
        }
    }
    // all passed, now replace the ports!
    for (const auto &port_name : old_port_names) {
        auto old_port = old_child->get_port(port_name);
        auto new_port = new_child->get_port(port_name);
''')
sub('generator.cc','''    auto old_child = children_.at(child_name);
    new_child->instance_name = child_name;
''','''    auto old_child = children_.at(child_name);
''')
commit('fix: removing or replacing a child handles inout ports and fails without side effects')
sub('interface.cc','''modport_def->inputs().find(name) != modport_def''','''modport_def->inputs().find(port_name) != modport_def''')
for d in ('output','input'):
    sub('interface.cc','''        // this is a variable
        %ss_.emplace(name);
    }'''%d,'''        // this is a variable
        %ss_.emplace(name);
    } else {
        throw UserException(::format("{0} does not exist in {1}", name, def_->name()));
    }'''%d)
sub('port.cc','''var->name, var->width(), var->size(),''','''var->name, var->var_width(), var->size(),''')
sub('port.cc','''    flipped_.debug_info_ = debug_info_;''','''    flipped_.debug_info_ = debug_info_;
    flipped_.name_ = name_;''')
commit('fix: directions, widths and names of modport ports and flipped bundles')
