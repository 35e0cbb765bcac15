g="generator.cc"
B = [
 ("var-redef-sign", "C06,C03", [(g, "        if (v_p->var_width() != width || v_p->size() != size || v_p->is_signed() != is_signed)", "        if (v_p->width() != width || v_p->is_signed() != is_signed)")]),
 ("var-copy-packed", "C32", [(g, "    auto &v_ = var(var_name, v.var_width(), v.size(), v.is_signed());", "    auto &v_ = var(var_name, v.width(), v.size(), v.is_signed());")]),
 ("port-copy-check", "C32,C31", [(g, "    auto p = std::make_shared<PortPackedStruct>(this, port.port_direction(), port_name,\n                                                port.packed_struct(), port.size());", "    auto p = std::make_shared<PortPackedStruct>(this, port.port_direction(), port_name,\n                                                port.packed_struct());")]),
 ("enum-port-copy", "C32", [(g, "    auto p = std::make_shared<EnumPort>(this, port.port_direction(), port_name,\n                                        enum_type->shared_from_this());\n    add_port_name(port_name);\n    vars_.emplace(port_name, p);\n\n    port.copy_meta_data(p.get(), check_param);\n", "    auto p = std::make_shared<EnumPort>(this, port.port_direction(), port_name,\n                                        enum_type->shared_from_this());\n    add_port_name(port_name);\n    vars_.emplace(port_name, p);\n")]),
 ("enum-local", "C30,C17,C32", [(g, "    if (def->local())\n        throw UserException(::format(\"Cannot use {0} as port type since it's local\", def->name));", "    if (def->local() && direction != PortDirection::In)\n        throw UserException(::format(\"Cannot use {0} as port type since it's local\", def->name));")]),
 ("call-noreturn", "C27", [(g, "    auto p = std::make_shared<FunctionCallVar>(this, func_def, args, has_return);", "    auto p = std::make_shared<FunctionCallVar>(this, func_def, args, has_return || !args.empty());")]),
 ("func-index", "C27,C10,C06", [(g, "    auto p = std::make_shared<TaskStmtBlock>(this, func_name);\n    func_index_.emplace(static_cast<uint32_t>(funcs_.size()), func_name);", "    auto p = std::make_shared<TaskStmtBlock>(this, func_name);\n    func_index_.emplace(static_cast<uint32_t>(func_index_.size() + 1), func_name);")]),
 ("builtin-args", "C27", [(g, "        mock_args.emplace(std::make_pair(::format(\"{0:010d}\", i), args[i]));", "        mock_args.emplace(std::make_pair(::format(\"{0}\", i), args[i]));")]),
 ("child-order", "C15,C10", [(g, "        auto n = children_names_[index - stmts_count() - funcs_.size()];", "        auto n = children_names_[children_names_.size() - 1 - (index - stmts_count() - funcs_.size())];")]),
 ("remove-child-inout", "C15,C09", [(g, "            if (port->port_direction() != PortDirection::In) {\n                auto sinks", "            if (port->port_direction() == PortDirection::Out) {\n                auto sinks")]),
 ("has-child", "C15", [(g, "    return it != children_.end() && it->second == child;", "    return it != children_.end() && it->second->name == child->name;")]),
 ("rename-child-debug", "C15", [(g, "        child_debug_handler.key() = new_name;\n        children_debug_.insert(std::move(child_debug_handler));", "        child_debug_handler.key() = new_name;")]),
 ("unique-name", "C06", [(g, "            result_name = ::format(\"{0}_{1}_{2}\", prefix, var_name, count);\n        }\n        if (!get_var(result_name)) {", "            result_name = ::format(\"{0}_{1}_{2}\", prefix, var_name, count);\n        }\n        if (!get_var(result_name) || count > 8) {")]),
 ("rename-var-port", "C06", [(g, "    if (ports_.erase(old_name)) ports_.emplace(new_name);", "    if (var->type() == VarType::PortIO) ports_.emplace(new_name);")]),
 ("reindex", "C06", [(g, "        if (var->type() == VarType::PortIO) {\n            ports.emplace(name_);\n        }", "        if (ports_.find(name_) != ports_.end()) {\n            ports.emplace(name_);\n        }")]),
 ("stmt-cache", "C15,C11", [(g, "    stmts_remove_cache_.clear();\n}", "}")]),
 ("var-params", "C31", [(g, "                    var->set_size_param(i, parent_param.get());\n                    found = true;", "                    var->set_size_param(0, parent_param.get());\n                    found = true;")]),
 ("transfer-expr", "C09,C15", [(g, "        expr->set_parent_generator(&gen);\n        gen.exprs_.emplace(expr);", "        gen.exprs_.emplace(expr);")]),
 ("transfer-name", "C06,C15", [(g, "            target_name = gen.get_unique_variable_name(prefix, var_name);", "            target_name = ::format(\"{0}_{1}\", prefix, var_name);")]),
 ("transfer-port", "C09,C15", [(g, "            Var::move_src_to(var.get(), &new_var, &gen, false);\n        } else {", "        } else {")]),
 ("iface-dir", "C17", [(g, "        auto p = std::make_shared<InterfacePort>(ref.get(), this, dir, n, width, size, type, false);\n        ref->port(n, p.get());\n        if (is_port) add_port_name(var_name);", "        auto p = std::make_shared<InterfacePort>(ref.get(), this, dir, n, width, size, type, false);\n        ref->port(n, p.get());\n        if (!is_port) add_port_name(var_name);")]),
 ("wire-sibling", "C17", [(g, "            check_direction(port1, port2, false);\n            return {(port1->port_direction() == PortDirection::In), true};\n        } else {\n            return {false, false};", "            check_direction(port1, port2, false);\n            return {(port2->port_direction() == PortDirection::In), true};\n        } else {\n            return {false, false};")]),
 ("wire-notchild", "C17", [(g, "        } else if (parent1->parent() == parent2->parent() && parent1->parent() == top) {", "        } else if (parent1->parent() == parent2->parent()) {")]),
 ("wire-var2", "C17", [(g, "            return {port2->port_direction() == PortDirection::Out, true};", "            return {port2->port_direction() != PortDirection::In, true};")]),
 ("wire-slice-root", "C17", [(g, "    while (root2->type() == VarType::Slice) {\n        auto *var = dynamic_cast<VarSlice *>(root2);", "    if (root2->type() == VarType::Slice) {\n        auto *var = dynamic_cast<VarSlice *>(root2);")]),
 ("wire-iface-parent", "C17", [(g, "        if (port->port_direction() == PortDirection::In) {\n            add_stmt(port->assign(*v));", "        if (port->port_direction() != PortDirection::Out) {\n            add_stmt(port->assign(*v));")]),
 ("unwire-rev", "C17,C09", [(g, "                (assign_stmt->right() == &var1 && assign_stmt->left() == &var2)) {\n                target = assign_stmt;", "                (assign_stmt->right() == &var1 && assign_stmt->right() == &var2)) {\n                target = assign_stmt;")]),
 ("clone-param", "C32,C31", [(g, "        p.set_explicit_array(port->explicit_array());\n        p.set_is_packed(port->is_packed());\n        if (port->active_high()) p.set_active_high(*port->active_high());\n    }", "        p.set_explicit_array(port->explicit_array());\n        if (port->active_high()) p.set_active_high(*port->active_high());\n    }")]),
 ("clone-ref", "C15", [(g, "    ref->clones_.emplace(shared_from_this());\n    set_external(true);", "    ref->clones_.emplace(shared_from_this());")]),
 ("clone-fnln", "C32,C15", [(g, "    clones_.emplace(generator);\n    return generator;", "    if (clones_.empty()) clones_.emplace(generator);\n    return generator;")]),
 ("import-type", "C32,C17", [(g, "        port_p->set_port_type(port_type);\n    }\n\n    return mod;", "        if (port_p->port_direction() == PortDirection::In) port_p->set_port_type(port_type);\n    }\n\n    return mod;")]),
 ("param-dup", "C06", [(g, "    check_param_name_conflict(parameter_name);\n    auto ptr = std::make_shared<Param>(this, param, parameter_name);\n    params_.emplace(parameter_name, ptr);", "    check_param_name_conflict(parameter_name);\n    auto ptr = std::make_shared<Param>(this, param, parameter_name);\n    params_.emplace(param->parameter_name(), ptr);")]),
]
