G="generator.cc"
A="C15,C06,C09,C32,C17,C11"
B=[
("var-redef-sign","C03,C06,C15,C32",[(G,"v_p->size() != size || v_p->is_signed() != is_signed)","v_p->size() != size)")]),
("var-redef-size","C03,C06,C15,C32",[(G,"if (v_p->var_width() != width || v_p->size() != size ||","if (v_p->var_width() * v_p->size().front() != width * size.front() ||")]),
("var-redef-width","C03,C06,C15,C32",[(G,"if (v_p->var_width() != width || v_p","if (v_p->width() != width || v_p")]),
("var-copy-explicit","C32",[(G,"    v_.set_explicit_array(v.explicit_array());\n","")]),
("var-copy-meta","C32",[(G,"v.copy_meta_data(&v_, false);","v.copy_meta_data(&v_, true);")]),
("port-copy-active","C32",[(G,"if (p.active_high()) p_.set_active_high(*p.active_high());","if (p.active_high() && *p.active_high()) p_.set_active_high(true);")]),
("port-copy-active2","C32",[(G,"    if (p.active_high()) p_.set_active_high(*p.active_high());\n    // need to copy","    // need to copy")]),
("port-copy-checkparam","C32,C31",[(G,"p.copy_meta_data(&p_, check_param);","p.copy_meta_data(&p_, false);")]),
("port-enum-local","C30,C17,C06",[(G,"if (def->local())\n","if (def->local() && direction == PortDirection::In)\n")]),
("addport-var","C06,C15",[(G,"    if (vars_.find(port_name) != vars_.end())\n        throw VarException(::format(\"{0} already exists in {1} as a variable\"","    if (vars_.find(port_name) != vars_.end() &&\n        vars_.at(port_name)->type() == VarType::PortIO)\n        throw VarException(::format(\"{0} already exists in {1} as a variable\"")]),
("param-conflict","C06,C31",[(G,"    if (params_.find(parameter_name) != params_.end())\n        throw","    if (params_.find(parameter_name) != params_.end() &&\n        params_.at(parameter_name)->has_value())\n        throw")]),
("param-kw","C06",[(G,"    if (!is_valid_variable_name(parameter_name))\n        throw UserException(::format(\"{0} is a SystemVerilog keyword\", parameter_name));\n","")]),
("param-enum-check","C06",[(G,"const std::shared_ptr<Enum> &enum_def) {\n    check_param_name_conflict(parameter_name);","const std::shared_ptr<Enum> &enum_def) {\n    if (params_.count(parameter_name)) params_.erase(parameter_name);")]),
("param-width-signed","C32,C31",[(G,"return parameter(parameter_name, width, false);","return parameter(parameter_name, width, width == 32);")]),
("enum-verify","C06,C30",[(G,"    Enum::verify_naming_conflict(enums_, enum_name, definition);\n","    if (enums_.count(enum_name)) Enum::verify_naming_conflict(enums_, enum_name, definition);\n")]),
("enumvar-has","C06,C15",[(G,"    if (has_var(var_name))\n        throw VarException(::format(\"{0} already exists\"","    if (has_port(var_name))\n        throw VarException(::format(\"{0} already exists\"")]),
("fsm-dup","C06,C15",[(G,"FSM &Generator::fsm(const std::string &fsm_name, const std::shared_ptr<Var> &clk,\n                    const std::shared_ptr<Var> &reset) {\n    if (fsms_.find(fsm_name) != fsms_.end())\n        throw UserException(::format(\"FSM {0} already exists in {1}\", fsm_name, name));\n","FSM &Generator::fsm(const std::string &fsm_name, const std::shared_ptr<Var> &clk,\n                    const std::shared_ptr<Var> &reset) {\n")]),
("call-mock-order","C27",[(G,'::format("{0:010d}", i)','::format("{0}", i)')]),
("call-builtin-check","C27",[(G,"if (!func_def->is_builtin())","if (!func_def->is_builtin() && !args.empty())")]),
("call-builtin-ret","C27",[(G,"mock_args, func_def->has_return_value());","mock_args, true);")]),
("call-ret","C27",[(G,"std::make_shared<FunctionCallVar>(this, func_def, args, has_return);","std::make_shared<FunctionCallVar>(this, func_def, args, has_return || func_def->has_return_value());")]),
("call-track","C27,C15,C09",[(G,"has_return);\n    calls_.emplace(p);","has_return);\n    if (has_return) calls_.emplace(p);")]),
("task-dup","C27,C06",[(G,"std::shared_ptr<TaskStmtBlock> Generator::task(const std::string &func_name) {\n    if (funcs_.find(func_name) != funcs_.end())","std::shared_ptr<TaskStmtBlock> Generator::task(const std::string &func_name) {\n    if (funcs_.find(func_name) != funcs_.end() && funcs_.at(func_name)->is_task())")]),
("dpi-index","C27,C10,C15",[(G,"std::make_shared<DPIFunctionStmtBlock>(this, func_name);\n    func_index_.emplace(static_cast<uint32_t>(funcs_.size()), func_name);","std::make_shared<DPIFunctionStmtBlock>(this, func_name);\n    func_index_.emplace(static_cast<uint32_t>(func_index_.size() + 1), func_name);")]),
("addf-order","C27,C10,C15",[(G,"            {func.get(), funcs_.at(func_name).get()});\n    func_index_.emplace(static_cast<uint32_t>(funcs_.size()), func_name);\n    funcs_.emplace(func_name, func);","            {func.get(), funcs_.at(func_name).get()});\n    funcs_.emplace(func_name, func);\n    func_index_.emplace(static_cast<uint32_t>(funcs_.size()), func_name);")]),
("addf-parent","C27,C15,C11",[(G,"    // change the parent\n    func->set_parent(this);\n","    if (!func->is_dpi()) func->set_parent(this);\n")]),
("getchild-func","C10",[(G,"auto i = index - stmts_count();","auto i = index % (stmts_count() + 1);")]),
("getchild-gen","C10",[(G,"children_names_[index - stmts_count() - funcs_.size()];","children_names_[get_child_generator_size() - 1 - (index - stmts_count() - funcs_.size())];")]),
("addchild-name","C15,C06",[(G,"        child->instance_name = instance_name_;\n","        if (child->instance_name == child->name) child->instance_name = instance_name_;\n")]),
("addchild-kw","C06",[(G,"    if (!is_valid_variable_name(instance_name_))\n        throw UserException(::format(\"{0} is a SystemVerilog keyword\", instance_name_));\n    if (children_","    if (children_")]),
("addchild-debug","C15",[(G,"    if (debug) {\n        children_debug_[instance_name_] = debug_info;\n    }","    if (debug) {\n        children_debug_.emplace(instance_name_, debug_info);\n    }")]),
("rmchild-other","C15",[(G,"    if (!has_child_generator(child)) return;","    if (!has_child_generator(child->instance_name)) return;")]),
("rmchild-comment","C15",[(G,"        children_comments_.erase(child_name);\n","")]),
("rmchild-debug","C15",[(G,"        children_debug_.erase(child_name);\n","")]),
("rmchild-inout-src","C15,C09",[(G,"if (port->port_direction() != PortDirection::Out) {\n                // do a copy","if (port->port_direction() == PortDirection::In) {\n                // do a copy")]),
("rmchild-out-sink","C15,C09",[(G,"if (port->port_direction() != PortDirection::In) {\n                auto sinks","if (port->port_direction() == PortDirection::Out) {\n                auto sinks")]),
("rmchild-unassign","C15,C09",[(G,"                    sink->unassign(stmt);\n","                    (void)sink;\n")]),
("rmchild-rmstmt","C15,C09",[(G,"                    port->unassign(stmt);\n                    remove_stmt_from_parent(stmt);","                    port->unassign(stmt);\n                    if (stmt->generator_parent() == this) remove_stmt(stmt);")]),
("rmchild-parent","C15",[(G,"        child->parent_generator_ = nullptr;\n","        if (child->parent_generator_ == this && !child->external()) child->parent_generator_ = nullptr;\n")]),
("rename-exist","C15,C06",[(G,"    if (children_.find(new_name) != children_.end())\n        throw GeneratorException(\n            ::format(\"Child instance","    if (children_.find(new_name) != children_.end() && children_.at(new_name)->name == child->name)\n        throw GeneratorException(\n            ::format(\"Child instance")]),
("rename-comment","C15",[(G,"        children_comments_.insert(std::move(child_comment_handler));\n","")]),
("rename-debug","C15",[(G,"        children_debug_.insert(std::move(child_debug_handler));\n","")]),
("rename-inst","C15",[(G,"    child->instance_name = new_name;\n}","    if (child->instance_name != child->name) child->instance_name = new_name;\n}")]),
("rename-pos","C15",[(G,"    *pos = new_name;\n","    children_names_.erase(pos);\n    children_names_.emplace_back(new_name);\n")]),
("getvars-type","C15,C06",[(G,"if (ptr->type() == VarType::Base) {\n            result","if (ptr->type() != VarType::PortIO) {\n            result")]),
("uniq-prefix","C06",[(G,'    if (!get_var(result_name)) return result_name;\n','    if (!get_var(result_name) || prefix == var_name) return result_name;\n')]),
("uniq-count","C06",[(G,'            result_name = ::format("{0}_{1}_{2}", prefix, var_name, count);\n        }\n        if (!get_var(result_name)) {','            result_name = ::format("{0}_{1}_{2}", prefix, var_name, count);\n        }\n        if (!has_port(result_name)) {')]),
("rmport","C15,C06",[(G,"        ports_.erase(port_name);\n        remove_var(port_name);","        remove_var(port_name);")]),
("renvar-port","C06,C15",[(G,"if (ports_.erase(old_name)) ports_.emplace(new_name);","if (has_port(old_name)) ports_.emplace(new_name);")]),
("renvar-has","C06,C15",[(G,"    if (has_var(new_name))\n        throw","    if (has_port(new_name))\n        throw")]),
("renvar-name","C06,C15",[(G,"    var->name = new_name;\n","    if (var->type() != VarType::PortIO) var->name = new_name;\n")]),
("reindex-ports","C06,C15",[(G,"    ports_ = ports;\n","    ports_.insert(ports.begin(), ports.end());\n")]),
("reindex-type","C06,C15",[(G,"        if (var->type() == VarType::PortIO) {\n            ports.emplace(name_);","        if (var->type() == VarType::PortIO && has_port(n_)) {\n            ports.emplace(n_);")]),
("callvar-gen","C27,C15",[(G,"    calls_.emplace(var);\n    var->set_generator(this);","    if (calls_.emplace(var).second && !var->generator()) var->set_generator(this);")]),
("rmstmt-cache","C11,C15",[(G,"        stmts_remove_cache_.emplace(stmt);\n        return;","        stmts_remove_cache_.emplace(stmt);\n        if (stmt->type() != StatementType::Assign) return;")]),
("clrcache","C11,C15",[(G,"    stmts_remove_cache_.clear();\n","")]),
("setparams-remove","C31",[(G,"                parent_param->remove_param_width_var(param);\n","")]),
("setparams-null","C31",[(G,"        if (!found) {\n            var->set_width_param(nullptr);\n        }","        if (!found && param->is_param()) {\n            var->set_width_param(nullptr);\n        }")]),
("setparams-size","C31",[(G,"                if (param->is_param() && param->as<Param>()->parent_param() == parent_param.get()) {\n                    // found it\n                    parent_param->remove_param_size","                if (param->is_param()) {\n                    // found it\n                    parent_param->remove_param_size")]),
("transfer-expr","C15,C09",[(G,"        expr->set_parent_generator(&gen);\n        gen.exprs_.emplace(expr);","        gen.exprs_.emplace(expr);")]),
("transfer-sink","C15,C09",[(G,"Var::move_sink_to(var.get(), &new_var, &gen, false);\n            Var","Var::move_sink_to(var.get(), &new_var, this, false);\n            Var")]),
("transfer-name","C15,C06",[(G,"        var->name = target_name;\n","        if (var->type() == VarType::PortIO) var->name = target_name;\n")]),
("transfer-gen","C15,C06,C09",[(G,"        var->set_generator(&gen);\n        std::string","        if (var->type() != VarType::PortIO) var->set_generator(&gen);\n        std::string")]),
("transfer-unlink","C31,C15",[(G,"            // unlink parameters\n            var->set_width_param(nullptr);\n","            // unlink parameters\n")]),
("iface-isport","C17,C15",[(G,"if (is_port) add_port_name(var_name);","add_port_name(var_name);")]),
("iface-vars","C06,C17",[(G,"    if (interfaces_.find(interface_name) != interfaces_.end()) {\n        throw","    if (interfaces_.find(interface_name) != interfaces_.end() && is_port) {\n        throw")]),
("iface-kw","C06",[(G,"    if (!is_valid_variable_name(interface_name)) {","    if (is_port && !is_valid_variable_name(interface_name)) {")]),
("iface-width","C17,C32",[(G,"n, width, size, false);\n        ref->var(n","n, width, std::vector<uint32_t>{size.front()}, false);\n        ref->var(n")]),
("iface-type","C17,C32",[(G,"dir, n, width, size, type, false);","dir, n, width, size, is_port ? type : PortType::Data, false);")]),
("checkdir","C17",[(G,"    else if (port1_dir == PortDirection::In)\n        correct_dir","    else if (port1_dir != PortDirection::Out)\n        correct_dir")]),
("cpd-iface1","C17",[(G,"if (port1->is_interface() && !port2->is_interface()) {","if (port1->is_interface()) {")]),
("cpd-iface2","C17",[(G,"            auto *port_i = reinterpret_cast<InterfacePort *>(port2);\n            const auto *it = port_i->interface();\n            interface_port_wire = !it->is_port();","            auto *port_i = reinterpret_cast<InterfacePort *>(port2);\n            const auto *it = port_i->interface();\n            interface_port_wire = it->is_port();")]),
("cpd-has","C17",[(G,"if (parent1 == top && top->has_child_generator(parent2->shared_from_this())) {","if (parent1 == top && parent2 != top) {")]),
("cpd-sib","C17",[(G,"parent1->parent() == parent2->parent() && parent1->parent() == top)","parent1->parent() == parent2->parent())")]),
("cpd-sib-dir","C17",[(G,"            check_direction(port1, port2, false);\n            return {(port1->port_direction() == PortDirection::In), true};","            check_direction(port1, port2, false);\n            return {(port1->port_direction() != PortDirection::Out), true};")]),
("cwd-slice","C17",[(G,"    while (root2->type() == VarType::Slice) {","    if (root2->type() == VarType::Slice) {")]),
("cwd-child","C17",[(G,"            // child generator, reverse order\n            return {port2->port_direction() == PortDirection::Out, true};","            // child generator, reverse order\n            return {port2->port_direction() != PortDirection::In, true};")]),
("cwd-flip","C17",[(G,"flip_dir = !(ref->is_port() && root2->generator() == this);","flip_dir = !ref->is_port();")]),
("wi-dir","C17",[(G,"        if (port->port_direction() == PortDirection::In) {\n            add_stmt(port->assign(*v));","        if (port->port_direction() != PortDirection::Out) {\n            add_stmt(port->assign(*v));")]),
("wi-parent","C17",[(G,"    if (parent->gen() != this) {","    if (parent->gen() != this && parent->gen()->parent() != this) {")]),
("wi-order","C17",[(G,"        if (parent->has_var(port_name)) {\n            v = &parent->var(port_name);\n        } else if (parent->has_port(port_name)) {\n            v = &parent->port(port_name);\n        }","        if (parent->has_port(port_name)) {\n            v = &parent->port(port_name);\n        } else if (parent->has_var(port_name)) {\n            v = &parent->var(port_name);\n        }")]),
("unwire-dir","C17,C09",[(G,"        assign_stmt->left()->remove_source(assign_stmt);\n","        var1.remove_source(assign_stmt);\n")]),
("unwire-sink","C17,C09",[(G,"        assign_stmt->right()->remove_sink(assign_stmt);\n","")]),
("clone-sign","C32",[(G,"            auto param = generator->get_param(port->width_param()->to_string());\n            p.set_width_param(param);\n        }\n        p.set_explicit_array(port->explicit_array());","            auto param = generator->get_param(port->width_param()->to_string());\n            p.set_width_param(param);\n        }\n        p.set_explicit_array(port->explicit_array() && port->size().size() > 1);")]),
("clone-track","C32,C15",[(G,"    clones_.emplace(generator);\n","")]),
("clone-def","C32,C15",[(G,"    generator->def_instance_ = this;","    generator->def_instance_ = def_instance_;")]),
("cloneref","C15,C32",[(G,"    ref->clones_.emplace(shared_from_this());\n","")]),
("cloneref-ext","C15,C32",[(G,"    ref->clones_.emplace(shared_from_this());\n    set_external(true);","    ref->clones_.emplace(shared_from_this());\n    set_external(ref->external());")]),
("missing-param","C31",[(G,"            if (param) {\n                p.set_width_param(param);\n            }","            if (param && param->value() != 1) {\n                p.set_width_param(param);\n            }")]),
("accept","C10",[(G,"    if (!external()) {\n        visitor->visit(this);","    if (!external() || is_cloned_) {\n        visitor->visit(this);")]),
("packed-size","C30,C32",[(G,"std::make_shared<PortPackedStruct>(this, direction, port_name, packed_struct_, size);\n    add_port_name","std::make_shared<PortPackedStruct>(this, direction, port_name, packed_struct_, size.size() > 1 ? size : std::vector<uint32_t>{1});\n    add_port_name")]),
("varpacked-exists","C06,C15",[(G,"                                       const std::vector<uint32_t> &size) {\n    if (vars_.find(var_name) != vars_.end())\n","                                       const std::vector<uint32_t> &size) {\n    if (ports_.find(var_name) != ports_.end())\n")]),
("rep-size","C15,C17",[(G,"if (old_port->size() != new_port->size() || old_port->width() != new_port->width()) {","if (old_port->width() != new_port->width()) {")]),
("rep-names","C15,C17",[(G,"    if (old_port_names.size() != new_port_names.size()) {","    if (old_port_names.size() > new_port_names.size()) {")]),
("rep-type","C15,C17",[(G,"        if (old_port->port_type() != new_port->port_type()) {","        if (old_port->port_type() != new_port->port_type() && old_port->port_type() != PortType::Data) {")]),
("rep-dir","C15,C17",[(G,"        if (old_port->port_direction() != new_port->port_direction()) {","        if (old_port->port_direction() == PortDirection::In && new_port->port_direction() != PortDirection::In) {")]),
("rep-inout","C15,C17,C09",[(G,"            // inout, move both source and sinks\n            Var::move_src_to(old_port.get(), new_port.get(), this, false);\n","            // inout, move both source and sinks\n")]),
("rep-remove","C15",[(G,"    remove_child_generator(old_child);\n    add_child_generator(child_name, new_child);","    children_.erase(child_name);\n    children_names_.erase(std::find(children_names_.begin(), children_names_.end(), child_name));\n    add_child_generator(child_name, new_child);")]),
("getports","C15,C17",[(G,"if (port->port_type() == type) result.emplace_back(port_name);","if (port->port_type() == type && port->width() == 1) result.emplace_back(port_name);")]),
("bundle-name","C17",[(G,"auto var_name = get_unique_variable_name(port_name, name_);",'auto var_name = ::format("{0}_{1}", port_name, name_);')]),
("bundle-signed","C17,C32",[(G,"auto &p = port(direction, var_name, width, size, port_type, is_signed);\n        // add to","auto &p = port(direction, var_name, width, size, port_type, is_signed && width > 1);\n        // add to")]),
("bundle-dup","C17,C06",[(G,"    if (port_bundle_mapping_.find(port_name) != port_bundle_mapping_.end())\n        throw UserException(::format(\"{0} already exists in {1}\", port_name, name));\n    auto definition","    auto definition")]),
("setcomment","C15",[(G,"    children_comments_[child_name] = comment;","    children_comments_.emplace(child_name, comment);")]),
("rmvar-sinks","C06,C09",[(G,"    if (!var->sinks().empty()) {\n        throw UserException(::format(\"{0} still has sink","    if (!var->sinks().empty() && var->sources().empty() && var->type() == VarType::PortIO) {\n        throw UserException(::format(\"{0} still has sink")]),
("named-dup","C06,C15",[(G,"    if (has_named_block(block_name))\n        throw StmtException","    if (has_named_block(block_name) && named_blocks_.at(block_name)->block_type() == block->block_type())\n        throw StmtException")]),
("handle-top","C15,C06",[(G,"auto starting = ignore_top ? 1u : 0u;","auto starting = ignore_top && values.size() > 1 ? 1u : 0u;")]),
("handle-idx","C15,C06",[(G,"            values.emplace(values.begin(), n);\n            values.emplace(values.begin(), *label);","            values.emplace(values.begin(), *label);\n            values.emplace(values.begin(), n);")]),
("aux","C15,C03",[(G,"auxiliary_vars_.at(var->width()) == var;","auxiliary_vars_.at(var->width())->width() == var->width();")]),
]
