from fx import *
sub('expr.cc','''            is_signed_ = builtin->is_signed();
            auto [min_arg, max_arg] = builtin->num_args();
            auto num_arg = args.size();
            if (num_arg < min_arg || num_arg > max_arg) {
                throw UserException(fmt::format("Invalid number of arguments to function {0}",
                                                func_def->function_name()));
            }
        }
        // check num of args
''','''            is_signed_ = builtin->is_signed();
        }
''')
sub('expr.cc','''    // compute the width and sign
    auto handle = func_def->function_handler();
''','''    if (func_def->is_builtin()) {
        // check num of args
        auto builtin = func_def->as<BuiltInFunctionStmtBlock>();
        auto [min_arg, max_arg] = builtin->num_args();
        auto num_arg = args.size();
        if (num_arg < min_arg || num_arg > max_arg) {
            throw UserException(fmt::format("Invalid number of arguments to function {0}",
                                            func_def->function_name()));
        }
    } else {
        for (auto const &[arg_name, arg] : args) {
            if (ports.find(arg_name) == ports.end())
                throw VarException(
                    ::format("{0} doesn't have port {1}", func_def->function_name(), arg_name),
                    {arg.get()});
        }
    }
    // compute the width and sign
    auto handle = func_def->function_handler();
''')
commit("fix: every function call passes exactly the arguments the function takes")
sub('generator.cc','''        mock_args.emplace(std::make_pair(std::to_string(i), args[i]));
''','''        // arguments are ordered by name
        mock_args.emplace(std::make_pair(::format("{0:010d}", i), args[i]));
''')
commit("fix: positional arguments keep their order")
sub('analysis.cc','''            if (dpi_stmt->return_width() != ref_stmt->return_width()) {
                if (ref_ports.size() != ports.size())
                    throw StmtException("DPI function " + func_name + " has different interface",
                                        {stmt, ref_stmt});
            }
''','''            if (dpi_stmt->return_width() != ref_stmt->return_width()) {
                throw StmtException("DPI function " + func_name + " has different interface",
                                    {stmt, ref_stmt});
            }
''')
sub('analysis.cc','''                if (port->size() != port_ref->size() ||
''','''                if (port->width() != port_ref->width() || port->size() != port_ref->size() ||
''')
commit("fix: DPI functions of the same name agree on every width")
sub('codegen.cc','''            auto width = 32u;
            if (handler) {
                width = handler->width();
            }
            return_str = "logic" + get_width_str(width) + " ";
''','''            auto width = 32u;
            bool is_signed = false;
            if (handler) {
                width = handler->width();
                is_signed = handler->is_signed();
            }
            return_str =
                std::string("logic") + (is_signed ? " signed" : "") + get_width_str(width) + " ";
''')
sub('codegen.cc','''        stream_ << ";" << std::endl;
    } else {
        stream_ << "(" << stream_.endl();
''','''        stream_ << ";" << stream_.endl();
    } else {
        stream_ << "(" << stream_.endl();
''')
commit("fix: the function header carries the sign of the returned value")
sub('stmt.cc','''    auto p = std::make_shared<Port>(parent_, PortDirection::In, name, width, 1, PortType::Data,
                                    is_signed);
    ports_.emplace(name, p);
    return p;
''','''    if (ports_.find(name) != ports_.end())
        throw UserException(::format("{0} already exists in {1}", name, function_name_));
    auto p = std::make_shared<Port>(parent_, PortDirection::In, name, width, 1, PortType::Data,
                                    is_signed);
    ports_.emplace(name, p);
    return p;
''')
sub('stmt.cc','''    // record the ordering
    port_ordering_.emplace(name, port_ordering_.size());
    auto p = std::make_shared<Port>(parent_, PortDirection::Out, name, width, 1, PortType::Data,
                                    is_signed);
    ports_.emplace(name, p);
    return p;
''','''    if (ports_.find(name) != ports_.end())
        throw UserException(::format("{0} already exists in {1}", name, function_name_));
    // record the ordering
    port_ordering_.emplace(name, port_ordering_.size());
    auto p = std::make_shared<Port>(parent_, PortDirection::Out, name, width, 1, PortType::Data,
                                    is_signed);
    ports_.emplace(name, p);
    return p;
''')
commit("fix: the ports of a function have distinct names")
