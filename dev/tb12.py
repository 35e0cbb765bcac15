C = "codegen.cc"
def b(i, p, *subs):
    return (i, p, [(C, o, n) for o, n in subs])
B = [
 b("cg-top-block","C13,C11,C02",("if (stmt->assign_type() != AssignmentType::Blocking)","if (stmt->assign_type() == AssignmentType::NonBlocking)")),
 b("cg-delay-side","C13",("stmt->get_delay()->delay_side == EventControl::DelaySide::right) {","stmt->get_delay()->delay_side != EventControl::DelaySide::right) {")),
 b("cg-delay-top","C13",('        if (stmt->has_delay()) {\n            throw','        if (stmt->has_delay() && stmt->get_delay()->type == EventControlType::Delay) {\n            throw')),
 b("cg-wrap","C13",('for (uint64_t i = 1; i < right_wrapped.size(); i++) {','for (uint64_t i = 1; i + 1 < right_wrapped.size(); i++) {')),
 b("cg-varstr-const","C13,C07",("var->generator() == generator_ || var->generator() == Const::const_gen())","var->generator() == generator_)")),
 b("cg-varstr-handle","C13,C07",("        return var->handle_name(true);","        return var->handle_name();")),
 b("cg-decl-signed","C13",('    if (var->is_signed()) str.emplace_back("signed");','    if (var->is_signed() && !var->is_enum()) str.emplace_back("signed");')),
 b("cg-decl-expl","C13",("    if (var->size().front() > 1 || var->size().size() > 1 || var->explicit_array() ||\n        var->get_size_param(0)) {\n        // it's an array","    if (var->size().front() > 1 || var->explicit_array() ||\n        var->get_size_param(0)) {\n        // it's an array")),
 b("cg-decl-sizeparam","C13",("    if (var->size().front() > 1 || var->size().size() > 1 || var->explicit_array() ||\n        var->get_size_param(0)) {\n        // it's an array","    if (var->size().front() > 1 || var->size().size() > 1 || var->explicit_array()) {\n        // it's an array")),
 b("cg-decl-raw","C13",("    if (!var->is_enum() && !var->raw_type_parametrized())\n        var_width","    if (!var->is_enum())\n        var_width")),
 b("cg-ext","C13,C07",("    if (generator->external()) return;\n\n    // index","    if (generator->external() && !generator->stmts_count()) return;\n\n    // index")),
 b("cg-yosys","C13",('if (attr->value_str == "yosys_src")','if (attr->type_str == "yosys_src")')),
 b("cg-order","C13",("    generate_enums(generator);\n    generate_variables(generator);","    generate_variables(generator);\n    generate_enums(generator);")),
 b("cg-import-pkg","C13",('        stream_ << "import " << options_.package_name << "::*;" << stream_.endl();','        if (generator->has_instantiated()) stream_ << "import " << options_.package_name << "::*;" << stream_.endl();')),
 b("cg-rawimport","C13",('stream_ << indent() << "import " << pkg_name << "::*;" << stream_.endl();','stream_ << indent() << "import " << *raw_import.begin() << "::*;" << stream_.endl();')),
 b("cg-wparam","C13",('param->type() == VarType::Parameter ? "{0}-1" : "({0})-1"','param->type() != VarType::Expression ? "{0}-1" : "({0})-1"')),
 b("cg-wparam2","C13",('"{0}-1" : "({0})-1"','"{0}-1" : "{0}-1"')),
 b("cg-w1","C13",("return (var->var_width() > 1 && !var->is_struct()) || var->parametrized()","return var->var_width() > 1 && (!var->is_struct() || var->parametrized())")),
 b("cg-wstr","C13",('        format = "[({0})-1:0]";','        format = "[{0}-1:0]";')),
 b("cg-portsort","C13,C06",("                         return p_l->port_direction() == PortDirection::In &&\n                                p_r->port_direction() == PortDirection::Out;","                         return p_l->port_direction() == PortDirection::In ||\n                                p_r->port_direction() == PortDirection::Out;")),
 b("cg-ifport","C13",("                interface_name.emplace(ref_name);","                interface_name.emplace(def_name);")),
 b("cg-ifcomma","C13",('if (count != size) stream_ << ",";','if (count != interface_names.size()) stream_ << ",";')),
 b("cg-vars-if","C13",("if (var->type() == VarType::Base && !var->is_interface()) {","if (var->type() == VarType::Base) {")),
 b("cg-param-sign","C13",("auto c = Const(value, param->width(), param->is_signed());","auto c = Const(value, param->width(), value < 0);")),
 b("cg-param-raw","C13",("                if (param->get_raw_str_initial_value()) {\n                    // use","                if (!param->get_raw_str_value() && param->get_raw_str_initial_value()) {\n                    // use")),
 b("cg-param-enum","C13",("                type_str = param->enum_def()->name;\n            } else if (param->param_type() != ParamType::Parameter) {\n                if (param->has_value()) value_str = param->value_str();","                type_str = param->enum_def()->name;\n                if (param->has_value()) value_str = param->value_str();\n            } else if (param->param_type() != ParamType::Parameter) {")),
 b("cg-param-comma","C13",('if (++count < params.size()) {\n                stream_ << ",";','if (++count + 1 < params.size()) {\n                stream_ << ",";')),
 b("cg-func-unused","C13",("for (auto const& iter : funcs) stmt_code(iter.second.get());","for (auto const& iter : funcs) if (!iter.second->empty()) stmt_code(iter.second.get());")),
 b("cg-indent","C13",("    if (empty_indent_str_.size() < (indent_ * indent_size)) {","    if (empty_indent_str_.empty()) {")),
 b("cg-disp-break","C13",("            stmt_code(reinterpret_cast<AuxiliaryStmt*>(node));\n            break;","            stmt_code(reinterpret_cast<AuxiliaryStmt*>(node));")),
 b("cg-input-self","C13,C01",("            stmt->right()->type() != VarType::ConstValue) {","            stmt->right()->type() != VarType::ConstValue && stmt->parent() == generator_) {")),
 b("cg-input-self2","C13,C01",("            stmt->left()->generator() == generator_ &&\n","            stmt->left()->generator() == stmt->right()->generator() &&\n")),
 b("cg-ret","C13",('stream_ << indent() << "return " << stream_.var_str(stmt->value().get()) << ";"','stream_ << indent() << "return " << stmt->value()->to_string() << ";"')),
 b("cg-ff-sens","C13",('string::join(sensitive_list.begin(), sensitive_list.end(), ", ");','string::join(sensitive_list.begin(), sensitive_list.end(), " ");')),
 b("cg-ff-event","C13",("        sensitive_list.emplace_back(event_control.to_string(func));","        sensitive_list.emplace_back(event_control.to_string(nullptr));")),
 b("cg-ff-lab","C13",('") begin"\n            << block_label(stmt) << stream_.endl();','") begin"\n            << stream_.endl();')),
 b("cg-comb-gp","C13",('stmt->is_general_purpose() ? "always" : "always_comb"','stmt->is_general_purpose() && !stmt->empty() ? "always" : "always_comb"')),
 b("cg-scope-skip","C13",('    stream_ << "begin" << block_label(stmt) << stream_.endl();\n    indent_++;','    stream_ << "begin" << (skip_indent_ ? "" : block_label(stmt)) << stream_.endl();\n    indent_++;')),
 b("cg-func-dpi","C13",("    if (stmt->is_dpi() || stmt->is_builtin()) return;","    if (stmt->is_dpi()) return;")),
 b("cg-func-width","C13",("                width = handler->width();\n                is_signed","                width = handler->var_width();\n                is_signed")),
 b("cg-func-sign","C13",('                std::string("logic") + (is_signed ? " signed" : "") + get_width_str(width) + " ";','                std::string("logic") + (is_signed && width > 1 ? " signed" : "") + get_width_str(width) + " ";')),
 b("cg-func-void","C13",('return_str = "void ";','return_str = "";')),
 b("cg-func-ord","C13",("            return ordering.at(lhs) < ordering.at(rhs);","            return ordering.at(lhs) > ordering.at(rhs);")),
 b("cg-func-end","C13",('stmt->is_task() ? "endtask" : "endfunction"','stmt->is_task() || !stmt->has_return_value() ? "endtask" : "endfunction"')),
 b("cg-assert-else","C13",('        stream_ << indent() << "assert (" << stream_.var_str(st->value()) << ")";','        stream_ << indent() << "assert (" << st->value()->to_string() << ")";')),
 b("cg-assert-indent","C13",("            dispatch_node(st->else_().get());\n            indent_ = temp;","            dispatch_node(st->else_().get());\n            indent_ = 0;\n            (void)temp;")),
 b("cg-prop-edge","C13",("    if (edge.var) {","    if (edge.var && edge.var->generator() == generator_) {")),
 b("cg-prop-else","C13",("    if (stmt->else_() && action_type == PropertyAction::Assert) {","    if (stmt->else_()) {")),
 b("cg-prop-assume","C13",('        action = "assume";','        action = "assert";')),
 b("cg-comment","C13",('stream_ << indent() << "// " << comment << stream_.endl();','stream_ << indent() << comment << stream_.endl();')),
 b("cg-if-skip","C13",("    if (!else_body->empty()) {\n        // special","    if (else_body->size() > 0 && !(else_body->size() == 1 && else_body->get_stmt(0)->type() == StatementType::Comment)) {\n        // special")),
 b("cg-if-label","C13",("        bool skip = else_body->size() == 1 &&","        bool skip = else_body->size() >= 1 &&")),
 b("cg-if-then","C13",("    auto const& then_body = stmt->then_body();\n    dispatch_node(then_body.get());","    auto const& then_body = stmt->then_body();\n    if (!then_body->empty()) dispatch_node(then_body.get());")),
 b("cg-inst-param","C13",("        if (!param->parent_param() && param->get_initial_value() &&","        if (param->get_initial_value() &&")),
 b("cg-inst-raw","C13",("              (*param->get_raw_str_value()) == (*param->get_raw_str_initial_value())) ||\n             (!param->get_raw_str_value() && param->get_raw_str_initial_value()))) {","              (*param->get_raw_str_value()) == (*param->get_raw_str_initial_value())) ||\n             param->get_raw_str_initial_value())) {")),
 b("cg-inst-chk","C13",("if (p_gen != stmt->generator_parent()) {","if (p_gen != stmt->generator_parent() && p_gen != stmt->target()) {")),
 b("cg-inst-name","C13",("    stream_ << stmt->target()->instance_name;","    stream_ << stmt->target()->name;")),
 b("cg-inst-last","C13",('++count == params_.size() ? ")"','++count >= params.size() ? ")"')),
 b("cg-sw-sort","C13",("[](const auto& lhs, const auto& rhs) { return lhs->value() < rhs->value(); });\n    conds","[](const auto& lhs, const auto& rhs) { return lhs->value() > rhs->value(); });\n    conds")),
 b("cg-sw-empty","C13",("        if (stmt_blk && stmt_blk->empty() && cond) {","        if (stmt_blk && stmt_blk->empty() && cond && body.size() > 1) {")),
 b("cg-sw-lab","C13",("            if (stmt_blk->size() == 1 && label_index_.find(stmt_blk.get()) == label_index_.end() &&","            if (stmt_blk->size() == 1 &&")),
 b("cg-sw-default","C13",("        } else if (!stmt_blk || (stmt_blk->empty() && !cond)) {","        } else if (!stmt_blk || !cond) {")),
 b("cg-for-neg","C13",('<< (stmt->step() > 0 ? " < " : " > ");','<< (stmt->start() < stmt->end() || stmt->step() > 0 ? " < " : " > ");')),
 b("cg-for-step","C13",('stream_ << ::format("{0}", std::abs(stmt->step())) << ") ";','stream_ << ::format("{0}", stmt->step()) << ") ";')),
 b("cg-for-unsigned","C13",('if (!iter->is_signed()) var_decl.emplace_back("unsigned");','if (!iter->is_signed() && stmt->start() >= 0) var_decl.emplace_back("unsigned");')),
 b("cg-aux-edge","C13",('stream_ << "@(" << event.to_string(var_func) << \')\';','stream_ << "@" << event.to_string(var_func);')),
 b("cg-size-param","C13",("            str.append(SystemVerilogCodeGen::get_width_str(var->size()[i]));","            str.append(SystemVerilogCodeGen::get_width_str(var->size()[0]));")),
 b("cg-port-raw","C13",("    if (!port->is_struct() && !port->is_enum() && !port->raw_type_parametrized()) {\n        auto const& var_width_str","    if (!port->is_struct() && !port->is_enum()) {\n        auto const& var_width_str")),
 b("cg-port-pack","C13",("         port->get_size_param(0)) &&\n        !port->is_packed()) {","         port->get_size_param(0)) &&\n        !port->is_packed() && !port->is_struct()) {")),
 b("cg-named","C13",("result.emplace(generator_->get_named_block(name).get(), name);","result.emplace(generator_->get_named_block(name).get(), *names.begin());")),
 b("cg-pi-sort","C13,C06",("        return lhs.first->port_direction() == PortDirection::In &&\n               rhs.first->port_direction() == PortDirection::Out;","        return lhs.first->port_direction() == PortDirection::In &&\n               rhs.first->port_direction() != PortDirection::In && rhs.first->width() > 1;")),
 b("cg-pi-if","C13",("            internal_name = internal->name;\n            external_name = external->name;","            internal_name = internal->name;\n            external_name = internal->name;")),
 b("cg-pi-ext","C13",("                external_name = external->to_string();\n","                external_name = external->name;\n")),
 b("cg-pi-mod","C13",("                    if (i && !i->definition()->is_modport()) {","                    if (i) {")),
 b("cg-pi-diff","C13",("if (interface_names.at(internal_name) != external_name) {","if (interface_names.at(internal_name) != external_name && internal->port_direction() == PortDirection::In) {")),
 b("cg-pi-dup","C13",("                    continue;\n                }\n                interface_names.emplace","                    if (i_dup_) continue;\n                }\n                interface_names.emplace"),("    std::unordered_map<std::string, std::string> interface_names;\n    std::vector<std::pair<std::string, std::string>> connections;","    bool const i_dup_ = ports.size() > 2;\n    std::unordered_map<std::string, std::string> interface_names;\n    std::vector<std::pair<std::string, std::string>> connections;")),
 b("cg-pi-last","C13",("        if (i != connections.size() - 1)","        if (i != ports.size() - 1)")),
 b("cg-enum-w","C13",('enum_->width() == 1 ? ""','enum_->width() <= 2 ? ""')),
 b("cg-enum-sort","C13,C06",("return enum_->values.at(a)->value() < enum_->values.at(b)->value();","return enum_->values.at(a)->value() <= enum_->values.at(b)->value();")),
 b("cg-enum-val","C13",('stream_ << indent << name << " = " << c->value_string();','stream_ << indent << name << " = " << c->to_string();')),
 b("cg-stub","C13,C17,C14",("        p.set_is_packed(port->is_packed());\n    }\n    // that's it","    }\n    // that's it")),
 b("cg-stub-sign","C13,C17,C14",("                           port->port_type(), port->is_signed());\n        p.set_is_packed","                           port->port_type(), false);\n        p.set_is_packed")),
 b("cg-flat-param","C13,C17,C14",("        param->set_value(new_p.as<Param>());","        if (param->is_signed()) param->set_value(new_p.as<Param>());")),
 b("cg-flat-dir","C13,C17,C14",("                auto& new_port = gen.port(p->port_direction(), name, slice_port->var_width());","                auto& new_port = gen.port(PortDirection::In, name, slice_port->var_width());")),
 b("cg-flat-name","C13,C17,C14",('for (auto const& s : slice) name = ::format("{0}_{1}", name, s);','for (auto const& s : slice) name = ::format("{0}_{1}", port_name, s);')),
 b("cg-flat-attr","C13,C17,C14",("                copy_attrs(*p, new_port);\n            }\n        }","            }\n        }")),
 b("cg-uniq","C13,C06",("        if (!generator->external()) generator_map_.emplace(generator->name, generator);","        if (!generator->external() || generator->is_stub()) generator_map_.emplace(generator->name, generator);")),
 b("cg-pkg-name","C13",("    if (options.package_name == top->name) {","    if (options.package_name == top->instance_name) {")),
 b("cg-pkg-same","C13,C06",("            if (content == src) continue;","            if (content.size() == src.size()) continue;")),
 b("cg-pkg-hdr","C13,C06",("        if (content == def_str) {\n            return;","        if (!content.empty()) {\n            return;")),
 b("cg-pkg-guard","C13",('    if (include_guard) stream << "`endif" << stream.endl();','    if (include_guard && !interface_info.empty()) stream << "`endif" << stream.endl();')),
 b("cg-pkg-list","C13",("auto info_list = {dpi_info, struct_info, enum_info, interface_info};","auto info_list = {dpi_info, enum_info, interface_info};")),
 b("cg-pkg-order","C13",("auto info_list = {dpi_info, struct_info, enum_info, interface_info};","auto info_list = {interface_info, enum_info, struct_info, dpi_info};")),
 b("cg-gen-opt","C13",("    if (options.package_name.empty()) {\n        return generate_verilog_no_pkg(top, options);","    if (options.package_name.empty()) {\n        return generate_verilog_no_pkg(top, {});")),
 b("cg-fixln","C13,C06",("        var->verilog_ln += offset;","        if (var->type() == VarType::PortIO) var->verilog_ln += offset;")),
]
