g="generator.cc"
B = [
 ("missing-ports-sign", "C32", [(g, "        auto &p = this->port(port->port_direction(), port_name, port->var_width(), port->size(),\n                             port->port_type(), port->is_signed());", "        auto &p = this->port(port->port_direction(), port_name, port->var_width(), port->size(),\n                             port->port_type(), false);")]),
 ("port-packed-name", "C06,C30", [(g, "    auto p = std::make_shared<PortPackedStruct>(this, direction, port_name, packed_struct_, size);\n    add_port_name(port_name);\n    vars_.emplace(port_name, p);", "    auto p = std::make_shared<PortPackedStruct>(this, direction, port_name, packed_struct_, size);\n    ports_.emplace(port_name);\n    vars_.emplace(port_name, p);")]),
 ("replace-sign", "C15", [(g, "        if (old_port->is_signed() != new_port->is_signed()) {", "        if (old_port->is_signed() && !new_port->is_signed()) {")]),
 ("replace-width", "C15", [(g, "        if (old_port->size() != new_port->size() || old_port->width() != new_port->width()) {", "        if (old_port->size().size() != new_port->size().size() || old_port->width() != new_port->width()) {")]),
 ("replace-inout", "C15,C09", [(g, "            Var::move_src_to(old_port.get(), new_port.get(), this, false);\n            Var::move_sink_to(old_port.get(), new_port.get(), this, false);\n        }\n    }\n\n    // update", "            Var::move_src_to(old_port.get(), new_port.get(), this, false);\n        }\n    }\n\n    // update")]),
 ("getports-type", "C17,C06,C15", [(g, "        if (port->port_type() == type) result.emplace_back(port_name);", "        if (port->port_type() == type && port->port_direction() == PortDirection::In) result.emplace_back(port_name);")]),
 ("bundle-name", "C17,C06", [(g, "        auto var_name = get_unique_variable_name(port_name, name_);\n        auto &p = port(", "        auto var_name = ::format(\"{0}_{1}\", port_name, name_);\n        auto &p = port(")]),
 ("child-comment", "C15", [(g, "void Generator::set_child_comment(const std::string &child_name, const std::string &comment) {\n    children_comments_[child_name] = comment;", "void Generator::set_child_comment(const std::string &child_name, const std::string &comment) {\n    children_comments_.emplace(child_name, comment);")]),
 ("remove-var-sinks", "C09,C06", [(g, "    if (!var->sinks().empty()) {\n        throw UserException(::format(\"{0} still has sink", "    if (!var->sinks().empty() && var->type() == VarType::PortIO) {\n        throw UserException(::format(\"{0} still has sink")]),
 ("named-block", "C06", [(g, "    if (has_named_block(block_name))\n        throw", "    if (has_named_block(block_name) && named_blocks_.at(block_name) != block && !block)\n        throw")]),
 ("handle-genvar", "C15", [(g, "            values.emplace(values.begin(), n);\n            values.emplace(values.begin(), *label);", "            values.emplace(values.begin(), *label);\n            values.emplace(values.begin(), n);")]),
 ("aux-width", "C11,C09", [(g, "    auto v = std::make_shared<Var>(this, \"\", width, 1, signed_);\n    auxiliary_vars_.emplace(width, v);", "    auto v = std::make_shared<Var>(this, \"\", 1, width, signed_);\n    auxiliary_vars_.emplace(width, v);")]),
 ("isaux", "C11,C09,C18", [(g, "           auxiliary_vars_.at(var->width()) == var;", "           auxiliary_vars_.at(var->width())->generator() == var->generator();")]),
 ("port-ctor-type", "C17", [("port.cc", "    if (type != PortType::Data && var_width() > 1)", "    if (type != PortType::Data && width() > 1 && size().size() == 1)")]),
 ("port-cast-clk", "C17,C03", [("port.cc", "            else if (cast_type == VarCastType::Clock && port_type() == PortType::Clock)", "            else if (cast_type == VarCastType::Clock && port_type() != PortType::Reset)")]),
 ("port-conn-gen", "C17", [("port.cc", "            if (p->direction_ == PortDirection::In && p->generator_ != generator_) {", "            if (p->direction_ == PortDirection::In && p.get() != this) {")]),
 ("enumport-type", "C30", [("port.cc", "        if (p->enum_type()->name != enum_type_->name) {", "        if (p->enum_type()->width() != enum_type_->width()) {")]),
 ("pps-array", "C04,C30", [("port.cc", "    if (width() != var_width())", "    if (width() < var_width())")]),
 ("pps-packed", "C30", [("port.cc", "    if (!value) throw UserException(\"Unable to set packed struct unpacked\");", "    if (!value && size_.size() > 1) throw UserException(\"Unable to set packed struct unpacked\");")]),
 ("bundle-dir", "C17", [("port.cc", "    flipped_.flipped_definitions_ = definitions_;", "    flipped_.flipped_definitions_ = flipped_definitions_;")]),
 ("bundle-parent", "C17", [("port.cc", "        auto other_port = other->generator->get_port(other_real_port);", "        auto other_port = other->generator->get_port(self_real_port);")]),
 ("modport-array", "C17,C30", [("port.cc", "                    PortType::Data, var->is_signed()),\n      var_(var) {\n    explicit_array_ = var->explicit_array();", "                    PortType::Data, var->is_signed()),\n      var_(var) {\n    explicit_array_ = var->is_packed();")]),
 ("ctx-remove", "C15,C06", [("context.cc", "    if (module_set.empty()) modules_.erase(generator->name);\n}", "}")]),
 ("ctx-clone-name", "C15", [("context.cc", "        if (modules_.find(g->name) != modules_.end() && modules_.at(g->name).count(g)) {\n            remove(g.get());\n            modules_[new_name].emplace(g);\n        }\n        g->name = new_name;", "        if (modules_.find(g->name) != modules_.end() && modules_.at(g->name).count(g)) {\n            remove(g.get());\n            modules_[new_name].emplace(g);\n            g->name = new_name;\n        }")]),
 ("ctx-unique", "C15", [("context.cc", "        if (!g->external() && !g->is_cloned()) {", "        if (!g->external() || !g->is_cloned()) {")]),
 ("ctx-clear", "C15", [("context.cc", "    modules_.clear();\n    clear_hash();", "    modules_.clear();")]),
 ("ctx-enum", "C06,C30", [("context.cc", "    enum_defs_.emplace(enum_name, p);\n    p->local() = false;", "    enum_defs_.emplace(enum_name, p);\n    p->local() = enum_defs_.size() > 1;")]),
 ("eval-mod", "C19", [("eval.cc", "            if (left_negative) result = two_complement(result, width);\n            break;\n        case ExprOp::LAnd:", "            if (right_negative) result = two_complement(result, width);\n            break;\n        case ExprOp::LAnd:")]),
 ("eval-sra", "C19", [("eval.cc", "            if (right_value >= width)\n                result = left_negative ? mask : 0;", "            if (right_value > width)\n                result = left_negative ? mask : 0;")]),
 ("eval-pow", "C19", [("eval.cc", "                if (left_value == mask)\n                    result = right_value % 2 ? mask : 1;", "                if (left_value == mask)\n                    result = mask;")]),
 ("eval-uand", "C19", [("eval.cc", "            return static_cast<uint32_t>(__builtin_popcountll(value)) == width;", "            return static_cast<uint32_t>(__builtin_popcount(value)) == width;")]),
 ("sim-concat-order", "C19", [("sim.cc", "                    for (auto *v : concat->vars()) get_var_deps(v, dep, linked_dep);\n                    break;", "                    for (auto *v : concat->vars()) dep.emplace(v);\n                    break;")]),
 ("sim-casted-sign", "C19", [("sim.cc", "        if (parent->is_signed() && width < 64 && (*value >> (width - 1)))", "        if (var->is_signed() && width < 64 && (*value >> (width - 1)))")]),
 ("sim-slice-range", "C19", [("sim.cc", "        if (var_high >= root->width()) return std::nullopt;\n        auto base = var_low", "        if (var_low >= root->width()) return std::nullopt;\n        auto base = var_low")]),
 ("sim-set-trunc", "C19", [("sim.cc", "    } else {\n        value = truncate(value, var->width());\n        std::unordered_set<uint32_t> changed_bits;", "    } else {\n        if (!var->is_signed()) value = truncate(value, var->width());\n        std::unordered_set<uint32_t> changed_bits;")]),
 ("sim-known", "C19", [("sim.cc", "        uint64_t m = known ? (*v) ^ temp : mask;", "        uint64_t m = (*v) ^ temp;")]),
 ("sim-bits-base", "C19", [("sim.cc", "                    changed_bits.emplace(bit + base * root->var_width());", "                    changed_bits.emplace(bit + base);")]),
 ("sim-index-dep", "C19", [("sim.cc", "            // the index of the target is read as well\n            get_index_deps(stmt->left(), vars_, linked_vars_);", "")]),
]
