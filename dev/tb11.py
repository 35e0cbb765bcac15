P="port.cc"; I="interface.cc"; X="context.cc"; E="eval.cc"; U="util.cc"
B=[
("p-clk2","C17",[(P,"           uint32_t size, PortType type, bool is_signed)\n    : Var(module, name, width, size, is_signed, VarType::PortIO),\n      direction_(direction),\n      type_(type) {\n    if ((type == PortType::AsyncReset || type == PortType::Clock || type == PortType::ClockEnable ||\n         type == PortType::Reset) &&","           uint32_t size, PortType type, bool is_signed)\n    : Var(module, name, width, size, is_signed, VarType::PortIO),\n      direction_(direction),\n      type_(type) {\n    if ((type == PortType::AsyncReset || type == PortType::Clock || type == PortType::ClockEnable) &&")]),
("p-null","C17,C03",[(P,'        throw UserException("Trying to assign null to " + to_string());','        return Var::assign_(var, type);')]),
("p-cast-const","C17,C03",[(P,"if (var->type() != VarType::PortIO && var->type() != VarType::ConstValue) {","if (var->type() != VarType::PortIO && var->type() != VarType::ConstValue &&\n        var->type() != VarType::Slice) {")]),
("p-cast-areset","C17",[(P,"if (cast_type == VarCastType::AsyncReset && port_type() == PortType::AsyncReset)","if (cast_type == VarCastType::AsyncReset && port_type() != PortType::Clock)")]),
("p-settype","C17",[(P,"if (type != PortType::Data && var_width() > 1)","if (type == PortType::Clock && var_width() > 1)")]),
("p-settype2","C17",[(P,"if (type != PortType::Data && var_width() > 1)\n        throw UserException(::format(\"{0}'s width has be 1, got {1}\", name, var_width()));\n    type_ = type;","if (type != PortType::Data && var_width() > 1)\n        throw UserException(::format(\"{0}'s width has be 1, got {1}\", name, var_width()));\n    if (type_ == PortType::Data) type_ = type;")]),
("p-actwidth","C17",[(P,"    if (width() != 1)\n        throw VarException(","    if (var_width() != 1)\n        throw VarException(")]),
("p-from-dir","C17,C09",[(P,"if (p->direction_ == PortDirection::Out && p->generator_ != generator_) {","if (p->direction_ != PortDirection::In && p->generator_ != generator_) {")]),
("p-from-gen","C17,C09",[(P,"if (p->direction_ == PortDirection::In && p->generator_ != generator_) {","if (p->direction_ == PortDirection::In) {")]),
("p-from-root","C17,C09",[(P,"        v.visit_root(src);\n","        v.visit_content(nullptr);\n        if (src->type() == VarType::PortIO) src->accept(&v);\n")]),
("p-conn-inout","C17,C09",[(P,"return !sources().empty() || !sinks().empty();","return !sources().empty() && !sinks().empty();")]),
("p-conn-out","C17,C09",[(P,"    } else if (port_direction() == PortDirection::Out) {\n        return !sinks().empty();","    } else if (port_direction() == PortDirection::Out) {\n        return !sinks().empty() || !sources().empty();")]),
("ep-const","C30,C03",[(P,"        if (p->enum_def()->name != enum_type_->name)\n            throw VarException(\"Cannot assign different enum type\", {this, var.get()});\n    } else {\n        auto* p = dynamic_cast","        if (p->enum_def()->width() != enum_type_->width())\n            throw VarException(\"Cannot assign different enum type\", {this, var.get()});\n    } else {\n        auto* p = dynamic_cast")]),
("ep-null","C30,C03",[(P,"        if (!p->enum_type())\n            throw VarException(","        if (!p->enum_type()) return Port::assign_(var, type);\n        if (false)\n            throw VarException(")]),
("pps-arr","C30,C04",[(P,"    if (width() != var_width())\n        throw UserException(\n            ::format(\"Unable to access member of {0}, which is an array\"","    if (width() < var_width())\n        throw UserException(\n            ::format(\"Unable to access member of {0}, which is an array\"")]),
("pps-slice","C30,C04,C09",[(P,"    slices_.emplace_back(ptr);\n    return *ptr;","    if (slices_.empty()) slices_.emplace_back(ptr);\n    return *ptr;")]),
("bd-inout","C17",[(P,'        throw UserException("PortBundle doesn\'t allow inout");','        dir = direction;')]),
("bd-sign","C17",[(P,"flipped_definitions_.emplace(name, std::make_tuple(width, size, is_signed, dir, type));","flipped_definitions_.emplace(name, std::make_tuple(width, size, false, dir, type));")]),
("bd-flip","C17",[(P,"    flipped_.flipped_definitions_ = definitions_;\n","    flipped_.flipped_definitions_ = flipped_definitions_;\n")]),
("bd-dup","C17,C06",[(P,"    if (definitions_.find(name) != definitions_.end())\n        throw UserException(name + \" already exists\");\n","")]),
("br-size","C17",[(P,"if (self_def.size() != other_def.size()) {","if (self_def.size() > other_def.size()) {")]),
("br-map","C17",[(P,"auto other_real_port = other->name_mappings_.at(attr_name);","auto other_real_port = name_mappings_.at(attr_name);")]),
("mp-width","C17,C32",[(P,"    : InterfacePort(ref, var->generator(), dir, var->name, var->var_width(), var->size(),","    : InterfacePort(ref, var->generator(), dir, var->name, var->width(), var->size(),")]),
("mp-explicit","C17,C32",[(P,"    explicit_array_ = var->explicit_array();\n","    explicit_array_ = var->explicit_array() && var->size().size() > 1;\n")]),
("mp-sign","C17,C32",[(P,"PortType::Data, var->is_signed()),\n      var_(var)","PortType::Data, false),\n      var_(var)")]),
("ip-str","C07,C06,C17",[(P,'return ::format("{0}.{1}", parent_name, Var::to_string());','return ::format("{0}.{1}", interface_->base_name(), Var::to_string());')]),
("i-dupmod","C17,C06",[(I,"    if (mod_ports_.find(name) != mod_ports_.end())\n        throw UserException(::format(\"{0} already exists in {1}\", name, name_));\n    auto p","    auto p")]),
("i-portvar","C17,C06",[(I,"enum kratos::PortDirection dir, PortType type) {\n    if (has_port(name) || has_var(name))","enum kratos::PortDirection dir, PortType type) {\n    if (has_port(name))")]),
("i-varport","C17,C06",[(I,"                                     const std::vector<uint32_t>& size) {\n    if (has_port(name) || has_var(name))","                                     const std::vector<uint32_t>& size) {\n    if (has_var(name))")]),
("i-input","C17",[(I,"return port(name, width, size, PortDirection::In);","return port(name, width, size, width ? PortDirection::In : PortDirection::Out);")]),
("i-setout","C17",[(I,"if (dir != PortDirection::Out) {","if (dir == PortDirection::In) {")]),
("i-both","C17",[(I,"            inputs_.find(name) != inputs_.end() ? PortDirection::In : PortDirection::Out;","            outputs_.find(name) != outputs_.end() ? PortDirection::Out : PortDirection::In;")]),
("i-ports","C17",[(I,"    for (auto const& name : outputs_) result.emplace(name);\n    return result;","    for (auto const& name : outputs_)\n        if (def_->has_port(name)) result.emplace(name);\n    return result;")]),
("i-ref-dir","C17",[(I,"&var(port_name), is_input ? PortDirection::In : PortDirection::Out);","&var(port_name), is_input || !has_port(port_name) ? PortDirection::In : PortDirection::Out);")]),
("i-ref-cache","C17",[(I,"    mod_ports_.emplace(name, new_ref);\n    return new_ref;","    return new_ref;")]),
("i-ref-life","C17",[(I,"            new_ref->modport_ports_.emplace(port_name, port);\n","            modport_ports_.emplace(port_name, port);\n")]),
("i-ref-name","C17,C07",[(I,'gen_, ::format("{0}.{1}", name_, name));','gen_, name_);')]),
("i-defname","C17,C13",[(I,'return ::format("{0}.{1}", def_->def_name(), name_);','return def_->def_name();')]),
("i-hasmod","C17",[(I,"    auto modports = definition->mod_ports();\n    return modports.find(name) != modports.end();","    return !definition->mod_ports().empty();")]),
("x-remove-name","C15",[(X,"    if (module_set.empty()) modules_.erase(generator->name);","    if (module_set.size() <= 1) modules_.erase(generator->name);")]),
("x-hash","C15",[(X,"    if (generator_hash_.find(generator) != generator_hash_.end())\n        throw","    if (generator_hash_.find(generator) != generator_hash_.end() && generator_hash_.at(generator) != hash)\n        throw")]),
("x-hash2","C15",[(X,"    generator_hash_[generator] = hash;","    generator_hash_[generator] = static_cast<uint32_t>(hash);")]),
("x-chg-empty","C15",[(X,"    if (list.empty()) modules_.erase(generator->name);\n    // change","    // change")]),
("x-chg-ctx","C15",[(X,"    if (generator->context() != this)\n        throw UserException(::format(\"{0}'s context is different\", old_name));\n","")]),
("x-chg-clone","C15",[(X,"            remove(g.get());\n            modules_[new_name].emplace(g);","            modules_[new_name].emplace(g);")]),
("x-chg-clone2","C15",[(X,"        g->name = new_name;\n    }\n}","        if (g->external()) g->name = new_name;\n    }\n}")]),
("x-chg-order","C15",[(X,"    generator->name = new_name;\n    modules_[new_name].emplace(shared_ptr);","    modules_[generator->name].emplace(shared_ptr);\n    generator->name = new_name;")]),
("x-names","C15",[(X,"    for (auto const &iter : modules_) {\n        result.emplace(iter.first);","    for (auto const &iter : modules_) {\n        if (iter.second.size() == 1) result.emplace(iter.first);")]),
("x-enum-local","C15,C30",[(X,"    p->local() = false;\n","")]),
("x-enum-check","C15,C06",[(X,"    Enum::verify_naming_conflict(enum_defs_, enum_name, definition);\n    auto p","    if (has_enum(enum_name)) Enum::verify_naming_conflict(enum_defs_, enum_name, definition);\n    auto p")]),
("x-unique","C15",[(X,"        if (!g->external() && !g->is_cloned()) {","        if (!g->external()) {")]),
("x-unique2","C15",[(X,"    return c == 1;","    return c <= 1;")]),
("x-clear","C15",[(X,"    clear_hash();\n    reset_id();","    reset_id();")]),
("x-clear2","C15",[(X,"    max_stmt_id_ = 0;\n    max_instance_id_ = 0;","    max_stmt_id_ = 0;")]),
("x-track","C15",[(X,"    tracked_generators_.clear();\n    track_generated_ = false;","    track_generated_ = false;")]),
("x-test","C15",[(X,"    auto const &p = std::make_shared<TestBench>(this, name);\n    modules_[name].emplace(p);","    auto const &p = std::make_shared<TestBench>(this, name);\n    if (modules_[name].empty()) modules_[name].emplace(p);")]),
("e-inv","C19",[(E,"return truncate(invert(value, width) + 1, width);","return invert(value, width) + 1;")]),
("e-trunc","C19",[(E,"return width < UINT64_WIDTH_ ? value","return width < 32 ? value")]),
("e-uand","C19",[(E,"return static_cast<uint32_t>(__builtin_popcountll(value)) == width;","return static_cast<uint32_t>(__builtin_popcount(value)) == width;")]),
("e-uxor","C19",[(E,"return __builtin_popcountll(value) % 2;","return __builtin_popcount(value) % 2;")]),
("e-pow","C19",[(E,"for (; exponent; exponent >>= 1u, base *= base) {","for (; exponent > 1; exponent >>= 1u, base *= base) {")]),
("e-pow-neg","C19",[(E,"result = right_value % 2 ? mask : 1;","result = mask;")]),
("e-mod","C19",[(E,"if (left_negative) result = two_complement(result, width);","if (signed_bit) result = two_complement(result, width);")]),
("e-lt","C19",[(E,"left_negative == right_negative ? left_value < right_value : left_negative;","left_negative == right_negative ? left_abs_value < right_abs_value : left_negative;")]),
("e-gt","C19",[(E,"result = !less_than && left_value != right_value;","result = !less_than;")]),
("e-ssr","C19",[(E,"if (left_negative && right_value < width) result |= ~(mask >> right_value);","if (left_negative && right_value < width) result |= ~(mask >> (right_value + 1));")]),
("e-ssr2","C19",[(E,"                result = left_negative ? mask : 0;","                result = 0;")]),
("e-shr","C19",[(E,"result = right_value >= width ? 0 : left_value >> right_value;","result = right_value > width ? 0 : left_value >> (right_value % 64);")]),
("e-shl","C19",[(E,"result = right_value >= width ? 0 : left_value << right_value;","result = right_value >= 64 ? 0 : static_cast<uint32_t>(left_value) << right_value;")]),
("e-mask","C19",[(E,"    result = result & (UINT64_MASK >> (64 - width));\n    return result;\n}\n\nuint64_t eval_ternary_op","    if (!signed_) result = result & (UINT64_MASK >> (64 - width));\n    return result;\n}\n\nuint64_t eval_ternary_op")]),
("e-tern","C19",[(E,"uint64_t result = predicate? left_value: right_value;","uint64_t result = predicate && left_value ? left_value: right_value;")]),
("u-hl-base","C04,C19",[(U,"bases[i] = base * root->var_width();\n        base *= var_sizes[i];","base *= i + 1 < static_cast<int>(var_sizes.size()) ? var_sizes[i + 1] : 1;\n        bases[i] = base * root->width() / (var_sizes[0] * (var_sizes.size() > 1 ? base : 1));")]),
("u-hl-exp","C08",[(U,"var_sizes.size() > 1 || var_sizes.front() > 1 || root->explicit_array();","var_sizes.size() > 1 || var_sizes.front() > 1;")]),
("u-hl-range","C08",[(U,"if (slice_high == slice_low) index_to_size++;","index_to_size++;")]),
("u-clog2","C04,C30,C19,C05",[(U,"std::max<uint32_t>(1, std::ceil(std::log2(value)));","std::max<uint32_t>(1, std::floor(std::log2(value)));")]),
("u-dir","C13,C27",[(U,'        return "output";\n    } else {\n        return "inout";','        return "output";\n    } else {\n        return "output";')]),
("u-rm-if","C11,C09",[(U,"        } else if (p_stmt->type() == StatementType::If) {\n            auto *p = dynamic_cast<IfStmt *>(p_stmt);\n            if (!p) throw InternalException(\"stmt is not if but is marked as StatementType::If\");\n            p->remove_stmt(stmt);","        } else if (p_stmt->type() == StatementType::If) {\n            auto *p = dynamic_cast<IfStmt *>(p_stmt);\n            if (!p) throw InternalException(\"stmt is not if but is marked as StatementType::If\");\n            p->then_body()->remove_stmt(stmt);")]),
("u-strip","C13,C07,C02",[(U,"str.erase(pos, 1);","str.erase(pos++, 1);")]),
]
