from fx import *
sub('codegen.cc','''    } else {
        type = "logic";
    }

    std::vector<std::string> str = {type};
    if (var->is_signed()) str.emplace_back("signed");
    std::string var_width = SystemVerilogCodeGen::get_var_width_str(var);
''','''    } else if (var->raw_type_parametrized()) {
        type = var->get_raw_type_param()->to_string();
    } else {
        type = "logic";
    }

    std::vector<std::string> str = {type};
    if (var->is_signed()) str.emplace_back("signed");
    std::string var_width;
    // enum and raw types already have a width
    if (!var->is_enum() && !var->raw_type_parametrized())
        var_width = SystemVerilogCodeGen::get_var_width_str(var);
''')
sub('codegen.cc','''        if (!var_width.empty() && !var->is_enum()) str.emplace_back(var_width);''','''        if (!var_width.empty()) str.emplace_back(var_width);''')
commit("fix: variables of a type parameter or enum are declared with that type")
