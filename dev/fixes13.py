from fx import *
sub('util.cc',"while ((pos = str.find('\\n', pos) != std::string::npos)) str.erase(pos, 1);","while ((pos = str.find('\\n', pos)) != std::string::npos) str.erase(pos, 1);")
commit("fix: strip exactly the newlines from a comment")
sub('codegen.cc','''    if (stmt->else_() && action_type == PropertyAction::Assert) {
        dispatch_node(stmt->else_().get());''','''    if (stmt->else_() && action_type == PropertyAction::Assert) {
        stream_ << " else ";
        // turn off the indent
        auto temp = indent_;
        indent_ = 0;
        dispatch_node(stmt->else_().get());
        indent_ = temp;''')
commit("fix: the failure branch of a property assertion is an else branch")
sub('tb.cc','''        seq = var_->handle_name(true);
    else''','''        seq = var_str(var_);
    else''')
sub('tb.cc','''        auto next = next_->to_string();
''','''        auto next = next_->to_string(var_str);
''')
commit("fix: every variable of a sequence is printed the way the caller asks for")
sub('codegen.cc','''        stream << "`define " << guard_name << stream.endl();
        // package header
        stream << "package " << package_name << ";" << stream.endl();
    }
''','''        stream << "`define " << guard_name << stream.endl();
    }
    // package header
    stream << "package " << package_name << ";" << stream.endl();
''')
commit("fix: a package without include guard still starts with its header")
sub('codegen.cc','''    if (var->size().front() > 1 || var->size().size() > 1 || var->explicit_array()) {
        // it's an array''','''    if (var->size().front() > 1 || var->size().size() > 1 || var->explicit_array() ||
        var->get_size_param(0)) {
        // it's an array''')
commit("fix: a variable whose size is a parameter is an array for every value")
sub('codegen.cc','''        width = ::format("{0}-1", var->width_param()->to_string());
    } else {''','''        auto* param = var->width_param();
        width = ::format(param->type() == VarType::Parameter ? "{0}-1" : "({0})-1",
                         param->to_string());
    } else {''')
commit("fix: a width expression is evaluated before one is subtracted from it")
sub('codegen.cc','''            << (stmt->end() > stmt->start() ? " < " : " > ");''','''            << (stmt->step() > 0 ? " < " : " > ");''')
commit("fix: a for loop ends at its bound in the direction it counts")
sub('analysis.cc','''                std::vector<std::string> str = {"    logic"};
                if (def.width > 1) str.emplace_back(::format("[{0}:0]", def.width - 1));
                if (def.signed_) str.emplace_back("signed");
''','''                std::vector<std::string> str = {"    logic"};
                if (def.signed_) str.emplace_back("signed");
                if (def.width > 1) str.emplace_back(::format("[{0}:0]", def.width - 1));
''')
commit("fix: the sign of a struct member precedes its range")
sub('util.cc','''    std::istringstream words(text);
    std::vector<std::string> result;
    std::string word;
    std::string line;

    if (words >> word) {
        line.append(word);
        size_t space_left = line_width - word.length();
        while (words >> word) {
''','''    // string literals have to stay as they are
    std::vector<std::string> words;
    std::string current;
    bool in_string = false;
    for (uint64_t i = 0; i < text.size(); i++) {
        if (in_string && text[i] == '\\\\' && i + 1 < text.size()) current += text[i++];
        else if (text[i] == '"') in_string = !in_string;
        if (!in_string && std::isspace(static_cast<unsigned char>(text[i]))) {
            if (!current.empty()) words.emplace_back(current);
            current.clear();
        } else {
            current += text[i];
        }
    }
    if (!current.empty()) words.emplace_back(current);

    std::vector<std::string> result;
    std::string line;

    if (!words.empty()) {
        line.append(words[0]);
        size_t space_left = line_width - words[0].length();
        for (uint64_t i = 1; i < words.size(); i++) {
            auto const &word = words[i];
''')
commit("fix: wrapping a line does not change its string literals")
