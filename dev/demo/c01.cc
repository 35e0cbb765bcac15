    // several modules on one level, each with an interface definition of its own
    Context c;
    auto &top = c.generator("top");
    for (int i = 0; i < 40; i++) {
        auto def = std::make_shared<InterfaceDefinition>("bus" + std::to_string(i));
        def->port("d", 8, 1, PortDirection::In);
        auto &m = c.generator("m" + std::to_string(i));
        m.interface(def, "b", true);
        top.add_child_generator("i" + std::to_string(i), m.shared_from_this());
    }
    extract_interface_info(&top);
