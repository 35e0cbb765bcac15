from fx import *
sub('port.cc','''    if (port_direction() == PortDirection::In) {
        return !sources().empty();
    } else {
        return !sinks().empty();
    }
''','''    if (port_direction() == PortDirection::In) {
        return !sources().empty();
    } else if (port_direction() == PortDirection::Out) {
        return !sinks().empty();
    } else {
        return !sources().empty() || !sinks().empty();
    }
''')
sub('port.cc','''void Port::set_port_type(PortType type) { type_ = type; }
''','''void Port::set_port_type(PortType type) {
    if (type != PortType::Data && var_width() > 1)
        throw UserException(::format("{0}'s width has be 1, got {1}", name, var_width()));
    type_ = type;
}
''')
