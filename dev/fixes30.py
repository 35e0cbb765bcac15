from fx import *
sub('sim.cc','''            } else {
                auto left_value = (*left_val)[0];
                // the''','''            } else {
                if ((*left_val).size() > 1) throw std::runtime_error("Not implemented");
                auto left_value = (*left_val)[0];
                // the''')
commit("fix: don't evaluate only the first element of an array operand")
