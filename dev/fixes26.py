from fx import *
s=rd('sim.cc')
a=s.index("        // if indexed by a var\n"); b=s.index("    class CombinationBlockVisitor")
s=s[:a].rstrip()+'''
    }

'''+s[b:]
s=s.replace('''            case VarType::BaseCasted:
            case VarType ::Slice: {
                // compute linked dependency
                compute_linked_dep(reinterpret_cast<VarSlice *>(var), linked_dep);
                dep.emplace(var);
                break;
            }
''','''            case VarType::BaseCasted: {
                get_var_deps(reinterpret_cast<VarCasted *>(var)->parent_var(), dep, linked_dep);
                break;
            }
            case VarType ::Slice: {
                // compute linked dependency
                compute_linked_dep(reinterpret_cast<VarSlice *>(var), linked_dep);
                dep.emplace(var);
                get_index_deps(var, dep, linked_dep);
                break;
            }
''')
s=s.replace('''    static void compute_linked_dep(
''','''    // the variables that select which part of the parent is used
    static void get_index_deps(Var *var, std::unordered_set<const Var *> &dep,
                               LinkedDep &linked_dep) {
        while (var->type() == VarType::Slice) {
            auto *slice = reinterpret_cast<VarSlice *>(var);
            if (slice->sliced_by_var()) {
                auto *index = reinterpret_cast<VarVarSlice *>(slice)->sliced_var();
                get_var_deps(index, dep, linked_dep);
            }
            var = slice->parent_var;
        }
    }

    static void compute_linked_dep(
''',1)
wr('sim.cc',s)
commit("fix: the operands of casts and indices trigger an update in the simulator")
