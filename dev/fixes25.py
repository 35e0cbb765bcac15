from fx import *
s=rd('sim.cc')
# --- multi-map of linked
old="std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>>"
print(s.count(old))
s=s.replace(old,"LinkedDep")
s=s.replace('''class DependencyVisitor : public IRVisitor {
public:
''','''// for each bit of a variable, the slices that contain it
using LinkedDep = std::unordered_map<const Var *, LinkedBits>;

static void merge_linked_dep(LinkedDep &dst, const LinkedDep &src) {
    for (auto const &[var, bits] : src) {
        for (auto const &[bit, slices] : bits) {
            dst[var][bit].insert(slices.begin(), slices.end());
        }
    }
}

class DependencyVisitor : public IRVisitor {
public:
''',1)
for ind,dst,src in (('        ','linked_dependency_','visitor.linked_vars()'),('        ','linked_dependency_','linked'),('            ','linked_vars_','linked')):
    old='''%sfor (auto const &[var, entry] : %s) {
%s    %s[var].insert(entry.begin(), entry.end());
%s}
'''%(ind,src,ind,dst,ind)
    print(s.count(old))
    s=s.replace(old,'''%smerge_linked_dep(%s, %s);
'''%(ind,dst,src))
s=s.replace("linked_dep[root].emplace(i, slice);","linked_dep[root][i].emplace(slice);")
a='''        for (const auto &[bit, v] : vars) {
            if (bits_mask.find(bit) != bits_mask.end()) vs.emplace(v);
        }
'''
assert a in s
s=s.replace(a,'''        for (const auto &[bit, v] : vars) {
            if (bits_mask.find(bit) != bits_mask.end()) vs.insert(v.begin(), v.end());
        }
''')
wr('sim.cc',s)
sub('sim.hh','''    std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_dependency_;
''','''    std::unordered_map<const Var *, LinkedBits> linked_dependency_;
''')
sub('sim.hh','''class Simulator {
''','''using LinkedBits = std::unordered_map<uint32_t, std::unordered_set<Var *>>;

class Simulator {
''')
commit("fix: track every slice that contains a bit in the simulator")
sub('sim.cc','''                auto const &expr = reinterpret_cast<Expr *>(var);
                get_var_deps(expr->left, dep, linked_dep);
''','''                auto const &expr = reinterpret_cast<Expr *>(var);
                if (expr->op == ExprOp::Concat) {
                    auto const *concat = reinterpret_cast<VarConcat *>(expr);
                    for (auto *v : concat->vars()) get_var_deps(v, dep, linked_dep);
                    break;
                }
                if (expr->op == ExprOp::Conditional) {
                    auto const *cond = reinterpret_cast<ConditionalExpr *>(expr);
                    get_var_deps(cond->condition, dep, linked_dep);
                }
                get_var_deps(expr->left, dep, linked_dep);
''')
commit("fix: conditions and concatenated operands trigger an update in the simulator")
