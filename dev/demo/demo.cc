#include <iostream>
#include "context.hh"
#include "codegen.hh"
#include "generator.hh"
#include "stmt.hh"
#include "port.hh"
#include "except.hh"
using namespace kratos;
int main() {
    Context c;
    auto &m = c.generator("m");
    auto &a = m.var("a", 4);
    auto &b = m.var("b", 4);
    m.add_stmt(a.assign(b));
    auto r = generate_verilog(&m);
    for (auto &[k, v] : r) std::cout << v;
    return 0;
}
