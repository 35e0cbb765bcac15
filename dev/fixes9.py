from fx import *
def kw(n,ind=4): return ' '*ind+'if (!is_valid_variable_name(%s))\n'%n+' '*ind+'    throw UserException(::format("{0} is a SystemVerilog keyword", %s));\n'%n
sub('generator.cc','''    if (has_var(new_name))
''',kw('new_name')+'''    if (has_var(new_name))
''')
sub('generator.cc','''    if (children_.find(instance_name_) == children_.end()) {
''',kw('instance_name_')+'''    if (children_.find(instance_name_) == children_.end()) {
''')
sub('generator.cc','''    if (children_.find(new_name) != children_.end())
''',kw('new_name')+'''    if (children_.find(new_name) != children_.end())
''')
sub('generator.cc','''    if (has_named_block(block_name))
''',kw('block_name')+'''    if (has_named_block(block_name))
''')
sub('context.cc','''    if (new_name.empty() || generator->name.empty()) {
''',kw('new_name')+'''    if (new_name.empty() || generator->name.empty()) {
''')
s=rd('context.cc')
if '"syntax.hh"' not in s: wr('context.cc',s.replace('#include "tb.hh"','#include "syntax.hh"\n#include "tb.hh"') if '#include "tb.hh"' in s else s.replace('#include "generator.hh"','#include "generator.hh"\n#include "syntax.hh"'))
sub('stmt.cc','''      parent_(parent),
      function_name_(std::move(function_name)) {}''','''      parent_(parent),
      function_name_(std::move(function_name)) {
'''+kw('function_name_')+'}')
s=rd('stmt.cc')
if '"syntax.hh"' not in s: print("need include"); wr('stmt.cc',s.replace('#include "generator.hh"','#include "generator.hh"\n#include "syntax.hh"',1))
sub('expr.cc','''    for (auto const &[n, value] : values) {
        auto c = std::make_shared<EnumConst>''','''    for (auto const &[n, value] : values) {
'''+kw('n',8)+'''        auto c = std::make_shared<EnumConst>''')
commit('fix: keywords are not legal names of functions, blocks, instances and enum values')
