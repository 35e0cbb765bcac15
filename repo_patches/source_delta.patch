From 4842beaf703435e2979d2d2e5e235ea5e8bb602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:32 +0000
Subject: [PATCH 001/115] fix: initialize the keyword table race-free

The table was filled lazily without a lock, and parallel passes create
variables (hence query it) from several threads.
---
 src/syntax.cc | 510 +++++++++++++++++++++++++-------------------------
 1 file changed, 252 insertions(+), 258 deletions(-)

diff --git a/src/syntax.cc b/src/syntax.cc
index 6e5409c..1877fb1 100644
--- a/src/syntax.cc
+++ b/src/syntax.cc
@@ -6,267 +6,261 @@
 
 namespace kratos {
 
-static std::unordered_set<std::string> system_verilog_keywords;
-
-void inline initialize_keywords() {
-    if (system_verilog_keywords.empty()) {
-        auto list = {"accept_on",
-                     "alias",
-                     "always",
-                     "always_comb",
-                     "always_ff",
-                     "always_latch",
-                     "and",
-                     "assert",
-                     "assign",
-                     "assume",
-                     "automatic",
-                     "before",
-                     "begin",
-                     "bind",
-                     "bins",
-                     "binsof",
-                     "bit",
-                     "break",
-                     "buf",
-                     "bufif0",
-                     "bufif1",
-                     "byte",
-                     "case",
-                     "casex",
-                     "casez",
-                     "cell",
-                     "chandle",
-                     "checker",
-                     "class",
-                     "clocking",
-                     "cmos",
-                     "config",
-                     "const",
-                     "constraint",
-                     "context",
-                     "continue",
-                     "cover",
-                     "covergroup",
-                     "coverpoint",
-                     "cross",
-                     "deassign",
-                     "default",
-                     "defparam",
-                     "design",
-                     "disable",
-                     "dist",
-                     "do",
-                     "edge",
-                     "else",
-                     "end",
-                     "endcase",
-                     "endchecker",
-                     "endclass",
-                     "endclocking",
-                     "endconfig",
-                     "endfunction",
-                     "endgenerate",
-                     "endgroup",
-                     "endinterface",
-                     "endmodule",
-                     "endpackage",
-                     "endprimitive",
-                     "endprogram",
-                     "endproperty",
-                     "endspecify",
-                     "endsequence",
-                     "endtable",
-                     "endtask",
-                     "enum",
-                     "event",
-                     "eventually",
-                     "expect",
-                     "export",
-                     "extends",
-                     "extern",
-                     "final",
-                     "first_match",
-                     "for",
-                     "force",
-                     "foreach",
-                     "forever",
-                     "fork",
-                     "forkjoin",
-                     "function",
-                     "generate",
-                     "genvar",
-                     "global",
-                     "highz0",
-                     "highz1",
-                     "if",
-                     "iff",
-                     "ifnone",
-                     "ignore_bins",
-                     "illegal_bins",
-                     "implements",
-                     "implies",
-                     "import",
-                     "incdir",
-                     "include",
-                     "initial",
-                     "inout",
-                     "input",
-                     "inside",
-                     "instance",
-                     "int",
-                     "integer",
-                     "interconnect",
-                     "interface",
-                     "intersect",
-                     "join",
-                     "join_any",
-                     "join_none",
-                     "large",
-                     "let",
-                     "liblist",
-                     "library",
-                     "local",
-                     "localparam",
-                     "logic",
-                     "longint",
-                     "macromodule",
-                     "matches",
-                     "medium",
-                     "modport",
-                     "module",
-                     "nand",
-                     "negedge",
-                     "nettype",
-                     "new",
-                     "nexttime",
-                     "nmos",
-                     "nor",
-                     "noshowcancelled",
-                     "not",
-                     "notif0",
-                     "notif1",
-                     "null",
-                     "or",
-                     "output",
-                     "package",
-                     "packed",
-                     "parameter",
-                     "pmos",
-                     "posedge",
-                     "primitive",
-                     "priority",
-                     "program",
-                     "property",
-                     "protected",
-                     "pull0",
-                     "pull1",
-                     "pulldown",
-                     "pullup",
-                     "pulsestyle_ondetect",
-                     "pulsestyle_onevent",
-                     "pure",
-                     "rand",
-                     "randc",
-                     "randcase",
-                     "randsequence",
-                     "rcmos",
-                     "real",
-                     "realtime",
-                     "ref",
-                     "reg",
-                     "reject_on",
-                     "release",
-                     "repeat",
-                     "restrict",
-                     "return",
-                     "rnmos",
-                     "rpmos",
-                     "rtran",
-                     "rtranif0",
-                     "rtranif1",
-                     "s_always",
-                     "s_eventually",
-                     "s_nexttime",
-                     "s_until",
-                     "s_until_with",
-                     "scalared",
-                     "sequence",
-                     "shortint",
-                     "shortreal",
-                     "showcancelled",
-                     "signed",
-                     "small",
-                     "soft",
-                     "solve",
-                     "specify",
-                     "specparam",
-                     "static",
-                     "string",
-                     "strong",
-                     "strong0",
-                     "strong1",
-                     "struct",
-                     "super",
-                     "supply0",
-                     "supply1",
-                     "sync_accept_on",
-                     "sync_reject_on",
-                     "table",
-                     "tagged",
-                     "task",
-                     "this",
-                     "throughout",
-                     "time",
-                     "timeprecision",
-                     "timeunit",
-                     "tran",
-                     "tranif0",
-                     "tranif1",
-                     "tri",
-                     "tri0",
-                     "tri1",
-                     "triand",
-                     "trior",
-                     "trireg",
-                     "type",
-                     "typedef",
-                     "union",
-                     "unique",
-                     "unique0",
-                     "unsigned",
-                     "until",
-                     "until_with",
-                     "untyped",
-                     "use",
-                     "uwire",
-                     "var",
-                     "vectored",
-                     "virtual",
-                     "void",
-                     "wait",
-                     "wait_order",
-                     "wand",
-                     "weak",
-                     "weak0",
-                     "weak1",
-                     "while",
-                     "wildcard",
-                     "wire",
-                     "with",
-                     "within",
-                     "wor",
-                     "xnor",
-                     "xor"};
-        system_verilog_keywords.reserve(list.size());
-        for (auto const &keyword : list) {
-            system_verilog_keywords.emplace(keyword);
-        }
-    }
+static std::unordered_set<std::string> initialize_keywords() {
+    auto list = {"accept_on",
+                 "alias",
+                 "always",
+                 "always_comb",
+                 "always_ff",
+                 "always_latch",
+                 "and",
+                 "assert",
+                 "assign",
+                 "assume",
+                 "automatic",
+                 "before",
+                 "begin",
+                 "bind",
+                 "bins",
+                 "binsof",
+                 "bit",
+                 "break",
+                 "buf",
+                 "bufif0",
+                 "bufif1",
+                 "byte",
+                 "case",
+                 "casex",
+                 "casez",
+                 "cell",
+                 "chandle",
+                 "checker",
+                 "class",
+                 "clocking",
+                 "cmos",
+                 "config",
+                 "const",
+                 "constraint",
+                 "context",
+                 "continue",
+                 "cover",
+                 "covergroup",
+                 "coverpoint",
+                 "cross",
+                 "deassign",
+                 "default",
+                 "defparam",
+                 "design",
+                 "disable",
+                 "dist",
+                 "do",
+                 "edge",
+                 "else",
+                 "end",
+                 "endcase",
+                 "endchecker",
+                 "endclass",
+                 "endclocking",
+                 "endconfig",
+                 "endfunction",
+                 "endgenerate",
+                 "endgroup",
+                 "endinterface",
+                 "endmodule",
+                 "endpackage",
+                 "endprimitive",
+                 "endprogram",
+                 "endproperty",
+                 "endspecify",
+                 "endsequence",
+                 "endtable",
+                 "endtask",
+                 "enum",
+                 "event",
+                 "eventually",
+                 "expect",
+                 "export",
+                 "extends",
+                 "extern",
+                 "final",
+                 "first_match",
+                 "for",
+                 "force",
+                 "foreach",
+                 "forever",
+                 "fork",
+                 "forkjoin",
+                 "function",
+                 "generate",
+                 "genvar",
+                 "global",
+                 "highz0",
+                 "highz1",
+                 "if",
+                 "iff",
+                 "ifnone",
+                 "ignore_bins",
+                 "illegal_bins",
+                 "implements",
+                 "implies",
+                 "import",
+                 "incdir",
+                 "include",
+                 "initial",
+                 "inout",
+                 "input",
+                 "inside",
+                 "instance",
+                 "int",
+                 "integer",
+                 "interconnect",
+                 "interface",
+                 "intersect",
+                 "join",
+                 "join_any",
+                 "join_none",
+                 "large",
+                 "let",
+                 "liblist",
+                 "library",
+                 "local",
+                 "localparam",
+                 "logic",
+                 "longint",
+                 "macromodule",
+                 "matches",
+                 "medium",
+                 "modport",
+                 "module",
+                 "nand",
+                 "negedge",
+                 "nettype",
+                 "new",
+                 "nexttime",
+                 "nmos",
+                 "nor",
+                 "noshowcancelled",
+                 "not",
+                 "notif0",
+                 "notif1",
+                 "null",
+                 "or",
+                 "output",
+                 "package",
+                 "packed",
+                 "parameter",
+                 "pmos",
+                 "posedge",
+                 "primitive",
+                 "priority",
+                 "program",
+                 "property",
+                 "protected",
+                 "pull0",
+                 "pull1",
+                 "pulldown",
+                 "pullup",
+                 "pulsestyle_ondetect",
+                 "pulsestyle_onevent",
+                 "pure",
+                 "rand",
+                 "randc",
+                 "randcase",
+                 "randsequence",
+                 "rcmos",
+                 "real",
+                 "realtime",
+                 "ref",
+                 "reg",
+                 "reject_on",
+                 "release",
+                 "repeat",
+                 "restrict",
+                 "return",
+                 "rnmos",
+                 "rpmos",
+                 "rtran",
+                 "rtranif0",
+                 "rtranif1",
+                 "s_always",
+                 "s_eventually",
+                 "s_nexttime",
+                 "s_until",
+                 "s_until_with",
+                 "scalared",
+                 "sequence",
+                 "shortint",
+                 "shortreal",
+                 "showcancelled",
+                 "signed",
+                 "small",
+                 "soft",
+                 "solve",
+                 "specify",
+                 "specparam",
+                 "static",
+                 "string",
+                 "strong",
+                 "strong0",
+                 "strong1",
+                 "struct",
+                 "super",
+                 "supply0",
+                 "supply1",
+                 "sync_accept_on",
+                 "sync_reject_on",
+                 "table",
+                 "tagged",
+                 "task",
+                 "this",
+                 "throughout",
+                 "time",
+                 "timeprecision",
+                 "timeunit",
+                 "tran",
+                 "tranif0",
+                 "tranif1",
+                 "tri",
+                 "tri0",
+                 "tri1",
+                 "triand",
+                 "trior",
+                 "trireg",
+                 "type",
+                 "typedef",
+                 "union",
+                 "unique",
+                 "unique0",
+                 "unsigned",
+                 "until",
+                 "until_with",
+                 "untyped",
+                 "use",
+                 "uwire",
+                 "var",
+                 "vectored",
+                 "virtual",
+                 "void",
+                 "wait",
+                 "wait_order",
+                 "wand",
+                 "weak",
+                 "weak0",
+                 "weak1",
+                 "while",
+                 "wildcard",
+                 "wire",
+                 "with",
+                 "within",
+                 "wor",
+                 "xnor",
+                 "xor"};
+    return {list.begin(), list.end()};
 }
 
 bool is_valid_variable_name(const std::string &name) {
-    initialize_keywords();
+    // initialized exactly once: passes that run in parallel create variables as well
+    static const auto system_verilog_keywords = initialize_keywords();
     return system_verilog_keywords.find(name) == system_verilog_keywords.end();
 }
 
-- 
2.43.0


From b5b76cc6a5dc72334a5af768a89975eff319db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 002/115] fix: make the cached CPU count atomic

It is read and filled in by code that runs on worker threads.
---
 src/util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 46b33e7..e4df837 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -1,5 +1,6 @@
 #include "util.hh"
 
+#include <atomic>
 #include <cstdlib>
 #ifdef INCLUDE_FILESYSTEM
 #include <filesystem>
@@ -19,7 +20,7 @@ using fmt::format;
 
 namespace kratos {
 
-static int _num_cpu = -1;
+static std::atomic<int> _num_cpu = -1;
 
 uint32_t get_num_cpus() {
     if (_num_cpu < 0) {
-- 
2.43.0


From 470f88fe1b27ab0d7fd35a868d7450863de034f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 003/115] fix: guard the global constant table with a mutex

Parallel passes (e.g. zero_out_stubs, zero_generator_inputs) create
constants from several threads.
---
 src/expr.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index ced5806..e87b16b 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <cassert>
 #include <iostream>
+#include <mutex>
 #include <queue>
 #include <stdexcept>
 #include <utility>
@@ -977,13 +978,18 @@ Const::Const(int64_t value, uint32_t width, bool is_signed)
     generator_ = const_gen();
 }
 
+// constants are created by passes that run in parallel
+static std::mutex consts_lock;
+
 Generator *Const::const_gen() {
+    std::lock_guard<std::mutex> guard(consts_lock);
     if (!const_generator_) const_generator_ = std::make_shared<Generator>(nullptr, "");
     return const_generator_.get();
 }
 
 Const &Const::constant(int64_t value, uint32_t width, bool is_signed) {
     auto p = std::make_shared<Const>(value, width, is_signed);
+    std::lock_guard<std::mutex> guard(consts_lock);
     consts_.emplace(p);
     return *p;
 }
@@ -997,12 +1003,14 @@ Const &Const::constant(const std::string &hex_value, uint32_t num_bits, bool neg
     p->hex_value_ = hex_value;
     p->negative_ = negative;
     p->num_bits_ = num_bits;
+    std::lock_guard<std::mutex> guard(consts_lock);
     consts_.emplace(p);
     return *p;
 }
 
 Const &Const::constant(std::string value, uint32_t width) {
     auto p = std::make_shared<StringConst>(std::move(value), width);
+    std::lock_guard<std::mutex> guard(consts_lock);
     consts_.emplace(p);
     return *p;
 }
-- 
2.43.0


From 7f0deccbfd42ee89bbeabc0ad2ee984b29d00a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 004/115] fix: do not share the resize simulator between
 threads

IterVar::safe_to_resize is reached by parallel passes through AssignStmt.
---
 src/expr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index e87b16b..b2380df 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -2196,7 +2196,7 @@ bool IterVar::safe_to_resize(const Var *var, uint32_t target_size, bool is_signe
     std::vector<const IterVar *> iters;
     extract_iter_var(var, iters);
     // brute-force to compute every possible combinations using simulator
-    static Simulator sim(nullptr);
+    Simulator sim(nullptr);
     // We did some hacks that, assuming the min and max value is at the boundary
     // maybe use an SMT solver?
     std::queue<const IterVar *> queue;
-- 
2.43.0


From 995d8f3bb9161d110068b5a2824fa3b076ed4a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 005/115] fix: build the simulator dependency tables
 sequentially

The visitor's maps were written from several threads without a lock.
---
 src/sim.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 4232ae9..7f16f89 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -187,8 +187,8 @@ Simulator::Simulator(kratos::Generator *generator) {
     fix_assignment_type(generator);
     // compute the dependency
     DependencyVisitor visitor;
-    // visit in parallel to build up and dep table
-    visitor.visit_generator_root_p(generator);
+    // the dependency tables are shared by every generator, so don't visit in parallel
+    visitor.visit_generator_root(generator);
     dependency_ = visitor.dependency();
     linked_dependency_ = visitor.linked_dependency();
     init_pull_up_value(generator);
-- 
2.43.0


From 28c7f76d2124b98eeb089e865d1fd159fbbca098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 006/115] fix: collect unique generators sequentially

The visitor's map was written from several threads without a lock.
---
 src/codegen.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index c4fd39d..87eec5a 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -1461,8 +1461,8 @@ void generate_verilog_pkg(Generator* top, SystemVerilogCodeGenOptions options) {
     // this pass assumes that all the generators has been uniquified
     // first get all the unique generators
     UniqueGeneratorVisitor unique_visitor;
-    // this can be parallelized
-    unique_visitor.visit_generator_root_p(top);
+    // the visitor collects everything into one table, so don't visit in parallel
+    unique_visitor.visit_generator_root(top);
     auto const& generator_map = unique_visitor.generator_map();
     track_generators(top);
 
-- 
2.43.0


From db945fcf0edb6fe1ba6dbaddb51ea8d136b17b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 007/115] fix: supply the arguments error messages are
 formatted with

Several diagnostics had a placeholder without an argument (so building the
message threw fmt::format_error instead of the documented error), an unbalanced
brace, a repeated or never expanded placeholder.
---
 src/analysis.cc  | 2 +-
 src/expr.cc      | 4 ++--
 src/fault.cc     | 4 ++--
 src/fsm.cc       | 2 +-
 src/stmt.cc      | 2 +-
 src/tb.cc        | 2 +-
 src/transform.cc | 3 ++-
 7 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index ad58b54..ef5b047 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -1481,7 +1481,7 @@ class SensitivityVisitor : public IRVisitor {
                 if (var_casted->cast_type() != VarCastType::Clock &&
                     var_casted->cast_type() != VarCastType::AsyncReset) {
                     throw StmtException(::format("Only Clock and AsyncReset allowed in "
-                                                 "sensitivity list. Please use cast() to cast {0}}",
+                                                 "sensitivity list. Please use cast() to cast {0}",
                                                  var->to_string()),
                                         {stmt, var});
                 }
diff --git a/src/expr.cc b/src/expr.cc
index b2380df..2e3bec3 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -915,7 +915,7 @@ std::shared_ptr<AssignStmt> Var::assign_(const std::shared_ptr<Var> &var, Assign
         all_concat.visit_root(this);
         if (!all_concat.legal)
             throw VarException(
-                ::format("Cannot assign {0} to an expression", var->to_string(), name),
+                ::format("Cannot assign {0} to an expression", var->to_string()),
                 {this, var.get()});
     }
 
@@ -2113,7 +2113,7 @@ StringConst::StringConst(std::string value, uint32_t width)
     : Const(convert_string_to_int(value), width, false), value_(std::move(value)) {
     auto const min_size = value_.size() * 8u;
     if (min_size > width)
-        throw VarException(::format("{0} is too big for constant with bit size {0}", value, width),
+        throw VarException(::format("{0} is too big for constant with bit size {1}", value_, width),
                            {this});
 }
 
diff --git a/src/fault.cc b/src/fault.cc
index da6928b..af58e43 100644
--- a/src/fault.cc
+++ b/src/fault.cc
@@ -545,7 +545,7 @@ std::unordered_map<Stmt *, uint32_t> reverse_map_stmt(
 
 std::unordered_map<Stmt *, uint32_t> parse_verilator_coverage(Generator *top,
                                                               const std::string &filename) {
-    if (!fs::exists(filename)) throw UserException(::format("{0} does not exist"));
+    if (!fs::exists(filename)) throw UserException(::format("{0} does not exist", filename));
     std::ifstream file(filename);
     std::set<std::tuple<std::string, uint32_t, uint32_t>> parse_result;
     for (std::string line; std::getline(file, line);) {
@@ -639,7 +639,7 @@ std::vector<std::string> get_icc_tokens(std::string str) {
 std::unordered_map<Stmt *, uint32_t> parse_icc_coverage(Generator *top,
                                                         const std::string &filename) {
     std::set<std::tuple<std::string, uint32_t, uint32_t>> parse_result;
-    if (!fs::exists(filename)) throw UserException(::format("{0} does not exist"));
+    if (!fs::exists(filename)) throw UserException(::format("{0} does not exist", filename));
     std::ifstream file(filename);
     // state 0: nothing
     // state 1: searching for block header
diff --git a/src/fsm.cc b/src/fsm.cc
index c1fc562..99b02a1 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -701,7 +701,7 @@ void FSMState::output(const std::shared_ptr<Var>& output_var,
     auto* output = output_var.get();
     auto* value = value_var.get();
     if (output_values_.find(output) != output_values_.end()) {
-        throw VarException(::format("{0} already has specified output"),
+        throw VarException(::format("{0} already has specified output", output->to_string()),
                            {output_values_.at(output)});
     }
     output_ordering_.emplace_back(output);
diff --git a/src/stmt.cc b/src/stmt.cc
index c2cc026..7825cf3 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -742,7 +742,7 @@ void FunctionStmtBlock::set_port_ordering(const std::map<std::string, uint32_t>
         throw UserException("Port ordering size does not match with declared outputs");
     for (auto const &iter : ordering) {
         if (ports_.find(iter.first) == ports_.end())
-            throw UserException(::format("{0} does not exist"));
+            throw UserException(::format("{0} does not exist", iter.first));
     }
     port_ordering_ = ordering;
 }
diff --git a/src/tb.cc b/src/tb.cc
index 9a45d6e..deff8da 100644
--- a/src/tb.cc
+++ b/src/tb.cc
@@ -66,7 +66,7 @@ Property::Property(std::string property_name, std::shared_ptr<Sequence> sequence
     : property_name_(std::move(property_name)), sequence_(std::move(sequence)) {}
 
 void Property::edge(kratos::EventEdgeType type, const std::shared_ptr<Var> &var) {
-    if (var->width() != 1) throw VarException("{0} should be width 1", {var.get()});
+    if (var->width() != 1) throw VarException(::format("{0} should be width 1", var->to_string()), {var.get()});
     edge_ = EventControl(type, *var);
 }
 
diff --git a/src/transform.cc b/src/transform.cc
index 02326da..317c686 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -80,7 +80,8 @@ public:
         if (!generator->is_stub()) return;
         // to be a stub, there shouldn't be any extra variables
         if (generator->stmts_count() > 0) {
-            throw ::runtime_error(::format("{0} is marked as a stub but contains statements"));
+            throw ::runtime_error(
+                ::format("{0} is marked as a stub but contains statements", generator->name));
         }
 
         // has to be the exact same number of ports and vars, otherwise it means there are
-- 
2.43.0


From f3279413db23de2f86cc5e55a1629ddab10044c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 008/115] fix: reject duplicating a variable zero times

---
 src/expr.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index 2e3bec3..30f6f2e 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1371,6 +1371,8 @@ std::string VarExtend::to_string() const {
 }
 
 VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
+    if (count == 0)
+        throw VarException(::format("Cannot duplicate {0} zero times", var->to_string()), {var});
     auto &c = Const::constant(static_cast<int64_t>(count), 32, false);
     right = &c;
     // compute width
@@ -1379,6 +1381,10 @@ VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate,
 
 VarDuplicated::VarDuplicated(Var *var, const std::shared_ptr<Const> &count)
     : Expr(ExprOp::Duplicate, var, nullptr) {
+    if (count->value() <= 0)
+        throw VarException(::format("Cannot duplicate {0} {1} times", var->to_string(),
+                                    count->value()),
+                           {var, count.get()});
     right = count.get();
     // compute width
     var_width_ = static_cast<uint32_t>(count->value()) * var->width();
-- 
2.43.0


From b526faca2cc3eabfcc7b339ce318ac0799ffe77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 009/115] fix: reject variables with an empty array dimension

---
 src/expr.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index 30f6f2e..c56d541 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -873,6 +873,8 @@ Var::Var(kratos::Generator *m, const std::string &name, uint32_t var_width,
     if (!is_valid_variable_name(name))
         throw UserException(::format("{0} is a SystemVerilog keyword", name));
     if (var_width == 0) throw UserException(::format("variable {0} cannot have size 0", name));
+    if (std::find(size_.begin(), size_.end(), 0u) != size_.end() || size_.empty())
+        throw UserException(::format("variable {0} cannot have an empty dimension", name));
 }
 
 IRNode *Var::parent() const { return generator(); }
-- 
2.43.0


From 4a9c61bca83894ba9dccec766ac1c6f677c7bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 010/115] fix: reject casting a multi-bit variable to a clock
 or reset

---
 src/expr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index c56d541..3091039 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1034,10 +1034,10 @@ VarCasted::VarCasted(Var *parent, VarCastType cast_type)
     } else if (cast_type_ == VarCastType::Unsigned) {
         is_signed_ = false;
     } else if (cast_type_ == VarCastType::AsyncReset || cast_type_ == VarCastType::Clock) {
-        if (parent->size().size() != 1 || parent->size().front() != 1) {
+        if (parent->size().size() != 1 || parent->size().front() != 1 || parent->width() != 1) {
             throw VarException(::format("Can only cast bit width 1 to "
                                         "Clock or AsyncReset. {0} is {1}",
-                                        parent->to_string(), parent->size().front()),
+                                        parent->to_string(), parent->width()),
                                {parent});
         }
     }
-- 
2.43.0


From 4c3e738af02c9a6747f88e37f1f9fb465a68b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:58 +0000
Subject: [PATCH 011/115] fix: bound the index into a parametrized width by its
 bit count

---
 src/expr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 3091039..063c63c 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -662,7 +662,7 @@ VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
         var_high_ = parent->width() - 1;
         var_low_ = 0;
         if (parent->width_param())
-            required_width = Simulator::static_evaluate_expr(parent->width_param());
+            required_width = clog2(Simulator::static_evaluate_expr(parent->width_param()));
         else
             required_width = clog2(parent->width());
     } else {
-- 
2.43.0


From 96790d242b3b54a528f3a753de536f7e902ebeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:29 +0000
Subject: [PATCH 012/115] fix: check that a constant operand still fits when it
 is resized

---
 src/expr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 063c63c..db1ccd4 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -727,7 +727,8 @@ std::string VarVarSlice::to_string() const {
 
 void resize_var(Expr *expr, uint32_t target_width, Var *var, bool left) {
     if (var->type() == VarType::ConstValue) {
-        var->var_width() = target_width;
+        // only legal if the value fits
+        var->as<Const>()->set_width(target_width);
     } else {
         auto new_var = var->cast(VarCastType::Resize);
         auto var_casted = new_var->as<VarCasted>();
-- 
2.43.0


From fc4a659b33c49a692f4e7969e7c063c578e014d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:29 +0000
Subject: [PATCH 013/115] fix: any value fits in a constant wider than 64 bits

---
 src/expr.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index db1ccd4..feaff8b 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -957,6 +957,8 @@ Const::Const(Generator *generator, int64_t value, uint32_t width, bool is_signed
 }
 
 Const::ConstantLegal Const::is_legal(int64_t value, uint32_t width, bool is_signed) {
+    // every 64-bit value fits
+    if (width > 64) return Const::ConstantLegal::Legal;
     if (is_signed) {
         // compute the -max value
         uint64_t temp = (~0ull) << (width - 1);
-- 
2.43.0


From 0ec3c563ba6b88dc684f34a6c7ad32b1adea9e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:29 +0000
Subject: [PATCH 014/115] fix: compare string size in bytes when setting a
 constant

---
 src/expr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index feaff8b..1b46894 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1126,7 +1126,7 @@ int64_t convert_string_to_int(const std::string &value) {
 
 void Const::set_value(const std::string &new_value) {
     // convert string to int
-    if ((new_value.size() * 8) > sizeof(uint64_t)) {
+    if (new_value.size() > sizeof(uint64_t)) {
         throw VarException("string value too big to be converted to integer", {this});
     }
     auto converted_value = convert_string_to_int(new_value);
-- 
2.43.0


From 9ef7d902cfa47ce4faf439dce7b1964f4e8466eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:29 +0000
Subject: [PATCH 015/115] fix: a large constant has to fit its width

---
 src/expr.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 1b46894..9cd6397 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1005,6 +1005,10 @@ Const &Const::constant(const std::string &hex_value, uint32_t num_bits, bool neg
     if (hex_value.find_first_not_of("abcdefABCDEF0123456789") != std::string::npos) {
         throw std::invalid_argument("Invalid hex value for constant " + hex_value);
     }
+    if (num_bits > width) {
+        throw UserException(::format("{0} is larger than the maximum value given width {1}",
+                                     hex_value, width));
+    }
     p->hex_value_ = hex_value;
     p->negative_ = negative;
     p->num_bits_ = num_bits;
@@ -1134,9 +1138,10 @@ void Const::set_value(const std::string &new_value) {
 }
 
 void Const::set_width(uint32_t target_width) {
-    if (Const::is_legal(value_, target_width, is_signed()) != Const::ConstantLegal::Legal) {
-        throw VarException(::format("Unable to set const {0} to width {1}", value_, target_width),
-                           {this});
+    if (Const::is_legal(value_, target_width, is_signed()) != Const::ConstantLegal::Legal ||
+        num_bits_ > target_width) {
+        throw VarException(
+            ::format("Unable to set const {0} to width {1}", to_string(), target_width), {this});
     }
     var_width_ = target_width;
 }
-- 
2.43.0


From f13316d0c8334939332fb8d938088748d3315ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:15 +0000
Subject: [PATCH 016/115] fix: do not shrink an expression to the width of a
 narrower operand

---
 src/expr.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index 9cd6397..a250c2a 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -2220,6 +2220,11 @@ bool IterVar::safe_to_resize(const Var *var, uint32_t target_size, bool is_signe
         sim.set_i(v, v->max_value() - 1, false);
         queue.emplace(v);
     }
+    if (iters.empty() && var->type() == VarType::Expression && var->width() > target_size) {
+        // shrinking an expression loses bits, unless it's a constant that fits
+        auto num = convert_value(var, sim.eval_expr(var));
+        return num && Const::is_legal(*num, target_size, is_signed) == Const::ConstantLegal::Legal;
+    }
 
     auto result = safe_to_resize_(sim, var, target_size, is_signed, queue);
 
-- 
2.43.0


From ee49878245fdcdf33df53163e7db7ab035377038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:10 +0000
Subject: [PATCH 017/115] fix: keep the parentheses that operand order requires

---
 src/expr.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index a250c2a..1b88e4e 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -42,6 +42,14 @@ bool is_expand_op(ExprOp op) {
     return ops.find(op) != ops.end();
 }
 
+// a op (b op c) can be written as a op b op c
+static bool is_associative_op(ExprOp op) {
+    static const std::unordered_set<ExprOp> ops = {ExprOp::Add, ExprOp::Multiply, ExprOp::Or,
+                                                   ExprOp::And, ExprOp::Xor,      ExprOp::LAnd,
+                                                   ExprOp::LOr};
+    return ops.find(op) != ops.end();
+}
+
 bool is_ternary_op(ExprOp op) { return op == ExprOp::Conditional; }
 
 bool is_unary_op(ExprOp op) {
@@ -1462,9 +1470,12 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
     auto *left = expr->left;
     auto *right = expr->right;
 
+    // binary operators associate to the left. An operand of a unary operator always needs the
+    // parentheses, e.g. -(a - b)
     auto left_str = left->type() == VarType::Expression
-                        ? expr_to_string(left->as<Expr>().get(), expr->op == left->as<Expr>()->op,
-                                         use_handle, ignore_top, scope)
+                        ? expr_to_string(left->as<Expr>().get(),
+                                         right && expr->op == left->as<Expr>()->op, use_handle,
+                                         ignore_top, scope)
                         : (use_handle ? left->handle_name(ignore_top)
                            : scope    ? left->handle_name(scope)
                                       : left->to_string());
@@ -1472,8 +1483,10 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
     if (right != nullptr) {
         auto right_str =
             right->type() == VarType::Expression
-                ? expr_to_string(right->as<Expr>().get(), expr->op == right->as<Expr>()->op,
-                                 use_handle, ignore_top, scope)
+                ? expr_to_string(
+                      right->as<Expr>().get(),
+                      expr->op == right->as<Expr>()->op && is_associative_op(expr->op), use_handle,
+                      ignore_top, scope)
                 : (use_handle ? right->handle_name(ignore_top)
                    : scope    ? right->handle_name(scope)
                               : right->to_string());
-- 
2.43.0


From d6c67a6b9a145bf3c6342f8c4383e0e1cc1089bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 018/115] fix: logical and/or yield a single bit

---
 src/expr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 1b88e4e..f73dfb8 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -28,7 +28,8 @@ namespace kratos {
 bool is_relational_op(ExprOp op) {
     static std::unordered_set<ExprOp> ops = {ExprOp::LessThan,   ExprOp::GreaterThan,
                                              ExprOp::LessEqThan, ExprOp::GreaterEqThan,
-                                             ExprOp::Eq,         ExprOp::Neq};
+                                             ExprOp::Eq,         ExprOp::Neq,
+                                             ExprOp::LAnd,       ExprOp::LOr};
     return ops.find(op) != ops.end();
 }
 
-- 
2.43.0


From 43e72a179e4d2cd3c71125b31be205746a0a7f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 019/115] fix: unary minus and reduction and are unary
 operators

---
 src/expr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index f73dfb8..54edb20 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -54,7 +54,7 @@ static bool is_associative_op(ExprOp op) {
 bool is_ternary_op(ExprOp op) { return op == ExprOp::Conditional; }
 
 bool is_unary_op(ExprOp op) {
-    static std::unordered_set<ExprOp> ops = {ExprOp::UXor,  ExprOp::UPlus, ExprOp::UOr,
+    static std::unordered_set<ExprOp> ops = {ExprOp::UAnd,  ExprOp::UPlus, ExprOp::UOr,
                                              ExprOp::UNot,  ExprOp::UXor,  ExprOp::UInvert,
                                              ExprOp::UMinus};
     return ops.find(op) != ops.end();
@@ -73,7 +73,7 @@ Expr &Var::operator-(const Var &var) const {
 }
 
 Expr &Var::operator-() const {
-    return generator()->expr(ExprOp::Minus, const_cast<Var *>(this), nullptr);
+    return generator()->expr(ExprOp::UMinus, const_cast<Var *>(this), nullptr);
 }
 
 Expr &Var::operator~() const {
-- 
2.43.0


From f08358f58be91617cc6010eb86cb75665c87de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 020/115] fix: a range slice resizes the dimension it selects
 from

---
 src/expr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 54edb20..981e3a1 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -550,7 +550,7 @@ VarSlice::VarSlice(Var *parent, uint32_t high, uint32_t low)
         } else {
             // readjust the top slice
             size_ = std::vector<uint32_t>(parent->size().begin(), parent->size().end());
-            size_.back() = high - low + 1;
+            size_.front() = high - low + 1;
             var_width_ = parent->var_width();
             is_packed_ = parent->is_packed();
         }
-- 
2.43.0


From 8eeab3e768d76a04ede70aa86e271b86494f15b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 021/115] fix: remove uses and drivers from the set they were
 added to

---
 src/expr.cc | 4 ++--
 src/expr.hh | 4 ++--
 src/port.hh | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 981e3a1..97148bf 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -727,7 +727,7 @@ void VarVarSlice::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
 
 void VarVarSlice::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
     VarSlice::remove_source(stmt);
-    sliced_var_->remove_source(stmt);
+    sliced_var_->remove_sink(stmt);
 }
 
 std::string VarVarSlice::to_string() const {
@@ -1804,7 +1804,7 @@ void VarSlice::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
 
 void VarSlice::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
     Var *parent = parent_var;
-    parent->remove_source(stmt);
+    parent->remove_sink(stmt);
 }
 
 ConditionalExpr::ConditionalExpr(const std::shared_ptr<Var> &condition,
diff --git a/src/expr.hh b/src/expr.hh
index 708f64b..6da0a9c 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -310,8 +310,8 @@ public:
     const std::unordered_set<std::shared_ptr<AssignStmt>> &sources() const override {
         return parent_var_->sources();
     };
-    void clear_sinks(bool remove_parent) override { parent_var_->clear_sources(remove_parent); }
-    void clear_sources(bool remove_parent) override { parent_var_->clear_sinks(remove_parent); }
+    void clear_sinks(bool remove_parent) override { parent_var_->clear_sinks(remove_parent); }
+    void clear_sources(bool remove_parent) override { parent_var_->clear_sources(remove_parent); }
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override {
         parent_var_->remove_source(stmt);
     }
diff --git a/src/port.hh b/src/port.hh
index ebe1999..ad074a5 100644
--- a/src/port.hh
+++ b/src/port.hh
@@ -206,8 +206,8 @@ public:
     const std::unordered_set<std::shared_ptr<AssignStmt>> &sources() const override {
         return var_->sources();
     };
-    void clear_sinks(bool remove_parent = false) override { var_->clear_sources(remove_parent); }
-    void clear_sources(bool remove_parent = false) override { var_->clear_sinks(remove_parent); }
+    void clear_sinks(bool remove_parent = false) override { var_->clear_sinks(remove_parent); }
+    void clear_sources(bool remove_parent = false) override { var_->clear_sources(remove_parent); }
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override {
         var_->remove_source(stmt);
     }
-- 
2.43.0


From 56d4742f05059659fe678fc13f193b9b3b041041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 022/115] fix: hierarchical names of expressions

---
 src/expr.cc | 83 ++++++++++++++++++++++++++++++++++-------------------
 src/expr.hh | 19 ++++++++----
 2 files changed, 67 insertions(+), 35 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 97148bf..e8aaa54 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -312,7 +312,8 @@ std::string Var::handle_name(kratos::Generator *scope) const {
     auto gen_name = scope->handle_name();
     auto var_name = handle_name();
     auto pos = var_name.find(gen_name);
-    if (pos != 0) {
+    // the scope has to be a complete prefix: top.inst1 is not part of top.inst
+    if (pos != 0 || var_name.size() <= gen_name.size() || var_name[gen_name.size()] != '.') {
         throw VarException(
             ::format("{0} is not accessible from {1}", gen_name, generator()->handle_name()),
             {this, scope, this->generator()});
@@ -1354,39 +1355,47 @@ void VarConcat::replace_var(const std::shared_ptr<Var> &target, const std::share
 }
 
 VarExtend::VarExtend(const std::shared_ptr<Var> &var, uint32_t width)
-    : Expr(ExprOp::Extend, var.get(), nullptr), parent_(var.get()) {
-    if (width < parent_->width()) {
-        throw VarException(::format("Cannot extend {0} (width={1}) to {2}", parent_->to_string(),
-                                    parent_->width(), width),
-                           {parent_});
+    : Expr(ExprOp::Extend, var.get(), nullptr) {
+    if (width < left->width()) {
+        throw VarException(::format("Cannot extend {0} (width={1}) to {2}", left->to_string(),
+                                    left->width(), width),
+                           {left});
     }
     var_width_ = width;
-    is_signed_ = parent_->is_signed();
-    if (parent_->size().size() > 1 || parent_->size().front() > 1 ||
-        (parent_->explicit_array() && parent_->type() != VarType::ConstValue)) {
-        throw VarException(::format("Cannot extend an array ({0})", parent_->to_string()),
-                           {parent_});
+    is_signed_ = left->is_signed();
+    if (left->size().size() > 1 || left->size().front() > 1 ||
+        (left->explicit_array() && left->type() != VarType::ConstValue)) {
+        throw VarException(::format("Cannot extend an array ({0})", left->to_string()),
+                           {left});
     }
 }
 
 void VarExtend::add_source(const std::shared_ptr<AssignStmt> &) {
     throw StmtException(
-        ::format("Cannot add source to an extended variable ({0})", parent_->to_string()),
-        {parent_});
+        ::format("Cannot add source to an extended variable ({0})", left->to_string()),
+        {left});
 }
 
-void VarExtend::add_sink(const std::shared_ptr<AssignStmt> &stmt) { parent_->add_sink(stmt); }
+void VarExtend::add_sink(const std::shared_ptr<AssignStmt> &stmt) { left->add_sink(stmt); }
 
-void VarExtend::remove_sink(const std::shared_ptr<AssignStmt> &stmt) { parent_->remove_sink(stmt); }
+void VarExtend::remove_sink(const std::shared_ptr<AssignStmt> &stmt) { left->remove_sink(stmt); }
 
 void VarExtend::replace_var(const std::shared_ptr<Var> &target, const std::shared_ptr<Var> &item) {
-    if (target.get() == parent_) {
-        parent_ = item.get();
+    if (target.get() == left) {
+        left = item.get();
     }
 }
 
 std::string VarExtend::to_string() const {
-    return ::format("{0}'({1})", width(), parent_->to_string());
+    return ::format("{0}'({1})", width(), left->to_string());
+}
+
+std::string VarExtend::handle_name(bool ignore_top) const {
+    return ::format("{0}'({1})", width(), left->handle_name(ignore_top));
+}
+
+std::string VarExtend::handle_name(kratos::Generator *scope) const {
+    return ::format("{0}'({1})", width(), left->handle_name(scope));
 }
 
 VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
@@ -1424,15 +1433,25 @@ void VarDuplicated::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
     left->remove_source(stmt);
 }
 
-std::string VarDuplicated::to_string() const {
+std::string VarDuplicated::duplicate_str(const std::string &value) const {
     if (left->type() == VarType::Expression) {
         auto expr = left->as<Expr>();
         if (expr->op == ExprOp::Concat) {
-            return fmt::format("{{{0}{1}}}", right->to_string(), left->to_string());
+            return fmt::format("{{{0}{1}}}", right->to_string(), value);
         }
     }
 
-    return fmt::format("{{{0}{{{1}}}}}", right->to_string(), left->to_string());
+    return fmt::format("{{{0}{{{1}}}}}", right->to_string(), value);
+}
+
+std::string VarDuplicated::to_string() const { return duplicate_str(left->to_string()); }
+
+std::string VarDuplicated::handle_name(bool ignore_top) const {
+    return duplicate_str(left->handle_name(ignore_top));
+}
+
+std::string VarDuplicated::handle_name(kratos::Generator *scope) const {
+    return duplicate_str(left->handle_name(scope));
 }
 
 std::string Const::to_string() const {
@@ -1510,7 +1529,7 @@ std::string Expr::handle_name(bool ignore_top) const {
 }
 
 std::string Expr::handle_name(kratos::Generator *scope) const {
-    return expr_to_string(this, true, false, scope);
+    return expr_to_string(this, true, false, false, scope);
 }
 
 IRNode *Expr::get_child(uint64_t index) {
@@ -1839,21 +1858,25 @@ void ConditionalExpr::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
     right->remove_sink(stmt);
 }
 
+std::string ConditionalExpr::conditional_str(const std::string &cond, const std::string &left_str,
+                                             const std::string &right_str) const {
+    std::string cond_str =
+        condition->type() == VarType::Expression ? ::format("({0})", cond) : cond;
+    return ::format("{0} ? {1}: {2}", cond_str, left_str, right_str);
+}
+
 std::string ConditionalExpr::to_string() const {
-    std::string cond_str = condition->type() == VarType::Expression
-                               ? ::format("({0})", condition->to_string())
-                               : condition->to_string();
-    return ::format("{0} ? {1}: {2}", cond_str, left->to_string(), right->to_string());
+    return conditional_str(condition->to_string(), left->to_string(), right->to_string());
 }
 
 std::string ConditionalExpr::handle_name(bool ignore_top) const {
-    return ::format("{0} ? {1}: {2}", condition->handle_name(ignore_top),
-                    left->handle_name(ignore_top), right->handle_name(ignore_top));
+    return conditional_str(condition->handle_name(ignore_top), left->handle_name(ignore_top),
+                           right->handle_name(ignore_top));
 }
 
 std::string ConditionalExpr::handle_name(kratos::Generator *scope) const {
-    return ::format("{0} ? {1}: {2}", condition->handle_name(scope), left->handle_name(scope),
-                    right->handle_name(scope));
+    return conditional_str(condition->handle_name(scope), left->handle_name(scope),
+                           right->handle_name(scope));
 }
 
 std::shared_ptr<ConditionalExpr> ConditionalExpr::create(const std::shared_ptr<Var> &condition,
diff --git a/src/expr.hh b/src/expr.hh
index 6da0a9c..e6ba685 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -706,13 +706,13 @@ public:
     uint32_t width() const override { return var_width_; }
 
     uint64_t child_count() override { return 1; }
-    IRNode *get_child(uint64_t index) override { return index == 0 ? parent_ : nullptr; }
+    IRNode *get_child(uint64_t index) override { return index == 0 ? left : nullptr; }
 
     std::string to_string() const override;
-    Var *parent_var() const { return parent_; }
-
-private:
-    Var *parent_;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
+    // the operand; passes may replace it
+    Var *parent_var() const { return left; }
 };
 
 struct VarDuplicated : public Expr {
@@ -727,6 +727,11 @@ public:
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override;
 
     std::string to_string() const override;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
+
+private:
+    [[nodiscard]] std::string duplicate_str(const std::string &value) const;
 };
 
 struct ConditionalExpr : public Expr {
@@ -745,6 +750,10 @@ struct ConditionalExpr : public Expr {
                                                    const std::shared_ptr<Var> &left, int64_t right);
 
     Var *condition;
+
+private:
+    [[nodiscard]] std::string conditional_str(const std::string &cond, const std::string &left_str,
+                                              const std::string &right_str) const;
 };
 
 struct EnumConst : public Const {
-- 
2.43.0


From 19b1695c0a9b9acae4a2044e2968dcde8d440993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 023/115] fix: function call arguments follow the port order,
 array return width

---
 src/expr.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index e8aaa54..e0a57b6 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -2377,7 +2377,7 @@ FunctionCallVar::FunctionCallVar(Generator *m, const std::shared_ptr<FunctionStm
             is_signed_ = false;
         }
     } else if (has_return && handle != nullptr) {
-        var_width_ = handle->width();
+        var_width_ = handle->var_width();
         size_ = handle->size();
         is_signed_ = handle->is_signed();
     }
@@ -2409,21 +2409,19 @@ std::string FunctionCallVar::to_string() const {
     auto name =
         func_def_->is_builtin() ? "$" + func_def_->function_name() : func_def_->function_name();
     std::string result = name + " (";
-    std::vector<std::string> names;
-    names.reserve(args_.size());
-    for (auto const &iter : args_) names.emplace_back(iter.second->to_string());
+    std::vector<std::string> arg_names;
+    arg_names.reserve(args_.size());
+    for (auto const &iter : args_) arg_names.emplace_back(iter.first);
     // calling ordering
     if (!func_def_->port_ordering().empty()) {
         auto ordering = func_def_->port_ordering();
-        std::unordered_map<std::string, uint32_t> indexing;
-        indexing.reserve(ordering.size());
-        for (auto const &[var_name, var] : args_) {
-            indexing.emplace(var->to_string(), ordering.at(var_name));
-        }
-        std::sort(names.begin(), names.end(), [&](auto const &lhs, auto const &rhs) {
-            return indexing.at(lhs) < indexing.at(rhs);
+        std::sort(arg_names.begin(), arg_names.end(), [&](auto const &lhs, auto const &rhs) {
+            return ordering.at(lhs) < ordering.at(rhs);
         });
     }
+    std::vector<std::string> names;
+    names.reserve(args_.size());
+    for (auto const &arg_name : arg_names) names.emplace_back(args_.at(arg_name)->to_string());
     result.append(string::join(names.begin(), names.end(), ", "));
     result.append(")");
     return result;
-- 
2.43.0


From 548d491ee097a6e9e1c9c30d4d3cacc19078c0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:41 +0000
Subject: [PATCH 024/115] fix: keep parametrized widths and sizes in step with
 their parameters

---
 src/expr.cc | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index e0a57b6..6fb4b98 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -340,7 +340,7 @@ void Var::set_width_param(Var *param) {
             visitor.visit_root(width_param_);
             auto const &params = visitor.params();
             for (const auto &p : params) {
-                p->add_param_width_var(this);
+                p->remove_param_width_var(this);
             }
         }
         width_param_= nullptr;
@@ -348,6 +348,8 @@ void Var::set_width_param(Var *param) {
     }
     // set width to the current param value
     auto value = Simulator::static_evaluate_expr(param);
+    // no longer depends on the previous one
+    if (width_param_ && width_param_ != param) Var::set_width_param(nullptr);
     var_width_ = value;
     width_param_ = param;
 
@@ -358,6 +360,10 @@ void Var::set_width_param(Var *param) {
     for (const auto &p : params) {
         p->add_param_width_var(this);
     }
+    // slices are as wide as the variable they select from
+    for (auto const &slice : slices_) {
+        if (slice->parametrized()) slice->set_width_param(param);
+    }
 }
 
 VarSlice &Var::operator[](uint32_t bit) { return this->operator[]({bit, bit}); }
@@ -400,6 +406,8 @@ void Var::set_size_param(uint32_t index, Var *param) {
         }
     }
     // all good. now we need to resize the index
+    // no longer depends on the previous one
+    if (get_size_param(index) && get_size_param(index) != param) set_size_param(index, nullptr);
     size_[index] = new_dim_size;
     size_param_[index] = param;
 
@@ -629,6 +637,13 @@ void VarSlice::set_width_param(kratos::Var *param) {
     // recompute the var width
     VarSlice s(parent_var, high, low);
     var_width_ = s.var_width_;
+    if (!sliced_by_var()) {
+        var_high_ = s.var_high_;
+        var_low_ = s.var_low_;
+    }
+    for (auto const &slice : slices_) {
+        if (slice->parametrized()) slice->set_width_param(param);
+    }
 }
 
 PackedSlice &VarSlice::operator[](const std::string &member_name) {
@@ -1201,7 +1216,7 @@ Param::Param(Generator *m, const std::shared_ptr<Param> &param, std::string para
       enum_def_(param->enum_def_) {}
 
 void Param::set_value(int64_t new_value) {
-    if (new_value <= 0 && !param_vars_width_.empty()) {
+    if (new_value <= 0 && (!param_vars_width_.empty() || !param_vars_size_.empty())) {
         throw VarException(
             ::format(
                 "{0} is used for parametrizing variable width, thus cannot be non-positive ({1})",
@@ -1211,12 +1226,15 @@ void Param::set_value(int64_t new_value) {
     Const::set_value(new_value);
     has_value_ = true;
 
-    // change the width of parametrized variables
-    for (const auto &var : param_vars_width_) {
-        var->var_width() = new_value;
+    // change the width of parametrized variables. the width can be an expression of the parameter,
+    // and slices follow the variable they select from
+    auto const width_vars = param_vars_width_;
+    for (const auto &var : width_vars) {
+        if (var->type() != VarType::Slice) var->set_width_param(var->width_param());
     }
     // change the size as well
-    for (const auto &[var, index, expr] : param_vars_size_) {
+    auto const size_vars = param_vars_size_;
+    for (const auto &[var, index, expr] : size_vars) {
         var->set_size_param(index, expr);
     }
 
-- 
2.43.0


From 16dda80148410ffe087ee1ac0425d229eaf63d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:18 +0000
Subject: [PATCH 025/115] fix: do not use a queue entry after removing it

---
 src/graph.cc | 2 +-
 src/sim.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph.cc b/src/graph.cc
index bf795c6..9832b7d 100644
--- a/src/graph.cc
+++ b/src/graph.cc
@@ -129,7 +129,7 @@ std::vector<std::vector<Generator *>> GeneratorGraph::get_leveled_nodes() {
     uint32_t max_level = 0;
 
     while (!queue.empty()) {
-        const auto &[generator, current_level] = queue.front();
+        const auto [generator, current_level] = queue.front();
         queue.pop();
         auto const &node = get_node(generator);
         if (level_index.find(node) == level_index.end() || level_index.at(node) < current_level) {
diff --git a/src/sim.cc b/src/sim.cc
index 7f16f89..92c183e 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -540,7 +540,7 @@ void Simulator::eval() {
         if (simulation_depth_ > MAX_SIMULATION_DEPTH) {
             throw UserException("Simulation doesn't converge");
         }
-        auto &[var, stmt] = event_queue_.front();
+        auto const [var, stmt] = event_queue_.front();
         event_queue_.pop();
         process_stmt(stmt, var);
     }
-- 
2.43.0


From f29b84a277cfe0cacb5ec085d1a6b478bb28b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:18 +0000
Subject: [PATCH 026/115] fix: reinterpret the value, not use it as an address,
 in array stimuli

---
 src/sim.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.cc b/src/sim.cc
index 92c183e..f28177f 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -581,7 +581,7 @@ void Simulator::set_i(const kratos::Var *var, const std::optional<std::vector<in
         std::vector<uint64_t> u_vs;
         u_vs.reserve(vs.size());
         for (auto v : vs) {
-            auto u_v = *(reinterpret_cast<uint64_t *>(v));
+            auto u_v = *(reinterpret_cast<uint64_t *>(&v));
             u_v = truncate(u_v, var->width());
             u_vs.emplace_back(u_v);
         }
-- 
2.43.0


From 6e38b8d1a0dd941a7ac856e96875670cee278c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:09 +0000
Subject: [PATCH 027/115] fix: print 64-bit constants that have the top bit set

---
 src/expr.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 6fb4b98..0ad9333 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1481,9 +1481,10 @@ std::string Const::to_string() const {
             return ::format("{0}\'h{1}", width(), hex_value_);
         }
     } else if (is_signed_ && value_ < 0) {
-        return ::format("-{0}\'h{1:X}", width(), -value_);
+        return ::format("-{0}\'h{1:X}", width(), -static_cast<uint64_t>(value_));
     } else {
-        return ::format("{0}\'h{1:X}", width(), value_);
+        // the bit pattern of an unsigned 64-bit constant may look like a negative number
+        return ::format("{0}\'h{1:X}", width(), static_cast<uint64_t>(value_));
     }
 }
 
-- 
2.43.0


From 5c409acb1740f81472f5bf0118e2f32e52ab600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:09 +0000
Subject: [PATCH 028/115] fix: do not print two adjacent unary operators

---
 src/expr.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index 0ad9333..0a1ed1e 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1534,6 +1534,8 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
         else
             return ::format("({0} {1} {2})", left_str, ExprOpStr(expr->op), right_str);
     } else {
+        // a negative constant starts with an operator: -(-4'h1) is not --4'h1
+        if (!left_str.empty() && left_str.front() == '-') left_str = ::format("({0})", left_str);
         if (is_top)
             return ::format("{0}{1}", ExprOpStr(expr->op), left_str);
         else
-- 
2.43.0


From 5d68087af94501f938785ea7e455f4d0a7ec4aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:01 +0000
Subject: [PATCH 029/115] fix: bits covered by ranges and partial indices of a
 variable

---
 src/util.cc | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index e4df837..aedb506 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -179,20 +179,14 @@ std::pair<uint32_t, uint32_t> compute_var_high_low(
     uint32_t var_high = 0;
     uint32_t index_to_size = 0;
     uint64_t i = 0;
-    while (i < index.size()) {
+    bool const is_array =
+        var_sizes.size() > 1 || var_sizes.front() > 1 || root->explicit_array();
+    // the bases already include the element width. a range keeps the dimension, an index drops it
+    while (is_array && i < index.size() && index_to_size < var_sizes.size()) {
         auto const &[slice_high, slice_low] = index[i];
-        if (slice_high > slice_low) {
-            var_low += slice_low * bases[index_to_size] * root->var_width();
-            var_high = var_low +
-                       (slice_high - slice_low + 1) * bases[index_to_size] * root->var_width() - 1;
-        } else if (slice_high == slice_low && index_to_size < var_sizes.size() &&
-                   var_sizes[index_to_size] > 1) {
-            var_low += slice_low * bases[index_to_size];
-            var_high = var_low + (slice_high - slice_low + 1) * bases[index_to_size] - 1;
-            index_to_size++;
-        } else {
-            break;
-        }
+        var_low += slice_low * bases[index_to_size];
+        var_high = var_low + (slice_high - slice_low + 1) * bases[index_to_size] - 1;
+        if (slice_high == slice_low) index_to_size++;
         i++;
     }
 
-- 
2.43.0


From b4a2cf9b9e95e0f2660b50b125ce211f8b9c2702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:01 +0000
Subject: [PATCH 030/115] fix: shape of casts, comparisons, concatenations and
 repetitions of arrays

---
 src/expr.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 0a1ed1e..c82ad82 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -797,10 +797,12 @@ Expr::Expr(ExprOp op, Var *left, Var *right)
     }
 
     // if it's a predicate/relational op, the width is one
-    if (is_relational_op(op) || is_reduction_op(op))
+    if (is_relational_op(op) || is_reduction_op(op)) {
         var_width_ = 1;
-    else
+        size_ = {1};
+    } else {
         var_width_ = left->var_width();
+    }
 
     if (right != nullptr)
         is_signed_ = left->is_signed() && right->is_signed();
@@ -1056,8 +1058,14 @@ void Const::set_is_packed(bool value) {
 std::unordered_set<std::shared_ptr<Const>> Const::consts_ = {};
 std::shared_ptr<Generator> Const::const_generator_ = nullptr;
 
+static uint32_t element_width(const Var *var) {
+    uint32_t width = var->width();
+    for (auto const &size : var->size()) width /= size;
+    return width;
+}
+
 VarCasted::VarCasted(Var *parent, VarCastType cast_type)
-    : Var(parent->generator(), "", parent->width(), parent->size(), false, parent->type()),
+    : Var(parent->generator(), "", element_width(parent), parent->size(), false, parent->type()),
       parent_var_(parent),
       cast_type_(cast_type) {
     type_ = VarType::BaseCasted;
@@ -1103,7 +1111,7 @@ std::string VarCasted::to_string() const {
 
 void VarCasted::set_target_width(uint32_t width) {
     // override the current width
-    if (parent_var_->size().size() > 1 && parent_var_->size().front() != 1) {
+    if (parent_var_->size().size() > 1 || parent_var_->size().front() != 1) {
         throw UserException("Width casting for array not supported");
     }
     if (cast_type_ == VarCastType::Resize) {
@@ -1344,6 +1352,7 @@ VarConcat::VarConcat(const std::shared_ptr<VarConcat> &first, const std::shared_
     vars_ = std::vector<Var *>(first->vars_.begin(), first->vars_.end());
     vars_.emplace_back(second.get());
     var_width_ = first->width() + second->width();
+    size_ = {1};
     op = ExprOp::Concat;
 }
 
@@ -1355,6 +1364,7 @@ VarConcat::VarConcat(const std::shared_ptr<Var> &first, const std::shared_ptr<Va
             {first.get(), second.get()});
     vars_ = {first.get(), second.get()};
     var_width_ = first->width() + second->width();
+    size_ = {1};
     op = ExprOp::Concat;
 }
 
@@ -1423,6 +1433,7 @@ VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate,
     right = &c;
     // compute width
     var_width_ = count * var->width();
+    size_ = {1};
 }
 
 VarDuplicated::VarDuplicated(Var *var, const std::shared_ptr<Const> &count)
@@ -1434,6 +1445,7 @@ VarDuplicated::VarDuplicated(Var *var, const std::shared_ptr<Const> &count)
     right = count.get();
     // compute width
     var_width_ = static_cast<uint32_t>(count->value()) * var->width();
+    size_ = {1};
 }
 
 uint32_t VarDuplicated::width() const {
-- 
2.43.0


From e74ecf5aa6d6b76e0d7d84d3ce22134ed0f085a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:01 +0000
Subject: [PATCH 031/115] fix: do not share a cast between enum types

---
 src/expr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index c82ad82..f698127 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1131,7 +1131,8 @@ std::shared_ptr<Var> Var::cast(VarCastType cast_type) {
     } else {
         // optimize memory for speed
         for (auto const &casted : casted_) {
-            if (casted->cast_type() == cast_type && cast_type != VarCastType::Resize) {
+            if (casted->cast_type() == cast_type && cast_type != VarCastType::Resize &&
+                cast_type != VarCastType::Enum) {
                 return casted;
             }
         }
-- 
2.43.0


From df4ae11d2883dc9ca6710d7898514e56bfbc6363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:01 +0000
Subject: [PATCH 032/115] fix: members of equal structs have equal names

---
 src/expr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index f698127..686acd1 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1937,7 +1937,7 @@ uint32_t PackedStructFieldDef::bitwidth() const {
 
 bool PackedStructFieldDef::same(const PackedStructFieldDef &def) const {
     if (struct_ && def.struct_) {
-        return struct_->same(*def.struct_);
+        return name == def.name && struct_->same(*def.struct_);
     } else if (!struct_ && !def.struct_) {
         return name == def.name && width == def.width && signed_ == def.signed_;
     }
-- 
2.43.0


From 1ba04a0c875bab8f65faf162ee403edb89744d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:10 +0000
Subject: [PATCH 033/115] fix: two ports, variables, parameters or functions
 cannot share a name

---
 src/generator.cc | 6 ++++++
 src/interface.cc | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index 0d8d45b..ea191b7 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -212,6 +212,7 @@ Expr &Generator::expr(ExprOp op, Var *left, Var *right) {
 }
 
 Param &Generator::parameter(const std::string &parameter_name) {
+    check_param_name_conflict(parameter_name);
     auto ptr = std::make_shared<Param>(this, parameter_name);
     params_.emplace(parameter_name, ptr);
     return *ptr;
@@ -232,6 +233,9 @@ void Generator::add_port_name(const std::string &port_name) {
     if (ports_.find(port_name) != ports_.end())
         throw VarException(::format("{0} already exists in {1}", port_name, name),
                            {vars_.at(port_name).get()});
+    if (vars_.find(port_name) != vars_.end())
+        throw VarException(::format("{0} already exists in {1} as a variable", port_name, name),
+                           {vars_.at(port_name).get()});
     ports_.emplace(port_name);
 }
 
@@ -353,6 +357,8 @@ std::shared_ptr<DPIFunctionStmtBlock> Generator::dpi_function(const std::string
 
 std::shared_ptr<BuiltInFunctionStmtBlock> Generator::builtin_function(
     const std::string &func_name) {
+    if (funcs_.find(func_name) != funcs_.end())
+        throw UserException(::format("function {0} already exists", func_name));
     auto p = std::make_shared<BuiltInFunctionStmtBlock>(this, func_name);
     func_index_.emplace(static_cast<uint32_t>(funcs_.size()), func_name);
     funcs_.emplace(func_name, p);
diff --git a/src/interface.cc b/src/interface.cc
index e7bbb6e..3644754 100644
--- a/src/interface.cc
+++ b/src/interface.cc
@@ -30,7 +30,7 @@ std::string InterfaceDefinition::port(const std::string& name, uint32_t width,
 std::string InterfaceDefinition::port(const std::string& name, uint32_t width,
                                       const std::vector<uint32_t>& size,
                                       enum kratos::PortDirection dir, PortType type) {
-    if (ports_.find(name) != ports_.end())
+    if (has_port(name) || has_var(name))
         throw UserException(::format("{0} already exists in {1}", name, name_));
     ports_.emplace(name, std::make_tuple(width, size, dir, type));
     return name;
@@ -56,7 +56,7 @@ std::string InterfaceDefinition::var(const std::string& name, uint32_t width, ui
 
 std::string InterfaceDefinition::var(const std::string& name, uint32_t width,
                                      const std::vector<uint32_t>& size) {
-    if (vars_.find(name) != vars_.end())
+    if (has_port(name) || has_var(name))
         throw UserException(::format("{0} already exists in {1}", name, name_));
     vars_.emplace(name, std::make_pair(width, size));
     return name;
-- 
2.43.0


From 9a07045eef694ee4f617cf78f7c690136e67da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:10 +0000
Subject: [PATCH 034/115] fix: array shape of copied struct ports and reused
 variables

---
 src/generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index ea191b7..2ccdeb0 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -93,7 +93,7 @@ Var &Generator::var(const std::string &var_name, uint32_t width, const std::vect
                     bool is_signed) {
     if (vars_.find(var_name) != vars_.end()) {
         auto v_p = get_var(var_name);
-        if (v_p->width() != width || v_p->is_signed() != is_signed)
+        if (v_p->var_width() != width || v_p->size() != size || v_p->is_signed() != is_signed)
             throw VarException(::format("redefinition of {0} with different width/sign", var_name),
                                {v_p.get()});
         return *v_p;
@@ -160,7 +160,7 @@ Port &Generator::port(const PortPackedStruct &port, bool check_param) {
 Port &Generator::port(const PortPackedStruct &port, const std::string &port_name,
                       bool check_param) {
     auto p = std::make_shared<PortPackedStruct>(this, port.port_direction(), port_name,
-                                                port.packed_struct());
+                                                port.packed_struct(), port.size());
     add_port_name(port_name);
     vars_.emplace(port_name, p);
 
-- 
2.43.0


From 829a855a3a5619115c6ba9a9684d91404382b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:10 +0000
Subject: [PATCH 035/115] fix: keep the name tables of a module consistent when
 renaming, replacing and merging

---
 src/generator.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index 2ccdeb0..2c63324 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -409,14 +409,14 @@ IRNode *Generator::get_child(uint64_t index) {
 
 void Generator::add_child_generator(const std::string &instance_name_,
                                     const std::shared_ptr<Generator> &child) {
-    child->instance_name = instance_name_;
-    if (children_.find(child->instance_name) == children_.end()) {
+    if (children_.find(instance_name_) == children_.end()) {
+        child->instance_name = instance_name_;
         children_.emplace(child->instance_name, child);
         child->parent_generator_ = this;
         children_names_.emplace_back(child->instance_name);
     } else {
         throw GeneratorException(
-            ::format("{0} already exists  in {1}", child->instance_name, instance_name),
+            ::format("{0} already exists  in {1}", instance_name_, instance_name),
             {children_.at(instance_name_).get()});
     }
 }
@@ -428,10 +428,10 @@ void Generator::add_child_generator(const std::string &instance_name_, Generator
 void Generator::add_child_generator(const std::string &instance_name_,
                                     const std::shared_ptr<Generator> &child,
                                     const std::pair<std::string, uint32_t> &debug_info) {
+    add_child_generator(instance_name_, child);
     if (debug) {
-        children_debug_.emplace(instance_name_, debug_info);
+        children_debug_[instance_name_] = debug_info;
     }
-    add_child_generator(instance_name_, child);
 }
 
 Generator *Generator::get_child_generator(const std::string &instance_name_) {
@@ -447,6 +447,7 @@ void Generator::remove_child_generator(const std::shared_ptr<Generator> &child)
         children_names_.erase(pos);
         children_.erase(child_name);
         children_comments_.erase(child_name);
+        children_debug_.erase(child_name);
         // need to remove every connected ports
         auto port_names = child->get_port_names();
         for (auto const &port_name : port_names) {
@@ -485,7 +486,8 @@ std::vector<std::shared_ptr<Generator>> Generator::get_child_generators() {
 }
 
 bool Generator::has_child_generator(const std::shared_ptr<Generator> &child) {
-    return children_.find(child->instance_name) != children_.end();
+    auto const it = children_.find(child->instance_name);
+    return it != children_.end() && it->second == child;
 }
 
 bool Generator::has_child_generator(const std::string &child_name) {
@@ -592,6 +594,10 @@ void Generator::rename_var(const std::string &old_name, const std::string &new_n
     auto var = get_var(old_name);
     if (!var) return;
     // Using C++17 to replace the key
+    if (old_name == new_name) return;
+    if (has_var(new_name))
+        throw VarException(::format("{0} already exists in {1}", new_name, name), {var.get()});
+    if (ports_.erase(old_name)) ports_.emplace(new_name);
     auto handle = vars_.extract(old_name);
     handle.key() = new_name;
     // rename the var
@@ -713,7 +719,7 @@ void Generator::transfer_content(kratos::Generator &gen, const std::string &pref
         var->set_generator(&gen);
         std::string target_name = var_name;
         if (gen.has_var(var_name)) {
-            target_name = get_unique_variable_name(prefix, var_name);
+            target_name = gen.get_unique_variable_name(prefix, var_name);
         }
         var->name = target_name;
         // maybe it's a port, in that case we need to copy its definition and create a var
@@ -1207,7 +1213,7 @@ void Generator::replace(const std::string &child_name,
 void Generator::replace(const std::string &child_name, const std::shared_ptr<Generator> &new_child,
                         const std::pair<std::string, uint32_t> &debug_info) {
     replace(child_name, new_child);
-    children_debug_.emplace(child_name, debug_info);
+    children_debug_[child_name] = debug_info;
 }
 
 std::vector<std::string> Generator::get_ports(kratos::PortType type) const {
@@ -1270,7 +1276,7 @@ std::string Generator::get_child_comment(const std::string &child_name) const {
 }
 
 void Generator::set_child_comment(const std::string &child_name, const std::string &comment) {
-    children_comments_.emplace(child_name, comment);
+    children_comments_[child_name] = comment;
 }
 
 void Generator::remove_var(const std::string &var_name) {
-- 
2.43.0


From cc3b39503aca06b7f4247ec0db720d7ab10562bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:10 +0000
Subject: [PATCH 036/115] fix: removing or replacing a child handles inout
 ports and fails without side effects

---
 src/generator.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index 2c63324..c2f48b5 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -452,7 +452,7 @@ void Generator::remove_child_generator(const std::shared_ptr<Generator> &child)
         auto port_names = child->get_port_names();
         for (auto const &port_name : port_names) {
             auto port = child->get_port(port_name);
-            if (port->port_direction() == PortDirection::In) {
+            if (port->port_direction() != PortDirection::Out) {
                 // do a copy
                 auto srcs = std::unordered_set<std::shared_ptr<AssignStmt>>(port->sources().begin(),
                                                                             port->sources().end());
@@ -461,7 +461,8 @@ void Generator::remove_child_generator(const std::shared_ptr<Generator> &child)
                     sink->unassign(stmt);
                     remove_stmt_from_parent(stmt);
                 }
-            } else {
+            }
+            if (port->port_direction() != PortDirection::In) {
                 auto sinks = std::unordered_set<std::shared_ptr<AssignStmt>>(port->sinks().begin(),
                                                                              port->sinks().end());
                 for (auto const &stmt : sinks) {
@@ -1141,7 +1142,6 @@ void Generator::replace(const std::string &child_name,
                                  {this, new_child.get()});
     }
     auto old_child = children_.at(child_name);
-    new_child->instance_name = child_name;
     // first we need to make sure that the interfaces are the same
     auto old_port_names = old_child->get_port_names();
     auto new_port_names = new_child->get_port_names();
@@ -1190,8 +1190,11 @@ void Generator::replace(const std::string &child_name,
                                         old_child->name, port_name, new_child->name),
                                {old_port.get(), new_port.get()});
         }
-
-        // all passed, now replace the port!
+    }
+    // all passed, now replace the ports!
+    for (const auto &port_name : old_port_names) {
+        auto old_port = old_child->get_port(port_name);
+        auto new_port = new_child->get_port(port_name);
         if (old_port->port_direction() == PortDirection::In) {
             // move the src
             Var::move_src_to(old_port.get(), new_port.get(), this, false);
-- 
2.43.0


From cd36df89fddd1c3b813700203f919d5a92242111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:10 +0000
Subject: [PATCH 037/115] fix: directions, widths and names of modport ports
 and flipped bundles

---
 src/interface.cc | 6 +++++-
 src/port.cc      | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/interface.cc b/src/interface.cc
index 3644754..3184216 100644
--- a/src/interface.cc
+++ b/src/interface.cc
@@ -105,6 +105,8 @@ void InterfaceModPortDefinition::set_output(const std::string& name) {
     } else if (def_->has_var(name)) {
         // this is a variable
         outputs_.emplace(name);
+    } else {
+        throw UserException(::format("{0} does not exist in {1}", name, def_->name()));
     }
 }
 
@@ -147,6 +149,8 @@ void InterfaceModPortDefinition::set_input(const std::string& name) {
     } else if (def_->has_var(name)) {
         // this is a variable
         inputs_.emplace(name);
+    } else {
+        throw UserException(::format("{0} does not exist in {1}", name, def_->name()));
     }
 }
 
@@ -187,7 +191,7 @@ std::shared_ptr<InterfaceRef> InterfaceRef::get_modport_ref(const std::string& n
     // since it's modport, it can only be ports
     auto ports = modport_def->ports();
     for (auto const& port_name : ports) {
-        bool is_input = modport_def->inputs().find(name) != modport_def->inputs().end();
+        bool is_input = modport_def->inputs().find(port_name) != modport_def->inputs().end();
         if (has_var(port_name)) {
             // it's a variable
             auto port = std::make_shared<ModportPort>(
diff --git a/src/port.cc b/src/port.cc
index 125da03..a931b18 100644
--- a/src/port.cc
+++ b/src/port.cc
@@ -238,6 +238,7 @@ PortBundleDefinition PortBundleDefinition::flip() {
     flipped_.definitions_ = flipped_definitions_;
     flipped_.flipped_definitions_ = definitions_;
     flipped_.debug_info_ = debug_info_;
+    flipped_.name_ = name_;
     return flipped_;
 }
 
@@ -287,7 +288,7 @@ std::string InterfacePort::to_string() const {
 std::string InterfacePort::base_name() const { return interface_->base_name(); }
 
 ModportPort::ModportPort(InterfaceRef* ref, kratos::Var* var, kratos::PortDirection dir)
-    : InterfacePort(ref, var->generator(), dir, var->name, var->width(), var->size(),
+    : InterfacePort(ref, var->generator(), dir, var->name, var->var_width(), var->size(),
                     PortType::Data, var->is_signed()),
       var_(var) {
     explicit_array_ = var->explicit_array();
-- 
2.43.0


From 0ed58a21d07abeea7a0b114e4917bc1a25837e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:40 +0000
Subject: [PATCH 038/115] fix: copied variables and cloned ports keep their
 shape and parameters

---
 src/generator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/generator.cc b/src/generator.cc
index c2f48b5..edab7e9 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -108,7 +108,7 @@ Var &Generator::var(const Var &v, const std::string &var_name) {
     v_.set_explicit_array(v.explicit_array());
     v_.set_is_packed(v.is_packed());
     // need to copy other definition over
-    v_.copy_meta_data(&v_, true);
+    v.copy_meta_data(&v_, false);
     return v_;
 }
 
@@ -1047,6 +1047,7 @@ std::shared_ptr<Generator> Generator::clone() {
             auto param = generator->get_param(port->width_param()->to_string());
             p.set_width_param(param);
         }
+        p.set_explicit_array(port->explicit_array());
         p.set_is_packed(port->is_packed());
     }
 
@@ -1080,6 +1081,7 @@ void Generator::copy_over_missing_ports(const std::shared_ptr<Generator> &ref) {
                 p.set_width_param(param);
             }
         }
+        p.set_explicit_array(port->explicit_array());
         p.set_is_packed(port->is_packed());
     }
 }
-- 
2.43.0


From a6afbe684fc70ad11777fa9c4bc267a0b5b53052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:03 +0000
Subject: [PATCH 039/115] fix: keywords are not legal names of functions,
 blocks, instances and enum values

---
 src/context.cc   | 3 +++
 src/expr.cc      | 2 ++
 src/generator.cc | 8 ++++++++
 src/stmt.cc      | 5 ++++-
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/context.cc b/src/context.cc
index 22f340f..a170ec4 100644
--- a/src/context.cc
+++ b/src/context.cc
@@ -3,6 +3,7 @@
 #include "except.hh"
 #include "fmt/format.h"
 #include "generator.hh"
+#include "syntax.hh"
 #include "tb.hh"
 
 using fmt::format;
@@ -61,6 +62,8 @@ uint64_t Context::get_hash(const Generator *generator) const {
 }
 
 void Context::change_generator_name(Generator *generator, const std::string &new_name) {
+    if (!is_valid_variable_name(new_name))
+        throw UserException(::format("{0} is a SystemVerilog keyword", new_name));
     if (new_name.empty() || generator->name.empty()) {
         // don't care names
         generator->name = new_name;
diff --git a/src/expr.cc b/src/expr.cc
index 686acd1..5cf4e5e 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -2134,6 +2134,8 @@ Enum::Enum(const std::string &name, const std::map<std::string, uint64_t> &value
         throw UserException(::format("{0} is a SystemVerilog keyword", name));
     }
     for (auto const &[n, value] : values) {
+        if (!is_valid_variable_name(n))
+            throw UserException(::format("{0} is a SystemVerilog keyword", n));
         auto c = std::make_shared<EnumConst>(Const::const_gen(), value, width, this, n);
         this->values.emplace(n, c);
     }
diff --git a/src/generator.cc b/src/generator.cc
index edab7e9..1ac8757 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -409,6 +409,8 @@ IRNode *Generator::get_child(uint64_t index) {
 
 void Generator::add_child_generator(const std::string &instance_name_,
                                     const std::shared_ptr<Generator> &child) {
+    if (!is_valid_variable_name(instance_name_))
+        throw UserException(::format("{0} is a SystemVerilog keyword", instance_name_));
     if (children_.find(instance_name_) == children_.end()) {
         child->instance_name = instance_name_;
         children_.emplace(child->instance_name, child);
@@ -501,6 +503,8 @@ void Generator::rename_child_generator(const std::shared_ptr<Generator> &child,
         throw GeneratorException(
             ::format("{0} doesn't belong to {1}", child->instance_name, instance_name),
             {this, child.get()});
+    if (!is_valid_variable_name(new_name))
+        throw UserException(::format("{0} is a SystemVerilog keyword", new_name));
     if (children_.find(new_name) != children_.end())
         throw GeneratorException(
             ::format("Child instance with name {0} already exists in {1}", new_name, instance_name),
@@ -596,6 +600,8 @@ void Generator::rename_var(const std::string &old_name, const std::string &new_n
     if (!var) return;
     // Using C++17 to replace the key
     if (old_name == new_name) return;
+    if (!is_valid_variable_name(new_name))
+        throw UserException(::format("{0} is a SystemVerilog keyword", new_name));
     if (has_var(new_name))
         throw VarException(::format("{0} already exists in {1}", new_name, name), {var.get()});
     if (ports_.erase(old_name)) ports_.emplace(new_name);
@@ -1315,6 +1321,8 @@ std::optional<std::string> Generator::get_block_name(const Stmt *stmt) const {
 
 void Generator::add_named_block(const std::string &block_name,
                                 const std::shared_ptr<StmtBlock> &block) {
+    if (!is_valid_variable_name(block_name))
+        throw UserException(::format("{0} is a SystemVerilog keyword", block_name));
     if (has_named_block(block_name))
         throw StmtException(::format("{0} already exists in {1}", block_name, name), {block.get()});
     named_blocks_.emplace(block_name, block);
diff --git a/src/stmt.cc b/src/stmt.cc
index 7825cf3..5a46678 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -707,7 +707,10 @@ std::vector<std::shared_ptr<VarSlice>> filter_slice_pairs_with_target(
 FunctionStmtBlock::FunctionStmtBlock(kratos::Generator *parent, std::string function_name)
     : StmtBlock(StatementBlockType::Function),
       parent_(parent),
-      function_name_(std::move(function_name)) {}
+      function_name_(std::move(function_name)) {
+    if (!is_valid_variable_name(function_name_))
+        throw UserException(::format("{0} is a SystemVerilog keyword", function_name_));
+}
 
 void FunctionStmtBlock::create_function_handler(uint32_t width, bool is_signed) {
     if (function_handler_) {
-- 
2.43.0


From a295be6e8c90c915db94c1bd198d26ae3ccb8046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:23 +0000
Subject: [PATCH 040/115] fix: a module name is only known while a module has
 it

---
 src/context.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/context.cc b/src/context.cc
index a170ec4..cd2834d 100644
--- a/src/context.cc
+++ b/src/context.cc
@@ -43,6 +43,7 @@ void Context::remove(Generator *generator) {
     //  2. remove itself from the parent
     auto const &shared_ptr = generator->shared_from_this();
     if (module_set.find(shared_ptr) != module_set.end()) module_set.erase(shared_ptr);
+    if (module_set.empty()) modules_.erase(generator->name);
 }
 
 void Context::add_hash(const Generator *generator, uint64_t hash) {
@@ -85,6 +86,7 @@ void Context::change_generator_name(Generator *generator, const std::string &new
         throw UserException(::format("unable to find generator {0} in context", old_name));
     // we need to erase it
     list.erase(pos);
+    if (list.empty()) modules_.erase(generator->name);
     // change its name and put it to a new list
     generator->name = new_name;
     modules_[new_name].emplace(shared_ptr);
-- 
2.43.0


From 59419058ad6a2d6217744e0d2c647c8a8ab8b0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:23 +0000
Subject: [PATCH 041/115] fix: removing a module that is not a child leaves the
 children alone

---
 src/generator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/generator.cc b/src/generator.cc
index 1ac8757..aee9830 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -443,6 +443,8 @@ Generator *Generator::get_child_generator(const std::string &instance_name_) {
 }
 
 void Generator::remove_child_generator(const std::shared_ptr<Generator> &child) {
+    // another child may have the same instance name
+    if (!has_child_generator(child)) return;
     auto child_name = child->instance_name;
     auto pos = std::find(children_names_.begin(), children_names_.end(), child_name);
     if (pos != children_names_.end()) {
-- 
2.43.0


From e656c4b6593cadad9f61a38fa15ce5c189910247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:56 +0000
Subject: [PATCH 042/115] fix: clones follow the name of the module they
 instantiate

---
 src/context.cc   | 5 +++++
 src/generator.cc | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/context.cc b/src/context.cc
index cd2834d..0f64867 100644
--- a/src/context.cc
+++ b/src/context.cc
@@ -92,6 +92,11 @@ void Context::change_generator_name(Generator *generator, const std::string &new
     modules_[new_name].emplace(shared_ptr);
     // change the cloned names as well
     for (const auto &g : generator->get_clones()) {
+        // clones are not necessarily registered in the context
+        if (modules_.find(g->name) != modules_.end() && modules_.at(g->name).count(g)) {
+            remove(g.get());
+            modules_[new_name].emplace(g);
+        }
         g->name = new_name;
     }
 }
diff --git a/src/generator.cc b/src/generator.cc
index aee9830..6080ebe 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1067,12 +1067,14 @@ std::shared_ptr<Generator> Generator::clone() {
     generator->set_external(true);
     generator->is_cloned_ = true;
     generator->def_instance_ = this;
+    clones_.emplace(generator);
     return generator;
 }
 
 void Generator::set_clone_ref(const std::shared_ptr<Generator> &ref) {
     is_cloned_ = true;
     def_instance_ = ref.get();
+    ref->clones_.emplace(shared_from_this());
     set_external(true);
 }
 
-- 
2.43.0


From 7f78fce94ea1dfb97748159ca0e07fc5ab998942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:59 +0000
Subject: [PATCH 043/115] fix: port type changes check the width and inout
 ports report their connections

---
 src/port.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/port.cc b/src/port.cc
index a931b18..2d67e22 100644
--- a/src/port.cc
+++ b/src/port.cc
@@ -69,7 +69,11 @@ std::shared_ptr<AssignStmt> Port::assign_(const std::shared_ptr<Var>& var,
     return Var::assign_(var, type);
 }
 
-void Port::set_port_type(PortType type) { type_ = type; }
+void Port::set_port_type(PortType type) {
+    if (type != PortType::Data && var_width() > 1)
+        throw UserException(::format("{0}'s width has be 1, got {1}", name, var_width()));
+    type_ = type;
+}
 
 void Port::set_active_high(bool value) {
     if (width() != 1)
@@ -105,8 +109,10 @@ std::unordered_set<std::shared_ptr<Port>> Port::connected_from() const {
 bool Port::connected() const {
     if (port_direction() == PortDirection::In) {
         return !sources().empty();
-    } else {
+    } else if (port_direction() == PortDirection::Out) {
         return !sinks().empty();
+    } else {
+        return !sources().empty() || !sinks().empty();
     }
 }
 
-- 
2.43.0


From b60157494caf38cf2f70be0ee63bd9b1c6b688ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:45 +0000
Subject: [PATCH 044/115] fix: a rejected bundle port is not declared

---
 src/port.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/port.cc b/src/port.cc
index 2d67e22..6c2c6b2 100644
--- a/src/port.cc
+++ b/src/port.cc
@@ -227,7 +227,6 @@ void PortBundleDefinition::add_definition(const std::string& name, uint32_t widt
                                           kratos::PortType type) {
     if (definitions_.find(name) != definitions_.end())
         throw UserException(name + " already exists");
-    definitions_.emplace(name, std::make_tuple(width, size, is_signed, direction, type));
     PortDirection dir;
     if (direction == PortDirection::In) {
         dir = PortDirection::Out;
@@ -236,6 +235,7 @@ void PortBundleDefinition::add_definition(const std::string& name, uint32_t widt
     } else {
         throw UserException("PortBundle doesn't allow inout");
     }
+    definitions_.emplace(name, std::make_tuple(width, size, is_signed, direction, type));
     flipped_definitions_.emplace(name, std::make_tuple(width, size, is_signed, dir, type));
 }
 
-- 
2.43.0


From 312faf80b8adf4ef48f28cd8083d65f073cebd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 045/115] fix: every function call passes exactly the arguments
 the function takes

---
 src/expr.cc | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 5cf4e5e..a387233 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -2384,6 +2384,23 @@ FunctionCallVar::FunctionCallVar(Generator *m, const std::shared_ptr<FunctionStm
             throw VarException(::format("{0}'s sign doesn't match", port_name),
                                {func_port.get(), arg_port.get()});
     }
+    if (func_def->is_builtin()) {
+        // check num of args
+        auto builtin = func_def->as<BuiltInFunctionStmtBlock>();
+        auto [min_arg, max_arg] = builtin->num_args();
+        auto num_arg = args.size();
+        if (num_arg < min_arg || num_arg > max_arg) {
+            throw UserException(fmt::format("Invalid number of arguments to function {0}",
+                                            func_def->function_name()));
+        }
+    } else {
+        for (auto const &[arg_name, arg] : args) {
+            if (ports.find(arg_name) == ports.end())
+                throw VarException(
+                    ::format("{0} doesn't have port {1}", func_def->function_name(), arg_name),
+                    {arg.get()});
+        }
+    }
     // compute the width and sign
     auto handle = func_def->function_handler();
     if (!handle && has_return && !func_def->is_dpi() && !func_def->is_builtin() &&
@@ -2396,14 +2413,7 @@ FunctionCallVar::FunctionCallVar(Generator *m, const std::shared_ptr<FunctionStm
             var_width_ = builtin->return_width();
             size_ = {1};
             is_signed_ = builtin->is_signed();
-            auto [min_arg, max_arg] = builtin->num_args();
-            auto num_arg = args.size();
-            if (num_arg < min_arg || num_arg > max_arg) {
-                throw UserException(fmt::format("Invalid number of arguments to function {0}",
-                                                func_def->function_name()));
-            }
         }
-        // check num of args
     } else if (has_return && func_def->is_dpi()) {
         auto dpi = func_def->as<DPIFunctionStmtBlock>();
         if (dpi->return_width()) {
-- 
2.43.0


From 34730e90e139cc861bc30d4d77835482138012de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 046/115] fix: positional arguments keep their order

---
 src/generator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generator.cc b/src/generator.cc
index 6080ebe..b86633e 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -315,7 +315,8 @@ FunctionCallVar &Generator::call(const std::string &func_name,
         throw UserException("Only built-in function can be called without arg names");
     std::map<std::string, std::shared_ptr<Var>> mock_args;
     for (uint64_t i = 0; i < args.size(); i++) {
-        mock_args.emplace(std::make_pair(std::to_string(i), args[i]));
+        // arguments are ordered by name
+        mock_args.emplace(std::make_pair(::format("{0:010d}", i), args[i]));
     }
     auto p =
         std::make_shared<FunctionCallVar>(this, func_def, mock_args, func_def->has_return_value());
-- 
2.43.0


From bbaf999a23f8c24ab487eafa1e57877e7684d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 047/115] fix: DPI functions of the same name agree on every
 width

---
 src/analysis.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index ef5b047..3622c99 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -1145,9 +1145,8 @@ public:
             // check the return width
             auto* dpi_stmt = dynamic_cast<DPIFunctionStmtBlock*>(stmt);
             if (dpi_stmt->return_width() != ref_stmt->return_width()) {
-                if (ref_ports.size() != ports.size())
-                    throw StmtException("DPI function " + func_name + " has different interface",
-                                        {stmt, ref_stmt});
+                throw StmtException("DPI function " + func_name + " has different interface",
+                                    {stmt, ref_stmt});
             }
             for (auto const& [port_name, port_ref] : ref_ports) {
                 if (ports.find(port_name) == ports.end()) {
@@ -1157,7 +1156,7 @@ public:
                         {port_ref.get()});
                 }
                 auto const& port = ports.at(port_name);
-                if (port->size() != port_ref->size() ||
+                if (port->width() != port_ref->width() || port->size() != port_ref->size() ||
                     port->is_signed() != port_ref->is_signed() ||
                     port->port_direction() != port_ref->port_direction()) {
                     throw VarException(
-- 
2.43.0


From a54a13efe30205af5c22d7027a94255880831800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 048/115] fix: the function header carries the sign of the
 returned value

---
 src/codegen.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 87eec5a..5d5bb43 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -652,10 +652,13 @@ void SystemVerilogCodeGen::stmt_code(kratos::FunctionStmtBlock* stmt) {
         if (stmt->has_return_value()) {
             auto handler = stmt->function_handler();
             auto width = 32u;
+            bool is_signed = false;
             if (handler) {
                 width = handler->width();
+                is_signed = handler->is_signed();
             }
-            return_str = "logic" + get_width_str(width) + " ";
+            return_str =
+                std::string("logic") + (is_signed ? " signed" : "") + get_width_str(width) + " ";
         } else {
             return_str = "void ";
         }
@@ -664,7 +667,7 @@ void SystemVerilogCodeGen::stmt_code(kratos::FunctionStmtBlock* stmt) {
 
     stream_ << stmt->function_name();
     if (stmt->ports().empty()) {
-        stream_ << ";" << std::endl;
+        stream_ << ";" << stream_.endl();
     } else {
         stream_ << "(" << stream_.endl();
     }
-- 
2.43.0


From a537ec2f1c3530d377b0daa7931fec5fd88690de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 049/115] fix: the ports of a function have distinct names

---
 src/stmt.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stmt.cc b/src/stmt.cc
index 5a46678..3aa5b1b 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -724,6 +724,8 @@ void FunctionStmtBlock::create_function_handler(uint32_t width, bool is_signed)
 
 std::shared_ptr<Port> FunctionStmtBlock::input(const std::string &name, uint32_t width,
                                                bool is_signed) {
+    if (ports_.find(name) != ports_.end())
+        throw UserException(::format("{0} already exists in {1}", name, function_name_));
     auto p = std::make_shared<Port>(parent_, PortDirection::In, name, width, 1, PortType::Data,
                                     is_signed);
     ports_.emplace(name, p);
@@ -760,6 +762,8 @@ void FunctionStmtBlock::set_port_ordering(const std::map<uint32_t, std::string>
 
 std::shared_ptr<Port> DPIFunctionStmtBlock::output(const std::string &name, uint32_t width,
                                                    bool is_signed) {
+    if (ports_.find(name) != ports_.end())
+        throw UserException(::format("{0} already exists in {1}", name, function_name_));
     // record the ordering
     port_ordering_.emplace(name, port_ordering_.size());
     auto p = std::make_shared<Port>(parent_, PortDirection::Out, name, width, 1, PortType::Data,
-- 
2.43.0


From 828ed79afd5059583fe735837ea8e68719a1dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 050/115] fix: strip exactly the newlines from a comment

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index aedb506..780505c 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -220,7 +220,7 @@ std::string port_type_to_str(PortType type) {
 
 std::string strip_newline(std::string &str) {
     std::string::size_type pos = 0;
-    while ((pos = str.find('\n', pos) != std::string::npos)) str.erase(pos, 1);
+    while ((pos = str.find('\n', pos)) != std::string::npos) str.erase(pos, 1);
     return str;
 }
 
-- 
2.43.0


From 11787adcee8b1eb742870a754558b3bac5e39285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 051/115] fix: the failure branch of a property assertion is an
 else branch

---
 src/codegen.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codegen.cc b/src/codegen.cc
index 5d5bb43..c084b19 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -760,7 +760,12 @@ void SystemVerilogCodeGen::stmt_code(AssertPropertyStmt* stmt) {
         return;
     stream_ << indent() << action << " property (" << property->property_name() << ")";
     if (stmt->else_() && action_type == PropertyAction::Assert) {
+        stream_ << " else ";
+        // turn off the indent
+        auto temp = indent_;
+        indent_ = 0;
         dispatch_node(stmt->else_().get());
+        indent_ = temp;
     } else {
         stream_ << ';' << stream_.endl();
     }
-- 
2.43.0


From baa3ee3303923eb9bf819e4d4418dd34b67b5215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 052/115] fix: every variable of a sequence is printed the way
 the caller asks for

---
 src/tb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tb.cc b/src/tb.cc
index deff8da..66365cd 100644
--- a/src/tb.cc
+++ b/src/tb.cc
@@ -46,11 +46,11 @@ std::string Sequence::to_string(const std::function<std::string(Var *)> &var_str
     auto wait_str = wait_to_str();
     std::string seq;
     if (wait_str.empty())
-        seq = var_->handle_name(true);
+        seq = var_str(var_);
     else
         seq = ::format("{0} {1}", wait_str, var_str(var_));
     if (next_) {
-        auto next = next_->to_string();
+        auto next = next_->to_string(var_str);
         seq = ::format("{0} |-> {1}", seq, next);
     }
     return seq;
-- 
2.43.0


From 3ba48e5065a3a59e8c5f6c11d735e72e3e54c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 053/115] fix: a package without include guard still starts
 with its header

---
 src/codegen.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index c084b19..6281818 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -1312,9 +1312,9 @@ std::pair<std::string, uint32_t> generate_sv_package_header(Generator* top,
                       [](char& c) { c = static_cast<char>(::toupper(c)); });
         stream << "`ifndef " << guard_name << stream.endl();
         stream << "`define " << guard_name << stream.endl();
-        // package header
-        stream << "package " << package_name << ";" << stream.endl();
     }
+    // package header
+    stream << "package " << package_name << ";" << stream.endl();
 
     // all the information list
     auto info_list = {dpi_info, struct_info, enum_info, interface_info};
-- 
2.43.0


From 8125510bf26d89be7780bfe8f47187ce7f74c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 054/115] fix: a variable whose size is a parameter is an array
 for every value

---
 src/codegen.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 6281818..ae4a73c 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -131,7 +131,8 @@ std::string Stream::get_var_decl(kratos::Var* var) {
     std::vector<std::string> str = {type};
     if (var->is_signed()) str.emplace_back("signed");
     std::string var_width = SystemVerilogCodeGen::get_var_width_str(var);
-    if (var->size().front() > 1 || var->size().size() > 1 || var->explicit_array()) {
+    if (var->size().front() > 1 || var->size().size() > 1 || var->explicit_array() ||
+        var->get_size_param(0)) {
         // it's an array
         if (var->is_packed()) {
             std::string array_str = get_var_size_str(var);
-- 
2.43.0


From 3eb56667988831993f328e9695f7340d625dafa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 055/115] fix: a width expression is evaluated before one is
 subtracted from it

---
 src/codegen.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index ae4a73c..35ff5b4 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -257,7 +257,9 @@ void SystemVerilogCodeGen::generate_module_package_import(Generator* generator)
 std::string SystemVerilogCodeGen::get_var_width_str(const Var* var) {
     std::string width;
     if (var->parametrized()) {
-        width = ::format("{0}-1", var->width_param()->to_string());
+        auto* param = var->width_param();
+        width = ::format(param->type() == VarType::Parameter ? "{0}-1" : "({0})-1",
+                         param->to_string());
     } else {
         width = std::to_string(var->var_width() - 1);
     }
-- 
2.43.0


From cc6dc458d4a5099c72500ccfc126b6c071820198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 056/115] fix: a for loop ends at its bound in the direction it
 counts

---
 src/codegen.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 35ff5b4..7d120cc 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -973,7 +973,7 @@ void SystemVerilogCodeGen::stmt_code(kratos::ForStmt* stmt) {
 
     stream_ << indent() << "for (" << var_decl_str << " = ";
     stream_ << ::format("{0}", stmt->start()) << "; " << stream_.var_str(iter)
-            << (stmt->end() > stmt->start() ? " < " : " > ");
+            << (stmt->step() > 0 ? " < " : " > ");
     stream_ << ::format("{0}", stmt->end()) << "; " << stream_.var_str(iter)
             << (stmt->step() > 0 ? " += " : " -= ");
     stream_ << ::format("{0}", std::abs(stmt->step())) << ") ";
-- 
2.43.0


From 3a7df798ab0d7688e346b2d5a018d1d25dfd327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 057/115] fix: the sign of a struct member precedes its range

---
 src/analysis.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 3622c99..81dcd11 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -1106,8 +1106,8 @@ std::map<std::string, std::string> extract_struct_info(Generator* top) {
         for (auto const& def : struct_->attributes) {
             if (!def.struct_) {
                 std::vector<std::string> str = {"    logic"};
-                if (def.width > 1) str.emplace_back(::format("[{0}:0]", def.width - 1));
                 if (def.signed_) str.emplace_back("signed");
+                if (def.width > 1) str.emplace_back(::format("[{0}:0]", def.width - 1));
                 str.emplace_back(def.name);
                 auto entry_str = string::join(str.begin(), str.end(), " ");
                 entry.append(entry_str + ";\n");
-- 
2.43.0


From abe7a9e2d3fa3ac0aa32c6d08ddc6a305c7bb494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:38 +0000
Subject: [PATCH 058/115] fix: wrapping a line does not change its string
 literals

---
 src/util.cc | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 780505c..db7d1ae 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -384,15 +384,30 @@ std::map<std::string, std::shared_ptr<Port>> get_port_from_verilog(Generator *ge
 
 std::vector<std::string> line_wrap(const std::string &text, uint32_t line_width) {
     // adapted from https://www.rosettacode.org/wiki/Word_wrap#C.2B.2B
-    std::istringstream words(text);
+    // string literals have to stay as they are
+    std::vector<std::string> words;
+    std::string current;
+    bool in_string = false;
+    for (uint64_t i = 0; i < text.size(); i++) {
+        if (in_string && text[i] == '\\' && i + 1 < text.size()) current += text[i++];
+        else if (text[i] == '"') in_string = !in_string;
+        if (!in_string && std::isspace(static_cast<unsigned char>(text[i]))) {
+            if (!current.empty()) words.emplace_back(current);
+            current.clear();
+        } else {
+            current += text[i];
+        }
+    }
+    if (!current.empty()) words.emplace_back(current);
+
     std::vector<std::string> result;
-    std::string word;
     std::string line;
 
-    if (words >> word) {
-        line.append(word);
-        size_t space_left = line_width - word.length();
-        while (words >> word) {
+    if (!words.empty()) {
+        line.append(words[0]);
+        size_t space_left = line_width - words[0].length();
+        for (uint64_t i = 1; i < words.size(); i++) {
+            auto const &word = words[i];
             if (space_left < word.length() + 1) {
                 result.emplace_back(line);
                 line = word;
-- 
2.43.0


From 71540e2c2c1e2090fa1309e679230b4ed19e9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:14 +0000
Subject: [PATCH 059/115] fix: variables of a type parameter or enum are
 declared with that type

---
 src/codegen.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 7d120cc..f2d1f16 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -124,13 +124,18 @@ std::string Stream::get_var_decl(kratos::Var* var) {
         auto* v = dynamic_cast<EnumType*>(var);
         if (!v) throw InternalException("Unable to resolve var to enum type");
         type = v->enum_type()->name;
+    } else if (var->raw_type_parametrized()) {
+        type = var->get_raw_type_param()->to_string();
     } else {
         type = "logic";
     }
 
     std::vector<std::string> str = {type};
     if (var->is_signed()) str.emplace_back("signed");
-    std::string var_width = SystemVerilogCodeGen::get_var_width_str(var);
+    std::string var_width;
+    // enum and raw types already have a width
+    if (!var->is_enum() && !var->raw_type_parametrized())
+        var_width = SystemVerilogCodeGen::get_var_width_str(var);
     if (var->size().front() > 1 || var->size().size() > 1 || var->explicit_array() ||
         var->get_size_param(0)) {
         // it's an array
@@ -147,7 +152,7 @@ std::string Stream::get_var_decl(kratos::Var* var) {
         }
     } else {
         // scalar
-        if (!var_width.empty() && !var->is_enum()) str.emplace_back(var_width);
+        if (!var_width.empty()) str.emplace_back(var_width);
         str.emplace_back(var->name);
     }
 
-- 
2.43.0


From 1d14180844bef8e3c9eab4368ea3059299eee080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:01 +0000
Subject: [PATCH 060/115] fix: visitors see latch blocks

---
 src/stmt.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stmt.hh b/src/stmt.hh
index e565ac7..4ccece9 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -358,6 +358,8 @@ class LatchStmtBlock : public StmtBlock {
 public:
     LatchStmtBlock() : StmtBlock(StatementBlockType::Latch) {}
 
+    void accept(IRVisitor *visitor) override { visitor->visit(this); }
+
     std::shared_ptr<Stmt> clone() const override;
 };
 
-- 
2.43.0


From c3d7726257a736c69ace1c2e58c55a0cd4bd1f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:01 +0000
Subject: [PATCH 061/115] fix: visitors see delay statements

---
 src/stmt.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stmt.hh b/src/stmt.hh
index 4ccece9..50d7f21 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -634,6 +634,8 @@ class EventDelayStmt : public AuxiliaryStmt {
 public:
     explicit EventDelayStmt(EventControl event);
 
+    void accept(IRVisitor *visitor) override { visitor->visit(this); }
+
     const EventControl &event() const { return event_; }
 
 private:
-- 
2.43.0


From 698b53a1bfbc4ad7078c3ab1a613e899cdd6a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:01 +0000
Subject: [PATCH 062/115] fix: the statement graph includes the top-level
 statements

---
 src/graph.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph.cc b/src/graph.cc
index 9832b7d..d1bbd0f 100644
--- a/src/graph.cc
+++ b/src/graph.cc
@@ -182,7 +182,10 @@ void StatementGraph::add_stmt_child(Stmt *stmt) {
 
 void StatementGraph::build_graph() {
     auto stmts = root_->get_all_stmts();
-    for (auto const &stmt : stmts) add_stmt_child(stmt.get());
+    for (auto const &stmt : stmts) {
+        nodes_.emplace(stmt.get(), StmtNode{nullptr, stmt.get(), {}});
+        add_stmt_child(stmt.get());
+    }
 }
 
 PackedStructNode *PackedStructGraph::add_node(const PackedStruct *s) {
-- 
2.43.0


From d061eec7073b6a743a64a7dbfaebaddcb4b84c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 063/115] fix: the statement graph includes the statements of
 functions

---
 src/graph.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/graph.cc b/src/graph.cc
index d1bbd0f..0b579a8 100644
--- a/src/graph.cc
+++ b/src/graph.cc
@@ -186,6 +186,11 @@ void StatementGraph::build_graph() {
         nodes_.emplace(stmt.get(), StmtNode{nullptr, stmt.get(), {}});
         add_stmt_child(stmt.get());
     }
+    for (auto const &iter : root_->functions()) {
+        auto *func = iter.second.get();
+        nodes_.emplace(func, StmtNode{nullptr, func, {}});
+        add_stmt_child(func);
+    }
 }
 
 PackedStructNode *PackedStructGraph::add_node(const PackedStruct *s) {
-- 
2.43.0


From a0ce0ef97e0305c3331f01829a7b59ffbd48c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:33 +0000
Subject: [PATCH 064/115] fix: unassigning releases the variables below slices
 and expressions

---
 src/expr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index a387233..164d673 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -956,8 +956,8 @@ std::shared_ptr<AssignStmt> Var::assign_(const std::shared_ptr<Var> &var, Assign
 
 void Var::unassign(const std::shared_ptr<AssignStmt> &stmt) {
     // we need to take care of the slices
-    stmt->right()->sinks_.erase(stmt);
-    sources_.erase(stmt);
+    stmt->right()->remove_sink(stmt);
+    stmt->left()->remove_source(stmt);
     // erase from parent if any
     // TODO: fix this will proper parent
     generator()->remove_stmt(stmt);
-- 
2.43.0


From f4ec38b19bee15370f0cf9a415971b8a24b6ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:33 +0000
Subject: [PATCH 065/115] fix: moving a variable re-targets casts, conditions
 and every operand of a concatenation

---
 src/expr.cc | 34 +++++++++++++++++++++++++---------
 src/expr.hh |  1 +
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 164d673..5529035 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1601,6 +1601,8 @@ void set_slice_var_parent(Var *&var, Var *target, Var *new_var, bool check_targe
     var = new_var_ptr.get();
 }
 
+void change_operand(Var *&var, Var *target, Var *new_var, bool move_linked);
+
 void change_var_expr(const std::shared_ptr<Expr> &expr, Var *target, Var *new_var,
                      bool move_linked = true) {
     if (!new_var || !target) throw InternalException("Variable is NULL");
@@ -1627,26 +1629,40 @@ void change_var_expr(const std::shared_ptr<Expr> &expr, Var *target, Var *new_va
     if (expr->right && expr->right->type() == VarType::Slice) {
         set_slice_var_parent(expr->right, target, new_var, false);
     }
+    // and what is being casted
+    if (expr->left->type() == VarType::BaseCasted) {
+        change_operand(expr->left, target, new_var, move_linked);
+    }
+    if (expr->right && expr->right->type() == VarType::BaseCasted) {
+        change_operand(expr->right, target, new_var, move_linked);
+    }
     // we did some tricks on the concatenation, need to update them there
     if (expr->op == ExprOp::Concat) {
         auto concat = expr->as<VarConcat>();
-        concat->replace_var(target->shared_from_this(), new_var->shared_from_this());
+        for (auto *&var : concat->vars()) {
+            change_operand(var, target, new_var, move_linked);
+        }
     }
     // need to deal with ternary op as well
     if (expr->op == ExprOp::Conditional) {
         auto ternary = expr->as<ConditionalExpr>();
-        auto *cond = ternary->condition;
-        if (cond->type() == VarType::Expression) {
-            change_var_expr(cond->as<Expr>(), target, new_var);
-        } else if (cond == target) {
-            ternary->condition = new_var;
-        } else if (cond->type() == VarType::Slice) {
-            set_slice_var_parent(cond, target, new_var, false);
-        }
+        change_operand(ternary->condition, target, new_var, move_linked);
     }
     expr->set_parent();
 }
 
+void change_operand(Var *&var, Var *target, Var *new_var, bool move_linked) {
+    if (var == target) {
+        var = new_var;
+    } else if (var->type() == VarType::Slice) {
+        set_slice_var_parent(var, target, new_var, false);
+    } else if (var->type() == VarType::Expression) {
+        change_var_expr(var->as<Expr>(), target, new_var, move_linked);
+    } else if (var->type() == VarType::BaseCasted) {
+        change_operand(var->as<VarCasted>()->parent_var(), target, new_var, move_linked);
+    }
+}
+
 void change_cast_parent(const std::shared_ptr<VarCasted> &var, Var *target, Var *new_var);
 
 void change_var_parent(Var *&var, Var *target, Var *new_var) {
diff --git a/src/expr.hh b/src/expr.hh
index e6ba685..e56841c 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -673,6 +673,7 @@ public:
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override;
 
     const std::vector<Var *> &vars() const { return vars_; }
+    std::vector<Var *> &vars() { return vars_; }
     void replace_var(const std::shared_ptr<Var> &target, const std::shared_ptr<Var> &item);
 
     VarConcat &concat(Var &var) override;
-- 
2.43.0


From e57c6c7e3183adabd0f81b75a8cda17539cfb262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:02 +0000
Subject: [PATCH 066/115] fix: remember where a reset's polarity was first used

---
 src/analysis.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 81dcd11..bc9f61a 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -366,7 +366,7 @@ public:
                         }
                     } else {
                         reset_map_.emplace(std::make_pair(port, reset_high));
-                        reset_map_.emplace(std::make_pair(port, stmt));
+                        reset_stmt_.emplace(std::make_pair(port, stmt));
                     }
                 } else if (port->port_type() == PortType::Reset) {
                     throw VarException(
-- 
2.43.0


From e7d8735cb9870f6a6b2a1bc75491255ca05429f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:02 +0000
Subject: [PATCH 067/115] fix: a case over a wide target is only complete with
 a default

---
 src/analysis.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index bc9f61a..c3c22c4 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -440,14 +440,16 @@ bool check_stmt_condition(Stmt* stmt, const std::function<bool(Stmt*)>& cond,
         // make sure default case is covered
         // if there is no default case, all the cases have to be covered
         // the only exception is that if the target is an enum and we've covered all it's enum case
-        uint32_t targeted_cases;
+        uint64_t targeted_cases;
         if (stmt_->target()->is_enum()) {
             auto* enum_var = dynamic_cast<EnumType*>(stmt_->target().get());
             if (!enum_var) throw InternalException("Unable to resolve enum type");
             auto const* enum_def = enum_var->enum_type();
             targeted_cases = enum_def->values.size();
         } else {
-            targeted_cases = 1u << stmt_->target()->width();
+            // a wide target can't be covered by listing its values
+            auto const target_width = stmt_->target()->width();
+            targeted_cases = target_width < 64 ? 1ull << target_width : ~0ull;
         }
         if (full_branch) {
             return cases.find(nullptr) != cases.end() || found_case == targeted_cases;
-- 
2.43.0


From 15dfb3faf027b9e509f600eb7797fd85975d77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:10 +0000
Subject: [PATCH 068/115] fix: the default of a case is active when no listed
 value matches

---
 src/analysis.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index c3c22c4..81de4d8 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -947,8 +947,7 @@ private:
                 throw StmtException("Incorrect statement block stage", {stmt});
             }
             if (!expr) {
-                // it's the default one. we nor them together
-                std::shared_ptr<Var> or_;
+                // it's the default one: the target is none of the listed values
                 std::vector<std::shared_ptr<Const>> conditions;
                 conditions.reserve(body.size());
                 for (auto const& [cond, stmt_blk] : body) {
@@ -961,13 +960,12 @@ private:
                     [](const std::shared_ptr<Const>& left, const std::shared_ptr<Const>& right) {
                         return left->value() < right->value();
                     });
-                or_ = conditions[0];
-                if (conditions.size() > 1) {
-                    for (uint64_t i = 1; i < conditions.size(); i++) {
-                        or_ = or_->operator||(*conditions[i]).shared_from_this();
-                    }
+                for (auto const& condition : conditions) {
+                    auto differs = switch_->target()->operator!=(*condition).shared_from_this();
+                    expr = expr ? expr->operator&&(*differs).shared_from_this() : differs;
                 }
-                expr = (switch_->target()->operator!=(*or_)).shared_from_this();
+                // with no other case, the default is always active
+                if (!expr) return get_cond(parent_stmt);
             }
         } else {
             return get_cond(parent_stmt);
-- 
2.43.0


From 714019b143e1153cbcf99f7b402a3de6b4a5d71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:42 +0000
Subject: [PATCH 069/115] fix: invert 64-bit values in the evaluator

---
 src/eval.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index a9360a4..e65bc0a 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -6,14 +6,11 @@ namespace kratos {
 auto constexpr UINT64_WIDTH_ = 64;
 
 uint64_t invert(uint64_t value, uint32_t width) {
-    auto v = ~value;
-    v ^= UINT64_MASK << width;
-    return v;
+    return truncate(~value, width);
 }
 
 uint64_t two_complement(uint64_t value, uint32_t width) {
-    uint64_t inverted = invert(value, width) + 1;
-    return inverted & (UINT64_MASK >> (UINT64_WIDTH_ - width));
+    return truncate(invert(value, width) + 1, width);
 }
 
 uint64_t truncate(uint64_t value, uint32_t width) {
-- 
2.43.0


From c40cf8301ba62598e69fd5b19d481459e78c6e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:42 +0000
Subject: [PATCH 070/115] fix: evaluate reductions over the width of their
 operand

---
 src/eval.cc | 4 ++--
 src/sim.cc  | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index e65bc0a..ee9bb0a 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -22,7 +22,7 @@ uint64_t eval_unary_op(uint64_t value, ExprOp op, uint32_t width) {
         case ExprOp::UMinus:
             return two_complement(value, width);
         case ExprOp::UAnd:
-            return static_cast<uint32_t>(__builtin_popcount(value)) == width;
+            return static_cast<uint32_t>(__builtin_popcountll(value)) == width;
         case ExprOp::UInvert:
             return invert(value, width);
         case ExprOp::UNot:
@@ -32,7 +32,7 @@ uint64_t eval_unary_op(uint64_t value, ExprOp op, uint32_t width) {
         case ExprOp::UPlus:
             return value;
         case ExprOp::UXor: {
-            return __builtin_popcount(value) % 2;
+            return __builtin_popcountll(value) % 2;
         }
         default: throw std::runtime_error("Not implemented");
     }
diff --git a/src/sim.cc b/src/sim.cc
index f28177f..0a769ff 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -826,7 +826,8 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                 return std::vector<uint64_t>{result};
             } else {
                 auto left_value = (*left_val)[0];
-                auto result = eval_unary_op(left_value, expr->op, expr->width());
+                // the result of a reduction is one bit wide
+                auto result = eval_unary_op(left_value, expr->op, expr->left->width());
                 return std::vector<uint64_t>{result};
             }
         }
-- 
2.43.0


From 27b19fef02c54ebc4bd04d585878b63c02524938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:42 +0000
Subject: [PATCH 071/115] fix: compare whole operands in the simulator

---
 src/eval.cc | 34 ++++++++++++++--------------------
 src/sim.cc  |  3 ++-
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index ee9bb0a..e9e5430 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -46,6 +46,9 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
     uint64_t right_abs_value = right_negative ? two_complement(right_value, width) : right_value;
     uint64_t signed_bit = static_cast<uint64_t>(left_negative ^ right_negative) << (width - 1);
     auto const mask = UINT64_MASK >> (64u - width);
+    // two's complement values of the same sign are ordered like unsigned ones
+    bool less_than =
+        left_negative == right_negative ? left_value < right_value : left_negative;
     uint64_t result;
     switch (op) {
         case ExprOp::Add:
@@ -77,29 +80,20 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
         case ExprOp::Power:
             result = static_cast<uint64_t>(std::pow(left_value, right_value));
             break;
+        case ExprOp::Neq:
+            result = left_value != right_value;
+            break;
+        case ExprOp::LessThan:
+            result = less_than;
+            break;
         case ExprOp::GreaterEqThan:
-            result = left_abs_value >= right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? false
-                         : !left_negative && right_negative ? true : result ^ left_negative;
+            result = !less_than;
             break;
-        case ExprOp::LessEqThan:
-            result = left_abs_value <= right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? true
-                         : !left_negative && right_negative ? false : result ^ left_negative;
+        case ExprOp::GreaterThan:
+            result = !less_than && left_value != right_value;
             break;
-        case ExprOp::LessThan:
-            result = left_abs_value < right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? true
-                         : !left_negative && right_negative ? false : result ^ left_negative;
-            break;
-        case ExprOp ::GreaterThan:
-            result = left_abs_value > right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? false
-                         : !left_negative && right_negative ? true : result ^ left_negative;
+        case ExprOp::LessEqThan:
+            result = less_than || left_value == right_value;
             break;
         case ExprOp::SignedShiftRight:
             result = left_abs_value >> right_value;
diff --git a/src/sim.cc b/src/sim.cc
index 0a769ff..9b3658d 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -821,7 +821,8 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                 if ((*right_val).size() > 1) throw std::runtime_error("Not implemented");
                 auto left_value = (*left_val)[0];
                 auto right_value = (*right_val)[0];
-                auto result = eval_bin_op(left_value, right_value, expr->op, expr->width(),
+                // a comparison is one bit wide, but it compares the whole operands
+                auto result = eval_bin_op(left_value, right_value, expr->op, expr->left->width(),
                                           expr->is_signed());
                 return std::vector<uint64_t>{result};
             } else {
-- 
2.43.0


From f27f531dca945fe2e6ea8b66bd51c617c0f55684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:42 +0000
Subject: [PATCH 072/115] fix: evaluate modulo, logical operators and division
 by zero

---
 src/eval.cc | 11 +++++++++++
 src/sim.cc  |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/src/eval.cc b/src/eval.cc
index e9e5430..c4410f4 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -65,6 +65,17 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
             result = left_abs_value / right_abs_value;
             if (signed_bit) result = two_complement(result, width);
             break;
+        case ExprOp::Mod:
+            // the result takes the sign of the first operand
+            result = left_abs_value % right_abs_value;
+            if (left_negative) result = two_complement(result, width);
+            break;
+        case ExprOp::LAnd:
+            result = left_value && right_value;
+            break;
+        case ExprOp::LOr:
+            result = left_value || right_value;
+            break;
         case ExprOp::And:
             result = left_value & right_value;
             break;
diff --git a/src/sim.cc b/src/sim.cc
index 9b3658d..39bf33e 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -821,6 +821,9 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                 if ((*right_val).size() > 1) throw std::runtime_error("Not implemented");
                 auto left_value = (*left_val)[0];
                 auto right_value = (*right_val)[0];
+                // the result of a division by zero is unknown
+                if ((expr->op == ExprOp::Divide || expr->op == ExprOp::Mod) && right_value == 0)
+                    return std::nullopt;
                 // a comparison is one bit wide, but it compares the whole operands
                 auto result = eval_bin_op(left_value, right_value, expr->op, expr->left->width(),
                                           expr->is_signed());
-- 
2.43.0


From 93f5c09ebc21cd041fce74a2c6cd7d740bf7be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:42 +0000
Subject: [PATCH 073/115] fix: exact shifts and powers in the evaluator

---
 src/eval.cc | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index c4410f4..97e6989 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -1,5 +1,4 @@
 #include "eval.hh"
-#include <cmath>
 
 namespace kratos {
 
@@ -38,6 +37,14 @@ uint64_t eval_unary_op(uint64_t value, ExprOp op, uint32_t width) {
     }
 }
 
+static uint64_t power(uint64_t base, uint64_t exponent) {
+    uint64_t result = 1;
+    for (; exponent; exponent >>= 1u, base *= base) {
+        if (exponent & 1u) result *= base;
+    }
+    return result;
+}
+
 uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint32_t width,
                      bool signed_) {
     bool left_negative = signed_ && left_value >> (width - 1);
@@ -89,7 +96,14 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
             result = left_value == right_value;
             break;
         case ExprOp::Power:
-            result = static_cast<uint64_t>(std::pow(left_value, right_value));
+            result = power(left_value, right_value);
+            // only one and minus one have a non-zero integer power for a negative exponent
+            if (right_negative) {
+                if (left_value == mask)
+                    result = right_value % 2 ? mask : 1;
+                else
+                    result = left_value == 1;
+            }
             break;
         case ExprOp::Neq:
             result = left_value != right_value;
@@ -107,11 +121,18 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
             result = less_than || left_value == right_value;
             break;
         case ExprOp::SignedShiftRight:
-            result = left_abs_value >> right_value;
-            if (left_negative) result |= UINT64_MASK << (width - 1 - right_value);
+            // shift in copies of the sign bit
+            if (right_value >= width)
+                result = left_negative ? mask : 0;
+            else
+                result = left_value >> right_value;
+            if (left_negative && right_value < width) result |= ~(mask >> right_value);
             break;
         case ExprOp::LogicalShiftRight:
-            result = left_value >> right_value;
+            result = right_value >= width ? 0 : left_value >> right_value;
+            break;
+        case ExprOp::ShiftLeft:
+            result = right_value >= width ? 0 : left_value << right_value;
             break;
         default: {
             throw std::runtime_error("Not implemented");
-- 
2.43.0


From 412f346da66fe30a0ac178a52f3a45155f437294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:16 +0000
Subject: [PATCH 074/115] fix: sign extend from the sign bit of the operand in
 the simulator

---
 src/sim.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 39bf33e..130cade 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -794,10 +794,10 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                     throw std::runtime_error("Not implemented");
                 }
                 auto v = (*value)[0];
-                if (v >> (var->width() - 1)) {
+                if (v >> (base_var->width() - 1)) {
                     // do a signed extension
                     for (uint32_t i = base_var->width(); i < var->width(); i++) {
-                        v |= 1u << i;
+                        v |= 1ull << i;
                     }
                 }
                 return std::vector<uint64_t>{v};
-- 
2.43.0


From ce14b491e02956b5b11795650787066498b9e505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:16 +0000
Subject: [PATCH 075/115] fix: only the selected operand of a conditional has
 to be known

---
 src/sim.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 130cade..3e2d023 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -805,17 +805,17 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                 return value;
             }
         } else {
-            auto left_val = get_complex_value_(expr->left);
-            if (!left_val) return left_val;
-            auto right_val = get_complex_value_(expr->right);
             if (is_ternary_op(expr->op)) {
                 auto const *cond = reinterpret_cast<const ConditionalExpr *>(expr);
                 auto predicate_val = get_complex_value_(cond->condition);
-                if (!predicate_val) return right_val;
-                bool c = (*predicate_val)[0];
-                auto result = eval_ternary_op(c, (*left_val)[0], (*right_val)[0], expr->width());
-                return std::vector<uint64_t>{result};
-            } else if (!is_unary_op(expr->op)) {
+                if (!predicate_val) return std::nullopt;
+                // only the selected operand has to be known
+                return get_complex_value_((*predicate_val)[0] ? expr->left : expr->right);
+            }
+            auto left_val = get_complex_value_(expr->left);
+            if (!left_val) return left_val;
+            auto right_val = get_complex_value_(expr->right);
+            if (!is_unary_op(expr->op)) {
                 if (!right_val) return std::nullopt;
                 if ((*left_val).size() > 1) throw std::runtime_error("Not implemented");
                 if ((*right_val).size() > 1) throw std::runtime_error("Not implemented");
-- 
2.43.0


From 487f02d5dfe835cde739e3b99bee1e9015b12db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:16 +0000
Subject: [PATCH 076/115] fix: values of slices in the simulator

---
 src/sim.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 3e2d023..956d838 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -219,7 +219,7 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
         auto const *root = var->get_var_root_parent();
         std::vector<uint64_t> values;
         if (root->type() == VarType::ConstValue || root->type() == VarType::Parameter) {
-            auto value = get_value_(var);
+            auto value = get_value_(root);
             if (!value)
                 throw InternalException(
                     ::format("Unable to get value for {0}", var->handle_name()));
@@ -244,7 +244,7 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
         auto low = var_low % root->var_width();
         auto high = var_high % root->var_width();
         auto value = values[base];
-        return (value >> low) & (~(0xFFFFFFFFFFFFFFFF << (high + 1)));
+        return truncate(value >> low, high - low + 1);
     } else {
         // function call
         if (var->is_function()) {
-- 
2.43.0


From 12152dfd3113f6c8e6c64df61e34906256193e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:16 +0000
Subject: [PATCH 077/115] fix: only write the bits of a slice in the simulator

---
 src/sim.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 956d838..c04663d 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -279,6 +279,8 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
     } else if (var->type() == VarType::Slice) {
         auto const *root = var->get_var_root_parent();
         std::vector<uint64_t *> values;
+        bool const known = values_.find(root) != values_.end() ||
+                           complex_values_.find(root) != complex_values_.end();
         if (root->type() == VarType::ConstValue || root->type() == VarType::Parameter) {
             throw UserException(::format("Cannot set value for constant {0}", var->handle_name()));
         } else if (root->size().size() == 1 && root->size().front() == 1) {
@@ -312,16 +314,18 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
         auto *v = values[base];
         auto temp = *v;
         // compute the mask
-        uint64_t mask = (0xFFFFFFFFFFFFFFFF >> (var_high + 1)) >> var_low;
+        auto const slice_width = var_high - var_low + 1;
+        uint64_t mask = truncate(UINT64_MASK, slice_width) << var_low;
         *v = *v & (~mask);
-        value = value & (0xFFFFFFFFFFFFFFFF >> (var_high - var_low + 1));
+        value = truncate(value, slice_width);
         *v = *v | (value << var_low);
-        if (*v != temp) {
+        // every bit of the slice changes when nothing was known before
+        uint64_t m = known ? (*v) ^ temp : mask;
+        if (m) {
             std::unordered_set<uint32_t> changed_bits;
-            uint64_t m = (*v) ^ temp;
-            for (uint32_t bit = 0; bit < root->width(); bit++) {
+            for (uint32_t bit = 0; bit < root->var_width(); bit++) {
                 if ((m >> bit) & 1u) {
-                    changed_bits.emplace(bit);
+                    changed_bits.emplace(bit + base * root->var_width());
                 }
             }
             trigger_event(root, changed_bits);
-- 
2.43.0


From 6b15ba2e89f7c1a3bbf19fbf6339e3442dd559a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:00 +0000
Subject: [PATCH 078/115] fix: only read the elements of an array slice in the
 simulator

---
 src/sim.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.cc b/src/sim.cc
index c04663d..10e316f 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -374,7 +374,7 @@ std::optional<std::vector<uint64_t>> Simulator::get_complex_value_(const kratos:
         // compute the slice range
         auto low = var_low / root->var_width();
         auto high = var_high / root->var_width();
-        return std::vector<uint64_t>(values.begin() + low, values.end() + high + 1);
+        return std::vector<uint64_t>(values.begin() + low, values.begin() + high + 1);
     } else {
         if (complex_values_.find(var) == complex_values_.end()) return std::nullopt;
         return complex_values_.at(var);
-- 
2.43.0


From 0c2914b48007b8c9257c24685f58a64eff1bc25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:00 +0000
Subject: [PATCH 079/115] fix: write the elements of an array slice in the
 simulator

---
 src/sim.cc | 41 +++++++++++++----------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 10e316f..708a667 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -403,19 +403,11 @@ void Simulator::set_complex_value_(const kratos::Var *var,
         if (var_low % root->var_width() != 0 ||
             (var_high % root->var_width() != root->var_width() - 1))
             throw InternalException("Misaligned vector slicing");
-        low = var_low;
-        high = var_high;
-        if (root->size().size() == 1 && root->size().front() == 1) {
-            // this is size one
-            if (values_.find(root) == values_.end()) values_[root] = 0;
-            values = {&values_.at(root)};
-        } else {
-            for (uint32_t s : root->size()) {
-                base *= s;
-            }
-            std::vector<uint64_t> &v_ref = complex_values_.at(root);
-            values.reserve(base);
-            for (uint64_t i = 0; i < base; i++) values.emplace_back(&v_ref[i]);
+        // in elements
+        low = var_low / root->var_width();
+        high = var_high / root->var_width();
+        for (uint32_t s : root->size()) {
+            base *= s;
         }
     } else {
         for (uint32_t s : var->size()) {
@@ -430,20 +422,13 @@ void Simulator::set_complex_value_(const kratos::Var *var,
         // whatever bits changed
         // fill in values
         fill_in = true;
-        if (complex_values_.find(fill_var) == complex_values_.end()) {
-            // fill in values
-            std::vector<uint64_t> v(base);
-            for (uint64_t i = 0; i < base; i++) v[i] = 0;
-            complex_values_.emplace(var, v);
-        }
+        complex_values_.emplace(fill_var, std::vector<uint64_t>(base, 0));
     }
 
-    // get values
-    if (var->type() != VarType::Slice) {
-        values.reserve(base);
-        auto &v_ref = complex_values_.at(var);
-        for (uint64_t i = 0; i < base; i++) values.emplace_back(&v_ref[i]);
-    }
+    // get the elements that are written
+    auto &v_ref = complex_values_.at(fill_var);
+    values.reserve(high - low + 1);
+    for (uint64_t i = low; i <= high; i++) values.emplace_back(&v_ref[i]);
 
     if (values.size() != value.size()) {
         // expand the value to if the target is packed
@@ -465,13 +450,13 @@ void Simulator::set_complex_value_(const kratos::Var *var,
     std::unordered_set<uint32_t> changed_bits;
     uint32_t var_width = fill_var->var_width();
 
-    for (uint32_t i = low; i <= high; i++) {
+    for (uint32_t i = 0; i < values.size(); i++) {
         if (*(values[i]) != value[i] || fill_in) {
-            uint32_t bit_mask = (*values[i]) ^ value[i];
+            uint64_t bit_mask = (*values[i]) ^ value[i];
             *(values[i]) = value[i];
             for (uint32_t bit = 0; bit < var_width; bit++) {
                 if ((bit_mask >> bit) & 1u || fill_in) {
-                    changed_bits.emplace(bit + var_width * i);
+                    changed_bits.emplace(bit + var_width * (i + low));
                 }
             }
         }
-- 
2.43.0


From f6e2873d37fec0d58558dd201787129ed5de8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:00 +0000
Subject: [PATCH 080/115] fix: split values by the width of the elements in the
 simulator

---
 src/sim.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 708a667..6d08bfb 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -440,7 +440,7 @@ void Simulator::set_complex_value_(const kratos::Var *var,
             std::vector<uint64_t> v_(values.size());
             for (uint64_t i = 0; i < values.size(); i++) {
                 auto w = fill_var->var_width();
-                v_[i] = (v >> (w * i)) & (~(UINT64_MASK << w));
+                v_[i] = w * i < 64 ? truncate(v >> (w * i), w) : 0;
             }
             value = v_;
         } else {
@@ -571,7 +571,7 @@ void Simulator::set_i(const kratos::Var *var, const std::optional<std::vector<in
         u_vs.reserve(vs.size());
         for (auto v : vs) {
             auto u_v = *(reinterpret_cast<uint64_t *>(&v));
-            u_v = truncate(u_v, var->width());
+            u_v = truncate(u_v, var->var_width());
             u_vs.emplace_back(u_v);
         }
         set_complex_value_(var, u_vs);
-- 
2.43.0


From 68456b1ad77d38d502f25a816f73052ac9aaab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:00 +0000
Subject: [PATCH 081/115] fix: compare every bit of a case label in the
 simulator

---
 src/sim.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.cc b/src/sim.cc
index 6d08bfb..4cd5f05 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -665,7 +665,7 @@ void Simulator::process_stmt(kratos::SwitchStmt *switch_, const Var *var) {
             int64_t cond_val = cond->value();
             int64_t *v_p = &cond_val;
             uint64_t bits = *(reinterpret_cast<uint64_t *>(v_p));
-            bits &= (0xFFFFFFFFFFFFFFFF >> target->width());
+            bits = truncate(bits, target->width());
             if (value == bits) {
                 process_stmt(stmt.get(), var);
                 return;
-- 
2.43.0


From 75a15b019512ad3290833fd8f96c23a60856f904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:00 +0000
Subject: [PATCH 082/115] fix: out of range elements in the simulator

---
 src/sim.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sim.cc b/src/sim.cc
index 4cd5f05..a45cae3 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -240,6 +240,8 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
         auto const [var_high, var_low] = compute_var_high_low(root, index);
         if (var_high + 1 - var_low > root->width())
             throw InternalException("Unable to resolve variable slicing");
+        // what is out of range is unknown
+        if (var_high >= root->width()) return std::nullopt;
         auto base = var_low / root->var_width();
         auto low = var_low % root->var_width();
         auto high = var_high % root->var_width();
@@ -308,6 +310,8 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
         auto [var_high, var_low] = compute_var_high_low(root, index);
         if (var_high + 1 - var_low > root->width())
             throw InternalException("Unable to resolve variable slicing");
+        // there is nothing to write out of range
+        if (var_high >= root->width()) return;
         auto base = var_low / root->var_width();
         var_high = var_high - base * root->var_width();
         var_low = var_low - base * root->var_width();
@@ -369,6 +373,7 @@ std::optional<std::vector<uint64_t>> Simulator::get_complex_value_(const kratos:
         if (var_low % root->var_width() != 0 ||
             (var_high % root->var_width() != root->var_width() - 1))
             throw InternalException("Misaligned vector slicing");
+        if (var_high >= root->width()) return std::nullopt;
         if (complex_values_.find(root) == complex_values_.end()) return std::nullopt;
         auto values = complex_values_.at(root);
         // compute the slice range
@@ -403,6 +408,7 @@ void Simulator::set_complex_value_(const kratos::Var *var,
         if (var_low % root->var_width() != 0 ||
             (var_high % root->var_width() != root->var_width() - 1))
             throw InternalException("Misaligned vector slicing");
+        if (var_high >= root->width()) return;
         // in elements
         low = var_low / root->var_width();
         high = var_high / root->var_width();
-- 
2.43.0


From f6b9d184c2e6dfa2b3679c81282b179660328b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:34 +0000
Subject: [PATCH 083/115] fix: values in the simulator are as wide as their
 variable

---
 src/eval.cc | 2 +-
 src/sim.cc  | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index 97e6989..5f0bb3e 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -13,7 +13,7 @@ uint64_t two_complement(uint64_t value, uint32_t width) {
 }
 
 uint64_t truncate(uint64_t value, uint32_t width) {
-    return value & (UINT64_MASK >> (UINT64_WIDTH_ - width));
+    return width < UINT64_WIDTH_ ? value & (UINT64_MASK >> (UINT64_WIDTH_ - width)) : value;
 }
 
 uint64_t eval_unary_op(uint64_t value, ExprOp op, uint32_t width) {
diff --git a/src/sim.cc b/src/sim.cc
index a45cae3..61d47dc 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -201,13 +201,13 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
 
     if (var->type() == VarType::Parameter) {
         auto const *param = reinterpret_cast<const Param *>(var);
-        return param->value();
+        return truncate(param->value(), param->width());
     } else if (var->type() == VarType::ConstValue) {
         auto const *const_ = reinterpret_cast<const Const *>(var);
         if (const_->is_bignum())
             throw InternalException("Big number evaluation not supported. Got " +
                                     const_->to_string());
-        return const_->value();
+        return truncate(const_->value(), const_->width());
     } else if (var->type() == VarType::Expression) {
         auto result = eval_expr(var);
         if (result) {
@@ -335,6 +335,7 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
             trigger_event(root, changed_bits);
         }
     } else {
+        value = truncate(value, var->width());
         std::unordered_set<uint32_t> changed_bits;
         if (values_.find(var) != values_.end()) {
             auto temp = values_.at(var);
@@ -724,6 +725,10 @@ uint64_t Simulator::static_evaluate_expr(Var *expr) {
     if (!result || (*result).size() != 1)
         throw UserException(::format("Unable to static elaborate value {0}", expr->to_string()));
     auto value = static_cast<int64_t>((*result)[0]);
+    if (expr->is_signed() && expr->width() < 64) {
+        auto const sign_bit = static_cast<int64_t>(1ull << (expr->width() - 1));
+        value = (value ^ sign_bit) - sign_bit;
+    }
     if (value <= 0)
         throw UserException(::format("Unable to static elaborate value {0}", expr->to_string()));
     return static_cast<uint64_t>(value);
-- 
2.43.0


From 33e586a085fa770cc0db8a0e3c6a37152c821da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:34 +0000
Subject: [PATCH 084/115] fix: don't evaluate expressions that are too wide in
 the simulator

---
 src/sim.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sim.cc b/src/sim.cc
index 61d47dc..79854fa 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -767,6 +767,8 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
         const auto *expr = reinterpret_cast<const Expr *>(var);
         // there are couple special ones
         if (expr->op == ExprOp::Concat) {
+            // wider values are not supported
+            if (expr->width() > 64) return std::nullopt;
             const auto *var_concat = reinterpret_cast<const VarConcat *>(expr);
             auto vars = std::vector<Var *>(var_concat->vars().begin(), var_concat->vars().end());
             std::reverse(vars.begin(), vars.end());
@@ -812,6 +814,8 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                 // only the selected operand has to be known
                 return get_complex_value_((*predicate_val)[0] ? expr->left : expr->right);
             }
+            // wider values are not supported
+            if (expr->left->width() > 64) return std::nullopt;
             auto left_val = get_complex_value_(expr->left);
             if (!left_val) return left_val;
             auto right_val = get_complex_value_(expr->right);
-- 
2.43.0


From 6113ffced001377e9462b76fdbb262e254a1bc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:34 +0000
Subject: [PATCH 085/115] fix: commit non-blocking assignments after all the
 active events

---
 src/sim.cc | 17 +++++++++--------
 src/sim.hh |  3 ++-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 79854fa..36d5cfe 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -532,7 +532,14 @@ void Simulator::trigger_event(const kratos::Var *var,
 
 void Simulator::eval() {
     simulation_depth_ = 0;
-    while (!event_queue_.empty()) {
+    while (!event_queue_.empty() || !nba_values_.empty()) {
+        if (event_queue_.empty()) {
+            // every block has used the old values. the nba region is next
+            auto const nba_values = std::move(nba_values_);
+            nba_values_.clear();
+            for (auto const &[var, value] : nba_values) set_complex_value_(var, value);
+            continue;
+        }
         if (simulation_depth_ > MAX_SIMULATION_DEPTH) {
             throw UserException("Simulation doesn't converge");
         }
@@ -626,7 +633,7 @@ void Simulator::process_stmt(kratos::AssignStmt *stmt, const Var *) {
         if (stmt->assign_type() != AssignmentType::NonBlocking)
             set_complex_value_(stmt->left(), val);
         else
-            nba_values_.emplace(stmt->left(), *val);
+            nba_values_.emplace_back(stmt->left(), *val);
     }
 }
 
@@ -708,12 +715,6 @@ void Simulator::process_stmt(kratos::SequentialStmtBlock *block, const Var *var_
     }
     if (!trigger) return;
     process_stmt(reinterpret_cast<StmtBlock *>(block), var_);
-
-    for (auto const &[var, value] : nba_values_) {
-        set_complex_value_(var, value);
-    }
-    // clear the nba regions
-    nba_values_.clear();
 }
 
 uint64_t Simulator::static_evaluate_expr(Var *expr) {
diff --git a/src/sim.hh b/src/sim.hh
index 848d414..2ee6e2b 100644
--- a/src/sim.hh
+++ b/src/sim.hh
@@ -51,7 +51,8 @@ private:
     void process_stmt(CombinationalStmtBlock *block, const Var *);
     void process_stmt(SequentialStmtBlock *block, const Var *var);
 
-    std::unordered_map<Var *, std::vector<uint64_t>> nba_values_;
+    // assigned together once all the active events are processed, in the order of the statements
+    std::vector<std::pair<Var *, std::vector<uint64_t>>> nba_values_;
 
     // pull-up registers
     void init_pull_up_value(Generator *generator);
-- 
2.43.0


From 704775266861fd2807d58d90c79b8429ac332883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:20 +0000
Subject: [PATCH 086/115] fix: track every slice that contains a bit in the
 simulator

---
 src/sim.cc | 53 +++++++++++++++++++++++++++--------------------------
 src/sim.hh |  4 +++-
 2 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 36d5cfe..62f5c94 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -11,6 +11,17 @@ using fmt::format;
 
 namespace kratos {
 
+// for each bit of a variable, the slices that contain it
+using LinkedDep = std::unordered_map<const Var *, LinkedBits>;
+
+static void merge_linked_dep(LinkedDep &dst, const LinkedDep &src) {
+    for (auto const &[var, bits] : src) {
+        for (auto const &[bit, slices] : bits) {
+            dst[var][bit].insert(slices.begin(), slices.end());
+        }
+    }
+}
+
 class DependencyVisitor : public IRVisitor {
 public:
     DependencyVisitor() = default;
@@ -36,11 +47,11 @@ public:
         }
     }
     using DepSet = std::pair<std::unordered_set<const Var *>,
-                             std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>>>;
+                             LinkedDep>;
 
     static DepSet get_dep(Var *var) {
         std::unordered_set<const Var *> deps;
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_deps;
+        LinkedDep linked_deps;
         get_var_deps(var, deps, linked_deps);
         return {deps, linked_deps};
     }
@@ -49,23 +60,21 @@ public:
         return dependency_;
     }
 
-    const std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_dependency()
+    const LinkedDep &linked_dependency()
         const {
         return linked_dependency_;
     }
 
 private:
     std::unordered_map<const Var *, std::unordered_set<Stmt *>> dependency_;
-    std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_dependency_;
+    LinkedDep linked_dependency_;
 
     void visit_block(CombinationalStmtBlock *block) {
         CombinationBlockVisitor visitor;
         visitor.visit_root(block);
         auto const &vars = visitor.vars();
         for (auto const &var : vars) dependency_[var].emplace(block);
-        for (auto const &[var, entry] : visitor.linked_vars()) {
-            linked_dependency_[var].insert(entry.begin(), entry.end());
-        }
+        merge_linked_dep(linked_dependency_, visitor.linked_vars());
     }
 
     void visit_block(SequentialStmtBlock *block) {
@@ -78,9 +87,7 @@ private:
     void visit_assign(AssignStmt *assign) {
         auto const &[dep, linked] = get_dep(assign->right());
         for (auto const &v : dep) dependency_[v].emplace(assign);
-        for (auto const &[var, entry] : linked) {
-            linked_dependency_[var].insert(entry.begin(), entry.end());
-        }
+        merge_linked_dep(linked_dependency_, linked);
     }
 
     void visit_module_instantiation(ModuleInstantiationStmt *stmt) {
@@ -92,7 +99,7 @@ private:
 
     void static get_var_deps(
         Var *var, std::unordered_set<const Var *> &dep,
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_dep) {
+        LinkedDep &linked_dep) {
         switch (var->type()) {
             case VarType::Base:
             case VarType::PortIO: {
@@ -122,12 +129,12 @@ private:
 
     static void compute_linked_dep(
         VarSlice *slice,
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_dep) {
+        LinkedDep &linked_dep) {
         auto var_high = slice->var_high();
         auto var_low = slice->var_low();
         auto *root = slice->get_var_root_parent();
         for (uint32_t i = var_low; i <= var_high; i++) {
-            linked_dep[root].emplace(i, slice);
+            linked_dep[root][i].emplace(slice);
         }
         // if indexed by a var
         if (slice->sliced_by_var()) {
@@ -137,7 +144,7 @@ private:
             var_low = p->var_low();
             root = p->get_var_root_parent();
             for (uint32_t i = var_low; i <= var_high; i++) {
-                linked_dep[root].emplace(i, slice);
+                linked_dep[root][i].emplace(slice);
             }
         }
     }
@@ -148,36 +155,30 @@ private:
             auto predicate = stmt->predicate();
             auto const &[dep, linked] = DependencyVisitor::get_dep(predicate.get());
             for (auto const &var : dep) vars_.emplace(var);
-            for (auto const &[var, entry] : linked) {
-                linked_vars_[var].insert(entry.begin(), entry.end());
-            }
+            merge_linked_dep(linked_vars_, linked);
         }
 
         void visit(SwitchStmt *stmt) override {
             auto target = stmt->target();
             auto const &[dep, linked] = DependencyVisitor::get_dep(target.get());
             for (auto const &var : dep) vars_.emplace(var);
-            for (auto const &[var, entry] : linked) {
-                linked_vars_[var].insert(entry.begin(), entry.end());
-            }
+            merge_linked_dep(linked_vars_, linked);
         }
 
         void visit(AssignStmt *stmt) override {
             auto const &[dep, linked] = DependencyVisitor::get_dep(stmt->right());
             for (auto const &var : dep) vars_.emplace(var);
-            for (auto const &[var, entry] : linked) {
-                linked_vars_[var].insert(entry.begin(), entry.end());
-            }
+            merge_linked_dep(linked_vars_, linked);
         }
 
         std::unordered_set<const Var *> &vars() { return vars_; }
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_vars() {
+        LinkedDep &linked_vars() {
             return linked_vars_;
         }
 
     private:
         std::unordered_set<const Var *> vars_;
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_vars_;
+        LinkedDep linked_vars_;
     };
 };
 
@@ -512,7 +513,7 @@ void Simulator::trigger_event(const kratos::Var *var,
         auto const &vars = linked_dependency_.at(root);
         std::unordered_set<Var *> vs;
         for (const auto &[bit, v] : vars) {
-            if (bits_mask.find(bit) != bits_mask.end()) vs.emplace(v);
+            if (bits_mask.find(bit) != bits_mask.end()) vs.insert(v.begin(), v.end());
         }
 
         for (auto const &v : vs) {
diff --git a/src/sim.hh b/src/sim.hh
index 2ee6e2b..035c52b 100644
--- a/src/sim.hh
+++ b/src/sim.hh
@@ -6,6 +6,8 @@
 
 namespace kratos {
 constexpr uint64_t MAX_SIMULATION_DEPTH = 0xFFFFFFFF;
+using LinkedBits = std::unordered_map<uint32_t, std::unordered_set<Var *>>;
+
 class Simulator {
 public:
     explicit Simulator(Generator *generator);
@@ -35,7 +37,7 @@ private:
     std::queue<std::pair<const Var *, Stmt *>> event_queue_;
     std::unordered_map<const Var *, std::unordered_set<Stmt *>> dependency_;
     // linked dependency is for partial updates
-    std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_dependency_;
+    std::unordered_map<const Var *, LinkedBits> linked_dependency_;
     // this is prevent self triggering in always block
     std::unordered_set<Stmt *> scope_;
 
-- 
2.43.0


From 76b412b8bf4f941f1cd02062b653faff1bebb45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:20 +0000
Subject: [PATCH 087/115] fix: conditions and concatenated operands trigger an
 update in the simulator

---
 src/sim.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sim.cc b/src/sim.cc
index 62f5c94..9636a23 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -108,6 +108,15 @@ private:
             }
             case VarType ::Expression: {
                 auto const &expr = reinterpret_cast<Expr *>(var);
+                if (expr->op == ExprOp::Concat) {
+                    auto const *concat = reinterpret_cast<VarConcat *>(expr);
+                    for (auto *v : concat->vars()) get_var_deps(v, dep, linked_dep);
+                    break;
+                }
+                if (expr->op == ExprOp::Conditional) {
+                    auto const *cond = reinterpret_cast<ConditionalExpr *>(expr);
+                    get_var_deps(cond->condition, dep, linked_dep);
+                }
                 get_var_deps(expr->left, dep, linked_dep);
                 if (expr->right) {
                     get_var_deps(expr->right, dep, linked_dep);
-- 
2.43.0


From 6b6af0eb89ed4dcc9b3b6412e0018d7a41fdd958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:46 +0000
Subject: [PATCH 088/115] fix: the operands of casts and indices trigger an
 update in the simulator

---
 src/sim.cc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 9636a23..af2e2be 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -123,11 +123,15 @@ private:
                 }
                 break;
             }
-            case VarType::BaseCasted:
+            case VarType::BaseCasted: {
+                get_var_deps(reinterpret_cast<VarCasted *>(var)->parent_var(), dep, linked_dep);
+                break;
+            }
             case VarType ::Slice: {
                 // compute linked dependency
                 compute_linked_dep(reinterpret_cast<VarSlice *>(var), linked_dep);
                 dep.emplace(var);
+                get_index_deps(var, dep, linked_dep);
                 break;
             }
             default: {
@@ -136,6 +140,19 @@ private:
         }
     }
 
+    // the variables that select which part of the parent is used
+    static void get_index_deps(Var *var, std::unordered_set<const Var *> &dep,
+                               LinkedDep &linked_dep) {
+        while (var->type() == VarType::Slice) {
+            auto *slice = reinterpret_cast<VarSlice *>(var);
+            if (slice->sliced_by_var()) {
+                auto *index = reinterpret_cast<VarVarSlice *>(slice)->sliced_var();
+                get_var_deps(index, dep, linked_dep);
+            }
+            var = slice->parent_var;
+        }
+    }
+
     static void compute_linked_dep(
         VarSlice *slice,
         LinkedDep &linked_dep) {
@@ -145,17 +162,6 @@ private:
         for (uint32_t i = var_low; i <= var_high; i++) {
             linked_dep[root][i].emplace(slice);
         }
-        // if indexed by a var
-        if (slice->sliced_by_var()) {
-            auto *var_slice = reinterpret_cast<VarVarSlice *>(slice);
-            auto *p = var_slice->sliced_var();
-            var_high = p->var_high();
-            var_low = p->var_low();
-            root = p->get_var_root_parent();
-            for (uint32_t i = var_low; i <= var_high; i++) {
-                linked_dep[root][i].emplace(slice);
-            }
-        }
     }
 
     class CombinationBlockVisitor : public IRVisitor {
-- 
2.43.0


From 923d999549aa3d45644573680467f49c19ae04a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:23 +0000
Subject: [PATCH 089/115] fix: bits covered by a variable index of an array
 element

---
 src/expr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 5529035..275daed 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -684,8 +684,8 @@ VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
         var_width_ = 1;
         size_ = {1};
         // potentially cover all the bits
-        var_high_ = parent->width() - 1;
-        var_low_ = 0;
+        var_high_ = parent->var_high();
+        var_low_ = parent->var_low();
         if (parent->width_param())
             required_width = clog2(Simulator::static_evaluate_expr(parent->width_param()));
         else
-- 
2.43.0


From c7793d7f517371a0e06c7255812a0cdde70149e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:23 +0000
Subject: [PATCH 090/115] fix: edges of slices and cast variables in the
 simulator

---
 src/sim.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index af2e2be..4c87c67 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -80,7 +80,10 @@ private:
     void visit_block(SequentialStmtBlock *block) {
         auto &lst = block->get_event_controls();
         for (auto const &iter : lst) {
-            dependency_[iter.var].emplace(block);
+            // the edge can be on a slice or on a cast variable
+            auto const &[dep, linked] = get_dep(iter.var);
+            for (auto const &v : dep) dependency_[v].emplace(block);
+            merge_linked_dep(linked_dependency_, linked);
         }
     }
 
@@ -536,7 +539,7 @@ void Simulator::trigger_event(const kratos::Var *var,
                 auto const &deps = dependency_.at(v);
                 for (auto const &stmt : deps) {
                     if (scope_.find(stmt) == scope_.end())
-                        event_queue_.emplace(std::make_pair(var, stmt));
+                        event_queue_.emplace(std::make_pair(v, stmt));
                 }
             }
         }
@@ -714,7 +717,8 @@ void Simulator::process_stmt(kratos::SequentialStmtBlock *block, const Var *var_
     auto const &conditions = block->get_event_controls();
     bool trigger = false;
     for (auto const &event : conditions) {
-        if (event.var != var_) continue;
+        auto const dep = DependencyVisitor::get_dep(event.var).first;
+        if (dep.find(var_) == dep.end()) continue;
         if (event.edge == EventEdgeType::Posedge) {
             auto val = get_value_(event.var);
             if (val && *val) {
-- 
2.43.0


From 4d0b174e829534f03562c23e9b6e2f2f996a656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 091/115] fix: values of cast variables in the simulator

---
 src/sim.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sim.cc b/src/sim.cc
index 4c87c67..8b8926b 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -234,6 +234,16 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
         } else {
             return std::nullopt;
         }
+    } else if (var->type() == VarType::BaseCasted) {
+        auto *casted = const_cast<VarCasted *>(reinterpret_cast<const VarCasted *>(var));
+        auto const *parent = casted->parent_var();
+        auto value = get_value_(parent);
+        if (!value) return std::nullopt;
+        auto const width = parent->width();
+        // a signed value stays the same when it is resized
+        if (parent->is_signed() && width < 64 && (*value >> (width - 1)))
+            *value |= UINT64_MASK << width;
+        return truncate(*value, var->width());
     } else if (var->type() == VarType::Slice) {
         auto const *root = var->get_var_root_parent();
         std::vector<uint64_t> values;
-- 
2.43.0


From eeed76c1590050f0a20c10b1f44c79636d041d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 092/115] fix: non-blocking assignments use the index of when
 they are executed

---
 src/sim.cc | 22 ++++++++++++++++------
 src/sim.hh | 12 +++++++++++-
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index 8b8926b..32cfa38 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -299,10 +299,15 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
 }
 
 void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_value) {
+    set_value_(var, op_value, get_slice_index(var));
+}
+
+void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_value,
+                           const SliceIndex &index) {
     if (!op_value) return;
     auto value = *op_value;
     if (var->size().size() != 1 || var->size().front() != 1) {
-        set_complex_value_(var, std::vector<uint64_t>{value});
+        set_complex_value_(var, std::vector<uint64_t>{value}, index);
         return;
     }
     if (var->type() == VarType::Parameter || var->type() == VarType::ConstValue) {
@@ -334,7 +339,6 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
             for (uint64_t i = 0; i < base; i++) values.emplace_back(&v_ref[i]);
         }
         // obtain the index
-        auto index = get_slice_index(var);
         if (index.empty()) throw InternalException("Empty slice");
         auto [var_high, var_low] = compute_var_high_low(root, index);
         if (var_high + 1 - var_low > root->width())
@@ -418,11 +422,17 @@ std::optional<std::vector<uint64_t>> Simulator::get_complex_value_(const kratos:
 
 void Simulator::set_complex_value_(const kratos::Var *var,
                                    const std::optional<std::vector<uint64_t>> &op_value) {
+    set_complex_value_(var, op_value, get_slice_index(var));
+}
+
+void Simulator::set_complex_value_(const kratos::Var *var,
+                                   const std::optional<std::vector<uint64_t>> &op_value,
+                                   const SliceIndex &index) {
     if (!op_value) return;
     auto value = *op_value;
     if (var->size().size() == 1 && var->size().front() == 1) {
         if (value.size() > 1) throw UserException("Cannot set multiple values to a scalar");
-        set_value_(var, value[0]);
+        set_value_(var, value[0], index);
         return;
     }
     std::vector<uint64_t *> values;
@@ -432,7 +442,6 @@ void Simulator::set_complex_value_(const kratos::Var *var,
     if (var->type() == VarType::Slice) {
         const auto *root = var->get_var_root_parent();
         fill_var = root;
-        auto index = get_slice_index(var);
         if (index.empty()) throw InternalException("Empty slice");
         auto const [var_high, var_low] = compute_var_high_low(root, index);
         if (var_low % root->var_width() != 0 ||
@@ -566,7 +575,8 @@ void Simulator::eval() {
             // every block has used the old values. the nba region is next
             auto const nba_values = std::move(nba_values_);
             nba_values_.clear();
-            for (auto const &[var, value] : nba_values) set_complex_value_(var, value);
+            for (auto const &[var, index, value] : nba_values)
+                set_complex_value_(var, value, index);
             continue;
         }
         if (simulation_depth_ > MAX_SIMULATION_DEPTH) {
@@ -662,7 +672,7 @@ void Simulator::process_stmt(kratos::AssignStmt *stmt, const Var *) {
         if (stmt->assign_type() != AssignmentType::NonBlocking)
             set_complex_value_(stmt->left(), val);
         else
-            nba_values_.emplace_back(stmt->left(), *val);
+            nba_values_.push_back({stmt->left(), get_slice_index(stmt->left()), *val});
     }
 }
 
diff --git a/src/sim.hh b/src/sim.hh
index 035c52b..9f4aaca 100644
--- a/src/sim.hh
+++ b/src/sim.hh
@@ -26,8 +26,12 @@ public:
     static uint64_t static_evaluate_expr(Var *expr);
 
 protected:
+    using SliceIndex = std::vector<std::pair<uint32_t, uint32_t>>;
     void set_value_(const Var *var, std::optional<uint64_t> op_value);
+    void set_value_(const Var *var, std::optional<uint64_t> op_value, const SliceIndex &index);
     void set_complex_value_(const Var *var, const std::optional<std::vector<uint64_t>> &op_value);
+    void set_complex_value_(const Var *var, const std::optional<std::vector<uint64_t>> &op_value,
+                            const SliceIndex &index);
     std::optional<uint64_t> get_value_(const Var *var) const;
     std::optional<std::vector<uint64_t>> get_complex_value_(const Var *var) const;
 
@@ -54,7 +58,13 @@ private:
     void process_stmt(SequentialStmtBlock *block, const Var *var);
 
     // assigned together once all the active events are processed, in the order of the statements
-    std::vector<std::pair<Var *, std::vector<uint64_t>>> nba_values_;
+    struct NonBlockingValue {
+        Var *var;
+        // the element is selected when the statement is executed
+        SliceIndex index;
+        std::vector<uint64_t> value;
+    };
+    std::vector<NonBlockingValue> nba_values_;
 
     // pull-up registers
     void init_pull_up_value(Generator *generator);
-- 
2.43.0


From 1546ee81878cf970b5553f305a8eee0d52b640e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:39 +0000
Subject: [PATCH 093/115] fix: assign every operand of a concatenation in the
 simulator

---
 src/sim.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sim.cc b/src/sim.cc
index 32cfa38..742c7d8 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -312,6 +312,16 @@ void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_va
     }
     if (var->type() == VarType::Parameter || var->type() == VarType::ConstValue) {
         throw UserException(::format("Cannot set value for constant {0}", var->handle_name()));
+    } else if (var->type() == VarType::Expression) {
+        auto const *expr = reinterpret_cast<const Expr *>(var);
+        if (expr->op != ExprOp::Concat || var->width() > 64)
+            throw UserException(::format("Cannot set value for {0}", var->handle_name()));
+        // the last one has the lowest bits
+        auto const &vars = reinterpret_cast<const VarConcat *>(expr)->vars();
+        for (auto it = vars.rbegin(); it != vars.rend(); it++) {
+            set_value_(*it, truncate(value, (*it)->width()));
+            value = (*it)->width() < 64 ? value >> (*it)->width() : 0;
+        }
     } else if (var->type() == VarType::Slice) {
         auto const *root = var->get_var_root_parent();
         std::vector<uint64_t *> values;
-- 
2.43.0


From 20269b75091100a1c03e3d365868de8b667de468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:17 +0000
Subject: [PATCH 094/115] fix: don't evaluate only the first element of an
 array operand

---
 src/sim.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sim.cc b/src/sim.cc
index 742c7d8..9d1aff1 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -884,6 +884,7 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                                           expr->is_signed());
                 return std::vector<uint64_t>{result};
             } else {
+                if ((*left_val).size() > 1) throw std::runtime_error("Not implemented");
                 auto left_value = (*left_val)[0];
                 // the result of a reduction is one bit wide
                 auto result = eval_unary_op(left_value, expr->op, expr->left->width());
-- 
2.43.0


From 6c8ac550c30cfcd34a6e3ba9905fc14d220dde0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:01 +0000
Subject: [PATCH 095/115] fix: the index of a target triggers an update in the
 simulator

---
 src/sim.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sim.cc b/src/sim.cc
index 9d1aff1..748bfde 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -187,6 +187,8 @@ private:
             auto const &[dep, linked] = DependencyVisitor::get_dep(stmt->right());
             for (auto const &var : dep) vars_.emplace(var);
             merge_linked_dep(linked_vars_, linked);
+            // the index of the target is read as well
+            get_index_deps(stmt->left(), vars_, linked_vars_);
         }
 
         std::unordered_set<const Var *> &vars() { return vars_; }
-- 
2.43.0


From 7011cfc95d88ed8d0f6e56b85ef5f57a7263e1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 096/115] fix: keywords are not legal parameter names

---
 src/generator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/generator.cc b/src/generator.cc
index b86633e..d10ee45 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -240,6 +240,8 @@ void Generator::add_port_name(const std::string &port_name) {
 }
 
 void Generator::check_param_name_conflict(const std::string &parameter_name) {
+    if (!is_valid_variable_name(parameter_name))
+        throw UserException(::format("{0} is a SystemVerilog keyword", parameter_name));
     if (params_.find(parameter_name) != params_.end())
         throw VarException(::format("parameter {0} already exists", parameter_name),
                            {params_.at(parameter_name).get()});
-- 
2.43.0


From 9678480285ab15a9bbb6315f1b815e5cf6b494a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 097/115] fix: a parameter created from another parameter is a
 parameter

---
 src/expr.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 275daed..282f4c7 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1222,7 +1222,10 @@ Param::Param(Generator *m, const std::shared_ptr<Param> &param, std::string para
     : Const(m, 1, 1, false),
       parameter_name_(std::move(parameter_name)),
       param_type_(param->param_type_),
-      enum_def_(param->enum_def_) {}
+      enum_def_(param->enum_def_) {
+    // override the type value
+    type_ = VarType::Parameter;
+}
 
 void Param::set_value(int64_t new_value) {
     if (new_value <= 0 && (!param_vars_width_.empty() || !param_vars_size_.empty())) {
-- 
2.43.0


From 00a91aba221dfeac3cd188ea5ff252caf9ddf740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 098/115] fix: a parameter only follows the parameter it was
 last set to

---
 src/expr.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index 282f4c7..b4f02fe 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1286,6 +1286,8 @@ bool Param::has_param_size_var(kratos::Var *var, uint32_t index, kratos::Var *ex
 }
 
 void Param::set_value(const std::shared_ptr<Param> &param) {
+    // no longer depends on the previous one
+    if (parent_param_) parent_param_->param_params_.erase(this);
     param->param_params_.emplace(this);
     parent_param_ = param.get();
     if (param->param_type() != ParamType::RawType) param_type_ = ParamType::Parameter;
-- 
2.43.0


From 6a3d5d4e023d1492c153565e83f75d115882b62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:37 +0000
Subject: [PATCH 099/115] fix: a cloned module has the parameter values its
 ports depend on

---
 src/generator.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/generator.cc b/src/generator.cc
index d10ee45..940b4f7 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1047,7 +1047,19 @@ std::shared_ptr<Generator> Generator::clone() {
     auto port_names = get_port_names();
     // also parameters
     for (auto const &[param_name, param] : params_) {
-        generator->parameter(param_name, param->width(), param->is_signed());
+        auto &new_param = param->param_type() == ParamType::RawType
+                              ? generator->parameter(param_name)
+                          : param->param_type() == ParamType::Enum
+                              ? generator->parameter(param_name,
+                                                     param->enum_def()->shared_from_this())
+                              : generator->parameter(param_name, param->width(),
+                                                     param->is_signed());
+        // the ports are as wide as the values of the parameters require
+        if (param->get_initial_value()) new_param.set_initial_value(*param->get_initial_value());
+        if (param->has_value()) new_param.set_value(param->value());
+        if (param->get_raw_str_initial_value())
+            new_param.set_initial_raw_str_value(*param->get_raw_str_initial_value());
+        if (param->get_raw_str_value()) new_param.set_value(*param->get_raw_str_value());
     }
 
     for (auto const &port_name : port_names) {
-- 
2.43.0


From e62a7e2581a90cc444131774517113bbaaa6064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:05 +0000
Subject: [PATCH 100/115] fix: a cloned assignment keeps its delay

---
 src/stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stmt.cc b/src/stmt.cc
index 3aa5b1b..15a2543 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -217,6 +217,7 @@ void AssignStmt::set_parent(kratos::IRNode *parent) {
 std::shared_ptr<Stmt> AssignStmt::clone() const {
     auto stmt = std::make_shared<AssignStmt>(left_->shared_from_this(), right_->shared_from_this(),
                                              assign_type_);
+    stmt->delay_ = delay_;
     copy_meta(stmt);
     return stmt;
 }
-- 
2.43.0


From 2ebd8fd4714556ce79468e246979c7ef71c0757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:05 +0000
Subject: [PATCH 101/115] fix: a cloned combinational block stays general
 purpose

---
 src/stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stmt.cc b/src/stmt.cc
index 15a2543..3924e7a 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -662,6 +662,7 @@ void SwitchStmt::clear() {
 
 std::shared_ptr<Stmt> CombinationalStmtBlock::clone() const {
     auto stmt = std::make_shared<CombinationalStmtBlock>();
+    stmt->general_purpose_ = general_purpose_;
     clone_block(stmt.get());
     return stmt;
 }
-- 
2.43.0


From 84202599c4431b37a7f21d1c8d6339245aa0bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:05 +0000
Subject: [PATCH 102/115] fix: scope variables can be overridden

---
 src/stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index 3924e7a..1b93590 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -76,7 +76,7 @@ void Stmt::set_scope_context(const std::map<std::string, std::pair<bool, std::st
 void Stmt::add_scope_variable(const std::string &name, const std::string &value, bool is_var,
                               bool override) {
     if (override || scope_context_.find(name) == scope_context_.end()) {
-        scope_context_.emplace(name, std::make_pair(is_var, value));
+        scope_context_[name] = std::make_pair(is_var, value);
     }
 }
 
-- 
2.43.0


From 69c73f7943e66491a0ecbacdd5980149e44aa373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:24 +0000
Subject: [PATCH 103/115] fix: adding several statements to a case that is
 already listed

---
 src/stmt.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index 1b93590..6d5ecc0 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -575,8 +575,10 @@ ScopedStmtBlock &SwitchStmt::add_switch_case(const std::shared_ptr<Const> &switc
 
 ScopedStmtBlock &SwitchStmt::add_switch_case(const std::shared_ptr<Const> &switch_case,
                                              const std::vector<std::shared_ptr<Stmt>> &stmts) {
-    for (const auto &stmt : stmts) add_switch_case(switch_case, stmt);
-    return *body_.at(switch_case);
+    // the case may already be listed under another constant of the same value
+    ScopedStmtBlock *body = nullptr;
+    for (const auto &stmt : stmts) body = &add_switch_case(switch_case, stmt);
+    return body ? *body : *body_.at(switch_case);
 }
 
 ScopedStmtBlock &SwitchStmt::add_switch_case(Const &switch_case,
-- 
2.43.0


From f091e6cfee07e8053196d95df264447201d557f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:24 +0000
Subject: [PATCH 104/115] fix: cloning return statements, initial and final
 blocks

---
 src/stmt.cc | 18 ++++++++++++++++++
 src/stmt.hh |  6 ++++++
 2 files changed, 24 insertions(+)

diff --git a/src/stmt.cc b/src/stmt.cc
index 6d5ecc0..9a028eb 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -682,6 +682,18 @@ std::shared_ptr<Stmt> LatchStmtBlock::clone() const {
     return stmt;
 }
 
+std::shared_ptr<Stmt> InitialStmtBlock::clone() const {
+    auto stmt = std::make_shared<InitialStmtBlock>();
+    clone_block(stmt.get());
+    return stmt;
+}
+
+std::shared_ptr<Stmt> FinalStmtBlock::clone() const {
+    auto stmt = std::make_shared<FinalStmtBlock>();
+    clone_block(stmt.get());
+    return stmt;
+}
+
 std::unordered_set<std::shared_ptr<AssignStmt>> filter_assignments_with_target(
     const std::unordered_set<std::shared_ptr<AssignStmt>> &stmts, const Generator *target,
     bool lhs) {
@@ -848,6 +860,12 @@ void ReturnStmt::set_parent(kratos::IRNode *parent) {
     s->set_parent(this);
 }
 
+std::shared_ptr<Stmt> ReturnStmt::clone() const {
+    auto stmt = std::make_shared<ReturnStmt>(func_def_, value_);
+    copy_meta(stmt);
+    return stmt;
+}
+
 void BreakStmt::set_parent(IRNode *parent) {
     // making sure we are inside a for loop
     Stmt *for_ = nullptr;
diff --git a/src/stmt.hh b/src/stmt.hh
index 50d7f21..46aa6a2 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -404,6 +404,8 @@ public:
     InitialStmtBlock() : StmtBlock(StatementBlockType::Initial) {}
 
     void accept(IRVisitor *visitor) override { visitor->visit(this); }
+
+    std::shared_ptr<Stmt> clone() const override;
 };
 
 class FinalStmtBlock : public StmtBlock {
@@ -411,6 +413,8 @@ public:
     FinalStmtBlock() : StmtBlock(StatementBlockType::Final) {}
 
     void accept(IRVisitor *visitor) override { visitor->visit(this); }
+
+    std::shared_ptr<Stmt> clone() const override;
 };
 
 class DPIFunctionStmtBlock : public FunctionStmtBlock {
@@ -467,6 +471,8 @@ public:
     const FunctionStmtBlock *func_def() const { return func_def_; }
     std::shared_ptr<Var> value() const { return value_; }
 
+    std::shared_ptr<Stmt> clone() const override;
+
 private:
     FunctionStmtBlock *func_def_;
     std::shared_ptr<Var> value_;
-- 
2.43.0


From b47c9eec9f713e5bce3f89f8f9d46304f8ee9114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:04 +0000
Subject: [PATCH 105/115] fix: resizing an expression of several loop variables
 skipped some of their values

---
 src/expr.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index b4f02fe..faf48eb 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -2285,6 +2285,8 @@ bool safe_to_resize_(Simulator &sim, const Var *var, uint32_t target_size, bool
                 Const::is_legal(*num, target_size, is_signed) == Const::ConstantLegal::Legal;
             if (!result) return false;
         }
+        // the other variables can take any value here as well
+        if (!safe_to_resize_(sim, var, target_size, is_signed, vars)) return false;
         // notice it's exclusive for max
         sim.set_i(t, t->max_value() - 1, false);
         {
-- 
2.43.0


From ebee56c944ed75986a0a885ad7527f77c8580fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:24 +0000
Subject: [PATCH 106/115] fix: a copied reset port lost whether it is active
 high

---
 src/generator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator.cc b/src/generator.cc
index 940b4f7..2b638ed 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -148,6 +148,7 @@ Port &Generator::port(const Port &p, const std::string &port_name, bool check_pa
         port(p.port_direction(), port_name, p.var_width(), p.size(), p.port_type(), p.is_signed());
     p_.set_explicit_array(p.explicit_array());
     p_.set_is_packed(p.is_packed());
+    if (p.active_high()) p_.set_active_high(*p.active_high());
     // need to copy other definition over
     p.copy_meta_data(&p_, check_param);
     return p_;
-- 
2.43.0


From 9d38651108d8b366278f2d4df9457ad41ffb536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:08 +0000
Subject: [PATCH 107/115] fix: enum and struct ports of a cloned module lost
 their type

---
 src/generator.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/generator.cc b/src/generator.cc
index 2b638ed..8e859d9 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1043,6 +1043,19 @@ void Generator::unwire(Var &var1, Var &var2) {
     }
 }
 
+// enum and struct ports have to keep their type
+static bool copy_typed_port(Generator &generator, const std::shared_ptr<Port> &port) {
+    if (auto enum_port = std::dynamic_pointer_cast<EnumPort>(port)) {
+        generator.port(*enum_port, false);
+        return true;
+    }
+    if (auto struct_port = std::dynamic_pointer_cast<PortPackedStruct>(port)) {
+        generator.port(*struct_port, false);
+        return true;
+    }
+    return false;
+}
+
 std::shared_ptr<Generator> Generator::clone() {
     auto generator = std::make_shared<Generator>(context_, name);
     auto port_names = get_port_names();
@@ -1065,6 +1078,7 @@ std::shared_ptr<Generator> Generator::clone() {
 
     for (auto const &port_name : port_names) {
         auto port = get_port(port_name);
+        if (copy_typed_port(*generator, port)) continue;
         auto &p = generator->port(port->port_direction(), port_name, port->var_width(),
                                   port->size(), port->port_type(), port->is_signed());
         if (port->width_param() && port->width_param()->is_param()) {
@@ -1073,6 +1087,7 @@ std::shared_ptr<Generator> Generator::clone() {
         }
         p.set_explicit_array(port->explicit_array());
         p.set_is_packed(port->is_packed());
+        if (port->active_high()) p.set_active_high(*port->active_high());
     }
 
     if (!fn_name_ln.empty()) {
@@ -1099,6 +1114,7 @@ void Generator::copy_over_missing_ports(const std::shared_ptr<Generator> &ref) {
     for (auto const &port_name : port_names) {
         if (has_port(port_name)) continue;
         auto port = ref->get_port(port_name);
+        if (copy_typed_port(*this, port)) continue;
         auto &p = this->port(port->port_direction(), port_name, port->var_width(), port->size(),
                              port->port_type(), port->is_signed());
         if (port->width_param() && port->width_param()->is_param()) {
@@ -1109,6 +1125,7 @@ void Generator::copy_over_missing_ports(const std::shared_ptr<Generator> &ref) {
         }
         p.set_explicit_array(port->explicit_array());
         p.set_is_packed(port->is_packed());
+        if (port->active_high()) p.set_active_high(*port->active_high());
     }
 }
 
-- 
2.43.0


From bb3cd0d7090e20eb72ea24aa0eedc6751c744809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:06 +0000
Subject: [PATCH 108/115] fix: ports imported from Verilog took the range of an
 earlier port, and net types and line breaks as names

---
 src/util.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index db7d1ae..67bff28 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -266,13 +266,13 @@ std::map<std::string, std::shared_ptr<Port>> get_port_from_mod_def(Generator *ge
                                                                    const std::string &mod_def) {
     std::map<std::string, std::shared_ptr<Port>> result;
     std::unordered_set<std::string> ignore_list = {"logic", "reg", "wire"};
-    std::regex re("(input|output)(\\s|\\[)\\s?([\\w,\\s_$\\[\\]:])+", std::regex::ECMAScript);  // NOLINT
+    std::regex re("(input|output|inout)(\\s|\\[)\\s?([\\w,\\s_$\\[\\]:])+", std::regex::ECMAScript);  // NOLINT
     std::smatch match;
     std::string::const_iterator iter = mod_def.cbegin();
     while (std::regex_search(iter, mod_def.end(), match, re)) {
         if (match.size() > 1) {
             std::string port_declaration = std::string(match[0].first, match[0].second);
-            std::vector<std::string> const tokens = string::get_tokens(port_declaration, ", ");
+            std::vector<std::string> const tokens = string::get_tokens(port_declaration, ", \t\r\n");
             // the first one has to be either input or output
             if (tokens.size() < 2)
                 throw std::runtime_error(::format("unable to parse {}", port_declaration));
@@ -282,6 +282,8 @@ std::map<std::string, std::shared_ptr<Port>> get_port_from_mod_def(Generator *ge
                 direction = PortDirection::In;
             else if (input_type == "output")
                 direction = PortDirection::Out;
+            else if (input_type == "inout")
+                direction = PortDirection::InOut;
             else
                 throw std::runtime_error(
                     ::format("{} has to be either input or output", input_type));
@@ -289,13 +291,14 @@ std::map<std::string, std::shared_ptr<Port>> get_port_from_mod_def(Generator *ge
             uint32_t i = 1;
             uint32_t high = 0;
             uint32_t low = 0;
+            bool is_signed = false;
             while (i < tokens.size()) {
                 auto token = tokens[i];
-                if (token.empty()) {
+                if (token.empty() || ignore_list.find(token) != ignore_list.end()) {
                     i++;
                     continue;
                 }
-                if (token[0] == '[' && token[token.size() - 1] != ']') {
+                while (token[0] == '[' && token[token.size() - 1] != ']' && i + 1 < tokens.size()) {
                     token.append(tokens[++i]);
                 }
                 if (token[0] == '[' && token[token.size() - 1] == ']') {
@@ -311,6 +314,16 @@ std::map<std::string, std::shared_ptr<Port>> get_port_from_mod_def(Generator *ge
                 } else {
                     if (token[0] == '[')
                         throw std::runtime_error(::format("unable to parse {}", port_declaration));
+                    if (token == "signed") {
+                        is_signed = true;
+                        i++;
+                        continue;
+                    }
+                    // every direction starts a new declaration
+                    if (token == "input" || token == "output" || token == "inout") {
+                        high = low = 0;
+                        is_signed = false;
+                    }
                     if (token == "input") {
                         direction = PortDirection::In;
                         i++;
@@ -327,7 +340,7 @@ std::map<std::string, std::shared_ptr<Port>> get_port_from_mod_def(Generator *ge
                     const auto &port_name = token;
                     uint32_t width = high - low + 1;
                     auto p = std::make_shared<Port>(generator, direction, port_name, width, 1,
-                                                    PortType::Data, false);
+                                                    PortType::Data, is_signed);
                     result.emplace(port_name, p);
                 }
 
-- 
2.43.0


From 6ef065ab3024e73b18d70a70e1973ffd11e9d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:01 +0000
Subject: [PATCH 109/115] fix: moving the links of a concatenated variable
 compares its width with the concatenation's

---
 src/expr.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index faf48eb..3d48d2a 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1816,7 +1816,6 @@ void Var::move_linked_to(kratos::Var *new_var) {
     // change concat'ed vars
     // we use overloaded ones
     for (auto const &concat : concat_vars_) {
-        concat->move_linked_to(new_var);
         concat->replace_var(shared_from_this(), new_var->shared_from_this());
     }
     new_var->concat_vars_ =
-- 
2.43.0


From dbb1d10a55526f10ed31befe996c710172dd1154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:01 +0000
Subject: [PATCH 110/115] fix: moving a variable's uses rejects slices that
 moved along with its links

---
 src/expr.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index 3d48d2a..6418d19 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1590,6 +1590,8 @@ void set_slice_var_parent(Var *&var, Var *target, Var *new_var, bool check_targe
         slices.emplace_back(slice);
         parent_var = slice->parent_var;
     }
+    // the slices may have been moved along with the linked variables already
+    if (parent_var == new_var) return;
     if (parent_var != target) {
         if (check_target)
             throw InternalException("Target not found");
-- 
2.43.0


From c52b8c8ce354825e5d1706b76efc73b4d78cb867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:35 +0000
Subject: [PATCH 111/115] fix: zeroed instance inputs are driven from the
 module that holds the instance, not inside it

---
 src/transform.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.cc b/src/transform.cc
index 317c686..9f5a70f 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -201,7 +201,7 @@ public:
                                 stmt = slice.assign(constant(0, slice.width(), slice.is_signed()));
                             }
                             stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
-                            gen->add_stmt(stmt);
+                            generator->add_stmt(stmt);
                         };
 
                         for (auto const bit : diff_bits) {
-- 
2.43.0


From 6a8f19c1537c227a94bd7a2d8bb5bfda03f92b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:35 +0000
Subject: [PATCH 112/115] fix: zeroing unconnected inputs read past the end
 when slices already drive every bit

---
 src/transform.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transform.cc b/src/transform.cc
index 9f5a70f..0265bd8 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -165,6 +165,7 @@ public:
                         // however, if it's an array and sliced in a weird way, there is nothing
                         // easy we can do. for now we will throw an exception
                         // maximum the slices range
+                        if (diff_bits.empty()) continue;
                         uint32_t low = diff_bits[0];
                         uint32_t high = low;
                         uint32_t pre_high = high;
-- 
2.43.0


From d452e612b1ad53da730415fab58cb2b88606ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:35 +0000
Subject: [PATCH 113/115] fix: a stub's signed output could not be driven with
 an unsigned zero

---
 src/transform.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transform.cc b/src/transform.cc
index 0265bd8..5024352 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -108,7 +108,8 @@ public:
                         fmt::format("{0}.{1} is driven by a net, but {0} is declared as a stub",
                                     generator->name, port_name),
                         {port.get(), generator});
-                generator->add_stmt(port->assign(constant(0, port->width())));
+                generator->add_stmt(
+                    port->assign(constant(0, port->width(), port->is_signed())));
             }
         }
     }
-- 
2.43.0


From f8e46ace59f40798c9e0b872052f891fe2213261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:35 +0000
Subject: [PATCH 114/115] fix: instances whose ports use different indices were
 lifted into one loop index

---
 src/transform.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/transform.cc b/src/transform.cc
index 5024352..4c85f21 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -543,6 +543,9 @@ private:
         // check if all the ports are connected to the same variable and index
         for (auto const* inst : generators) {
             auto const* gen = inst->target();
+            // all the sliced ports of one instance have to use the same index
+            bool has_index = false;
+            uint64_t index = 0;
             for (auto const& port_name : gen->get_port_names()) {
                 auto const& port = gen->get_port(port_name);
                 // get connected net
@@ -570,6 +573,9 @@ private:
                         // ranged slice not allowed
                         return false;
                     }
+                    if (has_index && index != slice->high) return false;
+                    has_index = true;
+                    index = slice->high;
                     port_mapping[port_name][parent->to_string()].emplace(slice->high);
                 } else {
                     port_mapping[port_name][net->to_string()] = {};
-- 
2.43.0


From 8c24fd1c62879764f3ffc4a3803028100215a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:35 +0000
Subject: [PATCH 115/115] fix: naming a lifted block read before the start of
 an empty common name

---
 src/transform.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.cc b/src/transform.cc
index 4c85f21..bdbb547 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -691,7 +691,7 @@ private:
         }
         auto str = gen_inst_name.str();
         // remote _ at the end
-        while (str[str.size() - 1] == '_') {
+        while (!str.empty() && str[str.size() - 1] == '_') {
             str = str.substr(0, str.size() - 1);
         }
         // if it's empty, use gen_blk and the definition name
-- 
2.43.0

