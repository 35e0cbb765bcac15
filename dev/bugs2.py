import sys; sys.path.insert(0,'/verif/dev')
from plant import *
B=[]
B.append(('C13-case-label','C13',[('src/codegen.cc','''            if (stmt_blk->size() == 1 && label_index_.find(stmt_blk.get()) == label_index_.end() &&
                stmt_blk''','''            if (stmt_blk->size() == 1 &&
                stmt_blk''')],
main('''    Context c; auto &m = c.generator("m");
    auto &a = m.port(PortDirection::In, "a", 2); auto &q = m.port(PortDirection::Out, "q", 2);
    auto comb = m.combinational();
    auto sw = std::make_shared<SwitchStmt>(a);
    comb->add_stmt(sw);
    auto &blk = sw->add_switch_case(constant(1, 2), q.assign(constant(2, 2), AssignmentType::Blocking));
    m.add_named_block("picked", std::static_pointer_cast<StmtBlock>(blk.shared_from_this()));
    auto src = generate_verilog(&m).at("m");
    EXPECT(src.find("picked") != std::string::npos);'''),"a labelled case branch that holds exactly one assignment","The label of a case branch is not printed"))
B.append(('C19-ternary-zero','C19',[('src/eval.cc','uint64_t result = predicate? left_value: right_value;','uint64_t result = predicate && left_value ? left_value: right_value;')],
main('''    EXPECT(eval_ternary_op(true, 0, 5, 4) == 0);
    EXPECT(eval_ternary_op(true, 3, 5, 4) == 3);
    EXPECT(eval_ternary_op(false, 3, 5, 4) == 5);''').replace('using namespace','#include "eval.hh"\nusing namespace',1),"a conditional whose condition holds and whose first operand is zero","A conditional that selects zero yields its other operand"))
B.append(('C14-wrapper-attributes','C14',[('src/codegen.cc','''                copy_attrs(*p, new_port);
            }
        }''','''            }
        }''')],
main('''    Context c; auto &m = c.generator("m");
    auto &a = m.port(PortDirection::Out, "a", 4, std::vector<uint32_t>{2});
    auto at = std::make_shared<Attribute>(); at->value_str = "keep";
    a.add_attribute(at);
    auto &w = create_wrapper_flatten(&m, "wrap");
    EXPECT(w.get_port("a_0")->has_attribute("keep"));
    EXPECT(w.get_port("a_1")->has_attribute("keep"));'''),"an array port with an attribute, flattened by a wrapper","The ports made for the elements of an array port lose its attributes"))
B.append(('C17-polarity-array','C17',[('src/port.cc','''    if (width() != 1)
        throw VarException(
            ::format("{0}'s width is not 1, which can not be set as active''','''    if (var_width() != 1)
        throw VarException(
            ::format("{0}'s width is not 1, which can not be set as active''')],
main('''    Context c; auto &m = c.generator("m");
    auto &a = m.port(PortDirection::In, "a", 1, std::vector<uint32_t>{4}); auto &b = m.port(PortDirection::In, "b", 1);
    REJECTS(a.set_active_high(true));
    b.set_active_high(true);
    EXPECT(b.active_high() && *b.active_high());'''),"a polarity set on an array of one-bit ports","An array port is accepted as an active-high signal"))
B.append(('C32-clone-unpacked','C32',[('src/generator.cc','''        p.set_is_packed(port->is_packed());
        if (port->active_high()) p.set_active_high(*port->active_high());
    }

''','''        p.set_is_packed(port->is_packed() || port->size().size() > 1);
        if (port->active_high()) p.set_active_high(*port->active_high());
    }

''')],
main('''    Context c; auto &m = c.generator("m");
    auto &a = m.port(PortDirection::In, "a", 4, std::vector<uint32_t>{2, 3}); a.set_is_packed(false);
    auto &b = m.port(PortDirection::In, "b", 4, std::vector<uint32_t>{2}); b.set_is_packed(false);
    auto g = m.clone();
    EXPECT(!g->get_port("b")->is_packed());
    EXPECT(!g->get_port("a")->is_packed());'''),"a cloned module with an unpacked port of two dimensions","The clone declares the port as a packed array"))
if __name__=='__main__': run(B,sys.argv[1:])
