import sys; sys.path.insert(0,'/verif/dev')
from plant import *
B=[]
B.append(('C03-packed-explicit','C03',[('src/stmt.cc','(right->size().front() > 1 || right->size().size() > 1 || right->explicit_array())) &&','right->size().front() > 1 || right->size().size() > 1) &&')],
main('''    Context c; auto &m = c.generator("m");
    auto &a = m.var("a", 4); auto &b = m.var("b", 4); 
    b.set_explicit_array(true); b.set_is_packed(false); a.set_is_packed(true);
    REJECTS(a.assign(b));
    b.set_is_packed(true);
    EXPECT(a.assign(b) != nullptr);'''),"a scalar driven by an explicit one-element unpacked array","An unpacked array drives a packed variable"))
B.append(('C04-index-last-dim','C04',[('src/expr.cc','            required_width = clog2(parent->size().front());','            required_width = clog2(parent->size().back());')],
main('''    Context c; auto &m = c.generator("m");
    auto &a = m.var("a", 4, std::vector<uint32_t>{2, 8}); auto &i = m.var("i", 3); auto &j = m.var("j", 1);
    REJECTS(a[i.shared_from_this()]);
    auto &x = a[j.shared_from_this()];
    EXPECT(x.width() == 32);'''),"a multi-dimensional array whose dimensions differ, indexed by a variable","An index variable too wide for the dimension it addresses is accepted"))
B.append(('C05-signed-max','C05',[('src/expr.cc','        temp = (1ull << (width - 1)) - 1;','        temp = width > 32 ? (1ull << width) - 1 : (1ull << (width - 1)) - 1;')],
main('''    REJECTS(constant(8, 4, true));
    REJECTS(constant(1ll << 40, 41, true));
    EXPECT(constant(7, 4, true).value() == 7);
    EXPECT(constant(-8, 4, true).value() == -8);
'''),"a signed constant wider than 32 bits whose value needs the sign bit","A value that needs the sign bit is stored in a signed constant"))
B.append(('C01-interface-lock','C01',[('src/analysis.cc','''        lock_.lock();
        if (interfaces_.find(def->def_name()) == interfaces_.end()) {
            interfaces_.emplace(def->def_name(), std::make_pair(gen, ref));
            lock_.unlock();
        } else {''','''        if (interfaces_.find(def->def_name()) == interfaces_.end()) {
            lock_.lock();
            interfaces_.emplace(def->def_name(), std::make_pair(gen, ref));
            lock_.unlock();
        } else {
            lock_.lock();''')],
main(open('/verif/dev/demo/c01.cc').read()),"two modules using interfaces collected by two worker threads at once","The interface table is looked up outside the lock that protects it","demo_tsan.sh"))
if __name__=='__main__': run(B,sys.argv[1:])
