from fx import *
s=rd('generator.cc')
assert s.count("        p.set_is_packed(port->is_packed());\n")==2
s=s.replace("        p.set_is_packed(port->is_packed());\n","        p.set_explicit_array(port->explicit_array());\n        p.set_is_packed(port->is_packed());\n")
wr('generator.cc',s)
sub('generator.cc','''    v_.copy_meta_data(&v_, true);''','''    v.copy_meta_data(&v_, false);''')
commit('fix: copied variables and cloned ports keep their shape and parameters')
