"""plant(id, prop, edits, demo, needs, what): make /verif/seeded/<id>, confirm it in a bind-mounted scratch copy, run checks"""
import os, subprocess, sys, shutil, json, concurrent.futures as cf
S='/verif/seeded'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def ns(w,cmd,timeout=1200):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'"%(w,cmd.replace("'","'\\''")),timeout=timeout)
def plant(id,prop,edits,demo,needs,what,sh_='demo.sh',confirm=True):
    w='/tmp/wt/'+id
    d=S+'/'+id
    os.makedirs(d,exist_ok=True)
    sh('rm -rf %s; mkdir -p /tmp/wt; cp -a /repo %s'%(w,w))
    for f,a,b in edits:
        p=w+'/'+f; s=open(p).read()
        assert s.count(a)==1,(id,f,a,s.count(a))
        open(p,'w').write(s.replace(a,b))
    df=sh('git -C %s diff'%w).stdout
    assert df
    open(d+'/patch.diff','w').write(df)
    shutil.copy('/verif/dev/demo/cxxpool.h',d+'/cxxpool.h'); shutil.copy('/verif/dev/demo/'+sh_,d+'/demo.sh')
    open(d+'/demo.cc','w').write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+'/meta.json','w'),indent=1)
    if not confirm: return
    sh('git -C %s checkout -- src'%w)
    r0=ns(w,'bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh'%d)
    sh('git -C %s apply %s/patch.diff'%(w,d))
    b=ns(w,'bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/wt/%s.json'%id)
    r1=ns(w,'bash %s/demo.sh'%d)
    bl=json.load(open('/opt/vp/BASELINE.json'))['stable']
    try: o=json.load(open('/tmp/wt/%s.json'%id))['passed']
    except Exception: o=[]
    miss=[x for x in bl if x not in o]
    c=ns(w,'bash /verif/check.sh %s'%prop)
    sh('rm -rf '+w)
    print("%s: clean demo rc=%d, patched demo rc=%d, build rc=%d, tests missing %s, check rc=%d"%(id,r0.returncode,r1.returncode,b.returncode,miss,c.returncode))
    if r0.returncode: print(r0.stdout[-2000:],r0.stderr[-3000:])
    if not r1.returncode: print('NOT DETECTED BY DEMO',r1.stdout[-1000:])
    if b.returncode: print(b.stdout[-2000:])
    print('\n'.join(x for x in c.stdout.splitlines() if not x.startswith('  rule'))[-1500:], c.stderr[-1500:])
    sys.stdout.flush()
def run(specs,only=None,jobs=3):
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs=[ex.submit(plant,*s) for s in specs if not only or s[0] in only]
        for f in fs:
            try: f.result()
            except Exception as e: print('ERR',repr(e))
PRE='''#include <iostream>
#include "context.hh"
#include "codegen.hh"
#include "except.hh"
#include "fault.hh"
#include "generator.hh"
#include "hash.hh"
#include "interface.hh"
#include "fsm.hh"
#include "pass.hh"
#include "port.hh"
#include "stmt.hh"
#include "tb.hh"
#include "sim.hh"
#include "util.hh"
#include "lib.hh"
#include "graph.hh"
#include "analysis.hh"
#include "transform.hh"
#include "optimize.hh"
using namespace kratos;
// non-zero exit status when the expectation does not hold
#define EXPECT(x) do { if (!(x)) { std::cerr << "FAILED: " #x << std::endl; return 1; } } while (0)
#define REJECTS(x) do { bool ok_ = false; try { x; } catch (const std::exception &) { ok_ = true; } if (!ok_) { std::cerr << "not rejected: " #x << std::endl; return 1; } } while (0)
'''
def main(body): return PRE+'int main() {\n'+body+'\n    return 0;\n}\n'
