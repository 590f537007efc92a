import sys; sys.path[:0]=['/verif/lib','/verif/checks']
import core, equiv, importlib, asmx, z3
pid,name=sys.argv[1:3]
class CK(core.Check): pass
mod=__import__(pid.lower())
core.ensure_symx()
got=[]
def fake(ck,b,tests,**kw):
    for t in tests:
        if t.name==name: got.append((b,t))
equiv.run_all=fake
mod.run(core.Check(pid),False)
b,t=got[0]
print(t.header('D')+t.src)
if len(sys.argv)>3:
    st={'queries': 0, 'solver_s': 0.0, 'cpaths': 0, 'paths': 0, 'pairs': 0, 'symx_insts': 0, 'insns': 0}
    for text,terms,pc in equiv.dut_asm(b,t,t.src,st):
        if text is None: print('PATH',terms['end'],terms.get('msg')); continue
        print('PC',[z3.simplify(x) for x in pc]); print({k:z3.simplify(v) for k,v in terms.items()}); 
        if sys.argv[3]=='a': print(text.replace('\x02','<').replace('\x03','>'))
r=equiv.check(b,t)
r.pop('files',None); print(r)
