import sys, json, time, traceback
sys.path.insert(0,'/verif/engine')
from terms import *
import interp as IP
from models import Models
def run(path, pat='', v=False):
    js=json.load(open(path)); 
    mod=IP.Module(js)
    for n in mod.fns:
        if n.startswith('vf_probe') and pat in n:
            t0=time.time()
            I=IP.Interp(mod, Models(mod))
            st=IP.State({}, T)
            try:
                v_,s=I.call(n, [], st, {})
            except Unsupported as e:
                print(n,'UNSUPPORTED',e,'%.2fs'%(time.time()-t0)); 
                if v: traceback.print_exc()
                continue
            print(n,'%.2fs steps %d'%(time.time()-t0,I.steps), I.stats)
            base=IP.Ctx()
            for o in I.obs:
                facts=[]
                for b in o.binders: facts.append(ge0(sub(b[1],b[0])))
                cx=base.child(facts+[o.pc])
                IP.AN.ctx=cx
                r=cx.simp(o.cond)
                if r is not T:
                    print('  ',o.kind,o.note,o.loc,'PC',o.pc,'COND',r, o.binders)
                    if o.pair: print('      ', o.pair)
                elif v: print('   ok',o.kind,o.note,o.loc[1])
            for a in I.abn: print('   abn',a.kind,a.info,a.loc, a.state.pc)
            for t in I.models.throwspec: print('  spec',t)
            if s is not None:
                for rid,r in s.mem.items():
                    if r.heap and r.alive is not F: print('  leak',rid,r.alive, s.pc, r.name)
run(sys.argv[1], sys.argv[2] if len(sys.argv)>2 else '', len(sys.argv)>3)
