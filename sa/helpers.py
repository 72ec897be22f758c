"""The registered helper functions, read off the registration methods by the abstract interpreter."""
import ai as AIM
from ai import *
from natives import cont,one
import summ
WF='templito::funcs::WithFuncs'
DEFAULTS=['with_bools','with_strings','with_math','with_path','with_lists','with_maps','with_format','with_rand','with_bytes','with_svg']
SETS={'with_defaults':0,'with_folder_lock':1,'with_write_lock':1,'with_exec':0,'with_free_files':0}
LOCK=('lockdir',)
def method_body(F,m):
    for k,b in F.bodies.items():
        if b['kind']=='fn' and b['local'] and not b['closure'] and '@' not in k and (k=='<Self as %s>::%s'%(WF,m) or k.startswith('<Self as %s>::%s::<'%(WF,m))): return k
    for k,b in F.bodies.items():
        if b['kind']=='fn' and b['local'] and not b['closure'] and WF in k and AIM.norm_path(b['path']).endswith('::'+m): return k
def registrations(F,m):
    """[(name, function value, type)] in registration order, and the interpreter that holds the closures"""
    key=method_body(F,m)
    if key is None: return None,None
    A=AI(F,summ.base())
    def reg(ai,st,c,args):
        st=st.copy(); k=cont(ai,st,args[1]); f=cont(ai,st,args[2])
        st.ev=st.ev+(('register',(k,f),None,c.span),)
        return one(st,args[0])
    for p in(WF+'::with_f','<FA as %s>::with_f'%WF): A.anchors[p]=reg
    for p in('templito::func_man::FuncAdder::with_func','templito::func_man::FuncAdder::with_fn'): A.anchors[p]=reg
    def add(ai,st,c,args):
        reg(ai,st,c,args); st2=st.copy(); st2.ev=st.ev+(('register',(cont(ai,st,args[1]),cont(ai,st,args[2])),None,c.span),)
        return one(st2,UNIT)
    for p in('templito::func_man::FuncAdder::add_func','templito::func_man::FuncAdder::add_fn'): A.anchors[p]=add
    b=F.bodies[key]
    st=St(); self_=('sym','self')
    args=[self_]+[LOCK]*(b['argc']-1)
    outs=A.run_body(key,args,st)
    return [[(e[1][0],e[1][1]) for e in s.ev if e[0]=='register'] for s,v in outs],A
