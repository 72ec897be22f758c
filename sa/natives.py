"""Models of the standard-library and dependency functions whose bodies are not analysed.
Each model is a transfer function on abstract states: h(ai,st,c,args) -> [(state,value)] or None (no model)."""
import re
from ai import *
from lin import ladd,lconst,lscale
import effects

N={}          # normalised path -> handler
PAT=[]        # (regex, handler)
def n(*names):
    def d(f):
        for x in names: N[x]=f
        return f
    return d
def pat(*rx):
    def d(f):
        for x in rx: PAT.append((re.compile(x),f))
        return f
    return d

# ---------- helpers
def lval(st,a):
    """innermost (cell,path) a chain of &mut points to"""
    while True:
        v=st_read(st,a)
        if v[0]=='ref': a=v
        else: return a
def st_read(st,a): return AIREF[0].read(st,a[1],a[2])
AIREF=[None]
def cont(ai,st,a): return ai.deref(st,a)
def setv(ai,st,a,v):
    if a[0]!='ref': return
    t=lval(st,a); ai.write(st,t[1],t[2],v)
def strip(F,ty):
    """type behind references, boxes and Cow"""
    while True:
        t=F.types[ty]
        if t['k'] in('ref','ptr'): ty=t['t']
        elif t['k']=='adt' and t['name'] in IDENT_TYPES and t.get('args'):
            a=[x for x in t['args'] if isinstance(x,int)]
            if not a: return t
            ty=a[0]
        else: return t
def tyname(F,ty):
    t=strip(F,ty); return t.get('name') if t['k']=='adt' else t['k']
def is_string(F,ty): return tyname(F,ty) in('alloc::string::String','str','std::path::PathBuf','std::path::Path','std::ffi::os_str::OsString','std::ffi::os_str::OsStr','std::path::Display','std::ffi::os_str::Display')
MAPS={'std::collections::hash::map::HashMap':'entries','std::collections::hash::set::HashSet':'entries','hashbrown::map::HashMap':'entries',
 'alloc::collections::btree::map::BTreeMap':'oentries','alloc::collections::btree::set::BTreeSet':'oentries','serde_json::map::Map':'oentries','toml::map::Map':'oentries','indexmap::map::IndexMap':'oentries'}
def one(st,v): return [(st,v)]
def ap(name,*a): return ('ap',name)+a
def opt_result(ai,st,b,v):
    "Some(v) when b else None"
    out=[]
    for s,t in ai.branch(st,b): out.append((s,some(v) if t else NONE))
    return out
def sconst(v): return v[0]=='str'

# ---------- identities
IDENT='''core::ops::deref::Deref::deref core::clone::Clone::clone alloc::borrow::ToOwned::to_owned core::borrow::Borrow::borrow core::convert::AsRef::as_ref
alloc::string::String::as_str alloc::string::String::as_bytes alloc::string::String::into_bytes alloc::string::String::into_boxed_str core::str::<impl str>::as_bytes core::str::<impl str>::as_str alloc::vec::Vec::as_slice core::slice::<impl [T]>::as_slice
std::path::PathBuf::as_path std::path::Path::new std::path::Path::to_path_buf std::path::Path::as_os_str std::path::PathBuf::into_os_string std::path::Path::display std::path::PathBuf::as_os_str std::ffi::os_str::OsStr::to_string_lossy std::path::Path::to_string_lossy
std::ffi::os_str::OsStr::new std::ffi::os_str::OsStr::to_os_string std::ffi::os_str::OsString::as_os_str std::ffi::os_str::OsStr::display
alloc::slice::<impl [T]>::to_vec alloc::slice::<impl [T]>::into_vec alloc::vec::Vec::into_boxed_slice alloc::str::<impl str>::to_owned alloc::str::<impl str>::into_string alloc::str::<impl str>::into_boxed_str
alloc::borrow::Cow::into_owned alloc::borrow::Cow::<'_, B>::into_owned alloc::boxed::Box::new alloc::rc::Rc::new alloc::sync::Arc::new core::hint::must_use core::hint::black_box alloc::boxed::Box::pin alloc::boxed::Box::into_inner
core::mem::manually_drop::ManuallyDrop::new core::convert::identity alloc::boxed::box_assume_init_into_vec_unsafe alloc::boxed::Box::assume_init alloc::boxed::Box::leak alloc::string::String::leak
core::iter::traits::iterator::Iterator::by_ref core::iter::traits::iterator::Iterator::cloned core::iter::traits::iterator::Iterator::copied core::iter::traits::iterator::Iterator::fuse core::iter::traits::iterator::Iterator::inspect_
alloc::string::String::from_utf8_unchecked core::str::converts::from_utf8_unchecked core::option::Option::as_ref core::option::Option::as_deref core::option::Option::cloned core::option::Option::copied core::result::Result::as_ref core::result::Result::as_deref
core::option::Option::as_slice_ core::any::type_name_ core::slice::<impl [T]>::as_ptr std::io::Write::by_ref core::str::<impl str>::as_ptr_ core::cmp::Reverse_ alloc::boxed::Box::from_raw alloc::boxed::Box::into_raw core::fmt::Arguments::as_str_'''.split()
IDENT=set(IDENT)|{'alloc::boxed::Box::new','alloc::borrow::Cow::into_owned'}
def ident(ai,st,c,args):
    return one(st,cont(ai,st,args[0]))
for x in IDENT: N[x]=ident
@n('core::ops::deref::DerefMut::deref_mut','core::borrow::BorrowMut::borrow_mut','core::convert::AsMut::as_mut','alloc::vec::Vec::as_mut_slice','core::slice::<impl [T]>::as_mut_slice','alloc::string::String::as_mut_str')
def ident_mut(ai,st,c,args): return one(st,args[0])
@pat(r'^<.* as core::ops::deref::Deref>::deref$',r'^<.* as core::convert::AsRef<.*>>::as_ref$',r'^<.* as core::borrow::Borrow<.*>>::borrow$',r'^alloc::str::<impl core::borrow::Borrow<str> for alloc::string::String>::borrow$',r'^alloc::(str|slice|vec|string|borrow)::<impl .*(Borrow|AsRef|ToOwned).*>::')
def p_ident(ai,st,c,args):
    b=c.fn.get('body')
    if b in ai.F.bodies and ai.F.bodies[b]['local']: return None
    return one(st,cont(ai,st,args[0]))
@pat(r'^<.* as core::ops::deref::DerefMut>::deref_mut$')
def p_identm(ai,st,c,args): return one(st,args[0])
@pat(r'^<.* as core::clone::Clone>::clone$',r'^core::clone::impls::.*::clone$',r'^core::tuple::.*::clone$',r'^core::array::.*Clone.*::clone$')
def p_clone(ai,st,c,args): return one(st,cont(ai,st,args[0]))     # clone copies (derived impls only; see DESIGN)
@pat(r'^<alloc::string::String as core::convert::From<.*>>::from$',r'^<std::path::PathBuf as core::convert::From<.*>>::from$',r'^<alloc::vec::Vec<.*> as core::convert::From<.*>>::from$',r'^<std::ffi::os_str::OsString as core::convert::From<.*>>::from$',
     r'^<alloc::boxed::Box<.*> as core::convert::From<.*>>::from$',r'^<alloc::borrow::Cow<.*> as core::convert::From<.*>>::from$',r'^alloc::(string|vec|boxed)::<impl core::convert::From.*>::from$')
def p_from(ai,st,c,args):
    v=cont(ai,st,args[0])
    if ai.F.types[c.atys[0]]['k']=='char' if c.atys else False: v=chstr(v)
    return one(st,v)
@n('core::convert::Into::into')
def into(ai,st,c,args):
    if is_string(ai.F,c.dty): return one(st,cont(ai,st,args[0]))
    if c.fn.get('kind')=='unresolved': return one(st,ap('into',cont(ai,st,args[0])))
    return None
@n('core::convert::From::from')
def from_unres(ai,st,c,args):
    if c.fn.get('kind')=='unresolved':
        v=cont(ai,st,args[0]); return one(st,v if is_string(ai.F,c.dty) else ap('into',v))
@n('core::option::Option::as_mut','core::option::Option::as_deref_mut')
def opt_as_mut(ai,st,c,args):
    v=cont(ai,st,args[0]); a=args[0]
    if a[0]!='ref': return None
    a=lval(st,a)
    names=('None','Some')
    vn=ai.split_variant(st,v,names)
    if vn=='None': return one(st,NONE)
    ty=None
    t=ai.F.types[c.atys[0]]
    if t['k']=='ref': ty=t['t']
    return one(st,some(('ref',a[1],a[2]+(('f','Some',0,ty),))))
@n('core::mem::replace')
def mem_replace(ai,st,c,args):
    old=cont(ai,st,args[0]); setv(ai,st,args[0],args[1]); return one(st,old)
@n('core::mem::swap')
def mem_swap(ai,st,c,args):
    a,b=cont(ai,st,args[0]),cont(ai,st,args[1]); setv(ai,st,args[0],b); setv(ai,st,args[1],a); return one(st,UNIT)
def default_of(ai,ty):
    F=ai.F; t=F.types[ty]; nm=t.get('name') if t['k']=='adt' else t['k']
    if nm in('alloc::string::String','str','std::path::PathBuf'): return ('str','')
    if nm in('alloc::vec::Vec','slice'): return ('vec',())
    if nm in MAPS: return ('map0',)
    if nm=='core::option::Option': return NONE
    if nm=='int': return ('int',0)
    if nm=='bool': return FALSE
    if nm=='float': return ('float','0')
    if nm=='ref': return default_of(ai,t['t'])
    return None
@n('core::mem::take')
def mem_take(ai,st,c,args):
    d=default_of(ai,c.dty)
    if d is None: return None
    old=cont(ai,st,args[0]); setv(ai,st,args[0],d); return one(st,old)
@n('core::option::Option::take')
def opt_take(ai,st,c,args):
    old=cont(ai,st,args[0]); setv(ai,st,args[0],NONE); return one(st,old)
@n('core::option::Option::replace')
def opt_replace(ai,st,c,args):
    old=cont(ai,st,args[0]); setv(ai,st,args[0],some(args[1])); return one(st,old)
@n('core::option::Option::insert')
def opt_insert(ai,st,c,args):
    setv(ai,st,args[0],some(args[1])); a=lval(st,args[0]); return one(st,('ref',a[1],a[2]+(('f','Some',0,None),)))
@n('core::mem::drop','core::mem::forget')
def mem_drop(ai,st,c,args): return one(st,UNIT)
@n('core::default::Default::default')
def dflt(ai,st,c,args):
    d=default_of(ai,c.dty); return None if d is None else one(st,d)
@pat(r'^<.* as core::default::Default>::default$')
def p_dflt(ai,st,c,args):
    b=c.fn.get('body')
    if b in ai.F.bodies and ai.F.bodies[b]['local']: return None
    d=default_of(ai,c.dty); return None if d is None else one(st,d)
@n('alloc::boxed::Box::new_uninit')
def new_uninit(ai,st,c,args):
    cell=ai.fresh('new'); st=st.copy(); st.mem[cell]=('undef',cell); return one(st,('ref',cell,()))
def box_vec(ai,st,c,args): return one(st,cont(ai,st,args[0]))
N['alloc::boxed::box_assume_init_into_vec_unsafe']=box_vec
@pat(r'^core::(intrinsics|ptr)::(mut_ptr::|const_ptr::|non_null::)?.*$')
def p_intr(ai,st,c,args):
    m=c.rpath.split('::')[-1]
    if m in('integer_max','integer_min','maxnumf64','minnumf64'):
        a,b=args
        if m.startswith('integer'):
            out=[]
            for s,t in ai.branch(st,ge(a,b)): out.append((s,a if t==(m=='integer_max') else b))
            return out
    if m in('assume','assert_unsafe_precondition','ub_checks','cold_path','likely','unlikely') : return one(st,args[0] if args else UNIT)
    if m in('add_with_overflow','sub_with_overflow','mul_with_overflow'):
        it=int_of(ai,c,args); op={'a':'Add','s':'Sub','m':'Mul'}[m[0]]
        r=ai.arith(op,*args); return one(st,('tup',(r,ai.ovf(st,tolin(r),it))))
    if m in('wrapping_add','wrapping_sub','wrapping_mul'):
        return wrapping(ai,st,c,args,m)
    if m in('unchecked_add','unchecked_sub','unchecked_mul'): return one(st,ai.arith({'a':'Add','s':'Sub','m':'Mul'}[m[10]],*args))
    if m in('unchecked_div','exact_div'): return one(st,ai.typed(ai.div(st,*args),c.dty))
    if m=='unchecked_rem': return one(st,ai.typed(ai.rem(st,*args),c.dty))
    if m=='three_way_compare': return one(st,ai.cmp3(st,args[0],args[1]))
    if m=='discriminant_value':
        v=cont(ai,st,args[0]); t=strip(ai.F,c.atys[0])
        for i,x in enumerate(ai.F.types):
            if x is t: return one(st,ai.discr(st,v,i))
    if m=='size_of' : return one(st,ai.typed(ap('size_of',('ty',str(c.fn.get('args')))),c.dty))
    if m in('read','read_volatile') and args: return one(st,cont(ai,st,args[0]))
    if m in('write',) and len(args)==2: setv(ai,st,args[0],args[1]); return one(st,UNIT)
    if m=='drop_in_place': return one(st,UNIT)
    return None

# ---------- integers
def int_of(ai,c,args):
    for t in c.atys:
        k=strip(ai.F,t)
        if k['k']=='int': return (k['signed'],k['bits'])
    k=ai.F.types[c.dty]
    return (k['signed'],k['bits']) if k['k']=='int' else (False,64)
def wrapping(ai,st,c,args,m):
    it=int_of(ai,c,args); op={'add':'Add','sub':'Sub','mul':'Mul','neg':'Neg','div':'Div','rem':'Rem','abs':'Abs'}.get(m.split('_')[1])
    if op is None: return one(st,ai.typed(ap(m,*args),c.dty))
    if op in('Div','Rem'):
        ai.must(st,mk_not(mk_eq0(tolin(args[1]))),'division by zero',c.span); 
        r=(ai.div if op=='Div' else ai.rem)(st,*args)
    elif op=='Neg': r=isub(('int',0),args[0])
    elif op=='Abs': return one(st,ai.typed(ap(m,*args),c.dty))
    else: r=ai.arith(op,*args)
    t=ai.truth(st,('ovf',tolin(r),it)) if r[0]!='int' else (ai.ovf(st,tolin(r),it)==TRUE)
    if t is False: return one(st,ai.typed(r,c.dty))
    return one(st,ai.typed(('wrap',op,args[0],args[1] if len(args)>1 else UNIT,it),c.dty))
def ovf_branch(ai,st,r,it):
    """[(state, fits?)]"""
    b=ai.ovf(st,tolin(r),it); out=[]
    if ai.size_ok(st,b): return [(st,True)]
    for s,t in ai.branch(st,b): out.append((s,not t))
    return out
@pat(r'^core::num::<impl [iu](size|8|16|32|64|128)>::\w+$')
def p_num(ai,st,c,args):
    m=c.rpath.split('::')[-1]; it=int_of(ai,c,args); a=[cont(ai,st,x) for x in args]
    fam,_,op=m.partition('_')
    if fam in('checked','overflowing','saturating','strict') and op in('add','sub','mul','neg','abs','div','rem','add_signed','sub_unsigned','add_unsigned','sub_signed','div_euclid','rem_euclid','pow'):
        def res(s,r,fit):
            if fam=='checked': return (s,some(r) if fit else NONE)
            if fam=='overflowing': return (s,('tup',(r if fit else ('wrap',op,a[0],a[-1],it),('bool',not fit))))
            return (s,r if fit else ai.typed(ap(m,*a),c.dty))
        if op in('div','rem','div_euclid','rem_euclid'):
            out=[]
            for s,z in ai.branch(st,mk_eq0(tolin(a[1]))):
                if z:
                    if fam=='checked': out.append((s,NONE))
                    else: ai.must(s,FALSE,'division by zero',c.span)
                    continue
                if op.endswith('euclid') and it[0]: 
                    out.append((s,some(ai.typed(ap(op,*a),c.dty)) if fam=='checked' else ai.typed(ap(m,*a),c.dty))); continue
                q=(ai.div if op.startswith('div') else ai.rem)(s,a[0],a[1])
                ai.tyr.setdefault(q,it)
                if it[0]:
                    lo,_h=ai.range_of(it)
                    for s1,x in ai.branch(s,mk_eq0(ladd(tolin(a[1]),lconst(1)))):
                        if not x: out.append(res(s1,q,True)); continue
                        for s2,y in ai.branch(s1,mk_eq0(ladd(tolin(a[0]),lconst(-lo)))): out.append(res(s2,q,not y))
                else: out.append(res(s,q,True))
            return out
        if op=='pow': return one(st,ai.typed(ap(m,*a),c.dty))
        if op=='neg': r=isub(('int',0),a[0])
        elif op=='abs':
            out=[]
            for s,t in ai.branch(st,ge(a[0],('int',0))):
                r=a[0] if t else isub(('int',0),a[0])
                for s2,fit in ovf_branch(ai,s,r,it): out.append(res(s2,r,fit))
            return out
        else: r=ai.arith({'add':'Add','sub':'Sub','mul':'Mul'}[op.split('_')[0]],a[0],a[1])
        out=[]
        for s,fit in ovf_branch(ai,st,r,it):
            if fam=='checked': out.append((s,some(r) if fit else NONE))
            elif fam=='overflowing': out.append((s,('tup',(r if fit else ('wrap',op,a[0],a[-1],it),('bool',not fit)))))
            elif fam=='saturating':
                if fit: out.append((s,r))
                else:
                    lo,hi=ai.range_of(it); up=ladd(tolin(r),lconst(-hi-1))
                    for s2,t in ai.branch(s,mk_ge0(up)):
                        if not t: s2=s2.copy(); ai.add_lin(s2,ladd(lconst(lo-1),tolin(r),-1))
                        out.append((s2,('int',hi if t else lo)))
            else:
                if fit: out.append((s,r))
                else: ai.must(s,FALSE,'overflow in '+m,c.span)
        return out
    if fam=='wrapping': return wrapping(ai,st,c,a,m)
    if m in('min_value','max_value'): return one(st,('int',ai.range_of(it)[m=='max_value']))
    if m=='pow': 
        if a[0][0]=='int' and a[1][0]=='int' and a[1][1]<200:
            r=a[0][1]**a[1][1]; ai.must(st,ai.ovf(st,lconst(r),it)==FALSE and TRUE or FALSE,'overflow in pow',c.span); return one(st,('int',r))
        ai.must(st,ap('pow_fits',*a),'overflow in pow',c.span); return one(st,ai.typed(ap(m,*a),c.dty))
    if m=='abs':
        out=[]
        for s,t in ai.branch(st,ge(a[0],('int',0))):
            r=a[0] if t else isub(('int',0),a[0])
            ai.must(s,mk_not(ai.ovf(s,tolin(r),it)),'overflow in abs',c.span); out.append((s,r))
        return out
    if m in('unsigned_abs','abs_diff'):
        if m=='abs_diff': x,y=a; 
        else: x,y=a[0],('int',0)
        return [(s,isub(x,y) if t else isub(y,x)) for s,t in ai.branch(st,ge(x,y))]
    if m in('is_positive','is_negative'): return one(st,ge(a[0],('int',1)) if m=='is_positive' else mk_not(ge(a[0],('int',0))))
    if m=='signum': return None
    if m in('div_ceil','div_euclid','rem_euclid','next_multiple_of','ilog2','ilog10','ilog','isqrt'):
        if m in('div_ceil','div_euclid','rem_euclid','next_multiple_of'): ai.must(st,mk_not(mk_eq0(tolin(a[1]))),'division by zero in '+m,c.span)
        if not it[0] and m=='div_euclid': return one(st,ai.typed(ai.div(st,*a),c.dty))
        if not it[0] and m=='rem_euclid': return one(st,ai.typed(ai.rem(st,*a),c.dty))
        if not it[0] and m=='div_ceil':   # (a+b-1)/b
            return one(st,ai.typed(ai.div(st,isub(iadd(a[0],a[1]),('int',1)),a[1]),c.dty))
        if m.startswith('ilog'): ai.must(st,ge(a[0],('int',1)),'logarithm of zero',c.span)
        return one(st,ai.typed(ap(m,*a),c.dty))
    if m in('from_str_radix','from_str'): return one(st,ap(c.rpath,*a))
    return None
@pat(r'^core::convert::num::.*::try_from$',r'^core::convert::num::ptr_try_from_impls::.*::try_from$')
def p_tryfrom(ai,st,c,args):
    t=ai.F.types[c.dty]
    if t['k']!='adt': return None
    it=next(((ai.F.types[x]['signed'],ai.F.types[x]['bits']) for x in t['args'] if isinstance(x,int) and ai.F.types[x]['k']=='int'),None)
    if it is None: return None
    v=cont(ai,st,args[0]); out=[]
    b=ai.ovf(st,tolin(v),it)
    for s,o in ai.branch(st,b): out.append((s,err(('zst','TryFromIntError')) if o else ok(v)))
    return out
@pat(r'^core::convert::num::<impl core::convert::From<.*>>::from$',r'^core::convert::num::<impl core::convert::From<.*> for .*>::from$')
def p_numfrom(ai,st,c,args):
    t=ai.F.types[c.dty]; v=cont(ai,st,args[0])
    if t['k']=='int': return one(st,v)
    if t['k']=='float':
        f=ai.F.types[c.atys[0]]
        return one(st,('i2f',v,64) if f['k']=='int' else v)
    return None
@pat(r'^(core|std)::f64::<impl f64>::\w+$',r'^core::num::f64::<impl f64>::\w+$')
def p_f64(ai,st,c,args):
    m=c.rpath.split('::')[-1]; a=[cont(ai,st,x) for x in args]
    if m=='is_nan': return one(st,mk_not(ai.fcmp(st,'Eq',a[0],a[0])))
    if m=='total_cmp': return one(st,ap('ftotal',*a))
    if m in('to_bits','abs','floor','ceil','round','trunc','sqrt','fract','signum','powi','powf','is_finite','is_infinite','mul_add','rem_euclid','exp','ln'): return one(st,ai.typed(ap('f64::'+m,*a),c.dty))
    if m=='clamp': ai.must(st,ap('fclamp_ok',*a[1:]),'f64::clamp bounds',c.span)
    return one(st,ai.typed(ap('f64::'+m,*a),c.dty))
@n('core::char::from_u32','core::char::methods::<impl char>::from_u32','core::char::convert::from_u32')
def from_u32(ai,st,c,args): 
    if args[0][0]=='int':
        x=args[0][1]
        return one(st,NONE if x>0x10ffff or 0xd800<=x<0xe000 else some(('char',x)))
    return one(st,ap('char::from_u32',args[0]))
@n('core::char::methods::<impl char>::len_utf8')
def len8(ai,st,c,args):
    return one(st,('int',len(chr(args[0][1]).encode())) if args[0][0]=='char' else ('clen8',args[0]))

# ---------- strings
# no list or text in memory is longer than 2**48, so a capacity of the order of a length is safe
def capacity(ai,st,c,args):
    for a in args: ai.must(st,ge(('int',1<<56),a),'capacity overflow',c.span)
def chstr(v): return ('str',chr(v[1])) if v[0] in('char','int') else ('chstr',v)
@n('alloc::string::String::new','std::path::PathBuf::new','alloc::string::String::with_capacity','std::path::PathBuf::with_capacity','std::ffi::os_str::OsString::new')
def s_new(ai,st,c,args): return capacity(ai,st,c,args[:1]) or one(st,('str',''))
@n('alloc::string::String::push_str','std::ffi::os_str::OsString::push')
def push_str(ai,st,c,args):
    setv(ai,st,args[0],ai.cat(cont(ai,st,args[0]),cont(ai,st,args[1]))); return one(st,UNIT)
@n('alloc::string::String::push')
def s_push(ai,st,c,args):
    setv(ai,st,args[0],ai.cat(cont(ai,st,args[0]),chstr(cont(ai,st,args[1])))); return one(st,UNIT)
@n('<alloc::string::String as core::ops::arith::Add<&str>>::add')
def s_add(ai,st,c,args): return one(st,ai.cat(cont(ai,st,args[0]),cont(ai,st,args[1])))
@n('<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign')
def s_adda(ai,st,c,args): return push_str(ai,st,c,args)
@n('alloc::string::String::clear','alloc::vec::Vec::clear','std::collections::hash::map::HashMap::clear')
def s_clear(ai,st,c,args):
    setv(ai,st,args[0],('str','') if 'String' in c.rpath else ('map0',) if 'Map' in c.rpath else ('vec',())); return one(st,UNIT)
@n('alloc::string::String::len','core::str::<impl str>::len','alloc::vec::Vec::len','core::slice::<impl [T]>::len','std::ffi::os_str::OsStr::len')
def seqlen(ai,st,c,args): return one(st,ai.seq_len(st,cont(ai,st,args[0])))
@n('alloc::string::String::is_empty','core::str::<impl str>::is_empty','alloc::vec::Vec::is_empty','core::slice::<impl [T]>::is_empty')
def seqempty(ai,st,c,args): return one(st,mk_eq0(tolin(ai.seq_len(st,cont(ai,st,args[0])))))
@n('alloc::string::String::reserve','alloc::vec::Vec::reserve','alloc::string::String::shrink_to_fit','alloc::string::String::reserve_exact','alloc::vec::Vec::reserve_exact','alloc::vec::Vec::shrink_to_fit','std::collections::hash::map::HashMap::reserve')
def reserve(ai,st,c,args): return capacity(ai,st,c,args[1:]) or one(st,UNIT)
@n('alloc::string::String::from_utf8_lossy')
def lossy(ai,st,c,args): return one(st,ap('lossy',cont(ai,st,args[0])))
@n('alloc::string::String::from_utf8','core::str::converts::from_utf8')
def from_utf8(ai,st,c,args):
    v=cont(ai,st,args[0])
    return [(s,ok(v) if t else err(ap('utf8err',v))) for s,t in ai.branch(st,('isutf8',v))]
@n('std::ffi::os_str::OsStr::to_str','std::path::Path::to_str','std::ffi::os_str::OsString::into_string_')
def os_to_str(ai,st,c,args):
    v=cont(ai,st,args[0]); return opt_result(ai,st,('isutf8',v),v)
@n('core::str::<impl str>::chars')
def chars(ai,st,c,args):
    s=('chars',cont(ai,st,args[0])); return one(st,It('slice',s,('int',0),ai.seq_len(st,s)))
@n('core::str::<impl str>::char_indices')
def char_indices(ai,st,c,args):
    s=('chars',cont(ai,st,args[0])); return one(st,It('ci',s,('int',0),ai.seq_len(st,s)))
@n('core::str::<impl str>::bytes')
def s_bytes(ai,st,c,args):
    s=cont(ai,st,args[0]); return one(st,It('slice',s,('int',0),ai.seq_len(st,s)))
@n('core::str::<impl str>::lines','core::str::<impl str>::split','core::str::<impl str>::split_whitespace','core::str::<impl str>::splitn','core::str::<impl str>::rsplit','core::str::<impl str>::split_terminator','core::str::<impl str>::split_inclusive','core::str::<impl str>::matches','core::str::<impl str>::split_ascii_whitespace')
def s_split(ai,st,c,args):
    s=(c.rpath.split('::')[-1],)+tuple(cont(ai,st,a) for a in args); s=('splitseq',)+s
    return one(st,It('slice',s,('int',0),ai.seq_len(st,s)))
@n('core::str::<impl str>::contains','core::str::<impl str>::starts_with','core::str::<impl str>::ends_with','core::str::<impl str>::eq_ignore_ascii_case','core::str::<impl str>::is_char_boundary')
def s_test(ai,st,c,args):
    m=c.rpath.split('::')[-1]; a=[cont(ai,st,x) for x in args]
    if m=='is_char_boundary': return one(st,boundary_b(ai,st,a[0],a[1]))
    run_pattern(ai,st,c,a[1] if len(a)>1 else None)
    if a[0][0]=='str' and a[1][0] in('str','char'):
        if a[1][0]=='char': a[1]=chstr(a[1])
        return one(st,('bool',{'contains':lambda x,y:y in x,'starts_with':str.startswith,'ends_with':str.endswith,'eq_ignore_ascii_case':lambda x,y:x.lower()==y.lower()}[m](a[0][1],a[1][1])))
    if m=='contains' and is_sep_test(ai,st,c,a[1]): return one(st,('ap','str_contains',a[0],SEPTERM))
    return one(st,('ap','str_'+m,a[0],chstr(a[1]) if a[1][0]=='char' else a[1]))
SEPTERM=('fn','std::path::is_separator')
def is_sep_test(ai,st,c,f):
    "does f (a function or closure of one character) test for a path separator and nothing else?"
    if f[0] in('char','str'): return f in(('char',47),('str','/'))
    if f[0] not in('fn','clo') or len(ai.stack)>40: return False
    x=('patch',c.span); ai.tyr[x]=('char',21)
    outs=retried(ai,st.copy(),lambda s: ai.invoke(s,f,[x],c))
    return len(outs)==1 and len(outs[0][0].ev)==len(st.ev) and outs[0][1] in(ap(SEPFN,x),mk_eq0(ladd(tolin(x),tolin(('char',47)),-1)))
def run_pattern(ai,st,c,p):
    """analyse a closure used as a string pattern"""
    if p is not None and p[0]=='clo':
        x=('patch',c.span); ai.tyr[x]=('char',21)
        ai.retry(st,lambda s: ai.invoke(s,p,[x],c))
@n('core::str::<impl str>::trim','core::str::<impl str>::trim_start','core::str::<impl str>::trim_end','alloc::str::<impl str>::to_lowercase','alloc::str::<impl str>::to_uppercase','alloc::str::<impl str>::replace','alloc::str::<impl str>::replacen','core::str::<impl str>::trim_matches','core::str::<impl str>::trim_start_matches','core::str::<impl str>::trim_end_matches','alloc::str::<impl str>::to_ascii_lowercase','alloc::str::<impl str>::to_ascii_uppercase')
def s_pure(ai,st,c,args):
    a=[cont(ai,st,x) for x in args]
    if len(a)>1: run_pattern(ai,st,c,a[1])
    return one(st,('ap','str_'+c.rpath.split('::')[-1])+tuple(a))
@n('core::str::<impl str>::find','core::str::<impl str>::rfind')
def s_find(ai,st,c,args):
    a=[cont(ai,st,x) for x in args]; run_pattern(ai,st,c,a[1])
    t=('ap','str_'+c.rpath.split('::')[-1])+tuple(a)
    v=ai.split_variant(st,t,('None','Some'))
    if v=='None': return one(st,NONE)
    p=('bpos',t); ai.tyr[p]=(False,64)
    ai.add_lin(st,ladd(tolin(ai.seq_len(st,a[0])),tolin(p),-1))
    return one(st,some(p))
@n('core::str::<impl str>::strip_prefix','core::str::<impl str>::strip_suffix','core::str::<impl str>::split_once','core::str::<impl str>::rsplit_once','core::str::<impl str>::parse')
def s_opt(ai,st,c,args):
    if c.rpath.endswith('::parse'):
        # the reader of one of /repo's own types
        a=ai.F.types[c.dty].get('args') or [None]; t=ai.F.types[a[0]] if isinstance(a[0],int) else {}
        k='<%s as core::str::traits::FromStr>::from_str'%t.get('name')
        if t.get('k')=='adt' and k in ai.F.bodies:
            h=ai.anchors.get(k)
            if h is not None:
                r=h(ai,st,c,args)
                if r is not None: return r
            elif not any(x==k for x,_ in ai.stack): return ai.run_body(k,[cont(ai,st,args[0])],st)
    return one(st,('ap','str_'+c.rpath.split('::')[-1],('ty',str(c.dty)))+tuple(cont(ai,st,x) for x in args))
@n('core::str::<impl str>::repeat','alloc::str::<impl str>::repeat','alloc::slice::<impl [T]>::repeat')
def s_repeat(ai,st,c,args):
    ai.must(st,ge(('int',1<<16),args[1]),'capacity overflow in repeat',c.span); return one(st,('ap','repeat',cont(ai,st,args[0]),args[1]))
@n('alloc::string::String::truncate','alloc::string::String::remove','alloc::string::String::insert','alloc::string::String::insert_str','alloc::string::String::split_off','alloc::string::String::drain')
def s_idx(ai,st,c,args):
    m=c.rpath.split('::')[-1]; s=cont(ai,st,args[0]); i=args[1]
    nlen=ai.seq_len(st,s)
    if i[0]=='adt': a,b=range_of(ai,st,i,nlen)
    else: a,b=i,nlen
    if m=='truncate':
        if ai.prove_ge(st,a,nlen): return one(st,UNIT)
    ai.must(st,ge(b,a),'string index in String::'+m,c.span); ai.must(st,ge(nlen,iadd(a,('int',1)) if m=='remove' else b),'string index in String::'+m,c.span)
    ai.must(st,boundary_b(ai,st,s,a),'char boundary in String::'+m,c.span)
    if m=='truncate': setv(ai,st,args[0],ai.seq_slice(st,s,('int',0),a)); return one(st,UNIT)
    if m in('insert','insert_str'):
        x=cont(ai,st,args[2]); x=chstr(x) if m=='insert' else x
        setv(ai,st,args[0],ai.cat(ai.seq_slice(st,s,('int',0),a),x,ai.seq_slice(st,s,a,nlen))); return one(st,UNIT)
    setv(ai,st,args[0],('havoc',ai.fresh('new'),m)); return one(st,('ap','String_'+m,s,i))
@n('alloc::string::String::pop')
def s_pop(ai,st,c,args):
    s=cont(ai,st,args[0]); setv(ai,st,args[0],('ap','String_popped',s)); return one(st,('ap','String_pop',s))
def boundary_b(ai,st,s,i):
    """boolean term: i is a char boundary of s"""
    if i==('int',0) or ai.prove_eq(st,i,ai.seq_len(st,s)): return TRUE
    b=base_str(s)
    if i[0]=='cidx' and i[1]==b: return TRUE
    if i[0]=='bpos' and i[1][2]==s: return TRUE
    # cidx + length of that char (or of an ascii char)
    if i[0]=='lin':
        d=dict(i[2])
        ci=[a for a in d if a[0]=='cidx' and a[1]==b and d[a]==1]
        if ci:
            ch=('elem',('chars',b),ci[0][2])
            if i[1]==0 and len(d)==2 and d.get(('clen8',ch))==1: return TRUE
            if i[1]==1 and len(d)==1 and ai.truth(st,ge(('int',127),ch)) is True: return TRUE
    if ('bnd',s,i) in st.notes: return TRUE
    return ('bnd',s,i)
def base_str(s): return s
@n('core::str::<impl str>::split_at','core::slice::<impl [T]>::split_at','alloc::vec::Vec::split_off')
def split_at(ai,st,c,args):
    s=cont(ai,st,args[0]); i=args[1]; nl=ai.seq_len(st,s)
    ai.must(st,ge(nl,i),'split index',c.span)
    if '<impl str>' in c.rpath: ai.must(st,boundary_b(ai,st,s,i),'char boundary in split_at',c.span)
    a,b=ai.seq_slice(st,s,('int',0),i),ai.seq_slice(st,s,i,nl)
    if c.rpath.endswith('split_off'): setv(ai,st,args[0],a); return one(st,b)
    return one(st,('tup',(a,b)))
@pat(r'^<.*alloc::string::String as core::cmp::PartialEq.*>::(eq|ne)$',r'^alloc::string::<impl core::cmp::PartialEq.*>::(eq|ne)$',r'^core::str::traits::<impl core::cmp::PartialEq for str>::(eq|ne)$',
     r'^<std::path::Path(Buf)? as core::cmp::PartialEq.*>::(eq|ne)$',r'^<&str as core::cmp::PartialEq.*>::(eq|ne)$',r'^<std::ffi::os_str::OsStr(ing)? as core::cmp::PartialEq.*>::(eq|ne)$',r'^std::(path|ffi::os_str)::<impl core::cmp::PartialEq.*>::(eq|ne)$',
     r'^<alloc::borrow::Cow<.*str> as core::cmp::PartialEq.*>::(eq|ne)$')
def str_eq(ai,st,c,args):
    b=mk_eqs(cont(ai,st,args[0]),cont(ai,st,args[1]))
    return one(st,mk_not(b) if c.rpath.endswith('ne') else b)
def mk_eqs(a,b):
    if a==b: return TRUE
    if a[0]=='str' and b[0]=='str': return ('bool',a[1]==b[1])
    if a[0]=='str': a,b=b,a
    if b[0]!='str' and repr(a)>repr(b): a,b=b,a
    return ('eqs',a,b)
@pat(r'^<std::path::Component.* as core::cmp::PartialEq.*>::(eq|ne)$',r'^<std::io::error::ErrorKind as core::cmp::PartialEq.*>::(eq|ne)$')
def enum_eq(ai,st,c,args):
    a,b=cont(ai,st,args[0]),cont(ai,st,args[1])
    if a[0]=='adt': a,b=b,a
    neg=c.rpath.endswith('ne')
    if b[0]=='adt' and not b[3] and b[2]:
        if a[0]=='adt': r=('bool',a[2]==b[2])
        else:
            t=strip(ai.F,c.atys[0]); ns=[x['name'] for x in t.get('variants',())]
            if ns and st.var.get(a) is None: ai.set_var(st,a,frozenset(ns))
            r=('isvar',a,b[2])
    else: r=('eqs',)+tuple(sorted((a,b),key=repr))
    return one(st,mk_not(r) if neg else r)
@pat(r'^<alloc::vec::Vec<.*> as core::cmp::PartialEq.*>::(eq|ne)$',r'^alloc::vec::partial_eq::<impl .*>::(eq|ne)$',r'^core::slice::cmp::<impl core::cmp::PartialEq.*>::(eq|ne)$',r'^<std::collections::hash::map::HashMap<.*> as core::cmp::PartialEq.*>::(eq|ne)$',
     r'^<chrono::.* as core::cmp::PartialEq.*>::(eq|ne)$',r'^<alloc::boxed::Box<.*> as core::cmp::PartialEq.*>::(eq|ne)$')
def vec_eq(ai,st,c,args):
    a,b=cont(ai,st,args[0]),cont(ai,st,args[1])
    if repr(a)>repr(b): a,b=b,a
    t=tyname(ai.F,c.atys[0])
    r=('eqv',t,a,b)
    if t.startswith('chrono') and a==b: r=TRUE
    return one(st,mk_not(r) if c.rpath.endswith('ne') else r)
@pat(r'^<(alloc::string::String|str|chrono::.*|std::path::Path(Buf)?) as core::cmp::(PartialOrd|Ord)>::(partial_cmp|cmp)$',r'^core::str::traits::<impl core::cmp::(PartialOrd|Ord) for str>::(partial_cmp|cmp)$',
     r'^<alloc::vec::Vec<.*> as core::cmp::(PartialOrd|Ord).*>::(partial_cmp|cmp)$',r'^core::slice::cmp::<impl core::cmp::(PartialOrd|Ord).*>::(partial_cmp|cmp)$')
def str_cmp(ai,st,c,args):
    a,b=cont(ai,st,args[0]),cont(ai,st,args[1]); m=c.rpath.split('::')[-1]
    t=tyname(ai.F,c.atys[0]); kind={'alloc::string::String':'text','str':'text'}.get(t,t)
    if a==b and kind!='alloc::vec::Vec': r=adt(ORD,'Equal')
    else: r=('ord',kind,a,b)
    if kind=='alloc::vec::Vec' and m=='partial_cmp': return one(st,('pord',kind,a,b))
    return one(st,some(r) if m=='partial_cmp' else r)

# ---------- formatting
FM='core::fmt::'
def disp(ai,ty,v,how='disp'):
    """text of a value under Display"""
    F=ai.F
    if how=='disp':
        t=strip(F,ty)
        if is_string(F,ty): return v
        if t['k']=='char': return chstr(v)
        if v[0]=='int' and t['k']=='int': return ('str',str(v[1]))
        if v[0]=='bool': return ('str','true' if v[1] else 'false')
        if t['k']=='adt' and t['name']=='core::fmt::Arguments': return render(ai,v)
    return (how,v)
@n('core::fmt::rt::Argument::new_display','core::fmt::rt::Argument::new_debug','core::fmt::rt::Argument::new_lower_hex','core::fmt::rt::Argument::new_upper_hex','core::fmt::rt::Argument::new_lower_exp')
def new_arg(ai,st,c,args):
    how={'new_display':'disp','new_debug':'dbg'}.get(c.rpath.split('::')[-1],c.rpath.split('::')[-1])
    v=cont(ai,st,args[0])
    ty=c.atys[0]
    return one(st,('farg',how,v,disp(ai,ty,v,how)))
@n('core::fmt::Arguments::new','core::fmt::rt::<impl core::fmt::Arguments>::new','core::fmt::Arguments::new_v1')
def new_args(ai,st,c,args):
    t=cont(ai,st,args[0]); a=cont(ai,st,args[1]) if len(args)>1 else ('vec',())
    return one(st,('fargs',t,a))
@n('core::fmt::Arguments::from_str','core::fmt::Arguments::new_const','core::fmt::rt::<impl core::fmt::Arguments>::new_const')
def args_str(ai,st,c,args): return one(st,('fargs_s',cont(ai,st,args[0])))
def render(ai,f):
    if f[0]=='fargs_s': return f[1]
    if f[0]!='fargs': return ('fmtd',f)
    t,a=f[1],f[2]
    if t[0] not in('bytes','str'): return ('fmtd',f)
    if a[0]!='vec': return ('fmtd',f)
    b=bytes(t[1]) if t[0]=='bytes' else t[1].encode('latin1')
    av=a[1]; out=[]; i=0; nxt=0
    try:
        while i<len(b):
            x=b[i]; i+=1
            if x==0: break
            if x<0x80: out.append(('str',b[i:i+x].decode())); i+=x
            elif x==0x80:
                l=b[i]|b[i+1]<<8; i+=2; out.append(('str',b[i:i+l].decode())); i+=l
            else:
                fl=None; spec=[]
                if x&1: spec.append(('flags',int.from_bytes(b[i:i+4],'little'))); i+=4
                if x&2: spec.append(('w',int.from_bytes(b[i:i+2],'little'))); i+=2
                if x&4: spec.append(('p',int.from_bytes(b[i:i+2],'little'))); i+=2
                if x&8: nxt=int.from_bytes(b[i:i+2],'little'); i+=2
                g=av[nxt]; nxt+=1
                out.append(g[3] if not spec and not x&0x30 else ('fmtspec',tuple(spec),g))
    except Exception: return ('fmtd',f)
    return ai.cat(*out) if out else ('str','')
@n('alloc::fmt::format','alloc::fmt::format::format_inner')
def fmt_format(ai,st,c,args): return one(st,render(ai,cont(ai,st,args[0])))
@n('alloc::string::ToString::to_string','<T as alloc::string::ToString>::to_string','<T as alloc::string::SpecToString>::spec_to_string')
def to_string(ai,st,c,args): return one(st,disp(ai,c.atys[0],cont(ai,st,args[0])))
@pat(r'^<.* as alloc::string::(Spec)?ToString>::(spec_)?to_string$')
def p_to_string(ai,st,c,args): return to_string(ai,st,c,args)
def sink_kind(ai,ty):
    nme=tyname(ai.F,ty)
    if nme in('alloc::string::String','core::fmt::Formatter'): return 'text'
    return nme
@n('core::fmt::Write::write_fmt','core::fmt::Formatter::write_fmt','core::fmt::Formatter::write_str','core::fmt::Write::write_str','core::io::write::Write::write_fmt','std::io::Write::write_fmt','core::io::write::Write::write_all','std::io::Write::write_all','core::fmt::Formatter::pad','core::fmt::Write::write_char')
def write_fmt(ai,st,c,args):
    m=c.rpath.split('::')[-1]; v=cont(ai,st,args[1])
    if m=='write_fmt': v=render(ai,v)
    elif m=='write_char': v=chstr(v)
    old=cont(ai,st,args[0])
    if 'fmt::' in c.rpath:
        setv(ai,st,args[0],ai.cat(old,v)); return one(st,ok(UNIT))
    r=ai.fresh('ret','write'); st=st.copy(); st.ev=st.ev+(('io:write',(old,v),r,c.span),); return one(st,r)
@pat(r'^<alloc::string::String as core::fmt::Write>::write_(str|fmt|char)$')
def p_swrite(ai,st,c,args): return write_fmt(ai,st,c,args)
@pat(r'^<.* as core::fmt::Display>::fmt$')
def p_dispfmt(ai,st,c,args):
    b=c.fn.get('body')
    if b in ai.F.bodies and ai.F.bodies[b]['local'] and not any(k==b for k,_ in ai.stack): return None
    setv(ai,st,args[1],ai.cat(cont(ai,st,args[1]),disp(ai,c.atys[0],cont(ai,st,args[0])))); return one(st,ok(UNIT))
@n('core::fmt::Display::fmt')
def dispfmt(ai,st,c,args): 
    if c.fn.get('body') in ai.F.bodies and ai.F.bodies[c.fn['body']]['local']: return None
    return p_dispfmt(ai,st,c,args)
@n('std::io::stdio::_print','std::io::stdio::_eprint')
def prnt(ai,st,c,args): return one(st,UNIT)

# ---------- vectors and slices
@n('alloc::vec::Vec::new','alloc::vec::Vec::with_capacity','alloc::collections::vec_deque::VecDeque::new')
def v_new(ai,st,c,args): return capacity(ai,st,c,args[:1]) or one(st,('vec',()))
def snoc(b,x): return ('vec',b[1]+(x,)) if b[0]=='vec' and len(b[1])<6 else ('snoc',b,x)
@n('alloc::vec::Vec::push','alloc::collections::vec_deque::VecDeque::push_back')
def v_push(ai,st,c,args):
    setv(ai,st,args[0],snoc(cont(ai,st,args[0]),args[1])); return one(st,UNIT)
@n('alloc::vec::Vec::pop','alloc::collections::vec_deque::VecDeque::pop_back')
def v_pop(ai,st,c,args):
    v=cont(ai,st,args[0]); nl=ai.seq_len(st,v); out=[]
    for s,t in ai.branch(st,ge(nl,('int',1))):
        if t:
            x=ai.seq_get(s,v,isub(nl,('int',1)))
            setv(ai,s,args[0],v[1] if v[0]=='snoc' else ('vec',v[1][:-1]) if v[0]=='vec' and v[1] else ('popd',v)); out.append((s,some(x)))
        else: out.append((s,NONE))
    return out
@n('alloc::vec::Vec::insert')
def v_insert(ai,st,c,args):
    v=cont(ai,st,args[0]); i=args[1]; nl=ai.seq_len(st,v)
    ai.must(st,ge(nl,i),'insertion index',c.span)
    if i==('int',0): setv(ai,st,args[0],ai.cat(('vec',(args[2],)),v)); return one(st,UNIT)
    setv(ai,st,args[0],ai.cat(ai.seq_slice(st,v,('int',0),i),('vec',(args[2],)),ai.seq_slice(st,v,i,nl))); return one(st,UNIT)
@n('alloc::vec::Vec::remove','alloc::vec::Vec::swap_remove')
def v_remove(ai,st,c,args):
    v=cont(ai,st,args[0]); i=args[1]; nl=ai.seq_len(st,v)
    ai.must(st,ge(nl,iadd(i,('int',1))),'removal index',c.span)
    x=ai.seq_get(st,v,i)
    nv=ai.cat(ai.seq_slice(st,v,('int',0),i),ai.seq_slice(st,v,iadd(i,('int',1)),nl)) if c.rpath.endswith('::remove') else ('ap','swap_removed',v,i)
    setv(ai,st,args[0],nv); return one(st,x)
@n('alloc::vec::Vec::truncate')
def v_trunc(ai,st,c,args):
    v=cont(ai,st,args[0]); nl=ai.seq_len(st,v); out=[]
    for s,t in ai.branch(st,ge(args[1],nl)):
        if not t: setv(ai,s,args[0],ai.seq_slice(s,v,('int',0),args[1]))
        out.append((s,UNIT))
    return out
@n('alloc::vec::Vec::extend_from_slice','alloc::vec::Vec::append')
def v_extslice(ai,st,c,args):
    b=cont(ai,st,args[1]); setv(ai,st,args[0],ai.cat(cont(ai,st,args[0]),b))
    if c.rpath.endswith('append'): setv(ai,st,args[1],('vec',()))
    return one(st,UNIT)
@n('core::slice::<impl [T]>::iter')
def sl_iter(ai,st,c,args):
    s=cont(ai,st,args[0]); return one(st,It('slice',s,('int',0),ai.seq_len(st,s)))
@n('core::slice::<impl [T]>::iter_mut')
def sl_iter_mut(ai,st,c,args):
    s=cont(ai,st,args[0]); return one(st,It('mut',lval(st,args[0]),('int',0),ai.seq_len(st,s)))
@n('core::slice::<impl [T]>::first','core::slice::<impl [T]>::last','core::slice::<impl [T]>::first_mut','core::slice::<impl [T]>::last_mut')
def sl_first(ai,st,c,args):
    s=cont(ai,st,args[0]); nl=ai.seq_len(st,s); out=[]
    for s2,t in ai.branch(st,ge(nl,('int',1))):
        i=('int',0) if 'first' in c.rpath.split('::')[-1] else isub(nl,('int',1))
        if not t: out.append((s2,NONE)); continue
        if c.rpath.endswith('_mut'):
            l=lval(s2,args[0]); out.append((s2,some(('ref',l[1],l[2]+(('i',i),)))))
        else: out.append((s2,some(ai.seq_get(s2,s,i))))
    return out
@n('core::slice::<impl [T]>::split_first','core::slice::<impl [T]>::split_last')
def sl_split_first(ai,st,c,args):
    s=cont(ai,st,args[0]); nl=ai.seq_len(st,s); out=[]
    for s2,t in ai.branch(st,ge(nl,('int',1))):
        if not t: out.append((s2,NONE)); continue
        if c.rpath.endswith('first'): out.append((s2,some(('tup',(ai.seq_get(s2,s,('int',0)),ai.seq_slice(s2,s,('int',1),nl))))))
        else:
            e=isub(nl,('int',1)); out.append((s2,some(('tup',(ai.seq_get(s2,s,e),ai.seq_slice(s2,s,('int',0),e))))))
    return out
RNG='core::ops::range::'
def range_of(ai,st,r,nl):
    """(start,end) of a range value over a sequence of length nl"""
    r=cont(ai,st,r)
    if r[0]!='adt': return None
    k=r[1].split('::')[-1]
    if k=='Range': return r[3][0],r[3][1]
    if k=='RangeFrom': return r[3][0],nl
    if k=='RangeTo': return ('int',0),r[3][0]
    if k=='RangeFull': return ('int',0),nl
    if k=='RangeToInclusive': return ('int',0),iadd(r[3][0],('int',1))
    if k=='RangeInclusive': return r[3][0],iadd(r[3][1],('int',1))
    return None
def in_range_b(a,b,nl):
    return [ge(b,a),ge(nl,b)]
def getter(ai,st,c,args,mut=False):
    s=cont(ai,st,args[0]); i=cont(ai,st,args[1]); nl=ai.seq_len(st,s); out=[]
    isstr=tyname(ai.F,c.atys[0]) in('str','alloc::string::String')
    rg=range_of(ai,st,i,nl)
    if rg is None:
        for s2,t in ai.branch(st,ge(nl,iadd(i,('int',1)))):
            if not t: out.append((s2,NONE)); continue
            if mut:
                l=lval(s2,args[0]); out.append((s2,some(('ref',l[1],l[2]+(('i',i),)))))
            else:
                v=ai.seq_get(s2,s,i); out.append((s2,some(v)))
        return out
    a,b=rg
    cond=('and',ge(b,a),ge(nl,b))
    if isstr: cond=('and',cond,('and',boundary_b(ai,st,s,a),boundary_b(ai,st,s,b)))
    for s2,t in ai.branch(st,simplify_and(cond)):
        out.append((s2,some(ai.seq_slice(s2,s,a,b)) if t else NONE))
    return out
def simplify_and(b):
    if b[0] in('and','or'):
        x,y=simplify_and(b[1]),simplify_and(b[2])
        if b[0]=='and':
            if x==TRUE: return y
            if y==TRUE: return x
            if FALSE in(x,y): return FALSE
        return (b[0],x,y)
    return b
@n('core::slice::<impl [T]>::get','core::str::<impl str>::get')
def sl_get(ai,st,c,args): return getter(ai,st,c,args)
@n('core::slice::<impl [T]>::get_mut','core::str::<impl str>::get_mut')
def sl_get_mut(ai,st,c,args): return getter(ai,st,c,args,True)
@pat(r'^<alloc::vec::Vec<.*> as core::ops::index::Index<.*>>::index$',r'^core::slice::index::<impl core::ops::index::Index<.*> for .*>::index$',r'^core::str::traits::<impl core::ops::index::Index<.*> for str>::index$',
     r'^<alloc::string::String as core::ops::index::Index<.*>>::index$',r'^core::array::<impl core::ops::index::Index<.*> for .*>::index$',
     r'^<alloc::vec::Vec<.*> as core::ops::index::IndexMut<.*>>::index_mut$',r'^core::slice::index::<impl core::ops::index::IndexMut<.*> for .*>::index_mut$',r'^core::(str::traits|array)::<impl core::ops::index::IndexMut.*>::index_mut$',
     r'^alloc::string::<impl core::ops::index::Index.* for alloc::string::String>::index$')
def index(ai,st,c,args):
    s=cont(ai,st,args[0]); i=cont(ai,st,args[1]); nl=ai.seq_len(st,s)
    isstr=tyname(ai.F,c.atys[0]) in('str','alloc::string::String')
    mut=c.rpath.endswith('index_mut')
    rg=range_of(ai,st,i,nl)
    if rg is None:
        ai.must(st,ge(nl,iadd(i,('int',1))),'index out of bounds',c.span)
        if mut and args[0][0]=='ref':
            l=lval(st,args[0]); return one(st,('ref',l[1],l[2]+(('i',i),)))
        return one(st,ai.seq_get(st,s,i))
    a,b=rg
    ai.must(st,ge(b,a),'slice start after end',c.span); ai.must(st,ge(nl,b),'slice end out of bounds',c.span)
    if isstr:
        ai.must(st,boundary_b(ai,st,s,a),'slice start not on a char boundary',c.span); ai.must(st,boundary_b(ai,st,s,b),'slice end not on a char boundary',c.span)
    return one(st,ai.seq_slice(st,s,a,b))
@pat(r'^<std::collections::hash::map::HashMap<.*> as core::ops::index::Index<.*>>::index$',r'^<alloc::collections::btree::map::BTreeMap<.*> as core::ops::index::Index<.*>>::index$',r'^<serde_json::value::Value as core::ops::index::Index.*>::index$')
def map_index(ai,st,c,args):
    m,k=cont(ai,st,args[0]),cont(ai,st,args[1])
    own=keyof(m,k)
    if own: return one(st,own)
    ai.must(st,('mapin',m,k),'missing map key',c.span); return one(st,('mapval',m,k))
def keyof(m,k):
    """the value stored with k, when k is a key taken from an entry of this same map"""
    if k[0]=='fld' and k[3]==0 and k[1][0]=='elem' and k[1][1] in(('entries',m),('oentries',m)): return project(k[1],None,1)
@n('core::slice::<impl [T]>::contains')
def sl_contains(ai,st,c,args):
    l,x=cont(ai,st,args[0]),cont(ai,st,args[1])
    if l[0]=='vec' and all(y[0] in('str','int','char','bool') for y in l[1]) and x[0] in('str','int','char','bool'): return one(st,('bool',x in l[1]))
    return one(st,('ap','contains',l,x))
@n('core::slice::<impl [T]>::swap')
def sl_swap(ai,st,c,args):
    v=cont(ai,st,args[0]); nl=ai.seq_len(st,v)
    for i in args[1:]: ai.must(st,ge(nl,iadd(i,('int',1))),'index out of bounds in swap',c.span)
    x,y=ai.seq_get(st,v,args[1]),ai.seq_get(st,v,args[2])
    setv(ai,st,args[0],('upd',('upd',v,args[1],y),args[2],x)); return one(st,UNIT)
@n('core::slice::<impl [T]>::reverse')
def sl_reverse(ai,st,c,args):
    v=cont(ai,st,args[0]); setv(ai,st,args[0],('rev',v)); return one(st,UNIT)
@n('alloc::slice::<impl [T]>::sort_by','core::slice::<impl [T]>::sort_unstable_by','alloc::slice::<impl [T]>::sort','alloc::slice::<impl [T]>::sort_by_key','core::slice::<impl [T]>::sort_unstable','core::slice::<impl [T]>::sort_unstable_by_key','alloc::slice::<impl [T]>::sort_by_cached_key')
def sl_sort(ai,st,c,args):
    v=cont(ai,st,args[0]); m=c.rpath.split('::')[-1]
    f=cont(ai,st,args[1]) if len(args)>1 else ('natural',)
    if len(args)>1:
        x,y=('elem',v,('sym','i',c.span)),('elem',v,('sym','j',c.span))
        run=[x] if 'key' in m else [x,y]
        before=st.ev
        outs=ai.retry(st,lambda s: ai.invoke(s,args[1],run,c))
    ai.sorts.append((ai.stack[-1][0] if ai.stack else '',c.span,m,f,v,c.atys[0]))
    # the keys of a map in their natural order: the first halves of its ordered entries
    if f==('natural',) and v[0]=='projs' and v[2]==0 and v[1][0]=='entries': setv(ai,st,args[0],('projs',('oentries',v[1][1]),0)); return one(st,UNIT)
    setv(ai,st,args[0],('sorted',v,m,f)); return one(st,UNIT)
@n('core::slice::<impl [T]>::binary_search_by','core::slice::<impl [T]>::binary_search_by_key','core::slice::<impl [T]>::binary_search','core::slice::<impl [T]>::partition_point')
def sl_bsearch(ai,st,c,args):
    v=cont(ai,st,args[0]); m=c.rpath.split('::')[-1]; f=cont(ai,st,args[-1]); nl=ai.seq_len(st,v)
    if f[0] in('clo','fn'): ai.retry(st,lambda s: ai.invoke(s,args[-1],[('elem',v,('sym','i',c.span))],c))
    ai.searches.append((ai.stack[-1][0] if ai.stack else '',c.span,m,f,v))
    t=('bsearch',m,v,f)+((cont(ai,st,args[1]),) if m.endswith('_key') else ())
    if m=='partition_point':
        ai.tyr[t]=(False,64); ai.add_lin(st,ladd(tolin(nl),tolin(t),-1)); return one(st,t)
    a=ai.split_variant(st,t,('Ok','Err'))
    p=('fld',t,a,0); ai.tyr[p]=(False,64)
    ai.add_lin(st,ladd(ladd(tolin(nl),tolin(p),-1),lconst(-1 if a=='Ok' else 0)))
    return one(st,adt(RES,a,p))
@n('core::slice::<impl [T]>::chunks','core::slice::<impl [T]>::windows','core::slice::<impl [T]>::chunks_exact','core::slice::<impl [T]>::rchunks')
def sl_chunks(ai,st,c,args):
    v=cont(ai,st,args[0]); m=c.rpath.split('::')[-1]; k=args[1]
    ai.must(st,ge(k,('int',1)),m+' size is zero',c.span)
    if m=='chunks': return one(st,It('chunks',v,k,('int',0)))
    if m=='chunks_exact' and k[0]=='int' and k[1]>0: return one(st,It('chex',v,k,('int',0)))
    s=('chunkseq',m,v,k); return one(st,It('slice',s,('int',0),ai.seq_len(st,s)))
@n('alloc::slice::<impl [T]>::join','alloc::slice::<impl [T]>::concat')
def sl_join(ai,st,c,args):
    a=[cont(ai,st,x) for x in args]; sep=a[1] if len(a)>1 else ('str','')
    if a[0][0]=='vec' and 0<len(a[0][1])<7 and is_string(ai.F,c.dty):
        l=[a[0][1][0]]
        for x in a[0][1][1:]: l+=[sep,x]
        return one(st,ai.cat(*[cont(ai,st,x) for x in l]))
    if a[0]==('vec',()) and is_string(ai.F,c.dty): return one(st,('str',''))
    return one(st,('joined',a[0],sep))
@n('alloc::vec::Vec::dedup','alloc::vec::Vec::dedup_by','alloc::vec::Vec::dedup_by_key','alloc::vec::Vec::retain','core::slice::<impl [T]>::rotate_left','core::slice::<impl [T]>::rotate_right','alloc::vec::Vec::drain','alloc::vec::Vec::splice','alloc::vec::Vec::resize','core::slice::<impl [T]>::fill','core::slice::<impl [T]>::copy_from_slice','core::slice::<impl [T]>::clone_from_slice')
def v_misc(ai,st,c,args):
    m=c.rpath.split('::')[-1]; v=cont(ai,st,args[0]); nl=ai.seq_len(st,v)
    if m in('rotate_left','rotate_right'): ai.must(st,ge(nl,args[1]),m+' index',c.span)
    if m in('drain','splice'):
        rg=range_of(ai,st,args[1],nl)
        if rg:
            ai.must(st,ge(rg[1],rg[0]),m+' range',c.span); ai.must(st,ge(nl,rg[1]),m+' range',c.span)
            if m=='drain':
                setv(ai,st,args[0],ai.cat(ai.seq_slice(st,v,('int',0),rg[0]),ai.seq_slice(st,v,rg[1],nl)))
                d=ai.seq_slice(st,v,*rg); return one(st,It('slice',d,('int',0),ai.seq_len(st,d)))
    if m=='retain':
        ai.retry(st,lambda s: ai.invoke(s,args[1],[('elem',v,('sym','i',c.span))],c)); setv(ai,st,args[0],('retained',v,cont(ai,st,args[1]))); return one(st,UNIT)
    if m.startswith('dedup'): setv(ai,st,args[0],('deduped',v)); return one(st,UNIT)
    if m in('copy_from_slice','clone_from_slice'): ai.must(st,mk_eq0(ladd(tolin(nl),tolin(ai.seq_len(st,cont(ai,st,args[1]))),-1)),m+' lengths',c.span)
    setv(ai,st,args[0],('havoc',ai.fresh('new'),m)); return one(st,UNIT)

# ---------- maps
@pat(r'^(std::collections::hash::(map::HashMap|set::HashSet)|alloc::collections::btree::(map::BTreeMap|set::BTreeSet)|serde_json::map::Map|toml::map::Map)(::<.*>)?::\w+$')
def p_map(ai,st,c,args):
    m=c.rpath.split('::')[-1]; F=ai.F
    if m in('new','with_capacity'): capacity(ai,st,c,args[:1]); return one(st,('map0',))
    if not args: return None
    s=cont(ai,st,args[0]); a=[cont(ai,st,x) for x in args[1:]]
    kind='entries' if 'hash::' in c.rpath else 'oentries'
    if m=='insert':
        v=a[1] if len(a)>1 else UNIT
        setv(ai,st,args[0],('mins',s,a[0],v)); return one(st,('ap','old',s,a[0]))
    if m in('get','contains_key','contains','get_key_value'):
        out=[]
        for s2,r in mapget(ai,st,s,a[0]):
            if m=='get': out.append((s2,r))
            elif m=='get_key_value': out.append((s2,NONE if r==NONE else some(('tup',(a[0],r[3][0])))))
            else: out.append((s2,('bool',r[2]=='Some')))
        return out
    if m in('remove','take','remove_entry'):
        out=[]
        for s2,r in mapget(ai,st,s,a[0]):
            setv(ai,s2,args[0],('mrem',s,a[0])); out.append((s2,r if m!='remove_entry' else (NONE if r==NONE else some(('tup',(a[0],r[3][0]))))))
        return out
    if m=='get_mut':
        out=[]
        for s2,r in mapget(ai,st,s,a[0]):
            if r==NONE: out.append((s2,NONE)); continue
            l=lval(s2,args[0]); out.append((s2,some(('ref',l[1],l[2]+(('k',a[0]),)))))
        return out
    if m=='len': return one(st,('len',(kind,s))) if s!=('map0',) else one(st,('int',0))
    if m=='is_empty': return one(st,mk_eq0(tolin(('len',(kind,s))))) if s!=('map0',) else one(st,TRUE)
    if m in('iter','into_iter','drain'):
        q=(kind,s); return one(st,It('slice',q,('int',0),ai.seq_len(st,q)))
    if m in('keys','values','into_keys','into_values'):
        q=(kind,s); return one(st,It('proj',It('slice',q,('int',0),ai.seq_len(st,q)),('int',0 if 'keys' in m else 1)))
    return None
def mapget(ai,st,m,k):
    """[(state, Option)] for a lookup"""
    if m[0]=='map0': return [(st,NONE)]
    if m[0] in('mins','mrem'):
        b=mk_eqs(m[2],k); out=[]
        for s,t in ai.branch(st,b):
            if t: out.append((s,some(m[3]) if m[0]=='mins' else NONE))
            else: out+=mapget(ai,s,m[1],k)
        return out
    own=keyof(m,k)
    if own: return [(st,some(own))]
    out=[]
    for s,t in ai.branch(st,('mapin',m,k)): out.append((s,some(('mapval',m,k)) if t else NONE))
    return out

# ---------- iterators
def It(kind,*f): return ('adt','It',kind,f)
def isit(v): return v[0]=='adt' and (v[1]=='It' or v[1] in(RNG+'Range',RNG+'RangeInclusive',RNG+'RangeFrom'))
def to_it(ai,st,v,ty):
    """IntoIterator::into_iter"""
    d=cont(ai,st,v)
    if isit(d): return d if v[0]!='ref' else v     # &mut I iterates the referent
    F=ai.F; t=F.types[ty]; mutref=t['k']=='ref' and t.get('mut'); s=strip(F,ty); nm=s.get('name')
    if nm in MAPS:
        q=(MAPS[nm],d); it=It('slice',q,('int',0),ai.seq_len(st,q))
        return It('mapmut',it) if mutref else it
    if nm=='core::option::Option': return It('opt',d)
    if mutref and s['k'] in('slice','array') or mutref and nm=='alloc::vec::Vec': return It('mut',lval(st,v),('int',0),ai.seq_len(st,d))
    if t['k']=='param' or t['k']=='ref' and F.types[t['t']]['k']=='param': return v
    return It('slice',d,('int',0),ai.seq_len(st,d))
def call_f(ai,st,f,av,c): return ai.invoke(st,f,av,c)
def is_stream(ai,it):
    q=getattr(ai,'stream',None)
    return q is not None and (it==q or isit(it) and it[2]=='slice' and it[3][0]==q and it[3][1]==('int',0))
def step(ai,st,it,c):
    """one step of an iterator -> [(state, iterator', 'some'|'none'|'skip', value)]"""
    if it[0]=='ref':
        d=cont(ai,st,it); out=[]
        for s,i2,k,v in step(ai,st,d,c):
            s=s.copy(); setv(ai,s,it,i2); out.append((s,it,k,v))
        return out
    if is_stream(ai,it):
        # what is read from the stream is an event; the stream itself has no visible state
        s=st.copy(); r=ai.fresh('ret','next'); s.ev=s.ev+(('next',(),r,c.span),); out=[]
        for s2 in variants(ai,s,r,('None','Some')):
            if next(iter(s2.var[r]))=='Some': out.append((s2,it,'some',project(r,'Some',0)))
            else: out.append((s2,it,'none',None))
        return out
    if not isit(it):
        # an unknown iterator: a stream of unknown length
        return step(ai,st,It('slice',it,('int',0),ai.seq_len(st,it)),c)
    k=it[2]; f=it[3]
    if it[1]==RNG+'Range':
        out=[]
        for s,t in ai.branch(st,mk_not(ge(f[0],f[1]))):
            if t: out.append((s,('adt',it[1],it[2],(iadd(f[0],('int',1)),f[1])),'some',f[0]))
            else: out.append((s,it,'none',None))
        return out
    if it[1]==RNG+'RangeFrom':
        return [(st,('adt',it[1],it[2],(iadd(f[0],('int',1)),)),'some',f[0])]
    if it[1]==RNG+'RangeInclusive':
        out=[]; done=f[2] if len(f)>2 else FALSE
        for s,d in ai.branch(st,done):
            if d: out.append((s,it,'none',None)); continue
            for s1,t in ai.branch(s,ge(f[1],f[0])):
                if not t: out.append((s1,it,'none',None)); continue
                for s2,e in ai.branch(s1,mk_eq0(ladd(tolin(f[0]),tolin(f[1]),-1))):
                    n2=(f[0],f[1],TRUE) if e else (iadd(f[0],('int',1)),f[1],FALSE)
                    out.append((s2,('adt',it[1],it[2],n2),'some',f[0]))
        return out
    if k=='chunks':
        v,n,i=f; nl=ai.seq_len(st,v); a=ai.arith('Mul',n,i); b=ai.arith('Mul',n,iadd(i,('int',1))); out=[]
        for s,t in ai.branch(st,ge(nl,iadd(a,('int',1)))):
            if not t: out.append((s,it,'none',None)); continue
            nx=It(k,v,n,iadd(i,('int',1)))
            for s2,u in ai.branch(s,ge(nl,b)): out.append((s2,nx,'some',ai.seq_slice(s2,v,a,b if u else nl)))
        return out
    if k=='chex':
        v,n,i=f; j=iadd(i,n); out=[]
        for s,t in ai.branch(st,ge(ai.seq_len(st,v),j)):
            if t: out.append((s,It(k,v,n,j),'some',ai.seq_slice(s,v,i,j)))
            else: out.append((s,it,'none',None))
        return out
    if k in('slice','ci','mut'):
        seq,i,end=f; out=[]
        for s,t in ai.branch(st,ge(end,iadd(i,('int',1)))):
            if not t: out.append((s,it,'none',None)); continue
            if k=='mut': v=('ref',seq[1],seq[2]+(('i',i),))
            else: v=elem(ai,s,seq,i)
            if k=='ci':
                b=('cidx',seq[1],i); ai.tyr[b]=(False,64); v=('tup',(('int',0) if i==('int',0) else b,v))
                ai.add_lin(s,ladd(ladd(tolin(('len',seq[1])),tolin(b),-1),lconst(-1)))
            out.append((s,It(k,seq,iadd(i,('int',1)),end),'some',v))
        return out
    if k=='opt':
        v=ai.split_variant(st,f[0],('None','Some'))
        if v=='None': return [(st,it,'none',None)]
        return [(st,It('opt',NONE),'some',project(f[0],'Some',0))]
    if k=='succ':
        o=cont(ai,st,f[0]); out=[]
        if o[0]=='adt': l=[(st,o[2])]
        else: l=[(s,next(iter(s.var[o]))) for s in variants(ai,st,o,('None','Some'))]
        for s,v in l:
            if v=='None': out.append((s,it,'none',None)); continue
            x=project(o,'Some',0)
            if f[1]==('int',0): out.append((s,It(k,ap('std::path::Path::parent',x),f[1]),'some',x)); continue
            a=ai.fresh('new'); s=s.copy(); s.mem[a]=x
            for s2,r,f2 in callmut(ai,s,f[1],[('ref',a,())],c): out.append((s2,It(k,r,f2),'some',x))
        return out
    if k=='proj':
        return [(s,It(k,i2,f[1]),kd,project(v,None,f[1][1]) if kd=='some' else None) for s,i2,kd,v in step(ai,st,f[0],c)]
    if k=='mapmut':
        out=[]
        for s,i2,kd,v in step(ai,st,f[0],c):
            if kd=='some':
                cell=ai.fresh('new'); s.mem[cell]=project(v,None,1); v=('tup',(project(v,None,0),('ref',cell,())))
            out.append((s,It(k,i2),kd,v))
        return out
    if k=='map':
        out=[]
        for s,i2,kd,v in step(ai,st,f[0],c):
            if kd!='some': out.append((s,It(k,i2,f[1]),kd,None)); continue
            for s2,r,f2 in callmut(ai,s,f[1],[v],c): out.append((s2,It(k,i2,f2),'some',r))
        return out
    if k in('filter','filter_map','take_while','skip_while','map_while','inspect'):
        out=[]
        for s,i2,kd,v in step(ai,st,f[0],c):
            if kd!='some': out.append((s,It(k,i2,*f[1:]),kd,None)); continue
            if k=='skip_while' and f[2]==TRUE: out.append((s,It(k,i2,*f[1:]),'some',v)); continue
            for s2,r,f2 in callmut(ai,s,f[1],[v],c):
                n2=It(k,i2,f2,*f[2:])
                if k=='inspect': out.append((s2,n2,'some',v)); continue
                if k in('filter_map','map_while'):
                    for s3 in variants(ai,s2,r,('None','Some')):
                        vn=next(iter(ai.variants_of(s3,r)))
                        if vn=='Some': out.append((s3,n2,'some',project(r,'Some',0)))
                        elif k=='filter_map': out.append((s3,n2,'skip',None))
                        else: out.append((s3,It('empty'),'none',None))
                    continue
                for s3,t in ai.branch(s2,r):
                    if k=='filter': out.append((s3,n2,'some' if t else 'skip',v if t else None))
                    elif k=='take_while': out.append((s3,n2 if t else It('empty'),'some' if t else 'none',v if t else None))
                    else: out.append((s3,It(k,i2,f2,FALSE if t else TRUE),'skip' if t else 'some',None if t else v))
        return out
    if k=='empty': return [(st,it,'none',None)]
    if k=='once':
        return [(st,It('empty'),'some',f[0])]
    if k=='repeat': return [(st,it,'some',f[0])]
    if k=='enumerate':
        out=[]
        for s,i2,kd,v in step(ai,st,f[0],c):
            if kd=='some': out.append((s,It(k,i2,iadd(f[1],('int',1))),kd,('tup',(f[1],v))))
            else: out.append((s,It(k,i2,f[1]),kd,v))
        return out
    if k=='zip':
        out=[]
        for s,i2,kd,v in step(ai,st,f[0],c):
            if kd!='some': out.append((s,It(k,i2,f[1]),kd,None)); continue
            for s2,j2,kd2,w in full_step(ai,s,f[1],c):
                out.append((s2,It(k,i2,j2),kd2,('tup',(v,w)) if kd2=='some' else None))
        return out
    if k=='chain':
        out=[]
        if f[2]==FALSE:
            for s,i2,kd,v in step(ai,st,f[0],c):
                if kd=='none': out.append((s,It(k,It('empty'),f[1],TRUE),'skip',None))
                else: out.append((s,It(k,i2,f[1],FALSE),kd,v))
            return out
        return [(s,It(k,f[0],j2,TRUE),kd,v) for s,j2,kd,v in step(ai,st,f[1],c)]
    if k=='take':
        out=[]
        for s,t in ai.branch(st,ge(f[1],('int',1))):
            if not t: out.append((s,it,'none',None)); continue
            for s2,i2,kd,v in step(ai,s,f[0],c): out.append((s2,It(k,i2,isub(f[1],('int',1)) if kd=='some' else f[1]),kd,v))
        return out
    if k=='skip':
        out=[]
        for s,t in ai.branch(st,ge(f[1],('int',1))):
            if not t:
                out+=[(s2,It(k,i2,f[1]),kd,v) for s2,i2,kd,v in step(ai,s,f[0],c)]; continue
            for s2,i2,kd,v in step(ai,s,f[0],c): out.append((s2,It(k,i2,isub(f[1],('int',1)) if kd=='some' else f[1]),'skip' if kd=='some' else kd,None))
        return out
    if k=='step_by':
        out=[]
        for s,i2,kd,v in step(ai,st,f[0],c):
            if kd=='some': out.append((s,It(k,It('skip',i2,isub(f[1],('int',1))),f[1]),'some',v))
            else: out.append((s,It(k,i2,f[1]),kd,v))
        return out
    if k=='peek':
        if f[1]!=NONE:
            if f[1][3][0]==NONE: return [(st,It(k,f[0],f[1]),'none',None)]
            return [(st,It(k,f[0],NONE),'some',f[1][3][0][3][0])]
        return [(s,It(k,i2,NONE),kd,v) for s,i2,kd,v in step(ai,st,f[0],c)]
    if k=='flat':
        out=[]
        if f[1]!=NONE:
            for s,j2,kd,v in step(ai,st,f[1][3][0],c):
                if kd=='none': out.append((s,It(k,f[0],NONE),'skip',None))
                else: out.append((s,It(k,f[0],some(j2)),kd,v))
            return out
        for s,i2,kd,v in step(ai,st,f[0],c):
            if kd!='some': out.append((s,It(k,i2,NONE),kd,None))
            else: out.append((s,It(k,i2,some(flat_in(ai,s,v))),'skip',None))
        return out
    if k=='rev':
        return step_back(ai,st,it,c)
    if k=='scan': pass
    raise TooBig('iterator '+k)
def flat_in(ai,st,v):
    v=cont(ai,st,v)
    if isit(v): return v
    if v[0]=='adt' and v[1]==OPT: return It('opt',v)
    return It('slice',v,('int',0),ai.seq_len(st,v))
def step_back(ai,st,it,c):
    i=it[3][0]; f=i[3]; k=i[2]
    if i[1]==RNG+'Range':
        out=[]
        for s,t in ai.branch(st,mk_not(ge(f[0],f[1]))):
            if not t: out.append((s,it,'none',None)); continue
            e=isub(f[1],('int',1)); out.append((s,It('rev',('adt',i[1],i[2],(f[0],e))),'some',e))
        return out
    if k in('slice','mut') or k=='ci':
        seq,a,end=f; out=[]
        for s,t in ai.branch(st,ge(end,iadd(a,('int',1)))):
            if not t: out.append((s,it,'none',None)); continue
            e=isub(end,('int',1)); v=('ref',seq[1],seq[2]+(('i',e),)) if k=='mut' else elem(ai,s,seq,e)
            if k=='ci':
                b=('cidx',seq[1],e); ai.tyr[b]=(False,64); v=('tup',(b,v)); ai.add_lin(s,ladd(ladd(tolin(('len',seq[1])),tolin(b),-1),lconst(-1)))
            out.append((s,It('rev',It(k,seq,a,e)),'some',v))
        return out
    if k in('map','filter','filter_map'):
        out=[]
        for s,i2,kd,v in step_back(ai,st,It('rev',f[0]),c):
            inner=i2[3][0]
            for x in step(ai,s,It(k,It('once',v) if kd=='some' else It('empty'),f[1]),c):
                out.append((x[0],It('rev',It(k,inner,x[1][3][1] if x[1][2]==k else f[1])),x[2],x[3]))
        return out
    if k=='enumerate' and f[0][2]=='slice':
        seq,a,end=f[0][3]; out=[]
        for s,i2,kd,v in step_back(ai,st,It('rev',f[0]),c):
            e=i2[3][0][3][2]
            out.append((s,It('rev',It(k,i2[3][0],f[1])),kd,('tup',(iadd(f[1],isub(e,a)),v)) if kd=='some' else None))
        return out
    if k=='rev': return [(s,It('rev',It('rev',i2)) ,kd,v) for s,i2,kd,v in step(ai,st,f[0],c)]
    raise TooBig('rev of '+k)
def elem(ai,st,seq,i):
    if seq[0]=='chars':
        s=seq[1]
        if s[0]=='str' and i[0]=='int' and i[1]<len(s[1]): return ('char',ord(s[1][i[1]]))
        t=('elem',seq,i); ai.tyr[t]=('char',21); return t
    if seq[0]=='chunkseq' and seq[1]=='chunks':
        v,k=seq[2],seq[3]; a=ai.arith('Mul',i,k); b=ai.arith('Mul',iadd(i,('int',1)),k); nl=ai.seq_len(st,v)
        return ai.seq_slice(st,v,a,('min',b,nl))
    return ai.seq_get(st,seq,i)
def variants(ai,st,t,names):
    """one state per possible variant"""
    vs=ai.variants_of(st,t)
    if vs is None: vs=frozenset(names)
    if len(vs)==1:
        if t[0]!='adt' and st.var.get(t)!=vs: st=st.copy(); st.var[t]=vs
        return [st]
    out=[]
    for v in sorted(vs):
        s=st.copy()
        try: ai.set_var(s,t,frozenset([v]))
        except Dead: continue
        out.append(s)
    return out
def callmut(ai,st,f,av,c):
    """call a (possibly FnMut) closure held by value -> [(state,result,closure')]"""
    if f[0]=='ref': return [(s,r,f) for s,r in retried(ai,st,lambda s: ai.invoke(s,f,av,c))]
    cell=ai.fresh('new'); st=st.copy(); st.mem[cell]=f
    out=[]
    for s,r in retried(ai,st,lambda s: ai.invoke(s,('ref',cell,()),av,c)):
        f2=s.mem.pop(cell,f); out.append((s,r,f2))
    return out
def retried(ai,st,g): return ai.retry(st,g)
def full_step(ai,st,it,c):
    """a step that is never 'skip' (iterates internally)"""
    first=step(ai,st,it,c)
    if all(k!='skip' for _,_,k,_ in first): return first
    cell=ai.fresh('new'); st=st.copy(); st.mem[cell]=it
    def body(s):
        out=[]
        i=s.mem[cell]
        for s2,i2,k,v in ai.retry(s,lambda x: step(ai,x,i,c)):
            s2=s2.copy(); s2.mem[cell]=i2
            if k=='skip': out.append(('back',s2,None))
            else: out.append((k,s2,v))
        return out
    res=[]
    for k,s,v in ai.loop(st,body,'next@'+c.span):
        i2=s.mem.pop(cell); res.append((s,i2,k,v))
    return res
def consume(ai,st,it,c,init,f,fin,name):
    """drive an iterator: f(state,acc,value) -> [(state,'go',acc')|(state,'done',result)]; fin(state,acc) -> [(state,result)]"""
    cell=ai.fresh('new'); st=st.copy(); st.mem[cell]=('tup',(it,init))
    def body(s):
        i,acc=s.mem[cell][1]; out=[]
        def one_step(x):
            r=[]
            for s2,i2,k,v in step(ai,x,i,c):
                if k=='none':
                    s2=s2.copy(); s2.mem[cell]=('tup',(i2,acc)); r.append(('end',s2,None))
                elif k=='skip':
                    s2=s2.copy(); s2.mem[cell]=('tup',(i2,acc)); r.append(('back',s2,None))
                else:
                    for s3,kd,a2 in f(s2,acc,v):
                        s3=s3.copy()
                        if kd=='go': s3.mem[cell]=('tup',(i2,a2)); r.append(('back',s3,None))
                        else: s3.mem[cell]=('tup',(i2,acc)); r.append(('done',s3,a2))
            return r
        return ai.retry(s,one_step)
    out=[]; b=it
    while b[0]=='adt' and b[1]=='It' and b[2] in('map','cloned','copied','filter','filter_map','enumerate','rev') and isinstance(b[3][0],tuple): b=b[3][0]
    if b[0]=='adt' and b[1]=='It' and b[2] in('opt','once','empty'):      # at most one step
        res=[]; work=[st]
        for _ in range(3):
            nx=[]
            for s0 in work:
                for k,s,to in body(s0): nx.append(s) if k=='back' else res.append((k,s,to))
            work=nx
        assert not work
    else: res=ai.loop(st,body,name+'@'+c.span)
    for k,s,to in res:
        i,acc=s.mem.pop(cell)[1]
        if it[0]!='ref' : pass
        if k=='done': out.append((s,to))
        else: out+=fin(s,acc)
    return out
ITER='core::iter::traits::iterator::Iterator'
ITDEF=set('''next map filter filter_map enumerate rev skip take zip chain step_by take_while skip_while map_while inspect peekable flatten flat_map collect fold for_each all any count last nth position find find_map sum product min max
 try_fold try_for_each by_ref cloned copied fuse reduce min_by max_by min_by_key max_by_key unzip partition size_hint next_back rfold rfind rposition eq ne is_sorted join'''.split())
def iter_call(ai,st,c,m,args):
    """Iterator methods on modelled iterators"""
    a0=args[0]
    d=cont(ai,st,a0)
    if m=='next':
        if is_stream(ai,d):
            return [(s,some(v) if k=='some' else NONE) for s,i2,k,v in step(ai,st,d,c)]
        if not isit(d) and not streamlike(ai,c): return None
        out=[]
        src=d if isit(d) else It('slice',d,('int',0),ai.seq_len(st,d))
        for s,i2,k,v in full_step(ai,st,src,c):
            s=s.copy(); setv(ai,s,a0,i2); out.append((s,some(v) if k=='some' else NONE))
        return out
    if m=='next_back':
        out=[]
        for s,i2,k,v in full_step(ai,st,It('rev',d),c):
            s=s.copy(); setv(ai,s,a0,i2[3][0]); out.append((s,some(v) if k=='some' else NONE))
        return out
    it=a0 if a0[0]=='ref' else d
    if m in('by_ref',): return one(st,a0)
    if m in('cloned','copied','fuse'): return one(st,it)
    if m in('map','filter','filter_map','take_while','map_while','inspect'): return one(st,It(m,it,args[1]))
    if m=='skip_while': return one(st,It(m,it,args[1],FALSE))
    if m=='enumerate': return one(st,It(m,it,('int',0)))
    if m=='rev': return one(st,It('rev',it) if it[2]!='rev' else it[3][0])
    if m in('skip','take'):
        if it[0]!='ref' and it[1]=='It' and it[2] in('slice','mut'):
            seq,i,end=it[3]; k=args[1]
            j=iadd(i,k); out=[]
            for s,t in ai.branch(st,ge(end,j)):
                if m=='skip': out.append((s,It(it[2],seq,j if t else end,end)))
                else: out.append((s,It(it[2],seq,i,j if t else end)))
            return out
        return one(st,It(m,it,args[1]))
    if m=='step_by':
        ai.must(st,ge(args[1],('int',1)),'step_by(0)',c.span); return one(st,It(m,it,args[1]))
    if m=='zip': return one(st,It('zip',it,to_it(ai,st,args[1],c.atys[1])))
    if m=='chain': return one(st,It('chain',it,to_it(ai,st,args[1],c.atys[1]),FALSE))
    if m=='peekable': return one(st,It('peek',it,NONE))
    if m=='flatten': return one(st,It('flat',it,NONE))
    if m=='flat_map': return one(st,It('flat',It('map',it,args[1]),NONE))
    if m=='size_hint': return one(st,ap('size_hint',it))
    go=lambda s,a: [(s,'go',a)]
    def callf(s,f,av): return callmut(ai,s,f,av,c)
    if m=='fold':
        return consume(ai,st,it,c,args[1],lambda s,a,v:[(s2,'go',r) for s2,r,_ in callf(s,args[2],[a,v])],lambda s,a:[(s,a)],'fold')
    if m=='for_each':
        # the closure may update captured state through references
        return consume(ai,st,it,c,UNIT,lambda s,a,v:[(s2,'go',UNIT) for s2,r,_ in callf(s,args[1],[v])],lambda s,a:[(s,UNIT)],'for_each')
    if m in('all','any'):
        if m=='any' and d[0]=='adt' and d[2]=='slice' and d[3][0][0]=='chars' and d[3][1]==('int',0) and d[3][2]==ai.seq_len(st,d[3][0]) and is_sep_test(ai,st,c,cont(ai,st,args[1])):
            return one(st,('ap','str_contains',d[3][0][1],SEPTERM))
        def f(s,a,v):
            out=[]
            for s2,r,_ in callf(s,args[1],[v]):
                for s3,t in ai.branch(s2,r): out.append((s3,'done',('bool',m=='any')) if t==(m=='any') else (s3,'go',UNIT))
            return out
        return consume(ai,st,it,c,UNIT,f,lambda s,a:[(s,('bool',m=='all'))],m)
    if m=='count':
        if it[0]!='ref' and it[1]=='It' and it[2]=='slice': return one(st,isub(it[3][2],it[3][1]))
        return consume(ai,st,it,c,('int',0),lambda s,a,v:[(s,'go',iadd(a,('int',1)))],lambda s,a:[(s,a)],'count')
    if m=='last':
        if it[0]!='ref' and it[1]=='It' and it[2]=='slice':
            seq,i,end=it[3]
            return [(s,some(elem(ai,s,seq,isub(end,('int',1)))) if t else NONE) for s,t in ai.branch(st,ge(end,iadd(i,('int',1))))]
        return consume(ai,st,it,c,NONE,lambda s,a,v:[(s,'go',some(v))],lambda s,a:[(s,a)],'last')
    if m=='nth':
        if it[0]!='ref' and it[1]=='It' and it[2]=='slice':
            seq,i,end=it[3]; j=iadd(i,args[1]); out=[]
            for s,t in ai.branch(st,ge(end,iadd(j,('int',1)))):
                v=some(elem(ai,s,seq,j)) if t else NONE
                out.append((s,v))
            return out
        if a0[0]=='ref' and d[1]=='It' and d[2]=='slice':
            seq,i,end=d[3]; j=iadd(i,args[1]); out=[]
            for s,t in ai.branch(st,ge(end,iadd(j,('int',1)))):
                setv(ai,s,a0,It('slice',seq,iadd(j,('int',1)) if t else end,end)); out.append((s,some(elem(ai,s,seq,j)) if t else NONE))
            return out
        def f(s,a,v):
            return [(s2,'done',some(v)) if t else (s2,'go',isub(a,('int',1))) for s2,t in ai.branch(s,mk_eq0(tolin(a)))]
        return consume(ai,st,it,c,args[1],f,lambda s,a:[(s,NONE)],'nth')
    if m in('find','rfind'):
        def f(s,a,v):
            out=[]
            for s2,r,_ in callf(s,args[1],[v]):
                for s3,t in ai.branch(s2,r): out.append((s3,'done',some(v)) if t else (s3,'go',UNIT))
            return out
        return consume(ai,st,It('rev',it) if m=='rfind' else it,c,UNIT,f,lambda s,a:[(s,NONE)],m)
    if m=='find_map':
        def f(s,a,v):
            out=[]
            for s2,r,_ in callf(s,args[1],[v]):
                for s3 in variants(ai,s2,r,('None','Some')):
                    vn=next(iter(ai.variants_of(s3,r))); out.append((s3,'done',some(project(r,'Some',0))) if vn=='Some' else (s3,'go',UNIT))
            return out
        return consume(ai,st,it,c,UNIT,f,lambda s,a:[(s,NONE)],m)
    if m=='position':
        def f(s,a,v):
            out=[]
            for s2,r,_ in callf(s,args[1],[v]):
                for s3,t in ai.branch(s2,r): out.append((s3,'done',some(a)) if t else (s3,'go',iadd(a,('int',1))))
            return out
        return consume(ai,st,it,c,('int',0),f,lambda s,a:[(s,NONE)],m)
    if m in('try_fold','try_for_each'):
        t=ai.F.types[c.dty]; okv,errv=('Ok','Err') if t.get('name')==RES else ('Some','None') if t.get('name')==OPT else ('Continue','Break')
        nm=t.get('name')
        def f(s,a,v):
            out=[]
            for s2,r,_ in callf(s,args[-1],[a,v] if m=='try_fold' else [v]):
                for s3 in variants(ai,s2,r,(okv,errv)):
                    vn=next(iter(ai.variants_of(s3,r)))
                    if vn==okv: out.append((s3,'go',project(r,okv,0)))
                    else: out.append((s3,'done',r if r[0]!='adt' else r))
            return out
        return consume(ai,st,it,c,args[1] if m=='try_fold' else UNIT,f,lambda s,a:[(s,('adt',nm,okv,(a,)))],m)
    if m=='reduce':
        def f(s,a,v):
            if a==NONE: return [(s,'go',some(v))]
            return [(s2,'go',some(r)) for s2,r,_ in callf(s,args[1],[a[3][0],v])]
        return consume(ai,st,it,c,NONE,f,lambda s,a:[(s,a)],m)
    if m in('sum','product'):
        t=ai.F.types[c.dty]
        if t['k']=='int':
            it2=(t['signed'],t['bits'])
            def f(s,a,v):
                r=ai.arith('Add' if m=='sum' else 'Mul',a,cont(ai,s,v))
                ai.must(s,mk_not(ai.ovf(s,tolin(r),it2)),'overflow in '+m,c.span)
                return [(s,'go',r)]
            return consume(ai,st,it,c,('int',0 if m=='sum' else 1),f,lambda s,a:[(s,a)],m)
        return consume(ai,st,it,c,('float','0' if m=='sum' else '1'),lambda s,a,v:[(s,'go',('fop','Add' if m=='sum' else 'Mul',a,v))],lambda s,a:[(s,a)],m)
    if m=='collect': return collect(ai,st,it,c,c.dty)
    if m=='join':
        sep=cont(ai,st,args[1])
        def f(s,a,v):
            x=disp(ai,item_ty(ai,c),cont(ai,s,v))
            return [(s,'go',('tup',(TRUE,ai.cat(a[1][1],sep,x) if a[1][0]==TRUE else x)))]
        return consume(ai,st,it,c,('tup',(FALSE,('str',''))),f,lambda s,a:[(s,a[1][1])],m)
    if m in('min','max','min_by','max_by','min_by_key','max_by_key'):
        if len(args)>1:
            x=ap('someitem',it); ai.retry(st,lambda s: ai.invoke(s,args[1],[x] if 'key' in m else [x,x],c))
        return one(st,ap('iter_'+m,it))
    if m in('unzip','partition'): return one(st,ap('iter_'+m,it))
    return None
def item_ty(ai,c):
    "a type whose Display is text, when the item type of a join is not known"
    for i,t in enumerate(ai.F.types):
        if t['k']=='adt' and t['name']=='alloc::string::String': return i
    return c.dty
def streamlike(ai,c):
    s=strip(ai.F,c.atys[0]) if c.atys else {}
    return s.get('k')=='adt'
def collect(ai,st,it,c,ty):
    F=ai.F; t=F.types[ty]; nm=t.get('name')
    if nm in(RES,OPT):
        inner=t['args'][0]; good,bad=('Ok','Err') if nm==RES else ('Some','None')
        init,add=builder(ai,c,inner)
        def f(s,a,v):
            out=[]
            for s2 in variants(ai,s,v,(good,bad)):
                vn=next(iter(ai.variants_of(s2,v)))
                if vn==good: out+=[(s3,'go',a3) for s3,a3 in add(s2,a,project(v,good,0))]
                else: out.append((s2,'done',adt(RES,'Err',project(v,'Err',0)) if nm==RES else NONE))
            return out
        return consume(ai,st,it,c,init,f,lambda s,a:[(s,('adt',nm,good,(a,)))],'collect')
    if nm in IDENT_TYPES and t.get('args'): return collect(ai,st,it,c,t['args'][0])
    if it[0]=='adt' and it[1:3]==('It','slice'):
        S,lo,hi=it[3][:3]
        if nm in MAPS and S[0] in('entries','oentries') and lo==('int',0) and ai.prove_eq(st,hi,ai.seq_len(st,S)): return [(st,S[1])]
        if nm=='alloc::vec::Vec': return [(st,ai.seq_slice(st,S,lo,hi))]
    b=it
    while b[0]=='adt' and b[1]=='It' and b[2] in('cloned','copied') and isinstance(b[3][0],tuple): b=b[3][0]
    if nm=='alloc::vec::Vec' and b[0]=='adt' and b[1:3]==('It','proj') and b[3][0][1:3]==('It','slice') and b[3][1] in(('int',0),('int',1)):
        S,lo,hi=b[3][0][3][:3]
        if S[0] in('entries','oentries') and lo==('int',0) and ai.prove_eq(st,hi,ai.seq_len(st,S)): return [(st,('projs',S,b[3][1][1]))]
    b=it
    while b[0]=='adt' and b[1]=='It' and b[2] in('map','mapmut','enumerate','cloned','copied','rev') and b[3] and isinstance(b[3][0],tuple): b=b[3][0]
    if b[0]=='adt' and b[1]==RNG+'Range' and nm=='alloc::vec::Vec': ai.must(st,ge(('int',1<<56),isub(b[3][1],b[3][0])),'capacity overflow',c.span)
    init,add=builder(ai,c,ty)
    return consume(ai,st,it,c,init,lambda s,a,v:[(s2,'go',a2) for s2,a2 in add(s,a,v)],lambda s,a:[(s,a)],'collect')
def builder(ai,c,ty):
    F=ai.F; t=F.types[ty]; nm=t.get('name')
    if nm in MAPS:
        return ('map0',),lambda s,a,v:[(s,('mins',a,project(cont(ai,s,v),None,0),project(cont(ai,s,v),None,1)))]
    if nm=='alloc::string::String':
        def add(s,a,v):
            v=cont(ai,s,v)
            if v[0]=='char' or v in ai.tyr and ai.tyr[v][0]=='char': v=chstr(v)
            return [(s,ai.cat(a,v))]
        return ('str',''),add
    if nm=='std::path::PathBuf': return ('str',''),lambda s,a,v:[(s,('join',a,cont(ai,s,v)))]
    return ('vec',()),lambda s,a,v:[(s,snoc2(a,v))]
def snoc2(a,v): return ('snoc',a,v) if not(a[0]=='vec' and len(a[1])<6) else ('vec',a[1]+(v,))
@pat(r'^<.* as core::iter::traits::collect::IntoIterator>::into_iter$',r'^core::(slice|array|option|iter)::.*<impl core::iter::traits::collect::IntoIterator for .*>::into_iter$',r'^core::iter::traits::collect::IntoIterator::into_iter$')
def p_into_iter(ai,st,c,args):
    if c.fn.get('body') in ai.F.bodies and ai.F.bodies[c.fn['body']]['local']: return None
    return one(st,to_it(ai,st,args[0],c.atys[0]))
def is_bytes(ai,ty):
    t=ai.F.types[ty]
    return t.get('name')=='alloc::vec::Vec' and ai.F.types[t['args'][0]]['k']=='int'
@pat(r'^<.* as core::iter::traits::collect::Extend<.*>>::extend$')
def p_extend(ai,st,c,args):
    ty=c.atys[0]; t=ai.F.types[ty]
    while t['k']=='ref': ty=t['t']; t=ai.F.types[ty]
    init,add=builder(ai,c,ty); tgt=args[0]; acc0=cont(ai,st,tgt)
    it=to_it(ai,st,args[1],c.atys[1])
    if it[0]=='adt' and it[2]=='slice' and it[3][1]==('int',0) and is_bytes(ai,ty) and ai.prove_eq(st,it[3][2],ai.seq_len(st,it[3][0])):
        setv(ai,st,tgt,ai.cat(acc0,it[3][0])); return one(st,UNIT)
    def fin(s,a): 
        s=s.copy(); setv(ai,s,tgt,a); return [(s,UNIT)]
    return consume(ai,st,it,c,acc0,lambda s,a,v:[(s2,'go',a2) for s2,a2 in add(s,a,v)],fin,'extend')
@pat(r'^<.* as core::iter::traits::collect::FromIterator<.*>>::from_iter$')
def p_from_iter(ai,st,c,args): return collect(ai,st,to_it(ai,st,args[0],c.atys[0]),c,c.dty)
@n('core::iter::sources::once::once')
def it_once(ai,st,c,args): return one(st,It('once',args[0]))
@n('core::iter::sources::empty::empty')
def it_empty(ai,st,c,args): return one(st,It('empty'))
@n('core::iter::sources::repeat::repeat')
def it_repeat(ai,st,c,args): return one(st,It('repeat',args[0]))
@n('core::option::Option::iter','core::option::Option::into_iter')
def opt_iter(ai,st,c,args): return one(st,It('opt',cont(ai,st,args[0])))
@n('core::iter::adapters::peekable::Peekable::peek')
def it_peek(ai,st,c,args):
    d=cont(ai,st,args[0])
    if d[0]!='adt' or d[2]!='peek': return None
    if d[3][1]!=NONE: return one(st,d[3][1][3][0])
    out=[]
    for s,i2,k,v in full_step(ai,st,d[3][0],c):
        r=some(v) if k=='some' else NONE
        s=s.copy(); setv(ai,s,args[0],It('peek',i2,some(r))); out.append((s,r))
    return out
@n('itertools::Itertools::join','iter_tools::Itertools::join')
def it_join(ai,st,c,args): 
    d=args[0]
    if not isit(cont(ai,st,d)) : return None
    return iter_call(ai,st,c,'join',[d if d[0]=='ref' else d,args[1]])

# ---------- errors, panics
@n('err_tools::e_str','err_tools::e_string')
def e_str(ai,st,c,args): return one(st,err(('error',cont(ai,st,args[0]))))
@n('err_tools::OpError::e_str','err_tools::OpError::e_string')
def o_e_str(ai,st,c,args):
    o=cont(ai,st,args[0])
    v=ai.split_variant(st,o,('None','Some'))
    return one(st,ok(project(o,'Some',0)) if v=='Some' else err(('error',cont(ai,st,args[1]))))
@n('err_tools::ResError::e_str','err_tools::ResError::e_string')
def r_e_str(ai,st,c,args):
    o=cont(ai,st,args[0]); v=ai.split_variant(st,o,('Ok','Err'))
    return one(st,ok(project(o,'Ok',0)) if v=='Ok' else err(('error',cont(ai,st,args[1]))))
@pat(r'^anyhow::error::<impl core::convert::From<.*> for anyhow::Error>::from$',r'^<anyhow::Error as core::convert::From<.*>>::from$',r'^anyhow::.*::(msg|new|from|context|with_context|format_err)$')
def p_anyhow(ai,st,c,args):
    m=c.rpath.split('::')[-1]
    if m in('context','with_context'): return None
    return one(st,('error',)+tuple(cont(ai,st,a) for a in args))
PANIC=re.compile(r'^(core|std|alloc)::(panicking|option::(unwrap_failed|expect_failed)|result::unwrap_failed|slice::index::slice_.*_fail|str::slice_error_fail|cell::panic_|raw_vec::.*(capacity_overflow|handle_error)|rt::.*panic|process::(exit|abort)|alloc::handle_alloc_error|rt::panic_|begin_panic|vec::.*assert_failed|intrinsics::abort|num::.*panic|char::.*panic|unicode::panic)')
@pat(PANIC.pattern)
def p_panic(ai,st,c,args):
    if c.fn.get('body') and False: return None
    m=c.rpath.split('::')[-1]
    msg=''
    for a in args:
        d=cont(ai,st,a)
        if d[0]=='str': msg=d[1]
        elif d[0] in('fargs','fargs_s'):
            x=render(ai,d); msg=x[1] if x[0]=='str' else m
    ai.must(st,FALSE,'panic '+m,c.span,msg)
    return []
@pat(r'^rand::Rng::gen_range$',r'^rand::.*gen_range$',r'^rand::.*random_range$')
def p_gen_range(ai,st,c,args):
    a=[cont(ai,st,x) for x in args[1:]]
    if len(a)==2: lo,hi=a
    elif a and a[0][0]=='adt' and len(a[0][3])>=2: lo,hi=a[0][3][0],a[0][3][1]
    else: lo,hi=None,None
    if lo is not None:
        t=ai.F.types[c.atys[1]]; t=strip(ai.F,c.atys[1])
        isf=t['k']=='float'
        b=ai.fcmp(st,'Lt',lo,hi) if isf else mk_not(ge(lo,hi))
        ai.must(st,b,'empty range in gen_range',c.span)
        if isf:
            for x in (lo,hi):
                fin=('ap','f64::is_finite',x)
                if x[0] in('float','f64') or ai.truth(st,('ap','f64::is_infinite',x)) is False or any(t[0]=='ap' and t[1]=='f64::is_finite' and t[2][0]=='fop' and x in t[2] and ai.truth(st,t) is True for t in st.atom): continue
                ai.must(st,fin,'bounds of gen_range are finite',c.span)
    r=ai.fresh('ret','rand'); st=st.copy(); st.ev=st.ev+(('rand',tuple(a),r,c.span),)
    ai.typed(r,c.dty)
    if lo is not None and not isf:
        ai.add_lin(st,ladd(tolin(r),tolin(lo),-1),ladd(ladd(tolin(hi),tolin(r),-1),lconst(-1)))
    return one(st,r)
@n('rand::Rng::gen','rand::rngs::thread::thread_rng','rand::random')
def rnd(ai,st,c,args):
    r=ai.fresh('ret','rand'); st=st.copy(); st.ev=st.ev+(('rand',(),r,c.span),); ai.typed(r,c.dty); return one(st,r)

@pat(r'^<\[.*\] as rand::seq::SliceRandom>::choose$',r'^rand::seq::SliceRandom::choose$',r'^rand::seq::.*IndexedRandom.*::choose$')
def p_choose(ai,st,c,args):
    l=cont(ai,st,args[0]); n=ai.seq_len(st,l); out=[]
    for s,t in ai.branch(st,ge(n,('int',1))):
        if not t: out.append((s,NONE)); continue
        r=ai.fresh('ret','rand'); s=s.copy(); s.ev=s.ev+(('rand',(('int',0),n),r,c.span),); ai.tyr[r]=(False,64)
        ai.add_lin(s,tolin(r),ladd(ladd(tolin(n),tolin(r),-1),lconst(-1)))
        out.append((s,some(ai.seq_get(s,l,r))))
    return out

# ---------- paths, files, processes
@n('std::path::Path::join')
def pjoin(ai,st,c,args): return one(st,('join',cont(ai,st,args[0]),cont(ai,st,args[1])))
@n('std::path::PathBuf::push')
def ppush(ai,st,c,args):
    setv(ai,st,args[0],('join',cont(ai,st,args[0]),cont(ai,st,args[1]))); return one(st,UNIT)
@n('std::path::PathBuf::pop')
def ppop(ai,st,c,args):
    r=ap('std::path::Path::parent',cont(ai,st,args[0])); out=[]
    for s in variants(ai,st,r,('None','Some')):
        if 'Some' in s.var[r]: s=s.copy(); setv(ai,s,args[0],project(r,'Some',0)); out.append((s,TRUE))
        else: out.append((s,FALSE))
    return out
@n('std::path::Path::ancestors')
def panc(ai,st,c,args): return one(st,It('succ',some(cont(ai,st,args[0])),('int',0)))
@n('core::iter::sources::successors::successors')
def it_succ(ai,st,c,args): return one(st,It('succ',args[0],args[1]))
@n('std::path::Path::starts_with')
def pstarts(ai,st,c,args): return one(st,('pstarts',cont(ai,st,args[0]),cont(ai,st,args[1])))
@n('std::path::Path::file_name')
def pfname(ai,st,c,args):
    x=cont(ai,st,args[0])
    if x[0]=='ap' and x[1]=='std::fs::DirEntry::path': return one(st,some(ap('std::fs::DirEntry::file_name',x[2])))
    return None
@n('std::path::Path::strip_prefix')
def pstrip(ai,st,c,args):
    x,p=cont(ai,st,args[0]),cont(ai,st,args[1])
    return [(s,ok(ap('strip_prefix',x,p)) if t else err(ap('stripped',x,p))) for s,t in ai.branch(st,('pstarts',x,p))]
@n('std::path::Path::is_absolute','std::path::Path::is_relative','std::path::Path::has_root')
def pabs(ai,st,c,args):
    b=('isabs',cont(ai,st,args[0])); return one(st,mk_not(b) if c.rpath.endswith('relative') else b)
@n('std::path::Path::components')
def pcomps(ai,st,c,args):
    s=('comps',cont(ai,st,args[0])); return one(st,It('slice',s,('int',0),ai.seq_len(st,s)))
@n('std::path::Path::iter')
def piter(ai,st,c,args):
    s=('compstrs',cont(ai,st,args[0])); return one(st,It('slice',s,('int',0),ai.seq_len(st,s)))
SEPFN='std::path::is_separator'
def sep_pat(p): return p in(('char',47),('int',47),('str','/')) or p[0]=='fn' and 'is_separator' in repr(p[1])
def nosep(ai,st,e):
    "is the text known to have no path separator?"
    if e[0]=='str': return '/' not in e[1]
    for a,v in st.atom.items():
        if v is False and a[0]=='ap' and a[1] in('str_contains','contains') and a[2]==e:
            p=a[3]
            if sep_pat(p): return True
    return False
@n('std::path::Path::with_extension','std::path::PathBuf::set_extension','std::path::Path::with_added_extension','std::path::PathBuf::add_extension')
def with_ext(ai,st,c,args):
    e=cont(ai,st,args[1]); ai.ob('extension with a path separator',c.span,nosep(ai,st,e),st)
    if c.rpath.split('::')[-1].startswith('with'): return one(st,ap(c.rpath.split('::')[-1],cont(ai,st,args[0]),e))
    st=st.copy(); setv(ai,st,args[0],ap('with_extension',cont(ai,st,args[0]),e)); return one(st,ai.fresh('ret','set_extension'))
@n('alloc::slice::<impl [T]>::to_vec','alloc::slice::<impl [T]>::into_vec')
def to_vec(ai,st,c,args): return one(st,cont(ai,st,args[0]))
@n('std::process::Command::new')
def cmd_new(ai,st,c,args): return one(st,('adt','Cmd','Cmd',(cont(ai,st,args[0]),('vec',()),('vec',()))))
def cmd_upd(ai,st,a,i,v):
    d=cont(ai,st,a); fs=list(d[3]); fs[i]=v; setv(ai,st,a,('adt','Cmd','Cmd',tuple(fs)))
@n('std::process::Command::arg')
def cmd_arg(ai,st,c,args):
    d=cont(ai,st,args[0]); cmd_upd(ai,st,args[0],1,snoc2(d[3][1],cont(ai,st,args[1]))); return one(st,args[0])
@n('std::process::Command::args')
def cmd_args(ai,st,c,args):
    d=cont(ai,st,args[0]); it=to_it(ai,st,args[1],c.atys[1]); a0=args[0]
    def fin(s,a): 
        s=s.copy(); cmd_upd(ai,s,a0,1,a); return [(s,a0)]
    if it[0]=='adt' and it[1]=='It' and it[2]=='slice' and it[3][1]==('int',0):
        cmd_upd(ai,st,a0,1,ai.cat(d[3][1],ai.seq_slice(st,it[3][0],it[3][1],it[3][2]))); return one(st,a0)
    return consume(ai,st,it,c,d[3][1],lambda s,a,v:[(s,'go',snoc2(a,cont(ai,s,v)))],fin,'args')
@n('std::process::Stdio::piped','std::process::Stdio::null','std::process::Stdio::inherit')
def stdio(ai,st,c,args): return one(st,ap('stdio',('str',c.rpath.split('::')[-1])))
@n('std::process::Command::stdin','std::process::Command::stdout','std::process::Command::stderr')
def cmd_io(ai,st,c,args):
    d=cont(ai,st,args[0]); m=c.rpath.split('::')[-1]; x=cont(ai,st,args[1])
    if x!=ap('stdio',('str','piped')): m+=':'+(x[2][1] if x[0]=='ap' and x[1]=='stdio' else 'other')
    cmd_upd(ai,st,args[0],2,snoc2(d[3][2],('str',m))); return one(st,args[0])
@n('std::process::Command::output','std::process::Command::spawn','std::process::Command::status')
def cmd_run(ai,st,c,args):
    d=cont(ai,st,args[0]); r=ai.fresh('ret',c.rpath); st=st.copy(); st.ev=st.ev+(('exec',(c.rpath.split('::')[-1],)+tuple(d[3]),r,c.span),); return one(st,r)
@pat(r'^std::process::Command::\w+$')
def cmd_other(ai,st,c,args):
    d=cont(ai,st,args[0]) if args else None
    if d and d[0]=='adt' and d[1]=='Cmd':
        cmd_upd(ai,st,args[0],2,snoc2(d[3][2],('cmdopt',c.rpath,tuple(cont(ai,st,x) for x in args[1:])))); return one(st,args[0])
    return None
@n('std::fs::OpenOptions::new')
def oo_new(ai,st,c,args): return one(st,('adt','OO','OO',(('vec',()),)))
@pat(r'^std::fs::OpenOptions::(read|write|append|create|create_new|truncate)$')
def oo_set(ai,st,c,args):
    d=cont(ai,st,args[0]); setv(ai,st,args[0],('adt','OO','OO',(snoc2(d[3][0],('tup',(('str',c.rpath.split('::')[-1]),args[1]))),))); return one(st,args[0])
IMPURE_EXTRA=re.compile(r'^<std::fs::(File|ReadDir) as |^std::fs::(DirEntry|ReadDir|File)::|^image::|^imagesize::|^<std::process::Child|^std::process::Child|^chrono::.*::(now|today)$|^std::time::|^std::thread::')
PUREIO=re.compile(r'^std::fs::(Metadata|FileType|Permissions|DirEntry::(file_name|path))|^image::.*GenericImageView|^std::fs::DirEntry::')
def p_io(ai,st,c,args):
    """anything with operating-system authority: an event with an unknown result"""
    p=c.rpath
    if PUREIO.search(p): return None
    if effects.authority(p) is None and not IMPURE_EXTRA.search(p): return None
    content=tuple(cont(ai,st,a) for a in args)
    r=ai.fresh('ret',p); st=st.copy(); st.ev=st.ev+((p,content,r,c.span),)
    for i,a in enumerate(args):
        if a[0]=='ref':
            old=cont(ai,st,a)
            if i==0: continue
            setv(ai,st,a,ai.cat(old,('ioread',r)) if p.endswith(('read_to_string','read_to_end')) else ('havoc',ai.fresh('new'),p))
    ai.typed(r,c.dty)
    if ai.evst is not None: ai.evst[r]=st
    return one(st,r)

# ---------- parser entry points
@n('gobble::ptrait::Parser::parse_s')
def parse_s(ai,st,c,args):
    return one(st,ap('parse',('ty',ai.F.ts(c.atys[0]).replace('&','')),cont(ai,st,args[1])))

def install(ai):
    AIREF[0]=ai
    ai.sorts=[]; ai.searches=[]
    ai.natives=Natives(ai)
class Natives:
    """lookup by normalised path, then by pattern, then by iterator protocol"""
    def __init__(s,ai): s.ai=ai; s.memo={}
    def boundary(s,st,t,v): return boundary_b(s.ai,st,t,v)==TRUE
    def get(s,path):
        if path in s.memo: return s.memo[path]
        h=N.get(path)
        if h is None:
            m=path.split('::')[-1]
            if m in ITDEF and (path.startswith(ITER+'::') or re.search(r' as core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator)(<.*>)?>::\w+$|<impl core::iter::traits::iterator::Iterator for .*>::\w+$|^core::iter::traits::double_ended::DoubleEndedIterator::',path)):
                h=lambda ai,st,c,args,m=m: iter_call(ai,st,c,m,args)
        if h is None:
            hs=[f for r,f in PAT if r.search(path)]
            if hs:
                def h(ai,st,c,args,hs=hs):
                    for f in hs:
                        r=f(ai,st,c,args)
                        if r is not None: return r
        if h is None and (effects.authority(path) is not None or IMPURE_EXTRA.search(path)): h=p_io
        s.memo[path]=h
        return h
