"""printing terms"""
import json
import ai
def pp(t,d=0):
    if not isinstance(t,tuple): return str(t)
    if not t: return '()'
    k=t[0]
    if not isinstance(k,str): return '('+', '.join(pp(x) for x in t)+')'
    if k=='int': return str(t[1])
    if k=='str': return json.dumps(t[1])
    if k=='bool': return str(t[1])
    if k=='lin': return '('+'+'.join(['%d'%t[1]]*(t[1]!=0)+[('%d*'%c if c!=1 else '')+pp(a) for a,c in t[2]])+')'
    if k in('ge0','eq0'): return pp(ai.fromlin(t[1]))+{'ge0':'>=0','eq0':'==0'}[k]
    if k=='not': return '!'+pp(t[1])
    if k=='adt': return t[1].split('::')[-1]+'::'+str(t[2])+('('+', '.join(pp(x) for x in t[3])+')' if t[3] else '')
    if k=='tup': return '('+', '.join(pp(x) for x in t[1])+')'
    if k=='fld' and len(t)==4: return pp(t[1])+'.'+(str(t[2])+'.' if t[2] else '')+str(t[3])
    if k=='elem': return pp(t[1])+'['+pp(t[2])+']'
    if k=='len': return '|'+pp(t[1])+'|'
    if k in('phi','ret','new'): return k+str(t[1])+(':'+':'.join(pp(x) for x in t[2:]) if len(t)>2 else '')
    if k=='vec': return '['+', '.join(pp(x) for x in t[1])+']'
    return k+'('+', '.join(pp(x) for x in t[1:])+')'
