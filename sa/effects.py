"""Who-may-call: the calls reachable from a helper set, by rapid type analysis over the MIR call graph,
and the authority (read, write, exec, env, net) of every external function they reach."""
import re
# external functions by authority; first match wins; None = no authority
TABLE=[(re.compile(p),k) for p,k in [
 (r'^std::fs::OpenOptions::(write|append|create|create_new|truncate)$','write'),
 (r'^std::fs::OpenOptions::read$','read'),
 (r'^std::fs::OpenOptions::(new|open|clone)$','open'),
 (r'^std::fs::(OpenOptions|DirBuilder)::new$',None),
 (r'^std::fs::DirBuilder::(mode|recursive)$',None),
 (r'^std::os::unix::fs::OpenOptionsExt','open'),
 (r'^std::fs::File::(open|open_buffered)$','read'),
 (r'^std::fs::File::options$',None),
 (r'^std::fs::File::create','write'),
 (r'^std::fs::File::(set_len|set_permissions|set_modified|set_times)$','write'),
 (r'^std::fs::(read|read_to_string|read_dir|read_link|metadata|symlink_metadata|canonicalize|exists)$','read'),
 (r'^std::fs::(write|create_dir|create_dir_all|remove_file|remove_dir|remove_dir_all|rename|copy|hard_link|soft_link|set_permissions)$','write'),
 (r'^std::os::(unix|windows|wasi|linux)::fs::.*(symlink|chown|lchown|chroot|fchown)','write'),
 (r'^std::fs::(File|Metadata|FileType|Permissions|DirEntry|ReadDir)::',None),
 (r'^std::path::Path(Buf)?::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_link|read_dir)$','read'),
 (r'^std::path::absolute$','env'),
 (r'^std::process::(id|abort|exit)$','exec'),
 (r'^std::process::','exec'),
 (r'^std::os::(unix|windows)::process::','exec'),
 (r'^std::env::(args|args_os|var|var_os|vars|vars_os|set_var|remove_var|current_dir|set_current_dir|current_exe|home_dir|temp_dir)$','env'),
 (r'^std::net::(?!.*(IpAddr|Ipv4Addr|Ipv6Addr|SocketAddr)).*','net'),
 (r'^std::net::(TcpStream|TcpListener|UdpSocket)|ToSocketAddrs','net'),
 (r'^std::os::(unix|windows)::net::','net'),
 (r'^std::os::(fd|unix::io|windows::io)::.*from_raw','read'),
 (r'^std::io::(stdio::)?(stdin|Stdin)','read'),
 (r'^image::(dynimage::)?(open|image_dimensions)$|^image::io::.*(open|image_dimensions)$|^image::.*::image_dimensions$','read'),
 (r'^image::.*save','write'),
 (r'^imagesize::(size|util::size)$','read'),
 (r'^imagesize::.*::size$','read'),
 (r'^libc::|^nix::|^rustix::','net'),
 (r'^core::arch::|::asm!','net'),
 (r'^std::fs::[a-z_]+$','write'),
 (r'^std::fs::',None),
 (r'^std::env::(consts|split_paths|join_paths|Args|Vars|VarError|JoinPaths|SplitPaths)',None),
 (r'^std::env::','env'),
 (r'^std::(unix|sys)::|^std::os::fd::','write'),
 (r'^card_format::.*(load|from_file|open|read_file)','read'),
 (r'^pulldown_cmark::.*(open|read)','read'),
]]
PURE={'core','alloc','std','templito','gobble','err_tools','anyhow','serde','serde_core','serde_json','pulldown_cmark','rand','rand_core','rand_chacha','base64','regex','regex_syntax',
 'regex_automata','chrono','iter_tools','itertools','card_format','toml','image','imagesize','ryu','itoa','num_traits','memchr','proc_macro'}
def authority(path):
    path=path.strip()
    for r,k in TABLE:
        if r.search(path): return k
    return None
def authority_of(f):
    "authority of an external function: by path, else by crate ('ffi'/'foreign' when nothing is known about it)"
    for p in(f.get('path') or '',f.get('rpath') or ''):
        a=authority(re.sub(r'^<(.*?)(<.*)? as .*>::',r'\1::',p))or authority(p)
        if a: return a
    if f.get('crate') not in PURE: return 'foreign'
    return None

def fn_refs(F,key):
    """every function value a body mentions: (fninfo, span)"""
    b=F.bodies[key]
    def op(o,sp):
        if o.get('k')=='const':
            if 'fn' in o: yield o['fn'],sp
            if 'promoted' in o: yield {'promoted':o['promoted']},sp
            for x in o.get('fields') or []:
                if isinstance(x,dict): yield from op(x,sp)
    for bl in b['blocks']:
        for s in bl['s']:
            if s[0]!='=': continue
            r=s[2]; sp=s[3] if len(s)>3 else b['span']
            for k in('o','a','b'):
                if isinstance(r.get(k),dict): yield from op(r[k],sp)
            f=r.get('f')
            if isinstance(f,list):
                for x in f: yield from op(x,sp)
            if r['r']=='agg':
                t=F.types[r['t']]
                if t['k']=='closure': yield {'closure_body':t.get('body') or t.get('def')},sp
            if 't' in r:
                t=F.types[r['t']]
                if t['k']=='fndef': yield t['fn'],sp
        t=bl['t']
        if t['k']=='call' and t['f'].get('k')=='const' and 'fn' in t['f'] and t['f']['fn']['path'].startswith('std::fs::OpenOptions::') \
            and len(t['a'])==2 and t['a'][1].get('k')=='const' and t['a'][1].get('bool') is False: continue
        if t['k'] in('asm','inlineasm','other'): yield {'path':'core::arch::asm!','crate':'core','kind':'item'},t.get('sp')
        for k in('f','o','c'):
            if isinstance(t.get(k),dict): yield from op(t[k],t.get('sp'))
        for x in t.get('a',[]) or []: yield from op(x,t.get('sp'))
        if t['k']=='call' and isinstance(t.get('f'),dict) and t['f'].get('k') in('copy','move'): pass

class CallGraph:
    def __init__(self,F):
        self.F=F
        self.impl_methods={}
        for k,b in F.bodies.items():
            if b['kind']!='fn': continue
            if b.get('impl_trait') and b.get('method'): self.impl_methods.setdefault((b['impl_trait'],b['method']),[]).append(k)
        self.byclosure={}
        self.memo={}
    def targets(self,f):
        """local/dumped bodies a function value may denote"""
        F=self.F; r=[]
        if 'promoted' in f: return [f['promoted']] if f['promoted'] in F.bodies else []
        if 'closure_body' in f: return [f['closure_body']] if f['closure_body'] in F.bodies else []
        if f.get('body') in F.bodies: r.append(f['body'])
        if f.get('closure') in F.bodies: r.append(f['closure'])
        if f.get('kind') in('unresolved','virtual') or (f.get('trait') and not r):
            tr=f.get('trait'); m=f.get('method')
            for k in self.impl_methods.get((tr,m),[]):
                if F.bodies[k]['local']: r.append(k)
            d=f.get('path')
            for k in F.bypath.get(d,[]): r.append(k)
        elif not r:
            for k in F.bypath.get(f.get('rpath') or f.get('path'),[]): r.append(k)
        return r
    def callees(self,key):
        if key not in self.memo:
            out=[]
            for f,sp in fn_refs(self.F,key):
                out.append((f,sp,self.targets(f)))
            # promoteds and closures defined in the body are reached through fn_refs
            self.memo[key]=out
        return self.memo[key]
    def reach(self,roots,stop=lambda k:False):
        """key -> (parent key, span) for everything reachable"""
        par={k:None for k in roots}; work=list(roots); ext=[]
        while work:
            k=work.pop()
            if stop(k): continue
            for f,sp,ts in self.callees(k):
                if 'path' in f: ext.append((f,k,sp))
                for t in ts:
                    if t not in par: par[t]=(k,sp); work.append(t)
        return par,ext
    def chain(self,par,k):
        c=[]
        while k is not None:
            c.append(self.F.bodies[k]['path']); p=par[k]; k=p[0] if p else None
        return ' <- '.join(c)
