"""mutation survey: python3 mut.py file-substring [func-substring] [--max N]"""
import ast,sys,os,copy,random,shutil,io,multiprocessing as mp
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ROOT='/repo/src/tatc'
def files():
    for d,_,fs in os.walk(ROOT):
        for f in fs:
            if f.endswith('.py'): yield os.path.join(d,f)
CMP={ast.Lt:[ast.LtE,ast.Gt],ast.LtE:[ast.Lt,ast.GtE],ast.Gt:[ast.GtE,ast.Lt],ast.GtE:[ast.Gt,ast.LtE],ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.Is:[ast.IsNot],ast.IsNot:[ast.Is],ast.In:[ast.NotIn],ast.NotIn:[ast.In]}
BIN={ast.Add:[ast.Sub],ast.Sub:[ast.Add],ast.Mult:[ast.Div],ast.Div:[ast.Mult],ast.FloorDiv:[ast.Div],ast.Mod:[ast.FloorDiv],ast.Pow:[ast.Mult],ast.BitAnd:[ast.BitOr],ast.BitOr:[ast.BitAnd]}
def mutants(tree):
    """yield (desc, func, lineno, mutated source)"""
    nodes=[]
    def walk(n,fn,inraise=False):
        for c in ast.iter_child_nodes(n):
            f=fn; 
            if isinstance(c,(ast.FunctionDef,)):
                f=(fn+'.' if fn else '')+c.name
            elif isinstance(c,ast.ClassDef): f=(fn+'.' if fn else '')+c.name
            if isinstance(c,ast.Raise): continue
            if isinstance(c,ast.AnnAssign) and isinstance(n,ast.ClassDef): continue
            if isinstance(c,ast.JoinedStr) : pass
            nodes.append((c,n,f)); walk(c,f)
    walk(tree,'')
    infunc={id(x) for fn in ast.walk(tree) if isinstance(fn,ast.FunctionDef) for x in ast.walk(fn)}
    skip=set()
    for fn in ast.walk(tree):
        if isinstance(fn,(ast.FunctionDef,ast.ClassDef,ast.Module)) and fn.body and isinstance(fn.body[0],ast.Expr) and isinstance(fn.body[0].value,ast.Constant): skip.add(id(fn.body[0].value)); skip.add(id(fn.body[0]))
        if isinstance(fn,ast.FunctionDef):
            for a in ast.walk(fn.args):
                if isinstance(a,ast.arg) and a.annotation is not None:
                    for x in ast.walk(a.annotation): skip.add(id(x))
            if fn.returns is not None:
                for x in ast.walk(fn.returns): skip.add(id(x))
            for d in fn.decorator_list:
                for x in ast.walk(d): skip.add(id(x))
    def emit(desc,node,fn):
        ast.fix_missing_locations(tree)
        return (desc,fn,getattr(node,'lineno',0),ast.unparse(tree))
    for node,parent,fn in nodes:
        if id(node) in skip or id(node) not in infunc: continue
        if isinstance(node,ast.Compare):
            for i,op in enumerate(node.ops):
                for alt in CMP.get(type(op),[]):
                    node.ops[i]=alt(); yield emit(f'cmp {type(op).__name__}->{alt.__name__}',node,fn); node.ops[i]=op
        if isinstance(node,ast.BinOp):
            for alt in BIN.get(type(node.op),[]):
                o=node.op; node.op=alt(); yield emit(f'bin {type(o).__name__}->{alt.__name__}',node,fn); node.op=o
        if isinstance(node,ast.BoolOp):
            o=node.op; node.op=ast.Or() if isinstance(o,ast.And) else ast.And(); yield emit('boolop',node,fn); node.op=o
            if len(node.values)>=2:
                v=node.values
                for k in range(len(v)):
                    node.values=v[:k]+v[k+1:]
                    if len(node.values)>=1: 
                        if len(node.values)==1: node.values=node.values+[ast.Constant(isinstance(o,ast.And))]
                        yield emit(f'drop operand {k}',node,fn)
                node.values=v
        if isinstance(node,ast.UnaryOp) and isinstance(node.op,(ast.Not,ast.USub)):
            o=node.op; node.op=ast.UAdd() if isinstance(o,ast.USub) else ast.Not()
            if isinstance(o,ast.USub): yield emit('drop minus',node,fn)
            node.op=o
        if isinstance(node,ast.Constant):
            v=node.value
            if isinstance(v,bool): alts=[not v]
            elif isinstance(v,int): alts=[v+1]
            elif isinstance(v,float): alts=[v*1.01+0.1]
            elif isinstance(v,str) and v: alts=[v+'_x']
            elif v is None: alts=[]
            else: alts=[]
            for a in alts:
                node.value=a; yield emit(f'const {v!r}->{a!r}',node,fn); node.value=v
        if isinstance(node,(ast.If,ast.IfExp,ast.While)):
            t=node.test; node.test=ast.UnaryOp(ast.Not(),t); yield emit('negate cond',node,fn)
            node.test=ast.Constant(True); 
            if not isinstance(node,ast.While): yield emit('cond true',node,fn); node.test=ast.Constant(False); yield emit('cond false',node,fn)
            node.test=t
        if isinstance(node,ast.Call):
            if len(node.args)>=2 and not any(isinstance(a,ast.Starred) for a in node.args):
                a=node.args; node.args=[a[1],a[0]]+a[2:]; yield emit('swap args '+ast.unparse(node.func),node,fn); node.args=a
            if node.keywords:
                k=node.keywords
                for i in range(len(k)):
                    node.keywords=k[:i]+k[i+1:]; yield emit(f'drop kw {k[i].arg} of '+ast.unparse(node.func),node,fn)
                node.keywords=k
            if isinstance(node.func,ast.Attribute):
                SW={'min':'max','max':'min','sin':'cos','cos':'sin','radians':'degrees','degrees':'radians','from_datetime':'from_datetimes','floor':'ceil','ceil':'floor','argmin':'argmax','append':'extend','any':'all','all':'any','logical_and':'logical_or','longitude':'latitude','cummax':'cummin','hour':'minute'}
                if node.func.attr in SW:
                    a=node.func.attr; node.func.attr=SW[a]; yield emit(f'attr {a}->{SW[a]}',node,fn); node.func.attr=a
        if isinstance(node,ast.Attribute) and isinstance(node.ctx,ast.Load):
            SW={'latitude':'longitude','longitude':'latitude','altitude':'elevation','elevation':'altitude','start':'end','end':'start','lat':'lon','position':'velocity','hour':'minute'}
            if node.attr in SW:
                a=node.attr; node.attr=SW[a]; yield emit(f'attr {a}->{SW[a]}',node,fn); node.attr=a
        for fld in ('body','orelse'):
            b=getattr(node,fld,None)
            if isinstance(b,list) and isinstance(node,ast.stmt):
                for i,s in enumerate(b):
                    if isinstance(s,(ast.Expr,ast.Assign,ast.AugAssign,ast.Delete)) and id(s) not in skip:
                        b[i]=ast.Pass(); yield emit('drop stmt '+ast.unparse(s)[:50],s,fn); b[i]=s
        if isinstance(node,ast.Call) and isinstance(node.func,ast.Attribute) and node.func.attr in('copy','strip') :
            pass
        if isinstance(node,(ast.ListComp,ast.GeneratorExp)):
            for g in node.generators:
                if g.ifs:
                    x=g.ifs; g.ifs=[]; yield emit('drop comp if',node,fn); g.ifs=x
def work(job):
    rel,desc,fn,ln,src,wid=job
    import vn.check as C
    d=f'/tmp/mutw2/{os.getpid()}'
    if not os.path.isdir(d):
        os.makedirs(d); shutil.copytree('/repo/src',d+'/src')
    p=os.path.join(d,'src','tatc',rel)
    orig=open(os.path.join(ROOT,rel)).read()
    open(p,'w').write(src)
    try:
        ctx=C.Context(repo=d)
        # only anchors for the mutated function or (if private/other) all in same module
        res=ctx.run()
        st=[(r.anchor,r.status,r.detail if isinstance(r.detail,str) else '') for r in res if r.status in('violated','undecided') and not r.anchor.endswith(':kept-result')]
        v=[a for a,s,_ in st if s=='violated']
        if v: out=('caught',v[0])
        elif st: out=('undecided',str(st[0]))
        else: out=('survived','')
    except Exception as e:
        import traceback
        out=('error',traceback.format_exc()[-300:])
    finally:
        open(p,'w').write(orig)
    return (rel,fn,ln,desc)+out
if __name__=='__main__':
    args=[a for a in sys.argv[1:] if not a.startswith('--')]
    fs=args[0] if args else ''
    ff=args[1] if len(args)>1 else ''
    mx=10**9
    for a in sys.argv:
        if a.startswith('--max='): mx=int(a[6:])
    jobs=[]
    for p in sorted(files()):
        rel=os.path.relpath(p,ROOT)
        if fs not in rel: continue
        base=ast.unparse(ast.parse(open(p).read()))
        for desc,fn,ln,src in mutants(ast.parse(open(p).read())):
            if ff in fn and src!=base: jobs.append((rel,desc,fn,ln,src,0))
    random.seed(1)
    if len(jobs)>mx: jobs=random.sample(jobs,mx)
    from collections import Counter
    c=Counter()
    with mp.Pool(int(os.environ.get("P","8"))) as pool:
        for r in pool.imap_unordered(work,jobs,chunksize=4):
            c[r[4]]+=1
            if r[4]!='caught': print(*r[:4],'|',r[4],r[5][:230],flush=True)
    print(c)
