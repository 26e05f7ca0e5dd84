"""apply a behaviour-preserving transform to a copy of the package: refac.py NAME DEST"""
import ast,sys,os,shutil,subprocess
name,dest=sys.argv[1:3]
class Base(ast.NodeTransformer):
    n=0
    def fresh(self):
        Base.n+=1; return "tmp_%d"%Base.n
class Rename(Base):
    def visit_FunctionDef(self,node):
        if any(isinstance(x,(ast.FunctionDef,ast.Lambda,ast.ListComp,ast.GeneratorExp,ast.DictComp,ast.SetComp,ast.Nonlocal,ast.Global)) and x is not node for x in ast.walk(node)):
            self.generic_visit(node); return node
        args={a.arg for a in node.args.args+node.args.kwonlyargs+node.args.posonlyargs}
        if node.args.vararg: args.add(node.args.vararg.arg)
        if node.args.kwarg: args.add(node.args.kwarg.arg)
        st={x.id for x in ast.walk(node) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}-args
        for x in ast.walk(node):
            if isinstance(x,ast.Name) and x.id in st: x.id="loc_"+x.id
            if isinstance(x,ast.ExceptHandler) and x.name and x.name in st: pass
        return node
class Invert(Base):
    def visit_If(self,node):
        self.generic_visit(node)
        if node.orelse and not (len(node.orelse)==1 and isinstance(node.orelse[0],ast.If)):
            node.test=ast.UnaryOp(ast.Not(),node.test); node.body,node.orelse=node.orelse,node.body
        return node
    def visit_IfExp(self,node):
        self.generic_visit(node)
        node.test=ast.UnaryOp(ast.Not(),node.test); node.body,node.orelse=node.orelse,node.body
        return node
class Ret(Base):
    def visit_Return(self,node):
        if node.value is None or isinstance(node.value,(ast.Constant,ast.Name)): return node
        t=self.fresh()
        return [ast.Assign([ast.Name(t,ast.Store())],node.value),ast.Return(ast.Name(t,ast.Load()))]
class Aug(Base):
    def visit_AugAssign(self,node):
        if isinstance(node.target,ast.Name):
            return ast.Assign([ast.Name(node.target.id,ast.Store())],ast.BinOp(ast.Name(node.target.id,ast.Load()),node.op,node.value))
        return node
class AndIf(Base):
    def visit_If(self,node):
        self.generic_visit(node)
        if isinstance(node.test,ast.BoolOp) and isinstance(node.test.op,ast.And) and not node.orelse:
            b=node.body
            for t in reversed(node.test.values):
                b=[ast.If(t,b,[])]
            return b[0]
        return node
class Comp(Base):
    def stmts(self,body):
        out=[]
        for s in body:
            if isinstance(s,ast.Assign) and len(s.targets)==1 and isinstance(s.targets[0],ast.Name) and isinstance(s.value,ast.ListComp) and len(s.value.generators)==1:
                g=s.value.generators[0]
                nm=s.targets[0].id
                if any(isinstance(x,ast.Name) and x.id==nm for x in ast.walk(s.value)): out.append(s); continue
                b=[ast.Expr(ast.Call(ast.Attribute(ast.Name(nm,ast.Load()),"append",ast.Load()),[s.value.elt],[]))]
                for c in reversed(g.ifs): b=[ast.If(c,b,[])]
                out+=[ast.Assign([ast.Name(nm,ast.Store())],ast.List([],ast.Load())),ast.For(g.target,g.iter,b,[],lineno=0)]
            else: out.append(s)
        return out
    def generic_visit(self,node):
        super().generic_visit(node)
        for f in ("body","orelse","finalbody"):
            b=getattr(node,f,None)
            if isinstance(b,list) and b and isinstance(b[0],ast.stmt) and not isinstance(node,(ast.Module,ast.ClassDef)): setattr(node,f,self.stmts(b))
        return node
class Temp(Base):
    """call arguments into temporaries (simple statements: Expr(Call) and Assign(Call))"""
    def do(self,s,call):
        pre=[]
        for i,a in enumerate(call.args):
            if isinstance(a,(ast.Call,ast.BinOp,ast.Subscript,ast.Attribute)) and not any(isinstance(x,(ast.Starred,ast.Yield,ast.NamedExpr)) for x in ast.walk(call)):
                t=self.fresh(); pre.append(ast.Assign([ast.Name(t,ast.Store())],a)); call.args[i]=ast.Name(t,ast.Load())
        return pre+[s]
    def visit_Expr(self,s):
        if isinstance(s.value,ast.Call) and not any(isinstance(x,ast.Call) for x in ast.walk(s.value.func)) : return self.do(s,s.value)
        return s
    def visit_Assign(self,s):
        if isinstance(s.value,ast.Call) and not any(isinstance(x,ast.Call) for x in ast.walk(s.value.func)): return self.do(s,s.value)
        return s
    def visit_ClassDef(self,node):
        node.body=[self.visit(x) if isinstance(x,(ast.FunctionDef,ast.ClassDef)) else x for x in node.body]; return node
    def visit_Module(self,node):
        node.body=[self.visit(x) if isinstance(x,(ast.FunctionDef,ast.ClassDef)) else x for x in node.body]; return node
class Early(Base):
    """if c: A (return) else: B  / trailing else removal; loops: if c: body -> if not c: continue; body"""
    def visit_For(self,node):
        self.generic_visit(node)
        if len(node.body)==1 and isinstance(node.body[0],ast.If) and not node.body[0].orelse:
            i=node.body[0]
            node.body=[ast.If(ast.UnaryOp(ast.Not(),i.test),[ast.Continue()],[])]+i.body
        return node
class Cmp(Base):
    """a < b -> b > a ; a == b -> b == a ; chained compare -> and (simple middle)"""
    M={ast.Lt:ast.Gt,ast.Gt:ast.Lt,ast.LtE:ast.GtE,ast.GtE:ast.LtE,ast.Eq:ast.Eq,ast.NotEq:ast.NotEq}
    def visit_Compare(self,node):
        self.generic_visit(node)
        if len(node.ops)==1 and type(node.ops[0]) in self.M:
            return ast.Compare(node.comparators[0],[self.M[type(node.ops[0])]()],[node.left])
        if len(node.ops)==2 and all(type(o) in self.M for o in node.ops) and isinstance(node.comparators[0],(ast.Name,ast.Constant,ast.Attribute)):
            return ast.BoolOp(ast.And(),[ast.Compare(node.left,[node.ops[0]],[node.comparators[0]]),ast.Compare(node.comparators[0],[node.ops[1]],[node.comparators[1]])])
        return node
class Nop(Base):
    """a statement that does nothing at the start of every function"""
    def visit_FunctionDef(self,node):
        self.generic_visit(node)
        i=1 if isinstance(node.body[0],ast.Expr) and isinstance(node.body[0].value,ast.Constant) and isinstance(node.body[0].value.value,str) else 0
        node.body.insert(i,ast.Assign([ast.Name("unused_nop",ast.Store())],ast.Constant(None)))
        return node
class Unpack(Base):
    """a, b = expr -> t = expr; a = t[0]; b = t[1]  (tuple displays become single assigns via temp)"""
    def visit_Assign(self,s):
        if len(s.targets)==1 and isinstance(s.targets[0],ast.Tuple) and isinstance(s.value,ast.Tuple) and len(s.value.elts)==len(s.targets[0].elts) and not any(isinstance(x,ast.Starred) for x in s.targets[0].elts):
            ts=[self.fresh() for _ in s.value.elts]
            return [ast.Assign([ast.Name(t,ast.Store())],e) for t,e in zip(ts,s.value.elts)]+[ast.Assign([x],ast.Name(t,ast.Load())) for t,x in zip(ts,s.targets[0].elts)]
        return s
class Helper(Base):
    """wrap the loop body's If-body in a nested function? -> bodies of methods: outer delegates to inner def with same args"""
    def visit_FunctionDef(self,node):
        if any(isinstance(x,(ast.Yield,ast.YieldFrom,ast.Nonlocal)) for x in ast.walk(node)): return node
        if node.name.startswith("__") or node.decorator_list or any(isinstance(x,ast.Call) and isinstance(x.func,ast.Name) and x.func.id=="super" for x in ast.walk(node)): return node
        i=1 if isinstance(node.body[0],ast.Expr) and isinstance(node.body[0].value,ast.Constant) and isinstance(node.body[0].value.value,str) else 0
        if node.args.vararg or node.args.kwarg: return node
        body=node.body[i:]
        if not body: return node
        inner=ast.FunctionDef(name="do_it",args=ast.arguments(posonlyargs=[],args=[],kwonlyargs=[],kw_defaults=[],defaults=[]),body=body,decorator_list=[],returns=None,type_params=[],lineno=0)
        st={x.id for b in body for x in ast.walk(b) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}
        args={a.arg for a in node.args.args+node.args.kwonlyargs}
        if st&args: return node
        node.body=node.body[:i]+[inner,ast.Return(ast.Call(ast.Name("do_it",ast.Load()),[],[]))]
        return node
class Method(Base):
    """tail half of a long method body moved to a private method receiving the locals"""
    def visit_ClassDef(self,node):
        new=[]
        for f in node.body:
            new.append(f)
            if not isinstance(f,ast.FunctionDef) or f.decorator_list or f.name.startswith("__") or not f.args.args or f.args.args[0].arg!="self" or f.args.vararg or f.args.kwarg: continue
            if any(isinstance(x,(ast.Yield,ast.YieldFrom,ast.Nonlocal,ast.FunctionDef)) and x is not f for x in ast.walk(f)): continue
            if any(isinstance(x,ast.Call) and isinstance(x.func,ast.Name) and x.func.id=="super" for x in ast.walk(f)): continue
            i=1 if isinstance(f.body[0],ast.Expr) and isinstance(f.body[0].value,ast.Constant) and isinstance(f.body[0].value.value,str) else 0
            b=f.body[i:]
            if len(b)<4: continue
            h=len(b)//2
            first,second=b[:h],b[h:]
            # names surely bound at top level of first half (and args)
            bound=[a.arg for a in f.args.args+f.args.kwonlyargs]
            def tops(s):
                if isinstance(s,ast.Assign):
                    for t in s.targets:
                        for x in ast.walk(t):
                            if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store) and x.id not in bound: bound.append(x.id)
            for s in first: tops(s)
            used={x.id for s in second for x in ast.walk(s) if isinstance(x,ast.Name)}
            st1={x.id for s in first for x in ast.walk(s) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}
            if (used&st1)-set(bound): continue
            ps=[x for x in bound if x in used and x!="self"]
            nm="_rest_of_"+f.name.strip("_")
            g=ast.FunctionDef(name=nm,args=ast.arguments(posonlyargs=[],args=[ast.arg("self")]+[ast.arg(p) for p in ps],kwonlyargs=[],kw_defaults=[],defaults=[]),body=second,decorator_list=[],returns=None,type_params=[],lineno=0)
            f.body=f.body[:i]+first+[ast.Return(ast.Call(ast.Attribute(ast.Name("self",ast.Load()),nm,ast.Load()),[ast.Name(p,ast.Load()) for p in ps],[]))]
            new.append(g)
        node.body=new
        return node
class ForIdx(Base):
    """for x in enumerate(S) -> explicit counter;   """
    def visit_For(self,node):
        self.generic_visit(node)
        if isinstance(node.iter,ast.Call) and isinstance(node.iter.func,ast.Name) and node.iter.func.id=="enumerate" and len(node.iter.args)==1 and isinstance(node.target,ast.Tuple) and isinstance(node.target.elts[0],ast.Name) and not any(isinstance(x,ast.Continue) for x in ast.walk(node)) and not node.orelse:
            i=node.target.elts[0].id; t=self.fresh()
            node.iter=node.iter.args[0]; node.target=node.target.elts[1]
            node.body=[ast.Assign([ast.Name(i,ast.Store())],ast.Name(t,ast.Load()))]+node.body+[ast.AugAssign(ast.Name(t,ast.Store()),ast.Add(),ast.Constant(1))]
            return [ast.Assign([ast.Name(t,ast.Store())],ast.Constant(0)),node]
        return node
class DeMorgan(Base):
    def visit_UnaryOp(self,node):
        self.generic_visit(node)
        if isinstance(node.op,ast.Not) and isinstance(node.operand,ast.BoolOp):
            b=node.operand
            return ast.BoolOp(ast.Or() if isinstance(b.op,ast.And) else ast.And(),[ast.UnaryOp(ast.Not(),v) for v in b.values])
        return node
    def visit_If(self,node):
        self.generic_visit(node)
        if isinstance(node.test,ast.BoolOp) and isinstance(node.test.op,ast.Or):
            node.test=ast.UnaryOp(ast.Not(),ast.BoolOp(ast.And(),[ast.UnaryOp(ast.Not(),v) for v in node.test.values]))
        return node
class ElifNest(Base):
    """else after return removed: if c: ...return  else: B -> if c: ..return ; B"""
    def stmts(self,body):
        out=[]
        for s in body:
            if isinstance(s,ast.If) and s.orelse and isinstance(s.body[-1],(ast.Return,ast.Raise,ast.Continue,ast.Break)):
                o=s.orelse; s.orelse=[]; out.append(s); out+=self.stmts(o)
            else: out.append(s)
        return out
    def generic_visit(self,node):
        super().generic_visit(node)
        for f in ("body","orelse"):
            b=getattr(node,f,None)
            if isinstance(b,list) and b and isinstance(b[0],ast.stmt): setattr(node,f,self.stmts(b))
        return node

class WhileRange(Base):
    """for i in range(n): B -> i = 0; while i < n: B; i += 1"""
    def visit_For(self,node):
        self.generic_visit(node)
        it=node.iter
        if isinstance(it,ast.Call) and isinstance(it.func,ast.Name) and it.func.id=="range" and isinstance(node.target,ast.Name) and len(it.args)<=2 and not node.orelse and not any(isinstance(x,ast.Continue) for x in ast.walk(node)):
            i=node.target.id; t=self.fresh(); e=self.fresh()
            lo,hi=(ast.Constant(0),it.args[0]) if len(it.args)==1 else it.args
            return [ast.Assign([ast.Name(t,ast.Store())],lo),ast.Assign([ast.Name(e,ast.Store())],hi),ast.While(ast.Compare(ast.Name(t,ast.Load()),[ast.Lt()],[ast.Name(e,ast.Load())]),[ast.Assign([ast.Name(i,ast.Store())],ast.Name(t,ast.Load()))]+node.body+[ast.AugAssign(ast.Name(t,ast.Store()),ast.Add(),ast.Constant(1))],[])]
        return node
class RangeIdx(Base):
    """for x in S -> l = list(S); for i in range(len(l)): x = l[i]"""
    def visit_For(self,node):
        self.generic_visit(node)
        if isinstance(node.iter,ast.Call) and isinstance(node.iter.func,ast.Name) and node.iter.func.id=="range": return node
        l=self.fresh(); i=self.fresh()
        pre=ast.Assign([ast.Name(l,ast.Store())],ast.Call(ast.Name("list",ast.Load()),[node.iter],[]))
        node.iter=ast.Call(ast.Name("range",ast.Load()),[ast.Call(ast.Name("len",ast.Load()),[ast.Name(l,ast.Load())],[])],[])
        node.body=[ast.Assign([node.target],ast.Subscript(ast.Name(l,ast.Load()),ast.Name(i,ast.Load()),ast.Load()))]+node.body
        node.target=ast.Name(i,ast.Store())
        return [pre,node]
class Items(Base):
    """for k, v in d.items() -> for k in d: v = d[k]"""
    def visit_For(self,node):
        self.generic_visit(node)
        it=node.iter
        if isinstance(it,ast.Call) and isinstance(it.func,ast.Attribute) and it.func.attr=="items" and not it.args and isinstance(node.target,ast.Tuple) and isinstance(node.target.elts[0],ast.Name) and isinstance(it.func.value,(ast.Name,ast.Attribute)):
            d=it.func.value; k,v=node.target.elts
            node.target=k; node.iter=d
            node.body=[ast.Assign([v],ast.Subscript(d,ast.Name(k.id,ast.Load()),ast.Load()))]+node.body
        return node
class Blocks(Base):
    def generic_visit(self,node):
        super().generic_visit(node)
        for f in ("body","orelse","finalbody"):
            b=getattr(node,f,None)
            if isinstance(b,list) and b and isinstance(b[0],ast.stmt) and not isinstance(node,(ast.Module,ast.ClassDef)): setattr(node,f,self.stmts(b))
        return node
class Reorder(Blocks):
    """swap adjacent independent assignments without calls"""
    def simple(self,s):
        return isinstance(s,ast.Assign) and all(isinstance(t,ast.Name) for t in s.targets) and not any(isinstance(x,(ast.Call,ast.Subscript,ast.NamedExpr,ast.Yield,ast.Await)) for x in ast.walk(s.value))
    def stmts(self,b):
        b=list(b); i=0
        while i+1<len(b):
            x,y=b[i],b[i+1]
            if self.simple(x) and self.simple(y):
                wx={t.id for t in x.targets}; wy={t.id for t in y.targets}
                rx={n.id for n in ast.walk(x.value) if isinstance(n,ast.Name)}; ry={n.id for n in ast.walk(y.value) if isinstance(n,ast.Name)}
                if not(wx&wy or wx&ry or wy&rx): b[i],b[i+1]=y,x; i+=1
            i+=1
        return b
class Ternary(Blocks):
    def stmts(self,b):
        out=[]
        for s in b:
            if isinstance(s,ast.If) and len(s.body)==1 and len(s.orelse)==1 and isinstance(s.body[0],ast.Assign) and isinstance(s.orelse[0],ast.Assign) and ast.dump(s.body[0].targets[0])==ast.dump(s.orelse[0].targets[0]) and len(s.body[0].targets)==1==len(s.orelse[0].targets):
                out.append(ast.Assign(s.body[0].targets,ast.IfExp(s.test,s.body[0].value,s.orelse[0].value)))
            elif isinstance(s,ast.If) and len(s.body)==1 and len(s.orelse)==1 and isinstance(s.body[0],ast.Return) and isinstance(s.orelse[0],ast.Return) and s.body[0].value and s.orelse[0].value:
                out.append(ast.Return(ast.IfExp(s.test,s.body[0].value,s.orelse[0].value)))
            else: out.append(s)
        return out
class Unternary(Blocks):
    def stmts(self,b):
        out=[]
        for s in b:
            if isinstance(s,ast.Assign) and isinstance(s.value,ast.IfExp):
                out.append(ast.If(s.value.test,[ast.Assign(s.targets,s.value.body)],[ast.Assign(s.targets,s.value.orelse)]))
            elif isinstance(s,ast.Return) and isinstance(s.value,ast.IfExp):
                out.append(ast.If(s.value.test,[ast.Return(s.value.body)],[])); out.append(ast.Return(s.value.orelse))
            elif isinstance(s,ast.Return) and isinstance(s.value,ast.BoolOp) and isinstance(s.value.op,ast.And) and all(isinstance(v,ast.Compare) for v in s.value.values):
                for v in s.value.values: out.append(ast.If(ast.UnaryOp(ast.Not(),v),[ast.Return(ast.Constant(False))],[]))
                out.append(ast.Return(ast.Constant(True)))
            else: out.append(s)
        return out
class Arith(Base):
    """shifts and masks by constants <-> division and remainder; x*2 -> x+x"""
    def visit_BinOp(self,node):
        self.generic_visit(node)
        c=node.right.value if isinstance(node.right,ast.Constant) and type(node.right.value) is int else None
        K=ast.Constant
        if c is None: return node
        if isinstance(node.op,ast.RShift): return ast.BinOp(node.left,ast.FloorDiv(),K(1<<c))
        if isinstance(node.op,ast.BitAnd) and c>0 and c&(c+1)==0: return ast.BinOp(node.left,ast.Mod(),K(c+1))
        if isinstance(node.op,ast.LShift): return ast.BinOp(node.left,ast.Mult(),K(1<<c))
        if isinstance(node.op,ast.FloorDiv) and c>0 and c&(c-1)==0: return ast.BinOp(node.left,ast.RShift(),K(c.bit_length()-1)) if not any(isinstance(x,ast.Constant) and type(x.value) is float for x in ast.walk(node.left)) else node
        return node
    def visit_AugAssign(self,node):
        if isinstance(node.target,ast.Name):
            return ast.Assign([node.target],self.visit_BinOp(ast.BinOp(ast.Name(node.target.id,ast.Load()),node.op,node.value)))
        return node
class Consts(Base):
    """integer literals (>7) in functions become module constants"""
    def visit_Module(self,node):
        self.k={}
        self.infn=0
        self.generic_visit(node)
        i=0
        while i<len(node.body) and (isinstance(node.body[i],(ast.Import,ast.ImportFrom)) or isinstance(node.body[i],ast.Expr)): i+=1
        node.body[i:i]=[ast.Assign([ast.Name(n,ast.Store())],ast.Constant(v)) for v,n in self.k.items()]
        return node
    def visit_FunctionDef(self,node):
        self.infn+=1
        node.body=[self.visit(s) for s in node.body]
        self.infn-=1
        return node
    def visit_JoinedStr(self,node): return node
    def visit_Constant(self,node):
        if self.infn and type(node.value) is int and node.value>3:
            return ast.Name(self.k.setdefault(node.value,"_K%d"%node.value),ast.Load())
        return node
class LoopBody(Base):
    """the body of a loop becomes a nested function of the loop variables"""
    def visit_FunctionDef(self,node):
        self.generic_visit(node); return node
    def visit_For(self,node):
        self.generic_visit(node)
        if any(isinstance(x,(ast.Continue,ast.Break,ast.Return,ast.Yield,ast.YieldFrom,ast.FunctionDef)) for x in ast.walk(node)): return node
        st={x.id for s in node.body for x in ast.walk(s) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}
        # all stored names must be assigned before use inside and not used elsewhere: approximate by requiring first top-level stmt assigns
        tops=[]
        for s in node.body:
            ld={x.id for x in ast.walk(s) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Load)}
            if isinstance(s,ast.AugAssign): return node
            if any(isinstance(x,ast.AugAssign) and isinstance(x.target,ast.Name) and x.target.id not in tops for x in ast.walk(s)): return node
            if isinstance(s,ast.Assign):
                for t in s.targets:
                    for x in ast.walk(t):
                        if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store): tops.append(x.id)
        if st-set(tops)-{x.id for s in node.body for y in ast.walk(s) if isinstance(y,(ast.For,ast.comprehension)) for x in ast.walk(y.target) if isinstance(x,ast.Name)}: return node
        first={}
        for s in node.body:
            if isinstance(s,ast.Assign):
                for x in ast.walk(s.value):
                    if isinstance(x,ast.Name) and x.id in st and x.id not in first: return node
                for t in s.targets:
                    for x in ast.walk(t):
                        if isinstance(x,ast.Name): first[x.id]=1
            else:
                for x in ast.walk(s):
                    if isinstance(x,ast.Name) and x.id in set(tops) and x.id not in first and isinstance(x.ctx,ast.Load): return node
        args=[x.id for x in ast.walk(node.target) if isinstance(x,ast.Name) and x.id!='_']
        f=self.fresh()
        fd=ast.FunctionDef(name=f,args=ast.arguments(posonlyargs=[],args=[ast.arg(a) for a in args],kwonlyargs=[],kw_defaults=[],defaults=[]),body=node.body,decorator_list=[],returns=None,type_params=[],lineno=0)
        node.body=[ast.Expr(ast.Call(ast.Name(f,ast.Load()),[ast.Name(a,ast.Load()) for a in args],[]))]
        return [fd,node]
class Walrus(Base):
    pass
T={c.__name__.lower():c for c in list(Base.__subclasses__())+Blocks.__subclasses__()}
if name=="list": print(*T); sys.exit()
shutil.rmtree(dest,ignore_errors=True); subprocess.run(["cp","-a","/repo",dest],check=True)
files=sys.argv[3:]
for dp,_,fs in os.walk(dest+"/dustmaker"):
    for f in fs:
        if f.endswith(".py") and (not files or f in files):
            p=os.path.join(dp,f); t=ast.parse(open(p).read()); t=T[name]().visit(t); ast.fix_missing_locations(t); open(p,"w").write(ast.unparse(t)+"\n")
