"""Mechanical transformation of the real modules for symbolic execution.

Every run reads the current source of karabo_data and rewrites only:
 - loops, comprehensions: over a symbolic collection, one generic iteration is
   executed (loops.py); over anything else the loop runs as written;
 - list/set/dict displays and builtins: versions accepting symbolic values;
 - imports of numpy, h5py...: replaced by the shims (npshim.py and contracts);
 - generators: produce their items eagerly into a list;
 - a bare except / except BaseException lets the engine's signals through;
 - attribute stores are checked (not allowed on old objects in generic
   iterations).
Docstrings, comments and type annotations have no effect and are kept.
"""
import ast
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

KD = '_kd_rt'


def name(id, store=False):
    return ast.Name(id, ast.Store() if store else ast.Load())


def rt(attr):
    return ast.Attribute(name(KD), attr, ast.Load())


def call(f, *args):
    return ast.Call(f, list(args), [])


def const(v):
    return ast.Constant(v)


def assign(n, v):
    return ast.Assign([name(n, True) if isinstance(n, str) else n], v)


class Assigned(ast.NodeVisitor):
    """Names assigned in statements (not in nested functions)"""
    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name and n.name not in self.names:
            self.names.append(n.name)
        self.generic_visit(n)


def assigned(stmts):
    v = Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


class LoopControl(ast.NodeTransformer):
    """break/continue of the loop itself, and returns, in a generic body"""
    def __init__(self, lp, brk, outer):
        self.lp, self.brk, self.outer = lp, brk, outer
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):
        self.depth += 1
        n.body = [x for s in n.body for x in self._many(s)]
        self.depth -= 1
        n.orelse = [x for s in n.orelse for x in self._many(s)]
        return n

    visit_While = visit_For

    def _many(self, s):
        r = self.visit(s)
        return r if isinstance(r, list) else [r]

    def visit_Break(self, n):
        if self.depth or getattr(n, '_kd', False):
            return n
        b = ast.Break()
        b._kd = True
        return [ast.Expr(call(ast.Attribute(name(self.lp), 'leave', ast.Load()), const('break'))),
                assign(self.brk, const(True)), b]

    def visit_Continue(self, n):
        if self.depth or getattr(n, '_kd', False):
            return n
        b = ast.Break()
        b._kd = True
        return b

    def visit_Return(self, n):
        r = '_kd_ret'
        return [assign(r, n.value or const(None)),
                ast.Expr(call(ast.Attribute(name(self.lp), 'leave', ast.Load()), const('return'))),
                ast.Return(name(r))]


class YieldRewriter(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Yield(self, n):
        self.generic_visit(n)
        return call(ast.Attribute(name('_kd_acc'), 'append', ast.Load()), n.value or const(None))

    def visit_YieldFrom(self, n):
        self.generic_visit(n)
        return call(ast.Attribute(name('_kd_acc'), 'extend', ast.Load()), n.value)

    def visit_Return(self, n):
        self.generic_visit(n)
        return ast.Return(call(rt('gen_done'), name('_kd_acc')))


class HasYield(ast.NodeVisitor):
    found = False

    def visit_FunctionDef(self, n):
        pass

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Yield(self, n):
        self.found = True

    visit_YieldFrom = visit_Yield


class Xform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.count = 0
        self.fnstack = []

    def uid(self, p):
        self.count += 1
        return '_kd_%s%d' % (p, self.count)

    # ------------------------------------------------------------ functions
    def visit_FunctionDef(self, n):
        hy = HasYield()
        for s in n.body:
            hy.visit(s)
        deco = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in n.decorator_list]
        if hy.found and 'contextmanager' not in deco:
            yr = YieldRewriter()
            n.body = [yr.visit(s) for s in n.body]
            n.body = [assign('_kd_acc', call(rt('VList')))] + n.body + \
                [ast.Return(call(rt('gen_done'), name('_kd_acc')))]
        self.fnstack.append(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.body = self.stmts(n.body)
        n.returns = None
        self.fnstack.pop()
        return n

    def visit_ClassDef(self, n):
        self.fnstack.append(n.name)
        n.body = self.stmts(n.body)
        n.bases = [self.visit(b) for b in n.bases]
        n.decorator_list = [self.visit(b) for b in n.decorator_list]
        self.fnstack.pop()
        return n

    def visit_Lambda(self, n):
        n.body = self.visit(n.body)
        return n

    def stmts(self, l):
        out = []
        for s in l:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def visit_AnnAssign(self, n):
        if n.value is None:
            return n
        return self.visit(ast.Assign([n.target], n.value))

    # ---------------------------------------------------------------- loops
    def visit_For(self, n):
        it, lp, brk = self.uid('it'), self.uid('lp'), self.uid('brk')
        site = '.'.join(self.fnstack)
        carried = []
        tnames = assigned([ast.Expr(n.target)])
        for x in assigned(n.body):
            if x not in carried and x not in tnames:
                carried.append(x)
        # native version
        nat_body = self.stmts(copy.deepcopy(n.body))
        nat_orelse = [] if not n.orelse else self.stmts(copy.deepcopy(n.orelse))
        native = ast.For(copy.deepcopy(n.target), call(rt('native'), name(it)), nat_body, nat_orelse)
        # symbolic version
        body = self.stmts(copy.deepcopy(n.body))
        lc = LoopControl(lp, brk, None)
        body = [x for s in body for x in lc._many(s)]
        get = lambda v: call(rt('get'), ast.Lambda(
            ast.arguments([], [], None, [], [], None, []), name(v)))
        entry = ast.Dict([const(v) for v in carried], [get(v) for v in carried])
        meth = lambda m, *a: call(ast.Attribute(name(lp), m, ast.Load()), *a)
        once = ast.For(name('_kd_once', True), ast.Tuple([const(0)], ast.Load()), body, [])
        exc = self.uid('exc')
        tr = ast.Try([once],
                     [ast.ExceptHandler(name('Exception'), exc,
                                        [ast.Expr(meth('leave', const('raise'))), ast.Raise(None, None)])], [], [])
        ends = ast.Expr(meth('end', ast.Dict([const(v) for v in carried], [get(v) for v in carried])))
        inner = [assign(v, meth('entry', const(v))) for v in carried]
        inner += [assign(copy.deepcopy(n.target), meth('item')), tr,
                  ast.If(ast.UnaryOp(ast.Not(), name(brk)), [ends], [])]
        after = [assign(v, meth('final', const(v))) for v in carried]
        after += [assign(v, meth('lastitem', const(v))) for v in tnames]
        orelse = self.stmts(copy.deepcopy(n.orelse)) if n.orelse else []
        sym = [assign(lp, call(rt('Loop'), name(it), const(site))),
               assign(brk, const(False)),
               ast.If(meth('begin', entry), inner, after + orelse)]
        return [assign(it, call(rt('iter_of'), self.visit(n.iter))),
                ast.If(call(rt('symbolic'), name(it)), sym, [native])]

    def visit_While(self, n):
        w = self.uid('w')
        site = '.'.join(self.fnstack)
        carried = assigned(n.body)
        get = lambda v: call(rt('get'), ast.Lambda(
            ast.arguments([], [], None, [], [], None, []), name(v)))
        meth = lambda m, *a: call(ast.Attribute(name(w), m, ast.Load()), *a)
        native = ast.While(self.visit(copy.deepcopy(n.test)), self.stmts(copy.deepcopy(n.body)),
                           self.stmts(n.orelse) if n.orelse else [])
        d = lambda: ast.Dict([const(v) for v in carried], [get(v) for v in carried])
        once = ast.For(name('_kd_once', True), ast.Tuple([const(0)], ast.Load()), self.stmts(copy.deepcopy(n.body)), [])
        once.body = [x for s in once.body for x in LoopControl(w, w + 'b', None)._many(s)]
        sym = [assign(w + 'b', const(False)), ast.Expr(meth('begin', d()))] + \
            [assign(v, meth('entry', const(v))) for v in carried] + \
            [ast.Expr(meth('assume')),
             ast.If(self.visit(copy.deepcopy(n.test)),
                    [once, ast.If(ast.UnaryOp(ast.Not(), name(w + 'b')), [ast.Expr(meth('end', d()))], [])],
                    self.stmts(copy.deepcopy(n.orelse)) if n.orelse else [])]
        return [assign(w, call(rt('While'), const(site), call(name('locals')))),
                ast.If(ast.Attribute(name(w), 'has', ast.Load()), sym, [native])]

    # ------------------------------------------------------- comprehensions
    def _bind(self, target, body):
        """lambda taking one item, binding target"""
        self_args = lambda names: ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, [])
        if isinstance(target, ast.Name):
            return ast.Lambda(self_args([target.id]), body)
        if isinstance(target, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in target.elts):
            tmp = self.uid('t')
            names, wrap = [], body
            inner = []
            for e in target.elts:
                if isinstance(e, ast.Name):
                    names.append(e.id)
                else:
                    nm = self.uid('t')
                    names.append(nm)
                    inner.append((e, nm))
            for e, nm in inner:
                wrap = call(self._bind(e, wrap), name(nm))
            lam = ast.Lambda(self_args(names), wrap)
            return ast.Lambda(self_args([tmp]),
                              ast.Call(lam, [ast.Starred(call(rt('unpack'), name(tmp), const(len(names))), ast.Load())], []))
        raise SyntaxError('comprehension target')

    def _comp(self, gens, emit):
        g, rest = gens[0], gens[1:]
        body = self._comp(rest, emit) if rest else emit
        for c in reversed(g.ifs):
            body = ast.BoolOp(ast.And(), [self.visit(c), body])
        return call(rt('cfor'), self.visit(g.iter), self._bind(g.target, body), const('.'.join(self.fnstack)))

    def _acc(self, cls, node, emit_fn):
        acc = self.uid('acc')
        body = self._comp(node.generators, emit_fn(acc))
        lam = ast.Lambda(ast.arguments([], [ast.arg(acc)], None, [], [], None, []),
                         call(rt('second'), body, name(acc)))
        return call(lam, call(rt(cls)))

    def visit_ListComp(self, n):
        return self._acc('VList', n, lambda acc: call(ast.Attribute(name(acc), 'append', ast.Load()), self.visit(n.elt)))

    def visit_GeneratorExp(self, n):
        return self._acc('VList', n, lambda acc: call(ast.Attribute(name(acc), 'append', ast.Load()), self.visit(n.elt)))

    def visit_SetComp(self, n):
        return self._acc('VSet', n, lambda acc: call(ast.Attribute(name(acc), 'add', ast.Load()), self.visit(n.elt)))

    def visit_DictComp(self, n):
        return self._acc('VDict', n, lambda acc: call(ast.Attribute(name(acc), '__setitem__', ast.Load()),
                                                      self.visit(n.key), self.visit(n.value)))

    # ------------------------------------------------------------- displays
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return call(rt('VList'), n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return call(rt('VSet'), ast.Tuple(n.elts, ast.Load()))

    def visit_Dict(self, n):
        self.generic_visit(n)
        return call(rt('mkdict'), *[ast.Tuple([k or const(None), v], ast.Load()) for k, v in zip(n.keys, n.values)]) \
            if all(k is not None for k in n.keys) else call(rt('VDict'), n)

    # ----------------------------------------------------- other statements
    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and self.fnstack:
            t = n.targets[0]
            t.value = call(rt('check_store'), t.value, const(self.fnstack[-1]))
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Attribute) and self.fnstack:
            n.target.value = call(rt('check_store'), n.target.value, const(self.fnstack[-1]))
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None or (isinstance(n.type, ast.Name) and n.type.id == 'BaseException'):
            n.body = [ast.Expr(call(rt('no_signal')))] + n.body
        return n

    def visit_Import(self, n):
        out = [n]
        for a in n.names:
            tgt = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            out.append(assign(tgt, call(rt('imported'), const(full), name(tgt))))
        return out

    def visit_ImportFrom(self, n):
        if n.module == '__future__':
            return n
        out = [n]
        for a in n.names:
            if a.name == '*':
                continue
            tgt = a.asname or a.name
            out.append(assign(tgt, call(rt('imported_from'), const(n.module or ''), const(a.name), name(tgt),
                                        const(n.level))))
        return out

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = call(rt('contains'), n.comparators[0], n.left)
            return r if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return n
        for i, a in enumerate(n.args):
            if isinstance(a, ast.Starred):
                a.value = call(rt('star'), a.value)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 1 and not n.keywords \
                and not isinstance(n.args[0], ast.Starred):
            return call(rt('join'), n.func.value, n.args[0])
        return n


def transform(src, modname, path):
    tree = ast.parse(src, path)
    x = Xform(modname)
    body = []
    doc = []
    stmts = tree.body
    while stmts and (isinstance(stmts[0], ast.Expr) and isinstance(stmts[0].value, ast.Constant)
                     or isinstance(stmts[0], ast.ImportFrom) and stmts[0].module == '__future__'):
        doc.append(stmts[0])
        stmts = stmts[1:]
    tree.body = doc + x.stmts(stmts)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    runtime = None
    builtins = {}

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = transform(src, fullname, path)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__[KD] = Loader.runtime
        module.__dict__.update(Loader.builtins)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, plain=()):
        self.root, self.plain = root, set(plain)

    def find_spec(self, fullname, path, target=None):
        if fullname.split('.')[0] != 'karabo_data':
            return None
        base = os.path.join(self.root, *fullname.split('.'))
        if os.path.isdir(base):
            f, sub = os.path.join(base, '__init__.py'), [base]
        else:
            f, sub = base + '.py', None
        if not os.path.exists(f):
            return None
        cls = importlib.machinery.SourceFileLoader if fullname in self.plain else Loader
        return importlib.util.spec_from_file_location(fullname, f, loader=cls(fullname, f),
                                                      submodule_search_locations=sub)
