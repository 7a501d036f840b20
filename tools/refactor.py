"""Behaviour-preserving rewrites of the whole library, to see that the checks stay quiet.

refactor.py SRC DST KINDS      kinds: letters of
  l  rename local variables, add a statement that does nothing
  r  results through a temporary variable
  h  every method's body moved to a helper method
  i  if/else turned round
  f  for loops as while loops
  s  adjacent assignments of simple values swapped
"""
import ast
import os
import shutil
import sys


def docsplit(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[:1], body[1:]
    return [], body


class Locals(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        inner = [n for n in ast.walk(f) if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp,
                                                                          ast.GeneratorExp, ast.DictComp, ast.SetComp))]
        outside = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        calls = {n.func.id for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
        if not inner and not calls & {'locals', 'eval', 'exec', 'vars'}:
            params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
            params |= {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
            imported = {(a.asname or a.name).split('.')[0] for n in ast.walk(f)
                        if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
            imported |= {n.name for n in ast.walk(f) if isinstance(n, ast.ExceptHandler) and n.name}
            names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            names -= params | outside | imported
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and n.id in names:
                    n.id = n.id + '_v'
        else:
            self.generic_visit(f)
        d, b = docsplit(f.body)
        f.body = d + [ast.parse('_nothing = None').body[0]] + b
        return f


class Returns(ast.NodeTransformer):
    def visit_Return(self, r):
        if r.value is None or isinstance(r.value, ast.Constant):
            return r
        return [ast.Assign(targets=[ast.Name('_result', ast.Store())], value=r.value),
                ast.Return(value=ast.Name('_result', ast.Load()))]


class Helpers(ast.NodeTransformer):
    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            a = getattr(f, 'args', None)
            if (isinstance(f, ast.FunctionDef) and not f.decorator_list and a.args and a.args[0].arg == 'self' and
                    f.name not in ('__getattr__', '__new__', '__init__') and
                    not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f))):
                d, b = docsplit(f.body)
                name = '_body_of_%s_%s' % (c.name, f.name.replace('__', 'X'))
                bare = ast.arguments(posonlyargs=[], args=[ast.arg(x.arg) for x in a.args],
                                     vararg=a.vararg and ast.arg(a.vararg.arg), kwonlyargs=[ast.arg(x.arg) for x in a.kwonlyargs],
                                     kw_defaults=[None] * len(a.kwonlyargs), kwarg=a.kwarg and ast.arg(a.kwarg.arg), defaults=[])
                call = ast.Call(func=ast.Attribute(ast.Name('self', ast.Load()), name, ast.Load()),
                                args=[ast.Name(x.arg, ast.Load()) for x in a.args[1:]] +
                                     ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                                keywords=[ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] +
                                         ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
                out.append(ast.FunctionDef(name=name, args=bare, body=b or [ast.Pass()], decorator_list=[], type_params=[]))
                f.body = d + [ast.Return(value=call)]
            out.append(f)
        c.body = out
        return c


class Ifs(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n


class Fors(ast.NodeTransformer):
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        Fors.k += 1
        it = '_it%d' % Fors.k
        head = ast.parse('%s = iter(0)' % it).body[0]
        head.value.args = [n.iter]
        loop = ast.parse('while True:\n    try:\n        x = next(%s)\n    except StopIteration:\n        break' % it).body[0]
        loop.body[0].body[0].targets = [n.target]
        loop.body += n.body
        return [head, loop]


def simple(s):
    return (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and
            isinstance(s.value, (ast.Constant, ast.Name)))


class Swaps(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        b, i = f.body, 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if simple(x) and simple(y):
                tx, ty = ast.unparse(x.targets[0]), ast.unparse(y.targets[0])
                if tx != ty and ast.unparse(y.value) != tx and ast.unparse(x.value) != ty:
                    b[i], b[i + 1] = y, x
                    i += 1
            i += 1
        return f


KINDS = {'l': Locals, 'r': Returns, 'h': Helpers, 'i': Ifs, 'f': Fors, 's': Swaps}


def main(src, dst, kinds):
    shutil.copytree(src, dst)
    n = 0
    for d, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(d, f)
            if not f.endswith('.py'):
                continue
            try:
                t = ast.parse(open(p, encoding='utf8').read())
            except SyntaxError:
                continue
            for k in kinds:
                t = KINDS[k]().visit(t)
            open(p, 'w', encoding='utf8').write(ast.unparse(ast.fix_missing_locations(t)) + '\n')
            n += 1
    print('%d files' % n)


if __name__ == '__main__':
    main(*sys.argv[1:])
