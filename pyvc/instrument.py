"""Mechanical instrumentation of the Python sources under verification.

The source text is read from the repository on every run, parsed, rewritten
operator by operator (below) and compiled.  Nothing else is changed: classes,
closures, generators, exceptions, attribute access, arithmetic and control flow
are executed by CPython itself.  Rewrites:

  f(args)            -> __pv_call__(f, args)         (not for super/locals/globals)
  a in b, a not in b -> __pv_in__(a, b)
  a[i]               -> __pv_getitem__(a, i)         (loads)
  a[i] = v; del a[i] -> __pv_setitem__ / __pv_delitem__
  a % b              -> __pv_mod__(a, b)
  f"..."             -> __pv_fstr__(...)
  {a, b}             -> __pv_mkset__(...), set comprehensions likewise
  {k: v}             -> __pv_mkdict__(...), dict comprehensions likewise
  for x in a         -> for x in __pv_iter__(a)    (also in comprehensions)
  except:            -> except Exception:          (engine signals pass through)
  assert             -> unchanged
  loops named in a loop contract -> invariant cut points (see loops.py)

With concrete operands every hook performs exactly the original operation.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

_KEEP = {"super", "locals", "globals", "vars", "__pv_call__"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, args, keywords=()):
    return ast.Call(func=_name(fn), args=list(args), keywords=list(keywords))


class Instrumenter(ast.NodeTransformer):
    def __init__(self, modname, loop_specs):
        self.mod = modname
        self.loop_specs = loop_specs   # {(mod, qual): {ordinal,...}}
        self.scope = []
        self.loop_counter = []
        self.tmp = 0

    # -- scopes
    def _func(self, node):
        # decorators and defaults are evaluated in the enclosing scope
        node.decorator_list = [d if isinstance(d, (ast.Name, ast.Attribute))
                               else self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None
                                 for d in node.args.kw_defaults]
        self.scope.append(node.name)
        self.loop_counter.append(0)
        node.body = self._body(node.body)
        self.loop_counter.pop()
        self.scope.pop()
        node.returns = None
        for a in (node.args.posonlyargs + node.args.args + node.args.kwonlyargs):
            a.annotation = None
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node.body = self._body(node.body)
        self.scope.pop()
        return node

    # -- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _KEEP:
            return node
        return ast.copy_location(
            ast.Call(func=_name("__pv_call__"), args=[node.func] + node.args,
                     keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = _call("__pv_in__", [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)):
            c = _call("__pv_eq__" if isinstance(node.ops[0], ast.Eq) else "__pv_ne__",
                      [node.left, node.comparators[0]])
            return ast.copy_location(c, node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                _call("__pv_getitem__", [node.value, self._slice(node.slice)]), node)
        return node

    @staticmethod
    def _slice(s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return _call("slice", [s.lower or none, s.upper or none, s.step or none])
        return s

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("__pv_mod__", [node.left, node.right]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = (self.visit(v.format_spec) if v.format_spec is not None
                        else ast.Constant(value=""))
                parts.append(ast.Tuple(elts=[self.visit(v.value),
                                             ast.Constant(value=v.conversion), spec],
                                       ctx=ast.Load()))
        return ast.copy_location(
            _call("__pv_fstr__", [ast.List(elts=parts, ctx=ast.Load())]), node)

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = _call("__pv_iter__", [node.iter])
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            _call("__pv_mkset__", [ast.List(elts=node.elts, ctx=ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(_call("__pv_mkset__", [lc]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return node
        pairs = [ast.Tuple(elts=[k, v], ctx=ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return ast.copy_location(
            _call("__pv_mkdict__", [ast.List(elts=pairs, ctx=ast.Load())]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                          generators=node.generators)
        return ast.copy_location(_call("__pv_mkdict__", [lc]), node)

    # -- statements
    def visit_ExceptHandler(self, node):
        if node.type is None:
            node.type = _name("Exception")
        node.body = self._body(node.body)
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return None if not isinstance(node.target, ast.Name) else ast.Pass()
        return self.visit(ast.copy_location(
            ast.Assign(targets=[node.target], value=node.value), node))

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            value = self.visit(node.value)
            call = _call("__pv_setitem__", [self.visit(t.value),
                                          self._slice(self.visit(t.slice)), value])
            return ast.copy_location(ast.Expr(value=call), node)
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            self.tmp += 1
            a, b = f"__pv_t{self.tmp}a", f"__pv_t{self.tmp}b"
            t = node.target
            s1 = ast.Assign(targets=[ast.Name(id=a, ctx=ast.Store())],
                            value=self.visit(t.value))
            s2 = ast.Assign(targets=[ast.Name(id=b, ctx=ast.Store())],
                            value=self._slice(self.visit(t.slice)))
            val = ast.BinOp(left=_call("__pv_getitem__", [_name(a), _name(b)]),
                            op=node.op, right=self.visit(node.value))
            if isinstance(node.op, ast.Mod):
                val = _call("__pv_mod__", [val.left, val.right])
            s3 = ast.Expr(value=_call("__pv_setitem__", [_name(a), _name(b), val]))
            return [ast.copy_location(s, node) for s in (s1, s2, s3)]
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(value=_call(
                    "__pv_delitem__", [self.visit(t.value),
                                     self._slice(self.visit(t.slice))])), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    def _stmt_lists(self, node):
        for fld in ("body", "orelse", "finalbody"):
            if getattr(node, fld, None):
                setattr(node, fld, self._body(getattr(node, fld)))

    def visit_If(self, node):
        node.test = self.visit(node.test)
        self._stmt_lists(node)
        return node

    def visit_With(self, node):
        for i in node.items:
            i.context_expr = self.visit(i.context_expr)
        self._stmt_lists(node)
        return node

    def visit_Try(self, node):
        node.handlers = [self.visit(h) for h in node.handlers]
        self._stmt_lists(node)
        return node

    # -- loops
    def _loop_id(self):
        qual = ".".join(self.scope)
        n = 0
        if self.loop_counter:
            n = self.loop_counter[-1]
            self.loop_counter[-1] += 1
        return qual, n

    def visit_For(self, node):
        qual, n = self._loop_id()
        node.iter = _call("__pv_iter__", [self.visit(node.iter)])
        if n in self.loop_specs.get((self.mod, qual), ()):
            return self._cut_for(node, qual, n)
        self._stmt_lists(node)
        return node

    def visit_While(self, node):
        qual, n = self._loop_id()
        node.test = self.visit(node.test)
        if n in self.loop_specs.get((self.mod, qual), ()):
            return self._cut_while(node, qual, n)
        self._stmt_lists(node)
        return node

    def _assigned(self, nodes):
        names = []

        class W(ast.NodeVisitor):
            def visit_Name(self, nd):
                if isinstance(nd.ctx, ast.Store) and nd.id not in names:
                    names.append(nd.id)

            def visit_FunctionDef(self, nd):
                names.append(nd.name)

            def visit_Lambda(self, nd):
                pass

            def _comp(self, nd):
                pass
            visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp
        w = W()
        for nd in nodes:
            w.visit(nd)
        return [x for x in names if not x.startswith("__pv_")]

    def _cut_common(self, node, qual, n, lc):
        """statements that enter the loop controller and havoc locals"""
        names = self._assigned([node])
        start = ast.Assign(
            targets=[ast.Name(id=lc, ctx=ast.Store())],
            value=_call("__pv_loop__", [
                ast.Constant(value=self.mod), ast.Constant(value=qual),
                ast.Constant(value=n),
                node.iter if isinstance(node, ast.For) else ast.Constant(value=None)]))
        tgt = ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in names],
                        ctx=ast.Store())
        enter = ast.If(
            test=ast.Attribute(value=_name(lc), attr="cut", ctx=ast.Load()),
            body=[ast.Assign(targets=[tgt], value=ast.Call(
                func=ast.Attribute(value=_name(lc), attr="enter", ctx=ast.Load()),
                args=[ast.Call(func=_name("locals"), args=[], keywords=[]),
                      ast.Constant(value=tuple(names))], keywords=[]))]
            if names else
            [ast.Expr(value=ast.Call(
                func=ast.Attribute(value=_name(lc), attr="enter", ctx=ast.Load()),
                args=[ast.Call(func=_name("locals"), args=[], keywords=[]),
                      ast.Constant(value=())], keywords=[]))],
            orelse=[])
        note = ast.Expr(value=ast.Call(
            func=ast.Attribute(value=_name(lc), attr="note", ctx=ast.Load()),
            args=[ast.Call(func=_name("locals"), args=[], keywords=[])], keywords=[]))
        return [start, enter], note

    def _with_note(self, stmts, note):
        """insert <note> before every continue of this loop and at the end"""
        import copy

        class C(ast.NodeTransformer):
            def visit_Continue(self, nd):
                return [copy.deepcopy(note), nd]

            def visit_For(self, nd):
                return nd
            visit_While = visit_For
            visit_FunctionDef = visit_For
            visit_ClassDef = visit_For
        out = []
        for s in stmts:
            r = C().visit(s)
            out.extend(r if isinstance(r, list) else [r])
        out.append(copy.deepcopy(note))
        return out

    def _cut_for(self, node, qual, n):
        self.tmp += 1
        lc = f"__pv_lc{self.tmp}"
        pre, note = self._cut_common(node, qual, n, lc)
        self._stmt_lists(node)
        node.iter = _name(lc)
        node.body = self._with_note(node.body, note)
        return [ast.copy_location(s, node) for s in pre] + [node]

    def _cut_while(self, node, qual, n):
        self.tmp += 1
        lc = f"__pv_lc{self.tmp}"
        pre, note = self._cut_common(node, qual, n, lc)
        self._stmt_lists(node)
        chk = ast.Call(func=ast.Attribute(value=_name(lc), attr="check", ctx=ast.Load()),
                       args=[], keywords=[])
        node.test = ast.BoolOp(op=ast.And(), values=[chk, node.test])
        node.body = self._with_note(node.body, note)
        return [ast.copy_location(s, node) for s in pre] + [node]


def instrument_source(src, filename, modname, loop_specs):
    tree = ast.parse(src, filename)
    ins = Instrumenter(modname, loop_specs)
    tree.body = ins._body(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, hooks, loop_specs):
        self.name, self.path = name, path
        self.hooks, self.loop_specs = hooks, loop_specs

    def create_module(self, spec):
        return None

    def get_code(self, fullname):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as fh:
            src = fh.read()
        code = instrument_source(src, self.path, self.name.split(".")[-1], self.loop_specs)
        module.__dict__.update(self.hooks)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Instrument every module that lives under <root>"""

    def __init__(self, root, hooks, loop_specs):
        self.root = os.path.realpath(root)
        self.hooks, self.loop_specs = hooks, loop_specs

    def find_spec(self, fullname, path, target=None):
        for entry in (path or sys.path):
            if not entry or not os.path.realpath(entry).startswith(self.root):
                continue
            base = os.path.join(entry, fullname.split(".")[-1])
            if os.path.isfile(os.path.join(base, "__init__.py")):
                fn = os.path.join(base, "__init__.py")
                return importlib.util.spec_from_file_location(
                    fullname, fn, loader=Loader(fullname, fn, self.hooks, self.loop_specs),
                    submodule_search_locations=[base])
            if os.path.isfile(base + ".py"):
                fn = base + ".py"
                return importlib.util.spec_from_file_location(
                    fullname, fn, loader=Loader(fullname, fn, self.hooks, self.loop_specs))
        return None
