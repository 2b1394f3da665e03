"""Loads the sources of the analysed package (nothing of it is imported)."""
from __future__ import annotations

import ast
import os
import hashlib


class Module:
    def __init__(self, name, path, tree, src, is_pkg):
        self.name, self.path, self.tree, self.src, self.is_pkg = name, path, tree, src, is_pkg


class Loops(ast.NodeTransformer):
    """Gives ``while True`` loops that start with an exit their usual form."""

    def visit_While(self, w):
        self.generic_visit(w)
        while isinstance(w.test, ast.Constant) and bool(w.test.value) and not w.orelse and w.body:
            s = w.body[0]
            if not isinstance(s, ast.If):
                break
            brk = [isinstance(b, list) and len(b) == 1 and isinstance(b[0], ast.Break) for b in (s.body, s.orelse)]
            if brk[0]:
                neg, rest = True, s.orelse
            elif brk[1]:
                neg, rest = False, s.body
            else:
                break
            t = s.test
            if neg:
                t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else \
                    ast.copy_location(ast.UnaryOp(ast.Not(), t), t)
            rest = [r for r in rest if not isinstance(r, ast.Pass)]
            w.test, w.body = t, rest + w.body[1:]
            if not w.body:
                w.body = [ast.copy_location(ast.Pass(), s)]
            break
        return w


class Repo:
    def __init__(self, root="/repo", package="pyproximal"):
        self.root = root
        self.package = package
        self.modules = {}
        self.classes = {}
        self._locals = {}
        self._inner = {}
        base = os.path.join(root, package)
        h = hashlib.sha256()
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                if is_pkg:
                    rel = rel[: -len(".__init__")]
                src = open(p, encoding="utf-8").read()
                h.update(src.encode())
                tree = Loops().visit(ast.parse(src, p))
                self.modules[rel] = Module(rel, p, tree, src, is_pkg)
        self.digest = h.hexdigest()

    def assigned(self, node):
        """Names bound anywhere below node."""
        k = ("b", id(node))
        if k not in self._locals:
            self._locals[k] = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        return self._locals[k]

    def file_of(self, mod):
        m = self.modules.get(mod)
        return os.path.relpath(m.path, self.root) if m else str(mod)

    def locals_of(self, fn):
        k = id(fn)
        if k not in self._locals:
            names = set()
            nonloc = set()

            def walk(n, top):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        names.add(c.name)
                        for d in c.decorator_list:
                            walk(d, False)
                        continue
                    if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        for w in ast.walk(c):
                            if isinstance(w, ast.NamedExpr):
                                names.add(w.target.id)
                        continue
                    if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        names.add(c.id)
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        for a in c.names:
                            names.add((a.asname or a.name).split(".")[0])
                    if isinstance(c, (ast.Global, ast.Nonlocal)):
                        nonloc.update(c.names)
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        names.add(c.name)
                    walk(c, False)

            for s in fn.body:
                walk(ast.Module(body=[s], type_ignores=[]), True)
            a = fn.args
            for p in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                names.add(p.arg)
            self._locals[k] = names - nonloc
        return self._locals[k]

    def has_inner(self, fn):
        k = id(fn)
        if k not in self._inner:
            body = fn.body if isinstance(fn.body, list) else [fn.body]
            self._inner[k] = any(isinstance(w, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)) for b in body for w in ast.walk(b))
        return self._inner[k]
