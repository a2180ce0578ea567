"""Translates the repository's current .pyx sources into Python that runs on
symbolic values.  The parse tree comes from Cython's own parser."""
from __future__ import annotations

import os
import re

from Cython.Compiler.TreeFragment import parse_from_strings
from Cython.Compiler import Nodes, ExprNodes  # noqa: F401


class TransError(Exception):
    pass


CINT = {"int", "long", "long long", "short", "char", "Py_ssize_t", "size_t", "unsigned", "unsigned int",
        "Py_hash_t", "bint_", "int32_t", "int64_t", "intp_t", "np.int32_t", "np.int64_t", "np.intp_t", "np.npy_intp"}
CFLOAT = {"double", "float", "long double", "np.float64_t", "float64_t", "np.double_t"}
CBOOL = {"bool", "bint"}

BIN = {"+": "+", "-": "-", "*": "*", "//": "//", "%": "%", "**": "**", "&": "&", "|": "|", "^": "^",
       "<<": "<<", ">>": ">>", "@": "@"}


class Tr:
    def __init__(self, src, modname):
        self.src = src
        self.tree = parse_from_strings(modname.replace(".", "_"), src)
        self.out = []
        self.ind = 0
        self.functions = []
        self.tmp = 0
        self.env = [{}]
        self.cppclasses = set()
        self.fname = None

    def w(self, s):
        self.out.append("    " * self.ind + s)

    # ---- types
    def tname(self, base):
        """a string describing a C type node"""
        k = type(base).__name__
        if k == "CSimpleBaseTypeNode":
            nm = ".".join(list(base.module_path) + [base.name]) if base.name else "object"
            if base.name == "int" and getattr(base, "longness", 0):
                nm = "long long" if base.longness == 2 else "long"
            if base.name is None or nm == "object":
                return ("py", None)
            if nm in CINT:
                return ("int", nm)
            if nm in CFLOAT:
                return ("float", nm)
            if nm in CBOOL:
                return ("bool", nm)
            if nm in ("void",):
                return ("void", None)
            if nm in ("list", "set", "dict", "tuple", "str", "array.array", "np.ndarray"):
                return ("py", nm)
            if nm in self.cppclasses:
                return ("cpp", nm)
            return ("py", nm)
        if k == "MemoryViewSliceTypeNode":
            t = self.tname(base.base_type_node)
            contig = False
            for ax in base.axes:
                st = getattr(ax, "step", None)
                if type(st).__name__ == "IntNode":
                    contig = True
            return ("mv", (t[0], t[1], len(base.axes), contig))
        if k == "TemplatedTypeNode":
            bn = base.base_type_node
            nm = bn.name
            args = [self.tname(a) if hasattr(a, "is_self_arg") or "BaseType" in type(a).__name__ or "TypeNode" in type(a).__name__
                    else ("py", getattr(a, "name", None)) for a in base.positional_args]
            args2 = []
            for a in base.positional_args:
                if type(a).__name__ == "NameNode":
                    n = a.name
                    args2.append(("int", n) if n in CINT else ("float", n) if n in CFLOAT else ("py", n))
                else:
                    args2.append(self.tname(a))
            return ("tmpl", (self.alias.get(nm, nm), tuple(args2)))
        if k in ("CConstTypeNode", "CConstOrVolatileTypeNode", "CQualifierTypeNode"):
            return self.tname(base.base_type)
        if k == "CComplexBaseTypeNode":
            return self.tname(base.base_type)
        if k == "CNestedBaseTypeNode":
            return ("iter", None)
        raise TransError(f"type node {k}")

    def declname(self, d):
        k = type(d).__name__
        if k == "CNameDeclaratorNode":
            return d.name, d.default, 0
        if k in ("CPtrDeclaratorNode", "CReferenceDeclaratorNode"):
            n, df, p = self.declname(d.base)
            return n, df, p + 1
        if k == "CConstDeclaratorNode":
            return self.declname(d.base)
        raise TransError(f"declarator {k}")

    # ---- module
    def translate(self):
        self.alias = {}
        body = self.tree.body
        self.w("from fsv.cyrt import *")
        self.w("from fsv.cyrt import _div, _mv, _ci, _cf, _cb, _new, _ptr, _ret, _floor, _SPA, _prange, _idx_noneg")
        self.stmts(body)
        return "\n".join(self.out) + "\n"

    def stmts(self, node):
        if node is None:
            self.w("pass")
            return
        n = len(self.out)
        if type(node).__name__ == "StatListNode":
            for s in node.stats:
                self.stmt(s)
        else:
            self.stmt(node)
        if len(self.out) == n:
            self.w("pass")

    def block(self, node):
        self.ind += 1
        n = len(self.out)
        if node is not None:
            self.stmts(node)
        if len(self.out) == n:
            self.w("pass")
        self.ind -= 1

    def stmt(self, s):
        k = type(s).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise TransError(f"statement {k} at line {s.pos[1]}")
        m(s)

    def s_StatListNode(self, s):
        for x in s.stats:
            self.stmt(x)

    def s_PassStatNode(self, s):
        self.w("pass")

    def s_BreakStatNode(self, s):
        self.w("break")

    def s_ContinueStatNode(self, s):
        self.w("continue")

    def s_CImportStatNode(self, s):
        pass

    def s_FromCImportStatNode(self, s):
        for it in s.imported_names:
            pos, name, as_name = it[0], it[1], it[2]
            self.alias[as_name or name] = name
            if s.module_name.endswith("sparse_accumulator"):
                self.cppclasses.add(as_name or name)
                if (as_name or name) != "SPA":
                    self.w(f"{as_name or name} = SPA")
            elif s.module_name == "libc.math":
                self.w(f"{as_name or name} = C_{name}")
            elif s.module_name.startswith("libc."):
                raise TransError(f"cimport {s.module_name}")
            elif as_name and as_name != name and s.module_name == "cython.operator":
                self.w(f"{as_name} = {name}")
            elif s.module_name == "cython.view":
                self.w(f"{as_name or name} = cvarray")

    def s_SingleAssignmentNode(self, s):
        rhs = s.rhs
        if type(rhs).__name__ == "ImportNode":
            nm = rhs.module_name.value
            self.w(f"import {nm} as {s.lhs.name}" if "." in nm or s.lhs.name != nm else f"import {nm}")
            return
        self.assign(s.lhs, self.ex(rhs))

    def s_CascadedAssignmentNode(self, s):
        t = self.temp()
        self.w(f"{t} = {self.ex(s.rhs)}")
        for l in s.lhs_list:
            self.assign(l, t)

    def s_FromImportStatNode(self, s):
        nm = s.module.module_name.value
        for name, target in s.items:
            self.w(f"from {nm} import {name} as {target.name}")
            if nm == "cython.parallel":
                pass

    def temp(self):
        self.tmp += 1
        return f"_t{self.tmp}"

    def typ(self, name):
        for e in reversed(self.env):
            if name in e:
                return e[name]
        return None

    def coerce(self, t, e):
        if t is None:
            return e
        k, d = t
        if k == "int":
            return f"_ci({e})"
        if k == "float":
            return f"_cf({e})"
        if k == "bool":
            return f"_cb({e})"
        if k == "mv":
            return f"_mv({e}, {d!r})"
        if k == "tmpl":
            return f"_new({d!r}, {e})"
        return e

    def assign(self, lhs, e):
        k = type(lhs).__name__
        if k == "NameNode":
            self.w(f"{lhs.name} = {self.coerce(self.typ(lhs.name), e)}")
        elif k in ("TupleNode", "ListNode"):
            ts = [self.temp() for _ in lhs.args]
            self.w(f"{', '.join(ts)}, = {e}")
            for a, t in zip(lhs.args, ts):
                self.assign(a, t)
        else:
            self.w(f"{self.ex(lhs)} = {e}")

    def s_InPlaceAssignmentNode(self, s):
        op = s.operator
        l = s.lhs
        if type(l).__name__ == "IndexNode":
            b, i = self.temp(), self.temp()
            self.w(f"{b} = {self.ex(l.base)}")
            self.w(f"{i} = {self.ex(l.index)}")
            cur = f"{b}[{i}]"
            self.w(f"{cur} = {self.binop(op, cur, self.ex(s.rhs))}")
        elif type(l).__name__ == "NameNode":
            self.assign(l, self.binop(op, l.name, self.ex(s.rhs)))
        else:
            e = self.ex(l)
            self.w(f"{e} = {self.binop(op, e, self.ex(s.rhs))}")

    def binop(self, op, a, b):
        if op == "/":
            return f"_div({a}, {b}, {self.cdiv})"
        if op == "//":
            return f"_floor({a}, {b}, {self.cdiv})"
        return f"({a} {BIN[op]} {b})"

    cdiv = False

    def s_CVarDefNode(self, s):
        t = self.tname(s.base_type)
        for d in s.declarators:
            name, default, ptr = self.declname(d)
            tt = t if not ptr else ("ptr", None)
            self.env[-1][name] = tt
            if default is not None:
                self.w(f"{name} = {self.coerce(tt, self.ex(default))}")
            elif tt[0] == "tmpl":
                self.w(f"{name} = _new({tt[1]!r})")
            elif tt[0] == "cpp":
                self.w(f"{name} = {tt[1]}()")

    def s_CDefExternNode(self, s):
        raise TransError("cdef extern in pyx")

    def decorators(self, s):
        cd = False
        for d in (s.decorators or []):
            dd = d.decorator
            if type(dd).__name__ == "SimpleCallNode" and self.ex(dd.function).endswith("cdivision"):
                cd = self.ex(dd.args[0]) == "True"
        dirs = getattr(s, "directive_locals", None) or {}
        return cd

    def func(self, name, args, body, s, is_def, rtype):
        self.functions.append(name)
        oc = self.cdiv
        self.cdiv = self.decorators(s)
        self.env.append({})
        sig = []
        co = []
        star = None
        for a in args:
            if type(a.base_type).__name__ in ("CSimpleBaseTypeNode",) and a.base_type.name is None:
                nm, df, p = self.declname(a.declarator)
                t = None
            else:
                nm, df, p = self.declname(a.declarator)
                if nm == "" or nm is None:
                    nm = a.base_type.name
                    t = None
                else:
                    t = self.tname(a.base_type)
            if df is None:
                df = a.default
            sig.append(nm + (f"={self.ex(df)}" if df is not None else ""))
            if t is not None and not p:
                self.env[-1][nm] = t
                co.append((nm, t))
        if getattr(s, "star_arg", None):
            sig.append("*" + s.star_arg.name)
        if getattr(s, "starstar_arg", None):
            sig.append("**" + s.starstar_arg.name)
        if is_def:
            self.w("@cydef")
        self.w(f"def {name}({', '.join(sig)}):")
        self.ind += 1
        for nm, t in co:
            c = self.coerce(t, nm)
            if c != nm:
                self.w(f"{nm} = {c}")
        self.rt = rtype
        self.stmts(body)
        self.ind -= 1
        self.env.pop()
        self.cdiv = oc

    rt = None

    def s_DefNode(self, s):
        self.func(s.name, s.args, s.body, s, True, None)

    def s_CFuncDefNode(self, s):
        d = s.declarator
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        rt = self.tname(s.base_type)
        self.func(d.base.name, d.args, s.body, s, bool(s.overridable), rt)

    def s_ReturnStatNode(self, s):
        if s.value is None:
            self.w("return None")
        else:
            e = self.ex(s.value)
            self.w(f"return {self.coerce(self.rt, e) if self.rt and self.rt[0] in ('int', 'float', 'bool') else e}")

    def s_ExprStatNode(self, s):
        self.w(self.ex(s.expr))

    def s_IfStatNode(self, s):
        kw = "if"
        for c in s.if_clauses:
            self.w(f"{kw} {self.ex(c.condition)}:")
            self.block(c.body)
            kw = "elif"
        if s.else_clause is not None:
            self.w("else:")
            self.block(s.else_clause)

    def s_WhileStatNode(self, s):
        self.w(f"while {self.ex(s.condition) if s.condition is not None else 'True'}:")
        self.block(s.body)
        if s.else_clause is not None:
            self.w("else:")
            self.block(s.else_clause)

    def s_ForInStatNode(self, s):
        it = self.ex(s.iterator.sequence)
        tgt = s.target
        t = self.temp()
        self.w(f"for {t} in {it}:")
        self.ind += 1
        self.assign(tgt, t)
        self.stmts(s.body)
        self.ind -= 1
        if s.else_clause is not None:
            self.w("else:")
            self.block(s.else_clause)

    def s_ForFromStatNode(self, s):
        raise TransError("for-from")

    def s_GILStatNode(self, s):
        self.w("if True:")
        self.block(s.body)

    def s_WithStatNode(self, s):
        self.w("if True:")
        self.block(s.body)

    def s_AssertStatNode(self, s):
        self.w(f"assert {self.ex(s.condition)}")

    def s_RaiseStatNode(self, s):
        self.w(f"raise {self.ex(s.exc_type)}" if s.exc_type is not None else "raise")

    def s_DelStatNode(self, s):
        self.w("pass")

    def s_TryExceptStatNode(self, s):
        self.w("try:")
        self.block(s.body)
        for c in s.except_clauses:
            pat = ", ".join(self.ex(p) for p in c.pattern) if c.pattern else ""
            self.w(f"except {pat}:" if pat else "except Exception:")
            self.block(c.body)
        if s.else_clause is not None:
            self.w("else:")
            self.block(s.else_clause)

    def s_TryFinallyStatNode(self, s):
        self.w("try:")
        self.block(s.body)
        self.w("finally:")
        self.block(s.finally_clause)

    # ---- expressions
    def ex(self, e):
        k = type(e).__name__
        m = getattr(self, "e_" + k, None)
        if m is not None:
            return m(e)
        if hasattr(e, "operator") and hasattr(e, "operand1"):
            return self.binop(e.operator, self.ex(e.operand1), self.ex(e.operand2))
        raise TransError(f"expression {k} at line {e.pos[1]}")

    def e_NameNode(self, e):
        return e.name

    def e_IntNode(self, e):
        return f"{int(e.value.rstrip('LUlu'), 0)}"

    def e_FloatNode(self, e):
        return e.value

    def e_BoolNode(self, e):
        return "True" if e.value else "False"

    def e_NoneNode(self, e):
        return "None"

    def e_NULLNode(self, e):
        return "None"

    def e_EllipsisNode(self, e):
        return "..."

    def _str(self, e):
        return repr(str(e.value))

    e_UnicodeNode = e_StringNode = e_BytesNode = e_IdentifierStringNode = _str

    def e_JoinedStrNode(self, e):
        return "''"

    def e_AttributeNode(self, e):
        return f"{self.ex(e.obj)}.{e.attribute}"

    def e_IndexNode(self, e):
        return f"{self.ex(e.base)}[{self.ex(e.index)}]"

    def e_SliceIndexNode(self, e):
        a = self.ex(e.start) if e.start is not None else ""
        b = self.ex(e.stop) if e.stop is not None else ""
        return f"{self.ex(e.base)}[{a}:{b}]"

    def e_SliceNode(self, e):
        def f(x):
            return "" if x is None or type(x).__name__ == "NoneNode" else self.ex(x)
        st = f(e.step)
        return f"{f(e.start)}:{f(e.stop)}" + (f":{st}" if st else "")

    def e_TupleNode(self, e):
        if len(e.args) == 1:
            return f"({self.ex(e.args[0])},)"
        s = ", ".join(self.ex(a) for a in e.args)
        if any(type(a).__name__ == "SliceNode" for a in e.args):
            return s
        return f"({s})"

    def e_ListNode(self, e):
        return "[" + ", ".join(self.ex(a) for a in e.args) + "]"

    def e_SetNode(self, e):
        return "{" + ", ".join(self.ex(a) for a in e.args) + "}"

    def e_DictNode(self, e):
        return "{" + ", ".join(f"{self.ex(i.key)}: {self.ex(i.value)}" for i in e.key_value_pairs) + "}"

    def e_SimpleCallNode(self, e):
        return f"{self.ex(e.function)}({', '.join(self.ex(a) for a in e.args)})"

    def e_GeneralCallNode(self, e):
        args = [self.ex(a) for a in e.positional_args.args]
        kw = []
        if e.keyword_args is not None:
            for i in e.keyword_args.key_value_pairs:
                kw.append(f"{i.key.value}={self.ex(i.value)}")
        return f"{self.ex(e.function)}({', '.join(args + kw)})"

    def e_NewExprNode(self, e):
        return self.tname(e.cppclass)[1] if self.tname(e.cppclass)[0] == "cpp" else e.cppclass.name

    def e_TypecastNode(self, e):
        t = self.tname(e.base_type) if e.base_type is not None else None
        return self.coerce(t, self.ex(e.operand))

    def e_SizeofTypeNode(self, e):
        return "8"

    e_SizeofVarNode = e_SizeofTypeNode

    def e_AmpersandNode(self, e):
        o = e.operand
        if type(o).__name__ == "IndexNode":
            return f"_ptr({self.ex(o.base)}, {self.ex(o.index)})"
        raise TransError("address-of")

    def e_UnaryMinusNode(self, e):
        return f"(-{self.ex(e.operand)})"

    def e_UnaryPlusNode(self, e):
        return f"(+{self.ex(e.operand)})"

    def e_TildeNode(self, e):
        return f"(~{self.ex(e.operand)})"

    def e_NotNode(self, e):
        return f"(not {self.ex(e.operand)})"

    def e_BoolBinopNode(self, e):
        return f"({self.ex(e.operand1)} {e.operator} {self.ex(e.operand2)})"

    def e_PrimaryCmpNode(self, e):
        s = f"{self.ex(e.operand1)} {self.op(e.operator)} {self.ex(e.operand2)}"
        c = e.cascade
        while c is not None:
            s += f" {self.op(c.operator)} {self.ex(c.operand2)}"
            c = c.cascade
        return f"({s})"

    def op(self, o):
        return {"not_in": "not in", "is_not": "is not"}.get(o, o)

    def e_CondExprNode(self, e):
        return f"({self.ex(e.true_val)} if {self.ex(e.test)} else {self.ex(e.false_val)})"

    def _comp(self, e):
        # ComprehensionNode: loop is a ForInStatNode with an append inside
        gens = []
        n = e.loop
        while True:
            k = type(n).__name__
            if k == "ForInStatNode":
                gens.append(f"for {self.ex(n.target)} in {self.ex(n.iterator.sequence)}")
                n = n.body
            elif k == "IfStatNode":
                gens.append(f"if {self.ex(n.if_clauses[0].condition)}")
                n = n.if_clauses[0].body
            elif k == "StatListNode" and len(n.stats) == 1:
                n = n.stats[0]
            else:
                break
        return n, " ".join(gens)

    def e_ComprehensionNode(self, e):
        n, g = self._comp(e)
        k = type(e.append).__name__
        if k == "DictComprehensionAppendNode":
            return "{" + f"{self.ex(e.append.key_expr)}: {self.ex(e.append.value_expr)} {g}" + "}"
        body = self.ex(e.append.expr)
        o, c = "[", "]"
        if getattr(e, "type", None) is not None and "set" in str(e.type):
            o, c = "{", "}"
        return f"{o}{body} {g}{c}"

    def e_GeneratorExpressionNode(self, e):
        n, g = self._comp(e)
        return f"({self.ex(n.expr.arg if hasattr(n, 'expr') and hasattr(n.expr, 'arg') else n.arg)} {g})"

    def e_YieldExprNode(self, e):
        return self.ex(e.arg)


def translate_file(path, modname):
    src = open(path).read()
    t = Tr(src, modname)
    code = t.translate()
    return code, t.functions


# ---------------------------------------------------------------- C++ (SPA)
import json
import subprocess


class Cpp:
    """Translates the sparse accumulator class from clang's AST."""

    def __init__(self, srcdir):
        self.srcdir = srcdir
        r = subprocess.run(["clang++", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang",
                            "-ast-dump-filter=SPA", "sparse_accumulator.cpp"], cwd=srcdir,
                           capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise TransError("clang: " + r.stderr[:400])
        dec = json.JSONDecoder()
        s = r.stdout
        self.objs = []
        i = 0
        while True:
            j = s.find("{", i)
            if j < 0:
                break
            o, i = dec.raw_decode(s, j)
            self.objs.append(o)
        self.out = []
        self.functions = []

    def translate(self):
        methods = {}
        fields = []
        for o in self.objs:
            if o["kind"] == "CXXRecordDecl":
                for c in o.get("inner", []):
                    if c["kind"] == "FieldDecl":
                        fields.append((c["name"], c["type"]["qualType"]))
                    elif c["kind"] in ("CXXMethodDecl", "CXXConstructorDecl") and any(
                            x["kind"] == "CompoundStmt" for x in c.get("inner", [])):
                        methods.setdefault(c["name"], []).append(c)
            elif o["kind"] in ("CXXMethodDecl", "CXXConstructorDecl") and any(
                    x["kind"] == "CompoundStmt" for x in o.get("inner", [])):
                methods.setdefault(o["name"], []).append(o)
        if not fields or "SPA" not in methods:
            raise TransError("SPA class not found")
        L = ["class SPA:", "    def __init__(self, *a):"]
        for n, q in fields:
            if "vector" in q:
                el = "float" if "double" in q or "float" in q else "int"
                L.append(f"        self.{n} = _new(('vector', (({el!r}, None),)))")
            else:
                L.append(f"        self.{n} = 0")
        L.append("        self._ctor(*a)")
        self.L = L
        for name, ms in methods.items():
            # dispatch by arity
            nm = "_ctor" if name == "SPA" else name
            seen = {}
            for m in ms:
                ps = [p for p in m["inner"] if p["kind"] == "ParmVarDecl"]
                seen[len(ps)] = (m, ps)
            self.functions.append("SPA::" + name)
            L.append(f"    def {nm}(self, *a):")
            for n, (m, ps) in seen.items():
                L.append(f"        if len(a) == {n}:")
                for i, p in enumerate(ps):
                    q = p["type"]["qualType"]
                    conv = "_cf" if "double" in q else "_ci"
                    L.append(f"            {p.get('name', '_p%d' % i)} = {conv}(a[{i}])")
                body = [x for x in m["inner"] if x["kind"] == "CompoundStmt"][0]
                for ci in [x for x in m["inner"] if x["kind"] == "CXXCtorInitializer"]:
                    fld = ci.get("anyInit", {}).get("name")
                    inn = ci.get("inner", [])
                    if fld and inn and inn[0]["kind"] not in ("CXXConstructExpr",):
                        L.append(f"            self.{fld} = {self.e(inn[0])}")
                    elif fld and inn and inn[0].get("inner"):
                        raise TransError("ctor initialiser")
                self.s(body, 3)
                L.append("            return")
            L.append("        raise TypeError('SPA arity')")
        return "\n".join(L) + "\n"

    def put(self, ind, s):
        self.L.append("    " * ind + s)

    def s(self, n, ind):
        k = n["kind"]
        inn = n.get("inner", [])
        if k == "CompoundStmt":
            if not inn:
                self.put(ind, "pass")
            for x in inn:
                self.s(x, ind)
        elif k == "IfStmt":
            self.put(ind, f"if {self.e(inn[0])}:")
            self.s(inn[1], ind + 1)
            if len(inn) > 2:
                self.put(ind, "else:")
                self.s(inn[2], ind + 1)
        elif k == "ForStmt":
            init, _, cond, inc, body = inn
            if init.get("kind"):
                self.s(init, ind)
            self.put(ind, f"while {self.e(cond) if cond.get('kind') else 'True'}:")
            self.s(body, ind + 1)
            if inc.get("kind"):
                self.s(inc, ind + 1)
        elif k == "WhileStmt":
            self.put(ind, f"while {self.e(inn[0])}:")
            self.s(inn[1], ind + 1)
        elif k == "CXXForRangeStmt":
            # last two inner: loop var DeclStmt, body
            rng = inn[1]["inner"][0]["inner"][0]
            var = inn[-2]["inner"][0]["name"]
            self.put(ind, f"for {var} in {self.e(rng)}:")
            self.s(inn[-1], ind + 1)
        elif k == "DeclStmt":
            for d in inn:
                if d["kind"] != "VarDecl":
                    raise TransError("decl " + d["kind"])
                if d.get("inner"):
                    conv = "_cf" if "double" in d["type"]["qualType"] else ("_ci" if "int" in d["type"]["qualType"] or "size_t" in d["type"]["qualType"] else "")
                    self.put(ind, f"{d['name']} = {conv}({self.e(d['inner'][0])})")
        elif k == "ReturnStmt":
            self.put(ind, "return " + (self.e(inn[0]) if inn else ""))
        elif k == "NullStmt":
            self.put(ind, "pass")
        elif k == "BreakStmt":
            self.put(ind, "break")
        elif k == "ContinueStmt":
            raise TransError("continue in C++")
        elif k == "BinaryOperator" and n["opcode"] == "=":
            self.put(ind, f"{self.e(inn[0])} = {self.conv(n)}({self.e(inn[1])})")
        elif k == "CompoundAssignOperator":
            l = self.e(inn[0])
            self.put(ind, f"{l} = {self.conv(n)}({l} {n['opcode'][:-1]} {self.e(inn[1])})")
        elif k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            l = self.e(inn[0])
            self.put(ind, f"{l} = {l} {n['opcode'][0]} 1")
        elif k == "CXXOperatorCallExpr" and self.opname(n) in ("=",):
            self.put(ind, f"{self.e(inn[1])} = {self.e(inn[2])}")
        else:
            self.put(ind, self.e(n))

    def conv(self, n):
        q = n["type"]["qualType"]
        return "_cf" if "double" in q else ("_ci" if "int" in q or "long" in q else "")

    def opname(self, n):
        def find(x):
            if x.get("kind") == "DeclRefExpr":
                return x["referencedDecl"]["name"]
            for y in x.get("inner", []):
                r = find(y)
                if r:
                    return r
        return (find(n["inner"][0]) or "").replace("operator", "")

    def e(self, n):
        k = n["kind"]
        inn = n.get("inner", [])
        if k in ("ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr"):
            return self.e(inn[0])
        if k == "ParenExpr":
            return f"({self.e(inn[0])})"
        if k == "CXXThisExpr":
            return "self"
        if k == "MemberExpr":
            return f"{self.e(inn[0])}.{n['name']}"
        if k == "DeclRefExpr":
            return n["referencedDecl"]["name"]
        if k in ("IntegerLiteral", "FloatingLiteral"):
            return f"{n['value']}"
        if k == "CXXBoolLiteralExpr":
            return "True" if n["value"] else "False"
        if k == "BinaryOperator":
            op = {"&&": "and", "||": "or"}.get(n["opcode"], n["opcode"])
            if op == "=":
                raise TransError("assignment expression")
            return f"({self.e(inn[0])} {op} {self.e(inn[1])})"
        if k == "UnaryOperator":
            if n["opcode"] == "!":
                return f"(not {self.e(inn[0])})"
            if n["opcode"] == "-":
                return f"(-{self.e(inn[0])})"
            raise TransError("unary " + n["opcode"])
        if k == "CXXOperatorCallExpr":
            op = self.opname(n)
            if op == "[]":
                return f"{self.e(inn[1])}[{self.e(inn[2])}]"
            raise TransError("operator " + op)
        if k == "CXXMemberCallExpr":
            return f"{self.e(inn[0])}({', '.join(self.e(a) for a in inn[1:] if a['kind'] != 'CXXDefaultArgExpr')})"
        if k == "ConditionalOperator":
            return f"({self.e(inn[1])} if {self.e(inn[0])} else {self.e(inn[2])})"
        if k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr"):
            q = n["type"]["qualType"]
            c = "_cf" if "double" in q else ("_ci" if "int" in q or "long" in q else "")
            return f"{c}({self.e(inn[0])})"
        raise TransError("C++ expression " + k)
