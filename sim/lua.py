"""A small Lua 5.1 implementation: Lua source -> Python source -> callable.

Only what Redis scripts can use: no coroutines, no metatables beyond string
methods, no goto.  Strings are ``bytes``; numbers are Python ints/floats with
Lua 5.1 (all doubles) semantics for division and formatting.
"""

from __future__ import annotations

import math
import re
from typing import Any, Callable


class LuaError(Exception):
    def __init__(self, value: Any):
        self.value = value
        if isinstance(value, LuaTable) and b"err" in value.h:
            msg = value.h[b"err"].decode("utf-8", "replace")
        elif isinstance(value, bytes):
            msg = value.decode("utf-8", "replace")
        else:
            msg = repr(value)
        super().__init__(msg)


class LuaSyntaxError(Exception):
    pass


class LuaTable:
    __slots__ = ("arr", "h", "meta")

    def __init__(self) -> None:
        self.arr: list[Any] = []
        self.h: dict[Any, Any] = {}

    @classmethod
    def from_list(cls, items: list[Any]) -> "LuaTable":
        t = cls()
        if any(i is None for i in items):
            for n, i in enumerate(items, 1):
                t.set(n, i)
        else:
            t.arr = list(items)
        return t

    def get(self, k: Any) -> Any:
        if k.__class__ is int or (k.__class__ is float and k.is_integer()):
            k = int(k)
            if 1 <= k <= len(self.arr):
                return self.arr[k - 1]
        elif k.__class__ is bool:
            return self.h.get(("bool", k))
        return self.h.get(k)

    def set(self, k: Any, v: Any) -> None:
        if k is None:
            raise LuaError(b"index is nil")
        if k.__class__ is int or (k.__class__ is float and k.is_integer()):
            k = int(k)
            n = len(self.arr)
            if 1 <= k <= n:
                if v is None and k == n:
                    self.arr.pop()
                    while self.arr and self.arr[-1] is None:
                        self.arr.pop()
                else:
                    self.arr[k - 1] = v
                return
            if k == n + 1:
                if v is None:
                    self.h.pop(k, None)
                    return
                self.arr.append(v)
                self.h.pop(k, None)
                nk = n + 2
                while nk in self.h:
                    self.arr.append(self.h.pop(nk))
                    nk += 1
                return
        elif k.__class__ is bool:
            k = ("bool", k)
        if v is None:
            self.h.pop(k, None)
        else:
            self.h[k] = v

    def length(self) -> int:
        return len(self.arr)

    def items(self) -> list[tuple[Any, Any]]:
        out = [(i, v) for i, v in enumerate(self.arr, 1) if v is not None]
        for k, v in self.h.items():
            if isinstance(k, tuple):
                k = k[1]
            out.append((k, v))
        return out


# --------------------------------------------------------------------------
# Lexer

KEYWORDS = {
    "and", "break", "do", "else", "elseif", "end", "false", "for", "function",
    "if", "in", "local", "nil", "not", "or", "repeat", "return", "then",
    "true", "until", "while",
}

_TOKEN = re.compile(
    r"""
    (?P<ws>[ \t\r\n]+)
  | (?P<lcomment>--\[(?P<lc_eq>=*)\[)
  | (?P<comment>--[^\n]*)
  | (?P<lstring>\[(?P<ls_eq>=*)\[)
  | (?P<number>0[xX][0-9a-fA-F]+|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)
  | (?P<name>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<string>"(?:[^"\\\n]|\\[\s\S])*"|'(?:[^'\\\n]|\\[\s\S])*')
  | (?P<op>\.\.\.|\.\.|==|~=|<=|>=|//|::|[-+*/%^\#<>=(){}\[\];:,.])
    """,
    re.X,
)

_ESC = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f",
        "v": "\v", "\\": "\\", '"': '"', "'": "'", "\n": "\n"}


def _unescape(body: str) -> bytes:
    out = bytearray()
    i = 0
    while i < len(body):
        c = body[i]
        if c != "\\":
            out += c.encode("utf-8")
            i += 1
            continue
        i += 1
        c = body[i]
        if c in _ESC:
            out += _ESC[c].encode()
            i += 1
        elif c.isdigit():
            m = re.match(r"\d{1,3}", body[i:])
            assert m
            out.append(int(m.group()) & 255)
            i += len(m.group())
        elif c == "x":
            out.append(int(body[i + 1 : i + 3], 16))
            i += 3
        else:
            out += c.encode("utf-8")
            i += 1
    return bytes(out)


def lex(src: str) -> list[tuple[str, Any, int]]:
    toks: list[tuple[str, Any, int]] = []
    pos = 0
    line = 1
    while pos < len(src):
        m = _TOKEN.match(src, pos)
        if not m:
            raise LuaSyntaxError(f"unexpected symbol near {src[pos:pos+20]!r} line {line}")
        kind = m.lastgroup
        # lastgroup may be the inner eq group; pick the outer one
        for k in ("ws", "lcomment", "comment", "lstring", "number", "name", "string", "op"):
            if m.group(k) is not None:
                kind = k
                break
        text = m.group()
        pos = m.end()
        if kind in ("lcomment", "lstring"):
            eq = m.group("lc_eq") if kind == "lcomment" else m.group("ls_eq")
            close = "]" + eq + "]"
            end = src.find(close, pos)
            if end < 0:
                raise LuaSyntaxError("unfinished long bracket")
            body = src[pos:end]
            pos = end + len(close)
            if kind == "lstring":
                if body.startswith("\n"):
                    body = body[1:]
                toks.append(("string", body.encode("utf-8"), line))
            line += body.count("\n")
            continue
        if kind in ("ws", "comment"):
            line += text.count("\n")
            continue
        if kind == "number":
            if text[:2].lower() == "0x":
                val: Any = int(text, 16)
            elif re.fullmatch(r"\d+", text):
                val = int(text)
            else:
                val = float(text)
                if val.is_integer() and abs(val) < 2**53:
                    val = int(val)
            toks.append(("number", val, line))
        elif kind == "name":
            toks.append(("kw" if text in KEYWORDS else "name", text, line))
        elif kind == "string":
            toks.append(("string", _unescape(text[1:-1]), line))
            line += text.count("\n")
        else:
            toks.append(("op", text, line))
    toks.append(("eof", None, line))
    return toks


# --------------------------------------------------------------------------
# Parser + code generator (to Python source)

_BINPRI = {
    "or": (1, 1), "and": (2, 2),
    "<": (3, 3), ">": (3, 3), "<=": (3, 3), ">=": (3, 3), "~=": (3, 3), "==": (3, 3),
    "..": (5, 4), "+": (6, 6), "-": (6, 6), "*": (7, 7), "/": (7, 7), "%": (7, 7),
    "^": (10, 9),
}
_UNARY_PRI = 8


class _Expr:
    __slots__ = ("code", "multi", "kind", "parts")

    def __init__(self, code: str, multi: bool = False, kind: str = "", parts: Any = None):
        self.code = code  # when multi: python expr evaluating to a list of values
        self.multi = multi
        self.kind = kind
        self.parts = parts

    def one(self) -> str:
        return f"_first({self.code})" if self.multi else self.code


class Compiler:
    """Each Lua local becomes a uniquely named Python variable; function bodies
    become nested Python defs; assigned outer variables use ``nonlocal``."""

    def __init__(self, src: str):
        self.toks = lex(src)
        self.i = 0
        self.uid = 0
        # stack of function contexts
        self.funcs: list[dict[str, Any]] = []

    # token helpers
    def peek(self) -> tuple[str, Any, int]:
        return self.toks[self.i]

    def next(self) -> tuple[str, Any, int]:
        t = self.toks[self.i]
        self.i += 1
        return t

    def check(self, val: str) -> bool:
        k, v, _ = self.toks[self.i]
        return k in ("kw", "op") and v == val

    def accept(self, val: str) -> bool:
        if self.check(val):
            self.i += 1
            return True
        return False

    def expect(self, val: str) -> None:
        if not self.accept(val):
            k, v, line = self.peek()
            raise LuaSyntaxError(f"line {line}: '{val}' expected near {v!r}")

    def name(self) -> str:
        k, v, line = self.next()
        if k != "name":
            raise LuaSyntaxError(f"line {line}: <name> expected near {v!r}")
        return v

    # scopes
    def declare(self, lua_name: str) -> str:
        self.uid += 1
        py = f"L{self.uid}_{lua_name}"
        self.funcs[-1]["scopes"][-1][lua_name] = py
        self.funcs[-1]["owned"].add(py)
        return py

    def resolve(self, lua_name: str) -> str | None:
        for f in reversed(self.funcs):
            for scope in reversed(f["scopes"]):
                if lua_name in scope:
                    return scope[lua_name]
        return None

    def mark_assigned(self, py: str) -> None:
        f = self.funcs[-1]
        if py not in f["owned"]:
            f["nonlocal"].add(py)

    def tmp(self) -> str:
        self.uid += 1
        return f"T{self.uid}"

    def emit(self, out: list[str], ind: int, text: str) -> None:
        out.append("    " * ind + text)

    # entry
    def compile(self) -> str:
        body: list[str] = []
        self.funcs.append({"scopes": [{}], "owned": set(), "nonlocal": set(), "vararg": True})
        self.block(body, 1)
        if self.peek()[0] != "eof":
            k, v, line = self.peek()
            raise LuaSyntaxError(f"line {line}: unexpected {v!r}")
        self.funcs.pop()
        out = ["def _chunk(G, *va):"] + body + ["    return []"]
        return "\n".join(out)

    def block(self, out: list[str], ind: int) -> None:
        self.funcs[-1]["scopes"].append({})
        start = len(out)
        while True:
            k, v, _ = self.peek()
            if k == "eof" or (k == "kw" and v in ("end", "else", "elseif", "until")):
                break
            if self.check("return"):
                self.next()
                k, v, _ = self.peek()
                if k == "eof" or (k == "kw" and v in ("end", "else", "elseif", "until")) or self.check(";"):
                    self.emit(out, ind, "return []")
                else:
                    exprs = self.exprlist()
                    self.emit(out, ind, f"return {self.listof(exprs)}")
                self.accept(";")
                break
            if self.check("break"):
                self.next()
                self.accept(";")
                self.emit(out, ind, "break")
                continue
            self.statement(out, ind)
            self.accept(";")
        if len(out) == start:
            self.emit(out, ind, "pass")
        self.funcs[-1]["scopes"].pop()

    def listof(self, exprs: list[_Expr]) -> str:
        if not exprs:
            return "[]"
        if exprs[-1].multi:
            if len(exprs) == 1:
                return exprs[0].code
            head = ", ".join(e.one() for e in exprs[:-1])
            return f"[{head}, *{exprs[-1].code}]"
        return "[" + ", ".join(e.one() for e in exprs) + "]"

    def statement(self, out: list[str], ind: int) -> None:
        if self.accept(";"):
            return
        if self.accept("do"):
            self.block(out, ind)
            self.expect("end")
            return
        if self.accept("while"):
            n = len(out)
            cond = self.expr()
            self.expect("do")
            self.emit(out, ind, f"while _t({cond.one()}):")
            self.block(out, ind + 1)
            self.expect("end")
            return
        if self.accept("repeat"):
            self.emit(out, ind, "while True:")
            # scope of the until-expression includes the block's locals
            self.funcs[-1]["scopes"].append({})
            while not self.check("until"):
                if self.check("break"):
                    self.next()
                    self.emit(out, ind + 1, "break")
                    self.accept(";")
                    continue
                if self.check("return"):
                    self.next()
                    exprs = [] if self.check("until") else self.exprlist()
                    self.emit(out, ind + 1, f"return {self.listof(exprs)}")
                    self.accept(";")
                    continue
                self.statement(out, ind + 1)
            self.expect("until")
            cond = self.expr()
            self.emit(out, ind + 1, f"if _t({cond.one()}): break")
            self.funcs[-1]["scopes"].pop()
            return
        if self.accept("if"):
            cond = self.expr()
            self.expect("then")
            self.emit(out, ind, f"if _t({cond.one()}):")
            self.block(out, ind + 1)
            depth = ind
            while True:
                if self.accept("elseif"):
                    cond = self.expr()
                    self.expect("then")
                    self.emit(out, ind, f"elif _t({cond.one()}):")
                    self.block(out, ind + 1)
                elif self.accept("else"):
                    self.emit(out, ind, "else:")
                    self.block(out, ind + 1)
                    self.expect("end")
                    break
                else:
                    self.expect("end")
                    break
            return
        if self.accept("for"):
            n1 = self.name()
            if self.accept("="):
                e1 = self.expr()
                self.expect(",")
                e2 = self.expr()
                e3 = _Expr("1")
                if self.accept(","):
                    e3 = self.expr()
                self.expect("do")
                self.funcs[-1]["scopes"].append({})
                var = self.declare(n1)
                self.emit(out, ind, f"for {var} in _fornum({e1.one()}, {e2.one()}, {e3.one()}):")
                self.block(out, ind + 1)
                self.funcs[-1]["scopes"].pop()
                self.expect("end")
                return
            names = [n1]
            while self.accept(","):
                names.append(self.name())
            self.expect("in")
            exprs = self.exprlist()
            self.expect("do")
            lst = self.listof(exprs)
            self.funcs[-1]["scopes"].append({})
            vars_ = [self.declare(n) for n in names]
            self.emit(out, ind, f"for {', '.join(vars_)}{',' if len(vars_) == 1 else ''} in _forin({lst}, {len(vars_)}):")
            self.block(out, ind + 1)
            self.funcs[-1]["scopes"].pop()
            self.expect("end")
            return
        if self.accept("function"):
            n = self.name()
            path = [n]
            method = False
            while self.check(".") or self.check(":"):
                method = self.check(":")
                self.next()
                path.append(self.name())
                if method:
                    break
            fname = self.funcbody(out, ind, method)
            target: _Expr
            if len(path) == 1:
                self.assign_name(out, ind, n, fname)
            else:
                obj = self.varexpr(path[0])
                for p in path[1:-1]:
                    obj = f"_index({obj}, {p.encode()!r})"
                self.emit(out, ind, f"_setindex({obj}, {path[-1].encode()!r}, {fname})")
            return
        if self.accept("local"):
            if self.accept("function"):
                n = self.name()
                py = self.declare(n)
                self.emit(out, ind, f"{py} = None")
                fname = self.funcbody(out, ind, False)
                self.emit(out, ind, f"{py} = {fname}")
                return
            names = [self.name()]
            while self.accept(","):
                names.append(self.name())
            exprs: list[_Expr] = []
            if self.accept("="):
                exprs = self.exprlist()
            if len(names) == 1 and len(exprs) == 1:
                code = exprs[0].one()
                py = self.declare(names[0])
                self.emit(out, ind, f"{py} = {code}")
                return
            if not exprs:
                for n in names:
                    self.emit(out, ind, f"{self.declare(n)} = None")
                return
            lst = self.listof(exprs)
            pys = [self.declare(n) for n in names]
            self.emit(out, ind, f"{', '.join(pys)}{',' if len(pys) == 1 else ''} = _adjust({lst}, {len(pys)})")
            return
        # expression statement: call or assignment
        e = self.suffixedexp(out, ind)
        if self.check("=") or self.check(","):
            targets = [e]
            while self.accept(","):
                targets.append(self.suffixedexp(out, ind))
            self.expect("=")
            exprs = self.exprlist()
            if len(targets) == 1 and len(exprs) == 1:
                self.assign(out, ind, targets[0], exprs[0].one())
                return
            t = self.tmp()
            self.emit(out, ind, f"{t} = _adjust({self.listof(exprs)}, {len(targets)})")
            for idx, tg in enumerate(targets):
                self.assign(out, ind, tg, f"{t}[{idx}]")
            return
        if e.kind != "call":
            k, v, line = self.peek()
            raise LuaSyntaxError(f"line {line}: syntax error near {v!r}")
        self.emit(out, ind, e.code)

    def assign(self, out: list[str], ind: int, target: _Expr, code: str) -> None:
        if target.kind == "name":
            self.assign_name(out, ind, target.parts, code)
        elif target.kind == "index":
            obj, key = target.parts
            self.emit(out, ind, f"_setindex({obj}, {key}, {code})")
        else:
            raise LuaSyntaxError("cannot assign")

    def assign_name(self, out: list[str], ind: int, lua_name: str, code: str) -> None:
        py = self.resolve(lua_name)
        if py is None:
            self.emit(out, ind, f"G.set({lua_name.encode()!r}, {code})")
        else:
            self.mark_assigned(py)
            self.emit(out, ind, f"{py} = {code}")

    def varexpr(self, lua_name: str) -> str:
        py = self.resolve(lua_name)
        if py is None:
            return f"G.get({lua_name.encode()!r})"
        return py

    def exprlist(self) -> list[_Expr]:
        out = [self.expr()]
        while self.accept(","):
            out.append(self.expr())
        return out

    # NOTE: function expressions need statement-level emission; they are
    # hoisted into the current output list via self.hoist.
    def funcbody(self, out: list[str], ind: int, method: bool) -> str:
        self.uid += 1
        fname = f"F{self.uid}"
        self.funcs.append({"scopes": [{}], "owned": set(), "nonlocal": set(), "vararg": False})
        params: list[str] = []
        if method:
            params.append(self.declare("self"))
        self.expect("(")
        vararg = False
        if not self.check(")"):
            while True:
                if self.accept("..."):
                    vararg = True
                    break
                params.append(self.declare(self.name()))
                if not self.accept(","):
                    break
        self.expect(")")
        self.funcs[-1]["vararg"] = vararg
        body: list[str] = []
        saved = getattr(self, "_hoist", None)
        self.block(body, ind + 1)
        self.expect("end")
        f = self.funcs.pop()
        # nonlocals that belong to an outer function bubble up
        for py in sorted(f["nonlocal"]):
            if self.funcs and py not in self.funcs[-1]["owned"]:
                self.funcs[-1]["nonlocal"].add(py)
        sig = ", ".join(f"{p}=None" for p in params)
        sig = f"{sig}, *va" if sig else "*va"
        self.emit(out, ind, f"def {fname}({sig}):")
        if f["nonlocal"]:
            self.emit(out, ind + 1, "nonlocal " + ", ".join(sorted(f["nonlocal"])))
        out.extend(body)
        self.emit(out, ind + 1, "return []")
        return fname

    _cur_out: list[str]
    _cur_ind: int

    def expr(self, limit: int = 0) -> _Expr:
        k, v, line = self.peek()
        if k == "kw" and v == "not":
            self.next()
            e = self.expr(_UNARY_PRI)
            left = _Expr(f"(not _t({e.one()}))")
        elif k == "op" and v == "-":
            self.next()
            e = self.expr(_UNARY_PRI)
            left = _Expr(f"_neg({e.one()})")
        elif k == "op" and v == "#":
            self.next()
            e = self.expr(_UNARY_PRI)
            left = _Expr(f"_len({e.one()})")
        else:
            left = self.simpleexp()
        while True:
            k, v, line = self.peek()
            if not (k in ("op", "kw") and v in _BINPRI):
                break
            lp, rp = _BINPRI[v]
            if lp <= limit:
                break
            self.next()
            right = self.expr(rp)
            a, b = left.one(), right.one()
            if v == "and":
                t = self.tmp()
                left = _Expr(f"({b} if _t({t} := {a}) else {t})")
            elif v == "or":
                t = self.tmp()
                left = _Expr(f"({t} if _t({t} := {a}) else {b})")
            elif v == "==":
                left = _Expr(f"_eq({a}, {b})")
            elif v == "~=":
                left = _Expr(f"(not _eq({a}, {b}))")
            else:
                fn = {"<": "_lt", ">": "_gt", "<=": "_le", ">=": "_ge", "..": "_concat",
                      "+": "_add", "-": "_sub", "*": "_mul", "/": "_div", "%": "_mod",
                      "^": "_pow"}[v]
                left = _Expr(f"{fn}({a}, {b})")
        return left

    def simpleexp(self) -> _Expr:
        k, v, line = self.peek()
        if k == "number":
            self.next()
            return _Expr(repr(v))
        if k == "string":
            self.next()
            return _Expr(repr(v))
        if k == "kw":
            if v == "nil":
                self.next()
                return _Expr("None")
            if v == "true":
                self.next()
                return _Expr("True")
            if v == "false":
                self.next()
                return _Expr("False")
            if v == "function":
                self.next()
                return self.lambda_()
        if k == "op" and v == "...":
            self.next()
            return _Expr("list(va)", multi=True)
        if k == "op" and v == "{":
            return self.table()
        return self.suffixedexp()

    def lambda_(self) -> _Expr:
        # Compile the function body into a nested chunk executed via exec-time
        # closure: emit as a def into the pending-hoist list.
        out: list[str] = []
        fname = self.funcbody(out, 0, False)
        if not hasattr(self, "_pending"):
            self._pending: list[list[str]] = []
        self._pending.append(out)
        return _Expr(fname, kind="lambda")

    def table(self) -> _Expr:
        self.expect("{")
        pos: list[_Expr] = []
        named: list[str] = []
        while not self.check("}"):
            if self.accept("["):
                key = self.expr()
                self.expect("]")
                self.expect("=")
                val = self.expr()
                named.append(f"({key.one()}, {val.one()})")
            elif self.peek()[0] == "name" and self.toks[self.i + 1][:2] == ("op", "="):
                n = self.name()
                self.expect("=")
                val = self.expr()
                named.append(f"({n.encode()!r}, {val.one()})")
            else:
                pos.append(self.expr())
            if not (self.accept(",") or self.accept(";")):
                break
        self.expect("}")
        return _Expr(f"_mktable({self.listof(pos)}, [{', '.join(named)}])")

    def suffixedexp(self, out: Any = None, ind: int = 0) -> _Expr:
        k, v, line = self.next()
        if k == "name":
            e = _Expr(self.varexpr(v), kind="name", parts=v)
        elif k == "op" and v == "(":
            inner = self.expr()
            self.expect(")")
            e = _Expr(f"({inner.one()})", kind="paren")
        else:
            raise LuaSyntaxError(f"line {line}: unexpected symbol near {v!r}")
        while True:
            k, v, line = self.peek()
            if k == "op" and v == ".":
                self.next()
                n = self.name()
                obj = e.one()
                e = _Expr(f"_index({obj}, {n.encode()!r})", kind="index", parts=(obj, repr(n.encode())))
            elif k == "op" and v == "[":
                self.next()
                key = self.expr().one()
                self.expect("]")
                obj = e.one()
                e = _Expr(f"_index({obj}, {key})", kind="index", parts=(obj, key))
            elif k == "op" and v == ":":
                self.next()
                n = self.name()
                args = self.callargs()
                e = _Expr(f"_mcall({e.one()}, {n.encode()!r}, {self.listof(args)})", multi=True, kind="call")
            elif (k == "op" and v in ("(", "{")) or k == "string":
                args = self.callargs()
                e = _Expr(f"_call({e.one()}, {self.listof(args)})", multi=True, kind="call")
            else:
                return e

    def callargs(self) -> list[_Expr]:
        k, v, line = self.peek()
        if k == "string":
            self.next()
            return [_Expr(repr(v))]
        if k == "op" and v == "{":
            return [self.table()]
        self.expect("(")
        if self.accept(")"):
            return []
        args = self.exprlist()
        self.expect(")")
        return args


class _HoistingCompiler(Compiler):
    """Flush hoisted function definitions before the statement that uses them."""

    def emit(self, out: list[str], ind: int, text: str) -> None:
        pending = getattr(self, "_pending", None)
        if pending:
            self._pending = []
            for lines in pending:
                for ln in lines:
                    out.append("    " * ind + ln)
        out.append("    " * ind + text)


# --------------------------------------------------------------------------
# Runtime


def _t(v: Any) -> bool:
    return v is not None and v is not False


def _first(lst: Any) -> Any:
    return lst[0] if lst else None


def _adjust(lst: list[Any], n: int) -> list[Any]:
    m = len(lst)
    if m == n:
        return lst
    if m > n:
        return lst[:n]
    return list(lst) + [None] * (n - m)


def _fornum(a: Any, b: Any, s: Any):
    a, b, s = tonum(a), tonum(b), tonum(s)
    if a is None or b is None or s is None:
        raise LuaError(b"'for' initial value must be a number")
    if s == 0:
        return
    while (a <= b) if s > 0 else (a >= b):
        yield a
        a += s


def _forin(lst: list[Any], n: int):
    f, s, c = _adjust(lst, 3)
    if isinstance(f, _FastIter):
        for item in f.gen(s):
            yield _adjust(list(item), n)
        return
    while True:
        r = _call(f, [s, c])
        if not r or r[0] is None:
            return
        c = r[0]
        yield _adjust(list(r), n)


class _FastIter:
    def __init__(self, fn: Callable[[Any], Any]):
        self.gen = fn


def _ipairs_gen(t: Any):
    i = 1
    while True:
        v = t.get(i)
        if v is None:
            return
        yield (i, v)
        i += 1


def _pairs_gen(t: Any):
    for k, v in t.items():
        yield (k, v)


def fmtnum(n: Any) -> bytes:
    if n.__class__ is int:
        if abs(n) < 10**14:
            return str(n).encode()
        n = float(n)
    if n != n:
        return b"nan" if math.copysign(1, n) > 0 else b"-nan"
    if n in (math.inf, -math.inf):
        return b"inf" if n > 0 else b"-inf"
    return (b"%.14g" % n)


def tonum(v: Any, base: Any = None) -> Any:
    if v.__class__ is int or v.__class__ is float:
        return v
    if isinstance(v, bytes):
        s = v.strip()
        try:
            if base is not None and base != 10:
                return int(s, int(base))
            if re.fullmatch(rb"[-+]?\d+", s):
                n = int(s)
                return n if abs(n) <= 2**53 else float(n)
            if re.fullmatch(rb"[-+]?0[xX][0-9a-fA-F]+", s):
                return int(s, 16)
            if re.fullmatch(rb"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", s):
                return float(s)
            if s.lower() in (b"inf", b"nan", b"-inf", b"-nan", b"+inf"):
                return float(s)
        except ValueError:
            return None
    return None


def typename(v: Any) -> str:
    if v is None:
        return "nil"
    if v.__class__ is bool:
        return "boolean"
    if isinstance(v, (int, float)):
        return "number"
    if isinstance(v, bytes):
        return "string"
    if isinstance(v, LuaTable):
        return "table"
    return "function"


def tostr(v: Any) -> bytes:
    if isinstance(v, bytes):
        return v
    if v is None:
        return b"nil"
    if v is True:
        return b"true"
    if v is False:
        return b"false"
    if isinstance(v, (int, float)):
        return fmtnum(v)
    return b"table: 0x0" if isinstance(v, LuaTable) else b"function: 0x0"


def _arith(name: str, a: Any, b: Any) -> tuple[Any, Any]:
    x, y = tonum(a), tonum(b)
    if x is None or y is None or a.__class__ is bool or b.__class__ is bool:
        bad = a if x is None else b
        raise LuaError(f"attempt to perform arithmetic on a {typename(bad)} value".encode())
    return x, y


def _norm(n: Any) -> Any:
    if n.__class__ is int and abs(n) > 2**53:
        return float(n)
    return n


def _add(a, b):
    x, y = _arith("add", a, b)
    return _norm(x + y)


def _sub(a, b):
    x, y = _arith("sub", a, b)
    return _norm(x - y)


def _mul(a, b):
    x, y = _arith("mul", a, b)
    return _norm(x * y)


def _div(a, b):
    x, y = _arith("div", a, b)
    if y == 0:
        if x == 0 or x != x:
            return math.nan
        return math.inf if (x > 0) == (math.copysign(1, y) > 0) else -math.inf
    r = x / y
    return int(r) if r.is_integer() and abs(r) < 2**53 else r


def _mod(a, b):
    x, y = _arith("mod", a, b)
    if y == 0:
        return math.nan
    return x - math.floor(x / y) * y


def _pow(a, b):
    x, y = _arith("pow", a, b)
    try:
        return float(x) ** y
    except OverflowError:
        return math.inf


def _neg(a):
    x = tonum(a)
    if x is None:
        raise LuaError(f"attempt to perform arithmetic on a {typename(a)} value".encode())
    return -x


def _len(a):
    if isinstance(a, bytes):
        return len(a)
    if isinstance(a, LuaTable):
        return a.length()
    raise LuaError(f"attempt to get length of a {typename(a)} value".encode())


def _eq(a, b):
    if a is b:
        return True
    ta, tb = typename(a), typename(b)
    if ta != tb:
        return False
    if ta in ("table", "function"):
        return a is b
    return a == b


def _cmpcheck(a, b):
    ta, tb = typename(a), typename(b)
    if ta == tb and ta in ("number", "string"):
        return
    if ta == tb:
        raise LuaError(f"attempt to compare two {ta} values".encode())
    raise LuaError(f"attempt to compare {ta} with {tb}".encode())


def _lt(a, b):
    _cmpcheck(a, b)
    return a < b


def _gt(a, b):
    _cmpcheck(a, b)
    return a > b


def _le(a, b):
    _cmpcheck(a, b)
    return a <= b


def _ge(a, b):
    _cmpcheck(a, b)
    return a >= b


def _concat(a, b):
    for v in (a, b):
        if not isinstance(v, (bytes, int, float)) or v.__class__ is bool:
            raise LuaError(f"attempt to concatenate a {typename(v)} value".encode())
    return tostr(a) + tostr(b)


def _index(o, k):
    if isinstance(o, LuaTable):
        if k is None:
            return None
        return o.get(k)
    if isinstance(o, bytes):
        return STRING.get(k)
    raise LuaError(f"attempt to index a {typename(o)} value (field '{tostr(k).decode('utf-8','replace')}')".encode())


def _setindex(o, k, v):
    if isinstance(o, LuaTable):
        o.set(k, v)
        return
    raise LuaError(f"attempt to index a {typename(o)} value".encode())


def _call(f, args):
    if f is None or not callable(f):
        raise LuaError(f"attempt to call a {typename(f)} value".encode())
    r = f(*args)
    if r.__class__ is list:
        return r
    return [r] if r is not None else [None]


def _mcall(o, name, args):
    f = _index(o, name)
    return _call(f, [o, *args])


def _mktable(pos, named):
    t = LuaTable.from_list(pos)
    for k, v in named:
        t.set(k, v)
    return t


# ---- string library (patterns) ----

_CLASSES = {
    ord("a"): lambda c: chr(c).isalpha() and c < 128,
    ord("d"): lambda c: 48 <= c <= 57,
    ord("l"): lambda c: 97 <= c <= 122,
    ord("s"): lambda c: c in b" \t\n\r\f\v",
    ord("u"): lambda c: 65 <= c <= 90,
    ord("w"): lambda c: c < 128 and chr(c).isalnum(),
    ord("x"): lambda c: c in b"0123456789abcdefABCDEF",
    ord("p"): lambda c: c in b"!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~",
    ord("c"): lambda c: c < 32 or c == 127,
    ord("z"): lambda c: c == 0,
}


class _Matcher:
    def __init__(self, s: bytes, p: bytes):
        self.s, self.p = s, p
        self.caps: list[list[int]] = []

    def cls(self, c: int, pc: int) -> bool:
        low = pc | 32
        if low in _CLASSES and chr(pc).isalpha():
            r = bool(_CLASSES[low](c))
            return r if pc == low else not r
        return pc == c

    def class_end(self, pi: int) -> int:
        p = self.p
        if pi >= len(p):
            raise LuaError(b"malformed pattern (ends with '%')")
        c = p[pi]
        pi += 1
        if c == 37:
            return pi + 1
        if c == 91:
            if pi < len(p) and p[pi] == 94:
                pi += 1
            first = True
            while first or p[pi] != 93:
                first = False
                if p[pi] == 37:
                    pi += 1
                pi += 1
                if pi >= len(p):
                    raise LuaError(b"malformed pattern (missing ']')")
            return pi + 1
        return pi

    def single(self, si: int, pi: int, ep: int) -> bool:
        if si >= len(self.s):
            return False
        c = self.s[si]
        pc = self.p[pi]
        if pc == 46:
            return True
        if pc == 37:
            return self.cls(c, self.p[pi + 1])
        if pc == 91:
            return self.set_(c, pi, ep - 1)
        return pc == c

    def set_(self, c: int, pi: int, end: int) -> bool:
        p = self.p
        pi += 1
        sig = True
        if p[pi] == 94:
            sig = False
            pi += 1
        while pi < end:
            if p[pi] == 37:
                pi += 1
                if self.cls(c, p[pi]):
                    return sig
                pi += 1
            elif pi + 2 < end and p[pi + 1] == 45:
                if p[pi] <= c <= p[pi + 2]:
                    return sig
                pi += 3
            else:
                if p[pi] == c:
                    return sig
                pi += 1
        return not sig

    def match(self, si: int, pi: int) -> int:
        p, s = self.p, self.s
        while True:
            if pi >= len(p):
                return si
            pc = p[pi]
            if pc == 40:
                pos = pi + 1 < len(p) and p[pi + 1] == 41
                self.caps.append([si, -2 if pos else -1])
                r = self.match(si, pi + (2 if pos else 1))
                if r == -1:
                    self.caps.pop()
                return r
            if pc == 41:
                for idx in range(len(self.caps) - 1, -1, -1):
                    if self.caps[idx][1] == -1:
                        self.caps[idx][1] = si - self.caps[idx][0]
                        r = self.match(si, pi + 1)
                        if r == -1:
                            self.caps[idx][1] = -1
                        return r
                raise LuaError(b"invalid pattern capture")
            if pc == 36 and pi + 1 == len(p):
                return si if si == len(s) else -1
            if pc == 37 and pi + 1 < len(p):
                nc = p[pi + 1]
                if 48 <= nc <= 57:
                    st, ln = self.caps[nc - 49]
                    sub = s[st : st + ln]
                    if s[si : si + ln] == sub:
                        si += ln
                        pi += 2
                        continue
                    return -1
                if nc == 98:
                    if si >= len(s) or s[si] != p[pi + 2]:
                        return -1
                    b, e = p[pi + 2], p[pi + 3]
                    cont = 1
                    j = si + 1
                    while j < len(s):
                        if s[j] == e:
                            cont -= 1
                            if cont == 0:
                                break
                        elif s[j] == b:
                            cont += 1
                        j += 1
                    else:
                        return -1
                    si = j + 1
                    pi += 4
                    continue
            ep = self.class_end(pi)
            q = p[ep] if ep < len(p) else 0
            if q == 63:
                if self.single(si, pi, ep):
                    r = self.match(si + 1, ep + 1)
                    if r != -1:
                        return r
                pi = ep + 1
                continue
            if q == 43 or q == 42:
                i = 0
                while self.single(si + i, pi, ep):
                    i += 1
                lo = 1 if q == 43 else 0
                while i >= lo:
                    r = self.match(si + i, ep + 1)
                    if r != -1:
                        return r
                    i -= 1
                return -1
            if q == 45:
                while True:
                    r = self.match(si, ep + 1)
                    if r != -1:
                        return r
                    if self.single(si, pi, ep):
                        si += 1
                    else:
                        return -1
            if not self.single(si, pi, ep):
                return -1
            si += 1
            pi = ep

    def captures(self, si: int, e: int, whole: bool = True) -> list[Any]:
        if not self.caps:
            return [self.s[si:e]] if whole else []
        out: list[Any] = []
        for st, ln in self.caps:
            out.append(st + 1 if ln == -2 else self.s[st : st + ln])
        return out


def _find_impl(s, p, init, plain, find):
    s, p = tostr(s), tostr(p)
    init = int(init) if init is not None else 1
    if init < 0:
        init = max(1, len(s) + init + 1)
    elif init == 0:
        init = 1
    if init > len(s) + 1:
        return [None]
    if find and (_t(plain) or not any(c in b"^$*+?.([%-" for c in p)):
        i = s.find(p, init - 1)
        return [None] if i < 0 else [i + 1, i + len(p)]
    anchor = p[:1] == b"^"
    pp = 1 if anchor else 0
    si = init - 1
    while True:
        m = _Matcher(s, p)
        e = m.match(si, pp)
        if e != -1:
            if find:
                return [si + 1, e, *m.captures(si, e, False)]
            return m.captures(si, e)
        si += 1
        if anchor or si > len(s):
            return [None]


def _gsub(s, p, repl, n=None):
    s, p = tostr(s), tostr(p)
    anchor = p[:1] == b"^"
    pp = 1 if anchor else 0
    out = bytearray()
    si = 0
    count = 0
    limit = len(s) + 1 if n is None else int(n)
    while count < limit:
        m = _Matcher(s, p)
        e = m.match(si, pp)
        if e != -1:
            count += 1
            caps = m.captures(si, e)
            whole = s[si:e]
            if isinstance(repl, (bytes, int, float)):
                r = tostr(repl)
                buf = bytearray()
                j = 0
                while j < len(r):
                    if r[j] == 37:
                        j += 1
                        d = r[j] if j < len(r) else 37
                        if d == 48:
                            buf += whole
                        elif 49 <= d <= 57:
                            buf += tostr(caps[d - 49])
                        else:
                            buf.append(d)
                    else:
                        buf.append(r[j])
                    j += 1
                val: Any = bytes(buf)
            elif isinstance(repl, LuaTable):
                val = repl.get(caps[0])
            else:
                val = _first(_call(repl, caps))
            out += whole if not _t(val) else tostr(val)
        if e != -1 and e > si:
            si = e
        elif si < len(s):
            out.append(s[si])
            si += 1
        else:
            break
        if anchor:
            break
    out += s[si:]
    return [bytes(out), count]


def _gmatch(s, p):
    state = {"i": 0}

    def it(*_a):
        si = state["i"]
        while si <= len(s):
            m = _Matcher(s, p)
            e = m.match(si, 0)
            if e != -1:
                state["i"] = e if e > si else e + 1
                return m.captures(si, e)
            si += 1
        state["i"] = len(s) + 1
        return [None]

    return [it]


def _sub_(s, i, j=None):
    s = tostr(s)
    i = int(tonum(i))
    j = -1 if j is None else int(tonum(j))
    n = len(s)
    if i < 0:
        i = max(1, n + i + 1)
    elif i == 0:
        i = 1
    if j < 0:
        j = n + j + 1
    elif j > n:
        j = n
    return s[i - 1 : j] if i <= j else b""


def _format(fmt, *args):
    out = bytearray()
    i = 0
    a = list(args)
    fmt = tostr(fmt)
    while i < len(fmt):
        c = fmt[i]
        if c != 37:
            out.append(c)
            i += 1
            continue
        m = re.compile(rb"%([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])").match(fmt, i)
        if not m:
            raise LuaError(b"invalid option to 'format'")
        i = m.end()
        conv = m.group(2)
        if conv == b"%":
            out += b"%"
            continue
        v = a.pop(0)
        if conv in b"dicuxXo":
            out += (b"%" + m.group(1) + (b"d" if conv in b"diu" else conv)) % int(tonum(v))
        elif conv in b"eEfgG":
            out += (b"%" + m.group(1) + conv) % float(tonum(v))
        elif conv == b"s":
            out += (b"%" + m.group(1) + b"s") % tostr(v)
        elif conv == b"q":
            out += b'"' + tostr(v).replace(b"\\", b"\\\\").replace(b'"', b'\\"').replace(b"\n", b"\\\n") + b'"'
        else:
            raise LuaError(b"invalid option to 'format'")
    return bytes(out)


def _byte(s, i=1, j=None):
    i = int(i)
    j = i if j is None else int(j)
    sub = _sub_(s, i, j)
    return list(sub)


def _mk(d: dict[str, Any]) -> LuaTable:
    t = LuaTable()
    for k, v in d.items():
        t.set(k.encode(), v)
    return t


STRING = _mk({
    "len": lambda s: len(tostr(s)),
    "sub": _sub_,
    "upper": lambda s: tostr(s).upper(),
    "lower": lambda s: tostr(s).lower(),
    "rep": lambda s, n: tostr(s) * max(0, int(n)),
    "reverse": lambda s: tostr(s)[::-1],
    "byte": _byte,
    "char": lambda *c: bytes(int(x) for x in c),
    "format": _format,
    "find": lambda s, p, i=None, plain=None: _find_impl(s, p, i, plain, True),
    "match": lambda s, p, i=None: _find_impl(s, p, i, None, False),
    "gsub": _gsub,
    "gmatch": lambda s, p: _gmatch(tostr(s), tostr(p)),
})


def _tinsert(t, a, *rest):
    if not rest:
        t.set(t.length() + 1, a)
    else:
        pos = int(a)
        n = t.length()
        if pos == n + 1:
            t.set(pos, rest[0])
        else:
            t.arr.insert(pos - 1, rest[0])
    return []


def _tremove(t, pos=None):
    n = t.length()
    if n == 0:
        return [None]
    p = n if pos is None else int(pos)
    if p < 1 or p > n:
        return [None]
    return [t.arr.pop(p - 1)]


def _tconcat(t, sep=b"", i=1, j=None):
    j = t.length() if j is None else int(j)
    parts = []
    for k in range(int(i), j + 1):
        v = t.get(k)
        if not isinstance(v, (bytes, int, float)) or v.__class__ is bool:
            raise LuaError(b"invalid value in table for 'concat'")
        parts.append(tostr(v))
    return tostr(sep).join(parts)


def _tsort(t, cmp=None):
    import functools

    if cmp is None:
        t.arr.sort()
    else:
        def c(a, b):
            if _t(_first(_call(cmp, [a, b]))):
                return -1
            if _t(_first(_call(cmp, [b, a]))):
                return 1
            return 0

        t.arr.sort(key=functools.cmp_to_key(c))
    return []


def _unpack(t, i=1, j=None):
    i = int(i)
    j = t.length() if j is None else int(j)
    if i == 1 and j == len(t.arr):
        return list(t.arr)
    return [t.get(k) for k in range(i, j + 1)]


def _select(n, *args):
    if n == b"#":
        return len(args)
    n = int(tonum(n))
    return list(args[n - 1 :]) if n > 0 else list(args[n:])


def _error(v=None, level=None):
    raise LuaError(v)


def _assert(v=None, msg=b"assertion failed!", *rest):
    if not _t(v):
        raise LuaError(msg)
    return [v, msg, *rest]


def _pcall(f, *args):
    try:
        return [True, *_call(f, list(args))]
    except LuaError as e:
        return [False, e.value]


def _next(t, k=None):
    items = t.items()
    if k is None:
        return [*items[0]] if items else [None]
    for idx, (kk, _v) in enumerate(items):
        if _eq(kk, k):
            if idx + 1 < len(items):
                return [*items[idx + 1]]
            return [None]
    return [None]


def _minmax(fn):
    return lambda *a: fn(tonum(x) for x in a)


MATH = _mk({
    "floor": lambda x: math.floor(tonum(x)),
    "ceil": lambda x: math.ceil(tonum(x)),
    "abs": lambda x: abs(tonum(x)),
    "max": _minmax(max),
    "min": _minmax(min),
    "huge": math.inf,
    "pi": math.pi,
    "sqrt": lambda x: math.sqrt(tonum(x)),
    "fmod": lambda a, b: math.fmod(tonum(a), tonum(b)),
    "pow": lambda a, b: _pow(a, b),
    "log": lambda a: math.log(tonum(a)),
    "exp": lambda a: math.exp(tonum(a)),
    "modf": lambda a: [math.trunc(tonum(a)), tonum(a) - math.trunc(tonum(a))],
})

TABLE = _mk({
    "insert": _tinsert,
    "remove": _tremove,
    "concat": _tconcat,
    "sort": _tsort,
    "getn": lambda t: t.length(),
})


def _json_encode(v):
    import json

    def conv(x):
        if isinstance(x, LuaTable):
            if not x.h and x.arr:
                return [conv(i) for i in x.arr]
            return {tostr(k).decode(): conv(val) for k, val in x.items()}
        if isinstance(x, bytes):
            return x.decode("utf-8", "surrogateescape")
        return x

    return json.dumps(conv(v), separators=(",", ":")).encode("utf-8", "surrogateescape")


def _json_decode(s):
    import json

    def conv(x):
        if isinstance(x, list):
            return LuaTable.from_list([conv(i) for i in x])
        if isinstance(x, dict):
            t = LuaTable()
            for k, v in x.items():
                t.set(k.encode(), conv(v))
            return t
        if isinstance(x, str):
            return x.encode()
        return x

    return conv(json.loads(s))


CJSON = _mk({"encode": _json_encode, "decode": _json_decode})


def base_globals() -> LuaTable:
    return _mk({
        "string": STRING,
        "math": MATH,
        "table": TABLE,
        "cjson": CJSON,
        "tonumber": lambda v=None, b=None: tonum(v, b) if v.__class__ is not bool else None,
        "tostring": lambda v=None: tostr(v),
        "type": lambda v=None: typename(v).encode(),
        "ipairs": lambda t: [_FastIter(_ipairs_gen), t, 0],
        "pairs": lambda t: [_FastIter(_pairs_gen), t, None],
        "next": _next,
        "unpack": _unpack,
        "select": _select,
        "error": _error,
        "assert": _assert,
        "pcall": _pcall,
        "rawget": lambda t, k: t.get(k),
        "rawset": lambda t, k, v: (t.set(k, v), t)[1],
        "rawequal": lambda a, b: _eq(a, b),
    })


_RUNTIME = {
    n: globals()[n]
    for n in (
        "_t", "_first", "_adjust", "_fornum", "_forin", "_add", "_sub", "_mul", "_div",
        "_mod", "_pow", "_neg", "_len", "_eq", "_lt", "_gt", "_le", "_ge", "_concat",
        "_index", "_setindex", "_call", "_mcall", "_mktable",
    )
}


def compile_lua(src: str) -> Callable[..., list[Any]]:
    py = _HoistingCompiler(src).compile()
    ns = dict(_RUNTIME)
    try:
        exec(compile(py, "<lua>", "exec"), ns)
    except SyntaxError as e:  # pragma: no cover
        raise LuaSyntaxError(f"{e}\n{py}")
    return ns["_chunk"]
