"""Run LLVM IR of the C++ kernels over symbolic values.

Addresses and loop counters are numbers; data are words of `anf`, opaque terms (outputs of AES rounds and keys) or unknown
integers of the engine.  Memory is a map of cells inside allocated objects; an access outside every object is reported."""

from __future__ import annotations

import functools
import os
import re
import subprocess

from . import anf, boot
from .anf import W, as_bits
from .sym import SymBool, SymInt

FLAGS = ["-O1", "-S", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-exceptions", "-fno-inline-functions", "-mpclmul", "-maes", "-msse4.1"]


class Unsupported(Exception):
    pass


class OutOfBounds(Exception):
    pass


class Opaque:
    """A value known only as an expression: equal expressions are equal values."""

    def __init__(self, *key):
        self.key = key

    def __repr__(self):
        return f"<{self.key[0]}>"


@functools.lru_cache(None)
def compile_ir(path, extra=()):
    r = subprocess.run(["clang++", *FLAGS, *extra, "-o", "-", path], capture_output=True, text=True, timeout=120)
    if r.returncode:
        raise Unsupported("clang: " + r.stderr[-300:])
    return Module(r.stdout)


def shared(paths, out):
    r = subprocess.run(["g++", "-O2", "-shared", "-fPIC", "-mpclmul", "-maes", "-msse4.1", "-o", out, *paths], capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise Unsupported("g++: " + r.stderr[-300:])
    return out


def kernels(name):
    return os.path.join(boot.REPO, "mplang", "kernels", name)


TYPE = r"(?:<\d+ x i\d+>|\[\d+ x [^\]]+\]|i\d+|ptr|void|%\"[^\"]+\"|%[\w.:]+)"


class Module:
    def __init__(self, text):
        self.structs, self.funcs, self.packed = {}, {}, set()
        for m in re.finditer(r"^(%\"[^\"]+\"|%[\w.:]+) = type (<?)\{(.*)\}>?$", text, re.M):
            self.structs[m[1]] = [t.strip() for t in split(m[3])]
            if m[2]:
                self.packed.add(m[1])
        for m in re.finditer(r"^define [^\n]*?(" + TYPE + r") @([\w.]+)\(([^\n]*)\)[^()\n]*\{\n(.*?)^\}", text, re.M | re.S):
            args = [(re.match(TYPE, a.strip())[0], a.strip().split()[-1]) for a in split(m[3]) if a.strip()]
            blocks, cur = {}, None
            for line in m[4].splitlines():
                line = line.split(" ; ")[0].split(", !")[0].rstrip()
                if ";" in line and line.lstrip().startswith(";"):
                    continue
                b = re.match(r"^([\w.]+):", line)
                if b:
                    cur = b[1]
                    blocks[cur] = []
                elif line.strip():
                    if cur is None:
                        cur = "entry"
                        blocks[cur] = []
                    if cur and blocks[cur] and open_switch(blocks[cur][-1]):
                        blocks[cur][-1] += " " + line.strip()
                    else:
                        blocks[cur].append(line.strip())
            self.funcs[m[2]] = (m[1], args, blocks)

    def size(self, t):
        if t == "ptr":
            return 8
        if t.startswith("i"):
            return max(1, int(t[1:]) // 8)
        m = re.match(r"[<\[](\d+) x (.+)[>\]]$", t)
        if m:
            return int(m[1]) * self.size(m[2])
        if t in self.packed:
            return sum(self.size(f) for f in self.structs[t])
        if t in self.structs:
            off = 0
            for f in self.structs[t]:
                a = min(8, self.size(f))
                off = (off + a - 1) // a * a + self.size(f)
            big = max(min(8, self.size(f)) for f in self.structs[t])
            return (off + big - 1) // big * big
        raise Unsupported("type " + t)


def open_switch(s):
    return s.startswith("switch") and "[" in s and "]" not in s


def split(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "<[({":
            depth += 1
        if c in ">])}":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur] if cur.strip() else out


def width(t):
    return 64 if t == "ptr" else int(t[1:])


class Machine:
    def __init__(self, E, mod, max_steps=200000):
        self.E, self.mod, self.left = E, mod, max_steps
        self.cells, self.objs, self.next = {}, [], 1 << 20
        self.pos = {}

    # ---- memory
    def alloc(self, size, values=None, step=8):
        base = self.next
        self.next += ((size + 0xFFF) // 0x1000 + 2) * 0x1000
        self.objs.append((base, size))
        for i, v in enumerate(values or ()):
            self.cells[base + i * step] = (step, v)
        return base

    def within(self, a, n):
        if not any(b <= a and a + n <= b + s for b, s in self.objs):
            raise OutOfBounds(f"{n} bytes at {a:#x}")

    def fix(self, v):
        return int(v) if isinstance(v, SymInt) else v

    def store(self, a, n, v):
        a = self.fix(a)
        self.within(a, n)
        for k in range(a - 7, a + n):
            c = self.cells.get(k)
            if c and k + c[0] > a and not (k == a and c[0] == n):
                self.bytes_of(k)
        for k in range(a, a + n):
            self.cells.pop(k, None)
        self.cells[a] = (n, v)

    def bytes_of(self, k):
        """Split a cell into bytes."""
        n, v = self.cells.pop(k)
        if isinstance(v, (Opaque, SymInt)):
            raise Unsupported("part of an opaque word")
        b = as_bits(v, 8 * n)
        for i in range(n):
            self.cells[k + i] = (1, W(b[8 * i : 8 * i + 8]).small())

    def load(self, a, n):
        a = self.fix(a)
        self.within(a, n)
        c = self.cells.get(a)
        if c and c[0] == n:
            return c[1]
        bits = []
        for k in range(a - 7, a + n):
            c = self.cells.get(k)
            if c and c[0] > 1 and k + c[0] > a:
                self.bytes_of(k)
        for k in range(a, a + n):
            c = self.cells.get(k)
            if c is None:
                raise Unsupported("uninitialised memory is read")
            bits += as_bits(c[1], 8)
        return W(bits).small()

    # ---- values
    def const(self, t, s):
        s = s.strip()
        m = re.match(r"<(\d+) x (.+)>$", t)
        if m:
            n = int(m[1])
            if s in ("zeroinitializer", "undef", "poison"):
                return [0] * n
            if s.startswith("<"):
                return [self.const(*x.strip().split(None, 1)) for x in split(s[1:-1])]
            k = re.match(r"splat \(i\d+ (-?\d+)\)", s)
            if k:
                return [int(k[1])] * n
            raise Unsupported(s)
        if s in ("null", "undef", "poison", "false", "zeroinitializer"):
            return 0
        if s == "true":
            return 1
        if s.startswith("@"):
            return 0xDEAD0000
        return int(s) & ((1 << width(t)) - 1)

    def val(self, env, t, s):
        s = s.strip()
        return env[s] if s.startswith("%") else self.const(t, s)

    def operand(self, env, s):
        """'<type> [attributes] <value>'"""
        s = s.strip()
        m = re.match(TYPE, s)
        rest = s[m.end() :].strip()
        rest = re.sub(r"^(?:(?:noundef|nonnull|readonly|nocapture|noalias|writeonly|immarg|align \d+|dereferenceable\(\d+\)|signext|zeroext|captures\([\w, ]+\)|dead_on_unwind|dead_on_return|writable|nofree|noundef|(?:sret|byval)\([^)]*\))\s+)*", "", rest)
        return self.val(env, m[0], rest)

    # ---- running
    def call(self, name, args):
        ret, params, blocks = self.mod.funcs[name]
        env = {p: a for (_, p), a in zip(params, args)}
        at = next(iter(blocks))
        prev = None if at != "entry" else str(len(params))
        if prev is not None:
            alias = {at: prev}
        else:
            alias = {}
        prev = None
        while True:
            phis = {}
            for ins in blocks[at]:
                self.left -= 1
                if self.left < 0:
                    raise Unsupported("too many steps")
                m = re.match(r"(%[\w.]+) = phi (" + TYPE + r") (.*)$", ins)
                if m:
                    for k in re.finditer(r"\[ (.+?), %([\w.]+) \]", m[3]):
                        if k[2] == prev:
                            phis[m[1]] = self.val(env, m[2], k[1])
                    continue
                if phis:
                    env.update(phis)
                    phis = {}
                if ins.startswith("ret"):
                    return None if ins == "ret void" else self.operand(env, ins[4:])
                if ins.startswith("br "):
                    m = re.match(r"br i1 (\S+), label %([\w.]+), label %([\w.]+)", ins)
                    prev = alias.get(at, at)
                    if m:
                        c = self.val(env, "i1", m[1])
                        at = m[2] if self.truth(c) else m[3]
                    else:
                        at = re.match(r"br label %([\w.]+)", ins)[1]
                    break
                if ins.startswith("switch"):
                    m = re.match(r"switch (i\d+) (\S+), label %([\w.]+) \[(.*)\]", ins)
                    v = self.fix(self.val(env, m[1], m[2]))
                    prev, go = alias.get(at, at), m[3]
                    for k in re.finditer(r"i\d+ (-?\d+), label %([\w.]+)", m[4]):
                        if v == int(k[1]) & ((1 << width(m[1])) - 1):
                            go = k[2]
                    at = go
                    break
                if ins.startswith("unreachable"):
                    raise OutOfBounds("unreachable code is reached")
                self.step(env, ins)
            else:
                raise Unsupported("block without end")

    @staticmethod
    def truth(c):
        if isinstance(c, (SymBool, bool)):
            return bool(c)
        if isinstance(c, (W, Opaque)):
            raise Unsupported("branch on data")
        return bool(c & 1) if not isinstance(c, SymInt) else bool(c != 0)

    def step(self, env, ins):
        m = re.match(r"(%[\w.]+) = (.*)$", ins)
        dst, body = (m[1], m[2]) if m else (None, ins)
        body = re.sub(r"^(tail|musttail|notail) ", "", body)
        op = body.split(None, 1)[0]
        if op == "call":
            r = self.do_call(env, body)
        elif op == "store":
            v, p = split(body[6:])[:2]
            t = re.match(TYPE, v.strip())[0]
            val, a = self.operand(env, v), self.operand(env, p)
            if isinstance(val, list):
                e = self.mod.size(t) // len(val)
                a = self.fix(a)
                for i, x in enumerate(val):
                    self.store(a + i * e, e, x)
            else:
                self.store(a, self.mod.size(t), val)
            return
        elif op == "load":
            t, p = split(body[5:])[:2]
            t = t.strip()
            a = self.operand(env, p)
            k = re.match(r"<(\d+) x (.+)>$", t)
            if p.strip().split()[-1].startswith("@"):
                r = 0xDEAD1000
            elif k:
                e = self.mod.size(k[2])
                a = self.fix(a)
                r = [self.load(a + i * e, e) for i in range(int(k[1]))]
            else:
                r = self.load(a, self.mod.size(t))
        elif op == "alloca":
            r = self.alloc(self.mod.size(re.match(TYPE, body[7:].strip())[0]))
        elif op == "getelementptr":
            parts = split(re.sub(r"^getelementptr (inbounds |nuw |nusw )*", "", body))
            t, r = parts[0].strip(), self.operand(env, parts[1])
            for i, ix in enumerate(parts[2:]):
                v = self.operand(env, ix)
                if isinstance(v, int) and not isinstance(v, SymInt):
                    w = width(re.match(TYPE, ix.strip())[0])
                    v = v - (1 << w) if v >> (w - 1) else v
                if i == 0:
                    r = r + v * self.mod.size(t)
                elif t in self.mod.structs:
                    off = 0
                    for f in self.mod.structs[t][: v + 1]:
                        a = min(8, self.mod.size(f))
                        off, last = (off + a - 1) // a * a, self.mod.size(f)
                        off += last
                    r, t = r + off - last, self.mod.structs[t][v]
                else:
                    t = re.match(r"[<\[]\d+ x (.+)[>\]]$", t)[1]
                    r = r + v * self.mod.size(t)
        elif op == "icmp":
            _, cc, rest = body.split(None, 2)
            cc2, rest2 = (rest.split(None, 1) if cc == "samesign" else (cc, rest))
            a, b = split(rest2)
            t = re.match(TYPE, a.strip())[0]
            r = self.icmp(cc2, t, self.operand(env, a), self.val(env, t, b))
        elif op == "select":
            c, a, b = (self.operand(env, x) for x in split(body[7:]))
            if isinstance(c, SymBool) and isinstance(a, int) and isinstance(b, int):
                r = self.E.ite(c, a, b)
            else:
                r = a if self.truth(c) else b
        elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            r = self.cast(env, op, body)
        elif op == "shufflevector":
            a, b, k = split(body[14:])
            n = int(re.match(r"\s*<(\d+)", a)[1])
            va, vb = self.operand(env, a), self.operand(env, b)
            mask = self.operand(env, k)
            r = [(va + vb)[i % (2 * n)] for i in mask]
        elif op == "extractelement":
            v, i = (self.operand(env, x) for x in split(body[15:]))
            r = v[self.fix(i)]
        elif op == "insertelement":
            v, x, i = (self.operand(env, y) for y in split(body[14:]))
            r = [*v]
            r[self.fix(i)] = x
        else:
            rest = re.sub(r"^(?:(?:nuw|nsw|exact|disjoint|nneg) )*", "", body.split(None, 1)[1])
            a, b = split(rest)
            t = re.match(TYPE, a.strip())[0]
            x, y = self.operand(env, a), self.val(env, t, b)
            if isinstance(x, list):
                w = width(re.match(r"<\d+ x (.+)>$", t)[1])
                r = [self.arith(op, w, p, q) for p, q in zip(x, y)]
            else:
                r = self.arith(op, width(t), x, y)
        if dst:
            env[dst] = r

    def cast(self, env, op, body):
        if op == "freeze":
            return self.operand(env, body[7:])
        m = re.match(op + r" (?:nneg |nuw |nsw )*(.*) to (" + TYPE + ")", body)
        v, t = self.operand(env, m[1]), m[2]
        f = re.match(TYPE, m[1].strip())[0]
        if op == "bitcast":
            k = re.match(r"<(\d+) x i(\d+)>$", t)
            g = re.match(r"<(\d+) x i(\d+)>$", f)
            if not (k and g):
                raise Unsupported(body)
            bits = [x for e in v for x in as_bits(e, int(g[2]))]
            w = int(k[2])
            return [W(bits[i * w : (i + 1) * w]).small() for i in range(int(k[1]))]
        if op in ("ptrtoint", "inttoptr"):
            return v
        if isinstance(v, SymBool):
            v = self.E.ite(v, 1, 0)
            return v
        if isinstance(v, (SymInt, Opaque)):
            if isinstance(v, Opaque) and op != "zext":
                raise Unsupported("part of an opaque word")
            return v  # unknown integers stay within every width they pass through
        fw, tw = width(f), width(t)
        if isinstance(v, W):
            b = as_bits(v, fw)
            return W(b[:tw] if op == "trunc" else b + [b[-1] if op == "sext" else anf.ZERO] * (tw - fw)).small()
        v = int(v)
        if op == "sext" and v >> (fw - 1):
            v -= 1 << fw
        return v & ((1 << tw) - 1)

    def icmp(self, cc, t, a, b):
        if isinstance(a, (W, Opaque)) or isinstance(b, (W, Opaque)):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.key == b.key and cc in ("eq", "ne"):
                return cc == "eq"
            raise Unsupported("comparison of data")
        w = width(t)
        if cc.startswith("s"):
            sg = lambda v: v if isinstance(v, SymInt) else v - (1 << w) if v >> (w - 1) else v
            a, b = sg(a), sg(b)
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            a, b = (self.E.ite(x, 1, 0) if isinstance(x, SymBool) else x for x in (a, b))
        c = cc[1:] if cc[0] in "us" and cc not in ("ult",) or cc == "ult" else cc
        return {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[c]()

    def arith(self, op, w, a, b):
        mask = (1 << w) - 1
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            ka, kb = (x.key if isinstance(x, Opaque) else x for x in (a, b))
            if op == "urem" and isinstance(b, int):
                return self.position(ka, int(b))
            if op in ("xor", "add", "mul", "or", "and"):
                return Opaque(op, *sorted((ka, kb), key=repr))
            return Opaque(op, ka, kb)
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            if op in ("and", "or", "xor"):
                x, y = (v if isinstance(v, (SymBool, bool)) else bool(v) for v in (a, b))
                return {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y}[op]()
            raise Unsupported(op)
        if isinstance(a, SymInt) or isinstance(b, SymInt):
            if op in ("add", "sub", "mul", "urem", "udiv"):
                return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "urem": lambda: a % b, "udiv": lambda: a // b}[op]()
            if op == "shl" and not isinstance(b, SymInt):
                return a * (1 << b)
            a, b = self.fix(a), self.fix(b)
        if isinstance(a, W) or isinstance(b, W):
            if op == "xor":
                return anf.wxor(a, b, w)
            if op == "and":
                return anf.wand(a, b, w)
            if op == "or":
                return anf.wor(a, b, w)
            if op in ("shl", "lshr") and not isinstance(b, W):
                return (anf.wshl if op == "shl" else anf.wshr)(a, int(b), w)
            if op == "add":
                return anf.wadd(a, b, w)
            raise Unsupported(op + " of data")
        a, b = int(a), int(b)
        sg = lambda v: v - (1 << w) if v >> (w - 1) else v
        if op in ("udiv", "urem", "sdiv", "srem") and b == 0:
            raise OutOfBounds("division by zero")
        if op in ("sdiv", "srem"):
            x, y = sg(a), sg(b)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == "sdiv" else x - q * y) & mask
        f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
             "shl": lambda: a << b, "lshr": lambda: a >> b, "ashr": lambda: sg(a) >> b, "udiv": lambda: a // b, "urem": lambda: a % b}
        if op not in f:
            raise Unsupported(op)
        return f[op]() & mask

    def position(self, key, m):
        """An opaque number modulo m: any value, the same one for the same expression."""
        if m & (m - 1) == 0 and key[0] == "xor":
            a, b = (int(self.position(k, m) if isinstance(k, tuple) else k) & (m - 1) for k in key[1:])
            return a ^ b
        k = (repr(key), m)
        if k not in self.pos:
            self.pos[k] = self.E.int(f"pos{len(self.pos)}", 0, m - 1)
        return self.pos[k]

    def do_call(self, env, body):
        m = re.match(r"call .*?@([\w.]+)\((.*)\)", body)
        name = m[1]
        raw = split(m[2])
        if name.startswith("llvm.lifetime") or name.startswith("llvm.assume") or name.startswith("_ZdlPv") or name == "free" or name.startswith("llvm.experimental"):
            return None
        if name in ("fprintf", "printf", "fwrite", "fputs", "puts"):
            return 0
        args = [self.operand(env, a) for a in raw]
        if name == "llvm.x86.pclmulqdq":
            a, b, i = args
            return clmul(a[i & 1], b[i >> 4 & 1])
        if name.startswith("llvm.x86.aesni."):
            ks = tuple(tuple(x.key if isinstance(x, Opaque) else x.key() if isinstance(x, W) else x for x in a) if isinstance(a, list) else a for a in args)
            return [Opaque(name, ks, 0), Opaque(name, ks, 1)]
        if name in ("_Znwm", "malloc", "_Znam"):
            return self.alloc(self.fix(args[0]))
        if name.startswith("llvm.memset"):
            a, v, n = self.fix(args[0]), args[1], self.fix(args[2])
            self.fill(a, n, v)
            return None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            d, s, n = (self.fix(x) for x in args[:3])
            self.copy(d, s, n)
            return None
        if re.match(r"llvm\.u(max|min)\.", name):
            a, b = map(self.fix, args)
            return max(a, b) if "umax" in name else min(a, b)
        if re.match(r"llvm\.s(max|min)\.", name):
            a, b = map(self.fix, args)
            w = int(name.rsplit("i", 1)[1])
            sg = lambda v: v - (1 << w) if v >> (w - 1) else v
            return (max if "smax" in name else min)(a, b, key=sg)
        if name.startswith("_ZSt20__throw"):
            raise OutOfBounds(name)
        if name in self.mod.funcs:
            return self.call(name, args)
        raise Unsupported("call of " + name)

    def fill(self, a, n, v):
        if n == 0:
            return
        self.within(a, n)
        for k in range(a - 7, a + n):
            c = self.cells.get(k)
            if c and (k < a < k + c[0] or k < a + n < k + c[0]):
                self.bytes_of(k)
        for k in range(a, a + n):
            self.cells.pop(k, None)
        k = a
        while k < a + n:
            e = 4 if k + 4 <= a + n else 1
            self.cells[k] = (e, int.from_bytes(bytes([v]) * e, "little"))
            k += e

    def copy(self, d, s, n):
        if n == 0:
            return
        self.within(d, n)
        self.within(s, n)
        got = {k: self.cells[k] for k in range(s, s + n) if k in self.cells and k + self.cells[k][0] <= s + n}
        for k in range(d, d + n):
            self.cells.pop(k, None)
        for k, c in got.items():
            self.cells[k - s + d] = c


def clmul(a, b):
    x, y = as_bits(a, 64), as_bits(b, 64)
    out = [set() for _ in range(128)]
    for i, p in enumerate(x):
        if p:
            for j, q in enumerate(y):
                if q:
                    out[i + j] ^= anf.conj(p, q)
    out = [frozenset(o) for o in out]
    return [W(out[:64]).small(), W(out[64:]).small()]
