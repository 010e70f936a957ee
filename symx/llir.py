"""LLVM IR text (clang/opt 18, opaque pointers) -> Python functions over symbolic values."""
import os
import re
import shutil
import subprocess

from .core import EngineError

PASSES = (
    "function(sroa),cgscc(inline),globaldce,function(sroa,loop-simplify,lcssa,loop(loop-rotate),"
    "loop-mssa(licm),sroa,loop(loop-idiom,loop-deletion),dce,adce,"
    "simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp;bonus-inst-threshold=0>)"
)


def to_ir(src, workdir):
    base = os.path.join(workdir, os.path.basename(src))
    a, b = base + ".a.ll", base + ".ll"
    subprocess.run(
        ["clang", "-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes", "-fwrapv", "-DNDEBUG", "-g0", "-w",
         "-I/usr/include/python3.12", src, "-o", a],
        check=True, capture_output=True, text=True,
    )
    opt = shutil.which("opt") or shutil.which("opt-18") or "/usr/lib/llvm-18/bin/opt"
    subprocess.run([opt, "-S", "-passes=" + PASSES, a, "-o", b], check=True, capture_output=True, text=True)
    with open(b) as f:
        return f.read()


# ---------------------------------------------------------------- lexer / types
TOK = re.compile(
    r'\s*(?:(c"(?:[^"\\]|\\.)*")|("(?:[^"\\]|\\.)*")|([%@!#][-a-zA-Z$._0-9]+|[%@]"[^"]*")|(-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|'
    r"(\.\.\.)|([a-zA-Z_$.][-a-zA-Z0-9_$.]*)|([\[\]{}()<>,=*:!|]))"
)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise EngineError("IR lexer: %r" % s[i : i + 40])
        out.append(m.group().strip())
        i = m.end()
    return out


class Ty:
    __slots__ = ("k", "w", "n", "e", "fs", "size", "align", "offs")


def t_int(w):
    t = Ty()
    t.k, t.w = "i", w
    t.size = (w + 7) // 8
    if t.size not in (1, 2, 4, 8):
        t.size = 8 if t.size < 8 else 16
    t.align = min(t.size, 8) if w <= 64 else 16
    return t


def t_ptr():
    t = Ty()
    t.k, t.w, t.size, t.align = "p", 64, 8, 8
    return t


def t_arr(n, e):
    t = Ty()
    t.k, t.n, t.e = "a", n, e
    t.size = n * e.size
    t.align = e.align
    return t


def t_struct(fs, packed=False):
    t = Ty()
    t.k, t.fs = "s", fs
    off = 0
    al = 1
    offs = []
    for f in fs:
        if not packed:
            al = max(al, f.align)
            off = (off + f.align - 1) // f.align * f.align
        offs.append(off)
        off += f.size
    off = (off + al - 1) // al * al
    t.size, t.align, t.offs = off, al, offs
    return t


def t_void():
    t = Ty()
    t.k, t.size, t.align, t.w = "v", 0, 1, 0
    return t


class IRModule:
    def __init__(self, text):
        self.structs_src = {}
        self.structs = {}
        self.globals = {}  # name -> (Ty, init tokens or None, const)
        self.funcs = {}  # name -> (ret, params, lines)
        self.decls = {}
        self._parse(text)

    # ---- types
    def ty(self, tk, i):
        """parse a type from tokens at i -> (Ty, next)"""
        t = tk[i]
        if t == "void":
            return t_void(), i + 1
        if t == "ptr":
            i += 1
            if i < len(tk) and tk[i] == "addrspace":
                i += 4
            return t_ptr(), i
        if re.fullmatch(r"i\d+", t):
            return t_int(int(t[1:])), i + 1
        if t in ("double", "float"):
            x = t_int(64 if t == "double" else 32)
            x.k = "f"
            return x, i + 1
        if t == "[":
            n = int(tk[i + 1])
            e, i = self.ty(tk, i + 3)
            assert tk[i] == "]"
            return t_arr(n, e), i + 1
        if t == "{":
            fs = []
            i += 1
            while tk[i] != "}":
                f, i = self.ty(tk, i)
                fs.append(f)
                if tk[i] == ",":
                    i += 1
            return t_struct(fs), i + 1
        if t == "<":
            if tk[i + 1] == "{":
                fs = []
                i += 2
                while tk[i] != "}":
                    f, i = self.ty(tk, i)
                    fs.append(f)
                    if tk[i] == ",":
                        i += 1
                return t_struct(fs, True), i + 2
            raise EngineError("vector type")
        if t[0] == "%":
            r = self.structs.get(t)
            if r is None:
                src = self.structs_src[t]
                if src == ["opaque"]:
                    r = t_struct([])
                else:
                    r, _ = self.ty(src, 0)
                self.structs[t] = r
            return r, i + 1
        raise EngineError("type %r" % (tk[i : i + 4],))

    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln or ln[0] == ";":
                continue
            if ln.startswith("%") and " = type " in ln:
                tk = lex(ln)
                self.structs_src[tk[0]] = tk[3:]
            elif ln.startswith("@"):
                tk = lex(ln)
                name = tk[0]
                j = 2
                ext = False
                while tk[j] not in ("global", "constant", "alias"):
                    if tk[j] in ("external", "extern_weak"):
                        ext = True
                    j += 1
                const = tk[j] == "constant"
                ty, k = self.ty(tk, j + 1)
                self.globals[name] = (ty, None if ext else (tk, k), const)
            elif ln.startswith("declare"):
                m = re.search(r"@[-a-zA-Z$._0-9]+", ln)
                self.decls[m.group()] = ln
            elif ln.startswith("define"):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                m = re.search(r"(@[-a-zA-Z$._0-9]+)\((.*)\)[^()]*\{$", ln)
                name = m.group(1)
                params = []
                head = lex(ln[: m.start()])
                rty = None
                for q in range(len(head)):
                    try:
                        cand, e = self.ty(head, q)
                    except (EngineError, IndexError, KeyError):
                        continue
                    if e == len(head):
                        rty = cand
                        break
                ptk = lex(m.group(2))
                depth = 0
                cur = []
                parts = []
                for t in ptk:
                    if t in "([{<":
                        depth += 1
                    elif t in ")]}>":
                        depth -= 1
                    if t == "," and depth == 0:
                        parts.append(cur)
                        cur = []
                    else:
                        cur.append(t)
                if cur:
                    parts.append(cur)
                va = False
                for p in parts:
                    if p == ["..."]:
                        va = True
                        continue
                    pt, _ = self.ty(p, 0)
                    params.append((pt, p[-1]))
                self.funcs[name] = (rty, params, body, va)


# ---------------------------------------------------------------- code generation
ATTRS = {
    "noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "writeonly", "readnone",
    "returned", "immarg", "inreg", "nofree", "allocptr", "allocalign", "nest", "swiftself", "noreturn", "writable",
    "dead_on_unwind",
}
PATTRS = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "captures"}


def pyname(n):
    return "v_" + re.sub(r"[^a-zA-Z0-9]", lambda m: "_%x_" % ord(m.group()), n.strip('%"'))


class FnGen:
    def __init__(self, mod, name, gaddr, faddr):
        self.m = mod
        self.name = name
        self.gaddr = gaddr
        self.faddr = faddr
        self.rty, self.params, self.body, self.va = mod.funcs[name]

    def addr_of(self, g):
        if g in self.gaddr:
            return self.gaddr[g]
        if g in self.faddr:
            return self.faddr[g]
        raise EngineError("unknown global %s" % g)

    # constant expressions / operands; returns python source text
    def val(self, tk, i, ty):
        t = tk[i]
        if t[0] == "%":
            return pyname(t), i + 1
        if t[0] == "@":
            return str(self.addr_of(t)), i + 1
        if re.fullmatch(r"-?\d+", t):
            if ty.k == "i" and ty.w == 1:
                return ("True" if int(t) & 1 else "False"), i + 1
            return str(int(t) & ((1 << ty.w) - 1)), i + 1
        if t in ("null", "zeroinitializer"):
            return ("False" if ty.k == "i" and ty.w == 1 else "0"), i + 1
        if t == "true":
            return "True", i + 1
        if t == "false":
            return "False", i + 1
        if t in ("undef", "poison"):
            return "UNDEF", i + 1
        if t == "getelementptr":
            v, i = self.const_gep(tk, i)
            return str(v), i
        if t in ("ptrtoint", "inttoptr", "bitcast"):
            ty0, j = self.m.ty(tk, i + 2)
            v, j = self.val(tk, j, ty0)
            assert tk[j] == "to"
            _, j = self.m.ty(tk, j + 1)
            return v, j + 1
        raise EngineError("operand %r in %s" % (tk[i : i + 5], self.name))

    def const_gep(self, tk, i):
        j = i + 1
        while tk[j] != "(":
            j += 1
        ty, j = self.m.ty(tk, j + 1)
        assert tk[j] == ","
        pty, j = self.m.ty(tk, j + 1)
        base, j = self.val(tk, j, pty)
        off = 0
        cur = ty
        first = True
        while tk[j] == ",":
            ity, j = self.m.ty(tk, j + 1)
            v, j = self.val(tk, j, ity)
            k = int(v)
            if k >> (ity.w - 1):
                k -= 1 << ity.w
            if first:
                off += k * cur.size
                first = False
            elif cur.k == "s":
                off += cur.offs[k]
                cur = cur.fs[k]
            else:
                off += k * cur.e.size
                cur = cur.e
        assert tk[j] == ")"
        return int(base) + off, j + 1

    def tyval(self, tk, i):
        ty, i = self.m.ty(tk, i)
        i = self.skip_attrs(tk, i)
        v, i = self.val(tk, i, ty)
        return ty, v, i

    def skip_attrs(self, tk, i):
        while i < len(tk):
            if tk[i] in ATTRS:
                i += 1
            elif tk[i] in PATTRS:
                i += 1
                if i < len(tk) and tk[i] == "(":
                    d = 0
                    while True:
                        if tk[i] == "(":
                            d += 1
                        elif tk[i] == ")":
                            d -= 1
                        i += 1
                        if d == 0:
                            break
                elif i < len(tk) and re.fullmatch(r"\d+", tk[i]):
                    i += 1
            else:
                break
        return i

    def gen(self):
        # split in blocks
        blocks = []
        cur = None
        nparams = len(self.params)
        first_label = None
        lines = list(self.body)
        k = 0
        while k < len(lines):
            ln = lines[k]
            k += 1
            if not ln.strip():
                continue
            m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', ln)
            if m:
                cur = ["%" + m.group(1).strip('"'), []]
                blocks.append(cur)
                continue
            if cur is None:
                cur = ["%" + str(nparams) if not first_label else first_label, []]
                blocks.append(cur)
            ln = ln.strip()
            if ln.startswith("switch") and ln.endswith("["):
                while lines[k].strip() and not lines[k].strip().startswith("]"):
                    ln += " " + lines[k].strip()
                    k += 1
                ln += " " + lines[k].strip()
                k += 1
            cur[1].append(ln)
        self.labels = {b[0]: n for n, b in enumerate(blocks)}
        self.blocks = []
        for lab, body in blocks:
            ins = []
            for ln in body:
                # strip metadata and comments
                ln = re.sub(r'\s*;[^"]*$', "", ln)
                ln = re.sub(r", ![a-zA-Z.]+ ![0-9]+", "", ln)
                ln = re.sub(r"\s#\d+(?=$|\s*[,\[])", "", ln)
                ins.append(lex(ln))
            self.blocks.append(ins)
        # phis
        self.phis = []
        for ins in self.blocks:
            ph = {}
            while ins and len(ins[0]) > 2 and ins[0][2] == "phi":
                tk = ins.pop(0)
                dst = pyname(tk[0])
                ty, j = self.m.ty(tk, 3)
                while True:
                    assert tk[j] == "["
                    v, j = self.val(tk, j + 1, ty)
                    lab = tk[j + 1]
                    ph.setdefault(lab, []).append((dst, v))
                    j += 3
                    if j < len(tk) and tk[j] == ",":
                        j += 1
                    else:
                        break
            self.phis.append(ph)
        preds = {}
        for n, ins in enumerate(self.blocks):
            for tgt in self.targets(ins[-1]):
                preds.setdefault(tgt, []).append(n)
        self.preds = preds
        self.out = []
        self.emitted = set()
        self.done = {}
        names = ", ".join(pyname(p[1]) for p in self.params)
        self.names = [b[0] for b in blocks]
        # roots: entry, and blocks with several predecessors
        roots = [0] + [n for n in range(1, len(self.blocks)) if len(preds.get(n, [])) != 1]
        bodies = {}
        work = list(roots)
        seen = set()
        while work:
            r = work.pop(0)
            if r in seen:
                continue
            seen.add(r)
            self.cur_lines = []
            self.extra = []
            self.emit_block(r, 0)
            bodies[r] = self.cur_lines
            work += self.extra
        order = sorted(bodies)
        src = ["def f(M, %s):" % (names + ", *va" if self.va else names) if names or self.va else "def f(M):"]
        src.append("  al = []")
        src.append("  try:")
        src.append("   b = 0")
        src.append("   while True:")

        def tree(lo, hi, ind):
            if hi - lo == 1:
                src.extend(" " * ind + x for x in bodies[order[lo]])
                return
            mid = (lo + hi) // 2
            src.append(" " * ind + "if b < %d:" % order[mid])
            tree(lo, mid, ind + 1)
            src.append(" " * ind + "else:")
            tree(mid, hi, ind + 1)

        tree(0, len(order), 4)
        src.append("  finally:")
        src.append("   for a in al: M.free_stack(a)")
        return "\n".join(src)

    def targets(self, tk):
        r = []
        for i, t in enumerate(tk):
            if t == "label":
                r.append(self.labels["%" + tk[i + 1][1:].strip('"')])
        return r

    def jump(self, src, tgt, ind, depth):
        pre = " " * ind
        ph = self.phis[tgt]
        moves = ph.get(self.names[src], [])
        if moves:
            if len(moves) == 1:
                self.cur_lines.append(pre + "%s = %s" % moves[0])
            else:
                self.cur_lines.append(
                    pre + "%s = %s" % (", ".join(a for a, _ in moves), ", ".join(b for _, b in moves))
                )
        if len(self.preds.get(tgt, [])) == 1 and tgt != 0:
            if depth < 40:
                self.emit_block(tgt, ind, depth + 1)
                return
            self.extra.append(tgt)
        if tgt <= src:
            self.cur_lines.append(pre + "M.tick()")
        self.cur_lines.append(pre + "b = %d; continue" % tgt)

    def emit_block(self, n, ind, depth=0):
        pre = " " * ind
        for tk in self.blocks[n][:-1]:
            self.emit(tk, pre)
        self.term(n, self.blocks[n][-1], ind, depth)

    def term(self, n, tk, ind, depth):
        pre = " " * ind
        L = self.cur_lines
        op = tk[0]
        if op == "ret":
            if tk[1] == "void":
                L.append(pre + "return None")
            else:
                _, v, _ = self.tyval(tk, 1)
                L.append(pre + "return %s" % v)
        elif op == "br":
            if tk[1] == "label":
                self.jump(n, self.labels["%" + tk[2][1:].strip('"')], ind, depth)
            else:
                _, c, j = self.tyval(tk, 1)
                t1 = self.labels["%" + tk[j + 2][1:].strip('"')]
                t2 = self.labels["%" + tk[j + 5][1:].strip('"')]
                if t1 == t2:
                    self.jump(n, t1, ind, depth)
                    return
                L.append(pre + "if (%s if %s.__class__ is bool else M.br(%s)):" % (c, c, c))
                self.jump(n, t1, ind + 1, depth)
                L.append(pre + "else:")
                self.jump(n, t2, ind + 1, depth)
        elif op == "switch":
            ty, v, j = self.tyval(tk, 1)
            dflt = self.labels["%" + tk[j + 2][1:].strip('"')]
            j += 4
            cases = []
            while tk[j] != "]":
                cty, cv, j = self.tyval(tk, j)
                tgt = self.labels["%" + tk[j + 2][1:].strip('"')]
                cases.append((cv, tgt))
                j += 3
            kw = "if"
            L.append(pre + "sw = %s" % v)
            groups = {}
            for cv, tgt in cases:
                groups.setdefault(tgt, []).append(cv)
            for tgt, cvs in groups.items():
                if tgt == dflt:
                    continue
                cond = "(sw in (%s,)) if sw.__class__ is int else M.swin(sw, (%s,), %d)" % (
                    ", ".join(cvs), ", ".join(cvs), ty.w)
                L.append(pre + "%s %s:" % (kw, cond))
                self.jump(n, tgt, ind + 1, depth)
                kw = "elif"
            if kw == "if":
                self.jump(n, dflt, ind, depth)
            else:
                L.append(pre + "else:")
                self.jump(n, dflt, ind + 1, depth)
        elif op == "unreachable":
            L.append(pre + "M.unreachable()")
            L.append(pre + "return None")
        else:
            raise EngineError("terminator %s" % op)

    def emit(self, tk, pre):
        L = self.cur_lines
        dst = None
        i = 0
        if len(tk) > 1 and tk[1] == "=":
            dst = pyname(tk[0])
            i = 2
        op = tk[i]
        if op in ("tail", "musttail", "notail"):
            i += 1
            op = tk[i]
        i += 1
        if op == "load":
            while tk[i] in ("volatile", "atomic"):
                i += 1
            ty, i = self.m.ty(tk, i)
            _, p, _ = self.tyval(tk, i + 1)
            if ty.k == "i" and ty.w == 1:
                L.append(pre + "%s = M.loadb(%s)" % (dst, p))
            elif ty.k in ("i", "p"):
                L.append(pre + "%s = M.load(%s, %d)" % (dst, p, ty.size))
            else:
                raise EngineError("aggregate load")
        elif op == "store":
            while tk[i] in ("volatile", "atomic"):
                i += 1
            ty, v, i = self.tyval(tk, i)
            _, p, _ = self.tyval(tk, i + 1)
            if ty.k not in ("i", "p"):
                raise EngineError("aggregate store")
            if ty.k == "i" and ty.w == 1:
                v = "M.b2i(%s)" % v
            L.append(pre + "M.store(%s, %d, %s)" % (p, ty.size, v))
        elif op == "alloca":
            ty, i = self.m.ty(tk, i)
            cnt = "1"
            if i < len(tk) and tk[i] == "," and tk[i + 1] != "align":
                _, cnt, _ = self.tyval(tk, i + 1)
            L.append(pre + "%s = M.alloca(%d * M.conc(%s)); al.append(%s)" % (dst, ty.size, cnt, dst))
        elif op == "getelementptr":
            while tk[i] in ("inbounds", "nuw", "nusw"):
                i += 1
            ty, i = self.m.ty(tk, i)
            _, base, i = self.tyval(tk, i + 1)
            off = 0
            dyn = []
            cur = ty
            first = True
            while i < len(tk) and tk[i] == ",":
                ity, v, i = self.tyval(tk, i + 1)
                num = re.fullmatch(r"\d+", v)
                if num:
                    k = int(v)
                    if k >> (ity.w - 1):
                        k -= 1 << ity.w
                if first:
                    sz = cur.size
                    first = False
                elif cur.k == "s":
                    off += cur.offs[k]
                    cur = cur.fs[k]
                    continue
                else:
                    sz = cur.e.size
                    cur = cur.e
                if num:
                    off += k * sz
                else:
                    s = 1 << (ity.w - 1)
                    dyn.append("((M.conc(%s) ^ %d) - %d) * %d" % (v, s, s, sz))
            e = base
            if off:
                e += " + %d" % off
            for d in dyn:
                e += " + " + d
            if e != base:
                e = "(%s) & 0xffffffffffffffff" % e
            L.append(pre + "%s = %s" % (dst, e))
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            while tk[i] in ("nsw", "nuw", "exact", "disjoint"):
                i += 1
            ty, a, i = self.tyval(tk, i)
            b, i = self.val(tk, i + 1, ty)
            w = ty.w
            mask = (1 << w) - 1
            if w == 1:
                L.append(pre + "%s = M.bop1(%r, %s, %s)" % (dst, op, a, b))
                return
            fast = {
                "add": "(%s + %s) & %d" % (a, b, mask),
                "sub": "(%s - %s) & %d" % (a, b, mask),
                "mul": "(%s * %s) & %d" % (a, b, mask),
                "and": "%s & %s" % (a, b),
                "or": "%s | %s" % (a, b),
                "xor": "%s ^ %s" % (a, b),
            }.get(op)
            if fast is None:
                L.append(pre + "%s = M.bop(%r, %s, %s, %d)" % (dst, op, a, b, w))
            else:
                tests = " and ".join("%s.__class__ is int" % x for x in (a, b) if not x.isdigit()) or "True"
                L.append(pre + "%s = %s if %s else M.bop(%r, %s, %s, %d)" % (dst, fast, tests, op, a, b, w))
        elif op == "icmp":
            if tk[i] == "samesign":
                i += 1
            pred = tk[i]
            ty, a, i = self.tyval(tk, i + 1)
            b, i = self.val(tk, i + 1, ty)
            if ty.k == "i" and ty.w == 1:
                L.append(pre + "%s = M.icmp1(%r, %s, %s)" % (dst, pred, a, b))
                return
            w = ty.w
            S = 1 << (w - 1)
            o = {"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}.get(pred)
            if o:
                fast = "%s %s %s" % (a, o, b)
            else:
                o = {"slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}[pred]
                fast = "(%s ^ %d) %s (%s ^ %d)" % (a, S, o, b, S)
            tests = " and ".join("%s.__class__ is int" % x for x in (a, b) if not x.isdigit()) or "True"
            L.append(pre + "%s = (%s) if %s else M.icmp(%r, %s, %s, %d)" % (dst, fast, tests, pred, a, b, w))
        elif op in ("zext", "sext", "trunc"):
            while tk[i] in ("nneg", "nuw", "nsw"):
                i += 1
            ty, a, i = self.tyval(tk, i)
            t2, _ = self.m.ty(tk, i + 1)
            L.append(pre + "%s = M.cast(%r, %s, %d, %d)" % (dst, op, a, ty.w, t2.w))
        elif op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
            ty, a, i = self.tyval(tk, i)
            if op == "ptrtoint":
                t2, _ = self.m.ty(tk, i + 1)
                L.append(pre + "%s = M.cast('trunc', %s, 64, %d)" % (dst, a, t2.w))
            else:
                L.append(pre + "%s = %s" % (dst, a))
        elif op == "select":
            _, c, i = self.tyval(tk, i)
            _, a, i = self.tyval(tk, i + 1)
            _, b, i = self.tyval(tk, i + 1)
            L.append(pre + "%s = M.select(%s, %s, %s)" % (dst, c, a, b))
        elif op == "call":
            while tk[i] in ATTRS or tk[i] in PATTRS or tk[i] in ("fastcc", "ccc", "coldcc"):
                i = self.skip_attrs(tk, i) if tk[i] not in ("fastcc", "ccc", "coldcc") else i + 1
            rty, i = self.m.ty(tk, i)
            if tk[i] == "(":  # function type
                d = 0
                while True:
                    if tk[i] == "(":
                        d += 1
                    elif tk[i] == ")":
                        d -= 1
                    i += 1
                    if d == 0:
                        break
            callee = tk[i]
            i += 1
            assert tk[i] == "(", tk
            i += 1
            args = []
            meta = False
            while tk[i] != ")":
                if tk[i] == "metadata":
                    meta = True
                    break
                _, v, i = self.tyval(tk, i)
                args.append(v)
                if tk[i] == ",":
                    i += 1
            if meta:
                return
            res = (dst + " = ") if dst and rty.k != "v" else ""
            if callee[0] == "@":
                if callee in self.m.funcs:
                    L.append(pre + "%sM.F[%r](M, %s)" % (res, callee, ", ".join(args)))
                elif callee.startswith(("@llvm.lifetime", "@llvm.dbg", "@llvm.assume", "@llvm.experimental.noalias")):
                    return
                elif callee.startswith(("@llvm.memset", "@llvm.memcpy", "@llvm.memmove")):
                    L.append(pre + "M.%s(%s)" % (callee.split(".")[1], ", ".join(args[:3])))
                elif callee.startswith("@llvm."):
                    L.append(pre + "%sM.intrinsic(%r, %s)" % (res, callee, ", ".join(args)))
                else:
                    L.append(pre + "%sM.api(%r, %s)" % (res, callee[1:], ", ".join(args)))
            else:
                L.append(pre + "%sM.icall(%s, %s)" % (res, pyname(callee), ", ".join(args)))
        elif op == "extractvalue":
            raise EngineError("extractvalue")
        else:
            raise EngineError("instruction %s" % op)
