"""Engine B: contracts on the runtime's machine code.

The assembly source in the working tree is assembled and linked on every run; the resulting instructions (objdump) are
executed symbolically with z3 bit-vectors and arrays (exact for the integer subset, exact IEEE comparisons, uninterpreted
functions for floating-point arithmetic), one handler at a time from an arbitrary state satisfying its precondition, and
its contract's clauses are discharged as validity queries.  No bound: every path of a handler is covered; `rep movs` is a
lambda over the whole array; loops other than `rep` are cut by an invariant supplied with the contract.
"""
import os, re, subprocess, tempfile, time
from z3 import *

REPO = os.environ.get("VERIF_REPO", "/repo")
R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
SUB = {}
for _r in R64:
    SUB[_r] = (_r, 64)
for _a, _b, _c, _d in [("rax", "eax", "ax", "al"), ("rcx", "ecx", "cx", "cl"), ("rdx", "edx", "dx", "dl"), ("rbx", "ebx", "bx", "bl"),
                       ("rsp", "esp", "sp", "spl"), ("rbp", "ebp", "bp", "bpl"), ("rsi", "esi", "si", "sil"), ("rdi", "edi", "di", "dil")]:
    SUB[_b], SUB[_c], SUB[_d] = (_a, 32), (_a, 16), (_a, 8)
for _i in range(8, 16):
    SUB["r%dd" % _i], SUB["r%dw" % _i], SUB["r%db" % _i] = ("r%d" % _i, 32), ("r%d" % _i, 16), ("r%d" % _i, 8)
SIZES = {"BYTE": 8, "WORD": 16, "DWORD": 32, "QWORD": 64, "TBYTE": 80, "XMMWORD": 128}
BV = BitVecVal
B64 = lambda v: BV(v & (2**64 - 1), 64)


class Unsupported(Exception):
    pass


def uf(name, *sorts):
    return Function(name, *sorts)


S32, S64, S80 = BitVecSort(32), BitVecSort(64), BitVecSort(80)
FARITH = {}
for n in ("add", "sub", "mul", "div"):
    for w, s in ((32, S32), (64, S64), (80, S80)):
        FARITH[n, w] = uf("f%s%d" % (n, w), s, s, s)
F2LD, D2LD, I2LD = uf("f2ld", S32, S80), uf("d2ld", S64, S80), uf("i2ld", S64, S80)
LD2F, LD2D = uf("ld2f", S80, S32), uf("ld2d", S80, S64)
LD2I = uf("ld2i", BitVecSort(2), S80, S64)
LDNEG = lambda x: x ^ (BV(1, 80) << 79)
LT80, EQ80, UN80 = uf("lt80", S80, S80, BoolSort()), uf("eq80", S80, S80, BoolSort()), uf("un80", S80, S80, BoolSort())
LDZERO = BV(0, 80)
FS = {32: Float32(), 64: Float64()}


def fp(x):
    return fpBVToFP(x, FS[x.size()])


def ax80(a, b):
    """comparison axioms of the extended type, instantiated for one pair"""
    l, g, e, u = LT80(a, b), LT80(b, a), EQ80(a, b), UN80(a, b)
    return [Or(l, g, e, u), Not(And(l, g)), Not(And(l, e)), Not(And(l, u)), Not(And(g, e)), Not(And(g, u)), Not(And(e, u)),
            EQ80(b, a) == e, UN80(b, a) == u]


class State:
    def __init__(self):
        self.r = {n: BitVec(n + "0", 64) for n in R64}
        self.x = {i: BitVec("xmm%d_0" % i, 128) for i in range(16)}
        self.mem = Array("mem0", BitVecSort(64), BitVecSort(8))
        self.f = {k: Bool(k + "0") for k in "CF ZF SF OF PF".split()}
        self.df = False
        self.fpu = []
        self.cw = BitVec("cw0", 16)
        self.mxcsr = BitVec("mxcsr0", 32)
        self.pc = None
        self.path = []
        self.steps = 0
        self.fresh = 0
        self.obl = []  # side obligations (description, formula under path)

    def copy(self):
        s = State.__new__(State)
        s.__dict__ = dict(self.__dict__)
        s.r, s.x, s.f, s.fpu, s.path, s.obl = dict(self.r), dict(self.x), dict(self.f), list(self.fpu), list(self.path), list(self.obl)
        return s

    def ld(self, a, n):
        bs = [Select(self.mem, a + B64(i)) for i in range(n)]
        return bs[0] if n == 1 else Concat(*reversed(bs))

    def st(self, a, v):
        for i in range(v.size() // 8):
            self.mem = Store(self.mem, a + B64(i), Extract(8 * i + 7, 8 * i, v))

    def get(self, name):
        b, w = SUB[name]
        return self.r[b] if w == 64 else Extract(w - 1, 0, self.r[b])

    def set(self, name, v):
        b, w = SUB[name]
        if w == 64:
            self.r[b] = v
        elif w == 32:
            self.r[b] = ZeroExt(32, v)
        else:
            self.r[b] = Concat(Extract(63, w, self.r[b]), v)
        self.r[b] = simplify(self.r[b])


class Code:
    def __init__(self, src, wd):
        o, e = os.path.join(wd, "rt.o"), os.path.join(wd, "rt.elf")
        for cmd in (["as", src, "-o", o], ["ld", "-Ttext=0x400000", "-e", "0", o, "-o", e]):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                raise Unsupported("%s failed: %s" % (cmd[0], r.stderr[:400]))
        self.obj = o
        out = subprocess.run(["objdump", "-d", "-M", "intel", "--no-show-raw-insn", e], stdout=subprocess.PIPE, text=True).stdout
        self.ins, self.sym, self.order = {}, {}, []
        for line in out.splitlines():
            m = re.match(r"^([0-9a-f]+) <([^>]+)>:", line)
            if m:
                self.sym[m.group(2)] = int(m.group(1), 16)
                continue
            m = re.match(r"^\s*([0-9a-f]+):\s+(.*)$", line)
            if m:
                a = int(m.group(1), 16)
                t = m.group(2).split("#")
                tgt = re.search(r"([0-9a-f]+) <", t[1]) if len(t) > 1 else None
                self.ins[a] = (t[0].strip(), int(tgt.group(1), 16) if tgt else None)
                self.order.append(a)
        self.next = {a: b for a, b in zip(self.order, self.order[1:])}
        b = os.path.join(wd, "rt.bin")
        subprocess.run(["objcopy", "-O", "binary", "-j", ".text", e, b], check=True)
        self.text = open(b, "rb").read()
        self.base = 0x400000


def parity(x):
    p = BV(1, 1)
    for i in range(8):
        p = p ^ Extract(i, i, x)
    return p == BV(1, 1)


class Exec:
    """symbolic executor: run(state, pc) -> list of final states (control left the runtime through jmp [mem], jmp reg or ret)"""

    def __init__(self, code, pre, invariants=None, maxsteps=400, unroll=None):
        self.code, self.pre = code, pre
        self.solver = Solver()
        self.solver.set("timeout", 60000)
        self.solver.add(pre)
        self.inv = invariants or {}
        self.maxsteps = maxsteps
        self.unroll = unroll
        self.seen_ins = set()

    def feasible(self, path):
        self.solver.push()
        self.solver.add(path)
        r = self.solver.check()
        self.solver.pop()
        return r != unsat

    def ea(self, s, txt, tgt):
        t = txt.strip()
        if t.startswith("[") and "rip" in t:
            return B64(tgt)
        m = re.match(r"^(?:ds:)?(0x[0-9a-f]+)$", t)
        if m:
            return B64(int(m.group(1), 16))
        t = t.strip("[]")
        acc = B64(0)
        narrow = False
        for sg, part in re.findall(r"([+-]?)([^+-]+)", t):
            mm = re.match(r"^(\w+)\*(\d+)$", part)
            if mm:
                if SUB[mm.group(1)][1] != 64:
                    raise Unsupported("address " + txt)
                v = s.get(mm.group(1)) * int(mm.group(2))
            elif part in SUB:
                v = s.get(part)
                if v.size() == 32:
                    narrow = True
                    v = ZeroExt(32, v)
                elif v.size() != 64:
                    raise Unsupported("address " + txt)
            else:
                v = B64(int(part, 0))
            acc = acc - v if sg == "-" else acc + v
        if narrow:
            acc = ZeroExt(32, Extract(31, 0, acc))
        return simplify(acc)

    def memop(self, op):
        m = re.match(r"^(?:(\w+) PTR )?((?:ds:)?(?:\[.*\]|0x[0-9a-f]+))$", op)
        if m and (m.group(1) or op.startswith("[") or op.startswith("ds:")):
            return (SIZES[m.group(1)] if m.group(1) else None), m.group(2)
        return None

    def rd(self, s, op, tgt, w=None):
        op = op.strip()
        if op in SUB:
            return s.get(op)
        m = re.match(r"^xmm(\d+)$", op)
        if m:
            return s.x[int(m.group(1))]
        mo = self.memop(op)
        if mo:
            sz = mo[0] or w
            a = self.ea(s, mo[1], tgt)
            return self.load(s, a, sz)
        v = int(op, 0)
        if w is None:
            raise Unsupported("immediate without width: " + op)
        return BV(v & (2**w - 1), w)

    def load(self, s, a, sz):
        if is_bv_value(a):
            o = a.as_long() - self.code.base
            if 0 <= o and o + sz // 8 <= len(self.code.text):
                return BV(int.from_bytes(self.code.text[o:o + sz // 8], "little"), sz)
        return s.ld(a, sz // 8)

    def wr(self, s, op, v, tgt):
        op = op.strip()
        if op in SUB:
            s.set(op, v)
            return
        m = re.match(r"^xmm(\d+)$", op)
        if m:
            s.x[int(m.group(1))] = v
            return
        mo = self.memop(op)
        if not mo:
            raise Unsupported("write " + op)
        s.st(self.ea(s, mo[1], tgt), v)

    def width(self, op, other=None):
        for o in (op, other):
            if o and o.strip() in SUB:
                return SUB[o.strip()][1]
        for o in (op, other):
            mo = self.memop(o.strip()) if o else None
            if mo and mo[0]:
                return mo[0]
        raise Unsupported("width of " + op)

    def zsp(self, s, v):
        s.f["ZF"] = v == 0
        s.f["SF"] = Extract(v.size() - 1, v.size() - 1, v) == 1
        s.f["PF"] = Not(parity(v))

    def undef(self, s, *fl):
        for k in fl:
            s.fresh += 1
            s.f[k] = FreshBool("undef")

    def cond(self, s, cc):
        f = s.f
        base = {"e": f["ZF"], "z": f["ZF"], "b": f["CF"], "c": f["CF"], "a": And(Not(f["CF"]), Not(f["ZF"])), "l": f["SF"] != f["OF"],
                "g": And(Not(f["ZF"]), f["SF"] == f["OF"]), "s": f["SF"], "o": f["OF"], "p": f["PF"], "be": Or(f["CF"], f["ZF"]),
                "le": Or(f["ZF"], f["SF"] != f["OF"]), "ae": Not(f["CF"]), "ge": f["SF"] == f["OF"], "pe": f["PF"], "po": Not(f["PF"])}
        if cc in base:
            return base[cc]
        if cc.startswith("n") and cc[1:] in base:
            return Not(base[cc[1:]])
        raise Unsupported("condition " + cc)

    def addsub(self, s, a, b, sub, keepcf=False):
        n = a.size()
        r = a - b if sub else a + b
        if not keepcf:
            s.f["CF"] = ULT(a, b) if sub else ULT(r, a)
        sa, sb, sr = (Extract(n - 1, n - 1, x) for x in (a, b, r))
        s.f["OF"] = And(sa != sb, sr != sa) if sub else And(sa == sb, sr != sa)
        self.zsp(s, r)
        return r

    def run(self, s, entry):
        s.pc = entry
        work, done = [(s, {})], []
        while work:
            s, seen = work.pop()
            while True:
                s.steps += 1
                if s.steps > self.maxsteps:
                    raise Unsupported("step limit (loop without invariant?)")
                if s.pc in seen:  # back edge
                    inv = self.inv.get("loop")
                    if inv is not None:
                        if seen[s.pc] == "cut":
                            s.obl.append(("loop invariant preserved", inv(s)))
                            s.pc = None
                            done.append(("loop", s))
                            break
                        # first return to the head: check the invariant at first arrival was recorded; handled below
                    elif self.unroll is None:
                        raise Unsupported("loop without invariant")
                if self.inv.get("loop") is not None and s.pc in self.heads() and s.pc not in seen:
                    # establish, havoc, assume
                    s.obl.append(("loop invariant established", self.inv["loop"](s)))
                    s = s.copy()
                    self.inv["havoc"](s)
                    s.path.append(self.inv["loop"](s))
                    seen = dict(seen)
                    seen[s.pc] = "cut"
                else:
                    seen = dict(seen)
                    if self.unroll is None:
                        seen[s.pc] = seen.get(s.pc, "pass")
                if s.pc not in self.code.ins:
                    raise Unsupported("control flow leaves the text at %x" % s.pc)
                self.seen_ins.add(s.pc)
                txt, tgt = self.code.ins[s.pc]
                nxt = self.code.next.get(s.pc)
                out = self.step(s, txt, tgt, nxt)
                if out == "exit":
                    done.append(("exit", s))
                    break
                if isinstance(out, tuple):
                    c, t = out
                    c = simplify(c)
                    s2 = s.copy()
                    s.path.append(Not(c))
                    s2.path.append(c)
                    s2.pc, s.pc = t, nxt
                    if self.feasible(s2.path):
                        if t not in self.code.ins:
                            raise Unsupported("branch target")
                        work.append((s2, seen))
                    if not self.feasible(s.path):
                        break
                    continue
                s.pc = out if isinstance(out, int) else nxt
        return done

    def heads(self):
        if not hasattr(self, "_heads"):
            h = set()
            for a in self.code.order:
                m = re.match(r"^j\w+\s+(?:0x)?([0-9a-f]+) <", self.code.ins[a][0])
                if m and int(m.group(1), 16) <= a and not self.code.ins[a][0].startswith("jne") :
                    h.add(int(m.group(1), 16))
                elif m and int(m.group(1), 16) <= a:
                    h.add(int(m.group(1), 16))
            h -= set(v for k, v in self.code.sym.items() if k.endswith("_impl"))
            self._heads = h
        return self._heads

    def step(self, s, txt, tgt, nxt):
        if txt.startswith("rep "):
            return self.rep(s, txt)
        parts = txt.split(None, 1)
        mn = parts[0]
        ops = re.split(r",(?![^\[]*\])", parts[1]) if len(parts) > 1 else []
        ops = [re.sub(r"\s*<[^>]*>$", "", o).strip() for o in ops]
        if mn in ("data16", "nop", "endbr64", "cs"):
            return None
        if mn == "mov" or mn == "movabs":
            w = self.width(ops[0], ops[1])
            self.wr(s, ops[0], self.rd(s, ops[1], tgt, w), tgt)
        elif mn == "push":
            v = self.rd(s, ops[0], tgt, 64)
            s.r["rsp"] = simplify(s.r["rsp"] - 8)
            s.st(s.r["rsp"], v)
        elif mn == "pop":
            v = s.ld(s.r["rsp"], 8)
            s.r["rsp"] = simplify(s.r["rsp"] + 8)
            self.wr(s, ops[0], v, tgt)
        elif mn in ("add", "sub", "cmp"):
            w = self.width(ops[0], ops[1])
            a, b = self.rd(s, ops[0], tgt, w), self.rd(s, ops[1], tgt, w)
            r = self.addsub(s, a, b, mn != "add")
            if mn != "cmp":
                self.wr(s, ops[0], r, tgt)
        elif mn in ("inc", "dec"):
            w = self.width(ops[0])
            a = self.rd(s, ops[0], tgt, w)
            self.wr(s, ops[0], self.addsub(s, a, BV(1, w), mn == "dec", keepcf=True), tgt)
        elif mn in ("and", "or", "xor", "test"):
            w = self.width(ops[0], ops[1])
            a, b = self.rd(s, ops[0], tgt, w), self.rd(s, ops[1], tgt, w)
            r = a & b if mn in ("and", "test") else a | b if mn == "or" else a ^ b
            s.f["CF"], s.f["OF"] = BoolVal(False), BoolVal(False)
            self.zsp(s, r)
            if mn != "test":
                self.wr(s, ops[0], r, tgt)
        elif mn == "not":
            w = self.width(ops[0])
            self.wr(s, ops[0], ~self.rd(s, ops[0], tgt, w), tgt)
        elif mn == "neg":
            w = self.width(ops[0])
            a = self.rd(s, ops[0], tgt, w)
            r = self.addsub(s, BV(0, w), a, True)
            self.wr(s, ops[0], r, tgt)
        elif mn in ("shl", "shr", "sar", "sal"):
            w = self.width(ops[0])
            a = self.rd(s, ops[0], tgt, w)
            c = self.rd(s, ops[1], tgt, 8) if len(ops) > 1 else BV(1, 8)
            c = ZeroExt(w - 8, c) & BV(63 if w == 64 else 31, w) if w > 8 else c & 31
            r = a << c if mn in ("shl", "sal") else LShR(a, c) if mn == "shr" else a >> c
            old = dict(s.f)
            self.zsp(s, r)
            self.undef(s, "CF", "OF")
            for k in s.f:
                s.f[k] = If(c == 0, old[k], s.f[k])
            self.wr(s, ops[0], r, tgt)
        elif mn in ("shlx", "shrx", "sarx"):
            w = self.width(ops[0])
            a, c = self.rd(s, ops[1], tgt, w), self.rd(s, ops[2], tgt, w)
            c = c & BV(63 if w == 64 else 31, w)
            self.wr(s, ops[0], a << c if mn == "shlx" else LShR(a, c) if mn == "shrx" else a >> c, tgt)
        elif mn == "imul":
            w = self.width(ops[0])
            if len(ops) == 1:
                raise Unsupported(txt)
            if len(ops) == 2:
                r = self.rd(s, ops[0], tgt, w) * self.rd(s, ops[1], tgt, w)
            else:
                r = self.rd(s, ops[1], tgt, w) * self.rd(s, ops[2], tgt, w)
            self.undef(s, "CF", "OF", "ZF", "SF", "PF")
            self.wr(s, ops[0], r, tgt)
        elif mn == "cqo":
            s.r["rdx"] = s.r["rax"] >> 63
        elif mn in ("div", "idiv"):
            if self.width(ops[0]) != 64:
                raise Unsupported(txt)
            d, hi, lo = self.rd(s, ops[0], tgt, 64), s.r["rdx"], s.r["rax"]
            if mn == "div":
                s.obl.append(("no divide error", And(d != 0, hi == 0)))
                s.r["rax"], s.r["rdx"] = UDiv(lo, d), URem(lo, d)
            else:
                s.obl.append(("no divide error", And(d != 0, hi == lo >> 63, Not(And(lo == B64(1 << 63), d == B64(-1))))))
                s.r["rax"], s.r["rdx"] = lo / d, SRem(lo, d)
            self.undef(s, "CF", "OF", "ZF", "SF", "PF")
        elif mn in ("movsx", "movsxd", "movzx"):
            w = self.width(ops[0])
            v = self.rd(s, ops[1], tgt)
            self.wr(s, ops[0], (ZeroExt if mn == "movzx" else SignExt)(w - v.size(), v) if w > v.size() else v, tgt)
        elif mn == "cdqe":
            s.r["rax"] = SignExt(32, s.get("eax"))
        elif mn.startswith("cmov"):
            w = self.width(ops[0])
            self.wr(s, ops[0], If(self.cond(s, mn[4:]), self.rd(s, ops[1], tgt, w), self.rd(s, ops[0], tgt, w)), tgt)
        elif mn.startswith("set"):
            self.wr(s, ops[0], If(self.cond(s, mn[3:]), BV(1, 8), BV(0, 8)), tgt)
        elif mn == "xchg":
            w = self.width(ops[0], ops[1])
            a, b = self.rd(s, ops[0], tgt, w), self.rd(s, ops[1], tgt, w)
            self.wr(s, ops[0], b, tgt)
            self.wr(s, ops[1], a, tgt)
        elif mn == "lea":
            w = self.width(ops[0])
            a = self.ea(s, self.memop(ops[1])[1], tgt)
            self.wr(s, ops[0], a if w == 64 else Extract(w - 1, 0, a), tgt)
        elif mn == "jmp":
            m = re.match(r"^(?:0x)?([0-9a-f]+)$", ops[0])
            if m and ops[0] not in SUB:
                return int(m.group(1), 16)
            s.exit_to = self.rd(s, ops[0], tgt, 64)
            return "exit"
        elif mn == "ret":
            s.exit_to = s.ld(s.r["rsp"], 8)
            s.r["rsp"] = simplify(s.r["rsp"] + 8)
            return "exit"
        elif re.match(r"^j\w+$", mn):
            return (self.cond(s, mn[1:]), int(ops[0], 16))
        elif mn in ("cld", "std"):
            s.df = mn == "std"
        elif mn == "movs":
            n = {"BYTE": 1, "WORD": 2, "DWORD": 4, "QWORD": 8}[ops[0].split()[0]]
            s.st(s.r["rdi"], s.ld(s.r["rsi"], n))
            d = -n if s.df else n
            s.r["rsi"], s.r["rdi"] = simplify(s.r["rsi"] + d), simplify(s.r["rdi"] + d)
        else:
            self.fpstep(s, mn, ops, tgt, txt)
        return None

    def rep(self, s, txt):
        m = re.match(r"^rep (movs|stos)\s+(\w+) PTR es:\[rdi\],\s*(.*)$", txt)
        if not m:
            raise Unsupported(txt)
        n = {"BYTE": 1, "WORD": 2, "DWORD": 4, "QWORD": 8}[m.group(2)]
        cnt, rsi, rdi, mem = s.r["rcx"], s.r["rsi"], s.r["rdi"], s.mem
        total = cnt * n
        A = BitVec("lam%d" % len(s.path + s.obl) + str(id(s)), 64)
        lo = lambda p: p if not s.df else p - (total - n)  # lowest address touched
        s.obl.append(("block operation does not wrap", ULT(cnt, B64(1 << 48))))
        if m.group(1) == "movs":
            # memmove semantics hold exactly when the direction never reads an already written byte
            safe = Or(cnt == 0, rdi == rsi, (ULT(lo(rdi), lo(rsi)) if not s.df else UGT(lo(rdi), lo(rsi))), UGE(lo(rdi) - lo(rsi), total) if not s.df else UGE(lo(rsi) - lo(rdi), total))
            s.obl.append(("block copy never re-reads a written byte", safe))
            s.mem = Lambda([A], If(ULT(A - lo(rdi), total), Select(mem, A - lo(rdi) + lo(rsi)), Select(mem, A)))
            s.r["rsi"] = s.r["rsi"] + (-total if s.df else total)
        else:
            v = {1: s.get("al"), 8: None}.get(n)
            if v is None:
                raise Unsupported(txt)
            s.mem = Lambda([A], If(ULT(A - lo(rdi), total), v, Select(mem, A)))
        s.r["rdi"] = s.r["rdi"] + (-total if s.df else total)
        s.r["rcx"] = B64(0)
        return None

    def fpstep(self, s, mn, ops, tgt, txt):
        X = lambda o: int(re.match(r"^xmm(\d+)$", o).group(1))
        isx = lambda o: o.startswith("xmm")
        if mn in ("movss", "movsd") :
            w = 32 if mn == "movss" else 64
            if isx(ops[0]) and isx(ops[1]):
                v = Extract(w - 1, 0, s.x[X(ops[1])])
                s.x[X(ops[0])] = Concat(Extract(127, w, s.x[X(ops[0])]), v)
            elif isx(ops[0]):
                s.x[X(ops[0])] = ZeroExt(128 - w, self.rd(s, ops[1], tgt, w))
            else:
                self.wr(s, ops[0], Extract(w - 1, 0, s.x[X(ops[1])]), tgt)
        elif mn in ("movd", "movq"):
            w = 32 if mn == "movd" else 64
            if isx(ops[0]):
                v = self.rd(s, ops[1], tgt, w) if not isx(ops[1]) else Extract(w - 1, 0, s.x[X(ops[1])])
                s.x[X(ops[0])] = ZeroExt(128 - v.size(), v)
            else:
                ww = self.width(ops[0])
                self.wr(s, ops[0], Extract(ww - 1, 0, s.x[X(ops[1])]), tgt)
        elif mn in ("movaps", "movups", "movapd"):
            if mn != "movups":
                for o in ops:
                    if not isx(o):
                        s.obl.append(("16-byte alignment of an aligned vector access", self.ea(s, self.memop(o)[1], tgt) & 15 == 0))
            self.wr(s, ops[0], self.rd(s, ops[1], tgt, 128), tgt)
        elif mn == "movlps":
            if isx(ops[0]):
                s.x[X(ops[0])] = Concat(Extract(127, 64, s.x[X(ops[0])]), self.rd(s, ops[1], tgt, 64))
            else:
                self.wr(s, ops[0], Extract(63, 0, s.x[X(ops[1])]), tgt)
        elif mn in ("pxor", "xorps", "xorpd"):
            s.x[X(ops[0])] = s.x[X(ops[0])] ^ self.rd(s, ops[1], tgt, 128)
        elif mn in ("andps", "andpd", "pand"):
            s.x[X(ops[0])] = s.x[X(ops[0])] & self.rd(s, ops[1], tgt, 128)
        elif re.match(r"^(add|sub|mul|div)s[sd]$", mn):
            w = 32 if mn.endswith("ss") else 64
            a = Extract(w - 1, 0, s.x[X(ops[0])])
            b = self.rd(s, ops[1], tgt, w)
            if isx(ops[1]):
                b = Extract(w - 1, 0, b)
            s.x[X(ops[0])] = Concat(Extract(127, w, s.x[X(ops[0])]), FARITH[mn[:3], w](a, b))
        elif re.match(r"^(u?comis)([sd])$", mn):
            w = 32 if mn[-1] == "s" else 64
            a = Extract(w - 1, 0, s.x[X(ops[0])])
            b = Extract(w - 1, 0, self.rd(s, ops[1], tgt, w))
            un = Or(fpIsNaN(fp(a)), fpIsNaN(fp(b)))
            s.f["PF"], s.f["CF"], s.f["ZF"] = un, Or(un, fpLT(fp(a), fp(b))), Or(un, fpEQ(fp(a), fp(b)))
            s.f["OF"] = s.f["SF"] = BoolVal(False)
        elif re.match(r"^cmp(eq|lt|le|unord|neq|nlt|nle|ord)s([sd])$", mn):
            m = re.match(r"^cmp(eq|lt|le|unord|neq|nlt|nle|ord)s([sd])$", mn)
            w = 32 if m.group(2) == "s" else 64
            a = Extract(w - 1, 0, s.x[X(ops[0])])
            b = Extract(w - 1, 0, self.rd(s, ops[1], tgt, w))
            un = Or(fpIsNaN(fp(a)), fpIsNaN(fp(b)))
            c = {"eq": fpEQ(fp(a), fp(b)), "lt": fpLT(fp(a), fp(b)), "le": fpLEQ(fp(a), fp(b)), "unord": un, "neq": Not(fpEQ(fp(a), fp(b))),
                 "nlt": Not(fpLT(fp(a), fp(b))), "nle": Not(fpLEQ(fp(a), fp(b))), "ord": Not(un)}[m.group(1)]
            s.x[X(ops[0])] = Concat(Extract(127, w, s.x[X(ops[0])]), If(c, BV(-1, w), BV(0, w)))
        elif mn in ("cvttss2si", "cvttsd2si"):
            w = 32 if mn == "cvttss2si" else 64
            a = Extract(w - 1, 0, self.rd(s, ops[1], tgt, w))
            self.wr(s, ops[0], cvtt(a, self.width(ops[0])), tgt)
        elif mn in ("cvtsi2ss", "cvtsi2sd"):
            w = 32 if mn == "cvtsi2ss" else 64
            v = self.rd(s, ops[1], tgt)
            s.x[X(ops[0])] = Concat(Extract(127, w, s.x[X(ops[0])]), i2f(v, w))
        elif mn == "cvtss2sd":
            a = Extract(31, 0, self.rd(s, ops[1], tgt, 32))
            s.x[X(ops[0])] = Concat(Extract(127, 64, s.x[X(ops[0])]), F2D(a))
        elif mn == "cvtsd2ss":
            a = Extract(63, 0, self.rd(s, ops[1], tgt, 64))
            s.x[X(ops[0])] = Concat(Extract(127, 32, s.x[X(ops[0])]), D2F(a))
        elif mn == "stmxcsr":
            self.wr(s, ops[0], s.mxcsr, tgt)
        elif mn == "ldmxcsr":
            s.mxcsr = self.rd(s, ops[0], tgt, 32)
        elif mn in ("fstcw", "fnstcw"):
            self.wr(s, ops[0], s.cw, tgt)
        elif mn == "fldcw":
            s.cw = simplify(self.rd(s, ops[0], tgt, 16))
        elif mn == "fld":
            if ops[0].startswith("st"):
                s.fpu.insert(0, s.fpu[self.sti(ops[0])])
            else:
                v = self.rd(s, ops[0], tgt)
                s.fpu.insert(0, v if v.size() == 80 else F2LD(v) if v.size() == 32 else D2LD(v))
        elif mn == "fldz":
            s.fpu.insert(0, LDZERO)
        elif mn == "fild":
            v = self.rd(s, ops[0], tgt)
            s.fpu.insert(0, I2LD(SignExt(64 - v.size(), v) if v.size() < 64 else v))
        elif mn in ("fst", "fstp"):
            if ops[0].startswith("st"):
                s.fpu[self.sti(ops[0])] = s.fpu[0]
            else:
                w = self.memop(ops[0])[0]
                v = s.fpu[0]
                self.wr(s, ops[0], v if w == 80 else LD2F(v) if w == 32 else LD2D(v), tgt)
            if mn == "fstp":
                s.fpu.pop(0)
        elif mn == "fistp":
            if self.memop(ops[0])[0] != 64:
                raise Unsupported(txt)
            self.wr(s, ops[0], LD2I(Extract(11, 10, s.cw), s.fpu.pop(0)), tgt)
        elif mn == "fchs":
            s.fpu[0] = LDNEG(s.fpu[0])
        elif mn in ("faddp", "fsubp", "fmulp", "fdivp", "fsubrp", "fdivrp"):
            i = self.sti(ops[0]) if ops else 1
            a, b = s.fpu[i], s.fpu[0]
            if mn in ("fsubrp", "fdivrp"):
                a, b = b, a
            s.fpu[i] = FARITH[mn[1:4], 80](a, b)
            s.fpu.pop(0)
        elif mn in ("fadd", "fsub", "fmul", "fdiv") and len(ops) == 1 and self.memop(ops[0]):
            v = self.rd(s, ops[0], tgt)
            s.fpu[0] = FARITH[mn[1:], 80](s.fpu[0], F2LD(v) if v.size() == 32 else D2LD(v))
        elif mn in ("fucomip", "fcomip", "fucomi", "fcomi"):
            a, b = s.fpu[0], s.fpu[self.sti(ops[-1])]
            s.path += ax80(a, b)
            un = UN80(a, b)
            s.f["PF"], s.f["CF"], s.f["ZF"] = un, Or(un, LT80(a, b)), Or(un, EQ80(a, b))
            s.f["OF"] = s.f["SF"] = BoolVal(False)
            if mn.endswith("p"):
                s.fpu.pop(0)
        else:
            raise Unsupported(txt)

    def sti(self, o):
        m = re.match(r"^st(?:\((\d)\))?$", o)
        return int(m.group(1) or 0)


F2D, D2F = uf("f2d", S32, S64), uf("d2f", S64, S32)
_CV = {(w, n): uf("cvtt%d_%d" % (w, n), BitVecSort(w), BitVecSort(n)) for w in (32, 64) for n in (32, 64)}
_IF = {(n, w): uf("i2f%d_%d" % (n, w), BitVecSort(n), BitVecSort(w)) for w in (32, 64) for n in (32, 64)}
U2F = {w: uf("u2f_%d" % w, S64, BitVecSort(w)) for w in (32, 64)}


def cvtt(a, n):
    return _CV[a.size(), n](a)


def i2f(v, w):
    return _IF[v.size(), w](v)
