"""Induction over loops of the unmodified code.

An open sequence stands for "any number of terms, then these ones".  When a loop of the code starts to iterate over it, the
loop-carried state (local variables that are read before they are written in an iteration and arrays that an iteration
writes to) is replaced by fresh symbols: the state after any number of iterations.  The given items are then yielded, and
after each iteration it is checked that nothing else than this state was changed.  With the same symbols at the loop head,
`f(any terms + item)` and `f(any terms)` are compared by the contract: the induction step.  The base is the empty loop.
"""
import ctypes
import dis
import sys
import types

import numpy as np

_live = {}


def _instructions(code):
    r = _live.get(code)
    if r is not None:
        return r
    ins = list(dis.get_instructions(code))
    at = {x.offset: k for k, x in enumerate(ins)}
    stop = {"RETURN_VALUE", "RETURN_CONST", "RAISE_VARARGS", "RERAISE", "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT"}
    succ = []
    for k, x in enumerate(ins):
        s = []
        if x.opname not in stop and k + 1 < len(ins):
            s.append(k + 1)
        if x.opcode in dis.hasjrel or x.opcode in dis.hasjabs:
            s.append(at[x.argval])
        succ.append(s)
    for e in dis.Bytecode(code).exception_entries:
        for k, x in enumerate(ins):
            if e.start <= x.offset < e.end:
                succ[k].append(at[e.target])
    live = [set() for _ in ins]
    todo = True
    while todo:
        todo = False
        for k in range(len(ins) - 1, -1, -1):
            x = ins[k]
            out = set().union(*(live[s] for s in succ[k])) if succ[k] else set()
            if x.opname == "STORE_FAST":
                out = out - {x.argval}
            elif x.opname in ("LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "DELETE_FAST"):
                out = out | {x.argval}
            if out != live[k]:
                live[k] = out
                todo = True
    _live[code] = (ins, at, live)
    return _live[code]


def _loop(frame):
    """(offset, live variables, problem) of the for loop that a frame is at the head of"""
    ins, at, live = _instructions(frame.f_code)
    k = at.get(frame.f_lasti)
    if k is None:
        k = at.get(frame.f_lasti - 2)        # the specialised instruction that resumes a generator points behind itself
    if k is None or ins[k].opname != "FOR_ITER":
        return None
    end = at[ins[k].argval]
    body = {x.opname for x in ins[k:end]}
    bad = None
    if body & {"LIST_APPEND", "SET_ADD", "MAP_ADD"}:
        # the comprehension itself collects on the stack; a nested one is fine
        depth = 0
        for x in ins[k + 1:end]:
            if x.opname == "FOR_ITER":
                depth += 1
            elif x.opname == "END_FOR":
                depth -= 1
            elif x.opname in ("LIST_APPEND", "SET_ADD", "MAP_ADD") and depth == 0:
                bad = "comprehension over an open sequence"
    return ins[k].offset, live[k] | set(frame.f_code.co_cellvars), bad


class Changed(Exception):
    pass


def _walk(roots):
    """id -> (path, object) of everything mutable that can be reached"""
    out, stack = {}, [(p, o) for p, o in roots]
    while stack:
        p, o = stack.pop()
        if id(o) in out or o is None or isinstance(o, (str, int, float, complex, bytes, type, types.ModuleType, types.FunctionType, types.MethodType, types.BuiltinFunctionType)):
            continue
        t = type(o)
        if isinstance(o, np.ndarray):
            out[id(o)] = (p, o)
            continue
        if isinstance(o, (list, tuple)):
            out[id(o)] = (p, o)
            stack += [(f"{p}[{k}]", x) for k, x in enumerate(list.__iter__(o) if isinstance(o, list) else o)]
        elif isinstance(o, dict):
            out[id(o)] = (p, o)
            stack += [(f"{p}[{k}]", x) for k, x in enumerate(dict.values(o))]
            stack += [(f"{p}.key{k}", x) for k, x in enumerate(dict.keys(o))]
        elif isinstance(o, (set, frozenset)):
            out[id(o)] = (p, o)
        elif hasattr(o, "__dict__") and t.__module__.split(".")[0] in ("magnopy", "wulfric"):
            out[id(o)] = (p, o)
            stack += [(f"{p}.{k}", x) for k, x in vars(o).items()]
    return out


def _content(o):
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return (o.shape, [x for x in o.reshape(-1)])
        return (o.shape, o.dtype.str, o.tobytes())
    if isinstance(o, (list, tuple)):
        return list(list.__iter__(o)) if isinstance(o, list) else list(o)
    if isinstance(o, dict):
        return list(dict.keys(o)) + list(dict.values(o))
    if isinstance(o, (set, frozenset)):
        return len(o)
    d = vars(o)
    return [x for k in sorted(d) for x in (k, d[k])]


def _same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and x is not y else (x is y or _plain(x, y)) for x, y in zip(a, b))
    return a is b or _plain(a, b)


def _plain(x, y):
    return type(x) is type(y) and isinstance(x, (int, float, complex, str, bytes, bool)) and x == y


class Snapshot:
    def __init__(self, frames, roots):
        self.locals = [dict(f.f_locals) for f in frames]
        r = [(f"{k}", v) for l in self.locals for k, v in l.items()] + list(roots)
        r += [(f"global {k}", v) for f in frames for k, v in f.f_globals.items() if isinstance(v, (list, dict, set, np.ndarray)) and not k.startswith("__")]
        self.heap = {i: (p, o, _content(o)) for i, (p, o) in _walk(r).items()}

    def changes(self, frames):
        """names of local variables that were rebound, (path, object) of what was written to"""
        names, objs = set(), []
        for k, (f, old) in enumerate(zip(frames, self.locals)):
            for n, v in f.f_locals.items():
                if n not in old or not (old[n] is v or _plain(old[n], v)):
                    names.add((k, n))
        for p, o, c in self.heap.values():
            if not _same(c, _content(o)):
                objs.append((p, o))
        return names, objs


class OpenSeq(list):
    """any number of terms followed by the given items"""

    def __init__(self, ind, items):
        list.__init__(self, items)
        self.ind = ind

    def __iter__(self):
        return Cut(self.ind, list.__iter__(self), self)

    def __getitem__(self, k):
        return list.__getitem__(self, k.k if isinstance(k, OpenIndex) else k)

    def columns(self, c):
        """for terms that are kept in parallel lists"""
        return OpenSeq(self.ind, [x[c] for x in list.__iter__(self)])

    def __deepcopy__(self, memo):
        from copy import deepcopy
        return OpenSeq(self.ind, [deepcopy(x, memo) for x in list.__iter__(self)])


class OpenLen(int):
    """length of an open sequence: only good for range()"""
    seq = None


class OpenIndex:
    """index of an item of an open sequence: only good for looking it (or its companion) up"""

    def __init__(self, ind, k):
        self.ind, self.k = ind, k

    def _no(self, *a, **kw):
        self.ind.stop("the index of a term is used as a number")
    __index__ = __int__ = __float__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __mod__ = __bool__ = __floordiv__ = __neg__ = _no
    __hash__ = None

    def __deepcopy__(self, memo):
        return self


class OpenRange:
    def __init__(self, seq):
        self.seq = seq

    def __iter__(self):
        return Cut(self.seq.ind, iter([OpenIndex(self.seq.ind, k) for k in range(list.__len__(self.seq))]), self.seq)


def len_(x):
    n = len(x)
    if isinstance(x, OpenSeq):
        r = OpenLen(n)
        r.seq = x
        return r
    return n


class Repeat(int):
    """a number of repetitions: `for _ in range(n)` is entered in an arbitrary state and left after one repetition

    `state(locals)` returns the variables that the loop may change with their values in that state (contract: the invariant holds
    for them); `again(locals)` is called when the head of the loop is reached again (contract: the invariant holds again) and does
    not return.
    """
    met = 0

    def __new__(cls, ctx, state, again, n=10 ** 9):
        r = int.__new__(cls, n)
        r.ctx, r.state, r.again = ctx, state, again
        return r


class Repetition:
    def __init__(self, n):
        self.n, self.frame = n, None

    def __iter__(self):
        return self

    def __next__(self):
        n, f = self.n, sys._getframe(1)
        un = n.ctx.sym.unsupported
        if self.frame is None:
            l = _loop(f)
            if l is None or f.f_code.co_flags & 0x20:
                un("induction: repetitions outside of a for loop")
            if n.met:
                un("induction: the loop is entered twice")
            n.met += 1
            self.frame, self.live = f, l[1]
            given = dict(f.f_locals)
            self.new = n.state(given)
            d = f.f_locals
            for k, v in self.new.items():
                if k not in d:
                    un(f"induction: variable {k} is gone")
                d[k] = v
            ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(f), ctypes.c_int(0))
            self.snap = Snapshot([f], [])
            i = n.ctx.fresh("loop", integer=True)
            n.ctx.assume(i >= 0)
            return i
        names, objs = self.snap.changes([f])
        if objs:
            un(f"induction: {objs[0][0]} is changed in the loop")
        for _, k in names:
            if k in self.live and k not in self.new:
                un(f"induction: variable {k} changes in the loop")
        n.again(dict(f.f_locals))
        raise AssertionError


def range_(*a):
    if len(a) == 1 and isinstance(a[0], Repeat):
        return Repetition(a[0])
    o = [x for x in a if isinstance(x, OpenLen)]
    if not o:
        return range(*a)
    if len(a) == 1 or len(a) == 2 and a[0] == 0:
        return OpenRange(o[0].seq)
    o[0].seq.ind.stop("a part of the terms is looped over")


def enumerate_(x, start=0):
    if isinstance(x, OpenSeq):
        return zip_(OpenRange(x), x)
    return enumerate(x, start)


def zip_(*xs, **kw):
    o = [x for x in xs if isinstance(x, (OpenSeq, OpenRange))]
    if not o:
        return zip(*xs, **kw)
    ind = (o[0] if isinstance(o[0], OpenSeq) else o[0].seq).ind
    seqs = [x if isinstance(x, OpenSeq) else x.seq for x in o]
    if len(o) != len(xs) or any(s.ind is not ind for s in seqs):
        ind.stop("open and other sequences are looped over together")
    raw = [list.__iter__(x) if isinstance(x, OpenSeq) else iter([OpenIndex(ind, k) for k in range(list.__len__(x.seq))]) for x in o]
    return Cut(ind, zip(*raw), list(seqs))


def sum_(xs, start=0):
    for x in xs:
        start = start + x
    return start


class Cut:
    def __init__(self, ind, it, owner, lead=0):
        self.ind, self.it, self.owner = ind, it, owner
        self.frames = None

    def __iter__(self):
        return self

    def __next__(self):
        ind = self.ind
        if self.frames is None:
            self.enter(sys._getframe(1))
        else:
            names, objs = self.snap.changes(self.frames)
            ind.iteration(self, names, objs)
        try:
            x = next(self.it)
        except StopIteration:
            ind.leave(self)
            self.frames = None
            raise
        self.snap = Snapshot(self.frames, [("item", x), ("sequence", self.owner)])
        # the loop variable itself is assigned after this point
        return x

    def enter(self, f):
        frames = []
        while f is not None:
            gen = f.f_code.co_flags & 0x20
            if f.f_code.co_name != "__next__":
                l = _loop(f)
                if l is None:
                    return self.ind.stop(f"an open sequence is consumed by something else than a for loop ({f.f_code.co_qualname})")
                if l[2]:
                    return self.ind.stop(l[2])
                frames.append((f, l))
                if not gen:
                    break
            f = f.f_back
        self.frames = [x for x, _ in frames]
        self.live = [l[1] for _, l in frames]
        self.site = tuple((x.f_code.co_filename, x.f_code.co_name, l[0]) for x, l in frames)
        self.ind.enter(self)


class Induction:
    """one loop argument: first a scouting run, then runs from the same arbitrary state at the loop head"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.mode = "scout"
        self.carried = {}        # site -> {name or path: kind}
        self.count = {}
        self.symbols = {}
        self.used = 0

    def stop(self, why):
        self.ctx.sym.unsupported("induction: " + why)

    def run(self):
        """a new run from the arbitrary state"""
        self.mode = "step"
        self.count = {}

    def key(self, cut):
        n = self.count.get(cut.site, 0)
        return cut.site, n

    def enter(self, cut):
        cut.number = self.count.get(cut.site, 0)
        self.count[cut.site] = cut.number + 1
        self.used += 1
        if self.mode != "step":
            return
        for what, kind in sorted(self.carried.get(cut.site, {}).items(), key=str):
            if what[0] == "local":
                _, k, n = what
                f = cut.frames[k]
                d = f.f_locals
                if n not in d:
                    self.stop(f"loop-carried variable {n} is not bound at the start")
                d[n] = self.value((cut.site, cut.number, what), kind)
                ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(f), ctypes.c_int(0))
                if f.f_locals[n] is not d[n]:
                    self.stop("local variables can not be replaced")
            else:
                r = [(n, v) for f in cut.frames for n, v in f.f_locals.items()]
                found = [o for p, o in _walk(r).values() if p == what[1]]
                if len(found) != 1 or found[0].shape != kind[1]:
                    self.stop(f"loop-carried array {what[1]} is not there")
                o = found[0]
                v = self.value((cut.site, cut.number, what), kind)
                for i in np.ndindex(o.shape):
                    np.ndarray.__setitem__(o, i, v[i])

    def value(self, key, kind):
        if key in self.symbols:
            v = self.symbols[key]
            return v if kind[0] != "array" else v.copy()
        t = kind[0]
        if t == "array":
            v = np.empty(kind[1], dtype=object)
            for i in np.ndindex(kind[1]):
                v[i] = self.scalar(kind[2])
            v = v.view(self.ctx.world.shim.SymArray)
            self.symbols[key] = v
            return v.copy()
        v = self.scalar(t)
        self.symbols[key] = v
        return v

    def scalar(self, t):
        if t == "complex":
            return self.ctx.sym.CSym(self.ctx.fresh("loop"), self.ctx.fresh("loop"))
        return self.ctx.fresh("loop", integer=True) if t == "int" else self.ctx.fresh("loop")

    def kind(self, v, where):
        S = self.ctx.sym
        if isinstance(v, np.ndarray):
            if v.dtype != object:
                self.stop(f"an array of numbers changes in the loop: {where}")
            return ("array", v.shape, "complex" if any(isinstance(x, (S.CSym, complex)) for x in v.flat) else "real")
        if isinstance(v, (S.CSym, complex)):
            return ("complex",)
        if isinstance(v, S.Sym) and v.is_integer_valued() or isinstance(v, int) and not isinstance(v, bool):
            return ("int",)
        if isinstance(v, (S.Sym, float)):
            return ("real",)
        self.stop(f"{where} of type {type(v).__name__} changes in the loop")

    def iteration(self, cut, names, objs):
        S = self.ctx.sym
        found = {}
        arrays = {id(o) for _, o in objs}
        for k, n in names:
            if n in cut.live[k]:
                found["local", k, n] = cut.frames[k].f_locals[n]
        for p, o in objs:
            if not isinstance(o, np.ndarray):
                self.stop(f"{p} of type {type(o).__name__} is changed in the loop")
            found["array", p] = o
        if self.mode == "scout":
            c = self.carried.setdefault(cut.site, {})
            for w, v in found.items():
                k = self.kind(v, w)
                if w in c and c[w] != k:
                    # a number that is real at first and complex later
                    k = tuple(a if a == b else max((a, b), key=["int", "real", "complex"].index) for a, b in zip(c[w], k))
                c[w] = k
            return
        c = self.carried.get(cut.site, {})
        for w, v in found.items():
            if w not in c:
                self.stop(f"{w} is changed in the loop, which the first run did not show")
            if self.kind(v, w) != c[w] and not (self.kind(v, w)[0] in ("real", "int") and c[w][0] in ("real", "complex")):
                self.stop(f"{w} changes its type in the loop")

    def leave(self, cut):
        pass

    def open(self, items):
        return OpenSeq(self, items)
