import itertools
from collections import OrderedDict

import torch

from ..ops import APPROX, OPS, calls, differ, expected, floor_scale, invoke, tangent
from ..product import DT, x_values
from ..runner import CaseTimeout, Outcome
from ..spec import Margin, build, evaluate, nnj, param_shapes, param_values, set_params, tup
from ..values import pattern

ID, LEVEL = "C18", "model_checking"
RULE = (
    "every history of up to 2 (quick) or 3 (thorough) structural edits (append, insert, replace, delete, pop, extend, +=, slicing, "
    "named addition, edits of a nested chain and of the model another model is built from) starting from 6 chains, single edits of chains of more than ten layers, over an "
    "alphabet of interchangeable layers with and without parameters, with products asked after every edit or only at the end; "
    "after each history the output, the weight vector and all products in all modes are those of a chain with exactly the present "
    "layers, for the edited model, for models made by slicing and for models containing it. States are histories, transitions are "
    "edits and calls"
)
# everything maps 2 features to 2 features, so that every order is well typed
LAYERS = {
    "A": ("Linear", 2, 2, True),
    "B": ("Linear", 2, 2, False),
    "T": ("Tanh",),
    "N": ("Seq", ("Linear", 2, 3, True), ("Sigmoid",), ("Linear", 3, 2, False)),
    "K": ("Seq", ("Skip", ("Linear", 2, 1, True)), ("Linear", 3, 2, True)),
    "S": ("Sinusoidal",),
}
STARTS = ["A", "AT", "TA", "ATB", "NAT", "AKB"]


def edits(n, deep):
    """Edits possible on a chain of n layers (positions all, layer kinds a few)."""
    out = []
    kinds = "TN" if deep else "ATNKB"
    for k in kinds:
        out.append(["append", k])
        for i in range(n):
            out.append(["set", i, k])
        for i in range(n + 1):
            if i < n:
                out.append(["insert", i, k])
    out.append(["setneg", "A"])
    out.append(["extend", "AT"])
    out.append(["iadd", "TB"])
    out.append(["named", "A"])
    out.append(["setattr", 0, "B"])
    out.append(["insertneg", "B"])
    out.append(["child"])
    if n > 1:
        for i in range(n):
            out.append(["del", i])
        out.append(["delneg"])
        out.append(["pop", 0])
        out.append(["pop", -1])
        out.append(["slice", 0, n - 1])
        out.append(["slice", 1, n])
        out.append(["slicestep", -1])
        out.append(["delslice", 0, 1])
        out.append(["delattr", 0])
    return out


def size_after(n, e):
    k = e[0]
    if k in ("append", "insert", "insertneg", "named"):
        return n + 1
    if k in ("extend", "iadd"):
        return n + 2
    if k in ("del", "delneg", "pop", "delslice", "delattr"):
        return n - 1
    if k == "slice":
        return e[2] - e[1]
    return n


def histories(n, d, deep=False):
    if d == 0:
        yield []
        return
    for e in edits(n, deep):
        m = size_after(n, e)
        if m > 6:
            continue
        if d == 1:
            yield [e]
        else:
            yield [e]
            for r in histories(m, d - 1, True):
                yield [e] + r


def cases(tier):
    depth = 2 if tier == "quick" else 3
    for s in STARTS:
        for make in ("args", "odict"):
            for e in edits(len(s), False):
                yield [s, make, e, depth if make == "args" or s == "ATB" else depth - 1]
    # chains of more than ten layers: one edit
    for s in ("ATBTNSATBTKTB", "TATBTATBTATBTATBTATBT") if tier == "quick" else ("ATBTNSATBTKTB", "TATBTATBTATBTATBTATBT", "AB" * 16, "TS" * 20 + "A"):
        for make in ("args", "odict"):
            for e in edits(len(s), False):
                yield [s, make, e, 1]


class World:
    """Model plus the list of (layer spec, parameter values) that the reference says it has."""

    def __init__(self, start, make):
        self.count = 0
        ls = [self.new(k) for k in start]
        if make == "args":
            self.model = nnj.Sequential(*[l[0] for l in ls])
        else:
            self.model = nnj.Sequential(OrderedDict((f"layer_{i}", l[0]) for i, l in enumerate(ls)))
        self.layers = ls
        self.outer = nnj.Sequential(self.model, nnj.Tanh())  # contains it: sees every edit
        self.skip = nnj.SkipConnection(self.model)
        self.others = []  # (model, layers as they were) from slicing

    def new(self, k):
        spec = LAYERS[k]
        m = build(spec).double()
        self.count += 1
        vals = [pattern(s, salt=900 + 17 * self.count + j) for j, s in enumerate(param_shapes(spec))]
        set_params(m, vals)
        return [m, spec, vals]

    def defined(self, e):
        """Whether torch itself defines the edit for the names the layers have at the moment."""
        names = list(self.model._modules)
        n = len(names)
        if e[0] in ("insert", "insertneg"):
            return names == [str(i) for i in range(n)]
        grow = {"append": 1, "extend": 2, "iadd": 2}.get(e[0], 0)
        return not any(str(n + i) in names for i in range(grow))

    def apply(self, e):
        m, L = self.model, self.layers
        k = e[0]
        if k == "append":
            l = self.new(e[1])
            m.append(l[0])
            L.append(l)
        elif k == "insert":
            l = self.new(e[2])
            m.insert(e[1], l[0])
            L.insert(e[1], l)
            # torch renumbers when inserting: positions are what counts
        elif k == "insertneg":
            l = self.new(e[1])
            m.insert(-1, l[0])
            L.insert(len(L) - 1, l)
        elif k == "set":
            l = self.new(e[2])
            m[e[1]] = l[0]
            L[e[1]] = l
        elif k == "setneg":
            l = self.new(e[1])
            m[-1] = l[0]
            L[-1] = l
        elif k == "extend":
            ls = [self.new(c) for c in e[1]]
            m.extend([l[0] for l in ls])
            L.extend(ls)
        elif k == "iadd":
            ls = [self.new(c) for c in e[1]]
            m += nnj.Sequential(*[l[0] for l in ls])
            if m is not self.model:
                raise AssertionError("+= gave another object")
            L.extend(ls)
        elif k == "named":
            l = self.new(e[1])
            m.add_module(f"extra_{self.count}", l[0])
            L.append(l)
        elif k == "setattr":
            l = self.new(e[2])
            name = list(m._modules)[e[1]]
            setattr(m, name, l[0])
            L[e[1]] = l
        elif k == "delattr":
            delattr(m, list(m._modules)[e[1]])
            del L[e[1]]
        elif k == "del":
            del m[e[1]]
            del L[e[1]]
        elif k == "delneg":
            del m[-1]
            del L[-1]
        elif k == "slicestep":
            part = m[:: e[1]]
            self.others.append((m, list(L)))
            self.model, self.layers = part, L[:: e[1]]
            self.outer = nnj.Sequential(part, nnj.Tanh())
            self.skip = nnj.SkipConnection(part)
        elif k == "delslice":
            del m[e[1] : e[2]]
            del L[e[1] : e[2]]
        elif k == "pop":
            m.pop(e[1])
            L.pop(e[1])
        elif k == "slice":
            part = m[e[1] : e[2]]
            self.others.append((m, list(L)))
            self.model, self.layers = part, L[e[1] : e[2]]
            self.outer = nnj.Sequential(part, nnj.Tanh())
            self.skip = nnj.SkipConnection(part)
        elif k == "child":  # edit a chain inside the chain
            for i, l in enumerate(L):
                if l[1][0] == "Seq":
                    n = self.new("A")
                    l[0].append(n[0])
                    l[1], l[2] = l[1] + (LAYERS["A"],), l[2] + n[2]  # in place: slices share the layer
                    break
        else:
            raise ValueError(k)

    def check(self, every):
        n = 0
        for model, layers, wrap in (
            [(self.model, self.layers, None), (self.outer, self.layers, "outer"), (self.skip, self.layers, "skip")]
            + [(m, l, None) for m, l in self.others]
        ):
            spec = ("Seq",) + tuple(l[1] for l in layers)
            vals = [v for l in layers for v in l[2]]
            if wrap == "outer":
                spec = ("Seq", spec, ("Tanh",))
            elif wrap == "skip":
                spec = ("Skip", spec)
            d, k = compare(model, spec, vals, every if wrap is None else "few")
            n += k
            if d:
                return (f"{wrap or 'edited model'}: {d}"), n
        return None, n


FEW = [c for c in calls(("jacobian", "vjp", "jvp"), ("input", "weight"))] + [c for c in calls(("jTmjp", "jmjTp"), ("weight",), (APPROX,))]
ALL = [c for c in calls(OPS, ("input", "weight"), ((False, False, False), (True, True, False), APPROX), ("generic",), (2,))]
_NODE = {}


def compare(model, spec, vals, every):
    n = 0
    x = x_values((2,), 2, "generic")
    key = (spec, tuple(float(v.reshape(-1)[0]) for v in vals))
    if key not in _NODE:
        if len(_NODE) > 400:
            _NODE.clear()
        _NODE[key] = (evaluate(spec, vals, x, Margin()), {})
    node, memo = _NODE[key]
    if isinstance(model, nnj.Sequential) and len(model) != len(spec) - 1:
        return f"the chain has {len(model)} layers instead of {len(spec) - 1}", n
    d = differ(model(x), node.y, torch.float64)
    n += 1
    if d:
        return f"output: {d}", n
    if node.n:
        vec = torch.cat([v.reshape(-1) for v in vals])
        got = model.get_weight()
        n += 1
        if tuple(got.shape) != tuple(vec.shape) or not torch.equal(got.detach(), vec):
            return "the weight vector is not that of the present layers", n
        if every != "few":
            moved = vec + pattern(tuple(vec.shape), salt=77)
            model.set_weight(moved)
            n += 1
            if not torch.equal(torch.cat([p.detach().reshape(-1) for p in model.parameters()]), moved):
                return "writing the weight vector did not write the present layers", n
            model.set_weight(vec)
    for c in FEW if every == "few" else ALL:
        k = tuple(map(str, c.key()))
        if k not in memo:
            t = tangent(node, c)
            memo[k] = (t, expected(node, c, t), floor_scale(node, c, t))
        t, ref, floor = memo[k]
        got = invoke(model, c, x, None, None if t is None else t.clone())
        n += 1
        d = differ(got, ref, torch.float64, floor=floor)
        if d:
            return f"{c!r}: {d}", n
    return None, n


def run(case):
    start, make, first, depth = case
    n = states = 0
    for rest in [[]] + list(histories(size_after(len(start), first), depth - 1, True)) if depth > 1 else [[]]:
        h = [first] + rest
        for lazy in (False, True):  # products after every edit, or only at the end
            if lazy and not rest:
                continue
            w = World(start, make)
            states += 1
            done = []
            try:
                if not lazy:
                    d, k = w.check("all")
                    n += k
                    if d:
                        return Outcome(f"before any edit: {d}", states=states, transitions=n)
                for e in h:
                    if not w.defined(e):
                        break
                    w.apply(e)
                    done.append(e)
                    n += 1
                    last = len(done) == len(h)
                    if not lazy or last:
                        d, k = w.check("all" if last or len(h) < 3 else "few")
                        n += k
                        if d:
                            return Outcome(f"{start} ({make}) after {done}: {d}", states=states, transitions=n)
            except CaseTimeout:
                raise
            except Exception as e:
                return Outcome(f"{start} ({make}) after {done}: raised {type(e).__name__}: {str(e)[:200]}", states=states, transitions=n)
    return Outcome(None, states=states, transitions=n, validated=n)
