"""Id allocation: contracts of Level._gen_id, _note_id, add_prop, add_entity, calculate_max_id, remap_ids and merge (C09, C17)."""
import z3

from . import engine as E
from .engine import B, Hook, I, Poison, SInt, SReal, Sym, Unsupported, boo, num, simp
from .segment import born_obj
from .vals import AMap, SSeq, TDict, TList, as_seq


def id_map(r, name):
    """a dict from any number of ids to anything; (map, number of ids, id of index)"""
    f = z3.Function(r.fresh("id of " + name), z3.IntSort(), z3.IntSort())
    n = r.int("number of " + name, 0).e
    return AMap(SSeq(name, n, lambda k: (SInt(f(k)), None))), n, f


def case(vals):
    """concrete level shapes for the replay of a failed id obligation"""
    from random import Random

    from ..gen import Gen

    g = Gen(Random(5))
    e = lambda i: [i, 1.0, 2.0, dict(g.ent(["foo"], 1))]
    p = lambda i: [i, 3, 4.0, 5.0, g.prop()]
    return {"sshot": "", "vars": [], "tiles": [], "props": [p(120), p(7)], "entities": [e(140), e(9)], "backdrop": {"tiles": [], "props": [p(160), p(8)]}}


def max_id(kind, cases, nxt=True):
    """result and allocator stay above every id in the level and its backdrop"""

    def fn(r, v):
        r.data["case"] = cases
        maps = {}

        def mk(what, parent):
            ms = {}
            for n in ("props", "entities"):
                m, k, f = id_map(r, "%s %s" % (what, n))
                ms[n] = m
                maps["%s %s" % (what, n)] = (k, f)
            o = born_obj(v.level.Level, tiles=AMap(SSeq("tiles", r.int("tiles", 0).e, None)), parent=parent, backdrop=None, **ms)
            E.needs("_next_id")
            object.__setattr__(o, "_next_id", r.int("next id of the " + what))
            return o

        lv = mk("level", None)
        back = None
        if kind == "level with backdrop":
            back = mk("backdrop", lv)
            object.__setattr__(lv, "backdrop", back)
        elif kind == "backdrop":
            top = mk("parent", None)
            object.__setattr__(lv, "parent", top)
            object.__setattr__(top, "backdrop", lv)

        def above(m, what):
            fs = []
            for n in ("props", "entities"):
                k, f = maps["%s %s" % (what, n)]
                i = z3.Int(r.fresh("i"))
                fs.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), m >= f(i))))
            return z3.And(*fs)

        def rec(self, reset=True):
            r.oblige("only the backdrop is asked for its ids", self is back and back is not None)
            m = r.int("largest id of the backdrop")
            r.assume(above(m.e, "backdrop"))
            object.__setattr__(back, "_next_id", num(m.e + 1))
            return m

        r.stub(v.level.Level.calculate_max_id, rec)
        args = [(), (True,), (False,)][r.choose(3)]
        got = v.level.Level.calculate_max_id(lv, *args)
        for what in ("level", "backdrop") if back is not None else ("level",):
            for n in ("props", "entities"):
                k, f = maps["%s %s" % (what, n)]
                i = r.int("any index", 0).e
                r.assume(i < k)
                r.oblige("the result is at least every id of the %s's %s" % (what, n), I(got) >= f(i))
                if nxt and kind != "backdrop":
                    r.oblige("the next id is above every id of the %s's %s" % (what, n), I(lv._next_id) > f(i))

    return fn


# ------------------------------------------------------------------------------------------------ adding
class Used(Sym):
    """a dict keyed by ids; which ids are used is arbitrary"""
    pytypes = (dict,)

    def __init__(self, r, name, world):
        self.r, self.name, self.world = r, name, world
        self.used = z3.Function("used by " + name, z3.IntSort(), z3.BoolSort())
        self.sets, self.gone = [], []

    def has(self, k):
        e = I(k)
        self.world.instance(e)
        f = self.used(e)
        for i, _x in self.sets:
            f = z3.Or(f, e == i)
        return boo(simp(f))

    def __contains__(self, k):
        return bool(self.has(k))

    def __setitem__(self, k, x):
        self.world.instance(I(k))
        self.sets.append((I(k), x))

    def get(self, k, d=None):
        return Poison("the object under an id") if k in self else d

    def __getitem__(self, k):
        if k in self:
            return Poison("the object under an id")
        raise KeyError(k)

    def setdefault(self, k, d=None):
        if k in self:
            return Poison("the object under an id")
        self[k] = d
        return d

    def keys(self):
        return self


class State:
    """a level and its backdrop with an allocator above every used id"""

    def __init__(self, r, v):
        self.r, self.v = r, v
        self.maps = {(o, n): Used(r, "%s %s" % (o, n), self) for o in ("level", "backdrop") for n in ("props", "entities")}
        self.next = r.int("next id")
        self.top = born_obj(v.level.Level, props=self.maps["level", "props"], entities=self.maps["level", "entities"], tiles=Poison("tiles"), variables=Poison("variables"), parent=None)
        self.back = born_obj(v.level.Level, props=self.maps["backdrop", "props"], entities=self.maps["backdrop", "entities"], tiles=Poison("tiles"), variables=Poison("variables"), parent=self.top, backdrop=None)
        object.__setattr__(self.top, "backdrop", self.back)
        E.needs("_next_id")
        object.__setattr__(self.top, "_next_id", self.next)
        object.__setattr__(self.back, "_next_id", r.int("next id of the backdrop"))

    def instance(self, e):
        """the invariant, for one id: a used id is below the next one (and positive)"""
        for m in self.maps.values():
            self.r.assume(z3.Implies(m.used(e), z3.And(e < self.next.e, e >= 1)))

    def anywhere(self, e):
        self.instance(e)
        return z3.Or(*[m.used(e) for m in self.maps.values()])


def add_case(where, kind, explicit):
    w = {"props": "p", "entities": "e"}[kind] if where == "level" else "b"

    def case(vals):
        place = [vals.get("layer", 0) & 31, max(-4000.0, min(4000.0, float(vals.get("x", 0)))), max(-4000.0, min(4000.0, float(vals.get("y", 0))))]
        ops = [["add", w, 300 if explicit else None, "plain_thing" if w == "e" else "", [], place]]
        for i in (7, 100, 150):
            ops += [["add", w, i if explicit else None, "plain_thing" if w == "e" else "", []], ["add", "p", None, "", []], ["add", "e", None, "plain_thing", []], ["add", "b", None, "", []], ["add", w, None, "plain_thing" if w == "e" else "", []]]
        return {"init": [["p", 100, "", []], ["e", 7, "plain_thing", []], ["b", 160, "", []]], "ops": ops + [["save"]] + ops}

    return case


def add(where, kind, explicit):
    """adding a prop or entity keeps the invariant; automatic ids are unused, reuse of an id is refused"""

    def fn(r, v):
        s = State(r, v)
        r.data["case"] = add_case(where, kind, explicit)
        lv = s.top if where == "level" else s.back
        m = s.maps[where, kind]
        idn = r.int("id", 1) if explicit else None
        layer, x, y, o = r.int("layer"), r.real("x"), r.real("y"), Obj("added object")
        taken = m.used(idn.e) if explicit else z3.BoolVal(False)
        if explicit:
            s.instance(idn.e)
        try:
            if kind == "props":
                got = v.level.Level.add_prop(lv, layer, x, y, o, idn) if explicit else v.level.Level.add_prop(lv, layer, x, y, o)
            else:
                got = v.level.Level.add_entity(lv, x, y, o, idn) if explicit else v.level.Level.add_entity(lv, x, y, o)
        except v.exceptions.LevelException:
            r.oblige("only an id in use is refused", taken)
            r.oblige("a refused object changes nothing", all(not q.sets for q in s.maps.values()))
            got = None
        else:
            r.oblige("an id in use is refused", z3.Not(taken))
            r.oblige("exactly one object is stored", sum(len(q.sets) for q in s.maps.values()) == 1 and len(m.sets) == 1)
            k, val = m.sets[0]
            r.oblige("the id is returned and used", I(got) == k)
            if explicit:
                r.oblige("the requested id is used", k == idn.e)
            else:
                r.oblige("an automatic id is used nowhere", z3.Not(s.anywhere(k)))
            want = (layer, x, y, o) if kind == "props" else (x, y, o)
            r.oblige("the object is stored as given", isinstance(val, tuple) and len(val) == len(want) and all(p is q for p, q in zip(val, want)))
            r.oblige("the next id is above the new one", I(s.top._next_id) > k)
        r.oblige("the next id stays above the ones in use", I(s.top._next_id) >= s.next.e)

    return fn


class Obj(Sym):
    def __init__(self, name):
        self.name = name


# ------------------------------------------------------------------------------------------------ remapping
FI = lambda n: z3.Function(n, z3.IntSort(), z3.IntSort())


class Alloc(Hook):
    """contract of Level._gen_id: a new id, not below the allocator's next id, which ends above it"""

    def __init__(self, r, v, top):
        self.r, self.v, self.top = r, v, top
        self.tok = None
        self.epochs = 0
        r.hooks.append(self)
        r.stub(v.level.Level._gen_id, self.gen)

    def sync(self):
        r = self.r
        x = self.top._next_id
        if self.tok is not None and x is self.tok:
            return
        self.epochs += 1
        self.N, self.G = FI("next%d" % self.epochs), FI("new%d" % self.epochs)
        self.r.assume(self.N(0) == I(x))
        self.at = {}
        self.use(z3.IntVal(0))
        self.set(z3.IntVal(0))

    def use(self, i):
        """the contract's facts about the i-th allocation, against all mentioned so far: ids increase"""
        i = simp(i)
        if i.get_id() in self.at:
            return i
        G, N = self.G, self.N
        self.r.assume(z3.Implies(i >= 0, z3.And(G(i) >= N(i), N(i) >= N(0))))
        for j in self.at.values():
            self.r.assume(z3.Implies(z3.And(i >= 0, i < j), z3.And(G(i) < G(j), G(i) < N(j))))
            self.r.assume(z3.Implies(z3.And(j >= 0, j < i), z3.And(G(j) < G(i), G(j) < N(i))))
        self.at[i.get_id()] = i
        return i

    def new(self, g, i):
        if g is self.G:
            self.use(i)
        return SInt(g(simp(i)))

    def set(self, c):
        self.c = simp(c)
        self.use(self.c)
        self.tok = SInt(self.N(self.c))
        object.__setattr__(self.top, "_next_id", self.tok)

    def gen(self, lv):
        if lv is not self.top and lv.parent is not self.top:
            raise Unsupported("ids of another level")
        self.sync()
        g = SInt(self.G(self.c))
        self.set(self.c + 1)
        return g

    def loop_init(self, lp):
        self.sync()
        lp.alloc0 = (self.c, self.N)

    def loop_enter(self, lp):
        self.set(lp.alloc0[0] + lp.k)

    def loop_tail(self, lp):
        if self.top._next_id is not self.tok or self.N is not lp.alloc0[1]:
            raise Unsupported("allocator changed in a loop")
        d = simp(self.c - lp.alloc0[0] - lp.k)
        if not z3.is_int_value(d):
            raise Unsupported("ids allocated in a loop")
        n = d.as_long()
        # entered at c0 + k: n allocations per iteration are told from the (assumed) one by running the body at c0 + k
        if n not in (0, 1) or lp.info.hookdata.setdefault("allocs", n) != n:
            raise Unsupported("%d ids per iteration" % n)

    def loop_exit(self, lp):
        n = lp.info.hookdata.get("allocs", 0)
        self.set(lp.alloc0[0] + n * lp.seq.length if n else lp.alloc0[0])


class IdDict(Sym):
    """a dict from distinct ids to objects, any number of them"""
    pytypes = (dict,)

    def __init__(self, r, name, alloc, val):
        self.r, self.name, self.alloc, self.val = r, name, alloc, val
        self.n = r.int("number of " + name, 0).e
        self.id, self.idx = FI("id of " + name), FI("index of " + name)
        self.maps = []

    def fact(self, k):
        self.r.assume(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(self.id(k) >= 1, self.idx(self.id(k)) == k)))

    def key(self, k):
        self.fact(k)
        return SInt(self.id(k))

    def cands(self, what):
        """what a loop over this dict may collect: the old id of every object with a new one, or the objects under new ids"""
        self.alloc.sync()
        G, c0 = self.alloc.G, self.alloc.c
        now = [(G, c0)] + [m for m in self.maps if not (m[0] is G and simp(m[1]).eq(c0))]
        out = {}
        for i, (g, c) in enumerate(now):
            new = lambda k, g=g, c=c: self.alloc.new(g, c + k)
            a = SSeq(self.name + " by new id", self.n, lambda k, new=new: (new(k), self.val(k)), new=(g, c), own=self)
            b = SSeq(self.name + ": new by old id", self.n, lambda k, new=new: (self.key(k), new(k)), new=(g, c), own=self)
            b.info["view"] = Remap(self, g, c)
            out["object %d" % i] = (lambda e, k, new=new: [(new(I(k)), self.val(I(k)))], a)
            out["id %d" % i] = (lambda e, k, new=new: [(self.key(I(k)), new(I(k)))], b)
        self.maps.append((G, c0))
        return out

    def items(self):
        return SSeq(self.name, self.n, lambda k: (self.key(k), self.val(k)), lists=self.cands("items"))

    def as_seq(self):
        return SSeq(self.name, self.n, self.key, lists=self.cands("keys"))

    def keys(self):
        return self.as_seq()

    def values(self):
        return SSeq(self.name, self.n, self.val)

    def slen(self):
        return num(self.n)

    def __bool__(self):
        return E.fork(self.n > 0)


class Remap(Sym):
    """old id -> new id"""
    pytypes = (dict,)

    def __init__(self, own, g, c):
        self.own, self.g, self.c = own, g, c

    def has(self, k):
        j = self.own.idx(I(k))
        self.own.fact(j)
        return boo(z3.And(j >= 0, j < self.own.n, self.own.id(j) == I(k)))

    def __getitem__(self, k):
        if not bool(self.has(k)):
            raise KeyError("id")
        return self.own.alloc.new(self.g, self.c + self.own.idx(I(k)))

    def get(self, k, d=None):
        if not bool(self.has(k)):
            return d
        return self[k]


class Ent(Sym):
    """the k-th entity"""
    pytypes = (object,)

    def __init__(self, log, k):
        self.log, self.k = log, k

    def remap_ids(self, m):
        self.log.calls.append((self.k, m))


class Calls(Hook):
    """Entity.remap_ids is called once for every entity, with the map from old to new ids"""

    def __init__(self, r):
        self.r = r
        self.calls, self.done = [], []
        r.hooks.append(self)

    def loop_tail(self, lp):
        r = self.r
        d = lp.info.hookdata
        if self.calls or d.get("remaps"):
            d["remaps"] = True
            r.oblige("each entity's references are rewritten once", len(self.calls) == 1)
            k, m = self.calls[0]
            r.oblige("the entity of the iteration is rewritten", k == lp.k)
            w = m.view() if isinstance(m, TDict) else None
            if w is None or d.setdefault("with", w).g is not w.g or not d["with"].c.eq(w.c):
                raise Unsupported("references rewritten with another kind of map")
        elif r.feasible():
            d["silent"] = True
        self.calls = []

    def loop_exit(self, lp):
        if lp.info.hookdata.get("remaps"):
            self.r.oblige("no entity is skipped when references are rewritten", not lp.info.hookdata.get("silent"))
            self.done.append(lp.info.hookdata.get("with"))


def remap_case(vals):
    return {"init": [["e", 200, "plain_thing", []], ["e", 201, "enemy_key", [200]], ["e", 202, "camera_node", [201, 200, 999]], ["e", 101, "level_end", [202, 5]], ["e", 5, "AI_controller", [101]], ["e", 6, "custom_score_book", [5]],
                     ["p", 200, "", []], ["p", 7, "", []], ["b", 9, "", []], ["b", 200, "", []]], "ops": [["remap", 100], ["add", "p", None, "", []], ["remap", 200], ["remap", 1], ["add", "b", None, "", []], ["remap", 150], ["save"], ["add", "e", None, "plain_thing", []]]}


def remap(kind):
    def fn(r, v):
        r.data["case"] = remap_case
        Lv = v.level.Level
        top = born_obj(Lv, tiles=Poison("tiles"), variables=Poison("variables"), parent=None, backdrop=None, _next_id=r.int("next id", 1))
        alloc = Alloc(r, v, top)
        calls = Calls(r)
        X, Y = [z3.Function("entity " + a, z3.IntSort(), z3.RealSort()) for a in "xy"]
        lv = top
        if kind == "backdrop":
            lv = born_obj(Lv, tiles=Poison("tiles"), variables=Poison("variables"), parent=top, backdrop=None, _next_id=r.int("next id of the backdrop"))
            object.__setattr__(top, "backdrop", lv)
        vals = {}

        def val(what, mk):
            def f(k):
                key = (what, simp(k).get_id())
                if key not in vals:
                    vals[key] = (mk(k), k)
                return vals[key][0]

            return f

        ents = {}
        props = IdDict(r, "props", alloc, val("p", lambda k: Rec("prop", k)))
        entities = IdDict(r, "entities", alloc, val("e", lambda k: (SReal(X(k)), SReal(Y(k)), Ent(calls, k))))
        object.__setattr__(lv, "props", props)
        object.__setattr__(lv, "entities", entities)
        done = []
        back = None
        if kind == "level with backdrop":
            back = born_obj(Lv, tiles=Poison("tiles"), props=Poison("backdrop props"), entities=Poison("backdrop entities"), variables=Poison("variables"), parent=top, backdrop=None, _next_id=r.int("next id of the backdrop"))
            object.__setattr__(top, "backdrop", back)

        def rec(self, min_id=100):
            r.oblige("only the backdrop is remapped in turn", self is back and back is not None)
            alloc.sync()
            n = r.int("ids of the backdrop", 0).e
            done.append((alloc.G, alloc.c, n))
            alloc.set(alloc.c + n)

        r.stub(Lv.remap_ids, rec)
        lo = r.int("min id", 1)
        start = top._next_id
        if kind == "backdrop":
            alloc.sync()
            lo = SInt(alloc.N(alloc.c))
            Lv.remap_ids(lv)
        else:
            Lv.remap_ids(lv, lo)
        # where everything went
        new = []
        for nm, old, cur in (("prop", props, lv.props), ("entity", entities, lv.entities)):
            seq = cur.eff if isinstance(cur, TDict) else None
            if isinstance(cur, TDict) and seq is None and dict.__len__(cur) == 0:
                r.oblige("no %s is lost" % nm, old.n == 0)
                continue
            if cur is old:
                r.oblige("every %s gets a new id" % nm, old.n == 0)
                continue
            if seq is None or "new" not in seq.info or seq.info["own"] is not old:
                raise Unsupported("remapped %s of another form" % nm)
            k = r.int("any " + nm, 0).e
            r.assume(k < old.n)
            a, b = seq.elem(k)
            if nm == "prop":
                r.oblige("every prop is kept", isinstance(b, Rec) and b.k is not None and b.k == k)
            else:
                r.oblige("every entity is kept", isinstance(b, tuple) and len(b) == 3 and isinstance(b[2], Ent) and z3.And(b[2].k == k, I(a) == I(a), b[0].e == X(k), b[1].e == Y(k)))
            r.oblige("a new %s id is at least the minimum" % nm, I(a) >= I(lo))
            r.oblige("the next id is above every new %s id" % nm, I(top._next_id) > I(a))
            k2 = r.int("another " + nm, 0).e
            r.assume(z3.And(k2 < old.n, k2 != k))
            r.oblige("%s ids are distinct" % nm, I(a) != I(seq.elem(k2)[0]))
            new.append((nm, k, old.n, I(a), seq))
        if len(new) == 2:
            r.oblige("prop and entity ids are distinct", new[0][3] != new[1][3])
        for nm, k, n, a, seq in new:
            if done:
                g, c, m = done[0]
                i = r.int("any backdrop id", 0).e
                r.assume(i < m)
                r.oblige("%s ids differ from those of the backdrop" % nm, a != I(alloc.new(g, c + i)))
        if back is not None:
            r.oblige("the backdrop is remapped once", len(done) == 1)
            g, c, m = done[0]
            i = r.int("any backdrop id", 0).e
            r.assume(i < m)
            r.oblige("backdrop ids are at least the minimum", I(alloc.new(g, c + i)) >= I(lo))
            r.oblige("the next id is above every backdrop id", I(top._next_id) > I(alloc.new(g, c + i)))
        r.oblige("the references of every entity are rewritten once", z3.Or(z3.BoolVal(len(calls.done) == 1), entities.n == 0) if len(calls.done) <= 1 else False)
        for w in calls.done:
            r.oblige("references are rewritten with the ids of entities", w.own.name == "entities")
            for nm, k, n, a, seq in new:
                if nm == "entity":
                    r.oblige("references follow their targets", I(alloc.new(w.g, w.c + k)) == a)

    return fn


class Rec(Sym):
    """the k-th entry (position and object) of a table"""

    def __init__(self, name, k):
        self.name, self.k = name, k

    def __eq__(self, o):
        if isinstance(o, Rec) and o.name == self.name:
            return boo(self.k == o.k)
        return self.differs(o)

    __hash__ = Sym.__hash__


# ------------------------------------------------------------------------------------------------ references of entities
REFS = {"AI_controller": ("puppet", False), "camera_node": ("nodes", True), "level_end": ("entities", True), "enemy_key": ("door", False), "custom_score_book": ("level_list", False)}


class OldNew(Sym):
    """any map from ids to ids"""
    pytypes = (dict,)

    def __init__(self, r):
        self.r = r
        self.in_, self.to = z3.Function("is mapped", z3.IntSort(), z3.BoolSort()), FI("mapped to")

    def want(self, e):
        return z3.If(self.in_(e), self.to(e), z3.IntVal(0))

    def has(self, k):
        return boo(self.in_(I(k)))

    def __contains__(self, k):
        return bool(self.has(k))

    def get(self, k, d=None):
        if isinstance(d, (int, SInt)) and not isinstance(d, bool):
            return num(z3.If(self.in_(I(k)), self.to(I(k)), I(d)))
        return num(self.to(I(k))) if k in self else d

    def __getitem__(self, k):
        if k not in self:
            raise KeyError("id")
        return num(self.to(I(k)))


class RefList(Sym, Hook):
    """the list a bound array accessor gives (contract: C20)"""
    pytypes = (list,)

    def __init__(self, r, m):
        self.r, self.m = r, m
        self.n = r.int("references", 0).e
        self.ref = FI("reference")
        self.sets, self.done, self.written = [], 0, False
        r.hooks.append(self)

    def as_seq(self):
        want = lambda k: num(self.m.want(self.ref(I(k))))
        s = SSeq("references", self.n, lambda k: SInt(self.ref(k)))
        s.info["lists"] = {"rewritten": (lambda e, k: [want(k)], SSeq("rewritten references", self.n, lambda k: want(num(k))))}
        s.info["owner"] = self
        return s

    def slen(self):
        return num(self.n)

    def __getitem__(self, i):
        if isinstance(i, slice) or self.written:
            raise Unsupported("references read otherwise")
        if not self.r.entails(z3.And(I(i) >= 0, I(i) < self.n)):
            raise Unsupported("index")
        for j, _v in self.sets:
            if not self.r.entails(j != I(i)):
                raise Unsupported("a rewritten reference is read")
        return SInt(self.ref(I(i)))

    def __setitem__(self, i, x):
        if not self.r.loops or isinstance(i, slice):
            raise Unsupported("references written otherwise")
        self.sets.append((I(i), x))

    def loop_tail(self, lp):
        d = lp.info.hookdata
        if self.sets or d.get("refs"):
            d["refs"] = True
            self.r.oblige("each reference is rewritten once", len(self.sets) == 1)
            i, x = self.sets[0]
            self.r.oblige("every reference is rewritten in its place", i == lp.k)
            self.r.oblige("a reference follows its target, or becomes 0", I(x) == self.m.want(self.ref(lp.k)))
        else:
            d["refs skipped"] = True
        self.sets = []

    def loop_exit(self, lp):
        d = lp.info.hookdata
        if d.get("refs"):
            self.r.oblige("no reference is skipped", not d.get("refs skipped"))
            self.r.oblige("all references are visited", lp.seq.length == self.n)
            self.done += 1
            self.written = True


def references(etype):
    name, arr = REFS[etype]

    def fn(r, v):
        r.data["case"] = remap_case
        Ent_ = v.entity.Entity
        cls = next(c for c in vars(v.entity).values() if isinstance(c, type) and issubclass(c, Ent_) and vars(c).get("TYPE_IDENTIFIER") == etype)
        r.oblige("%s has the reference %s" % (etype, name), hasattr(cls, name))
        known = dict(Ent_._known_types)
        sub = type("Any" + cls.__name__, (cls,), {name: None})
        Ent_._known_types.clear()
        Ent_._known_types.update(known)
        m = OldNew(r)
        old = RefList(r, m) if arr else r.int("reference", 0)
        e = born_obj(sub, variables=Poison("variables"), etype=etype, rotation=Poison("rotation"), layer=Poison("layer"), flip_x=Poison("flip"), flip_y=Poison("flip"), visible=Poison("visible"))
        object.__setattr__(e, name, old)
        e.remap_ids(m)
        cur = getattr(e, name)
        if not arr:
            r.oblige("the reference follows its target, or becomes 0", I(cur) == m.want(old.e))
        elif cur is old:
            r.oblige("the references are rewritten once", z3.Or(z3.BoolVal(old.done == 1), old.n == 0) if old.done <= 1 else False)
        else:
            s = as_seq(cur)
            if s is None:
                r.oblige("no reference is lost", old.n == 0 if isinstance(cur, list) and not list(cur) else False)
            else:
                r.oblige("no reference is lost", s.length == old.n)
                k = r.int("any", 0).e
                r.assume(k < old.n)
                r.oblige("a reference follows its target, or becomes 0", I(s.elem(k)) == m.want(old.ref(k)))

    return fn


# ------------------------------------------------------------------------------------------------ merging
class Part(Sym):
    """tiles, props or entities of one of the levels"""
    pytypes = (dict,)

    def __init__(self, m, owner, name):
        self.m, self.owner, self.name = m, owner, name

    def clone(self, memo):
        return CopyOf(self)

    def update(self, x):
        self.m.log.append(("update", self, x))


class CopyOf(Sym):
    pytypes = (dict,)

    def __init__(self, of):
        self.of = of


def merge(kind, remapped):
    """kind: top level with or without backdrops, or a backdrop"""

    def fn(r, v):
        Lv = v.level.Level
        r.data["case"] = lambda vals: {"init": remap_case(vals)["init"], "ops": [["merge", [["e", 200, "enemy_key", [7]], ["p", 200, "", []], ["b", 300, "", []], ["e", 7, "plain_thing", []]], remapped, [[19, 0, 1, 3]]],
                                                                                 ["add", "p", None, "", []], ["add", "e", None, "plain_thing", []], ["add", "b", None, "", []]]}

        class M:
            log = []

        M.log = []
        lvs = {}
        for o in ("own", "other"):
            lvs[o] = born_obj(Lv, variables=Poison("variables"), sshot=Poison("thumbnail"), parent=None, backdrop=None, _next_id=r.int("next id, " + o, 1), **{n: Part(M, o, n) for n in ("tiles", "props", "entities")})
            if kind in ("both have backdrops", o + " has a backdrop"):
                b = born_obj(Lv, variables=Poison("variables"), sshot=Poison("thumbnail"), parent=lvs[o], backdrop=None, _next_id=r.int("next id, backdrop, " + o, 1), **{n: Part(M, o + " backdrop", n) for n in ("tiles", "props", "entities")})
                object.__setattr__(lvs[o], "backdrop", b)
                lvs[o + " backdrop"] = b
        own, other = lvs["own"], lvs["other"]
        if kind == "backdrop":
            for o in ("own", "other"):
                p = born_obj(Lv, variables=Poison("variables"), parent=None, backdrop=lvs[o], _next_id=r.int("next id, parent, " + o, 1))
                object.__setattr__(lvs[o], "parent", p)
        # any id of either side, before and after
        a_own, a_other = z3.Int("any own id"), z3.Int("any id of the other level")
        r.assume(z3.And(a_other >= 1, a_own >= 1, a_own < own._next_id.e))
        state = {"own": a_own, "remapped": None, "in": False}

        def has_all():
            want = {(o, n) for o in ("own",) + (("own backdrop",) if "own backdrop" in lvs and "other backdrop" in lvs else ()) for n in ("tiles", "props", "entities")}
            got = {(x[1].owner, x[1].name) for x in M.log if x[0] == "update"} | {("own backdrop", n) for x in M.log if x[0] == "merge" for n in ("tiles", "props", "entities")}
            return want <= got

        def mx(self, reset=True):
            m = r.int("largest id %d" % len(M.log))
            if self is other:
                r.assume(m.e >= a_other)
            elif self is own:
                r.assume(m.e >= state["own"])
                if has_all():
                    r.assume(m.e >= a_other)
                object.__setattr__(own, "_next_id", num(m.e + 1))
            else:
                raise Unsupported("largest id of another level")
            M.log.append(("max", self, None))
            return m

        def rec(self, min_id=100):
            r.oblige("only the receiver is remapped", self is own)
            n = z3.Int("own id %d" % len(M.log))
            nx = r.int("next id %d" % len(M.log))
            r.assume(z3.And(n >= I(min_id), nx.e > n, nx.e >= I(min_id)))
            state["own"] = n
            object.__setattr__(own, "_next_id", nx)
            M.log.append(("remap", self, min_id))

        def mg(self, o, remap_ids=True):
            r.oblige("backdrop is merged with backdrop, ids kept", "own backdrop" in lvs and self is lvs["own backdrop"] and o is lvs.get("other backdrop") and not remap_ids)
            M.log.append(("merge", self, o))

        r.stub(Lv.calculate_max_id, mx)
        r.stub(Lv.remap_ids, rec)
        r.stub(Lv.merge, mg)
        if remapped is None:
            Lv.merge(own, other)
        else:
            Lv.merge(own, other, remapped)
        log = M.log
        ups = [(i, x) for i, x in enumerate(log) if x[0] == "update"]
        for i, (_, part, x) in ups:
            r.oblige("the other level is not changed", not part.owner.startswith("other"))
            r.oblige("the contents of one level are merged into the same kind of the other", isinstance(x, (CopyOf, Part)) and (x.of if isinstance(x, CopyOf) else x).name == part.name)
            r.oblige("copies are merged, not the objects of the other level", isinstance(x, CopyOf) and x.of.owner == part.owner.replace("own", "other"))
        both = "own backdrop" in lvs and "other backdrop" in lvs
        for n in ("tiles", "props", "entities"):
            r.oblige("the %s are merged" % n, sum(1 for _i, x in ups if x[1].owner == "own" and x[1].name == n) == 1)
        if both:
            r.oblige("the backdrops are merged", has_all())
        if remapped in (True, None) and kind != "backdrop":
            rm = [i for i, x in enumerate(log) if x[0] == "remap"]
            r.oblige("the receiver is remapped", len(rm) >= 1)
            r.oblige("the receiver is remapped before anything is merged", all(i < j for i in rm for j, x in enumerate(log) if x[0] in ("update", "merge")))
            r.oblige("no object of the receiver has an id of the other level", state["own"] != a_other)
        if kind != "backdrop":
            r.oblige("the next id is above the ids of the receiver", I(own._next_id) > state["own"])
            r.oblige("the next id is above the merged ids", I(own._next_id) > a_other)

    return fn
