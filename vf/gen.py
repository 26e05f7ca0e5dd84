"""Input generators for the run-time contracts.

Values are drawn from uniform ranges, range boundaries, powers of two and a
pool of constants mined from the *current* source of the library (so that a
value-specific special case is hit), all driven by one seeded rng."""
import ast
import os

from .refcodec import ALPHA, blank_edge, blank_tile


def mine_pool(root):
    ints, strs = set(), set()
    for d, _s, fs in os.walk(os.path.join(root, "dustmaker")):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
            except (SyntaxError, OSError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant):
                    v = n.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int):
                        ints.add(v)
                    elif isinstance(v, float) and v == int(v) if isinstance(v, float) and abs(v) < 1e15 else False:
                        ints.add(int(v))
                    elif isinstance(v, str) and 0 < len(v) <= 63:
                        strs.add(v)
                    elif isinstance(v, bytes) and 0 < len(v) <= 63:
                        strs.add(v.decode("latin1"))
                elif isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                    try:
                        v = eval(compile(ast.Expression(n), "<c>", "eval"), {"__builtins__": {}})
                        if isinstance(v, int) and abs(v) < 1 << 80:
                            ints.add(v)
                    except Exception:  # noqa
                        pass
    return sorted(ints), sorted(strs)


class Gen:
    def __init__(self, rng, pool=((), ())):
        self.r = rng
        base = set()
        for v in pool[0]:
            base.update((v - 1, v, v + 1, -v))
        for k in range(0, 34):
            base.update(((1 << k) - 1, 1 << k, (1 << k) + 1, -(1 << k), -(1 << k) - 1, 1 - (1 << k)))
        self.ints = sorted(base)
        self.strs = list(pool[1])
        self.idents = [s for s in self.strs if len(s) <= 63 and all(c in ALPHA for c in s)]
        self._cache = {}

    # ------------------------------------------------------------- scalars
    def chance(self, p):
        return self.r.random() < p

    def within(self, lo, hi):
        """integers of the pool in [lo, hi]"""
        k = (lo, hi)
        if k not in self._cache:
            c = [v for v in self.ints if lo <= v <= hi]
            c += [lo, hi, min(hi, lo + 1), max(lo, hi - 1)]
            if len(self._cache) > 4000:
                self._cache.clear()
            self._cache[k] = c
        return self._cache[k]

    def int(self, lo, hi):
        if self.chance(0.5):
            return self.r.choice(self.within(lo, hi))
        if self.chance(0.3):
            return max(lo, min(hi, self.r.randint(-20, 20)))
        return self.r.randint(lo, hi)

    def bool(self):
        return self.chance(0.5)

    def small(self, n=4):
        return self.r.randint(0, n)

    def bytes(self, mx=12):
        if self.idents and self.chance(0.1):
            return self.r.choice(self.strs)[:mx]
        return "".join(chr(self.r.randrange(256)) for _ in range(self.r.randint(0, mx)))

    def big_bytes(self):
        n = self.r.choice([65534, 65535, 65536, 131069, 131070, 131071, 65535 + self.r.randint(0, 70000), self.r.randint(200, 70000)])
        return {"n": n, "s": self.r.randrange(256)}

    def ident(self, mx=63):
        c = self.r.random()
        if c < 0.25 and self.idents:
            return self.r.choice(self.idents)[:mx]
        if c < 0.32:
            n = mx
        elif c < 0.38:
            n = 0
        else:
            n = self.r.randint(1, 8)
        return "".join(self.r.choice(ALPHA) for _ in range(n))

    def gfloat(self, ib=32, fb=32, mag=None):
        """float on the (ib, fb) grid, exactly representable, floor magnitude < 2^(ib-1)"""
        lim = (1 << (ib - 1)) - 1 if mag is None else mag
        i = self.int(-min(lim, (1 << 21) - 1 if fb > 24 else lim), min(lim, (1 << 21) - 1 if fb > 24 else lim)) if self.chance(0.8) else self.int(-lim, lim)
        if abs(i) >= 1 << (52 - fb if fb < 52 else 0):
            return float(i)
        f = self.r.choice([0, 0, 1, (1 << (fb - 1)) - 1, 1 << (fb - 2) if fb >= 2 else 0, self.r.randrange(1 << (fb - 1))])
        return i + f / (1 << (fb - 1))

    # ----------------------------------------------------------- variables
    KINDS = ("bool", "int", "uint", "float", "string", "vec2", "array", "struct")

    def var(self, depth=3, kind=None, big=False):
        k = kind or self.r.choice(self.KINDS if depth > 0 else self.KINDS[:6])
        if k == "bool":
            return [k, self.bool()]
        if k == "int":
            return [k, self.int(-(1 << 31), (1 << 31) - 1)]
        if k == "uint":
            return [k, self.int(0, (1 << 32) - 1)]
        if k == "float":
            return [k, self.gfloat()]
        if k == "string":
            if big and self.chance(0.4):
                return [k, self.big_bytes()]
            return [k, self.bytes()]
        if k == "vec2":
            return [k, [self.gfloat(), self.gfloat()]]
        if k == "array":
            et = self.r.choice(self.KINDS if depth > 1 else self.KINDS[:6])
            return [k, [et, [self.var(depth - 1, et, big) for _ in range(self.small(4))]]]
        return [k, self.struct(depth - 1, big)]

    def struct(self, depth=2, big=False, mx=4):
        out, seen = [], set()
        for _ in range(self.small(mx)):
            key = self.ident()
            if key in seen:
                continue
            seen.add(key)
            out.append([key, self.var(depth, None, big)])
        return out

    # --------------------------------------------------------------- tiles
    def edge(self, filth=True, p=0.5):
        e = blank_edge()
        e["solid"], e["visible"] = self.bool(), self.bool()
        e["caps"] = [self.bool(), self.bool()]
        e["angles"] = [self.int(-128, 127), self.int(-128, 127)]
        if filth:
            e["fset"] = self.r.choice([0, self.r.randint(0, 7)])
            e["fspike"] = self.bool()
            e["fcaps"] = [self.bool(), self.bool()]
            e["fangles"] = [self.int(-128, 127), self.int(-128, 127)]
        return e

    def tile(self, filth=False):
        t = blank_tile()
        t["shape"] = self.r.randint(0, 20)
        t["flags"] = self.r.randint(0, 7)
        t["set"] = self.r.randint(0, 7)
        t["tile"] = self.r.choice([self.int(0, 255), [0, 21, 13, 6, 9, 2, 5, 7][t["set"]]])
        t["pal"] = self.int(0, 15)
        t["edges"] = [self.edge(filth) for _ in range(4)]
        if filth and not any(e["fset"] for e in t["edges"]):
            for e in t["edges"]:
                b = blank_edge()
                e.update(fset=0, fspike=False, fcaps=b["fcaps"], fangles=b["fangles"])
        return t

    def coord(self, lim):
        """tile coordinate in [-lim, lim) with weight on chunk borders"""
        c = self.r.random()
        if c < 0.35:
            v = self.r.choice([0, 256, -256, 16, -16, lim, -lim, 4096, 512, -512, 240, -240]) + self.r.randint(-17, 17)
        elif c < 0.6:
            v = self.r.randint(-40, 40)
        elif c < 0.8:
            v = self.r.randint(-600, 600)
        else:
            v = self.int(-lim, lim - 1)
        return max(-lim, min(lim - 1, v))

    def layer(self):
        return self.r.choice([19, 19, 0, 20, 18, self.r.randint(0, 20)])

    def tiles(self, n, lim):
        out = {}
        ax, ay = self.coord(lim), self.coord(lim)
        for _ in range(n):
            if self.chance(0.4):
                ax, ay = self.coord(lim), self.coord(lim)
            x = max(-lim, min(lim - 1, ax + self.r.randint(-3, 3)))
            y = max(-lim, min(lim - 1, ay + self.r.randint(-3, 3)))
            ly = self.layer()
            out[(ly, x, y)] = self.tile(filth=ly == 19 and self.bool())
        items = [[k[0], k[1], k[2], t] for k, t in out.items()]
        self.r.shuffle(items)
        return items

    # ------------------------------------------------------ props, entities
    def prop(self):
        return {"sub": self.int(0, 255), "rot": self.int(0, 65535), "fx": self.bool(), "fy": self.bool(),
                "scale": self.r.choice([32, self.r.randint(0, 55)]), "set": self.int(0, 255), "group": self.int(0, 4095),
                "index": self.int(0, 4095), "pal": self.int(0, 255)}

    def pix(self, lim):
        c = self.r.random()
        if c < 0.4:
            return float(max(-lim, min(lim, self.coord(1 << 14) * 48 + self.r.choice([0, 0, 1, -1, 47, self.r.randint(-48, 48)]))))
        return float(self.int(-lim, lim))

    def ids(self, n):
        s = set()
        while len(s) < n:
            s.add(self.r.choice([self.r.randint(0, 300), self.int(0, (1 << 31) - 1)]))
        out = list(s)
        self.r.shuffle(out)
        return out

    def etype(self, types):
        c = self.r.random()
        if c < 0.5 and types:
            return self.r.choice(types)
        if c < 0.65:
            return "entity"
        if c < 0.8:
            return "z_" + self.ident(61)
        return self.ident()

    def ent(self, types=(), depth=1):
        return {"etype": self.etype(types), "rot": self.int(0, 65535), "layer": self.int(0, 255), "fx": self.bool(), "fy": self.bool(),
                "vis": self.bool(), "vars": self.struct(depth) if self.chance(0.6) else []}

    def epos(self):
        if self.chance(0.5):
            return self.pix(400_000_000) + self.r.choice([0, 0.5, -0.5, 1 / 128, 127 / 128])
        v = self.gfloat(32, 8, 399_999_998)
        return v

    def level(self, nt=6, np=4, ne=4, back=True, types=(), depth=1, lim=1 << 23):
        m = {"sshot": self.bytes(6) if self.chance(0.8) else {"n": self.r.randint(0, 5000), "s": 3}, "vars": self.struct(depth)}
        m["tiles"] = self.tiles(self.small(nt), lim)
        m["props"] = [[i, self.int(0, 255), self.pix((1 << 27) - 1), self.pix((1 << 27) - 1), self.prop()] for i in self.ids(self.small(np))]
        m["entities"] = [[i, self.epos(), self.epos(), self.ent(types, depth)] for i in self.ids(self.small(ne))]
        m["backdrop"] = {"tiles": [], "props": []}
        if back and self.chance(0.6):
            m["backdrop"]["tiles"] = self.tiles(self.small(nt), min(lim >> 4, 1 << 19))
            m["backdrop"]["props"] = [[i, self.int(0, 255), self.pix((1 << 27) - 1), self.pix((1 << 27) - 1), self.prop()] for i in self.ids(self.small(2))]
        return m
