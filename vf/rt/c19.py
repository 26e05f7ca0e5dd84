import os
import tempfile

from ..adapt import diff, mk_vars, un_vars
from ..refcodec import BitSrc, dec_var, enc_varfile, norm_var
from .base import Bad, eq, need

LEVELS = ("downhill shadedgrove dahlia fields momentum fireflyforest tunnels momentum2 suntemple ascent summit grasscave den autumnforest garden "
          "hyperdifficult atrium secretpassage alcoves mezzanine cave cliffsidecaves library courtyard precarious treasureroom arena ramparts moontemple "
          "observatory parapets brimstone vacantlot sprawl development abandoned park boxes chemworld factory tunnel basement scaffold cityrun clocktower "
          "concretetemple alley hideout control ferrofluid titan satellite vat venom security mary wiringfixed containment orb pod mary2 coretemple abyss dome").split()
COPY = ("citybook", "custombook", "forestbook", "labbook", "leveleditorbook", "mansionbook", "userbook", "virtualbookk")
FIELDS = ("file_name", "combo", "time", "thorough", "best_time", "overall", "key_type")


def _score(g, name):
    return [["file_name", ["string", name]], ["combo", ["int", g.int(-(1 << 31), (1 << 31) - 1)]], ["time", ["float", g.gfloat()]], ["thorough", ["float", g.gfloat()]],
            ["best_time", ["float", g.gfloat()]], ["overall", ["int", g.int(-(1 << 31), (1 << 31) - 1)]]]


def _case(g, names, red, copies, extra):
    vs = []
    if names is not None:
        sc = []
        for n in names:
            s = _score(g, n)
            if g.chance(0.3):
                g.r.shuffle(s)
            if g.chance(0.3):
                s.append(["x", ["bool", True]])
            sc.append(["struct", s])
        vs.append(["score", ["array", ["struct", sc]]])
    if red is not None:
        vs.append(["red_used", ["int", red]])
    for c in copies:
        vs.append([c, g.var(2, g.r.choice([None, "array", "struct"]))])
    for c in extra:
        if c not in ("score", "red_used"):
            vs.append([c, g.var(1)])
    vs = [[a, b] for a, b in dict((a, b) for a, b in vs).items()]
    g.r.shuffle(vs)
    return {"vars": vs}


def gen(g):
    yield _case(g, LEVELS, 3, COPY, [])
    yield _case(g, LEVELS[::-1], None, [], ["wood_used", "key", "k_score"])
    yield _case(g, None, None, [], [])
    yield _case(g, [], 0, COPY[:2], ["a"])
    for n in LEVELS:
        yield _case(g, [n], 1, [], [])
    while True:
        names = [g.r.choice([g.r.choice(LEVELS), g.r.choice(LEVELS), g.bytes(8), "virtual", "Downhill", "downhill2", ""]) for _ in range(g.r.choice([0, 1, 3, 10, 70]))]
        if g.chance(0.6):
            names = list(dict.fromkeys(names))
        yield _case(g, g.r.choice([names, names, names, None]), g.r.choice([None, 0, 5, g.int(0, 1000)]), [c for c in COPY if g.bool()],
                    [x for x in (g.ident(), "citybook2", "score2", "k_root") if g.chance(0.3)])


def expect(vs):
    d = dict((a, b) for a, b in vs)
    kept, cnt = [], [0, 0, 0]
    for s in d.get("score", ["array", ["struct", []]])[1][1]:
        f = dict((a, b) for a, b in s[1])
        nm = f["file_name"][1]
        if nm not in LEVELS:
            continue
        tier = LEVELS.index(nm) // 4 % 4
        if tier:
            cnt[tier - 1] += 1
        kept.append(dict({k: f[k] for k in FIELDS[:6]}, key_type=["int", (4, 1, 2, 3)[tier]]))
    red = d["red_used"][1] if "red_used" in d else 0
    return {a: norm_var(b) for a, b in vs if a in COPY}, kept, cnt + [red]


def verify(got, case, what):
    copies, kept, cnt = expect(case["vars"])
    g = dict((a, b) for a, b in got)
    for k, v in copies.items():
        need(k in g and diff(v, g[k]) is None, "%s: book entry %s changed", what, k)
    for k in g:
        need(k in copies or k.startswith("k_"), "%s: unexpected entry %s", what, k)
    for k, n in zip(("k_wood_used", "k_silver_used", "k_gold_used", "k_red_used"), cnt):
        eq(g.get(k), ["array", ["int", [["int", n]]]], "%s: %s", what, k)
    sc = g.get("k_score")
    need(sc is not None and sc[0] == "array" and sc[1][0] == "struct", "%s: k_score missing", what)
    rec = [{k: v for k, v in dict((a, b) for a, b in e[1]).items() if k in FIELDS} for e in sc[1][1]]
    names = [r["file_name"][1] for r in rec]
    eq(names, sorted(names), "%s: record order", what)
    key = lambda r: repr(sorted(r.items()))  # noqa
    eq(sorted(map(key, rec)), sorted(map(key, kept)), "%s: records", what)


def check(dm, case):
    mod = dm.cmd("save_convert")
    stats = mk_vars(dm, case["vars"])
    out = mod.migrate_stats(stats)
    verify(un_vars(dm, out), case, "converted mapping")
    d = diff([[a, norm_var(b)] for a, b in case["vars"]], un_vars(dm, stats))
    need(d is None, "conversion changed its input: %s", d)
    with tempfile.TemporaryDirectory() as tmp:
        import argparse

        src, dst = os.path.join(tmp, "stats0"), os.path.join(tmp, "stats1")
        raw = enc_varfile(b"DF_STA", case["vars"])
        with open(src, "wb") as f:
            f.write(raw)
        ut = mod.SaveConvert()
        ps = argparse.ArgumentParser()
        ut.setup_parser(ps)
        eq(ut.main(ps.parse_args([src, dst])), 0, "exit code")
        data = open(dst, "rb").read()
        eq(open(src, "rb").read(), raw, "input file")
        eq(data[:6], b"DF_STA", "header")
        eq(int.from_bytes(data[8:12], "little"), len(data), "file size field")
        got = dec_var(BitSrc(data, 96), "struct")[1]
        verify(got, case, "converted file")
        d = diff(un_vars(dm, out), [[a, norm_var(b)] for a, b in got])
        need(d is None, "file differs from the converted mapping: %s", d)
