from ..adapt import diff, mk_vars, un_vars
from ..refcodec import enc_varfile, norm_var
from .base import Bad, eq, need, raises, reader, write_with

HD = ["DF_STA", "DF_CFG", "DF_FOG", "", "X", "\x00\xff", "DF_STA2", "DF_STB"]


def gen(g):
    for h in HD:
        for n in range(9):
            yield {"h": h, "h2": g.r.choice([x for x in HD if len(x) >= 6 and x != h]), "vars": [["b%d" % i, ["bool", i % 2 == 0]] for i in range(n)], "pre": n % 4, "post": n % 3}
    for n in (65535, 65536, 131070):
        yield {"h": "DF_STA", "h2": "DF_CFG", "vars": [["s", ["string", {"n": n, "s": 1}]], ["t", ["int", 5]]], "pre": 0, "post": 1}
    while True:
        yield {"h": g.r.choice(HD + [g.bytes(9)]), "h2": g.r.choice([x for x in HD if len(x) >= 6]), "vars": g.struct(3), "pre": g.r.randint(0, 9), "post": g.r.randint(0, 9)}


def check(dm, case):
    h, h2 = case["h"].encode("latin1"), case["h2"].encode("latin1")
    pre, post = bytes(range(7, 7 + case["pre"])), bytes(range(99, 99 + case["post"]))
    vs = mk_vars(dm, case["vars"])
    want = [[a, norm_var(b)] for a, b in case["vars"]]
    end = []

    def run(w):
        w.write_var_file(h, vs)
        end.append(w.bit_tell())
        w.write_bytes(post)

    out = write_with(dm, run, None, pre)
    ref = enc_varfile(h, case["vars"])
    eq(out, pre + ref + post, "written file")
    eq(end[0], 8 * (len(pre) + len(ref)), "stream position after writing")
    r = reader(dm, out, len(pre))
    got = r.read_var_file(h)
    d = diff(want, un_vars(dm, got))
    need(d is None, "read back: %s", d)
    eq((r.bit_tell() + 7) // 8, len(pre) + len(ref), "reader stops at the end of the file")
    if not h.startswith(h2) and not h2.startswith(h) or (h != h2 and len(h) == len(h2)):
        raises(dm.exceptions.LevelParseException, lambda: reader(dm, out, len(pre)).read_var_file(h2), "reading header %r as %r" % (h, h2))
    # overwriting in place inside a larger stream leaves the surroundings alone
    import io

    buf = io.BytesIO(pre + bytes([238] * (len(ref) + 5)))
    buf.seek(len(pre))
    w = dm.dfwriter.DFWriter(buf, noclose=True)
    w.write_var_file(h, vs)
    w.close()
    eq(buf.getvalue(), pre + ref + bytes([238] * 5), "in-place write")
