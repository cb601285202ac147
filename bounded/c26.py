"""C26 PartialFormatter"""
from harness import *
from virgo.util.partial_formatter import PartialFormatter
NCASES = {"quick": 30000, "thorough": 400000}
LIT = ["", " ", "a/b_", "{{", "}}", "%d", "snap_{{x}}", ":", "!r", "é"]

def case(rng, j, S, desc):
    nf = int(rng.integers(1, 5))
    vals = {}; 
    for i in range(nf):
        k = rng.integers(9)
        vals["n%d" % i] = [int(rng.integers(-5, 1000)), float(np.round(rng.normal() * 10, 3)), "s%d" % rng.integers(9), 0, [1, 2], "", 0.0, False, []][k]
    names = list(vals)
    t = ""; ph = ""; used = []
    supplied = {n: bool(rng.random() < 0.5) for n in names}
    for _ in range(int(rng.integers(1, 6))):
        t += LIT[rng.integers(len(LIT))]
        n = names[rng.integers(nf)]; v = vals[n]
        conv = ["", "", "!s", "!r", "!a"][rng.integers(5)]
        if conv:
            spec = ["", ":10s", ":>8", ":^20"][rng.integers(4)]
        elif isinstance(v, bool): spec = ""
        elif isinstance(v, int): spec = ["", ":d", ":03d", ":>6", ":x", ":+d", ":,d"][rng.integers(7)]
        elif isinstance(v, float): spec = ["", ":.3f", ":10.2e", ":<12"][rng.integers(4)]
        elif isinstance(v, str): spec = ["", ":10s", ":>5", ":*^9"][rng.integers(4)]
        else: spec = ""
        sub = ""
        if supplied[n] and rng.random() < 0.15:
            # parts of supplied values
            if isinstance(v, list) and len(v): sub, spec = "[1]", "" if not conv else spec
            elif isinstance(v, (int, float)) and not isinstance(v, bool): sub = ".real"
        t += "{" + n + sub + conv + spec + "}"; used.append((n, conv, spec))
    t += LIT[rng.integers(len(LIT))]
    ignore = bool(rng.random() < 0.5)
    desc.update(template=t, values=vals, supplied=supplied, ignore_missing=ignore)
    full = t.format(**vals)
    f = PartialFormatter(ignore_missing=ignore)
    kw = {}
    for n in names:
        if supplied[n]: kw[n] = vals[n]
        elif not ignore or rng.random() < 0.3: kw[n] = None
    # expected: literal text once substituted, remaining fields as they were
    want = ""; import string
    for lit, fld, spec, conv in string.Formatter().parse(t):
        want += lit
        if fld is None: continue
        one = "{" + fld + ("!" + conv if conv else "") + (":" + spec if spec else "") + "}"
        want += one.format(**vals) if supplied[fld.split(".")[0].split("[")[0]] else one
    got = f.format(t, **kw)
    expect(got == want, "text after partial formatting", got, want)
    if all(supplied[n] for n, _, _ in used): expect(got == full, "text with everything supplied", got, full)
    if "{{" not in t and "}}" not in t:
        missing = {n: vals[n] for n in names}
        # supplied values may themselves not contain braces, so this is the text formatted once
        again = got.format(**missing)
        expect(again == full, "text after formatting again", again, full)
        expect(f.format(got, **missing) == full, "text after formatting again (partial formatter)")
    miss = [n for n, _, _ in used if not supplied[n]]
    if miss:
        kk = {n: v for n, v in kw.items() if n != miss[0]}
        if not ignore:
            expect_raises(lambda: f.format(t, **kk), KeyError, "missing field " + miss[0])
        else:
            expect(f.format(t, **kk) == want, "text with a missing field")
    if rng.random() < 0.2:
        expect(PartialFormatter().format("{} {1}" if False else "{0:03d}-{0}-{x}", 7, x=None) == "007-7-{x}", "positional arguments")
    return (tuple(sorted(set((c, s) for _, c, s in used)))[:3], ignore, len(miss) > 0)
