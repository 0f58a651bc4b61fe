"""Tasks and bounds per property.  A core task is expected to complete within the quick budget; the
others deepen the bounds as far as time allows (what did not complete is listed in the evidence)."""
import re


class Task:
    def __init__(self, entry, params=(), merge=False, core=True, time=120, cost=0, opts=(), split=None):
        self.entry = entry
        self.params = list(params)
        self.opts = (["--merge"] if merge else []) + list(opts)
        if split:
            self.opts += ["--split", "%d/%d" % split]
        self.core = core
        self.time = time
        self.cost = cost
        self.name = entry + "(" + ",".join(map(str, self.params)) + ")" + (" merged" if merge else "") + (
            " part %d/%d" % split if split else "")


ASSUMPTIONS = [
    "rustc's LLVM IR (post-LTO, opt-level 2, overflow checks on) of the harness linked with /repo's crate is what is executed symbolically; "
    "the native replay of sampled paths uses the same sources compiled separately",
    "the executor's IR semantics, its expression simplifier and libz3 4.8.12 are trusted; single-byte predicates are "
    "decided by truth tables, each of which z3 confirms",
    "allocation never fails",
]

PROPS = {}
NA = {}
MEANING = {}


def meaning(prop, entry, v):
    if v["kind"] != "check":
        return v["kind"]
    m = MEANING.get((entry, v["id"])) or MEANING.get((prop, v["id"]))
    return m or "assertion %s of %s" % (v["id"], entry)


def prop(pid, feature, tasks, bounds, outside, reach=None, means=None, budget=None, assumptions=()):
    PROPS[pid] = dict(feature=feature, tasks=tasks, bounds=bounds, outside=outside, reach=reach or {},
                      assumptions=list(assumptions), budget=budget or {})
    for k, v in (means or {}).items():
        MEANING[(pid, k)] = v


NAME_MEANS = {1: "conversion from &[u8] disagrees with the grammar", 2: "conversion from &str disagrees with the grammar",
              3: "conversion from String disagrees with the grammar", 4: "the grammar accepts non-UTF-8 text",
              5: "the accepted name is not the input"}


def name_tasks(prefix, kinds, tier):
    """Short strings through all conversions; long ones (merged exploration) per conversion."""
    ts = []
    deep = tier == "thorough"
    for k in kinds:
        for n in range(0, 6):
            ts.append(Task(prefix + k, [n], cost=n))
        for n in range(6, 11):
            ts.append(Task(prefix + k, [n], merge=True, cost=n))
        longs = range(0, 301) if deep else [11, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200,
                                            253, 254, 255, 256, 257, 300]
        for conv in (0, 1, 2):
            for n in longs:
                if conv and not deep and n not in (64, 254, 255, 256, 257, 300):
                    continue
                ts.append(Task(prefix + k + "_long", [n, conv], merge=True, cost=n, time=300))
        for conv in (0, 1, 2):
            for first, unit in FAR[k]:
                for n in (128, 253, 254, 255, 256, 257, 300, 510, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65791, 70000):
                    ts.append(Task(prefix + k + "_far", [n, conv, first, unit], cost=n / 2000))
    return ts


# beginning and repeated part of long names
FAR = {"interface": [("a.", "b"), ("", "ab.c_9")], "error": [("a.", "b"), ("", "ab.c_9")], "member": [("", "M_9"), ("", "z")],
       "well_known": [("a.", "b"), ("", "ab.c-9")], "unique": [(":1.", "2"), (":", "ab.9-")], "bus": [(":1.", "2"), ("a.", "b-"), (":", "ab.9-"), ("", "a_b.c")],
       "path": [("", "/ab"), ("/", "c_9"), ("/", "/x")]}


def name_bounds(t):
    return ("every byte string of length 0..10 through &[u8], &str and String (with UTF-8 validity decided symbolically); "
            + ("every byte string of every length 0..300" if t == "thorough" else
               "every byte string of 24 lengths up to 300 including 253..257") + " through &[u8], and every ASCII string of "
            + ("the same lengths" if t == "thorough" else "six of these lengths") + " through &str and String; names of 22 "
            "lengths from 128 to 70000 of repeated parts with one arbitrary byte at the beginning, in the middle or at the end, through every conversion")


NAME_OUT = "other strings longer than 300 bytes; non-ASCII &str and String inputs longer than 10 bytes"


def name_reach(prefix, kinds):
    return {prefix + k + s: [1, 2] for k in kinds for s in ("", "_long")} | {prefix + k + "_far": [2] if k != "path" else [1, 2] for k in kinds}


# ---------------------------------------------------------------- C01
C01 = ["interface", "error", "member"]
prop("C01", "c01", lambda t: name_tasks("h_c01_", C01, t), name_bounds, NAME_OUT, name_reach("h_c01_", C01), NAME_MEANS)

# ---------------------------------------------------------------- C02
C02 = ["well_known", "unique", "bus"]
prop("C02", "c02",
     lambda t: name_tasks("h_c02_", C02, t)
     + [Task("h_c02_class", [n], merge=n > 4, cost=n) for n in list(range(0, 25)) + [255, 256]],
     lambda t: name_bounds(t) + "; classification and text of a generic bus name for every ASCII string of length 0..24, 255 and 256",
     NAME_OUT, dict(name_reach("h_c02_", C02), h_c02_class=[1, 2, 3]),
     {**NAME_MEANS, **{i + c: m for c in range(3) for i, m in
                       ((10, "misclassified"), (20, "text differs"), (30, "not equal to its text"), (40, "as_ref differs"))}})

# ---------------------------------------------------------------- C03
prop("C03", "c03", lambda t: name_tasks("h_c03_", ["path"], t) + [Task("h_c03_default")]
     + [Task("h_c03_path_long", [n, 0], merge=True, cost=n) for n in (512, 1000)],
     lambda t: name_bounds(t) + "; also every byte string of length 512 and 1000; the default path", "other lengths above 300; "
     "non-ASCII &str and String inputs longer than 10 bytes",
     dict(name_reach("h_c03_", ["path"]), h_c03_default=[1]), NAME_MEANS)


# ---------------------------------------------------------------- C04
def c04(tier):
    ts = []
    deep = tier == "thorough"
    for n in range(1, 6):
        for a in range(0, 4):
            for b in range(0, 3):
                ts.append(Task("h_c04_append", [n, a, b, 0], cost=n + a + b))
    for n, a, b in [(1, 8, 8), (2, 8, 3), (6, 6, 6), (8, 4, 4), (7, 12, 1), (10, 2, 2)]:
        ts.append(Task("h_c04_append", [n, a, b, 1], merge=True, cost=15))
    for n in (1, 2, 10, 255, 300, 4096):
        for m in (1, 2, 63, 64, 127, 128, 253, 254, 255, 256, 257, 300, 4096, 65535, 65536):
            ts.append(Task("h_c04_long", [n, m], cost=1 + m / 10000))
    for n, m in [(2, 1), (3, 2), (16, 15), (17, 16), (32, 31), (33, 32), (40, 10), (64, 63), (65, 64), (65, 1), (128, 128), (129, 128), (256, 255), (257, 1),
                 (300, 299), (300, 120), (4, 5), (100, 101)]:
        ts.append(Task("h_c04_many", [n, m]))
    for n in range(1, 9):
        for m in range(1, 9):
            if n + m > 13:
                ts.append(Task("h_c04_prefix", [n, m], merge=True, cost=20))
            else:
                ts.append(Task("h_c04_prefix", [n, m], cost=n + m))
    for n, m in [(9, 4), (10, 5), (10, 8), (11, 9), (12, 6), (12, 11), (16, 3), (17, 2), (18, 4)] + (
            [(n, m) for n in range(9, 15) for m in range(1, 15)] if deep else []):
        ts.append(Task("h_c04_prefix", [n, m], merge=True, core=False, cost=n + m, time=600 if deep else 60))
    return ts


prop("C04", "c04", c04,
     lambda t: "every valid path of 1..5 bytes and every UTF-8 text of up to 3 then up to 2 bytes appended; ASCII elements up to 12 bytes on "
     "paths up to 10 bytes for six length combinations; two appends in sequence. Every pair of valid paths up to 8 bytes each, and pairs of "
     + ("lengths up to 14x14" if t == "thorough" else "nine longer length combinations up to 18 bytes as time allows")
     + " for the prefix operations; elements of 15 lengths up to 65536 bytes with one arbitrary byte appended to paths of up to 4096 bytes; paths of up to "
     "300 elements made by appending, against prefixes in which one letter is arbitrary",
     "other longer paths and elements", {"h_c04_append": [1, 2], "h_c04_prefix": [1, 2], "h_c04_long": [1, 2], "h_c04_many": [1, 2]},
     {1: "result (append accepted / starts_with) is wrong", 2: "a refused append, or an element boundary, is wrong",
      3: "the resulting path is wrong", 4: "the result is not a valid path / element text is wrong",
      5: "appended path is not below the original / remaining element is not valid", 6: "the remaining elements are wrong",
      7: "strip_prefix_elements presence is wrong", 90: "a valid path is rejected"})


def windows(entry, width, fewer, extra=(), core=True, chunk=40, seeds=range(8), time=120, cost=10):
    """Every window of that many arbitrary bytes, at every offset of the seed messages."""
    return [Task(entry, [s, width, at, chunk, fewer] + list(extra), core=core, time=time, cost=cost)
            for s in seeds for at in range(0, 160, chunk) if at < SEED_LEN[s]]


# length of the seed messages (harness/src/msg.rs), rounded up
SEED_LEN = [40, 128, 128, 80, 120, 120, 80, 80]
BASIC = "ybnqiuxtdh"


def x(s):
    return s.encode().hex()


# ---------------------------------------------------------------- C05
def c05(tier):
    deep = tier == "thorough"
    ts = [Task("h_c05_all", [n], cost=20 * (n == 4)) for n in range(0, 5)]
    ts += [Task("h_c05_shape", [n], cost=30 * (n == 7)) for n in range(0, 8)]
    for runs in (1, 2, 3):
        for sib in (0, 1, 2):
            ts.append(Task("h_c05_deep", [runs, sib, 6 if runs < 3 else 3], cost=25 if runs == 3 else 5))
    ts += [Task("h_c05_weave", [g, 6], cost=g * 8) for g in (1, 2)] + [Task("h_c05_weave", [3, 3], cost=20)]
    for n in range(250, 258):
        for u in ("y", "ay", "(yv)", "{sv}", "a{oh}", "((x))g"):
            ts.append(Task("h_c05_long", [n, u], cost=2))
    for t in ("(..", "a..", "(y..)", "a{....}", "{..v}", "(a..(..))", "..a..", "ya{s(..)}", "a(yv..)", "{y{..y}}", "a..y..a", "((..)..)",
              "{..}", "a{y..", "({yv}..)", "(..a{..y})", "a{s..}(y..)"):
        ts.append(Task("h_c05_text", ["".join(c if c == "." else x(c) for c in t)], cost=6))
    ts += [Task("h_c05_str", [n], cost=20 * (n == 4)) for n in range(0, 5)]
    ts += [Task("h_c05_put", [t], cost=2) for t in ("y", "yu", "ay", "as", "(y)", "a{sv}", "(iv)as", "a{s(yv)}", "aa(o)g", "{yq}")]
    ts += [Task("h_c05_shape", [n], core=False, time=900, cost=40) for n in (8, 9) if deep]
    if deep:
        ts.append(Task("h_c05_all", [5], core=False, time=2400, cost=100))
        ts += [Task("h_c05_shape", [10], core=False, time=3000, cost=100)]
        ts += [Task("h_c05_deep", [3, s, 6], core=False, time=1200, cost=80) for s in (0, 1, 2)]
        ts += [Task("h_c05_weave", [g, 6], core=False, time=1200, cost=80) for g in (3, 4)]
    return ts


prop("C05", "c05", c05,
     lambda t: "every byte string of length 0..4, and as text if it is ASCII or begins with a two-byte character; any ASCII character put anywhere into 10 texts; every string of length up to %d over y v a ( ) { } and one invalid code; templates with up to "
     "three arbitrary bytes; nesting of 30..33 containers of one kind combined with runs of 1, 2 or 32 of others in every order, with "
     "siblings; lengths 250..257 with an arbitrary byte at the beginning, middle or end" % (10 if t == "thorough" else 7),
     "other strings of more than 4 bytes", dict(h_c05_all=[1, 2, 3], h_c05_str=[1, 2, 3], h_c05_put=[1, 2], h_c05_shape=[1, 2, 3], h_c05_text=[1, 2, 3], h_c05_deep=[1, 2, 3], h_c05_weave=[1, 2, 3],
                                                h_c05_long=[1, 2]),
     {1: "a signature is accepted or rejected wrongly", 2: "a single type is accepted or rejected wrongly",
      3: "parsing from text and from bytes disagree", 4: "single type from text and from bytes disagree",
      5: "the parsed types are wrong", 6: "rendering the signature does not give back its text",
      7: "a displayed type does not parse back to an equal type", 8: "the displayed types are not the text",
      9: "the single type differs from the signature", 10: "the alignment of a type is wrong"})


# ---------------------------------------------------------------- bodies
def bodies(entry, extra=(), v=4):
    """Signatures with completely symbolic bodies."""
    ts = []
    for le in (0, 1):
        for sig, ns in [("y", [0, 1, 2]), ("q", [2]), ("n", [2]), ("i", [4]), ("u", [3, 4, 5]), ("b", [4]), ("h", [4]), ("x", [8]), ("t", [8]),
                        ("d", [8]), ("s", [4, 5, 6, 7, 8, 9]), ("o", [5, 6, 7, 8]), ("g", [1, 2, 3, 4]), ("yu", [8]), ("yq", [4, 6]),
                        ("yx", [16]), ("ub", [8]), ("sy", [7, 8]), ("ys", [10]), ("yo", [11]), ("gu", [4, 6]), ("(y)", [1]), ("(qu)", [8]),
                        ("y(y)", [9]), ("ay", [4, 6, 8]), ("aq", [4, 8]), ("au", [8, 12]), ("at", [8, 16, 24]), ("ab", [8]), ("as", [10, 12]),
                        ("a(y)", [8, 9, 17]), ("a{yy}", [10]), ("a{ys}", [18]), ("aay", [9, 10]), ("yat", [16]), ("ayay", [11, 12]), ("ah", [8]),
                        ("hh", [8]), ("v", range(0, v + 1)), ("yv", [4]), ("{yq}", [4]), ("yyat", [12])]:
            for n in ns:
                ts.append(Task(entry, [sig, n, le] + list(extra), cost=10 if sig in ("v", "g", "yv", "as") else 1))
    return ts


def num(v, w, le):
    return v.to_bytes(w, "little" if le else "big").hex()


def templates(entry, extra=(), le=(0, 1)):
    """Bodies with fixed structure (signatures, some lengths) and symbolic leaves, paddings and lengths."""
    ts = []
    for e in le:
        n4 = lambda v: num(v, 4, e)
        sig = lambda s: "%02x" % len(s) + x(s) + "00"
        dots = lambda n: ".." * n
        for s, t in [
            # variants of each type, with the padding before the value symbolic
            ("v", sig("y") + dots(1)), ("v", sig("q") + dots(3)), ("v", sig("b") + dots(5)), ("v", sig("u") + dots(5)), ("v", sig("x") + dots(13)),
            ("v", sig("d") + dots(13)), ("v", sig("s") + dots(1 + 6)), ("v", sig("o") + dots(1 + 7)), ("v", sig("g") + dots(3)),
            ("v", sig("h") + dots(5)), ("v", sig("ay") + dots(8)), ("v", sig("at") + n4(8) + dots(12)),
            ("v", sig("(y)") + dots(3 + 1)), ("v", sig("(yq)") + dots(2 + 4)), ("v", sig("v") + sig("u") + dots(6)),
            ("v", sig("v") + sig("v") + sig("q") + dots(3)), ("v", sig("a{yv}") + "00" + dots(4) + dots(4) + dots(1) + sig("y") + dots(1)),
            # the signature of the variant symbolic, the rest plain
            ("v", "01..00" + dots(1)), ("v", "01..00" + "00" + dots(4)), ("v", "02....00" + dots(4)), ("v", "03......00" + "000000" + dots(1)),
            ("v", "..7900" + dots(2)), ("yv", dots(1) + sig("t") + "00000000" + dots(8)), ("vv", sig("y") + dots(1) + sig("q") + dots(1) + dots(2)),
            # arrays whose length is symbolic, with padding before the first element
            ("at", dots(4) + "00000000" + dots(8)), ("at", dots(8) + "0000000000000001"), ("yat", dots(8) + dots(8)),
            ("a(yy)", dots(4) + dots(4) + dots(2) + "000000000000" + dots(2)), ("a{yv}", dots(8) + dots(1) + sig("y") + dots(1)),
            ("as", dots(4) + n4(1) + "6100" + "0000" + n4(1) + "6200"), ("as", n4(14) + dots(4) + "6100" + dots(2) + n4(1) + "6200"),
            ("aas", dots(4) + dots(4) + n4(1) + "6100"), ("aay", n4(9) + dots(4) + ".." + dots(3) + "00000000"),
            ("aay", dots(4) + n4(0) + n4(2) + dots(2)), ("aau", n4(8) + dots(4) + dots(4)), ("aaay", n4(4) + dots(4)),
            ("a(sq)", n4(12) + "00000000" + n4(1) + "6100" + dots(2) + dots(2) + dots(2)), ("ayx", n4(1) + ".." + dots(3) + dots(8)),
            ("ayx", dots(4) + "01" + dots(3) + dots(8)), ("asu", n4(6) + n4(1) + "6100" + dots(2) + dots(4)),
            # structs and dict entries: padding of every member
            ("y(yx)", dots(8) + dots(8) + dots(8)), ("(y(y))", dots(1) + dots(7) + dots(1)), ("(yuyq)", dots(1) + dots(3) + dots(4) + dots(1) + dots(1) + dots(2)),
            ("((yx))y", "01" + dots(7) + dots(9)), ("a{qv}", n4(7) + dots(4) + dots(2) + sig("q") + dots(1) + dots(2)),
            ("a{sv}", n4(16) + dots(4) + n4(1) + "6b00" + sig("u") + dots(3) + dots(4)), ("a{ya{yy}}", n4(18) + "00000000" + "01" + dots(3) + dots(4) + dots(2)),
            # text: symbolic lengths and terminators, multi-byte characters
            ("s", dots(4) + "6162" + ".."), ("s", n4(4) + dots(4) + ".."), ("s", n4(2) + dots(2) + ".."), ("su", n4(3) + "616263" + dots(1) + dots(4)),
            ("su", n4(1) + ".." + ".." + dots(2) + dots(4)), ("o", n4(5) + "2f" + dots(4) + ".."), ("o", n4(4) + dots(4) + ".."), ("g", "03" + dots(3) + ".."),
            ("g", ".." + "7979" + "00"), ("gy", "02" + dots(2) + ".." + ".."), ("gu", "01" + dots(1) + "00" + dots(1) + dots(4)), ("gu", "02" + dots(2) + "00" + dots(4)), ("ss", n4(1) + "6100" + dots(2) + n4(1) + dots(2)),
            # descriptors
            ("hyh", dots(4) + ".." + dots(3) + dots(4)), ("ahh", n4(4) + dots(4) + dots(4)), ("vh", sig("h") + dots(1) + dots(4) + dots(4)),
            ("(hh)", dots(8)), ("a{yh}", n4(8) + "00000000" + ".." + dots(3) + dots(4)),
        ]:
            ts.append(Task(entry, [s, t, e] + list(extra), cost=5))
    return ts


BODY_BOUNDS = ("every body of the given length (up to 24 bytes) under 41 signatures in both byte orders; bodies with fixed structure and "
               "symbolic leaves, padding, lengths and terminators under 62 further signature/structure combinations in both byte orders "
               "(templates() in tasks.py)")
WINDOW_BOUNDS = "8 seed messages (all header fields, both byte orders, nested containers, variants, descriptors) with every window of "


# ---------------------------------------------------------------- C06
def c06(tier):
    deep = tier == "thorough"
    ts = []
    for n in range(3, 25):
        for mode in (0, 1, 2):
            ts.append(Task("h_c06_bytes", [n, mode], cost=n))
    ts += [Task("h_c06_bytes", [n, 0], cost=1) for n in range(0, 3)]
    ts += windows("h_c06_window", 3, 0, cost=8)
    ts += [Task("h_c06_cut", [s, c], cost=1) for s in range(8) for c in range(0, SEED_LEN[s] + 1)]
    ts += templates("h_c06_tmpl")
    for n in range(0, 6):
        ts.append(Task("h_c06_rule", ["", n, 0, ""], cost=n * 4))
    ts.append(Task("h_c06_rule", ["", 6, 1, ""], cost=20))
    for p, n, s in RULES:
        ts.append(Task("h_c06_rule", [x(p), n, 1, x(s)], cost=n))
    ts += windows("h_c06_window", 4, 1, core=False, time=300, cost=20)
    ts += [Task("h_c06_bytes", [n, m], core=False, time=1500 if deep else 30, cost=60) for n in (25, 26, 28, 32) for m in (1, 2) if deep or n < 26]
    if deep:
        ts += windows("h_c06_window", 5, 1, core=False, time=1200, cost=80, chunk=10)
        ts += windows("h_c06_window", 4, 0, core=False, time=900, cost=60, chunk=20)
        ts += [Task("h_c06_rule", ["", n, 1, ""], core=False, time=1800, cost=60) for n in (7, 8)]
    return ts


# rule text around symbolic bytes: (prefix, number of symbolic bytes, suffix)
RULES = ([("arg0='", n, "'") for n in range(0, 6)] + [("arg", n, "='a'") for n in range(0, 5)] + [("arg", n, "path='/'") for n in range(0, 5)]
         + [("path='", n, "'") for n in range(0, 4)] + [("type='", n, "'") for n in range(0, 3)] + [("sender='", n, "',member='a'") for n in range(0, 4)]
         + [("arg63='a", n, "'") for n in range(1, 4)] + [("eavesdrop=", n, "") for n in range(0, 5)] + [("member=a", n, ",type=error") for n in range(0, 5)]
         + [("", n, "='a.b'") for n in range(0, 5)] + [("arg0namespace=a", n, "") for n in range(0, 5)] + [("destination=':1.", n, "'") for n in range(0, 3)])

prop("C06", "c06", c06,
     lambda t: "every byte buffer of length 0..24; " + WINDOW_BOUNDS + ("3, 4 or (some codes left out) 5" if t == "thorough" else "3 (and, some codes left out, 4)")
     + " arbitrary bytes, and cut at every length with one arbitrary byte; body templates with symbolic parts; every match rule text of up to 5 "
     "bytes UTF-8 or 6 bytes ASCII, and rule templates with up to 5 arbitrary characters; descriptor lists of 1 and 2 entries",
     "messages that differ from the seeds in more places at once", dict(h_c06_bytes=[1, 2], h_c06_window=[1, 2], h_c06_cut=[1, 2],
     h_c06_tmpl=[1, 2], h_c06_rule=[3, 4]), {1: "more bytes reported than given", 2: "more descriptors reported than given"})


# ---------------------------------------------------------------- C07
def c07(tier):
    deep = tier == "thorough"
    ts = []
    for le in (0, 1):
        for sig, ns in [("", [0]), ("y", [1]), ("u", [4, 6]), ("s", [5, 6, 8]), ("as", [10, 12]), ("v", [4, 5]), ("ay", [4, 7]), ("(yv)", [4, 5]), ("at", [8, 16]),
                        ("h", [4]), ("o", [6, 7]), ("gy", [4]), ("a{yy}", [10])]:
            for n in ns:
                ts.append(Task("h_c07_body", [sig, n, le, 3], cost=4))
    ts += templates("h_c07_tmpl", [2], le=(1,) if not deep else (0, 1))
    ts += windows("h_c07_window", 2, 0, [3], cost=8)
    ts += [Task("h_c07_header", [k, n, le, 2], cost=6) for k in (1, 2, 3, 4) for n in range(1, 12) for le in (0, 1)]
    for s in range(8):
        for q in range(8):
            for at in ((0, 2, 4, 8, 12, 16, 20) if q == (s + 1) % 8 else (4,)):
                ts.append(Task("h_c07_stream", [s, q, at]))
    ts += windows("h_c07_window", 3, 0, [2], core=False, time=900 if deep else 60, cost=30, chunk=20)
    if deep:
        ts += windows("h_c07_window", 4, 1, [1], core=False, time=900, cost=60, chunk=10)
    return ts


prop("C07", "c07", c07,
     lambda t: "bodies of up to 16 arbitrary bytes under 13 signatures and the body templates, " + WINDOW_BOUNDS + ("4" if t == "thorough" else "2 or 3")
     + " arbitrary bytes; each accepted message cut at every place, and followed by up to 3 arbitrary bytes or by any other seed message",
     "other messages; longer arbitrary followers", dict(h_c07_body=[1, 2], h_c07_tmpl=[1, 2], h_c07_window=[1, 2], h_c07_header=[1, 3], h_c07_stream=[1, 2]),
     {1: "the reported length is out of range", 2: "the length depends on what follows the message", 3: "the message depends on what follows it",
      4: "rejected because of what follows", 5: "a truncated message is accepted", 6: "first of two messages differs", 7: "second of two messages differs",
      8: "second of two messages is not found", 9: "a message is rejected when another follows", 10: "the reported length is not the one the message declares",
      11: "decode and decode_with_fds report different lengths", 12: "decode and decode_with_fds give different messages"})


# ---------------------------------------------------------------- C09
def c09(tier):
    deep = tier == "thorough"
    ts = bodies("h_c09_body") + templates("h_c09_tmpl")
    for le in (0, 1):
        for n in range(1, 5):
            ts += [Task("h_c09_sig", [k, n, le, 0], cost=n * k) for k in (1, 2, 3) if k < 3 or n < 4]
        ts += [Task("h_c09_sig", [2, n, le, 1], cost=8) for n in (5, 8)]
        for sig, n in [("s", 7), ("u", 4), ("ay", 6), ("v", 4), ("(yq)", 4), ("g", 3), ("yq", 4), ("at", 16), ("as", 10), ("o", 6), ("b", 4), ("d", 8)]:
            ts.append(Task("h_c09_two", [sig, n, le], cost=8))
    ts += windows("h_c09_window", 2, 0, cost=8)
    ts += windows("h_c09_window", 3, 0, core=False, time=900 if deep else 60, cost=20)
    if deep:
        ts += windows("h_c09_window", 4, 1, core=False, time=900, cost=60, chunk=10)
    return ts


prop("C09", "c09", c09,
     lambda t: BODY_BOUNDS + "; every signature of up to 3 bytes with bodies of up to 4; " + WINDOW_BOUNDS + ("4" if t == "thorough" else "2 or 3")
     + " arbitrary bytes; pairs of bodies of up to 16 bytes each under one signature",
     "other messages; lists of more than two descriptors", dict(h_c09_body=[1, 2], h_c09_tmpl=[1, 2], h_c09_window=[1, 2], h_c09_sig=[1, 2], h_c09_two=[1, 2]),
     {1: "a decoded message cannot be encoded", 2: "the two encoders disagree", 3: "the encoding is not decoded completely", 4: "body values differ",
      5: "headers differ", 6: "a header field differs", 7: "the message cannot be split", 8: "the encoding cannot be decoded", 9: "body lengths differ",
      10: "the body is encoded differently from how it was received", 11: "two bodies decode to the same values (or one to two)"})


# Every key type with values of every alignment, and pairs of fields
DICTS = ["a{%s%s}" % (k, v) for k in "ybnqiuxtdsogh" for v in ("y", "q", "u", "t", "s", "v", "ay", "at", "(y)", "g", "h")]
FIELDS = ["y", "q", "u", "t", "s", "g", "v", "ay", "at", "(y)", "h", "b"]
PAIRS = ["a(%s%s)" % (a, b) for a in FIELDS for b in FIELDS] + ["(%s%s)y" % (a, b) for a in FIELDS for b in FIELDS]


# ---------------------------------------------------------------- C10
def c10(tier):
    deep = tier == "thorough"
    ts = bodies("h_c10_body", v=6) + templates("h_c10_tmpl")
    for le in (0, 1):
        for sig, n in [("s", 12), ("so", 12), ("(yv)", 7), ("av", 10), ("v", 6), ("ayy", 10), ("a(yq)", 16), ("o", 12), ("os", 12), ("ss", 14), ("a{sy}", 16), ("aas", 16)]:
            ts.append(Task("h_c10_body", [sig, n, le], cost=10))
        for n in range(0, 5):
            ts += [Task("h_c10_sig", [k, n, le, 0], cost=n * k) for k in (0, 1, 2, 3)]
        ts += [Task("h_c10_sig", [2, n, le, 1], cost=8) for n in (5, 8, 9)]
        ts += [Task("h_c10_value", [s, 1, 2, le]) for s in DICTS + (PAIRS if deep else PAIRS[le::2])]
        ts += [Task("h_c10_sig", [3, n, le, 1], core=False, time=900, cost=8) for n in (5, 8, 12) if deep or n < 12]
        ts += [Task("h_c10_body", ["(yv)", 8, le], core=False, time=300), Task("h_c10_body", ["v", 7, le], core=False, time=1200 if deep else 60)]
        if deep:
            ts += [Task("h_c10_sig", [4, n, le, 0], core=False, time=1800) for n in (1, 2, 3, 4)]
            ts += [Task("h_c10_sig", [4, n, le, 1], core=False, time=1800) for n in (8,)]
            ts += [Task("h_c10_body", [s, n, le], core=False, time=1800) for s, n in [("s", 24), ("as", 16), ("aay", 16), ("sv", 12), ("a{sv}", 24), ("vv", 8), ("o", 20)]]
    return ts


prop("C10", "c10", c10,
     lambda t: BODY_BOUNDS + "; every signature of up to 3 bytes with bodies of up to 4 bytes and of up to 2 bytes (without v and g) with up to 9; "
     "fixed signatures with up to 16 arbitrary bytes; arrays of up to 2 dict entries of 13 key and 11 value types, and of structs of every pair of 12 types", "bodies with more symbolic structure (longer strings, more elements)",
     dict(h_c10_body=[1, 2], h_c10_sig=[1, 2], h_c10_tmpl=[1, 2], h_c10_value=[1]),
     {1: "the reported length is wrong", 2: "the decoded values are wrong", 3: "a malformed body is accepted", 4: "a well-formed body is rejected"})


# ---------------------------------------------------------------- C12
def c12(tier):
    deep = tier == "thorough"
    ts = []
    for le in (0, 1):
        for n in range(0, 4):
            ts += [Task("h_c12_fields", [n, le, m], cost=10 * n) for m in (0, 1)]
        ts.append(Task("h_c12_fields", [4, le, 0], core=le == 0, cost=25, time=300))
    for c in (1, 2, 3, 4, 6, 7):
        ts += [Task("h_c12_name", [c, n, 0], cost=5) for n in range(0, 6)]
        ts += [Task("h_c12_name", [c, n, 1], cost=10) for n in (6, 7)]
    ts += [Task("h_c12_new", cost=20)]
    ts += windows("h_c12_window", 3, 0, cost=9)
    ts += windows("h_c12_window", 4, 1, core=False, time=900 if deep else 100, cost=30, chunk=20)
    if deep:
        ts += windows("h_c12_window", 5, 1, core=False, time=1200, cost=60, chunk=10)
        ts += [Task("h_c12_fields", [n, le, m], core=False, time=2000, cost=50) for le in (0, 1) for n, m in ((5, 0), (4, 1))]
        ts += [Task("h_c12_name", [c, n, 1], core=False, time=600) for c in (1, 2, 3, 4, 6, 7) for n in (8, 9, 10)]
    return ts


prop("C12", "c12", c12,
     lambda t: "headers with every type, flag, version and serial byte and up to %d fields in any order and repetition (nine kinds with symbolic contents; "
     "or any field code with values of nine types); every text of up to 5 bytes, and ASCII text up to %d bytes, as each name field; every combination of fields "
     "through the constructor; " % ((5, 10) if t == "thorough" else (4, 7)) + WINDOW_BOUNDS + ("5" if t == "thorough" else "3 or 4") + " arbitrary bytes",
     "headers with more fields at once", dict(h_c12_fields=[1, 2], h_c12_name=[1, 2], h_c12_window=[1, 2], h_c12_new=[1, 2]),
     {1: "message type", 2: "serial", 3: "path", 4: "interface", 5: "member", 6: "error name", 7: "destination", 8: "sender", 9: "reply serial", 10: "descriptor count",
      11: "signature", 12: "body", 13: "flags", 14: "byte order, flags or version", 20: "length", 21: "descriptors used", 22: "an ill-formed message is accepted",
      23: "a well-formed message is rejected", 30: "header construction accepts or refuses wrongly", 31: "serial of the header", 32: "type of the header",
      33: "field of the header"})


# ---------------------------------------------------------------- C13
def c13(tier):
    deep = tier == "thorough"
    ts = []
    n4 = lambda v, e: num(v, 4, e)
    for le in (0, 1):
        for sig, ns in [("", range(0, 10)), ("u", [3, 4, 5, 8]), ("s", range(4, 10)), ("ay", range(3, 10)), ("at", [4, 7, 8, 15, 16, 17]), ("yv", [1, 4, 5]),
                        ("uu", [4, 8, 9]), ("as", [8, 10, 12]), ("y", [0, 1, 2]), ("ayay", [8, 9, 10]), ("(yy)", [1, 2, 3]), ("a{yy}", [8, 10])]:
            for n in ns:
                for k in (1, 2, 3, 4) if sig in ("", "y", "u", "s", "ay") else (2,):
                    ts.append(Task("h_c13_declared", [sig, n, le, 0, k], cost=3))
                    if not sig:
                        ts.append(Task("h_c13_declared", [sig, n, le, 1, k], cost=3))
        for sig, t in [("ay", "........010203"), ("aq", "........010203040506"), ("as", "........" + n4(2, le) + "61620000" + n4(2, le) + "61620000"),
                       ("as", "........" + n4(2, le) + "616200"), ("a(yq)", "........00000000" + "0100000200000000" + "01000002"),
                       ("at", "........00000000" + "01" * 16), ("au", "........" + "01" * 12), ("aay", "........" + "........" + "0102030405060708"),
                       ("aau", "........" + "........" + "01020304" * 3), ("a(ay)", "........00000000" + "........" + "010203" + "00" + "00000000" + "01" * 4),
                       ("a{ys}", "........00000000" + "01000000" + n4(1, le) + "61000000" * 1 + "00000000" + "02000000" + n4(1, le) + "6200"),
                       ("av", "........" + "01790001" + "01790002" + "01790003"), ("ayu", "........0102030405060708"), ("a(y)y", "........00000000" + "0100000000000000" * 2 + "05"),
                       ("a(x)s", "........00000000" + "01" * 16 + n4(1, le) + "6100"), ("ab", "........" + n4(1, le) * 3), ("ao", "........" + (n4(1, le) + "2f000000") * 2),
                       ("ag", "........" + "017900" * 4), ("aah", "........" + "........" + n4(0, le) * 2), ("yay", "01000000........0102"),
                       ("v", "02617900" + "........0102"), ("v", "02617400" + "........" + "0102030405060708"), ("(ay)q", "........01020300" + "0102"),
                       ("aaay", "........" + "........" + "........" + "0102"), ("a{sas}", "........00000000" + n4(1, le) + "61000000" + "........" + n4(1, le) + "6100")]:
            ts.append(Task("h_c13_array", [sig, t, le], cost=6))
        for sig in ("ay", "an", "au", "at", "as", "ao", "ag", "av", "ab", "a(y)", "a{sv}", "aay", "ah", "a(xs)", "ad", "aas"):
            ts.append(Task("h_c13_limit", [sig, le]))
        ts.append(Task("h_c13_limit_fields", [le]))
    for s in range(8):
        ts += [Task("h_c13_fields", [s, b], cost=6) for b in (0, 1)]
        ts.append(Task("h_c13_seed", [s, 4, 4], cost=6))
        ts += [Task("h_c13_seed", [s, at, 4], core=False, cost=6, time=300 if deep else 20) for at in range(16, SEED_LEN[s] - 24, 4 if not deep else 1)]
    return ts


prop("C13", "c13", c13,
     lambda t: "every 32-bit declared body length with bodies of up to 17 arbitrary bytes under 12 signatures (absent and empty among them); every 32-bit array length "
     "before 25 concrete array contents, in both byte orders, arrays of arrays with both lengths symbolic; every header array length in 8 seed messages; every length from "
     "4096 to 2^32-1 against the limit for 16 element types and the header array",
     "arrays whose contents are really longer than 4096 bytes; that an array above the limit is rejected as such is observed through DecodeError::ArrayTooBig",
     dict(h_c13_declared=[1, 2], h_c13_array=[1, 2], h_c13_fields=[1, 2], h_c13_limit=[1, 2], h_c13_limit_fields=[1, 2], h_c13_seed=[1, 2]),
     {1: "the reported length is wrong", 2: "the decoded values are wrong", 3: "a wrong length is accepted", 4: "a right length is rejected", 5: "a length beyond the buffer is accepted",
      6: "rejected as too big although it is not", 7: "another length is reported as too big", 8: "a length above the limit is not rejected as too big",
      20: "length", 21: "descriptors used", 22: "an ill-formed message is accepted", 23: "a well-formed message is rejected"})


# ---------------------------------------------------------------- C14
def c14(tier):
    deep = tier == "thorough"
    ts = []
    for d in ([1, 0, 0], [2, 0, 0], [3, 0, 0], [4, 0, 0]):
        ts += [Task("h_c14_variants", d + [8 if d[0] < 3 else 4, s], cost=d[0] * 3) for s in (0, 1)]
    ts += [Task("h_c14_variants", [5, 0, 0, 3, s], cost=20) for s in (0, 1)]
    ts += [Task("h_c14_variants", [6, 0, 0, 2, 0], cost=6), Task("h_c14_variants", [8, 0, 0, 1, 0]), Task("h_c14_variants", [40, 0, 0, 1, 0])]
    ts += [Task("h_c14_variants", [a, b, c, 2, s], cost=12) for a, b, c in ((4, 4, 0), (2, 3, 0), (1, 5, 0), (5, 1, 0), (2, 2, 2), (4, 1, 4)) for s in (0, 1)]
    for v in (0, 1):
        ts += [Task("h_c14_types", [n, v, 6], cost=5 * n) for n in (1, 2)]
        ts += [Task("h_c14_array_type", [n, v, 6], cost=5 * n) for n in (1, 2)]
        ts += [Task("h_c14_types", [3, v, 3], cost=25), Task("h_c14_array_type", [3, v, 3], cost=25)]
        ts += [Task("h_c14_weave", [g, v, k, e], cost=10 * g) for g, k in ((1, 6), (2, 6), (3, 3)) for e in (0, 1)]
    ts += [Task("h_c14_mixed", [d], cost=5 * d) for d in (1, 2, 3, 4, 5, 6)]
    ts += [Task("h_c14_keys", [d, a], cost=5 * d) for d in (1, 2, 3, 4, 5, 6) for a in (0, 1)]
    ts += [Task("h_c14_length", [n, w]) for n in (1, 2, 251, 252, 253, 254, 255, 256, 257, 300) for w in range(5)]
    ts += [Task("h_c14_variants", [5, 0, 0, 4, 0], core=False, cost=30), Task("h_c14_variants", [2, 3, 0, 4 if deep else 3, 0], core=False, time=600)]
    if deep:
        ts += [Task("h_c14_variants", [2, 5, 0, 3, 1], core=False, time=900), Task("h_c14_variants", [6, 0, 0, 4, 0], core=False, time=1200),
               Task("h_c14_variants", [7, 0, 0, 3, 1], core=False, time=1200), Task("h_c14_variants", [4, 4, 4, 2, 1], core=False, time=1200)]
        ts += [Task("h_c14_types", [n, v, 6], core=False, time=1200) for v in (0, 1) for n in (3, 4)]
        ts += [Task("h_c14_array_type", [n, v, 6], core=False, time=1200) for v in (0, 1) for n in (3, 4)]
    return ts


prop("C14", "c14", c14,
     lambda t: "towers of up to 6 variants with each level in an array, struct, dict entry or nothing (all combinations), 8 and 40 bare levels, dict entries with a key of each of 12 types at any level, up to three towers side by "
     "side; types with up to %d runs of 1, 2, 30..33 arrays, structs or dict entries in every order around a value, around an empty array, and inside a variant; signatures of "
     "1..300 bytes in five places" % (4 if t == "thorough" else 3), "other nestings",
     dict(h_c14_variants=[1, 2], h_c14_types=[1, 2], h_c14_array_type=[1, 2], h_c14_length=[1, 2], h_c14_weave=[1, 2], h_c14_mixed=[1, 2], h_c14_keys=[1, 2]),
     {1: "variants nested too deep are decoded", 2: "decoded values are wrong", 3: "a permitted nesting of variants is rejected by the decoder",
      4: "the encoder's limit on nested variants is wrong", 5: "an array of a permitted type cannot be built", 6: "harness: limits", 7: "the encoder's limit on nested types is wrong",
      8: "the encoding cannot be decoded", 9: "the encoder's limit on the signature length is wrong", 10: "decoded values differ", 11: "the encoding cannot be decoded"})


# ---------------------------------------------------------------- values built through the API
VALUES = (["y", "b", "n", "q", "i", "u", "x", "t", "d", "s", "o", "g", "v", "ay", "aq", "au", "at", "ad", "as", "ao", "ag", "ab", "(y)", "(yx)", "(sq)", "a(yq)", "a(xs)",
           "a{yy}", "a{qs}", "a{xs}", "{yq}", "{sx}", "aay", "aat", "aas", "a(ay)", "(a(y)y)", "((y)x)", "(y(y(y)))", "a{sas}", "(ybnqiuxtd)", "yqyuyx", "sos", "gyg", "ysyt",
           "ayx", "asx", "yat", "(ay)q", "yyyat"])
VARIANTS = ["v", "yv", "av", "(yv)", "a{yv}", "vv", "a{sv}", "(vx)", "aav", "{sv}"]
FULL = "22222222"


def headers(entry, extra=(), deep=False):
    """Every combination of header fields for the four message types, with small bodies."""
    ts = []
    for k in (1, 2, 3, 4):
        # all fields optional at once, without and with a body
        ts.append(Task(entry, [k, FULL, ""] + list(extra), cost=25))
        for sig in ("y", "s", "v", "(yx)"):
            ts.append(Task(entry, [k, "00000222", sig] + list(extra), cost=4))
        ts.append(Task(entry, [k, "22220000", "sx"] + list(extra), cost=4))
        if deep:
            for sig in ("u", "as", "v", "a{sv}"):
                ts.append(Task(entry, [k, FULL, sig] + list(extra), core=False, cost=60, time=900))
    return ts


def values(entry, deep, extra=()):
    ts = [Task(entry, [s, 1, 2, 0]) for s in DICTS + PAIRS if "h" not in s or entry == "h_c11_body"]
    for s in VALUES:
        ts.append(Task(entry, [s, 2, 2 if s.count("a") < 2 else 1, 0], cost=3))
    for s in VARIANTS:
        for menu in range(4):
            if s in ("aav", "a{sv}") and menu == 2:
                continue
            ts.append(Task(entry, [s, 1, 1, menu], cost=3))
    for s, a, b, m in [("s", 5, 0, 0), ("as", 3, 2, 0), ("ay", 0, 6, 0), ("at", 0, 4, 0), ("a(yx)", 0, 3, 0), ("a{sy}", 1, 3, 0), ("av", 1, 2, 0), ("aas", 1, 2, 0), ("yv", 1, 1, 2),
                       ("av", 1, 2, 1), ("vav", 1, 1, 1), ("a{yas}", 1, 2, 0), ("aaay", 0, 2, 0)]:
        ts.append(Task(entry, [s, a, b, m], cost=8, core=False, time=600 if deep else 60))
    if deep:
        for s in VARIANTS + ["a{sa{sv}}", "a(sv)", "(a{sv}as)", "aaas", "a(a(y))", "asas"]:
            for m in (1, 2, 3):
                ts.append(Task(entry, [s, 2, 2, m], core=False, cost=30, time=1200))
    return ts


LONG = ("--path-steps", "2000000000")


def longs(entry, deep):
    ts = []
    for what, ns in [(0, [0, 1, 3, 4, 127, 128, 254, 255, 256, 257, 65535, 65536, 70000]), (1, [0, 1, 2, 3, 254, 255, 256, 300, 65535]), (2, [0, 1, 7, 8, 255, 256, 300, 4096]),
                     (3, [0, 1, 127, 128, 253, 254, 255]), (4, [1, 2, 127, 128, 251, 252, 253]), (5, [0, 1, 2, 3, 4, 5, 63, 100])]:
        ts += [Task(entry, [what, n], cost=2 + (n > 60000) * 10) for n in ns]
    # arrays of elements of every size; some of 65536 bytes
    for i, n in enumerate((32768, 16384, 8192, 16384, 8192, 8192, 16384, 16384, 8192, 8192, 21845)):
        ts += [Task(entry, [6 + i, k], cost=2) for k in (0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024)]
        ts += [Task(entry, [6 + i, k], cost=10, opts=LONG) for k in (n - 1, n, n + 1) if deep or i < 10]
    ts += [Task(entry, [2, n], cost=10, opts=LONG) for n in (65535, 65536, 65537)]
    return ts


VALUE_BOUNDS = ("values of %d body signatures (strings of up to 2 bytes with symbolic UTF-8, arrays of up to 2 elements, all numbers symbolic, variants of up to 4 levels), "
                "every sequence of %%d of %%d value types; strings of up to 70000 bytes, arrays of up to 65537 bytes (of twelve element types), signatures of up to 255 and structs of up to 253 "
                "members, at boundary lengths" % (len(VALUES) + len(VARIANTS)))
HEADER_BOUNDS = ("all four message types with every combination of mandatory and optional fields, symbolic byte order, flags, version, serial, reply serial and descriptor "
                 "count, and letters inside names symbolic")


# ---------------------------------------------------------------- C08
def c08(tier):
    deep = tier == "thorough"
    ts = headers("h_c08_header", deep=deep) + values("h_c08_body", deep) + longs("h_c08_long", deep)
    ts.append(Task("h_c08_types", [0, 0]))
    for f in range(22):
        ts += [Task("h_c08_types", [n, f], cost=4 * n) for n in (1, 2, 3)]
        if deep:
            ts.append(Task("h_c08_types", [4, f], core=False, cost=100, time=1500))
    return ts


prop("C08", "c08", c08,
     lambda t: HEADER_BOUNDS + "; " + VALUE_BOUNDS % (4 if t == "thorough" else 3, 22) + "; a stale or empty signature left in the header",
     "values with more symbolic structure", dict(h_c08_header=[1], h_c08_body=[1], h_c08_types=[1], h_c08_long=[1]),
     {1: "message type", 2: "serial", 3: "path", 4: "interface", 5: "member", 6: "error name", 7: "destination", 8: "sender", 9: "reply serial", 10: "descriptor count",
      11: "signature", 12: "body", 13: "flags", 14: "byte order, flags or version", 30: "the message cannot be encoded", 31: "the encoding is not decoded completely",
      32: "decoded values differ from the encoded ones", 33: "the decoded message is encoded differently", 34: "the encoding cannot be decoded",
      91: "an array of fitting elements is refused", 92: "a struct is refused"})


# ---------------------------------------------------------------- C11
def c11(tier):
    deep = tier == "thorough"
    ts = headers("h_c11_header", deep=deep) + values("h_c11_body", deep) + longs("h_c11_long", deep)
    for s in ("h", "ah", "(hy)", "a{hs}", "hvh", "yh"):
        ts.append(Task("h_c11_body", [s, 1, 2, 0], cost=3))
    ts.append(Task("h_c11_types", [0, 0]))
    for f in range(24):
        ts += [Task("h_c11_types", [n, f], cost=4 * n) for n in (1, 2, 3)]
        if deep:
            ts.append(Task("h_c11_types", [4, f], core=False, cost=100, time=1500))
    return ts


prop("C11", "c11", c11,
     lambda t: HEADER_BOUNDS + "; " + VALUE_BOUNDS % (4 if t == "thorough" else 3, 24), "values with more symbolic structure",
     dict(h_c11_body=[1], h_c11_types=[1], h_c11_header=[1], h_c11_long=[1]),
     {1: "the message cannot be encoded", 2: "the descriptors differ", 3: "the body is not aligned to 8 bytes or too short", 4: "the body bytes differ from the reference encoding",
      5: "the declared body length is wrong", 6: "the reference decoder finds another length", 7: "the reference decoder rejects the encoding",
      51: "byte order, type, flags or version differ", 52: "the serial differs", 53: "a name field differs", 54: "the reply serial differs", 55: "the descriptor count differs",
      56: "the signature differs", 91: "an array of fitting elements is refused", 92: "a struct is refused"})


# ---------------------------------------------------------------- C15
def c15(tier):
    deep = tier == "thorough"
    ts = [Task("h_c15_twice")]
    d = lambda n: ".." * n
    for le in (0, 1):
        n4 = lambda v: num(v, 4, le)
        for sig, t in [("h", d(4)), ("hh", d(8)), ("hhh", d(12)), ("hhhh", d(16)), ("ah", n4(4) + d(4)), ("ah", n4(8) + d(8)), ("ah", n4(12) + d(12)), ("ah", d(4) + d(8)), ("yh", d(1) + "000000" + d(4)),
                       ("(hh)", d(8)), ("(yh)h", d(8) + d(4)), ("v", "016800" + "00" + d(4)), ("vh", "016800" + "00" + d(4) + d(4)), ("hv", d(4) + "016800" + "00" + d(4)),
                       ("av", n4(8) + "016800" + "00" + d(4)), ("v", "02616800" + n4(8) + d(8)), ("v", "0428686829" + "00" + "0000" + d(8)), ("a{yh}", n4(8) + n4(0) + "01" + "000000" + d(4)),
                       ("a{hh}", n4(8) + n4(0) + d(8)), ("aah", n4(8) + n4(4) + d(4)), ("uh", d(8)), ("hu", d(8)), ("xh", d(12)), ("u", d(4)), ("i", d(4)), ("sh", n4(1) + "6100" + "0000" + d(4))]:
            for n in range(0, 6) if len(sig) < 3 or deep else (0, 1, 2, 4):
                ts.append(Task("h_c15_decode", [sig, t, le, n], cost=2))
            ts += [Task("h_c15_declared", [sig, t, le, n], cost=2) for n in ((0, 1, 2, 4) if deep else (0, 3))]
        ts += [Task("h_c15_declared", ["", "", le, n]) for n in (0, 1, 2, 3)]
        ts += [Task("h_c15_decode", ["h", d(4), le, n]) for n in (8, 16, 17, 64, 255, 256, 257)]
        ts += [Task("h_c15_decode", ["hh", d(8), le, n], core=False, cost=10) for n in (8, 16, 17, 33)]
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 253):
        ts += [Task("h_c15_many", [n, k], cost=2) for k in ((0, 2) if n > 200 else (0, 1, 2))]
    for sig, a, menu in [("", 0, 0), ("h", 0, 0), ("hh", 0, 0), ("hhh", 0, 0), ("ah", 3, 0), ("ah", 4, 0), ("ahah", 2, 0), ("a{yh}", 2, 0), ("a{hh}", 2, 0), ("a(hh)", 2, 0), ("aah", 2, 0), ("v", 1, 0), ("vv", 1, 0),
                         ("v", 1, 1), ("v", 1, 2), ("v", 2, 3), ("hv", 1, 0), ("vh", 1, 1), ("vh", 2, 3), ("av", 2, 0), ("av", 2, 1), ("av", 2, 3), ("a{yv}", 2, 0), ("a{yv}", 1, 2), ("vhv", 2, 0),
                         ("(hah)h", 2, 0), ("yhyh", 0, 0), ("shs", 0, 0), ("xhx", 0, 0), ("ahv", 3, 0), ("hhhhh", 2, 0), ("y", 0, 0), ("s", 0, 0), ("as", 1, 0), ("hvahv", 1, 0), ("({hh}ah)", 1, 0)]:
        for count in (0, 1):
            ts.append(Task("h_c15_encode", [sig, a, menu, count], cost=3))
    if deep:
        for sig, a, menu in [("hhhhhhh", 0, 0), ("ahah", 3, 0), ("ah", 6, 0), ("avav", 2, 3), ("a(hv)", 2, 2), ("aaah", 2, 0)]:
            ts.append(Task("h_c15_encode", [sig, a, menu, 1], core=False, cost=50, time=1200))
    return ts


prop("C15", "c15", c15,
     lambda t: "bodies with up to 4 symbolic 32-bit descriptor indices in 26 places (arrays, structs, dict entries, variants, next to other values) in both byte orders, with "
     "lists of 0..5 symbolic descriptors, and one or two indices with lists of up to 257 and 33; the same bodies with any number of descriptors in the header; values with up to %d descriptors, equal or different, in 36 places, with and without a "
     "count already in the header; 1..253 different descriptors, in an array, structures or variants, followed by any one; two messages one after the other" % (9 if t == "thorough" else 8), "more descriptors in one message",
     dict(h_c15_decode=[1, 2], h_c15_declared=[1, 2], h_c15_encode=[3, 4], h_c15_many=[6, 7], h_c15_twice=[5]),
     {1: "the reported length is wrong", 2: "the number of descriptors used is wrong", 3: "the decoded values are wrong", 4: "an index beyond the list is accepted",
      5: "an index inside the list is rejected", 6: "decoding without descriptors is wrong", 10: "the message cannot be encoded", 11: "the list of descriptors is wrong",
      12: "the encoded body is wrong", 13: "the declared count is wrong", 14: "the encoding is ill-formed", 15: "the encoding is not decoded completely", 16: "not all descriptors are used",
      17: "decoded values differ", 18: "the decoded count is wrong", 19: "encoding again differs", 20: "the encoding cannot be decoded", 21: "descriptors of the first message",
      22: "descriptors of the second message", 23: "descriptors of a message without any", 24: "one of many cannot be encoded", 25: "the list after many is wrong", 26: "the encoded index of one of many is wrong",
      27: "one of many is decoded wrongly"})


# ---------------------------------------------------------------- C16, C17
def rule_texts(entry, deep):
    ts = [Task(entry, ["", n, 0, ""], cost=n * 4) for n in range(0, 6)]
    ts += [Task(entry, ["", 6, 2, ""], cost=10)]
    for p, n, s in RULES:
        ts.append(Task(entry, [x(p), n, 1, x(s)], cost=n))
    # arguments and lists around every combination of the characters with a meaning
    for p, s in [("arg0=", ""), ("arg0='", "'"), ("arg1=a", ",arg2=b"), ("arg0='a'", "'b'"), ("member=a,arg0=", ""), ("arg0=\\", ""), ("arg3='b',arg4=", ",arg5='c'"), ("path=/", "")]:
        ts += [Task(entry, [x(p), n, 2, x(s)], cost=n) for n in (3, 4, 5, 6)]
        ts += [Task(entry, [x(p), n, 0, x(s)], cost=n) for n in (2, 3, 4)]
    for key in ("sender", "destination", "interface", "member", "path", "path_namespace", "type", "arg0namespace", "arg5", "arg62path", "eavesdrop"):
        ts += [Task(entry, [x(key + "="), n, 1, ""], cost=n) for n in (0, 1, 3, 4, 5)]
        ts += [Task(entry, [x(key + "='"), 4, 1, x("'")], cost=4), Task(entry, [x(key + "='a.b',"), 3, 1, ""], cost=4), Task(entry, [x(key), 3, 1, x("='a.b'")], cost=3)]
    for t in ("signal", "method_call", "method_return", "error"):
        for i in range(len(t)):
            ts.append(Task(entry, [x("type='" + t[:i]), 1, 1, x(t[i + 1:] + "'")]))
        ts += [Task(entry, [x("type='" + t), 0, 1, x("'")]), Task(entry, [x("type=" + t), 2, 1, ""])]
    for k in ("eavesdrop='true'", "eavesdrop='false'", "arg0namespace='a.b'", "path_namespace='/a'", "destination=':1.1'", "arg63='/'", "arg63path='/'", "arg10path='/a'"):
        for i in range(len(k)):
            ts.append(Task(entry, [x(k[:i]), 1, 0, x(k[i + 1:])]))
            if deep or i % 3 == 0:
                ts.append(Task(entry, [x(k[:i]), 2, 0, x(k[i:])]))
    ts += [Task(entry, ["", 7, 2, ""], core=False, cost=30, time=900 if deep else 60)]
    if deep:
        ts += [Task(entry, ["", 6, 1, ""], core=False, cost=60, time=1800), Task(entry, ["", 8, 2, ""], core=False, cost=60, time=1800)]
        ts += [Task(entry, [x("arg0="), n, 2, ""], core=False, cost=40, time=1200) for n in (7, 8, 9)]
        ts += [Task(entry, [x("arg"), n, 1, x("path=/")], core=False, cost=40, time=900) for n in (5, 6)]
    return ts


TEXT_BOUNDS = ("every text of up to 5 bytes of UTF-8 and of 6 over apostrophe, backslash, comma, equals sign and three plain characters; every key with up to 5 arbitrary ASCII characters as value, "
               "key prefixes and indices with up to 4 arbitrary characters, every single changed character in 12 complete rules, and up to 6 characters with a meaning in eight surroundings")


def c16(tier):
    deep = tier == "thorough"
    ts = rule_texts("h_c16_text", deep) + [Task("h_c16_index")]
    for n in range(0, 6):
        ts.append(Task("h_c16_args", [n, 99, 0], cost=n))
        ts += [Task("h_c16_args", [n, m, 0], cost=n + m) for m in range(0, 4) if n + m < 6]
    ts += [Task("h_c16_args", [n, 99, 1], cost=n) for n in (6, 7)]
    ts += [Task("h_c16_args", [n, m, 1], cost=6) for n, m in ((3, 3), (4, 2), (2, 4), (1, 5), (4, 3))]
    for k in range(11):
        ts += [Task("h_c16_rules", [1, 2, k], cost=2), Task("h_c16_rules", [2, 1, k], cost=4)]
        ts.append(Task("h_c16_rules", [3, 1 if k not in (0, 1, 6, 7) else 0, k], core=False, cost=30, time=900 if deep else 60))
    ts.append(Task("h_c16_rules", [0, 0, 0]))
    ts.append(Task("h_c16_rules", [2, 2, 0], cost=10))
    if deep:
        ts += [Task("h_c16_args", [n, 99, 1], core=False, cost=50, time=1200) for n in (8, 9, 10)]
        ts += [Task("h_c16_args", [n, 99, 0], core=False, cost=50, time=1200) for n in (6, 7, 8)]
    return ts


C16_MEANS = {1: "the number of rules differs", 2: "the rules differ", 3: "the encoding does not parse", 4: "the encoding means something else (reference parser)",
             5: "the encoding is ill-formed (reference parser)", 6: "the limit on the argument index is wrong", 7: "the argument's index or value differs"}
prop("C16", "c16", c16,
     lambda t: "lists of up to %d rules of the eleven kinds with symbolic letters; argument values of up to 5 bytes of UTF-8, and up to %d over the characters with a meaning, alone and in pairs; "
     "every index; for the converse " % (3 if t == "thorough" else 2, 10 if t == "thorough" else 7) + TEXT_BOUNDS, "longer values and lists",
     dict(h_c16_text=[1, 3, 4], h_c16_index=[1, 2], h_c16_args=[1], h_c16_rules=[1]), C16_MEANS)
def c17(tier):
    deep = tier == "thorough"
    ts = rule_texts("h_c17_text", deep)
    for w in range(17):
        for n in (1, 2, 3):
            ts += [Task("h_c17_words", [n, at, w, (w + n + at) % 2], cost=n) for at in range(n)]
        ts += [Task("h_c17_words", [4, at, w, w % 2], core=deep or (w < 2 and at == 0), cost=20) for at in ((0, 1, 2, 3) if deep else (0,))]
    return ts


prop("C17", "c17", c17, lambda t: TEXT_BOUNDS + "; keys of up to three (in part four) of 17 words and parts of words with values of every form", "longer arbitrary parts", dict(h_c17_text=[1, 2, 3], h_c17_words=[1, 2]),
     {1: "the number of rules is wrong", 2: "a rule is wrong", 3: "an ill-formed text is accepted", 4: "a well-formed text is rejected",
      5: "a single rule parsed by itself differs", 6: "a single rule is rejected by itself"})


# ---------------------------------------------------------------- C18
def c18(tier):
    deep = tier == "thorough"
    ts = [Task("h_c18_list", [0, 0])] + [Task("h_c18_far", [n], cost=2) for n in (0, 1, 2, 9, 10, 31, 61, 62, 63, 64)]
    for k in range(11):
        ts.append(Task("h_c18_list", [2, k], cost=5))
        ts.append(Task("h_c18_list", [3, k], core=deep or k not in (7, 8, 9), cost=25, time=300))
        if k not in (7, 8, 9):
            ts += [Task("h_c18_rule", [k, a], cost=3) for a in (0, 1)]
            continue
        for types in ("s", "o", "ss", "so", "os", "oo", "yo", "ys", "vss", "gos", "sss", "ysy", "v", "y", "g", "p", "sv", "sp", "vs", "ov", "ssv", "sssv", "yp"):
            ts.append(Task("h_c18_args", [k, types, 2, 2], cost=4))
        for types in ("s", "o", "ss"):
            ts += [Task("h_c18_args", [k, types, n, m], cost=6) for n in range(0, 5) for m in range(0, 5)]
        ts += [Task("h_c18_args", [k, "s", n, 0], cost=6) for n in (5, 6)]
    for k in range(11):
        ts += [Task("h_c18_many", [n, k], cost=3) for n in (4, 8, 9, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300)]
    if deep:
        ts += [Task("h_c18_list", [4, k], core=False, cost=60, time=1200) for k in range(11)]
        ts += [Task("h_c18_args", [k, t, n, m], core=False, cost=40, time=900) for k in (7, 8, 9) for t in ("s", "o", "ss") for n in range(3, 8) for m in range(3, 8)]
    return ts


prop("C18", "c18", c18,
     lambda t: "every rule kind with symbolic letters against messages of all four types that have or lack the fields it looks at, with related and unrelated names, paths and bus names of several "
     "shapes; argument rules on indices 0..3 with values of up to %d bytes of UTF-8 against 23 sequences of argument types with texts of up to %d bytes; lists of 0..%d rules of any kinds, and of 21 lengths up to 300 rules of which one may not match; "
     "indices 0..63 at the end of longer bodies" % ((7, 7, 4) if t == "thorough" else (4, 6, 3)), "longer values, paths with more elements, longer lists",
     dict(h_c18_rule=[1, 2], h_c18_args=[3, 4], h_c18_list=[5, 6], h_c18_many=[8, 9], h_c18_far=[7]),
     {1: "a rule matches wrongly", 2: "an argument rule matches wrongly", 3: "a list of one rule matches differently", 4: "a list of rules matches wrongly",
      5: "an argument rule at a far index matches wrongly", 6: "an argument path rule at a far index matches wrongly", 90: "a unique name is misclassified"})


# ---------------------------------------------------------------- C19
def c19(tier):
    deep = tier == "thorough"
    ts = []
    for k in (1, 2, 3, 4):
        for via in (0, 1, 2):
            for w in range(7):
                # with every field, or with those the reply depends on
                full = deep or (via != 2 and w in (0, 3, 4, 5))
                ts.append(Task("h_c19_reply", [k, FULL if full else "22201220", via, w, ""], cost=8))
    for w in range(7):
        ts += [Task("h_c19_reply", [k, "10100120", via, w, s], cost=2) for k, via, s in ((1, 2, "ay"), (1, 1, "d"), (4, 0, "s"), (1, 0, "a{sv}"))]
    for w in (1, 2, 6):
        ts += [Task("h_c19_long", [w, n], cost=2) for n in (0, 1, 3, 4, 127, 128, 255, 256, 4096)]
        ts.append(Task("h_c19_long", [w, 65536], cost=15))
    return ts


prop("C19", "c19", c19,
     lambda t: HEADER_BOUNDS + " (in the quick tier some kinds of reply with fewer optional fields), asked through the message, its header, or the message after decoding; all seven kinds of reply; error texts "
     "of up to 2 bytes of UTF-8, and of nine lengths up to 65536", "other texts", dict(h_c19_reply=[1, 2, 3], h_c19_long=[4]),
     {1: "message type", 2: "serial", 3: "path", 4: "interface", 5: "member", 6: "error name", 7: "destination", 8: "sender", 9: "reply serial", 10: "descriptor count",
      11: "signature", 12: "body", 13: "flags", 14: "byte order, flags or version", 31: "the answered message changed", 32: "an error for an absent field, or none for a present one",
      33: "a method return for another message type, or an error for a method call", 34: "the body of an error is not one string", 35: "the error text is wrong",
      36: "the reply is not decoded completely", 37: "the reply cannot be decoded", 38: "the reply cannot be encoded", 39: "the decoded text differs"})


# ---------------------------------------------------------------- C20
def c20(tier):
    deep = tier == "thorough"
    ts = []
    for what in range(5):
        for p in ("/", "/?", "/?A/b?"):
            for i in ("?.b", "a.?c.D"):
                for m in ("?", "M?_9") if what < 2 else ("?",):
                    for d in (":1.?", "d?.E-f"):
                        ts.append(Task("h_c20_make", [what, p, i, m, d, 4 if deep else 3, "y", 0]))
    for s in VALUES + ["v", "(yv)", "a{sv}", "av", "h"]:
        ts.append(Task("h_c20_make", [3, "/?", "?.b", "?", ":1.?", 1, s, 0], cost=2))
    for s in ("y", "s", "ay", "v", "(yv)", "a{sv}", "h", "d"):
        ts += [Task("h_c20_make", [3, "/?", "?.b", "?", ":1.?", 1, s, w], cost=2) for w in ((1, 2) if "v" in s else (1, 2, 3))]
    for k in (1, 2, 3, 4):
        ts.append(Task("h_c20_split", [k, FULL, ""], cost=15))
        ts += [Task("h_c20_split", [k, "00002000", s], cost=2) for s in ("y", "as", "a{sv}(yx)", "sd", "ayv", "yyy", "(s)u")]
        if deep:
            ts += [Task("h_c20_split", [k, FULL, s], core=False, cost=60, time=900) for s in ("y", "s", "v")]
    for w in range(5):
        ts += [Task("h_c20_long", [w, n]) for n in (5, 6, 64, 127, 128, 254, 255)]
    for w in (0, 4):
        ts += [Task("h_c20_long", [w, n], cost=5) for n in (256, 300, 65536)]
    ts += [Task("h_c20_many", [n, w], cost=2) for n in (1, 2, 128, 254, 255, 256, 257, 300, 512) for w in (0, 1)]
    return ts


prop("C20", "c20", c20,
     lambda t: "the five constructors with names of several shapes and symbolic letters, property names of up to %d bytes of UTF-8, property values of %d types with symbolic contents, some in up to three more variants; names of boundary "
     "lengths up to 255, paths and property names of up to 65536 bytes; splitting, adding values and setting the serial for %s and 7 bodies, with a stale signature in the header"
     % (4 if t == "thorough" else 3, len(VALUES) + 5, HEADER_BOUNDS), "other shapes of names; other bodies", dict(h_c20_make=[1], h_c20_split=[2], h_c20_long=[3], h_c20_many=[4, 5]),
     {1: "message type", 2: "serial", 3: "path", 4: "interface", 5: "member", 6: "error name", 7: "destination", 8: "sender", 9: "reply serial", 10: "descriptor count",
      11: "signature", 12: "body", 13: "flags", 14: "byte order, flags, version or the header's signature", 31: "the encoding is not decoded completely", 32: "descriptors used",
      33: "the decoded body differs", 34: "the encoding cannot be decoded", 35: "the message cannot be encoded", 36: "the serial is not the one set", 37: "the message cannot be split",
      38: "the body split off differs", 39: "the header's signature is not the body's", 40: "a field of the header differs from the message's", 41: "presence of a field differs",
      42: "put together again, the message is encoded differently", 43: "a message cannot be encoded", 44: "setting the serial changes something else", 45: "the serial is encoded wrongly",
      46: "the path differs", 47: "the interface or member differs", 48: "the destination or serial differs", 49: "the body differs", 50: "a message with a long name cannot be sent", 51: "the types reported for the body are not its types",
      52: "the encoder's limit on the signature of a body is wrong"})


# ---------------------------------------------------------------- C21
def c21(tier):
    deep = tier == "thorough"
    ts = []
    for n in (0, 1, 2):
        ts += [Task("h_c21_array", [n, t], cost=n) for t in range(28)]
    ts += [Task("h_c21_array", [3, t], core=False, cost=20, time=600 if deep else 60) for t in (range(28) if deep else (0, 9, 14, 18, 22))]
    ts += [Task("h_c21_struct", [n], cost=n * n) for n in range(0, 4)]
    for s in VALUES + ["h", "ah", "(hh)", "ss", "yayq"]:
        ts.append(Task("h_c21_type", [s, 1, 1, 0], cost=2))
    for s in VARIANTS + ["(a{y(sv)}x)as"]:
        for m in (0, 1, 3):
            ts.append(Task("h_c21_type", [s, 0, 1, m], cost=3))
    ts += [Task("h_c21_deep", [0, n], cost=1) for n in (1, 2, 3, 4)] + [Task("h_c21_deep", [1, n], cost=3) for n in (1, 2, 3, 16, 31, 32, 33, 34, 40)]
    ts += [Task("h_c21_deep", [2, n], cost=8) for n in (1, 2, 15, 16, 17, 31, 32, 33)]
    ts += [Task("h_c21_deep", [3, n], cost=30, core=False, time=600 if deep else 60) for n in ((1, 2, 10, 11, 31, 32, 33) if deep else (1, 11))]
    ts += [Task("h_c21_odd", [n, t], cost=3) for n in (3, 5, 9) for t in range(28)]
    ts += [Task("h_c21_odd", [n, t], cost=10) for n in (33, 257) for t in (0, 9, 14, 19, 22)]
    for le in (0, 1):
        for k, top in ((0, 3), (1, 6), (2, 5), (3, 4), (4, 2)):
            ts += [Task("h_c21_sig", [k, n, le], cost=4 * k * n) for n in range(0, top + 1)]
        ts += [Task("h_c21_sig", [k, n, le], core=False, cost=60, time=1200 if deep else 30) for k, n in ((2, 6), (3, 5), (4, 3), (4, 4)) + (((1, 7), (1, 8), (2, 8), (3, 6), (5, 2), (5, 4)) if deep else ())]
    ts += templates("h_c21_tmpl")
    return ts


prop("C21", "c21", c21,
     lambda t: "arrays of up to %d elements, each of any of 28 types, declared as any of them; structs of up to 3 members of any of these types; values of %d signatures; nesting of 1..40 containers of "
     "one kind; decoded bodies of up to 6 arbitrary bytes under every signature of up to 4 bytes (shorter bodies for longer signatures) and the body templates" % (3 if t == "thorough" else 2, len(VALUES) + len(VARIANTS) + 6),
     "other values", dict(h_c21_array=[1, 2], h_c21_struct=[3, 4], h_c21_type=[5], h_c21_deep=[6, 7], h_c21_odd=[10, 11], h_c21_tmpl=[8, 9], h_c21_sig=[8, 9]),
     {1: "an array of other elements is built", 2: "the array's element type differs", 3: "the elements differ", 4: "the type reported for an array is wrong", 5: "the elements returned differ",
      6: "an array of fitting elements is refused", 7: "an empty struct is built", 8: "the members differ", 9: "the type reported for a struct is wrong", 10: "the members returned differ",
      11: "a struct is refused", 12: "the reported type is wrong", 13: "the type reported for a part is wrong", 14: "no type is reported", 15: "the reported types do not render as the signature",
      16: "the message reports other types", 17: "the value is encoded under another signature", 18: "the encoding is ill-formed", 19: "the message cannot be encoded",
      20: "a permitted nesting has no type", 21: "the type of a nested value is wrong", 22: "a type is reported for a value nested too deep", 23: "a value nested too deep is encoded",
      24: "the number of decoded values differs from the signature", 25: "a decoded value does not have the type of the signature", 26: "the message reports other types than its signature",
      27: "a body under an ill-formed signature is accepted", 28: "structs or dictionary entries nested too deep have a type", 91: "an array of fitting elements is refused", 92: "a struct is refused"})


# ---------------------------------------------------------------- C22
def c22(tier):
    deep = tier == "thorough"
    ts = []
    top = 8 if deep else 6
    for k in range(7):
        for n in range(1, top + 1):
            if (k in (0, 1, 4, 6) and n < 3) or (k == 5 and n < 4):
                continue
            for m in range(0, top + 1):
                ts += [Task("h_c22_text", [k, n, m, c], core=n < 7, time=300, cost=n) for c in (0, 1, 2) if deep or c == 0 or abs(n - m) < 2]
        lo = 3 if k in (0, 1, 6) else 4 if k == 5 else 3 if k == 4 else 1
        for n in range(lo, top + 1):
            ts += [Task("h_c22_pair", [k, n, m], core=n + m < 13, time=300, cost=n + m) for m in range(lo, top + 1)]
        for n in (12, 64, 200, 254, 255) + ((256, 1000) if k == 3 else ()):
            ts += [Task("h_c22_long", [k, n, at], cost=2) for at in (0, n // 2, n - 1)]
    return ts


prop("C22", "c22", c22,
     lambda t: "every valid name of each of the seven kinds of up to %d bytes, made from bytes, text or String, compared with every ASCII text of up to %d bytes; every pair of valid names of up to these lengths; "
     "names of up to 255 bytes (paths 1000) that differ in one arbitrary letter" % ((8, 8) if t == "thorough" else (6, 6)), "other long names",
     dict(h_c22_text=[1], h_c22_pair=[2], h_c22_long=[1, 2]),
     {1: "the borrowed text differs", 2: "the displayed text differs", 3: "not equal to its own text", 4: "comparison with a text is wrong", 5: "a clone differs", 6: "the clone's text differs",
      7: "the converted text differs", 8: "a valid name is refused", 9: "equality of names is wrong", 10: "the order of names is wrong", 11: "the partial order is wrong", 12: "comparison operators disagree",
      13: "a unique name equals a well-known name"})


# ---------------------------------------------------------------- C23
def c23(tier):
    deep = tier == "thorough"
    ts = []
    for n in range(0, 25):
        for mode in (0, 1, 2) if n >= 3 else (0,):
            ts.append(Task("h_c23_bytes", [n, mode, 1 if n > 20 else 2], core=n < 24, time=300 if n < 24 or mode or deep else 60, cost=n * n / 10))
    for le in (0, 1):
        for sig, ns in [("", [0]), ("y", [0, 1]), ("q", [1, 2]), ("u", [0, 1, 2, 3, 4]), ("s", [3, 4, 5, 6, 7]), ("as", [4, 8, 10]), ("v", [0, 1, 2, 3, 4]), ("ay", [3, 4, 6]),
                        ("(yv)", [3, 4]), ("at", [4, 7, 8, 12, 16]), ("h", [0, 1, 3, 4]), ("ah", [3, 4, 7, 8, 9]), ("yh", [0, 1, 2, 7, 8]), ("o", [4, 5, 6]), ("g", [0, 1, 2, 3]), ("a{yy}", [8, 10]), ("yx", [1, 4, 8, 15, 16]), ("b", [3, 4]),
                        ("d", [7, 8]), ("aay", [8, 9]), ("ys", [8, 9])]:
            for n in ns:
                ts += [Task("h_c23_body", [sig, n, le, f, 3], cost=3) for f in ((0, 1, 2, 3) if sig in ("h", "ah", "yh") else (0,))]
    ts += templates("h_c23_tmpl", [0, 2], le=(0, 1) if deep else (1,))
    ts += windows("h_c23_window", 2, 0, [0, 2], cost=6)
    ts += [Task("h_c23_cut", [s, 1, 1], cost=8) for s in range(8)]
    ts += windows("h_c23_window", 3, 0, [1, 1], core=False, time=900 if deep else 60, cost=30, chunk=20)
    if deep:
        ts += [Task("h_c23_cut", [s, 1, 3], core=False, time=1200, cost=60) for s in range(8)]
        ts += windows("h_c23_window", 4, 1, [1, 1], core=False, time=900, cost=60, chunk=10)
    return ts


prop("C23", "c23", c23,
     lambda t: "every buffer of 0..24 bytes followed by up to 1 or 2 arbitrary bytes; bodies of up to 16 arbitrary bytes under 19 signatures and the body templates, complete or cut at every place, "
     "followed by up to 2 or 3 arbitrary bytes; " + WINDOW_BOUNDS + ("4" if t == "thorough" else "2 (and, as time allows, 3)") + " arbitrary bytes, and cut at every place with one arbitrary byte before it",
     "other messages; longer continuations", dict(h_c23_bytes=[2, 3], h_c23_body=[1, 2, 3], h_c23_tmpl=[1, 2, 3], h_c23_window=[1, 2, 3], h_c23_cut=[2, 3]),
     {1: "the reported length is out of range", 2: "the length of a truncated message is reported wrongly", 3: "the need of a truncated message is not between its length and that of the whole message",
      4: "a truncated message is not reported as incomplete", 5: "the reported length is not that of the buffer", 6: "no more bytes are needed than there are",
      7: "a message is complete before the bytes it was said to need", 8: "the reported length is not that of the longer buffer", 9: "the need changes before it is met, or remains after it is met",
      10: "the input is rejected before the bytes it was said to need", 11: "a rejected input is accepted when bytes follow", 12: "the rejection changes when bytes follow"})


# ---------------------------------------------------------------- C24
def c24(tier):
    deep = tier == "thorough"
    ts = []
    for k in range(7):
        for n in range(0, 8 if deep else 7):
            ts.append(Task("h_c24_name", [k, n, 0], core=n < 7, time=600, cost=n * n / 4))
            if n:
                ts += [Task("h_c24_name", [k, n, c], core=n < 6, time=600, cost=n * n / 4) for c in (1, 2) if deep or n < 6]
        for n in (254, 255, 256, 257, 300, 512, 65536, 70000):
            for c in (0, 1, 2):
                for first, unit in (("a.", "b"), (":1.", "2"), ("", "/ab"), ("", "M_9"), ("", "a.b")):
                    ts.append(Task("h_c24_name_far", [k, n, c, first, unit], cost=n / 5000))
    ts += [Task("h_c24_type", [n], cost=20 * (n == 4)) for n in range(0, 5)] + [Task("h_c24_type_shape", [n], core=n < 8, time=900, cost=n) for n in range(1, 10 if deep else 8)]
    for k in (0, 1, 2, 3, 5):
        for n in (1, 31, 32, 33, 34):
            ts += [Task("h_c24_type_deep", [k, n, o, m]) for o in (0, 1, 2) for m in (0, 1, 2, 31)]
    for n in range(250, 260):
        ts += [Task("h_c24_type_long", [n, u]) for u in ("y", "ay", "(yv)", "a{sv}", "((x))g")]
    for le in (0, 1):
        ts += [Task("h_c24_first", [at, le]) for at in (0, 1, 2)]
        for s in ("b", "ybb", "(bb)y", "v", "ab"):
            one = num(8, 4, le)
            before, after = {"b": ("", ""), "ybb": ("..000000", "00000000"), "(bb)y": ("00000000", ".."), "v": ("0162000000", ""), "ab": (one, "00000000")}[s]
            if s == "v":
                before = "01620000"
            ts.append(Task("h_c24_boolean", [s, before, after, le]))
        for s in ("yu", "yx", "ys", "yo", "gy", "(y)", "y(yx)", "as", "a(yu)", "yat", "a{yq}", "a{sv}", "(yv)", "v", "vv", "yv", "ayu", "aay", "ysy", "sg", "y{yt}", "yn", "yq", "yb", "yi", "yt",
                  "yd", "yao", "aau", "a(s)", "ya(y)", "ya{yy}", "yai", "yaq", "yaas", "(y(yy))", "yad", "yax"):
            for m in (0, 1, 2):
                ts.append(Task("h_c24_zero", [s, le, 2 if deep else 1, 2 if deep else 1, m], time=300))
        ts += [Task("h_c24_header_zero", [k, le]) for k in range(6)]
        for s, n in (("ay", 8), ("aq", 8), ("at", 12), ("as", 8), ("a(y)", 12), ("a{sv}", 20), ("aay", 8), ("av", 4), ("ad", 0)):
            ts.append(Task("h_c24_array", [s, n, le]))
        ts += [Task("h_c24_array_end", [w, le]) for w in (2, 4, 8)]
        for s, b in (("y", ".."), ("yu", "..000000" + ".." * 4), ("x", ".." * 8), ("v", "017900.."), ("ay", num(1, 4, le) + ".."), ("s", num(1, 4, le) + "6100"), ("(yy)", "...."), ("yyyyy", ".." * 5)):
            ts.append(Task("h_c24_length", [s, b, le]))
        ts += [Task("h_c24_unsigned", [t, le]) for t in (1, 2, 3, 4)] + [Task("h_c24_fd", [n, le]) for n in (0, 1, 2, 3, 8)]
        ts += [Task("h_c24_variants", [n, le]) for n in range(1, 9)]
        for t in "sogv":
            ts += [Task("h_c24_text", [t, n, le], cost=8 * (n > 3)) for n in range(0, 5)]
            if t in "so":
                ts += [Task("h_c24_text", [t, n, le], core=False, time=300, cost=20) for n in ((5, 6) if deep else (5,))]
        for c in (1, 2, 3, 4, 6, 7, 8):
            ts += [Task("h_c24_field_name", [c, n, le], cost=10 * (n > 3)) for n in range(0, 5)]
        for c in range(1, 10):
            ts += [Task("h_c24_field_type", [c, le]), Task("h_c24_field_twice", [c, le])]
        ts.append(Task("h_c24_field_code", [le]))
        ts += [Task("h_c24_missing", [t, le]) for t in (1, 2, 3, 4)]
    for k in ("type", "sender", "interface", "member", "path", "path_namespace", "destination", "arg0namespace", "eavesdrop", "arg1path", "arg63path"):
        ts += [Task("h_c24_rule_value", [k, n], cost=n) for n in range(0, 6 if deep else 5)]
    for k in ("arg", "type", "sender", "arg0path", "", "eavesdrop"):
        ts += [Task("h_c24_rule_key", [k, n], cost=n) for n in (1, 2, 3)]
    ts += [Task("h_c24_rule_wide", [k, n, z]) for k in ("", "t", "ty", "arg", "_9", "sender", "eavesdrop") for n in (2, 3, 4) for z in ("", "pe", "0", "path")]
    ts += [Task("h_c24_field_shape", [n], cost=5) for n in (0, 1, 2, 3, 4)]
    ts += [Task("h_c24_rule_index", [n, p], cost=n) for n in range(0, 6) for p in (0, 1)] + [Task("h_c24_arg")]
    ts += [Task("h_c24_mismatch", [n, t]) for n in (1, 2, 3, 5) for t in range(14)]
    ts += [Task("h_c24_encode", [k, n]) for k in range(6) for n in (1, 2, 31, 32, 33, 34, 40)] + [Task("h_c24_encode", [6, n]) for n in (0, 1, 2, 3, 4, 5, 6, 10)]
    ts += [Task("h_c24_encode_long", [n]) for n in (1, 254, 255, 256, 257, 300)] + [Task("h_c24_empty")]
    return ts


prop("C24", "c24", c24,
     lambda t: "names of each kind of up to 6 arbitrary bytes, and of up to 70000 bytes with one arbitrary byte; signatures of up to 4 arbitrary bytes, up to %d brackets, up to 34 nested containers inside up to 31 others, "
     "lengths 250..259; messages with one defect: the first three bytes, booleans, any padding byte or terminator of bodies of 38 signatures, padding in the header, array and body lengths (all 32-bit values), "
     "descriptor indices, 1..8 nested variants, texts of up to 4 bytes in bodies and header fields, header fields of wrong types, given twice, unknown or missing; match rule values of up to 4 characters, keys "
     "with up to 3 arbitrary characters or one of several bytes, header field entries of any shape with up to 4 members, argument indices of up to 5; arrays with one differing element, containers nested up to 40 deep and signatures of up to 300 types when encoding" % (9 if t == "thorough" else 7),
     "inputs with several defects (except names and signatures), where any of the errors may be reported",
     {e: r for e, r in dict(h_c24_name=[1, 2], h_c24_name_far=[1, 2], h_c24_type=[1, 2], h_c24_type_shape=[1, 2], h_c24_type_deep=[1, 2], h_c24_type_long=[1, 2], h_c24_first=[1], h_c24_boolean=[1, 2],
      h_c24_zero=[1, 2], h_c24_header_zero=[1, 2], h_c24_array=[1], h_c24_array_end=[1, 2], h_c24_length=[1, 2], h_c24_unsigned=[1, 2], h_c24_fd=[1, 2], h_c24_variants=[1, 2], h_c24_text=[1, 2],
      h_c24_field_name=[1, 2], h_c24_field_type=[1], h_c24_field_twice=[1], h_c24_field_code=[1], h_c24_missing=[1, 2], h_c24_rule_value=[1, 2], h_c24_rule_key=[1], h_c24_rule_wide=[1, 2], h_c24_field_shape=[1, 2], h_c24_rule_index=[1, 2, 3], h_c24_arg=[1, 2],
      h_c24_mismatch=[1, 2], h_c24_encode=[1, 2], h_c24_encode_long=[1, 2], h_c24_empty=[1]).items()},
     {1: "a bus name is reported as one of the other kind", 2: "what the error says is not true of the name", 3: "the error depends on the conversion", 4: "what the error says is not true of the signature",
      5: "what the error says is not true of the single type", 6: "the error depends on the conversion", 7: "the error depends on the conversion", 10: "a defect is not noticed", 11: "a message without a defect is rejected",
      12: "the error is not about the defect", 13: "elements that fit are reported not to", 14: "the ends of the array and of its elements are reported wrongly", 15: "elements beyond the end of the array are not noticed",
      16: "the ends of the body and of its values are reported wrongly", 17: "the error is not about the defect", 18: "an empty body with a signature is not reported", 19: "a fitting body is rejected",
      20: "the ends of the body and of its values are reported wrongly", 21: "a missing descriptor is not noticed", 22: "a present descriptor is reported missing", 23: "the descriptor is reported wrongly",
      24: "a missing value is reported wrongly", 25: "the error is not that of the text", 26: "the error is not that of the header field", 27: "the field of a wrong type is reported wrongly", 28: "a field of a wrong type is not reported",
      29: "the repeated field is reported wrongly", 30: "a repeated field is not reported", 31: "a field that is not missing is reported missing when decoding", 32: "a field that is not missing is reported missing",
      33: "decoding and constructing disagree about missing fields", 34: "the error is not that of the value", 35: "what the error says is not true of the rule", 36: "an argument index is accepted wrongly", 37: "the index is reported wrongly",
      38: "a number is reported as none", 39: "the error is not about the index", 40: "an argument index is accepted wrongly", 41: "the index is reported wrongly", 42: "an element of another type is not noticed",
      43: "fitting elements are refused", 44: "the types are reported wrongly", 45: "variants nested too deep are encoded", 46: "the variant depth is reported wrongly", 47: "an array within the limit is refused",
      48: "containers nested too deep are encoded", 49: "the depth is reported wrongly", 50: "the error is not about the depth", 51: "a signature that is too long is encoded", 52: "a signature that fits is refused",
      53: "the length is reported wrongly", 54: "the empty struct is reported wrongly", 55: "another character is reported", 56: "the character is not reported", 57: "an entry of a wrong shape is accepted", 58: "the shape of the entry is reported wrongly", 90: "the layout of a header differs"})


# ---------------------------------------------------------------- C25
# Prefix, text to repeat, number of times, suffix
LONG_RULES = [("arg0='", "x','\\'", 60, "'"), ("path='/", "a/", 1000, "a'"), ("arg0='", "a", 4000, "'"), ("sender='a.", "a.", 120, "a'"), ("arg0='", "\\'", 1000, "'"), ("type='signal'", ",arg1='b'", 64, "'a'"),
              ("type='signal'", ",arg1='b'", 1000, ""), ("arg0path='/", "a/", 1000, "'"), ("path_namespace='/", "aa/", 500, "a'"), ("type='signal',arg", "9", 8, "='a'"), ("arg", "9", 6, "='a'"),
              ("arg", "9", 6, "path='/a/'"), ("arg", "0", 15, "='a'"), ("arg", "1", 18, "='a'"), ("arg", "9", 18, "path='/'"), ("arg", "6", 1, "='a'"), ("arg0='a'", ",type='signal'", 30, ",")]


def c25(tier):
    deep = tier == "thorough"
    ts = []
    for n in range(0, 25):
        for mode in (0, 1, 2) if n >= 3 else (0,):
            ts.append(Task("h_c25_bytes", [n, mode], cost=n))
    ts += windows("h_c25_window", 2, 0, cost=4)
    ts += [Task("h_c25_number", [s, at, 1], cost=20 * (s in (4, 5)), time=300) for s in range(8) for at in range(0, SEED_LEN[s], 4)]
    ts += templates("h_c25_tmpl")
    for le in (0, 1):
        n4 = lambda v: num(v, 4, le)
        for s, b in (("", ""), ("y", ".."), ("ay", ".." * 4), ("ay", ".." * 4 + "0102"), ("as", ".." * 8 + "00"), ("at", ".." * 4 + "00000000" + ".." * 8), ("a(y)", ".." * 4 + "00000000" + ".."),
                     ("a{yv}", ".." * 4 + "00000000" + "01017900" + ".."), ("aay", ".." * 8), ("aaay", ".." * 12), ("s", ".." * 4 + "6100"), ("o", ".." * 4 + "2f00"), ("g", "..7900"), ("v", "..7900.."),
                     ("v", "02617900" + ".." * 4), ("vay", "01790005" + ".." * 4), ("ayay", n4(1) + "01000000" + ".." * 4), ("av", ".." * 4 + "01790001"), ("ah", ".." * 8), ("aq", n4(2) + ".." * 2 + ".." * 2),
                     ("aas", n4(8) + ".." * 4 + ".." * 4), ("a(ss)", ".." * 4 + "00000000" + ".." * 4), ("h", ".." * 4), ("aau", ".." * 4 + ".." * 4 + ".." * 4)):
            ts.append(Task("h_c25_declared", [s, b, le], cost=10))
    for n in range(0, 5):
        ts.append(Task("h_c25_rule", ["", n, 0, ""], cost=n * 2))
    for p, n, s in RULES:
        ts.append(Task("h_c25_rule", [x(p), n, 1, x(s)], cost=n))
    for kind in range(15):
        for n in (100, 1000, 8192) if deep else (100, 8192):
            ts += [Task("h_c25_long", [kind, n if kind < 11 else n // 8, le], cost=10, opts=["--path-steps", "900000000"]) for le in (0, 1)]
    ts += [Task("h_c25_many", p) for p in ([255, 0], [128, 0], [250, 1])]
    for p, part, n, s in LONG_RULES:
        ts.append(Task("h_c25_rule_long", [x(p), x(part), n, x(s)]))
    ts += windows("h_c25_window", 3, 1, core=False, time=900 if deep else 60, cost=20, chunk=20)
    ts += [Task("h_c25_number", [s, at, 0], core=False, cost=20, time=900 if deep else 60) for s in range(8) for at in range(0, SEED_LEN[s], 4)]
    ts += [Task("h_c25_rule", ["", n, 1, ""], core=False, time=900, cost=60) for n in ((5, 6, 7) if deep else (5,))]
    if deep:
        ts += windows("h_c25_window", 4, 1, core=False, time=900, cost=60, chunk=20)
        ts += [Task("h_c25_bytes", [n, m], core=False, time=900, cost=60) for n in (25, 26, 28, 32) for m in (1, 2)]
    return ts


prop("C25", "c25", c25,
     lambda t: "every byte buffer of length 0..24; " + WINDOW_BOUNDS + ("4 (some codes left out)" if t == "thorough" else "2 (and, as time allows, 3)")
     + " arbitrary bytes, and with every 32-bit number at every place that is a multiple of four; the body templates, and 24 bodies with arbitrary lengths inside that declare any body length; match rules of up to 4 "
     "bytes, and rule templates with up to 5 arbitrary characters; written-out arrays, strings and paths of up to 8192 elements and rules of up to 9000 characters with one arbitrary byte; the same inputs decoded and encoded again",
     "messages that differ from the seeds in more places at once; memory held by the caller's buffer, which decoding shares",
     dict(h_c25_bytes=[2], h_c25_window=[1, 2, 3], h_c25_number=[1, 2, 3], h_c25_tmpl=[1, 2, 3], h_c25_declared=[2], h_c25_rule=[4, 5], h_c25_long=[1, 2, 3], h_c25_many=[1, 3], h_c25_rule_long=[4, 5]),
     {1: "decoding with descriptors asks for more memory than the input warrants", 2: "decoding asks for more memory than the input warrants", 3: "encoding what was decoded asks for more memory than the input warrants",
      4: "parsing a match rule asks for more memory than the text warrants", 5: "rendering a match rule asks for more memory than the text warrants"})


# ---------------------------------------------------------------- C28
def c28(tier):
    deep = tier == "thorough"
    opts = ["--path-steps", "900000000"]
    ts = []
    for n in list(range(0, 17, 4)) + list(range(17, 25)):
        for mode in (0, 1, 2) if n >= 3 else (0,):
            ts.append(Task("h_c25_bytes", [n, mode], cost=n))
    ts += windows("h_c25_window", 2, 0, cost=4)
    ts += templates("h_c25_tmpl")
    ts += [Task("h_c25_number", [s, at, 1], cost=20 * (s in (4, 5)), time=300) for s in range(8) for at in range(0, SEED_LEN[s], 4)]
    for n in range(0, 5):
        ts.append(Task("h_c25_rule", ["", n, 0, ""], cost=n * 2))
    for p, n, s in RULES:
        ts.append(Task("h_c25_rule", [x(p), n, 1, x(s)], cost=n))
    for kind in range(15):
        for n in (100, 2000, 16384) if deep else (100, 16384):
            ts += [Task("h_c25_long", [kind, n if kind < 11 else n // 8, le], cost=20, opts=opts, time=300) for le in (0, 1)]
    ts += [Task("h_c25_many", p) for p in ([255, 0], [128, 0], [250, 1])]
    for p, part, n, s in LONG_RULES:
        for k in (1, 8):
            ts.append(Task("h_c25_rule_long", [x(p), x(part), n * k, x(s)], opts=opts))
    for p, part, s in (("arg0='", ",", "'"), ("arg0='", "x,\\'", "'"), ("arg0='", "'\\'", "a'"), ("path='/", "a/", "b'"), ("sender='", "a", "'"), ("", "arg1='',", ""), ("arg0=", "\\a", ""), ("arg0=", "\\'", ""), ("arg0=a", "''", "b"), ("arg0=", "'\\'a", ""), ("", ",", ""), ("arg0='", "a,", "'")):
        ts.append(Task("h_c25_rule_long", [x(p), x(part), 60000, x(s)], opts=opts, cost=3))
    for kind, p, part, n, s in LONG_TEXTS:
        ts.append(Task("h_c28_text", [kind, x(p), x(part), n, x(s)], opts=opts))
    for p, part, n, s in (("/", "a/", 8192, "b"), ("/", "a", 16384, ""), ("/", "ab_1/", 3000, ""), ("/a", "/a", 8192, "/a"), ("", "/abc", 4096, "")):
        for k in (1, 16):
            for cut, add in ((1, 6), (2, 1), (3, 1000), (4, 100000), (1001, 6), (8001, 6), (8002, 300), (10**6, 6)):
                ts.append(Task("h_c28_path", [x(p), x(part), n * k, x(s), cut, add], opts=opts))
    for p, part, n, s, t, args, text, path in LONG_MATCHES:
        text, path = (v if isinstance(v, str) else "|".join(map(str, v)) for v in (text, path))
        ts.append(Task("h_c28_match", [x(p), x(part), n, x(s), t, args, text, path], opts=opts))
    for kind in range(6):
        ts += [Task("h_c28_values", [kind, n], opts=opts) for n in (1, 100, 255, 8192)]
    for kind in range(6):
        ts += [Task("h_c28_deep", [kind, n], opts=opts) for n in (1, 5, 12, 20, 31, 33, 40, 64)]
    ts += windows("h_c25_window", 3, 1, core=False, time=900 if deep else 60, cost=20, chunk=20)
    if deep:
        ts += [Task("h_c25_number", [s, at, 0], core=False, cost=20, time=900) for s in range(8) for at in range(0, SEED_LEN[s], 4)]
        ts += windows("h_c25_window", 4, 1, core=False, time=900, cost=60, chunk=20)
    return ts


# Kind, prefix, text to repeat, number of times, suffix
LONG_TEXTS = [(0, "a.", "b.", 8000, "c"), (0, "a.", "b", 16000, ""), (0, "a.", "b", 251, "c"), (0, "a.", "b.", 125, "c"), (1, "a.", "b.", 8000, "c"), (1, "a.", "b.", 125, "c"), (2, "", "a", 16000, ""), (2, "", "a", 253, "b"),
              (3, "a.", "b-c.", 4000, "d"), (3, ":1.", "2.", 8000, "3"), (3, ":1.", "2.", 124, "3"), (3, "a.", "-", 252, ""), (4, "/", "a/", 8000, "b"), (4, "/", "a", 16000, ""), (4, "", "/a_", 5000, ""),
              (5, "", "y", 254, ""), (5, "", "y", 16000, ""), (5, "", "(", 32, "y" + ")" * 32), (5, "", "(", 31, "y" + ")" * 31), (5, "", "a", 31, "y"), (5, "", "a", 32, ""), (5, "", "(", 200, ""), (5, "", "a", 16000, "y"),
              (5, "", "(", 31, "yy" + ")" * 31), (5, "", "(y", 30, "y" + ")" * 30), (5, "", "(ay", 30, "y" + ")" * 30), (5, "", "a{y", 15, "}" * 15), (5, "", "a{yv}", 50, ""), (5, "", "a(", 15, "y" + ")" * 15),
              (5, "", "a(y", 20, "y" + ")" * 20), (5, "", "((y)", 30, "y" + ")" * 30), (5, "", "(y)", 84, ""), (5, "a{y", "(", 20, "y" + ")" * 20 + "}"), (5, "", "a{ya{y", 8, "}" * 16)]
# Prefix, text to repeat, number of times, suffix of the rules; type, number and text of the arguments; path
LONG_MATCHES = [("", "arg0='aa',", 0, "rg0='aa'", 0, 64, "aa", "/a"), ("arg0='a',", "arg1='aa',", 1, "type='signal'", 0, 255, "aa", "/"), ("path_namespace='/", "a/", 1000, "'", 0, 0, "", "/" + "a/" * 1001 + "b"),
                ("path='/", "a/", 1000, "'", 0, 0, "", "/" + "a/" * 1000 + "b"),
                ("path_namespace='/", "a/", 4, "'", 0, 0, "", ("/", "a/", 60000, "a")), ("path_namespace='/", "a/", 60000, "'", 0, 0, "", ("/", "a/", 60001, "b")), ("path='/", "a/", 60000, "'", 0, 0, "", ("/", "a/", 60000, "a")),
                ("arg3path='/", "a/", 60000, "'", 0, 4, ("/", "a/", 60000, "b"), "/a"), ("arg3path='/", "a/", 60000, "a/'", 0, 4, ("/", "a/", 300, "a"), "/a"), ("arg0namespace='a.", "b.", 120, "'", 0, 1, ("a", ".b", 60000, ""), "/a"), ("arg3path='/", "a/", 1000, "'", 1, 5, "/" + "a/" * 1001 + "b", "/a"), ("arg3='/", "a/", 1000, "'", 0, 8, "/" + "a/" * 1000 + "b", "/a"),
                ("arg3path='/", "a/", 1000, "'", 0, 64, "/a/", "/a"), ("arg0namespace='a.", "b.", 120, "'", 0, 3, "a." + "b." * 120 + "cd", "/a"), ("arg0namespace='a.", "b.", 120, "'", 0, 3, "b", "/a"), ("arg9='", "a", 4000, "'", 0, 64, "a" * 4001, "/"),
                ("arg63='", "a", 400, "'", 0, 4096, "a" * 401, "/"), ("arg63path='/", "a", 400, "'", 2, 4096, "a", "/"), ("sender='a.", "b.", 10, "'", 2, 1000, "a", "/")] + [
                 ("type='method_call'", ",arg%d='ab'" % i, 1, ",member='M'", 0, 64, "ab", "/") for i in (0, 33, 63)] + [
                 (",".join("arg%d='ab'" % i for i in range(64)), "", 0, "member='M'", 0, 64, "ab", "/")]
prop("C28", "c28", c28,
     lambda t: "every byte buffer of length 0..24 (some shorter lengths left out); " + WINDOW_BOUNDS + "2 (and, as time allows, 3) arbitrary bytes, and with every 32-bit number at every place that is a multiple of four; the body templates; match "
     "rules of up to 4 bytes, and rule templates with up to 5 arbitrary characters; written-out arrays, strings, paths, names, signatures, rules and lists of up to 16384 elements with one arbitrary byte; long paths against "
     "long paths, rule lists against messages of up to 4096 arguments, containers of up to 8192 values, values up to 64 deep",
     "work done by the allocator; what the processor takes for an instruction; inputs that differ from the seeds in more places at once",
     dict(h_c25_bytes=[2], h_c25_window=[1, 2, 3], h_c25_number=[1, 2, 3], h_c25_tmpl=[1, 2, 3], h_c25_rule=[4, 5], h_c25_long=[1, 2, 3], h_c25_many=[1, 3], h_c25_rule_long=[4, 5], h_c28_text=[1, 2], h_c28_path=[1, 2],
          h_c28_match=[1, 2, 3], h_c28_values=[1], h_c28_deep=[1]),
     {1: "decoding with descriptors, or reading a text, takes too long or does not end", 2: "decoding, or comparing paths, takes too long or does not end", 3: "encoding what was decoded, or extending a path, takes too long or does not end",
      4: "parsing or matching a list of match rules takes too long or does not end", 5: "rendering a list of match rules, or matching one by one, takes too long or does not end", 6: "making a container, or its type, takes too long or does not end",
      7: "the type, or comparing values, takes too long or does not end", 8: "adding values and the signature take too long or do not end", 9: "encoding values takes too long or does not end"})


# ---------------------------------------------------------------- C29
# Texts of each kind, with arbitrary characters at the dots (as hexadecimal templates)
def dotted(t):
    return "".join(".." if c == "?" else x(c) for c in t)


C29_TEXTS = [["a.b??", "c.d??", "?.b", "aaa.b?", "a.?", "a.?-b.c"], ["a.b??", "c.d??", "?.b", "aaa.b?", "a.?", "a.?-b.c"], ["ab??", "cd??", "?", "??b", "aaaa", "ab?c"], ["a.b??", ":1.?", "a-?.b", "?a.b", ":?.1", ":1.2?", "ab??"],
             ["/a??", "/b??", "/?", "/a/b?", "?a", "/", "/a/?b", "/a?/b", "/a/b/??", "/a/?/c/d"],
             ["?y", "a?", "(?y)", "(yy)?", "a{s?}", "(a?)", "aa?", "a{?v}a{yv}", "v?", "", "yyyy?", "?u", "a{yu}", "a{u?}", "(s?)", "(u?)"],
             ["arg0='a?'", "arg?='ab'", "type='signal'?", "member='A?'", "path='/?'", "path_namespace='/?'", "sender='a.b?'", "interface='a.b?'", "arg?path='/a'", "eavesdrop='true'?", "type='?',arg0='a'", "arg0namespace='a.?'", "",
              "arg0=a\\?", "arg0='a''?'", "arg0=?'b'c", "arg1='b',arg?='c'", "destination=':1.?'"]]
C29_SIGS = ["y", "q", "u", "s", "o", "g", "v", "as", "ay", "at", "(sq)", "(v)", "a{sv}", "a{yq}", "a(yu)", "aay", "yy", "", "av", "h", "ah", "d", "su", "vv", "uuh", "hyh"]


def c29(tier):
    deep = tier == "thorough"
    ts = []
    for s in range(8):
        for o in (s, (s + 1 + s % 3) % 8):
            for first in (0, 1):
                ts += [Task("h_c29_window", [s, 2 if o == s or deep else 1, at, 20, first, o], cost=2 if o == s else 3) for at in range(0, SEED_LEN[o], 20)]
    ts += templates("h_c29_tmpl")
    for t in ts:
        if t.entry == "h_c29_tmpl" and (t.params[1].count(".") > 48 or t.params[0] in ("g", "gy", "gu", "v", "o")):
            t.core, t.time = False, 600
    if not deep:
        ts = [t for t in ts if t.core]
    for i, a in enumerate(C29_SIGS):
        ts += [Task("h_c29_encode", [a, b, 1, 1], cost=2) for j, b in enumerate(C29_SIGS) if a + b != "vvvv" and (deep or a == b or (i + 2 * j) % 4 == 0 or "h" in a and "h" in b)]
        ts += [Task("h_c29_failed", [a, why], cost=2) for why in range(4) if a]
    for k, l in enumerate(C29_TEXTS):
        ts += [Task("h_c29_text", [k, dotted(a), dotted(b)], cost=len(a + b) // 4) for i, a in enumerate(l) for j, b in enumerate(l) if deep or len(a) == len(b) or (i + 2 * j) % 5 == 0]
    for a in ("/??", "/a??", "/a/b?", "/", "/?/?"):
        ts += [Task("h_c29_path", [dotted(a), dotted(b)]) for b in ("/??", "/a?/?", "/a/b", "/", "/a/b/c?")]
    for r in ("arg0='?a'", "arg0='a?'", "arg0path='/a?'", "arg0path='/a'", "arg0path='/a/'", "path_namespace='/a'", "path='/a/?'", "member='a?'", "interface='a.b'", "arg0namespace='a.b'", "arg1='a'", "type='signal',member='ab'"):
        for a, b in (("??", "??"), ("/a?", "/?b"), ("/a/?", "/ab"), ("a.b", "a.b.?"), ("a?", "/a?"), ("a.?b", "?a"), ("/a/?", "/a?b"), ("/a?b", "/a/b"), ("a.b.?", "a.b?d"), ("a.b?c", "a.bc?")):
            ts += [Task("h_c29_match", [dotted(r), dotted(a), dotted(b)]), Task("h_c29_match", [dotted(r), dotted(b), dotted(a)])]
    for a in ("y", "u", "s", "v", "ay", "as", "(ys)", "a{sv}", "aay", "(y)"):
        for b in ("y", "u", "s", "v", "ay", "as", "(ys)", "a{sv}", "aay", "(y)"):
            ts += [Task("h_c29_make", [a, b, t]) for t in sorted({a, b})]
    if deep:
        ts += [Task("h_c29_window", [s, 3, at, 20, first, s], core=False, time=600, cost=20) for s in range(8) for first in (0, 1) for at in range(0, SEED_LEN[s], 20)]
        ts += [Task("h_c29_text", [k, ".." * n, ".." * n], core=False, time=600) for k in range(7) for n in (2, 3)]
    return ts


prop("C29", "c29", c29,
     lambda t: "pairs of operations, each repeated after the other, with fixed other operations between: the eight seeds with every window of %s arbitrary bytes against themselves and another; two instances of each body template%s; messages "
     "under %s two of %d signatures (strings and arrays of up to 1), and with four that can not be encoded between; names, paths, signatures and rules of given shapes with 1 to 4 arbitrary ASCII characters against each other; paths, and rules against two messages; arrays and "
     "structures of every two of ten types" % ("2 or 3" if t == "thorough" else "2 (1 against the other)", "" if t == "thorough" else " with up to 24 arbitrary bytes, but for variants, paths and signatures", "every" if t == "thorough" else "a quarter of every", len(C29_SIGS)),
     "longer histories; several threads (the library uses none and shares nothing mutable)",
     dict(h_c29_window=[1, 2, 3], h_c29_tmpl=[1, 2, 3], h_c29_encode=[4], h_c29_failed=[11], h_c29_text=[5, 6], h_c29_path=[7], h_c29_match=[8, 9], h_c29_make=[10]),
     {1: "decoding the same bytes again gives another result", 2: "decoding the same bytes again gives another result", 3: "encoding a message again gives another result", 4: "encoding a message again gives another result",
      5: "changing a clone changes the original", 6: "the type of a value changes", 7: "parsing the same text again gives another result", 8: "parsing the same text again gives another result", 9: "changing a clone of a path changes the original",
      10: "operations on the same paths give another result", 11: "matching the same message again gives another result", 12: "making the same container again gives another result"})


# ---------------------------------------------------------------- C26
def c26(tier):
    deep = tier == "thorough"
    ts = [Task("h_c26_one")]
    for c in (2, 3, 4, 6, 7):
        for n in range(0, 8 if deep else 6):
            ts.append(Task("h_c26_text", [c, n, 0], merge=n > 5, cost=n))
        ts += [Task("h_c26_text", [c, n, 1]) for n in range(2, 6)]
        for n in (8, 10, 12, 20):
            ts.append(Task("h_c26_text", [c, n, 0], merge=True, core=False, time=600 if deep else 60, cost=n))
        for n in (31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 300, 512, 1000):
            ts += [Task("h_c26_long", [c, n, first, unit]) for first, unit in (("a.", "b"), (":1.", "2"), ("", "M_9"), ("", "ab.c_9"))]
    ts += [Task("h_c26_text", [c, n, 0]) for c in (0, 1, 5, 8, 9, 10, 255) for n in (0, 1, 2)]
    ts += [Task("h_c26_list", [n], cost=3 * n) for n in (0, 1, 2, 3)]
    ts += [Task("h_c26_all", [f, st, r], cost=3 * r) for st in (1, 2, 4, 5, 7, 8) for f in range(9) for r in (0, 1) if deep or not r or (f + st) % 3 == 0]
    ts += [Task("h_c26_form", [f], cost=2) for f in range(16)]
    ts.append(Task("h_c26_list", [4], core=False, time=900 if deep else 100, cost=50))
    return ts


prop("C26", "c26", c26,
     lambda t: "lists of one entry of every code and 21 types (strings of up to %d arbitrary ASCII characters, or 5 bytes beginning with a two-byte character; names of 13 lengths up to 1000 with one arbitrary character); "
     "up to 3 valid entries of any codes; every subset of the nine fields in 54 orders, also with one field given again; entries of 16 wrong forms before, between and after valid ones" % (7 if t == "thorough" else 5),
     "longer lists of entries that are wrong in several ways; other long names",
     dict(h_c26_one=[1, 2], h_c26_text=[1, 2], h_c26_long=[1, 2], h_c26_list=[1, 2], h_c26_all=[1, 2], h_c26_form=[1, 2]),
     {1: "a list of header fields is accepted or refused wrongly", 2: "the header fields differ from the list", 3: "the list has another number of entries than fields are present", 4: "the list made of header fields is not valid",
      5: "the list made of header fields has other fields", 6: "converting back gives other fields", 7: "the list made of header fields is refused"})


# ---------------------------------------------------------------- C27
def c27(tier):
    deep = tier == "thorough"
    ts = []
    for k in (1, 2, 3, 4):
        for how in ("00000000", "11111111"):
            ts += [Task("h_c27_header", [k, how, p]) for p in range(14)]
        for p in range(4, 12):
            ts.append(Task("h_c27_header", [k, "".join("2" if i + 4 == p else "0" for i in range(8)), p], cost=2))
            if deep:
                ts.append(Task("h_c27_header", [k, "22222222", p], core=False, time=600, cost=40))
    sigs = ["y", "b", "n", "q", "i", "u", "x", "t", "s", "o", "g", "h", "v", "as", "ay", "(sq)", "(v)", "a{sv}", "{sy}", "a(yu)", "aay", "yy", "", "av", "at", "ah", "(((y)))", "sy", "a{yas}"]
    for a in sigs:
        for b in sigs:
            many = a == b and a not in ("a{sv}", "a{yas}")
            ts.append(Task("h_c27_body", [a, b, 1, 1], cost=0 if a == b else 3))
            if many:
                ts.append(Task("h_c27_body", [a, b, 2, 2], cost=1))
    ts.append(Task("h_c27_double"))
    ts += [Task("h_c27_type", [a, b], cost=(a + b) // 3) for a in range(1, 5) for b in range(a, 5)]
    ts += [Task("h_c27_type", [a, 5], core=False, time=900 if deep else 100, cost=50) for a in range(1, 6)]
    ts += [Task("h_c27_basic"), Task("h_c27_rule")] + [Task("h_c27_hash", [k]) for k in range(4)]
    if deep:
        ts += [Task("h_c27_body", [a, a, 4, 3], core=False, time=600, cost=30) for a in sigs]
    return ts


prop("C27", "c27", c27,
     lambda t: "headers, header fields and messages of every type with all or only the mandatory fields (arbitrary numbers, 1 to 3 shapes of each text with arbitrary letters), compared with one that may differ in any one part, given, missing or "
     "of another shape; bodies under every two of 29 signatures (arbitrary numbers, strings of up to 2 bytes, arrays of up to 2 elements); all doubles that are numbers or infinite; types of every two signatures of up to %d codes, "
     "and every two basic types inside four containers; every two match rules (3 shapes of each text, argument values of up to 2 bytes, every index)" % (5 if t == "thorough" else 4),
     "longer texts and lists; what is not a number (never equal)",
     dict(h_c27_header=[1, 2], h_c27_body=[3, 4], h_c27_double=[5], h_c27_type=[6, 7], h_c27_basic=[6, 7], h_c27_rule=[8, 9], h_c27_hash=[10]),
     {1: "a valid header is refused", 2: "equality of headers is wrong", 3: "the order of headers is wrong", 4: "a clone differs", 5: "equality of header fields is wrong", 6: "the order of header fields is wrong",
      7: "equality of messages is wrong", 8: "the order of messages is wrong", 9: "equality of values is wrong", 10: "the order of values is wrong", 11: "equality of messages is wrong", 12: "the order of messages is wrong",
      13: "equality of doubles is wrong", 14: "the order of doubles is wrong", 15: "equality of types is wrong", 16: "the order of types is wrong", 17: "equal types hash differently", 18: "equality of match rules is wrong",
      19: "equal names hash differently", 20: "equal names are not equal"})
