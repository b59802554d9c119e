"""C20 no undefined behaviour, no undocumented panics: the entry points of the other properties, with only these two claims."""
import copy
import importlib
import re
from vt.core import H

SKIP = re.compile("a^")
# property -> which of its obligations (quick); None is all
PICK = {
    "c01": None, "c02": None, "c03": re.compile("div_(small|zero|less)|_form|_by_|checked|overflowing|wrapping"), "c04": None, "c05": None, "c06": None, "c07": None, "c08": None, "c09": None,
    "c10": re.compile(r"b(0|1|2[345]|5[345]|6[345]|10[345]|12[789]|191|192|25[3456]|\\d*7)$"), "c11": None,
    "c12": re.compile("radix(2|10|16|36)_(len[0-4]$|multi)|from_str|range|to_digit_radix36|radix16_len6|radix10_len7|radix2_len25|radix36_len5"), "c13": re.compile("len[0-9]$"),
    "c14": re.compile("_([128]|16|24|32|40|48|64|77|78|85|86|128|256)_f"), "c15": re.compile("ser_(default|decimal)_(1|16|32|64|77|78)(_neg)?$|de_.*(len[0-3]|multi|invalid)"), "c16": re.compile("_ser_|_pack_.*_(0|1|2|16|31|32)|(unpack|de)_.*_(len(0|1|2|31|32|33|34))$"),
    "c18": re.compile("bits(0|1|2|7|8|31|32)$|zero|one|two"), "c19": None, "c21": None, "c22": None, "c23": re.compile("len[0-3]$|multi"),
}
BUDGET = {"quick": 500, "thorough": 6000}
BOUNDS = ("as in the properties whose entry points are used (see their bounds); quick: a selection of their groups; general division (divisors of two words) is left to C03")
ASSUMPTIONS = ["where an obligation uses a stand-in for a kernel, the kernel's own obligations (C01-C05) explore its code"]
EXTRA = "use ethnum::serde::permissive;\n"


def only(spec):
    def f(i):
        r = spec(i)
        if isinstance(r, tuple):
            r = r[0]
        return {k: v for k, v in r.items() if k == "panic"}
    return f


def _load():
    global EXTRA
    mods = {n: importlib.import_module("props." + n) for n in PICK}
    ex = lambda n: getattr(mods[n], "EXTRA", "")
    EXTRA += ex("c23") + ex("c15") + "".join(ex(n) for n in PICK if n not in ("c12", "c13", "c14", "c15", "c16", "c22", "c23"))
    return mods


MODS = _load()


def obligations(tier):
    out = []
    keep = dict(H.all)
    made = {}
    for n, m in MODS.items():
        H.all.clear()
        for o in m.obligations(tier):
            if o.hints is not None or PICK[n] is not None and tier == "quick" and not PICK[n].search(o.name):
                continue
            o = copy.copy(o)
            key = n + "_" + o.h.name
            if key not in made:
                h = copy.copy(o.h)
                h.name = key
                made[key] = h
            o.h = made[key]
            o.name = n + "_" + o.name
            o.spec = only(o.spec)
            o.samples = min(o.samples, 1)
            if tier == "quick" and len(o.cfgs) > 2:
                o.cfgs = ("nd", "lr")
            out.append(o)
    H.all.clear()
    H.all.update(keep)
    H.all.update(made)
    return out
