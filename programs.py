"""C28: programs which use the library from several translation units.

A case is a generated consumer program: 1..4 translation units (one possibly in a
shared library), each with its own sequence of library headers (only those that
document what the unit uses), its own compiler, language version, optimisation
level, way of naming the library (qualified, project level, implicit), names of its
own that equal names of the library, and a straight-line list of library calls,
evaluated from main or during static initialisation.

Oracles: the program builds; every value equals that of the same calls in one unit
that includes engabra.hpp (differential); products, sums and unary operations equal
the Clifford algebra evaluated here (reference); projectVersion() and
sourceIdentity() give the strings the library was built with; results have the
documented static types and constants can be used in constant expressions.

A failing program is shrunk (units, headers, calls, options) and saved as JSON."""
import concurrent.futures
import hashlib
import json
import math
import os
import random
import subprocess
import time

# one letter per type
TYPES = {"S": "Scalar", "V": "Vector", "B": "BiVector", "T": "TriVector", "P": "Spinor", "I": "ImSpin",
         "C": "ComPlex", "D": "DirPlex", "M": "MultiVector"}
GRADES = {"S": "S", "V": "V", "B": "B", "T": "T", "P": "SB", "I": "VT", "C": "ST", "D": "VB", "M": "SVBT"}
FIELD = {"S": "theSca", "V": "theVec", "B": "theBiv", "T": "theTri"}
DIM = {"S": 1, "V": 3, "B": 3, "T": 1}
BLADES = "SVBT"
# left, right, result
MIXED = {
    "BiVector": "BSP BVD BPP BDD BMM", "ComPlex": "CSC CTC CDM CMM", "DirPlex": "DVD DBD DCM DMM",
    "ImSpin": "IVI ITI IPM IMM", "MultiVector": "MSM MVM MBM MTM MPM MIM MCM MDM", "Scalar": "SBP STC SPP SCC SMM",
    "Spinor": "PSP PBP PIM PMM", "TriVector": "TSC TVI TII TCC TMM", "Vector": "VBD VTI VII VDD VMM",
    "same": "SSS VVV BBB TTT PPP III CCC DDD MMM"}
MUL = {
    "BiVector": "BdB BSB BVI BBP BTV BPP BII BCD BDM BMM", "ComPlex": "CdC CSC CVD CBD CTC CPM CIM CCC CDD CMM",
    "DirPlex": "DdD DSD DVM DBM DTD DPM DIM DCD DDM DMM", "ImSpin": "IdI ISI IVP IBI ITP IPI IIP ICM IDM IMM",
    "MultiVector": "MCM MDM MMM", "Scalar": "SdS SSS SVV SBB STT SPP SII SCC SDD SMM",
    "Spinor": "PdP PSP PVI PBP PTI PPP PII PCM PDM PMM", "TriVector": "TdT TST TVB TBV TTS TPI TIP TCC TDD TMM",
    "Vector": "VdV VSV VVP VBI VTB VPI VIP VCD VDM VMM", "double": "dSS dVV dBB dTT dPP dII dCC dDD dMM"}
DUAL = dict(zip("SVBTPICDM", "TBVSIPCDM"))
# differences which the library returns negated (known finding of C04): no absolute oracle
SUB_KNOWN = {"BS", "BV", "TS", "TV", "PS", "PB"}

ALL = ["engabra.hpp", "Engabra"]
BIN = {}  # op -> list of (left, right, result, headers)
for _op, _nm, _tab in (("+", "Add", MIXED), ("-", "Sub", MIXED), ("*", "Mul", MUL)):
    for _h, _l in _tab.items():
        for _t in _l.split():
            BIN.setdefault(_op, []).append((_t[0], _t[1], _t[2], ["g3ops%s_%s.hpp" % (_nm, _h), "g3ops%s.hpp" % _nm]))
HEADERS = sorted({h for v in BIN.values() for e in v for h in e[3]} | set(ALL) | {
    "g3type.hpp", "g3const.hpp", "g3compare.hpp", "g3func.hpp", "g3io.hpp", "g3validity.hpp", "g3traits.hpp",
    "g3opsUni.hpp", "g3ops.hpp", "g3publish.hpp"})
USER_NAMES = ["Scalar", "Vector", "BiVector", "TriVector", "Spinor", "ImSpin", "ComPlex", "DirPlex", "MultiVector",
              "e1", "e2", "e3", "e12", "e23", "e31", "e123", "zero", "one", "null", "pi", "piHalf", "dirverse",
              "oddverse", "dual", "magnitude", "magSq", "direction", "inverse", "amplitude", "ampSq", "sq", "cube",
              "logG2", "sqrtG2", "isValid", "nearlyEquals", "io", "blade", "is", "priv", "g3",
              "count", "distance", "left", "right", "plus", "array", "vector", "string", "pair", "function", "norm",
              "conj", "complex", "hex", "setw", "transform", "inner_product", "numeric_limits",
              "PI", "TWO_PI", "EPS", "TOL", "DIM", "SQ", "ABS", "NaN", "NULLVAL"]
STDHDRS = ["algorithm", "array", "cmath", "complex", "iostream", "string", "vector", "numeric", "limits", "utility"]
COMPILERS = [("g++", 4), ("clang++", 2)]


# --- reference algebra: dicts from basis bit masks to numbers
MASK = {"S": [0], "V": [1, 2, 4], "B": [6, 5, 3], "T": [7]}
SIGN = {5: -1.0}  # e31 = -e13


def to_mask(t, comps):
    out, i = {}, 0
    for g in GRADES[t]:
        for m in MASK[g]:
            out[m] = comps[i] * SIGN.get(m, 1.0)
            i += 1
    return out


def from_mask(t, d):
    return [d.get(m, 0.0) * SIGN.get(m, 1.0) for g in GRADES[t] for m in MASK[g]]


def mask_mul(a, b):
    out = {}
    for x, va in a.items():
        for y, vb in b.items():
            n, s = 0, x >> 1
            while s:
                n += bin(s & y).count("1")
                s >>= 1
            out[x ^ y] = out.get(x ^ y, 0.0) + (-1.0 if n & 1 else 1.0) * va * vb
    return out


def ref_eval(st, val):
    """components of a statement from those of its operands, or None"""
    k = st["k"]
    if k == "lit":
        return list(st["c"])
    a = [val[i] for i in st.get("a", [])]
    if any(x is None for x in a):
        return None
    if k == "bin":
        (ta, ca), (tb, cb) = a
        if st["op"] == "-" and ta + tb in SUB_KNOWN:
            return None
        ma = {0: ca[0]} if ta == "d" else to_mask(ta, ca)
        mb = {0: cb[0]} if tb == "d" else to_mask(tb, cb)
        if st["op"] == "*":
            m = mask_mul(ma, mb)
        else:
            s = 1.0 if st["op"] == "+" else -1.0
            m = {g: ma.get(g, 0.0) + s * mb.get(g, 0.0) for g in range(8)}
        return from_mask(st["t"], m)
    if k == "uni":
        (ta, ca), = a
        m = to_mask(ta, ca)
        if st["f"] == "dual":
            m = mask_mul({7: 1.0}, m)
        else:
            flips = {"-": "SVBT", "reverse": "BT", "oddverse": "VT", "dirverse": "VB"}[st["f"]]
            m = {g: -v if any(g in MASK[x] for x in flips) else v for g, v in m.items()}
        return from_mask(st["t"], m)
    return None


# --- generation
def num(rng):
    r = rng.random()
    if r < 0.35:
        return float(rng.randint(-4, 4))
    if r < 0.85:
        return rng.randint(-4000, 4000) / 1000.0
    return rng.choice([0.5, -0.25, 1.0, -1.0, 3.0, 1e-3, 64.0])


def gen_lit(rng, t):
    n = sum(DIM[g] for g in GRADES[t])
    c = [num(rng) for _ in range(n)]
    if not any(c):
        c[rng.randrange(n)] = 1.5
    return {"k": "lit", "t": t, "c": c, "a": [], "h": ["g3type.hpp"] + ALL}


def gen_stmts(rng, n, pool):
    """n calls whose operands are literals and exact results before them.  pool: kinds"""
    st = []

    def operand(t):
        have = [i for i, s in enumerate(st) if s["t"] == t and s.get("exact", True)]
        if have and rng.random() < 0.55:
            return rng.choice(have)
        st.append(gen_lit(rng, t))
        return len(st) - 1

    def add(**kw):
        kw["h"] = kw.get("h", []) + ALL
        st.append(kw)

    for _ in range(n):
        k = rng.choice(pool)
        t = rng.choice("SVBTPICDM")
        if k in "+-*":
            ta, tb, tr, h = rng.choice(BIN[k])
            if rng.random() < 0.3:  # the rarer pairs
                ta, tb, tr, h = rng.choice([e for e in BIN[k] if "d" not in e[0] + e[1]])
            h = h + ["g3ops.hpp", "g3publish.hpp"]  # documented: all of them in one place; all of them published
            pub = True
            a = [operand(x) if x != "d" else None for x in (ta, tb)]
            for i, x in enumerate(a):
                if x is None:
                    st.append({"k": "lit", "t": "d", "c": [num(rng)], "a": [], "h": ["g3type.hpp"] + ALL})
                    a[i] = len(st) - 1
            add(k="bin", op=k, t=tr, a=a, h=h, pub=pub and rng.random() < 0.5)
        elif k == "uni":
            f = rng.choice(["-", "reverse", "oddverse", "dirverse", "dual"])
            add(k="uni", f=f, t=DUAL[t] if f == "dual" else t, a=[operand(t)], h=["g3opsUni.hpp", "g3ops.hpp", "g3publish.hpp"], pub=f == "-" and rng.random() < 0.5)
        elif k == "const":
            for _ in range(rng.choice([1, 4, 9])):
                t = rng.choice("SVBTPICDM")
                c = rng.choice(["zero", "one", "null"] * 9 + ["e0", "e1", "e2", "e3", "e23", "e31", "e12", "e123", "pi",
                                                             "piHalf", "piQtr", "turnFull", "turnHalf", "turnQtr"])
                of = t if c in ("zero", "one", "null") else ""
                ce = c[0] != "e" and of != "M" and c + of != "nullC"  # declared constexpr
                add(k="const", e=c, t="", of=of, a=[], exact=False, h=["g3const.hpp"], ce=ce and rng.random() < 0.5)
        elif k == "cmp":
            f = rng.choice(["near", "near", "neartol", "=="])
            if f == "==" and t in "CD":
                f = "near"
            i = operand(t)
            j = i if rng.random() < 0.4 else operand(t)
            add(k="cmp", f=f, t="", a=[i, j], exact=False, h=["g3compare.hpp"])
        elif k == "cex":
            add(k="cex", f=rng.choice(["sq", "cube", "magSq"]), c=num(rng), t="", a=[], exact=False, h=["g3func.hpp"])
        elif k == "func":
            f = rng.choice(["sq", "cube", "magSq", "magnitude", "ampSq", "amplitude", "direction", "inverse", "pair",
                            "exp", "logG2", "sqrtG2"])
            if f in ("sq", "cube"):
                t = rng.choice("SPCM")
            if f == "exp":
                t = rng.choice("BPM")
            if f in ("logG2", "sqrtG2"):
                t = "P"
            if f == "pair":
                t = rng.choice("SVBT")
            if f == "inverse" and t in "PID":
                t = rng.choice("SVBTCM")
            add(k="func", f=f, t="", of=t, a=[operand(t)], exact=False, h=["g3func.hpp"])
        elif k == "io":
            f = rng.choice(["enote", "fixed", "<<", "<<>>"])
            if f in ("enote", "fixed") and t in "CD":
                t = rng.choice("SVBTPIM")
            add(k="io", f=f, t="", a=[operand(t)], n=rng.randint(1, 16), exact=False, h=["g3io.hpp"])
        elif k == "valid":
            add(k="valid", t="", a=[operand(t)], exact=False, h=["g3validity.hpp"])
        elif k == "traits":
            for _ in range(rng.choice([1, 5])):
                t = rng.choice("SVBTPICDM" * 3 + "daowzi")
                add(k="traits", t="", e=rng.choice(["blade"] + list(TYPES.values())), of=t, a=[],
                    exact=False, h=["g3traits.hpp"])
        elif k == "conv":
            for _ in range(rng.choice([2, 6, 12])):
                add(k="conv", t="", e=rng.choice("dizSVBTPICDMM"), of=rng.choice("dzSVBTPICDMMM"), a=[], exact=False, h=["g3type.hpp"])
        elif k == "index":
            i = operand(t)
            add(k="index", t="", a=[i], i=rng.choice([0, 1, 2, 7, 8, 2 ** 32]), exact=False, h=["g3type.hpp"])
        elif k == "version":
            st.append({"k": "version", "t": "", "a": [], "exact": False, "h": list(ALL)})
    return st


KINDS = ["+", "-", "*", "*", "uni", "const", "cex", "cmp", "func", "func", "io", "valid", "traits", "conv", "index"]


def gen_program(rng, have):
    ntu = rng.choice([1, 2, 2, 3, 3, 4])
    tus = []
    for _ in range(ntu):
        # few kinds per unit, so that the unit needs few headers
        pool = rng.sample(KINDS, rng.choice([1, 1, 2, 3, 4]))
        if rng.random() < 0.1:
            pool = KINDS + ["version"]
        st = gen_stmts(rng, rng.randint(2, 12), pool)
        hs = []
        big = rng.random() < 0.2
        for s in st:
            if any(h in hs for h in s["h"]):
                continue
            narrow = [h for h in s["h"] if h not in ALL and h in have]
            hs.append(rng.choice([h for h in s["h"] if h in have]) if big or not narrow else rng.choice(narrow))
        for _ in range(rng.choice([0, 0, 0, 0, 1, 2, 5])):
            hs.append(rng.choice(have))  # headers it does not need, or needs twice
        rng.shuffle(hs)
        cc = rng.choices([c for c, _ in COMPILERS], [w for _, w in COMPILERS])[0]
        style = rng.choice(["qualified", "qualified", "project", "implicit", "qualified"])
        pubh = {"engabra.hpp", "Engabra", "g3publish.hpp"} & set(hs)
        for s in st:
            if s.get("pub"):
                s["pub"] = bool(pubh)
        names = []
        if style == "qualified" and rng.random() < 0.5:
            names = rng.sample(USER_NAMES, rng.randint(1, 8))
        tus.append({"headers": hs, "std": rng.choice([17, 17, 20, 23]), "cc": cc, "opt": rng.choice(["-O0", "-O1", "-O2", "-O3", "-Os"]),
                    "style": style, "names": names, "names_first": rng.random() < 0.5,
                    "std_first": rng.sample(STDHDRS, rng.choice([0, 0, 0, 1, 3])),
                    "inside": rng.random() < 0.25 and not any(s["k"] == "io" and s["f"] in ("<<", "<<>>") for s in st),
                    "init": rng.random() < 0.3, "inputs": rng.choice(["literal", "runtime"]), "stmts": st})
    defs = [d for d in ("NDEBUG", "_GLIBCXX_ASSERTIONS") if rng.random() < 0.3]
    return {"tus": tus, "shared": rng.random() < 0.15 and ntu > 1, "defs": defs,
            "version": "%d.%d.%d" % tuple(rng.randint(0, 40) for _ in range(3)),
            "identity": "id-%08x" % rng.getrandbits(32)}


# --- emission
FLAT = """namespace {
struct VtOwnData { std::array<double, 3u> theData; double operator[](std::size_t n) const { return theData[n]; } };
template <unsigned N> struct VtWrap { std::array<double, N> theData; };
inline void vtFlat(std::vector<double> & o, double x) { o.push_back(x); }
inline void vtFlat(std::vector<double> & o, engabra::g3::Scalar const & x) { o.push_back(x.theData[0]); }
inline void vtFlat(std::vector<double> & o, engabra::g3::Vector const & x) { for (double d : x.theData) o.push_back(d); }
inline void vtFlat(std::vector<double> & o, engabra::g3::BiVector const & x) { for (double d : x.theData) o.push_back(d); }
inline void vtFlat(std::vector<double> & o, engabra::g3::TriVector const & x) { o.push_back(x.theData[0]); }
inline void vtFlat(std::vector<double> & o, engabra::g3::Spinor const & x) { vtFlat(o, x.theSca); vtFlat(o, x.theBiv); }
inline void vtFlat(std::vector<double> & o, engabra::g3::ImSpin const & x) { vtFlat(o, x.theVec); vtFlat(o, x.theTri); }
inline void vtFlat(std::vector<double> & o, engabra::g3::ComPlex const & x) { vtFlat(o, x.theSca); vtFlat(o, x.theTri); }
inline void vtFlat(std::vector<double> & o, engabra::g3::DirPlex const & x) { vtFlat(o, x.theVec); vtFlat(o, x.theBiv); }
inline void vtFlat(std::vector<double> & o, engabra::g3::MultiVector const & x)
{ vtFlat(o, x.theSca); vtFlat(o, x.theVec); vtFlat(o, x.theBiv); vtFlat(o, x.theTri); }
template <typename A, typename B> void vtFlat(std::vector<double> & o, std::pair<A, B> const & x)
{ vtFlat(o, x.first); vtFlat(o, x.second); }
}
"""


# types which are none of the library's
OTHER_TYPE = {"d": "double", "i": "int", "z": "std::complex<double>", "a": "std::array<double, 3>", "o": "VtOwnData", "w": "VtWrap<3>"}
CONST_TYPE = {"e0": "S", "e1": "V", "e2": "V", "e3": "V", "e23": "B", "e31": "B", "e12": "B", "e123": "T",
              "pi": "d", "piHalf": "d", "piQtr": "d", "turnFull": "d", "turnHalf": "d", "turnQtr": "d"}


def func_type(f, of, q):
    if f in ("magSq", "magnitude"):
        return "d"
    if f in ("ampSq", "amplitude"):
        return "C"
    if f == "exp":
        return "M" if of == "M" else "P"
    if f == "pair":
        return "std::pair<double, %s%s>" % (q, TYPES[of])
    return of


def dlit(x):
    return repr(float(x))


def stmt_code(i, s, q, runtime):
    """(declaration, statements that record the result)"""
    v = "v%d" % i
    a = ["v%d" % j for j in s["a"]]
    k = s["k"]

    def rec(expr, t=None):
        out = "  { auto const r = %s; vtFlat(o, r); m.push_back((int)o.size()); }\n" % expr
        if t:  # the documented type
            t = {"d": "double", "b": "bool", "s": "std::string"}.get(t) or (q + TYPES[t] if t in TYPES else t)
            out += "  static_assert(std::is_same<std::decay_t<decltype(%s)>, %s>::value, \"result type\");\n" % (expr, t)
        return out

    if k == "lit":
        src = ["rt(%s)" % dlit(c) if runtime else dlit(c) for c in s["c"]]
        if s["t"] == "d":
            return "  double const %s = %s;\n" % (v, src[0])
        parts, i0 = [], 0
        for g in GRADES[s["t"]]:
            n = DIM[g]
            body = ", ".join(src[i0:i0 + n])
            i0 += n
            parts.append(body if len(GRADES[s["t"]]) == 1 else "%s%s{ %s }" % (q, TYPES[g], body))
        return "  %s%s const %s{ %s };\n" % (q, TYPES[s["t"]], v, ", ".join(parts))
    if k == "bin":
        e = "::operator%s(%s, %s)" % (s["op"], a[0], a[1]) if s.get("pub") else "%s %s %s" % (a[0], s["op"], a[1])
        return "  %s%s const %s = %s;\n" % (q, TYPES[s["t"]], v, e) + rec(e if s["a"][0] % 2 else v, s["t"])
    if k == "uni":
        e = "::operator-(%s)" % a[0] if s.get("pub") else "-" + a[0] if s["f"] == "-" else "%s%s(%s)" % (q, s["f"], a[0])
        return "  %s%s const %s = %s;\n" % (q, TYPES[s["t"]], v, e) + rec(e if s["a"][0] % 2 else v, s["t"])
    if k == "const":
        e, t = ("%s%s<%s%s>()" % (q, s["e"], q, TYPES[s["of"]]), s["of"]) if s["of"] else (q + s["e"], CONST_TYPE[s["e"]])
        if s.get("ce"):  # in a constant expression
            return "  { constexpr auto r = %s; static_assert(sizeof r != 0, \"\"); vtFlat(o, r); m.push_back((int)o.size()); }\n" % e
        return rec(e, t)
    if k == "cex":
        return "  { constexpr double r = %s%s(%s); vtFlat(o, r); m.push_back((int)o.size()); }\n" % (q, s["f"], dlit(s["c"]))
    if k == "cmp":
        f = s["f"]
        e = "%s == %s" % tuple(a) if f == "==" else \
            "%snearlyEquals(%s, %s%s)" % (q, a[0], a[1], ", 0.125" if f == "neartol" else "")
        return rec("(double)(%s)" % e) + "  static_assert(std::is_same<decltype(%s), bool>::value, \"result type\");\n" % e
    if k == "func":
        f = "pairMagDirFrom" if s["f"] == "pair" else s["f"]
        if f == "inverse" and s["of"] in "CM":  # these need the type spelled out
            f += "<%s%s>" % (q, TYPES[s["of"]])
        return rec("%s%s(%s)" % (q, f, a[0]), func_type(s["f"], s["of"], q))
    if k == "io":
        if s["f"] == "enote":
            e = "  { auto const r = %sio::enote(%s, %du); x.push_back(r); }\n" % (q, a[0], s["n"])
        elif s["f"] == "fixed":
            e = "  { auto const r = %sio::fixed(%s, %du, %du); x.push_back(r); }\n" % (q, a[0], s["n"] % 7 + 1, s["n"])
        elif s["f"] == "<<":
            e = "  { std::ostringstream r; r << %s; x.push_back(r.str()); }\n" % a[0]
        else:
            e = ("  { std::stringstream r; r << std::setprecision(17) << %s; auto b = %s; r >> b; x.push_back(r.fail() ? \"fail\" : \"good\"); "
                 "vtFlat(o, b); m.push_back((int)o.size()); }\n" % (a[0], a[0]))
        return e
    if k == "valid":
        return rec("(double)%sisValid(%s)" % (q, a[0]))
    if k == "traits":
        return rec("(double)%sis::%s<%s>::value" % (q, s["e"], OTHER_TYPE.get(s["of"]) or q + TYPES[s["of"]]))
    if k == "conv":
        n = {"d": "double", "i": "int", "z": "std::complex<double>"}
        return rec("(double)std::is_convertible<%s, %s>::value" % tuple(n.get(x) or q + TYPES[x] for x in (s["e"], s["of"])))
    if k == "index":
        return rec("%s[%dull]" % (a[0], s["i"]), "d")
    if k == "version":
        return "  x.push_back(engabra::projectVersion()); x.push_back(engabra::sourceIdentity());\n"
    raise KeyError(k)


STYLE = {"qualified": ("", "engabra::g3::"), "project": ("using namespace engabra;\n", "g3::"),
         "implicit": ("using namespace engabra::g3;\n", "")}
TAIL_INCLUDES = "#include <array>\n#include <cstddef>\n#include <complex>\n#include <type_traits>\n#include <vector>\n#include <string>\n#include <sstream>\n#include <iomanip>\n#include <utility>\n"


def needs_io(st):
    return any(s["k"] == "io" for s in st)


def body(name, tu, q, extra=""):
    rt = tu["inputs"] == "runtime"
    out = "static void %s(std::vector<double> & o, std::vector<int> & m, std::vector<std::string> & x)\n{\n" % name
    if rt:
        out += "  auto const rt = [](double d) { double volatile w = d; return (double)w; };\n  (void)rt;\n"
    out += "  (void)o; (void)m; (void)x;\n"
    if extra:
        out += "  " + extra
    for i, s in enumerate(tu["stmts"]):
        out += stmt_code(i, s, q, rt)
        if s["k"] in ("lit",):
            out += "  (void)v%d;\n" % i
    return out + "}\n"


def user_names(tu):
    out = ""
    for n in tu["names"]:
        if n in ("is", "io", "priv", "g3"):
            out += "namespace %s { static int const mine = 3; }\n" % n
        elif n in TYPES.values():
            out += "struct %s { int mine; };\n" % n
        else:
            out += "static int const %s = 3;\n" % n
    return out


def user_names_used(tu):
    """the program's own things are still what their names mean"""
    out = "static int vtOwn()\n{\n  int n{ 0 };\n"
    for n in tu["names"]:
        if n in ("is", "io", "priv", "g3"):
            out += "  n += %s::mine;\n" % n
        elif n in TYPES.values():
            out += "  { %s const own{ 3 }; n += own.mine; }\n" % n
        else:
            out += "  n += %s;\n" % n
    return out + "  return n;\n}\n"


# the program's own namespace, with operators of its own
OWN_NAMESPACE = """namespace app {
struct Own { int mine; };
inline Own operator+(Own const & a, Own const & b) { return { a.mine + b.mine }; }
inline Own operator-(Own const & a, Own const & b) { return { a.mine - b.mine }; }
inline Own operator-(Own const & a) { return { -a.mine }; }
inline Own operator*(Own const & a, Own const & b) { return { a.mine * b.mine }; }
inline Own operator*(double const & a, Own const & b) { return { (int)a * b.mine }; }
inline bool operator==(Own const & a, Own const & b) { return a.mine == b.mine; }
"""


def tu_source(k, tu):
    using, q = STYLE[tu["style"]]
    out = ""
    for h in tu["std_first"]:
        out += "#include <%s>\n" % h
    if tu["names_first"]:
        out += user_names(tu)
    for h in tu["headers"]:
        out += '#include "%s"\n' % h
    if not tu["names_first"]:
        out += user_names(tu)
    out += TAIL_INCLUDES + FLAT
    if tu["inside"]:
        out += OWN_NAMESPACE
    out += using
    if tu["names"]:
        out += user_names_used(tu)
    out += body("vtBody", tu, q, "x.push_back(std::to_string(vtOwn()));\n" if tu["names"] else "")
    if tu["inside"]:
        out += "} // app\nusing app::vtBody;\n"
    if tu["init"]:
        out += ("namespace { struct VtInit { std::vector<double> o; std::vector<int> m; std::vector<std::string> x;\n"
                "  VtInit() { vtBody(o, m, x); } } const vtInit; }\n"
                "void vtUnit%d(std::vector<double> & o, std::vector<int> & m, std::vector<std::string> & x)\n"
                "{ o = vtInit.o; m = vtInit.m; x = vtInit.x; }\n" % k)
    else:
        out += ("void vtUnit%d(std::vector<double> & o, std::vector<int> & m, std::vector<std::string> & x)\n"
                "{ vtBody(o, m, x); }\n" % k)
    return out


MAX_UNITS = 32


def main_source():
    """prints what the units of the program report; units that are not there are skipped"""
    out = "#include <cstdio>\n#include <string>\n#include <vector>\n"
    for k in range(MAX_UNITS):
        out += ("__attribute__((weak)) void vtUnit%d(std::vector<double> &, std::vector<int> &, std::vector<std::string> &);\n" % k)
    out += ("static void show(int k, void (*f)(std::vector<double> &, std::vector<int> &, std::vector<std::string> &)) {\n"
            "  if (!f) return;\n  std::vector<double> o; std::vector<int> m; std::vector<std::string> x; f(o, m, x);\n"
            '  std::printf("U %d\\n", k); for (double d : o) std::printf("D %a\\n", d); for (int i : m) std::printf("M %d\\n", i);\n'
            '  for (auto const & s : x) { std::printf("X "); for (unsigned char c : s) std::printf("%02x", c); std::printf("\\n"); } }\n'
            "int main() {\n")
    for k in range(MAX_UNITS):
        out += "  show(%d, vtUnit%d);\n" % (k, k)
    return out + '  std::printf("END\\n");\n}\n'


def reference_source(progs):
    """every unit of these programs, in one translation unit that includes engabra.hpp"""
    out = '#include "engabra.hpp"\n' + TAIL_INCLUDES + FLAT
    k = 0
    for p in progs:
        for tu in p["tus"]:
            t = dict(tu, inputs="runtime", stmts=[dict(s, pub=False) for s in tu["stmts"] if s["k"] != "version"])
            if len(t["stmts"]) != len(tu["stmts"]):
                # keep the numbering of operands
                t["stmts"] = [s if s["k"] != "version" else {"k": "lit", "t": "d", "c": [0.0], "a": []}
                              for s in (dict(s, pub=False) for s in tu["stmts"])]
            out += body("vtBody%d" % k, t, "engabra::g3::")
            out += ("void vtUnit%d(std::vector<double> & o, std::vector<int> & m, std::vector<std::string> & x)\n"
                    "{ vtBody%d(o, m, x); }\n" % (k, k))
            k += 1
    return out, k


class Env:
    def __init__(self, inc, src, gxx, clang, wd):
        self.inc, self.src, self.wd = inc, src, wd
        self.cc = {"g++": gxx, "clang++": clang or gxx}
        self.clang = bool(clang)
        self.main = os.path.join(wd, "main.o")
        src = os.path.join(wd, "main.cpp")
        open(src, "w").write(main_source())
        rc, out = run([gxx, "-O1", "-std=c++17", "-w", "-fPIC", "-c", src, "-o", self.main], 120)
        if rc:
            raise RuntimeError("the driver of the programs does not compile: " + out[:500])


def run(cmd, timeout, cwd=None):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, cwd=cwd)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timed out"


def parse(out):
    units, cur = [], None
    for line in out.splitlines():
        if line.startswith("U "):
            cur = {"d": [], "m": [], "x": []}
            units.append(cur)
        elif line.startswith("D "):
            cur["d"].append(float("nan") if "nan" in line else float.fromhex(line[2:]))
        elif line.startswith("M "):
            cur["m"].append(int(line[2:]))
        elif line.startswith("X "):
            cur["x"].append(bytes.fromhex(line[2:]).decode("latin-1"))
    return units if out.rstrip().endswith("END") else None


def build_reference(env, progs, tag):
    d = os.path.join(env.wd, "ref" + tag)
    os.makedirs(d, exist_ok=True)
    src, n = reference_source(progs)
    assert n <= MAX_UNITS
    open(os.path.join(d, "u.cpp"), "w").write(src)
    exe = os.path.join(d, "exe")
    rc, out = run([env.cc["g++"], "-O2", "-std=c++17", "-w", "-I" + env.inc, os.path.join(d, "u.cpp"),
                   env.main, "-o", exe], 300)
    if rc:
        return None, out
    rc, out = run([exe], 60)
    res = parse(out)
    for f in ("u.cpp", "exe"):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)
    return (res, out) if rc == 0 and res is not None else (None, "reference program ended with status %d" % rc)


def build_program(env, p, tag):
    """(units, '') or (None, why)"""
    d = os.path.join(env.wd, "p" + tag)
    os.makedirs(d, exist_ok=True)
    try:
        defs = ["-D" + x for x in p["defs"]]
        objs = []
        for k, tu in enumerate(p["tus"]):
            f = os.path.join(d, "unit%d.cpp" % k)
            open(f, "w").write(tu_source(k, tu))
            std = tu["std"]
            cmd = [env.cc[tu["cc"]], tu["opt"], "-std=c++%d" % std, "-w", "-fPIC", "-I" + env.inc] + defs + ["-c", f, "-o", f + ".o"]
            rc, out = run(cmd, 120)
            if rc:
                rc, out = run(cmd, 120)  # once more: compilers can be ended for lack of memory
            if rc:
                return None, "unit %d does not compile (%s): %s" % (k, " ".join(cmd[:4]), first_error(out))
            objs.append(f + ".o")
        f = os.path.join(d, "lib.cpp")
        if any(s["k"] == "version" for tu in p["tus"] for s in tu["stmts"]):
            f = os.path.join(env.src, "engabra.cpp")
            cmd = [env.cc["g++"], "-O2", "-std=c++17", "-w", "-fPIC", "-I" + env.inc,
                   '-DEngabra_Project_Version="%s"' % p["version"], '-DEngabra_Source_Identity="%s"' % p["identity"],
                   "-c", f, "-o", os.path.join(d, "lib.o")]
            rc, out = run(cmd, 120)
            if rc:
                rc, out = run(cmd, 120)
            if rc:
                return None, "the library source does not compile: " + first_error(out)
            objs.append(os.path.join(d, "lib.o"))
        link = [env.cc["g++"], "-w", env.main]
        if p["shared"]:
            so = os.path.join(d, "libunit.so")
            rc, out = run([env.cc["g++"], "-shared", objs[0], "-o", so] + [o for o in objs if o.endswith("/lib.o")], 120)
            if rc:
                return None, "the shared library does not link: " + first_error(out)
            link += [o for o in objs[1:] if not o.endswith("/lib.o")] + ["-Wl,--no-as-needed", so, "-Wl,-rpath," + d]
        else:
            link += objs
        exe = os.path.join(d, "exe")
        rc, out = run(link + ["-o", exe], 120)
        if rc:
            rc, out = run(link + ["-o", exe], 120)
        if rc:
            return None, "the program does not link: " + first_error(out)
        rc, out = run([exe], 60)
        res = parse(out)
        if rc or res is None:
            return None, "the program ended with status %d: %s" % (rc, out[-200:])
        return res, ""
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def first_error(out):
    for line in out.splitlines():
        if "error" in line or "multiple definition" in line or "undefined reference" in line:
            return line.strip()[:400]
    return out.strip()[:400]


def same(a, b, scale):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 * scale


def judge(p, got, ref):
    """(message or None, number of comparisons)"""
    n = 0
    for k, tu in enumerate(p["tus"]):
        g, r = got[k], ref[k]
        # 1. differential
        x = list(g["x"])
        if tu["names"]:
            n += 1
            if x[:1] != [str(3 * len(tu["names"]))]:
                return "unit %d: the program's own %s are not what it defined" % (k, tu["names"]), n
            del x[0]
        vers = sum(1 for s in tu["stmts"] if s["k"] == "version")
        if vers:
            i, keep = 0, []
            for s in tu["stmts"]:
                if s["k"] == "version":
                    n += 1
                    if x[i:i + 2] != [p["version"], p["identity"]]:
                        return "unit %d: version and identity %r, built with %r" % (k, x[i:i + 2], [p["version"], p["identity"]]), n
                    i += 2
                elif s["k"] == "io":
                    keep.append(x[i])
                    i += 1
            x = keep
        if len(g["d"]) != len(r["d"]) or g["m"] != r["m"] or len(x) != len(r["x"]):
            return "unit %d: another number of results than the same calls with engabra.hpp" % k, n
        for a, b in zip(x, r["x"]):
            n += 1
            if a != b:
                return "unit %d: text %r, the same call with engabra.hpp gives %r" % (k, a, b), n
        lo = 0
        for j, hi in enumerate(r["m"]):
            sc = max([abs(v) for v in r["d"][lo:hi] if math.isfinite(v)] + [1e-3])
            for a, b in zip(g["d"][lo:hi], r["d"][lo:hi]):
                n += 1
                if not same(a, b, sc):
                    return "unit %d, result %d: %s, the same call with engabra.hpp gives %s" % (
                        k, j, g["d"][lo:hi], r["d"][lo:hi]), n
            lo = hi
        # 2. reference algebra
        val, res, mark = [], 0, [0] + g["m"]
        for j, s in enumerate(tu["stmts"]):
            c = ref_eval(s, val) if s["k"] in ("lit", "bin", "uni") else None
            val.append((s["t"], c) if c is not None else None)
            if s["k"] == "lit" or s["k"] == "version" or (s["k"] == "io" and s["f"] != "<<>>"):
                continue
            have = g["d"][mark[res]:mark[res + 1]]
            res += 1
            if s["k"] == "cex":
                n += 1
                want = s["c"] ** (3 if s["f"] == "cube" else 2)
                if len(have) != 1 or not same(have[0], want, abs(want)):
                    return "unit %d: %s(%r) is %s in a constant expression" % (k, s["f"], s["c"], have), n
            if s["k"] == "traits":
                n += 1
                t = TYPES.get(s["of"]) or OTHER_TYPE[s["of"]]
                want = s["of"] in BLADES if s["e"] == "blade" else s["e"] == t
                if have != [float(want)]:
                    return "unit %d: is::%s<%s> is %s" % (k, s["e"], t, have), n
            if s["k"] == "conv":  # "utilizes explicit constructors and mitigates implicit casting"
                n += 1
                want = s["e"] == s["of"] or s["e"] + s["of"] in ("id", "iz", "dz", "Cz")
                if have != [float(want)]:
                    return "unit %d: implicit conversion from %s to %s: %s" % (k, s["e"], s["of"], have), n
            if c is None:
                continue
            amp = max([1e-3] + [abs(v) for v in c] + [abs(v) for i in s["a"] for v in val[i][1]])
            n += 1
            if len(c) != len(have) or not all(same(a, b, amp * amp + amp) for a, b in zip(have, c)):
                return "unit %d, statement %d (%s): %s, the algebra gives %s" % (k, j, s, have, c), n
            val[-1] = (s["t"], have)
    return None, n


def evaluate(env, p, tag, ref=None):
    """(message or None, comparisons)"""
    if ref is None:
        ref, why = build_reference(env, [p], tag)
        if ref is None:
            return "with engabra.hpp: " + first_error(why), 0
    got, why = build_program(env, p, tag)
    if got is None:
        return why, 0
    return judge(p, got, ref)


def normalise(p):
    """drop calls nothing needs: literals without use; renumber"""
    for tu in p["tus"]:
        used = {j for s in tu["stmts"] for j in s["a"]}
        keep = [i for i, s in enumerate(tu["stmts"]) if s["k"] != "lit" or i in used]
        mp = {o: n for n, o in enumerate(keep)}
        tu["stmts"] = [dict(tu["stmts"][i], a=[mp[j] for j in tu["stmts"][i]["a"]]) for i in keep]
    return p


def drop_stmt(p, k, i):
    q = json.loads(json.dumps(p))
    st = q["tus"][k]["stmts"]
    dead = {i}
    for j in range(i + 1, len(st)):
        if any(a in dead for a in st[j]["a"]):
            dead.add(j)
    keep = [j for j in range(len(st)) if j not in dead]
    mp = {o: n for n, o in enumerate(keep)}
    q["tus"][k]["stmts"] = [dict(st[j], a=[mp[a] for a in st[j]["a"]]) for j in keep]
    return normalise(q)


def provided(p):
    """the headers of every unit document all it uses"""
    for tu in p["tus"]:
        hs = set(tu["headers"])
        if not hs:
            return False
        for s in tu["stmts"]:
            if not hs & set(s["h"]) and s["k"] != "lit":
                return False
            if s.get("pub") and not hs & {"engabra.hpp", "Engabra", "g3publish.hpp"}:
                return False
    return True


def category(msg):
    for w in ("does not compile", "does not link", "ended with status", "engabra.hpp gives", "the algebra gives"):
        if w in msg:
            return w
    return msg[:12]


def shrink(env, p, msg, end):
    want = category(msg)

    def fails(q):
        if not q["tus"] or not provided(q):
            return None
        m, _ = evaluate(env, q, "s")
        return m if m and category(m) == want else None

    def candidates(p):
        for k in range(len(p["tus"])):
            if len(p["tus"]) > 1:
                q = json.loads(json.dumps(p))
                del q["tus"][k]
                q["shared"] = q["shared"] and len(q["tus"]) > 1
                yield q
        if p["shared"] or p["defs"]:
            yield dict(p, shared=False, defs=[])
        for k, tu in enumerate(p["tus"]):
            for key, v in (("std_first", []), ("names", []), ("init", False), ("inside", False), ("style", "qualified"), ("cc", "g++"),
                           ("std", 17), ("opt", "-O0"), ("inputs", "literal")):
                if tu[key] != v:
                    q = json.loads(json.dumps(p))
                    q["tus"][k][key] = v
                    yield q
            if any(s["k"] != "lit" for s in tu["stmts"]):
                q = json.loads(json.dumps(p))
                q["tus"][k]["stmts"] = []
                yield q
            for i in range(len(tu["stmts"]) - 1, -1, -1):
                yield drop_stmt(p, k, i)
            for i in range(len(tu["headers"])):
                q = json.loads(json.dumps(p))
                del q["tus"][k]["headers"][i]
                yield q

    again = True
    while again and time.time() < end:
        again = False
        for q in candidates(p):
            if time.time() > end:
                break
            m = fails(q)
            if m:
                p, msg, again = q, m, True
                break
    return p, msg


def classes(p):
    out = ["units:%d" % len(p["tus"])]
    for tu in p["tus"]:
        out += ["compiler:" + tu["cc"], "std:%d" % tu["std"], "opt:" + tu["opt"], "style:" + tu["style"], "inputs:" + tu["inputs"]]
        out += ["header:" + h for h in set(tu["headers"])]
        out += ["call:" + s["k"] + (s["op"] if s["k"] == "bin" else "") for s in tu["stmts"] if s["k"] != "lit"]
        for w in ("init", "names", "inside"):
            if tu[w]:
                out.append("with:" + w)
        if len(set(tu["headers"])) == 1:
            out.append("single header")
    if p["shared"]:
        out.append("with:shared library")
    return out


RULE = ("a program with at least two units whose header sequences differ, or with one unit that does not include "
        "the whole library, with at least four values compared")


def nontrivial(p, n):
    hs = {tuple(tu["headers"]) for tu in p["tus"]}
    return n >= 4 and (len(hs) > 1 or not any(set(h) & set(ALL) for h in hs))


def search(env, seed, count, soft, known=()):
    have = [h for h in HEADERS if os.path.exists(os.path.join(env.inc, h)) and (env.clang or True)]
    t0 = time.time()
    stat = {"evaluations": 0, "nontrivial": 0, "distinct": set(), "comparisons": 0, "labels": {}, "samples": [], "stopped": False}
    BATCH = 6

    def batch(b):
        progs = []
        for i in range(b * BATCH, min(count, (b + 1) * BATCH)):
            rng = random.Random("C28 %d %d" % (seed, i))
            p = normalise(gen_program(rng, have))
            p["origin"] = [seed, i]
            progs.append(p)
        ref, why = build_reference(env, progs, "b%d" % b)
        if ref is None:
            # find the program
            for p in progs:
                r1, w1 = build_reference(env, [p], "b%d" % b)
                if r1 is None:
                    return [(p, "with engabra.hpp: " + first_error(w1), 0)]
            return [(progs[0], None, 0)]
        out, k = [], 0
        for i, p in enumerate(progs):
            m, n = evaluate(env, p, "b%d_%d" % (b, i), ref[k:k + len(p["tus"])])
            k += len(p["tus"])
            out.append((p, m, n))
            if m:
                break
        return out

    failed = None
    nb = (count + BATCH - 1) // BATCH
    with concurrent.futures.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 8)) as ex:
        it = iter(range(nb))
        live = {}
        done = False
        while True:
            while not done and failed is None and len(live) < max(2, os.cpu_count() or 8):
                if time.time() - t0 > soft:
                    stat["stopped"] = done = True
                    break
                b = next(it, None)
                if b is None:
                    done = True
                    break
                live[ex.submit(batch, b)] = b
            if not live:
                break
            fin, _ = concurrent.futures.wait(list(live), return_when=concurrent.futures.FIRST_COMPLETED)
            for f in fin:
                b = live.pop(f)
                for p, m, n in f.result():
                    stat["evaluations"] += 1
                    stat["comparisons"] += n
                    if nontrivial(p, n):
                        stat["nontrivial"] += 1
                        stat["distinct"].add(hashlib.sha1(json.dumps({x: p[x] for x in p if x != "origin"}, sort_keys=True).encode()).hexdigest())
                        if len(stat["samples"]) < 3 and len(p["tus"]) < 3:
                            stat["samples"].append("\n".join(tu_source(k, tu).replace(FLAT, "") for k, tu in enumerate(p["tus"]))[:1800])
                    for c in classes(p):
                        stat["labels"][c] = stat["labels"].get(c, 0) + 1
                    if m and (failed is None or b < failed[2]):
                        failed = (p, m, b)
    return stat, failed
