"""Case counts per property and tier, and the assumptions reported as evidence.

cases: per random shard (5 shards, g++ -O2); runs: per libFuzzer shard (3 shards,
clang ASan+UBSan).  Counts, not time budgets, bound a run, so that a run is a
function of the code and VERIF_SEED."""

ASSUMPTIONS = [
    "IEEE-754 binary64 arithmetic with round-to-nearest and the installed libm/libstdc++",
    "built from /repo's working tree with g++ -O2 (random shards) and clang++ -O1 with ASan+UBSan (fuzz shards)",
    "absence of a violation is evidence over the generated cases, not proof",
]

# quick counts: (cases per random shard, runs per libFuzzer shard), about twenty
# seconds of searching; the thorough tier multiplies them.
_QUICK = {
    "C01": (6400000, 960000),
    "C02": (1760000, 288000),
    "C03": (8000000, 512000),
    "C04": (8000000, 576000),
    "C05": (8000000, 512000),
    "C06": (8000000, 592000),
    "C07": (8000000, 960000),
    "C08": (8000000, 960000),
    "C09": (6240000, 896000),
    "C10": (4800000, 640000),
    "C11": (2080000, 480000),
    "C12": (1090000, 240000),
    "C13": (8000000, 960000),
    "C14": (8000000, 960000),
    "C15": (5760000, 816000),
    "C16": (8000000, 960000),
    "C17": (8000000, 720000),
    "C18": (8000000, 960000),
    "C19": (990000, 224000),
    "C20": (1520000, 352000),
    "C21": (670000, 150000),
    "C22": (4320000, 320000),
    "C23": (5440000, 816000),
    "C24": (430000, 69000),
    "C26": (8000000, 480000),
    "C27": (7040000, 416000),
    "C29": (1000000, 150000),
    "C30": (480000, 60000),
}
_THOROUGH = 30

PROPS = {}
for _id, (_c, _r) in _QUICK.items():
    PROPS[_id] = {"cases": {"quick": _c, "thorough": _c * _THOROUGH},
                  "runs": {"quick": _r, "thorough": _r * _THOROUGH}}
PROPS["C24"]["lib"] = True
PROPS["C25"] = {
    "tsan": True, "lib": True, "shards": (2, 0), "cases": {"quick": 12000, "thorough": 300000},
    "plain": 1, "plain_cases": {"quick": 6000, "thorough": 150000},
    "assumptions": ["ThreadSanitizer reports unsynchronised accesses of the executed schedules; "
                    "schedules are the operating system's, not enumerated"],
}
# also under valgrind (memory nobody wrote), and with conversions of doubles to integers checked
PROPS["C30"].update({"shards": (5, 2), "memcheck": {"quick": 16000, "thorough": 480000}, "sanitize": ",float-cast-overflow",
                     "assumptions": ["a call that uses a second of CPU time does not return (calls take microseconds)"]})
# generated programs, see programs.py
PROPS["C28"] = {
    "programs": {"quick": 200, "thorough": 6000},
    "assumptions": ["units are built with g++ and clang++, C++17 to C++23, -O0 to -O3, without options that change "
                    "floating-point semantics"],
}
