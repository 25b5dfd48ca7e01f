"""Which harness modules make up each suite, and which suites decide each property."""
DIAG = ["diag_ref", "build", "blocks_a", "blocks_b", "blocks_c", "blocks_d", "oracle"]
SUITES = {}
for _s in ("c01", "c02", "c03", "c04", "c08", "c09", "c11", "c12", "c19", "c20", "c21", "c22"):
    SUITES[_s] = {"modules": [_s] + DIAG}
for _s in ("c02x", "c05", "c06", "c07", "c10", "c15", "c16", "c17", "c18"):
    SUITES[_s] = {"modules": [_s]}

SUITES["c13"] = {"modules": ["c13", "hist"]}
SUITES["c14"] = {"modules": ["c14", "hist"]}


MEMCHECK = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite", "--exit-on-first-error=yes"]


def part(suite, flavour, quick, thorough, **kw):
    return dict(suite=suite, flavour=flavour, quick=quick, thorough=thorough, **kw)


def both(suite, quick, thorough, **kw):
    """the same suite in debug and in release builds (with different cases)"""
    return [part(suite, "debug", quick, thorough, **kw), part(suite, "release", quick, thorough, seed_off=7, **kw)]


PROPS = {
    "C01": {"parts": both("c01", 2400, 60000)},
    "C02": {"parts": both("c02", 2400, 60000) + both("c02x", 15000, 300000)},
    "C03": {"parts": both("c03", 800, 60000, hang=60)},
    "C04": {"parts": both("c04", 12000, 300000)},
    "C05": {"parts": both("c05", 40000, 1000000)},
    "C06": {"parts": both("c06", 4000, 200000)},
    "C07": {"parts": both("c07", 20000, 1000000)},
    "C08": {"parts": both("c08", 3000, 60000)},
    "C09": {"parts": both("c09", 2400, 60000)},
    "C10": {"parts": both("c10", 10000, 400000) + both("c02", 800, 10000, args=["--arg", "Delay"])},
    "C11": {"parts": both("c11", 2400, 60000)},
    "C12": {"parts": both("c12", 3000, 80000)},
    "C13": {"parts": both("c13", 40000, 400000)},
    "C14": {"parts": both("c14", 20000, 200000)},
    "C15": {"parts": both("c15", 10000, 400000)},
    "C16": {"parts": both("c16", 5000, 200000) + both("c02", 400, 10000, args=["--arg", "BusMemory"]) + both("c02", 400, 10000, args=["--arg", "BusPipe"])},
    "C18": {"parts": both("c18", 4000, 200000) + [
        part("c21", "debug", 600, 40000, seed_off=3), part("c21", "release", 600, 40000, seed_off=4),
        part("c18", "plain", 80, 2000, seed_off=5, wrapper=MEMCHECK, hang=200), part("c18", "opt", 80, 2000, seed_off=6, wrapper=MEMCHECK, hang=200),
        part("c21", "plain", 60, 2000, seed_off=8, wrapper=MEMCHECK, hang=200), part("c21", "opt", 60, 2000, seed_off=9, wrapper=MEMCHECK, hang=200)]},
    "C19": {"parts": [part("c19", "tsan", 1500, 40000, args=["--arg", "threads"]), part("c19", "tsanrel", 1500, 40000, args=["--arg", "threads"], seed_off=7),
                      part("c19", "debug", 300, 40000), part("c19", "release", 500, 40000, seed_off=7)]},
    "C20": {"parts": [part("c20", "debug", 20000, 600000)]},
    "C21": {"parts": [part("c21", "debug", 5000, 200000, pair=1), part("c21", "release", 5000, 200000, pair=1)]},
    "C22": {"level": "fault_enumeration", "parts": both("c22", 300, 20000)},
    "C17": {"parts": both("c17", 20000, 400000)},
}
