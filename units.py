"""Which harness units decide which property."""


def vec_units(mode, parts=(1, 2, 3, 4)):
    return [dict(name=f"vec{p}", src="vec.cc", defs=[f"VEC_MODE={mode}", f"VEC_PART={p}"]) for p in parts]


CHECKS = {
    "V01": dict(units=vec_units(1)),
    "V02": dict(units=vec_units(2)),
    "V03": dict(units=vec_units(3)),
    "S01": dict(units=[dict(name="subspan", src="subspan.cc")]),
    "I01": dict(units=[dict(name="ranges", src="ranges.cc")]),
    "S02": dict(units=[dict(name="search", src="search.cc")]),
    "S03": dict(units=[dict(name="order", src="order.cc")]),
    "S04": dict(units=[dict(name="block", src="block.cc")]),
    "S05": dict(units=[dict(name="sort", src="sort.cc")]),
    "I02": dict(units=[dict(name=f"iters{p}", src="iters.cc", defs=[f"ITER_PART={p}"], tdefs=["ITER_DEPTH=3"]) for p in (1, 2, 3, 4, 5)]
                + [dict(name=f"iters4_{f}", src="iters.cc", defs=["ITER_PART=4", f"ITER_FIRST={f}", "ITER_DEPTH=3"]) for f in (1, 2, 3, 4, 5, 6)]),
    "U01": dict(units=[dict(name="codec", src="codec.cc", opt="-O2")]),
    "T01": dict(units=[dict(name=f"str{p}", src="str.cc", defs=[f"STR_PART={p}"]) for p in (1, 2, 3, 4, 5, 6)]),
    "T02": dict(units=[dict(name=f"str{p}", src="str.cc", defs=[f"STR_PART={p}"]) for p in (7, 8)]),
    "T03": dict(units=[dict(name=f"strbuf{p}", src="strbuf.cc", defs=[f"STR_PART={p}"]) for p in (1, 2, 3)]),
    "N01": dict(units=[dict(name=f"math{p}", src="math.cc", defs=[f"MATH_PART={p}"], opt="-O2") for p in (6, 7)]),
    "N02": dict(units=[dict(name=f"math{p}", src="math.cc", defs=[f"MATH_PART={p}"]) for p in (1, 2, 3)]),
    "N03": dict(units=[dict(name=f"math{p}", src="math.cc", defs=[f"MATH_PART={p}"], opt="-O2") for p in (4, 5)]),
    "F01": dict(units=[dict(name="fmt1", src="fmt.cc", defs=["FMT_PART=1"])]),
    "F02": dict(units=[dict(name="fmt2", src="fmt.cc", defs=["FMT_PART=2"])]),
    "F03": dict(units=[dict(name=f"fmt{p}", src="fmt.cc", defs=[f"FMT_PART={p}"]) for p in (3, 4)]),
    "E01": dict(units=[dict(name="crash", src="crash.cc", opt="-O0")]),
    "F04": dict(units=[dict(name=f"refl{p}", src="refl.cc", opt="-O0", defs=[f"RF_PART={p}"]) for p in (1, 3, 4)]
                + [dict(name=f"refl5_{f}", src="refl.cc", opt="-O0", defs=["RF_PART=5", f"RF_FROM={f}"]) for f in (0, 1, 2, 3)]
                + [dict(name=f"refl2_{f}", src="refl.cc", opt="-O0", defs=["RF_PART=2", f"RF_FROM={f}"]) for f in (0, 16, 32, 48)]),
    "O01": dict(units=[dict(name=f"opt{p}", src="opt.cc", defs=[f"OPT_PART={p}"]) for p in (1, 2, 3)] + [dict(name="optcat", src="sumcat.cc", opt="-O0", defs=["SUMCAT_PART=1"])]),
    "O02": dict(units=[dict(name=f"res{p}", src="res.cc", defs=[f"RES_PART={p}"]) for p in (1, 2, 3)] + [dict(name="rescat", src="sumcat.cc", opt="-O0", defs=["SUMCAT_PART=2"])]),
    "O03": dict(units=[dict(name=f"cho{p}", src="cho.cc", defs=[f"CHO_PART={p}"]) for p in (1, 2, 3, 4)]),
    "C01": dict(units=[dict(name=f"cli{p}", src="cli.cc", defs=[f"CLI_PART={p}"], cli=True) for p in (1, 2, 3)]),
    "C02": dict(units=[dict(name=f"help{p}", src="help.cc", defs=[f"HELP_PART={p}"], cli=True, opt="-O1" if p == 3 else "-O0") for p in (3, 1, 2, 4)]),
    "C03": dict(units=[dict(name="appl", src="appl.cc", cli=True)]),
    "M01": dict(units=[dict(name="alloc", src="alloc.cc"),
                        dict(name="oom", src="oom.cc", wrap=["malloc", "calloc", "realloc", "aligned_alloc"])]),
    "M02": dict(units=[dict(name="layouts", src="layouts.cc", opt="-O0")]),
    "B01": dict(units=[dict(name=f"box{p}", src="box.cc", defs=[f"BOX_PART={p}"]) for p in (1, 2)]),
    "P01": dict(units=[dict(name=f"ptr{p}", src="ptr.cc", defs=[f"PTR_PART={p}"]) for p in (1, 2)]),
    "O04": dict(units=[dict(name=f"row{p}", src="row.cc", opt="-O0", defs=[f"ROW_PART={p}"]) for p in (1, 2, 3, 4)]),
    "O05": dict(units=[dict(name="object", src="object.cc", opt="-O0")]),
    "L02": dict(units=[dict(name=f"lists{p}", src="lists.cc", opt="-O0", defs=[f"LS_PART={p}"]) for p in (1, 2, 3, 4, 5)]),
    "L01": dict(units=[dict(name="func", src="func.cc", opt="-O0")]),
    "D01": dict(units=[dict(name="dyn", src="dyn.cc")]),
    "R01": dict(units=[dict(name="runes", src="runes.cc", opt="-O2")]),
}
