"""What each property's check consists of: model checks, generators, harness builds, runs and trace specification."""
import os
KNOWN_FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.txt")

DBG = ["-DTOON_CHECK_BOUNDS", "-DTOON_TEST_INTERNALS", "-DTOON_INITIALIZE_NAN"]   # error path = exception, reads of unset elements show
PLAIN = []                                                                         # the default policy: errors abort
ASAN = ["-fsanitize=address", "-g1"]

AREAS = {}
AREAS["C06"] = dict(
    mc=[dict(module="MCArith", cfg="MCArith.cfg", cfg_thorough="MCArithBig.cfg")],
    gen=[dict(name="arith", module="GenArith", num=24, depth=61)],
    builds=dict(dbg=dict(src="arith.cc", parts=10, flags=DBG),
                opt=dict(src="arith.cc", parts=10, flags=PLAIN, opt=["-O2"], tiers=["thorough"])),
    runs=[dict(build="dbg", mode="rand", shards=6, n=1, n_thorough=4),
          dict(build="opt", mode="rand", shards=6, n=4, tiers=["thorough"], tag="randopt"),
          dict(build="dbg", mode="script", gen="arith", shards=2)],
    trace="TraceArith")

AREAS["C07"] = dict(
    mc=[dict(module="MCUnsized", cfg="MCUnsized.cfg")],
    builds=dict(dbg=dict(src="unsized.cc", parts=4, flags=DBG),
                opt=dict(src="unsized.cc", parts=4, flags=DBG, opt=["-O2"], cxx="clang++", tiers=["thorough"])),
    runs=[dict(build="dbg", mode="rand", shards=4, n=1, n_thorough=6),
          dict(build="opt", mode="rand", shards=4, n=6, tiers=["thorough"], tag="randopt")],
    trace="TraceUnsized")

AREAS["C01"] = dict(
    mc=[dict(module="MCViews", cfg="MCViews.cfg", cfg_thorough="MCViewsBig.cfg")],
    gen=[dict(name="views", module="GenViews", num=40, depth=61)],
    builds=dict(asan=dict(src="views.cc", parts=9, std="c++17", flags=DBG + ASAN),
                opt=dict(src="views.cc", parts=9, std="c++17", flags=PLAIN, opt=["-O2"], cxx="clang++", tiers=["thorough"])),
    runs=[dict(build="asan", mode="rand", shards=6, n=2, n_thorough=12),
          dict(build="asan", mode="script", gen="views", shards=2),
          dict(build="opt", mode="rand", shards=6, n=12, tiers=["thorough"], tag="randopt")],
    trace="TraceViews")

AREAS["C02"] = dict(
    mc=[dict(module="MCObjects", cfg="MCObjects.cfg", cfg_thorough="MCObjectsBig.cfg")],
    gen=[dict(name="objects", module="GenObjects", num=40, depth=81)],
    builds=dict(asan=dict(src="objects.cc", parts=3, std="c++17", flags=["-DTOON_TEST_INTERNALS"] + ASAN),
                opt=dict(src="objects.cc", parts=3, std="c++17", flags=["-DTOON_TEST_INTERNALS"], opt=["-O2"], cxx="clang++", tiers=["thorough"])),
    runs=[dict(build="asan", mode="own", shards=6, n=8, n_thorough=60),
          dict(build="asan", mode="script", gen="objects", shards=2),
          dict(build="opt", mode="own", shards=6, n=60, tiers=["thorough"], tag="ownopt")],
    trace="TraceObjects")
AREAS["C05"] = dict(
    mc=[dict(module="MCObjects", cfg="MCObjects.cfg", cfg_thorough="MCObjectsBig.cfg")],
    gen=[dict(name="objects", module="GenObjects", num=30, depth=81)],
    builds=dict(dbg=dict(src="objects.cc", parts=3, std="c++17", flags=DBG + ASAN)),
    runs=[dict(build="dbg", mode="resize", shards=6, n=8, n_thorough=60),
          dict(build="dbg", mode="script", gen="objects", shards=2)],
    trace="TraceObjects")

AREAS["C03"] = dict(
    mc=[dict(module="MCSizes", cfg="MCSizes.cfg", cfg_thorough="MCSizesBig.cfg")],
    builds=dict(dbg=dict(src="sizes.cc", parts=8, flags=DBG),
                plain=dict(src="sizes.cc", parts=8, flags=PLAIN)),
    runs=[dict(build="dbg", mode="rand", shards=8, n=1, n_thorough=6),
          dict(build="plain", mode="rand", shards=8, n=1, n_thorough=3, tag="abort")],
    trace="TraceSizes")
AREAS["C04"] = dict(
    mc=[dict(module="MCBounds", cfg="MCBounds.cfg", cfg_thorough="MCBoundsBig.cfg")],
    builds=dict(dbg=dict(src="bounds.cc", parts=5, flags=DBG),
                plain=dict(src="bounds.cc", parts=5, flags=["-DTOON_CHECK_BOUNDS"])),
    runs=[dict(build="dbg", mode="rand", shards=5, n=1, n_thorough=4),
          dict(build="plain", mode="rand", shards=3, n=1, n_thorough=4, tag="abort")],
    trace="TraceBounds")

AREAS["C08"] = dict(
    mc=[dict(module="MCFill", cfg="MCFill.cfg", cfg_thorough="MCFillBig.cfg")],
    builds=dict(asan=dict(src="fill.cc", parts=7, std="c++17", flags=DBG + ASAN),
                plain=dict(src="fill.cc", parts=7, std="c++17", flags=PLAIN)),
    runs=[dict(build="asan", mode="rand", shards=7, n=1, n_thorough=8),
          dict(build="plain", mode="rand", shards=7, n=1, n_thorough=8, tag="abort")],
    trace="TraceFill")

AREAS["C09"] = dict(
    mc=[dict(module="MCDiag", cfg="MCDiag.cfg", cfg_thorough="MCDiagBig.cfg")],
    builds=dict(dbg=dict(src="diag.cc", parts=4, std="c++17", flags=DBG + ASAN),
                opt=dict(src="diag.cc", parts=4, std="c++17", flags=PLAIN, opt=["-O2"], cxx="clang++", tiers=["thorough"])),
    runs=[dict(build="dbg", mode="rand", shards=4, n=2, n_thorough=20),
          dict(build="opt", mode="rand", shards=4, n=20, tiers=["thorough"], tag="randopt")],
    trace="TraceDiag")

AREAS["C10"] = dict(
    mc=[dict(module="MCElim", cfg="MCElim3.cfg"), dict(module="MCElim", cfg="MCElim.cfg", cfg_thorough="MCElimGJ.cfg"), dict(module="MCElim", cfg="MCElim3GJ.cfg"), dict(module="MCLimb", cfg="MCLimb.cfg")],
    builds=dict(dbg=dict(src="solve.cc", parts=10, std="c++17", flags=DBG),
                opt=dict(src="solve.cc", parts=10, std="c++17", flags=PLAIN, opt=["-O2"], cxx="clang++", tiers=["thorough"])),
    runs=[dict(build="dbg", mode="rand", shards=8, n=9, n_thorough=60),
          dict(build="opt", mode="rand", shards=8, n=60, tiers=["thorough"], tag="randopt")],
    trace="TraceSolve")

AREAS["C11"] = dict(
    mc=[dict(module="MCElim", cfg="MCElim3.cfg"), dict(module="MCElim", cfg="MCElim.cfg", cfg_thorough="MCElimGJ.cfg"), dict(module="MCLdl", cfg="MCLdl3.cfg", cfg_thorough="MCLdlBig.cfg")],
    builds=dict(dbg=dict(src="det.cc", parts=7, std="c++17", flags=DBG),
                lap=dict(src="det.cc", parts=7, std="c++17", flags=DBG + ["-DTOON_DETERMINANT_LAPACK=3"]),
                opt=dict(src="det.cc", parts=7, std="c++17", flags=PLAIN, opt=["-O2"], cxx="clang++", tiers=["thorough"])),
    runs=[dict(build="dbg", mode="rand", shards=6, n=9, n_thorough=90),
          dict(build="lap", mode="det", shards=2, n=8, n_thorough=60, tag="lapack"),
          dict(build="opt", mode="rand", shards=8, n=90, tiers=["thorough"], tag="randopt")],
    trace="TraceDet")

AREAS["C12"] = dict(
    mc=[dict(module="MCLdl", cfg="MCLdl.cfg"), dict(module="MCLdl", cfg="MCLdl3.cfg", cfg_thorough="MCLdlBig.cfg"), dict(module="MCLimb", cfg="MCLimb.cfg")],
    builds=dict(dbg=dict(src="chol.cc", parts=6, std="c++17", flags=DBG),
                opt=dict(src="chol.cc", parts=6, std="c++17", flags=PLAIN, opt=["-O2"], cxx="clang++", tiers=["thorough"])),
    runs=[dict(build="dbg", mode="rand", shards=8, n=20, n_thorough=200),
          dict(build="opt", mode="rand", shards=8, n=200, tiers=["thorough"], tag="randopt")],
    trace="TraceChol")

_DEC = [dict(module="MCDecomp", cfg="MCDecomp.cfg"), dict(module="MCDecomp", cfg="MCDecompWide.cfg"), dict(module="MCLimb", cfg="MCLimb.cfg")]
AREAS["C21"] = dict(
    mc=_DEC,
    builds=dict(dbg=dict(src="svd.cc", parts=7, std="c++17", flags=DBG),
                opt=dict(src="svd.cc", parts=7, std="c++17", flags=PLAIN, opt=["-O2"], cxx="clang++", tiers=["thorough"])),
    runs=[dict(build="dbg", mode="rand", shards=8, n=6, n_thorough=60),
          dict(build="opt", mode="rand", shards=8, n=60, tiers=["thorough"], tag="randopt")],
    trace="TraceSvd")
AREAS["C22"] = dict(
    mc=[dict(module="MCDecomp", cfg="MCDecomp.cfg"), dict(module="MCLimb", cfg="MCLimb.cfg")],
    builds=dict(dbg=dict(src="eig.cc", parts=4, std="c++17", flags=DBG),
                opt=dict(src="eig.cc", parts=4, std="c++17", flags=PLAIN, opt=["-O2"], cxx="clang++", tiers=["thorough"])),
    runs=[dict(build="dbg", mode="rand", shards=8, n=6, n_thorough=60),
          dict(build="dbg", mode="all", shards=8, n=1, n_thorough=2, tag="all"),
          dict(build="opt", mode="rand", shards=8, n=60, tiers=["thorough"], tag="randopt")],
    trace="TraceEig")
AREAS["C23"] = dict(
    mc=[dict(module="MCDecomp", cfg="MCDecomp.cfg"), dict(module="MCElim", cfg="MCElim3.cfg"), dict(module="MCLimb", cfg="MCLimb.cfg")],
    builds=dict(dbg=dict(src="qrlu.cc", parts=6, std="c++17", flags=DBG),
                opt=dict(src="qrlu.cc", parts=6, std="c++17", flags=PLAIN, opt=["-O2"], cxx="clang++", tiers=["thorough"])),
    runs=[dict(build="dbg", mode="rand", shards=8, n=5, n_thorough=50),
          dict(build="opt", mode="rand", shards=8, n=50, tiers=["thorough"], tag="randopt")],
    trace="TraceQrLu")

AREAS["C13"] = dict(
    mc=[dict(module="MCWls", cfg="MCWls.cfg", cfg_thorough="MCWlsBig.cfg"), dict(module="MCWls", cfg="MCWlsLaws.cfg")],
    builds=dict(dbg=dict(src="wls.cc", parts=6, std="c++17", flags=DBG),
                opt=dict(src="wls.cc", parts=6, std="c++17", flags=PLAIN, opt=["-O2"], cxx="clang++", tiers=["thorough"])),
    runs=[dict(build="dbg", mode="rand", shards=8, n=30, n_thorough=200),
          dict(build="opt", mode="rand", shards=8, n=200, tiers=["thorough"], tag="randopt")],
    trace="TraceWls")

_GRP = dict(dbg=dict(src="groups.cc", parts=14, std="c++17", flags=DBG),
            opt=dict(src="groups.cc", parts=14, std="c++17", flags=PLAIN, opt=["-O2"], cxx="clang++", tiers=["thorough"]))
AREAS["C14"] = dict(
    mc=[dict(module="MCGroups", cfg="MCGroups2.cfg", cfg_thorough="MCGroups2Big.cfg"), dict(module="MCGroups", cfg="MCGroups3.cfg", cfg_thorough="MCGroups3Big.cfg"), dict(module="MCLie", cfg="MCLie.cfg")],
    builds=_GRP,
    runs=[dict(build="dbg", mode="ops", shards=8, n=6, n_thorough=60),
          dict(build="opt", mode="ops", shards=8, n=60, tiers=["thorough"], tag="opsopt")],
    trace="TraceGroups")
AREAS["C15"] = dict(
    mc=[dict(module="MCLie", cfg="MCLie.cfg", cfg_thorough="MCLieBig.cfg"), dict(module="MCGroups", cfg="MCGroups2.cfg", cfg_thorough="MCGroups2Big.cfg")],
    builds=_GRP,
    runs=[dict(build="dbg", mode="lie", shards=8, n=3, n_thorough=25),
          dict(build="opt", mode="lie", shards=8, n=25, tiers=["thorough"], tag="lieopt")],
    trace="TraceGroups")
AREAS["C24"] = dict(
    mc=[dict(module="MCLie", cfg="MCLie.cfg", cfg_thorough="MCLieBig.cfg")],
    builds=_GRP,
    runs=[dict(build="dbg", mode="sl", shards=8, n=3, n_thorough=20),
          dict(build="opt", mode="sl", shards=8, n=20, tiers=["thorough"], tag="slopt")],
    trace="TraceGroups")

def _one(src, parts):
    return dict(dbg=dict(src=src, parts=parts, std="c++17", flags=DBG),
                opt=dict(src=src, parts=parts, std="c++17", flags=PLAIN, opt=["-O2"], cxx="clang++", tiers=["thorough"]))
AREAS["C16"] = dict(
    mc=[dict(module="MCSimplex", cfg="MCSimplex1.cfg"), dict(module="MCSimplex", cfg="MCSimplex2.cfg")],
    gen=[dict(name="simplex%d" % i, module="GenSimplex", cfg="GenSimplex%d.cfg" % i, num=20, depth=14, thorough_factor=10) for i in (1, 2, 3)],
    builds=_one("simplex.cc", 4),
    runs=[dict(build="dbg", mode="rand", shards=8, n=15, n_thorough=200)] +
         [dict(build="dbg", mode="script", gen="simplex%d" % i, shards=1, tag="script%d" % i) for i in (1, 2, 3)] +
         [dict(build="opt", mode="rand", shards=8, n=200, tiers=["thorough"], tag="randopt")],
    trace="TraceSimplex")
AREAS["C17"] = dict(
    mc=[dict(module="MCLine", cfg="MCLine.cfg", cfg_thorough="MCLineBig.cfg")],
    builds=_one("line.cc", 1),
    runs=[dict(build="dbg", mode="rand", shards=8, n=400, n_thorough=4000),
          dict(build="opt", mode="rand", shards=8, n=4000, tiers=["thorough"], tag="randopt")],
    trace="TraceLine")
AREAS["C18"] = dict(
    mc=[dict(module="MCBracket", cfg="MCBracket.cfg", cfg_thorough="MCBracketBig.cfg"), dict(module="MCLine", cfg="MCLine.cfg")],
    builds=_one("cg.cc", 4),
    runs=[dict(build="dbg", mode="rand", shards=8, n=30, n_thorough=300),
          dict(build="opt", mode="rand", shards=8, n=300, tiers=["thorough"], tag="randopt")],
    trace="TraceCG")
AREAS["C19"] = dict(
    mc=[dict(module="MCReduce", cfg="MCReduce1.cfg", cfg_thorough="MCReduceBig.cfg"), dict(module="MCReduce", cfg="MCReduce2.cfg", cfg_thorough="MCReduceBig2.cfg")],
    builds=_one("reduce.cc", 11),
    runs=[dict(build="dbg", mode="rand", shards=8, n=300, n_thorough=4000),
          dict(build="opt", mode="rand", shards=8, n=4000, tiers=["thorough"], tag="randopt")],
    trace="TraceReduce")
AREAS["C20"] = dict(
    mc=[dict(module="MCStreams", cfg="MCStreams.cfg", cfg_thorough="MCStreamsBig.cfg"), dict(module="MCStreams", cfg="MCStreamsC.cfg")],
    builds=_one("streams.cc", 9),
    runs=[dict(build="dbg", mode="rand", shards=8, n=300, n_thorough=4000),
          dict(build="opt", mode="rand", shards=8, n=4000, tiers=["thorough"], tag="randopt")],
    trace="TraceStreams")
AREAS["C25"] = dict(
    mc=[dict(module="MCElem", cfg="MCElem.cfg", cfg_thorough="MCElemBig.cfg")],
    builds=dict(dbg=dict(src="elem.cc", parts=11, std="c++17", flags=DBG), opt=dict(src="elem.cc", parts=11, std="c++17", flags=PLAIN, opt=["-O2"], cxx="clang++", tiers=["thorough"])),
    runs=[dict(build="dbg", mode="rand", shards=8, n=60, n_thorough=800),
          dict(build="opt", mode="rand", shards=8, n=800, tiers=["thorough"], tag="randopt")],
    trace="TraceElem")
AREAS["C26"] = dict(
    mc=[dict(module="MCDeriv", cfg="MCDeriv.cfg", cfg_thorough="MCDerivBig.cfg")],
    builds=_one("deriv.cc", 4),
    runs=[dict(build="dbg", mode="rand", shards=8, n=60, n_thorough=800),
          dict(build="opt", mode="rand", shards=8, n=800, tiers=["thorough"], tag="randopt")],
    trace="TraceDeriv")
