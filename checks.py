"""Which harnesses decide which property."""
UB = "bounds,integer-divide-by-zero,signed-integer-overflow,shift,vla-bound,float-cast-overflow,bool,enum,return,unreachable,alignment,builtin"
BASE = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-Wno-everything", "-fno-sanitize-recover=all"]
FUZZLIB = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a"
VARIANTS = {
    # Debug assertions and bounds checking on.
    "dbg": dict(cxx="clang++", cc="clang", flags=BASE + ["-O1", "-fsanitize=address," + UB], config=["LVARRAY_BOUNDS_CHECK"]),
    # Release: assertions and bounds checking off, instrumented for libFuzzer.
    "fuzz": dict(cxx="clang++", cc="clang", flags=BASE + ["-O1", "-DNDEBUG", "-DPBT_FUZZ", "-fsanitize=fuzzer-no-link,address," + UB], config=[], fuzz=True, link=[FUZZLIB, "-lstdc++"]),
    # Release without libFuzzer instrumentation.
    "rel": dict(cxx="clang++", cc="clang", flags=BASE + ["-O2", "-DNDEBUG", "-fsanitize=address," + UB], config=[]),
    # gcc, release optimisation, no sanitizer: what users run.
    "gcc": dict(cxx="g++", cc="gcc", flags=["-std=c++17", "-g1", "-w", "-O2", "-DNDEBUG"], config=[]),
    # Release with bounds checking: assertions cannot stand in for a bounds check.
    "bcfuzz": dict(cxx="clang++", cc="clang", flags=BASE + ["-O1", "-DNDEBUG", "-DPBT_FUZZ", "-fsanitize=fuzzer-no-link,address," + UB], config=["LVARRAY_BOUNDS_CHECK"], fuzz=True, link=[FUZZLIB, "-lstdc++"]),
    "bcgcc": dict(cxx="g++", cc="gcc", flags=["-std=c++17", "-g1", "-w", "-O2", "-DNDEBUG"], config=["LVARRAY_BOUNDS_CHECK"]),
    # Undefined behaviour only: address space is used as freely as without a sanitizer.
    "ubs": dict(cxx="clang++", cc="clang", flags=BASE + ["-O1", "-DNDEBUG", "-fsanitize=" + UB], config=[]),
    "tsan": dict(cxx="clang++", cc="clang", flags=BASE + ["-O1", "-fsanitize=thread", "-DVERIF_RAJA_THREADS"], config=[]),
}
GLUE = ["lvglue.cpp"]
CHECKS = {}


def check(pid, builds, **kw):
    CHECKS[pid] = dict(builds=builds, **kw)


check("C01", [dict(name="intconv", sources=["h_intconv.cpp"], variants=["dbg", "fuzz", "gcc"])])
check("C04", [dict(name="limits", sources=["h_limits.cpp"], variants=["dbg", "fuzz", "gcc"])])
check("C02", [dict(name="macros", sources=["h_macros.cpp"], variants=["dbg", "fuzz", "gcc"])])
check("C03", [dict(name="math", sources=["h_math.cpp"], variants=["dbg", "fuzz", "gcc"], fuzz_factor=0.3)])
check("C05", [dict(name="fpe", sources=["h_fpe.cpp"], variants=["dbg", "fuzz", "gcc"], fuzz_factor=0.1, scale={"gcc": 2})])
check("C06", [dict(name="handlers", sources=["h_handlers.cpp"], variants=["dbg", "fuzz", "gcc"], fuzz_factor=0.2)])
check("C07", [dict(name="format", sources=["h_format.cpp"], variants=["dbg", "fuzz", "gcc"])])
check("C08", [dict(name="arrman", sources=["h_arrman.cpp"], variants=["dbg", "fuzz", "gcc"])])
check("C09", [dict(name="sort", sources=["h_sort.cpp"], variants=["dbg", "fuzz", "gcc"], fuzz_factor=0.5)])
check("C10", [dict(name="sortedops", sources=["h_sortedops.cpp"], variants=["dbg", "fuzz", "gcc"])])
check("C11", [dict(name="index", sources=["h_index.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])
check("C13", [dict(name="resize", sources=["h_resize.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])
check("C14", [dict(name="array1d", sources=["h_array1d.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])
check("C15", [dict(name="views", sources=["h_views.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20", "-fno-strict-aliasing"])])
check("C16", [dict(name="stackarray", sources=["h_stackarray.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])
check("C30", [dict(name="buffers", sources=["h_buffers.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])
check("C18", [dict(name="sortedarray", sources=["h_sortedarray.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])
check("C19", [dict(name="aoa", sources=["h_aoa.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])
check("C12", [dict(name="lifecycle", sources=["h_lifecycle.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])
check("C20", [dict(name="aos", sources=["h_aos.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])
check("C21", [dict(name="sparsity", sources=["h_sparsity.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])
check("C22", [dict(name="crs", sources=["h_crs.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])
check("C23", [dict(name="convert", sources=["h_convert.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])
check("C17", [dict(name="bounds", sources=["h_bounds.cpp"], variants=["dbg", "bcfuzz", "bcgcc"], flags=["-std=c++20"])])

check("C24", [dict(name="concsched", sources=["h_conc.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20", "-DVERIF_SCHED", "-DVERIF_RAJA_THREADS"]),
              dict(name="concrace", sources=["h_conc.cpp"], variants=["tsan", "gcc"], flags=["-std=c++20", "-DVERIF_RAJA_THREADS"])])

check("C25", [dict(name="memcpy", sources=["h_memcpy.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])

check("C26", [dict(name="io", sources=["h_io.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])

TENSOR = [("double", "double", "double", "double"), ("float", "float", "float", "float"), ("int", "int", "int", "int"), ("mixed", "double", "int", "float")]
check("C27", [dict(name="tensor" + n, sources=["h_tensor.cpp"], variants=["dbg", "fuzz", "gcc"] if n in ("double", "int") else ["dbg", "gcc"],
                   flags=["-std=c++20", "-DTENSOR_T=" + t, "-DTENSOR_A=" + a, "-DTENSOR_B=" + b, '-DTENSOR_NAME="%s"' % n], fuzz_factor=0.5) for n, t, a, b in TENSOR])

SQUARE = TENSOR[:3] + [("mixed", "double", "int", "int")]
check("C28", [dict(name="square" + n, sources=["h_square.cpp"], variants=["dbg", "fuzz", "gcc"] if n == "double" else ["dbg", "gcc"],
                   flags=["-std=c++20", "-DTENSOR_T=" + t, "-DTENSOR_A=" + a, "-DTENSOR_B=" + b, '-DTENSOR_NAME="%s"' % n], fuzz_factor=0.5) for n, t, a, b in SQUARE])

EIGEN = [("double", "double", "double"), ("float", "float", "float"), ("mixed", "double", "float"), ("int", "float", "int")]
check("C29", [dict(name="eigen" + n, sources=["h_eigen.cpp"], variants=["dbg", "fuzz", "gcc"] if n in ("double", "float") else ["dbg", "gcc"],
                   flags=["-std=c++20", "-DTENSOR_T=" + t, "-DTENSOR_A=" + a, '-DTENSOR_NAME="%s"' % n], fuzz_factor=0.5) for n, t, a in EIGEN])

check("C32", [dict(name="totalview", sources=["h_totalview.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20", "-DLVARRAY_USE_TOTALVIEW_OUTPUT"],
                   repo_sources=["src/system.cpp", "src/umpireInterface.cpp", "src/totalview/tv_data_display.c"])])

check("C33", [dict(name="types", sources=["h_types.cpp"], variants=["dbg", "gcc"], flags=["-std=c++20"]),
              dict(name="viewtypes", sources=["h_viewtypes.cpp"], variants=["dbg", "gcc"], flags=["-std=c++20"])])

check("C31", [dict(name="chai", sources=["h_chai.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20", "-DLVARRAY_USE_UMPIRE"])], quick_scale=5.0, thorough_scale=100.0)

check("C35", [dict(name="half", sources=["h_half.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20", "-DLVARRAY_USE_CUDA"], fuzz_factor=0.3),
              dict(name="half-11", sources=["h_half.cpp"], variants=["dbg", "gcc"], flags=["-std=c++20", "-DLVARRAY_USE_CUDA", "-DCUDART_VERSION=11080"])], quick_scale=5.0, thorough_scale=20.0)

PYSITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
check("C34", [dict(name="python", sources=["h_python.cpp"], variants=["dbg", "fuzz", "gcc"], libs=["-lpython3.12"], fuzz_factor=0.5,
                   flags=["-I/usr/include/python3.12", "-I" + PYSITE + "/numpy/_core/include", '-DVERIF_PYTHON_SITE="%s"' % PYSITE],
                   repo_sources=["src/system.cpp", "src/umpireInterface.cpp"] + ["src/python/%s.cpp" % n for n in ("python", "pythonHelpers", "numpyHelpers", "PyArray", "PySortedArray", "PyCRSMatrix", "PyFunc", "PyArrayOfArrays", "PyArrayOfSets")])])

# Properties without a check, with the reason.
NOT_APPLICABLE = {}

TRACE = ["-g", "-DLVARRAY_ADDR2LINE_EXEC=/usr/bin/addr2line"]
check("C36", [dict(name="trace", sources=["h_trace.cpp"], variants=["dbg", "gcc"], flags=TRACE + ["-fPIE"], libs=["-rdynamic", "-pie"]),
              dict(name="tracefixed", sources=["h_trace.cpp"], variants=["gcc"], flags=TRACE + ["-fno-pie"], libs=["-rdynamic", "-no-pie"]),
              dict(name="tracedebug", sources=["h_trace.cpp"], variants=["gcc"], flags=TRACE + ["-O0", "-fPIE"], libs=["-rdynamic", "-pie"])])
check("C37", [dict(name="handles", sources=["h_handles.cpp"], variants=["dbg", "fuzz", "gcc"], flags=["-std=c++20"])])
check("C38", [dict(name="gdb", sources=["h_gdb.cpp"], variants=["gcc"], flags=["-std=c++20", "-DLVARRAY_USE_UMPIRE", "-UNDEBUG", "-O0", "-g"])])
check("C40", [dict(name="huge", sources=["h_huge.cpp"], variants=["gcc", "ubs"], flags=["-std=c++20"], fuzz=False)], jobs=4)

check("C39", [dict(name="cost", sources=["h_cost.cpp"], variants=["fuzz", "gcc"], flags=["-std=c++20"], libs=["-Wl,--wrap=malloc,--wrap=free,--wrap=realloc"])])

# How much the quick tier explores, as a multiple of each target's number of cases: about 15 s of run time each.
for pid, scale in dict(C01=1.5, C02=4.0, C03=2.0, C05=2.0, C06=2.0, C07=8.0, C08=12.0, C09=3.0, C10=10.0, C11=3.0, C12=5.0, C13=2.0, C14=8.0, C15=2.5, C16=10.0, C17=1.5, C18=6.0, C19=8.0, C20=6.0, C21=6.0, C22=6.0, C23=3.0, C25=4.0, C26=1.5, C27=2.0, C28=3.0, C29=2.5, C30=8.0, C32=1.0, C33=10.0, C37=10.0, C39=25.0, C40=3.0).items():
    CHECKS[pid]["quick_scale"] = scale
    CHECKS[pid]["thorough_scale"] = max(20.0, 10.0 * scale)
