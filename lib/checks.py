"""property id -> level, binaries to build and run, assumptions"""
MEM = "memory errors are those AddressSanitizer detects on the executed paths"
def h(src, part=None, *fl, **kw):
    d = {"src": src, "flags": (["-DPART=%d" % part] if part else []) + list(fl)}
    d.update(kw)
    return d
def num(part, **kw): return h("h_num.cc", part, std="c++17", opt="-O2", **kw)
FULL = lambda part, thorough_only=False: h("h_num.cc", part, "-DFULL", std="c++17", opt="-O2", asan=False, thorough_only=thorough_only)
CONV = "std::to_chars/from_chars and strtof/strtod of the toolchain are correct (used as the oracle)"
def vt(part, *fl, **kw):
    d = {"src": "h_thread.cc", "clang": True, "prebuild": ["bash", "{HERE}/harness/build_vt.sh", "{OUT}", "{DIR}", "{REPO}", "h_thread.cc", "-DPART=%d" % part] + list(fl)}
    d.update(kw)
    return d
SC = "threads are interleaved at synchronisation operations with sequentially consistent memory; accesses in between are checked for data races with the memory orders of the atomics"
PT = "the platform layer (pthreads, clocks) is replaced by a model of its POSIX specification"
FF = ["-w", "-fpermissive", "-DNANOSTL__NULLPTR", "-include", "stddef.h"]
CHECKS = {
    "V01": {"level": "model_checking", "bins": [h("h_vector.cc"), h("h_hugeseq.cc", 1, "-include", "stdint.h", opt="-O2", asan=False)],
            "assumptions": [MEM, "element values are opaque to the container (they are renamed in the state hash)"]},
    "V02": {"level": "model_checking", "bins": [h("h_vector.cc", None, "-DSEQ_VALARRAY"), h("h_hugeseq.cc", 2, "-include", "stdint.h", opt="-O2", asan=False)],
            "assumptions": [MEM, "element values are opaque to the container"]},
    "S01": {"level": "model_checking", "bins": [h("h_string.cc", 1), h("h_hugeseq.cc", 3, "-include", "stdint.h", opt="-O2", asan=False)], "assumptions": [MEM]},
    "S02": {"level": "model_checking", "bins": [h("h_string.cc", 2), h("h_hugeseq.cc", 4, "-include", "stdint.h", opt="-O2", asan=False)], "assumptions": [MEM, "C texts end at their first NUL"]},
    "S03": {"level": "model_checking", "bins": [h("h_string.cc", 3)], "assumptions": [MEM]},
    "M01": {"level": "model_checking", "bins": [h("h_map.cc", 1)], "assumptions": [MEM, "keys are opaque apart from their order"]},
    "M02": {"level": "model_checking", "bins": [h("h_map.cc", 2)], "assumptions": [MEM, "keys are opaque apart from their order"]},
    "M03": {"level": "model_checking", "bins": [h("h_map.cc", 3)], "assumptions": ["depth is measured by key comparisons"]},
    "N01": {"level": "model_checking", "bins": [num(1), FULL(1)], "assumptions": [CONV]},
    "N02": {"level": "model_checking", "bins": [num(2), FULL(2)], "assumptions": [CONV]},
    "N03": {"level": "model_checking", "bins": [num(3)], "assumptions": [CONV]},
    "N04": {"level": "model_checking", "bins": [num(4), num(5), FULL(4, True)], "assumptions": [CONV]},
    "U01": {"level": "model_checking", "bins": [h("h_uptr.cc")], "assumptions": [MEM]},
    "X01": {"level": "model_checking", "bins": [h("h_optional.cc")], "assumptions": [MEM]},
    "X02": {"level": "model_checking", "bins": [h("h_variant.cc", extra=["{REPO}/src/nanoexception.cc"])], "assumptions": [MEM, "alternatives are distinct types"]},
    "F01": {"level": "model_checking", "bins": [h("h_math.cc", 1, opt="-O2", asan=False)], "assumptions": ["the bit-level reference in the harness states IEEE semantics"]},
    "F02": {"level": "model_checking", "bins": [h("h_math.cc", 2, opt="-O2", asan=False)], "assumptions": []},
    "F03": {"level": "model_checking", "bins": [h("h_math.cc", 3, opt="-O2", asan=False)], "assumptions": ["the double precision functions of the C library are the true value"]},
    "T01": {"level": "model_checking", "bins": [h("h_traits.cc", None, "-DPART=%d" % i, opt="-O0", asan=False) for i in range(5)], "assumptions": ["the traits of the toolchain give the language rule"]},
    "H01": {"level": "model_checking", "bins": [h("h_hash2.cc", extra=["{REPO}/src/nanoexception.cc"]), h("h_misc.cc", 1, opt="-O2", asan=False)], "assumptions": []},
    "H02": {"level": "model_checking", "bins": [h("h_huge.cc", 2, "-include", "stdint.h", opt="-O2", asan=False, extra=["{REPO}/src/hash.cc"]), h("h_misc.cc", 2, extra=["{REPO}/src/hash.cc"])], "assumptions": [MEM]},
    "A01": {"level": "model_checking", "bins": [h("h_huge.cc", 1, "-include", "stdint.h", opt="-O2", asan=False), h("h_misc.cc", 3)], "assumptions": [MEM]},
    "L01": {"level": "model_checking", "bins": [h("h_misc.cc", 4, asan=False)], "assumptions": ["the limits of the toolchain library are those of the types"]},
    "R01": {"level": "model_checking", "bins": [h("h_misc.cc", 5, asan=False)], "assumptions": ["std::ratio of the toolchain is correct (used as the oracle)"]},
    "X05": {"level": "model_checking", "bins": [h("h_tuple.cc")], "assumptions": [MEM]},
    "C01": {"level": "model_checking", "bins": [vt(1)], "assumptions": [SC]},
    "C02": {"level": "model_checking", "bins": [vt(2)], "assumptions": [SC, PT]},
    "C03": {"level": "model_checking", "bins": [vt(3)], "assumptions": [SC, PT, "one waiting thread per signal, as documented"]},
    "C04": {"level": "model_checking", "bins": [vt(4, budget={"quick": 200, "thorough": 400}), vt(4, "-DNDEBUG", budget={"quick": 200, "thorough": 120}), {"src": "h_longq.cc", "clang": True, "prebuild": ["bash", "{HERE}/harness/build_native.sh", "{OUT}", "{REPO}", "h_longq.cc"]}], "assumptions": [SC, PT, "one producer and one consumer, as documented"]},
    "C05": {"level": "model_checking", "bins": [vt(5)], "assumptions": [SC, PT]},
    "C06": {"level": "model_checking", "bins": [vt(6), {"src": "h_manykeys.cc", "clang": True, "prebuild": ["bash", "{HERE}/harness/build_native.sh", "{OUT}", "{REPO}", "h_manykeys.cc"]}], "assumptions": [SC, PT]},
    "C07": {"level": "model_checking", "bins": [vt(7)], "assumptions": [PT]},
    "N05": {"level": "model_checking", "bins": [h("h_ff.cc", 1, *FF, base=False), h("h_ff.cc", 2, *FF, base=False, opt="-O2", asan=False)], "assumptions": [MEM, "strtod and strtof of the C library are correct where the expected value is not computed exactly"]},
    "O01": {"level": "model_checking", "bins": [h("h_nest.cc", extra=["{REPO}/src/nanoexception.cc"])], "assumptions": [MEM, "the containers of the toolchain are the ideal ones"]},
    "S04": {"level": "model_checking", "bins": [h("h_ios.cc", None, "-w", "-DFASTFLOAT_FAST_FLOAT_H", base=False, clang=True)], "assumptions": [MEM, "the C library writes standard output faithfully"]},
    "X03": {"level": "model_checking", "bins": [h("h_expected.cc")], "assumptions": [MEM, "moving values and errors does not throw"]},
    "X04": {"level": "model_checking", "bins": [h("h_any.cc"), h("h_any.cc", None, "-DNANOSTL_ENABLE_EXCEPTION", "-DNANOSTL_TYPEINFO_H")], "assumptions": [MEM]},
    "X06": {"level": "model_checking", "bins": [h("h_seq.cc", opt="-O0", asan=False)], "assumptions": ["the compiler evaluates the definitions faithfully"]},
    "X07": {"level": "model_checking", "bins": [h("h_typeinfo.cc", None, "-DIMPL=%d" % i) for i in (1, 2, 3)], "assumptions": [MEM]},
}
