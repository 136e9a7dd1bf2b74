"""Which explorers decide which property, and how the code is built for them."""
ASAN = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-sanitize-address-use-odr-indicator"]
LIB = ["-O0"] + ASAN[1:]  # as in the repository's own build: nothing the source does is optimized away
# what the repository's own compiler accepts with a warning is not an error here either
PERMIT = ["-Wno-error=" + w for w in ("int-conversion", "implicit-function-declaration", "implicit-int", "incompatible-function-pointer-types", "incompatible-pointer-types", "return-type")]
VARIANTS = {
    # the whole library, with the address sanitizer, its heap functions redirected to the explorer
    "asan": dict(cc="clang", cxx="clang++", cflags=LIB, xflags=ASAN + ["-Wall", "-Wextra"], ldflags=["-fsanitize=address"]),
}


# what local variables hold before they are written
VARIANTS["locals_zero"] = dict(VARIANTS["asan"], cflags=LIB + ["-ftrivial-auto-var-init=zero"], x="asan")
VARIANTS["locals_pattern"] = dict(VARIANTS["asan"], cflags=LIB + ["-ftrivial-auto-var-init=pattern"], x="asan")


def _second(cc, flags):
    """Compiles the library a second time (another configuration), all its functions renamed nl_*."""
    def build(repo, here, bdir, run, objs, nexp):
        import glob, os
        from concurrent.futures import ThreadPoolExecutor
        src = sorted(glob.glob(os.path.join(repo, "src", "**", "*.c"), recursive=True))
        inc = ["-I" + os.path.join(repo, "include"), "-I" + os.path.join(repo, "src")]

        def one(i):
            o = os.path.join(bdir, "nl%02d.o" % i)
            run([cc, "-c", src[i], "-o", o, "-DZYCORE_STATIC_BUILD"] + (PERMIT if cc == "clang" else []) + flags + inc)
            return o
        with ThreadPoolExecutor(8) as p:
            out = list(p.map(one, range(len(src))))
        names = set()
        for l in run(["nm", "-g"] + out).splitlines():
            f = l.split()
            if len(f) >= 2 and f[-1].startswith("Zy"):
                names.add(f[-1])
        m = os.path.join(bdir, "nl.syms")
        open(m, "w").write("".join("%s nl_%s\n" % (n, n) for n in sorted(names)))
        for o in out:
            run(["objcopy", "--redefine-syms=" + m, o])
        return out
    return build


VARIANTS["lockstep"] = dict(VARIANTS["asan"], extra=_second("clang", ["-DZYAN_NO_LIBC"] + LIB))
VARIANTS["release_gcc"] = dict(VARIANTS["asan"], extra=_second("gcc", ["-O3", "-DNDEBUG"]))
VARIANTS["release_clang"] = dict(VARIANTS["asan"], extra=_second("clang", ["-O3", "-DNDEBUG"]))


def _m32():
    """A 32-bit build. Only the shared 32-bit C and C++ libraries are installed, so the headers of the 64-bit
    system are used and the program start comes from src/m32/crt.c."""
    import glob, os
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "src", "m32")
    last = lambda pat: (sorted(glob.glob(pat)) or [pat])[-1]
    sysinc = ["-isystem", here, "-isystem", "/usr/include/x86_64-linux-gnu"]
    cppinc = ["-isystem", last("/usr/include/c++/*"), "-isystem", last("/usr/include/x86_64-linux-gnu/c++/*")]
    rt = last("/usr/lib/llvm-*/lib/clang/*/lib/linux")
    fl = ["-m32"] + ASAN

    def crt(repo, h, bdir, run, objs, nexp):
        o = os.path.join(bdir, "crt32.o")
        run(["clang", "-m32", "-O1", "-fno-pic", "-c", os.path.join(here, "crt.c"), "-o", o])
        return [o]
    return dict(cc="clang", cxx="clang++", exclude=["/API/"], cflags=["-m32"] + LIB + sysinc, xflags=fl + ["-Wall", "-Wextra"] + cppinc + sysinc, extra=crt,
                link=["clang", "-m32", "-nostdlib", "-no-pie"],
                ldflags=["-Wl,--whole-archive"] + [os.path.join(rt, "libclang_rt.%s-i386.a" % x) for x in ("asan", "asan_cxx", "asan_static")]
                + ["-Wl,--no-whole-archive", "-Wl,--export-dynamic", "-Wl,--dynamic-linker=/lib/ld-linux.so.2"]
                + ["/usr/lib32/" + x for x in ("libstdc++.so.6", "libm.so.6", "libc.so.6", "libgcc_s.so.1", "ld-linux.so.2")])


VARIANTS["m32"] = _m32()
TSAN = ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"]
_PT = ["pthread_mutex_lock", "pthread_mutex_timedlock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock",
       "pthread_rwlock_trywrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_unlock", "pthread_spin_lock", "pthread_spin_trylock", "pthread_spin_unlock",
       "sem_wait", "sem_trywait", "sem_post", "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_signal", "pthread_cond_broadcast", "sched_yield",
       "usleep", "nanosleep", "pthread_once", "pthread_mutexattr_init", "pthread_mutex_init", "pthread_key_create", "pthread_key_delete",
       "pthread_getspecific", "pthread_setspecific"]
_MEM = ["memcpy", "memmove", "memset", "memcmp", "bcmp", "memchr", "strlen", "strnlen", "strcmp", "strncmp", "strchr", "strrchr", "strstr", "strcpy", "strncpy",
        "strcat", "vsnprintf", "snprintf", "vsprintf", "sprintf", "strtok", "rand"]
VARIANTS["sched"] = dict(cc="clang", cxx="clang++", cflags=TSAN, xflags=["-O1", "-g1", "-Wall", "-Wextra"], ldflags=[],
                         prefix=[a for f in _PT for a in ("--redefine-sym", "%s=zyv_%s" % (f, f))])


def _atomics(repo, here, bdir, run, objs, nexp):
    import os
    out = []
    for fl, cc in (("clang", ["clang"]), ("gcc", ["gcc"]), ("clangxx", ["clang++", "-x", "c++"]), ("gxx", ["g++", "-x", "c++"])):
        o = os.path.join(bdir, "at_%s.o" % fl)
        run(cc + (PERMIT if cc == ["clang"] else []) + ["-c", os.path.join(here, "src", "atomics.c"), "-o", o, "-DFL=" + fl, "-DZYCORE_STATIC_BUILD", "-I" + os.path.join(repo, "include"),
                  "-fno-stack-protector"] + TSAN)
        out.append(o)
    return out


# no sanitizer and some optimization: whole passes over more than four gibibytes
VARIANTS["huge"] = dict(cc="clang", cxx="clang++", cflags=["-O2", "-g1"], xflags=["-O2", "-g1", "-Wall", "-Wextra"], ldflags=[], heap=False)
VARIANTS["atomics"] = dict(VARIANTS["sched"], extra=_atomics, exclude=["/"])
# threads and critical sections: the system's own heap
VARIANTS["objects"] = dict(VARIANTS["sched"], prefix=[a for f in _PT + _MEM for a in ("--redefine-sym", "%s=zyv_%s" % (f, f))], ldflags=["-lutil"])
VARIANTS["threads"] = dict(VARIANTS["sched"], heap=False, ldflags=["-lutil"])
_SCH = "stateless model checking of the real code: exhaustive enumeration of all thread schedules of all small programs under a controlled scheduler"
C = lambda *f, **k: [dict(src=list(f), variant="asan", **k)]
STAGES = {
    "C01": C("x_vector.cpp", "macros.c"),
    "C02": C("x_vector.cpp") + C("x_string.cpp"),
    "C03": C("x_containers.cpp"),
    "C04": C("x_containers.cpp") + C("x_format.cpp", args=["--prop", "C14", "--only", "mode0"]) + C("x_format.cpp", args=["--prop", "C15", "--only", "mode 0|sequences 2"]) + C("x_views.cpp", args=["--prop", "C29", "--only", "how=2|concat onto"]),
    "C05": C("x_containers.cpp") + C("x_format.cpp", args=["--prop", "C14", "--only", "mode2|mode3"]) + C("x_format.cpp", args=["--prop", "C15", "--only", "mode 3"]) + C("x_views.cpp", args=["--prop", "C29", "--only", "es=4 how=0|es=4 how=1|how=0 kind=1|how=1 kind=1"]),
    "C06": C("x_containers.cpp") + C("x_argparse.cpp", args=["--prop", "C21"]) + C("x_views.cpp", args=["--prop", "C29", "--only", "es=8 how=0|how=0 kind=1|concat onto"]) + C("x_format.cpp", args=["--prop", "C14", "--only", "mode1"]) + C("x_format.cpp", args=["--prop", "C15", "--only", "sequences 0"]),
    "C07": C("x_search.cpp"),
    "C08": C("x_args.cpp"),
    "C09": C("x_string.cpp"),
    "C10": C("x_text.cpp"),
    "C11": C("x_text.cpp"),
    "C12": C("x_views.cpp", "macros.c"),
    "C13": C("x_text.cpp"),
    "C14": C("x_format.cpp"),
    "C15": C("x_format.cpp"),
    "C16": C("x_containers.cpp"),
    "C17": C("x_containers.cpp"),
    "C18": C("x_containers.cpp", "macros.c"),
    "C19": C("x_containers.cpp"),
    "C20": C("x_argparse.cpp"),
    "C21": C("x_argparse.cpp"),
    "C22": [dict(src=["x_libc.cpp", "nolibc_shim.c"], variant="asan")],
    "C23": [dict(src=["x_atomics.cpp"], variant="atomics")],
    "C24": [dict(src=["x_threads.cpp"], variant="threads")],
    "C25": [dict(src=["x_threads.cpp"], variant="threads")],
    "C28": [dict(src=["x_interfere.cpp"], variant="objects")],
    "C26": C("x_system.cpp", ld=["-lutil"]),
    "C27": C("x_defs.cpp", "types.c", "types_nolibc.c", "types_fallback.c", defs=["-DZYV_TYPES"]),
    "C29": C("x_views.cpp"),
    "C31": C("x_system.cpp", ld=["-lutil"]),
    "C32": [dict(src=["x_lockstep.cpp"], variant="lockstep")],
    "C33": [dict(src=["x_lockstep.cpp"], variant="release_gcc"), dict(src=["x_lockstep.cpp"], variant="release_clang")],
    "C34": [dict(src=f.split(), variant="m32", args=["--prop", p], defs=["-DZYV_TYPES"] if p == "C27" else [], **({"tiers": ["thorough"]} if t else {})) for p, f, t in (
        ("C01", "x_vector.cpp macros.c", 0), ("C02", "x_vector.cpp macros.c", 1), ("C30", "x_vector.cpp macros.c", 0), ("C09", "x_string.cpp", 0),
        ("C04", "x_containers.cpp macros.c", 0), ("C05", "x_containers.cpp macros.c", 0), ("C16", "x_containers.cpp macros.c", 0), ("C17", "x_containers.cpp macros.c", 1),
        ("C18", "x_containers.cpp macros.c", 0), ("C19", "x_containers.cpp macros.c", 0), ("C03", "x_containers.cpp macros.c", 1), ("C06", "x_containers.cpp macros.c", 1), ("C30", "x_containers.cpp macros.c", 0),
        ("C07", "x_search.cpp", 0), ("C08", "x_args.cpp", 0), ("C10", "x_text.cpp", 0), ("C11", "x_text.cpp", 0), ("C13", "x_text.cpp", 0),
        ("C12", "x_views.cpp macros.c", 0), ("C29", "x_views.cpp macros.c", 0), ("C14", "x_format.cpp", 0), ("C15", "x_format.cpp", 0),
        ("C20", "x_argparse.cpp", 0), ("C21", "x_argparse.cpp", 0), ("C22", "x_libc.cpp nolibc_shim.c", 0), ("C27", "x_defs.cpp types.c types_nolibc.c types_fallback.c", 0))],
    "C30": C("x_vector.cpp") + C("x_containers.cpp"),
    "C35": C("x_self.cpp", "macros.c"),
    # the sealed closures, and explorations of other properties with operands and arguments in write-protected pages
    "C37": C("x_readonly.cpp") + C("x_search.cpp", args=["--prop", "C07", "--seal"]) + C("x_text.cpp", args=["--prop", "C10", "--seal"]) + C("x_text.cpp", args=["--prop", "C11", "--seal"])
           + C("x_views.cpp", "macros.c", args=["--prop", "C12", "--seal"]) + C("x_format.cpp", args=["--prop", "C14", "--seal"]) + C("x_argparse.cpp", args=["--prop", "C20", "--seal"]),
    "C38": [dict(src=["x_huge.cpp", "nolibc_shim.c"], variant="huge")],
    # q: the number of fills of the quick tier
    "C36": [dict(src=f.split(), variant=v, args=["--prop", p, "--fill", b], **({"tiers": ["thorough"]} if k >= q else {})) for k, (v, b) in enumerate((("locals_zero", "00"), ("locals_pattern", "ff"), ("locals_zero", "01"))) for p, f, q in (
        ("C01", "x_vector.cpp macros.c", 2), ("C30", "x_vector.cpp macros.c", 0), ("C09", "x_string.cpp", 2), ("C35", "x_self.cpp macros.c", 1), ("C16", "x_containers.cpp macros.c", 2), ("C18", "x_containers.cpp macros.c", 2),
        ("C19", "x_containers.cpp macros.c", 2), ("C03", "x_containers.cpp macros.c", 0), ("C05", "x_containers.cpp macros.c", 1), ("C06", "x_containers.cpp macros.c", 0), ("C07", "x_search.cpp", 2), ("C08", "x_args.cpp", 2),
        ("C10", "x_text.cpp", 2), ("C11", "x_text.cpp", 2), ("C13", "x_text.cpp", 2), ("C12", "x_views.cpp macros.c", 2), ("C29", "x_views.cpp macros.c", 1), ("C14", "x_format.cpp", 2), ("C15", "x_format.cpp", 2),
        ("C20", "x_argparse.cpp", 2), ("C21", "x_argparse.cpp", 2), ("C22", "x_libc.cpp nolibc_shim.c", 2))],

}
# objects beyond 2^31 and 2^32 also decide the property that the operation belongs to
for _p, _o in (("C01", "vector es="), ("C07", "vector search"), ("C09", "string n="), ("C10", "search"), ("C11", "comparison"), ("C12", "views|terminated"), ("C13", "case conversion"), ("C16", "bitset bits|bitset in"),
               ("C17", "bitset aggregates"), ("C18", "list of large"), ("C22", "nolibc"), ("C26", "page protection"), ("C29", "duplicate|concatenation|vector copy")):
    STAGES[_p].append(dict(src=["x_huge.cpp", "nolibc_shim.c"], variant="huge", args=["--only", _o]))
RULES = {
    "C01": "every applicable operation with every in-range and just-out-of-range index is applied in every distinct object state until no new state appears; a case is an (object state, operation) pair",
    "C02": "as C01, for vectors and strings; the capacity law is evaluated on every transition; a case is an (object state, operation) pair",
    "C03": "every operation in every distinct state of vectors and lists with a logging destructor, also with failing constructors and allocations",
    "C04": "every operation in every distinct state of containers placed in exact-size poisoned buffers",
    "C05": "every operation in every distinct state, repeated with each of its allocations refused in turn; exploration continues from the state after the failure",
    "C06": "every operation in every distinct state under an allocator that checks each request against the block's history",
    "C07": "every vector over three values up to the length bound x every range x every key; sorted long vectors with one run of duplicates anywhere",
    "C08": "every operation x every combination of ordinary, boundary and wrapping arguments from each start size; every call with a null object",
    "C09": "every editing operation with every position and count in every distinct string state",
    "C10": "every haystack and needle over the alphabet up to the length bound x every range x direction x case mode x bytes behind the ends",
    "C11": "every pair (and triple, for transitivity) of strings over the alphabet up to the length bound x bytes behind the ends; every byte pair",
    "C12": "every string up to the length bound x backing kind x surrounding bytes x every range; every use of the resulting view",
    "C13": "every string over the alphabet x every range x both directions; every byte value",
    "C14": "every value of the dense range and boundary set x padding x case x sign; every free capacity and every allocation failure",
    "C15": "every format of the table x previous length x free capacity x storage kind x failing allocation",
    "C16": "every bit operation in every distinct bitset state from each start size",
    "C17": "as C16 with aggregate and bulk operations after every step",
    "C18": "every list operation on every node (range) in every distinct list state",
    "C19": "every list operation in every distinct state of a list in an exact-size buffer",
    "C20": "every definition table x argument vector x limits in the bounds; a state is a distinct parse outcome, a transition a consumed token",
    "C21": "as C20, each parse repeated with each of its allocations refused (only that one; that one and all later)",
    "C22": "every argument combination over the alphabets and sizes; a state is a distinct (routine, result), a transition a call compared with the C library",
    "C23": "every program of the given numbers of threads and operations x every schedule of memory accesses; a state is a node of the schedule tree",
    "C24": "every thread program over enter, try-enter, leave x every schedule (preemption bound for the largest)",
    "C25": "every thread program over set, get, alloc, free, id x every schedule (preemption bound for the largest)",
    "C26": "every request in every distinct protection state of the pages, probed by real accesses",
    "C27": "every operand (pair) in the stated sets; a state is a distinct (function, result), a transition a compared result",
    "C28": "every program alone in two arenas with all its memory accesses recorded (transitions); conflicting pairs under every schedule; states are distinct result sequences plus schedule nodes",
    "C29": "every source x capacity x storage x failure, then every edit or destruction order",
    "C30": "every operation incl. in-place construction with a failing constructor at every position in every distinct state",
    "C31": "every combination of stream kinds x every call sequence up to the bound",
    "C32": "every operation in every distinct pair of states, one object per build; a state is a pair of object images or a distinct trace",
    "C34": "the rules of the explorations named in the stages, on a 32-bit build of library and explorer",
    "C35": "every self operation with every position and range on every content length x storage mode x allocation outcome; every pair of own elements",
    "C37": "every read operation in every distinct object state, and every operation with a source, with everything that is only read in write-protected pages",
    "C36": "the rules of the explorations named in the stages, each repeated with all unwritten memory and all unwritten local variables holding a given byte",
    "C38": "every one- and two-step history over the listed operations and places on objects of sizes around 2^31 and 2^32; every whole-pass operation once; a case is an execution",
    "C33": "as C32 for the builds -O3 -DNDEBUG of gcc and clang",
}
ASSUMPTIONS = {"*": [
    "the compiler, the sanitizer runtime and the explorer (reference models, enumeration) are trusted",
    "guarantee is for the enumerated bounds stated in DESIGN.md",
]}
_BFS = "explicit-state model checking of the real code: breadth-first closure over all operation histories against a reference model"
_DFS = "stateless model checking of the real code: exhaustive depth-first enumeration of all executions in the bounds against a reference model"
TECH = {
    "C01": _BFS, "C02": _BFS + " (capacity law per transition)", "C03": _BFS + " with destructor log", "C04": _BFS + " in poisoned exact-size buffers",
    "C05": _BFS + " with every allocation failure injected", "C06": _BFS + " with an allocator protocol monitor", "C09": _BFS, "C16": _BFS, "C17": _BFS, "C18": _BFS,
    "C07": _DFS, "C08": _DFS, "C10": _DFS, "C11": _DFS, "C12": _DFS, "C13": _DFS, "C29": _DFS + " with allocation failures injected", "C14": _DFS + " with allocation failures injected", "C15": _DFS + " with allocation failures injected", "C20": _DFS, "C21": _DFS + " with allocation failures injected", "C22": _DFS, "C26": _BFS, "C31": _DFS, "C23": _SCH, "C28": _SCH + "; partial-order reduction over the recorded memory accesses", "C24": _SCH, "C25": _SCH, "C27": _DFS, "C32": "explicit-state model checking of the real code: breadth-first closure and exhaustive enumeration over both builds in lockstep",
    "C34": "explicit-state and stateless model checking of the real code in a 32-bit build: breadth-first closure of all operation histories and exhaustive enumeration of all inputs within bounds",
    "C33": "explicit-state model checking of the real code: breadth-first closure and exhaustive enumeration over the checked and the optimised builds in lockstep",
    "C36": "explicit-state and stateless model checking of the real code: breadth-first closure and exhaustive enumeration, repeated for each content of uninitialized memory",
    "C37": _BFS + " with everything that is only read write-protected",
    "C38": _DFS + ", on sparse memory",
    "C35": _DFS + " with allocation failures injected", "C19": _BFS, "C30": _BFS + " with failing constructors",
}
LEVEL_NOTE = {"*": "Complete within the stated bounds (sizes, values, depth): every execution is run on the real code and compared with a reference model; "
                   "nothing is sampled. Beyond the bounds no claim is made. Trusts the compiler, the sanitizer runtime and the reference model."}
