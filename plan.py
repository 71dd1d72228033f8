"""Which workload programs decide which property, and in which build configurations."""
import os

ALL = [f"{c}{s}-O{o}" for c in "gc" for s, o in (("11", 1), ("14", 2), ("17", 0), ("20", 1), ("23", 3))]
Q3 = ["g11-O1", "c17-O1", "g20-O2"]
Q2 = ["g11-O1", "c20-O1"]
VG = ["g14-vg"]
FREE_FLAGS = ["-DMON_FREESTANDING", "-iquote", os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "freestanding")]
FREE_ALL = ["g11-O1", "c14-O0", "g17-O2", "c20-O1", "g23-O1"]


def free(part, quick):
    """the same workload on the configuration without the standard library"""
    q = dict(part, tag=part.get("tag", "") + "-free", flags=part.get("flags", []) + FREE_FLAGS, quick=quick, thorough=FREE_ALL)
    return q


PLAN = {}


def P(pid, parts, technique, rule, assumptions, note, **kw):
    PLAN[pid] = dict(level="exploration", parts=parts, technique=technique, rule=rule, assumptions=assumptions,
                     level_note=note, **kw)


SAN = "Runs under AddressSanitizer and UndefinedBehaviorSanitizer (g++ and clang++, C++11 to 20), part of it under valgrind. "

C01 = dict(src="c01", quick=Q3 + VG, thorough=ALL + VG, scale=10)
P("C01", [C01, free(C01, ["g17-O1"])],
  technique="ASan/UBSan/valgrind runs of random operation histories with an online list-model monitor after every operation",
  rule="A case is a random history of 5 to 65 public operations over three containers of one type, checked against a list "
       "after every operation; two histories are the same when their operation names and the size/capacity trace agree.",
  assumptions=["element types: int, double, uint8, 5-byte struct, std::string, String, Vector<int>", "moved-from containers are only required to be valid"],
  note=SAN + "Holds on the sampled histories; assumes the list model in harness/seqhist.hpp.")
C02 = dict(src="c02", quick=Q3 + VG, thorough=ALL + VG, scale=10)
P("C02", [C02, free(C02, ["c14-O1"])],
  technique="ASan/UBSan/valgrind runs with a live-object registry monitor hooked into every element construction, assignment, read and destruction",
  rule="As C01, with elements that register every construction, destruction, assignment and read by address; two histories "
       "are the same when their operation names and the size/capacity trace agree.",
  assumptions=["single-threaded use", "moving an element does not throw", "allocators are stateless or equal"],
  note=SAN + "Every element event of the sampled histories is judged online; heap balance through the sanitizer's allocation hooks.")
C03 = dict(src="c03", quick=Q3 + VG, thorough=ALL + VG, scale=10)
P("C03", [C03, free(C03, ["g17-O1"])],
  technique="ASan/UBSan/valgrind runs of histories and an enumeration of wrap positions with window/FIFO model and lifetime monitors",
  rule="A case is a random history of pushes, pops, copies, moves and in-place writes over three buffers of one type and capacity, "
       "or one point of the full enumeration of (wrap offset, fill level, way of copying); two histories are the same when their operation strings agree.",
  assumptions=["popping an empty Vcq is outside the contract (documented as undefined)", "moved-from buffers are only required to be assignable and destructible"],
  note=SAN + "All wrap offsets and fill levels of the listed capacities are visited; two known findings (in-place writes lost at the wrap) are listed.")
C04 = dict(src="c04", quick=["g11-O1", "c17-O1", "g14-vg"], thorough=ALL + VG, scale=2, vg_scale=0.02)
P("C04", [C04, free(C04, ["c14-O1"]),
          dict(src="c04", tag="-big", flags=["-DBIG"], quick=["g11-O0", "c20-O0"], thorough=["g11-O0", "c20-O0", "g23-O1"], cost=5),
          dict(src="c04", tag="-big2", flags=["-DBIG=2"], quick=[], thorough=["g14-O0", "c17-O0"], cost=5)],
  technique="ASan/UBSan/valgrind runs of Enum histories with a (position, value) model and a live-alternative registry monitor, copy faults injected",
  rule="A case is a random history over three Enums of one type list, or one position of one arity in the sweep over arities 2 to 128; "
       "two histories are the same when their operation strings agree.",
  assumptions=["moving an alternative does not throw", "an Enum whose value was moved out holds an unspecified value of the same alternative"],
  note=SAN + "Every position of arities 2 to 128 is visited; wrong accesses are probed at random.")
C05 = dict(src="c05", quick=Q3 + ["g14-plain"], thorough=ALL)
P("C05", [C05, free(C05, ["c14-O0"]),
          dict(src="c05", tag="-big", flags=["-DBIG"], quick=["g11-O0", "c17-O0"], thorough=["g11-O0", "c17-O0", "g20-O1"], cost=5)],
  technique="ASan/UBSan runs with a branch-call trace monitor; the expected branch comes from the same overloads in one class",
  rule="A case is one (arity, position) with all branch forms, one (overload arrangement, alternative), or one history of assignments and matches; "
       "distinct by these coordinates.",
  assumptions=["a wildcard is a branch without parameters and ranks as a generic branch taking any alternative by reference"],
  note="Every position of arities 1 to 128 sampled in steps; overload arrangements are the listed ones.")
C06 = dict(src="c06", quick=Q3 + VG, thorough=ALL + VG, scale=20)
P("C06", [C06, free(C06, ["g17-O1"])],
  technique="ASan/UBSan/valgrind runs evaluating the functor, applicative and monad laws with call-count and lifetime monitors",
  rule="A case is one operand (present or nothing), three function parameters and a triple of value types, under which all laws are evaluated; distinct by these.",
  assumptions=["the functions are pure up to the monitors' counters"],
  note=SAN + "Laws are evaluated on sampled values and functions for ten type triples.")
C07 = [dict(src="c07", tag=f"-s{i}", flags=[f"-DSLICE={i}"], scale=30,
            quick=["g11-O1"] + (["c20-O1"] if i in (0, 1, 5, 6) else []) + (VG if i in (1, 5, 6) else []), thorough=ALL + VG)
       for i in range(7)]
P("C07", C07 + [free(p, ["c14-O1"] if i in (0, 5) else []) for i, p in enumerate(C07)],
  technique="ASan/UBSan/valgrind runs on all sequence kinds with call-trace monitors against list definitions, lifetime registry and heap balance",
  rule="A case is one tuple of concrete sequences of given kinds; distinct by kinds and contents. Each runs every higher-order function that applies.",
  assumptions=["views are read-only, so the _mut forms are not applied to them"],
  note=SAN + "17 kinds of sequence alone, about 70 pairs of kinds, six triples, 15 nestings, two element types each.", same_cases=False)
C08 = [dict(src="c08", tag=f"-s{i}", flags=[f"-DSLICE={i}"], scale=40, quick=["g11-O1", "c20-O0"] + (VG if i == 1 else []), thorough=ALL + VG) for i in range(3)]
P("C08", C08 + [free(p, ["g17-O1"] if i == 0 else []) for i, p in enumerate(C08)],
  technique="ASan/UBSan/valgrind runs on all sequence kinds with an aliasing monitor that compares every element address of every view with the source",
  rule="A case is one concrete source of a given kind, from which views with every count up to three past its length, huge counts, every pair of "
       "slice bounds, static counts and views of views are taken; distinct by kind and contents.",
  assumptions=["counts are not negative", "the _unsafe forms are outside the property"],
  note=SAN + "Source storage is exactly sized, so a view that reads outside its source is also an AddressSanitizer report.", same_cases=False)
P("C09", [dict(src="c09", tag=f"-s{i}", flags=[f"-DSLICE={i}"], scale=25, cost=3 if i in (0, 1) else 1,
               quick=["g11-O0", "c20-O0"] + (["g17-O1"] if i == 2 else []), thorough=[f"{c}{s}-O{o}" for c in "gc" for s, o in (("11", 0), ("14", 0), ("17", 0), ("20", 0), ("23", 0))] + ["g11-O1"]) for i in range(4)],
  technique="allocation-counting monitor on the sanitizer's malloc hook around every call, and a result-shape monitor against the bound computed from the arguments",
  rule="A case is one tuple of concrete sequences of given kinds, or a history of a non-allocating container; distinct by kinds and contents.",
  assumptions=["filter, elem_indices and find_indices of dynamic sources may allocate repeatedly, their length is not known beforehand"],
  note="Heap allocations are counted by the AddressSanitizer runtime, result types and capacities are read from the returned objects.", same_cases=False)
C10 = [dict(src="c10", tag=f"-s{i}", flags=[f"-DSLICE={i}"], scale=30, quick=Q2 + VG, thorough=ALL + VG) for i in range(2)]
P("C10", C10 + [free(p, ["g17-O1"] if i == 0 else []) for i, p in enumerate(C10)],
  technique="ASan/UBSan/valgrind runs with a predicate-call trace monitor (addresses, order, count) against a linear scan",
  rule="A case is one concrete sequence of a given kind searched for present, repeated and absent values and by position; distinct by kind and contents.",
  assumptions=["element equality is an equivalence"],
  note=SAN + "All 17 kinds of sequence, ten element types.", same_cases=False)
C21 = [dict(src="c21", tag=f"-s{i}", flags=[f"-DSLICE={i}"], scale=4,
            quick=["g11-O1"] + (["c20-O1"] if i in (4, 5, 6) else ["c20-O0"] if i == 0 else []) + (VG if i in (0, 5, 6) else []), thorough=ALL + VG,
            thorough_scale=5, vg_scale=0.1) for i in range(7)]
P("C21", C21 + [free(p, ["g17-O1"] if i in (5, 6) else []) for i, p in enumerate(C21)],
  technique="fault injection at every call index of every function under ASan/UBSan/valgrind, with exception identity, lifetime registry, allocator and heap balance monitors",
  rule="A case is one call of one function on one input with the user's function throwing at one call index, one history of refused operations and failing allocations, or one history in which copies and constructions of elements throw; "
       "distinct by function, input, call index and number of calls, or by operations.",
  assumptions=["moving an element does not throw; neither does copying one that has no move, except in a Vector"],
  note=SAN + "Every call index up to the end of the call is visited for each sampled input.")
C22 = [dict(src="c22", tag=f"-s{i}", flags=[f"-DSLICE={i}"], scale=30, quick=["g11-O1", "c20-O0"] + (VG if i == 0 else []), thorough=ALL + VG) for i in range(3)]
P("C22", C22 + [free(p, ["c14-O1"] if i == 0 else []) for i, p in enumerate(C22)],
  technique="ASan/UBSan/valgrind runs with a coherence monitor over all trait and member accessors after every operation, and differential runs of trait-only types against built-in ones",
  rule="A case is one history of operations on a sequence of a given kind, or one list given to 50 functions as a trait-only type and as the built-in type "
       "with the same static bounds; distinct by kind, contents and operations.",
  assumptions=["later states of Vcb and Vcq after an in-place write are decided by C03"],
  note=SAN + "User-defined types have only the trait functions, no members.", same_cases=False)
C11 = dict(src="c11", scale=8, quick=Q3 + VG, thorough=ALL + VG, vg_scale=0.003, thorough_scale=6)
P("C11", [C11, free(C11, ["c14-O1"])],
  technique="ASan/UBSan/valgrind runs with a comparison monitor (arguments are elements, stack depth), permutation/order/stability judge and lifetime registry",
  rule="A case is one vector sorted by one algorithm under one strict weak order: every length to 140, 15 shapes around the run boundaries, random lengths to 700 and "
       "adversarial inputs of 3000 and 20000 elements; distinct by algorithm, shape, length, order and keys.",
  assumptions=["the comparison is a strict weak order", "merge_sort_by is not promised to be stable", "stack use is bounded by 4 KiB per level of a balanced recursion"],
  note=SAN + "Equivalent elements carry their original position, so stability is observed directly.")
C12 = dict(src="c12", scale=15, quick=Q3 + VG, thorough=ALL + VG)
P("C12", [C12, free(C12, ["g17-O1"])],
  technique="ASan/UBSan/valgrind runs of random operation histories with std::basic_string as the online model",
  rule="A case is a random history of 5 to 65 operations over three strings of one character type; distinct by operation string.",
  assumptions=["front and back of an empty string are outside the contract"],
  note=SAN + "Character types char, wchar_t, char16_t, char32_t and char8_t; buffers handed in are exactly sized heap blocks.")
P("C13", [dict(src="c13", scale=5, quick=["g11-O1", "c20-O0"] + VG, thorough=ALL + VG, vg_scale=0.01, cost=3)],
  technique="ASan/UBSan/valgrind runs of generated format strings with three online oracles: an independent reference formatter, the C library, and read-back; standard output captured",
  rule="A case is one group of random replacement fields over 22 argument types, one number under all floating presentations, one whole format string with its damaged "
       "variants, one container, or one captured print; distinct by format string and text produced.",
  assumptions=["the installed libfmt 9.1 is right where the two versions of the format language agree; the differing corners are listed in harness/c13.cpp",
               "classic locale", "precision of a long double in exponent form at most 700"],
  note=SAN + "Format strings and string arguments are exactly sized heap blocks; errors are compared too.")
WRAP14 = ["-Wl,--wrap=fopen,--wrap=fopen64,--wrap=fdopen,--wrap=fclose"]
P("C14", [dict(src="c14", scale=20, quick=Q3 + VG, thorough=ALL + VG, libs=WRAP14, vg_scale=0.05)],
  technique="ASan/UBSan/valgrind runs of File histories with a byte model compared on disk, an interposed open/close monitor, descriptor counts and refusing devices (fault injection)",
  rule="A case is a random history of 5 to 75 operations over four File objects and three paths, or one history on a full device, under a file size limit or at the descriptor "
       "limit; distinct by operation string.",
  assumptions=["reading and writing one update stream are separated by a seek or flush, as the C library requires", "no two Files have the same path open at once"],
  note=SAN + "All files live in a scratch directory of the run.")
P("C15", [dict(src="c15", quick=["g11-O1", "c20-O1", "g17-tsan", "c14-tsan", "g14-plain"], scale=4, tsan_scale=0.5, thorough_scale=5,
               thorough=["g11-O1", "c20-O1", "g20-O2", "c17-O0", "g11-tsan", "g17-tsan", "c14-tsan", "c20-tsan", "g14-plain"], timeout=600)],
  technique="ThreadSanitizer, ASan and plain runs with injected delays, an online wake-up watchdog and an offline linearizability checker over recorded call/return events",
  rule="A case is one round of a few threads on one fresh queue (its history is checked for linearizability), one wake-up round, or one stream of values; "
       "two rounds are the same when the order of all calls and returns agrees.",
  assumptions=["a hang is believed only when a second run of the same workload hangs too"],
  note="Interleavings are those the scheduler and the injected delays produced; ThreadSanitizer judges races independently of timing.", width=3)
P("C16", [dict(src="c16", quick=["g11-O1", "c20-O1", "g17-tsan", "c14-tsan", "g14-plain"], scale=4, tsan_scale=0.5, thorough_scale=5,
               thorough=["g11-O1", "c20-O1", "g20-O2", "c17-O0", "g11-tsan", "g17-tsan", "c14-tsan", "c20-tsan", "g14-plain"], timeout=600)],
  technique="ThreadSanitizer, ASan and plain runs with injected delays and an offline linearizability checker over recorded call/return events",
  rule="A case is one round of a few threads mixing enqueue, dequeue and is_empty on one fresh queue (its history is checked for linearizability), one stream, "
       "one overrun, or one single-threaded history; two rounds are the same when the order of all calls and returns agrees.",
  assumptions=["a hang is believed only when a second run of the same workload hangs too"],
  note="Interleavings are those the scheduler and the injected delays produced; ThreadSanitizer judges races independently of timing.", width=3)
P("C17", [dict(src="c17", quick=["g11-O1", "c20-O1", "g17-tsan", "c14-tsan", "g14-plain"], scale=1.5, tsan_scale=0.4, thorough_scale=6,
               thorough=["g11-O1", "c20-O1", "g20-O2", "c17-O0", "g11-tsan", "g17-tsan", "c14-tsan", "c20-tsan", "g14-plain"], timeout=600)],
  technique="ThreadSanitizer, ASan and plain runs with injected delays and throwing copies, an offline linearizability checker over recorded call/return events and an allocation monitor",
  rule="A case is one round of a few producers with one swapping reader on a fresh buffer (its history is checked against a two-queue specification), one stream, "
       "one overrun, or one single-threaded history; two rounds are the same when the order of all calls and returns agrees.",
  assumptions=["one thread swaps, tests and dequeues, and drains before it swaps", "a hang is believed only when a second run of the same workload hangs too"],
  note="Interleavings are those the scheduler and the injected delays produced; ThreadSanitizer judges races independently of timing.", width=3)
P("C18", [dict(src="c18", tag=f"-s{i}", flags=[f"-DSLICE={i}"], scale=20, quick=["g11-O1", "c20-O1"] + (["g17-O2"] if i == 1 else []), thorough=ALL) for i in range(3)],
  technique="ASan/UBSan runs with a value monitor: every result is compared with its definition evaluated in quadruple precision, within a running rounding-error bound",
  rule="A case is one sequence (or pair) of a given kind, element type and result type, under which all functions that apply are evaluated; distinct by types and contents.",
  assumptions=["finite elements", "pairs have equal lengths", "sums of integer elements and of their squares fit the element type", "lags from 0 to the length"],
  note="15 kinds of sequence, seven element types, three result types, twelve input profiles. The error bound is that of any direct evaluation with linear error growth.", same_cases=False)
C19 = dict(src="c19", scale=20, quick=Q3 + VG, thorough=ALL + VG, thorough_scale=10)
P("C19", [C19, free(C19, ["g17-O1"])],
  technique="ASan/UBSan/valgrind runs with a component model, address-identity and call-trace monitors and a live-component registry",
  rule="A case is one tuple type with random component values, put through construction, projection, writes, copies, moves, assignment, match and comparison with tuples that "
       "differ in one component; distinct by type and values.",
  assumptions=["components are copied in; a moved-from component is only required to be valid"],
  note=SAN + "30 component lists of arity 0 to 16, with repeated, empty, owning, over-aligned and function components.")
C20 = dict(src="c20", scale=20, quick=Q3 + VG, thorough=ALL + VG, vg_scale=0.2, thorough_scale=10)
P("C20", [C20, free(C20, ["c14-O1"])],
  technique="ASan (use after scope)/UBSan/valgrind runs with call-trace, argument-category and lifetime monitors; results compared with the plain C++ expressions",
  rule="A case is one composition chain with random parameters whose component functions have been destroyed, one set of closures converted to function pointers, one block of "
       "operator evaluations on a type, or one pair of constants; distinct by kind and values.",
  assumptions=["func_ptr: one live closure per closure type", "arithmetic that C++ leaves undefined is not evaluated"],
  note=SAN + "16 chains of length 1 to 8 over eight callable kinds, twelve arithmetic types including their extreme values.")
