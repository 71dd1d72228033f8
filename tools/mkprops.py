#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))
I = "include/efp/"

prop("C01", "Vector, ArrVec and Array behave as lists under every history of operations",
 "After any sequence of constructions, copies, moves, conversions, assignments, push_back, emplace_back, insert, erase, pop_back, resize, reserve, shrink_to_fit, clear and indexed writes (arguments may be elements of the container itself), a Vector, ArrVec or Array has exactly the size and the elements, in order, that a plain list would have; copies are independent of their source, equality holds exactly when sizes and all elements agree, and begin/end/data/indexing all show the same elements. An operation that would break a bound (pop of an empty container, insert or erase out of range, more elements than the static capacity, wrong static size) throws and leaves the contents unchanged, and so does a length no memory can hold. Capacity is never below size and never above a static capacity.",
 ["histories", "inputs", "programs"], "every finite history of public operations over one or several containers, every element type and every static capacity",
 "The tests run a dozen short scripted histories with int elements; growth, reallocation, copy over a smaller or larger target, insertion in the middle and aliasing arguments combine in unboundedly many ways.",
 [I+"sequence.hpp"],
 [("element-wise construct/destroy with explicit size and capacity", I+"sequence.hpp Array, ArrVec, VectorBase"), ("geometric growth through reserve", I+"sequence.hpp VectorBase::reserve")],
 ["size()", "capacity()", "operator[]", "begin()/end()/data()", "operator==", "exceptions"],
 [("size, capacity, data", "live prefix of the storage", I+"sequence.hpp")])

prop("C02", "Containers construct, destroy and own every element exactly once",
 "Through any history of operations on Vector, ArrVec and Array, every element object is constructed before it is read, assigned or destroyed, is never constructed over a live element, and is destroyed exactly once; when the containers are gone no element and no heap block is left and none was freed twice; a block taken from a user's allocator goes back to it once, with the length it was asked for. Storage is sufficiently aligned for the element type and no access leaves it. This holds for the standard allocator, the library's own and a user's.",
 ["histories", "inputs", "programs"], "every finite history of public operations, with element types that own resources, are move-only, copy-only, over-aligned or address-sensitive",
 "The test suite uses almost only trivially copyable elements, for which constructing over a live object, skipping a destructor or reading an unconstructed one has no visible effect.",
 [I+"sequence.hpp", I+"meta.hpp"],
 [("placement new / explicit destructor calls paired by size", I+"sequence.hpp"), ("raw aligned storage", I+"meta.hpp RawStorage")],
 ["constructor, destructor and assignment events of instrumented elements", "heap allocator events", "sanitizer reports"])

prop("C03", "Vcb is a sliding window and Vcq a bounded FIFO, both contiguous",
 "A Vcb always shows exactly the last n pushed values (default values before that), oldest first; a Vcq shows exactly the pushed and not yet popped values in FIFO order and, when full, a push drops the oldest; at every point the elements are contiguous in memory, so data, begin/end and indexing agree, and a value written in place stays until it leaves. Copies and moves, from any position of the internal wrap-around, reproduce the contents and are independent of the source, and every stored element is destroyed exactly once.",
 ["histories", "inputs"], "every history of push, pop, copy, move, assignment (also to itself) at every wrap-around offset, for every capacity and element type",
 "Tests push a handful of doubles into one capacity and never copy or move a wrapped buffer or use elements with a lifetime.",
 [I+"cyclic.hpp"],
 [("mirrored double-length buffer", I+"cyclic.hpp Vcb::push_back, Vcq::push_back, Vcq::pop_front"), ("wrap-around arithmetic on copy and move", I+"cyclic.hpp Vcq copy and move")],
 ["operator[]", "data()", "begin()/end()", "size()", "pop_front()", "element lifetime events"])

prop("C04", "Enum holds exactly the alternative last stored, and nothing else",
 "An Enum always holds exactly one alternative: index, get by type, get by position, move-out, equality and copies agree on which one and on its value, after any history of construction, assignment, copy, move and self-assignment over any alternatives. Asking for an alternative that is not held throws and changes nothing. Each stored alternative is constructed and destroyed exactly once and at a suitably aligned address, also when a copy of an alternative throws (moving one does not).",
 ["histories", "inputs", "programs"], "every set of alternatives (mixed sizes, alignments, ownership), every history of operations",
 "Tests store a few scalar alternatives in scripted order; destruction of the wrong alternative or a stale index only shows with owning types and particular transitions between alternatives.",
 [I+"enum.hpp"],
 [("runtime index plus tagged dispatch of copy, move, destroy, compare", I+"enum.hpp EnumBase, EnumSwitch")],
 ["index()", "get<>()", "move<>()", "operator==", "element lifetime events", "exceptions"],
 [("_index", "tag of the live alternative", I+"enum.hpp EnumBase")])

prop("C05", "match runs exactly one branch, chosen by overload resolution",
 "Matching an Enum invokes exactly one branch exactly once, with the value currently held, and returns that branch's result: the branch is the one C++ overload resolution would choose among the branches for the held alternative's type, and the wildcard, which accepts anything as it is, is used exactly for the alternatives for which no other branch matches without a conversion. This holds for every number of alternatives the type accepts and for every alternative position.",
 ["inputs", "programs"], "every Enum arity up to the compilable maximum, every held alternative, every arrangement of branches and wildcard",
 "The dispatch is a template-generated switch whose cases depend on arity and position; tests instantiate a few arities and match a few positions.",
 [I+"enum.hpp"],
 [("switch over padded power-of-two case tables", I+"enum.hpp EnumSwitch"), ("overload set built from branches, wildcard wrapper", I+"enum.hpp Overloaded, WildCardWrapper")],
 ["calls received by every branch", "returned value"])

prop("C06", "Maybe obeys the functor, applicative and monad laws",
 "fmap, ap, pure and bind (member and free forms) apply the function exactly once to a present value and never to nothing, obey the functor, applicative and monad laws, and leave the operand unchanged. has_value, is_nothing, the bool conversion, value, move, match and equality agree; taking the value of nothing throws.",
 ["inputs", "programs"], "every payload type and value, every function, every chain of operations",
 "Tests check one int example per operation; the laws quantify over all values, functions and payload types with ownership.",
 [I+"maybe.hpp", I+"enum.hpp"],
 [("Maybe as two-alternative Enum", I+"maybe.hpp")],
 ["returned Maybe", "number of calls of the function", "payload lifetime events", "exceptions"])

prop("C07", "Higher-order functions equal their list definitions on every sequence type",
 "map, map_with_index, cartesian_map, filter, foldl, foldr, for_each and its _mut, _with_index and cartesian forms, for_index, cartesian_for_index, from_function, append, concat and intercalate produce exactly the list their Haskell namesakes would, for every combination of sequence types, lengths (also empty and unequal: the shortest wins) and element types. The function is called exactly once per element (tuple) in ascending order (descending for foldr), the _mut forms modify exactly the visited elements in place, and the inputs are otherwise unchanged.",
 ["inputs", "programs", "configurations"], "every sequence type (Array, ArrVec, Vector, views, Vcb, Vcq, std::array, std::vector, std::string, user-defined), every length and element type, every supported language standard",
 "Result types and loops depend on template combinations of static/dynamic sizes, and some branches are compiled only for some standards; the tests use three int containers of length 3 to 5.",
 [I+"prelude.hpp", I+"trait.hpp", I+"sequence.hpp"],
 [("minimum-length loops over nth/length", I+"prelude.hpp"), ("type-level result selection", I+"prelude.hpp NAryReturn, AppendReturn, ConcatReturn, IntercalateReturn")],
 ["returned sequence", "call log of the function argument", "input sequences afterwards"])

prop("C08", "Views alias their source, stay inside it and partition it",
 "take, drop, slice, tail, init, take_while and drop_while return views whose elements are the very objects of the source (same addresses) at the positions the list definition gives, for every count and every sequence type: any count is clamped to the source, take n and drop n partition it, and slice s e equals drop s of take e. A view never refers to memory outside its source, its reported size and compile-time size agree, the source is not modified, and head, last, tail and init of an empty sequence throw.",
 ["inputs", "programs"], "every sequence type, every length, every runtime or compile-time count including zero and far too large ones",
 "Tests take and drop one or two constants from 3-element sequences; out-of-range combinations are unbounded and a wrong view reads neighbouring memory without failing.",
 [I+"prelude.hpp", I+"sequence.hpp"],
 [("clamping of counts", I+"prelude.hpp take, drop, slice"), ("non-owning view types", I+"sequence.hpp ArrayView, ArrVecView, VectorView")],
 ["addresses and values of view elements", "size()", "exceptions", "sanitizer reports"])

prop("C09", "Results are allocated on the heap only when their capacity is dynamic",
 "Functions that build a sequence return an Array when the length is known from the argument types, an ArrVec when only the capacity is, and a Vector otherwise, with a static capacity large enough for every possible result; views and operations on Array, ArrVec, Vcb, Vcq, Enum, Maybe and Tuple of trivial elements perform no heap allocation, and a Vector result is allocated at most once when its length is known beforehand. The capacity of the returned type is exactly the bound implied by the argument types.",
 ["programs", "inputs"], "every combination of static-size, static-capacity and dynamic arguments",
 "The result type is a type-level computation over all argument combinations; tests check a few and never observe the allocator.",
 [I+"prelude.hpp", I+"sequence.hpp"],
 [("type-level result selection", I+"prelude.hpp NAryReturn, FilterReturn, AppendReturn, ConcatReturn, TakeReturn, DropReturn"), ("in-object storage", I+"meta.hpp RawStorage")],
 ["static type of results observed at run time", "allocation count of the global allocator"])

prop("C10", "Searches report exactly the matching positions",
 "elem, elem_index, elem_indices, find, find_index and find_indices answer exactly as a linear scan would: membership, the first matching index or nothing, and all matching indices in ascending order, for every sequence type, length and predicate. The predicate is called in order at most once per element and not after the first match for the forms that stop there, and the sequence is unchanged.",
 ["inputs", "programs"], "every sequence, sought value or predicate, including empty sequences, no match and matches at both ends",
 "Tests search a 3-element sequence for one value.",
 [I+"prelude.hpp"],
 [("linear scan with early exit", I+"prelude.hpp elem*, find*")],
 ["returned value", "call log of the predicate"])

prop("C11", "Sorting yields a sorted permutation, stable where promised, at every size",
 "Every sort function (sort, sort_by, sort_unstable and the named algorithms) leaves the vector a permutation of its input that is ordered by the comparison, for every length, content and strict weak order; sort, sort_by, timsort and insertion sort keep equivalent elements in their original order. The comparison is only ever applied to live elements of the vector, no element is lost, duplicated or leaked, and the stack depth stays logarithmic so that large and adversarial inputs finish without overflow.",
 ["inputs", "programs"], "every vector length (in particular around and beyond the run size) and permutation, every strict weak order, every movable element type",
 "Tests sort one or two vectors of about ten ints, below the run length at which merging starts.",
 [I+"sort.hpp"],
 [("insertion runs and merges", I+"sort.hpp timsort_by, timsort_merge"), ("partition and recursion", I+"sort.hpp partition_by, quicksort_by"), ("heapify", I+"sort.hpp max_heapify_by")],
 ["resulting vector", "arguments of the comparison", "element lifetime events", "stack depth during comparison calls"])

prop("C12", "String behaves as std::string, terminator and embedded nulls included",
 "Through any history of construction, assignment, append, insert, erase, push, pop, resize, substr, copy, compare, concatenation and conversion (the text handed in may be the string's own), a String has exactly the characters std::string would have; c_str always returns those characters followed by a null character inside memory the string owns, and does not change the contents. StringView shows the characters it was made from and compares by content, out-of-range positions and impossible lengths throw and change nothing; this holds for every character type.",
 ["histories", "inputs"], "every history of operations, every content including empty strings and embedded nulls, every character type",
 "Tests make a few literals; terminator slots, growth to exact capacity and empty strings without storage only combine in longer histories.",
 [I+"string.hpp", I+"sequence.hpp"],
 [("one extra slot reserved for the terminator", I+"string.hpp, "+I+"sequence.hpp VectorBase::resize, shrink_to_fit"), ("length-aware traits operations", I+"string.hpp")],
 ["characters and size", "c_str() bytes", "comparison results", "exceptions", "sanitizer reports"])

prop("C13", "Formatting yields exactly the specified text or throws, never corrupts memory",
 "format produces exactly the text the fmt format language defines for the given format string and arguments: for integers, floating point numbers, characters, booleans, pointers and strings under every combination of fill, alignment, sign, alternate form, width, precision and type, with positional and dynamic width and precision arguments, and containers are rendered as their elements in order, comma separated, in brackets; floating point output without precision reads back as the same number. A malformed format string or a mismatched or missing argument raises a format error when the string is checked at run time, and print and println write the same text to standard output.",
 ["inputs"], "every format string and every argument value",
 "The format language times the value range of the arguments is unbounded; tests format three or four constants.",
 [I+"format.hpp", I+"fmt/core.h", I+"fmt/format.h", I+"fmt/format-inl.h"],
 [("vendored fmt writing into the library's own String", I+"fmt/"), ("container formatters", I+"format.hpp")],
 ["returned String", "bytes on standard output", "exceptions", "sanitizer reports"])

prop("C14", "Files round-trip bytes, report failure and close exactly once",
 "Whatever is written through a File in any mixture of forms and chunk sizes is read back identically (text lines split exactly at newlines, all other bytes preserved), with write, append, read and update modes, seek and tell acting as the underlying stream's; open of what cannot be opened is nothing. Every operation on a closed or moved-from File fails without effect, a write, flush or close the system refuses is reported, and each opened stream is closed exactly once however the File is moved, reassigned, closed or dropped.",
 ["histories", "inputs", "fault_sequences"], "every history of open, write, read, seek, move, assign, close over every content and mode, and every failing system operation",
 "Tests write and read one three-line file; ownership transfer, closed-file use, embedded nulls and device errors are not exercised.",
 [I+"io.hpp"],
 [("unique ownership of the stream", I+"io.hpp File move operations, destructor, close"), ("mode-dependent writing", I+"io.hpp File::write")],
 ["file contents on disk", "returned lines and flags", "open descriptors of the process", "intercepted stream close calls"])

prop("C15", "BlockingQ is a linearizable FIFO that never loses a wake-up",
 "For any number of concurrent producers and consumers, an unbounded BlockingQ behaves as one sequential FIFO queue: every enqueued value is dequeued exactly once, each consumer sees each producer's values in the order enqueued, and the whole history is linearizable; dequeue blocks only while the queue is empty, so every consumer waiting returns once enough values have been enqueued. A bounded BlockingQ behaves the same except that a value enqueued when full replaces the oldest one. No execution has a data race.",
 ["schedules", "histories"], "every interleaving of any number of producers and consumers, every capacity",
 "Tests start one producer and one consumer at most; interleavings are chosen by the scheduler and lost wake-ups or races need particular ones.",
 [I+"concurrency.hpp", I+"cyclic.hpp"],
 [("mutex around the queue, condition variable with re-check", I+"concurrency.hpp BlockingQ")],
 ["call/return events of enqueue and dequeue", "race detector reports", "blocked threads"])

prop("C16", "NonBlockingQ is a linearizable FIFO with an exact empty answer",
 "For any number of concurrent threads, NonBlockingQ operations are linearizable to a sequential FIFO queue in which dequeue returns the oldest value or, exactly when the queue is empty at that point, nothing, and is_empty tells whether the queue is empty at that point; no value is lost, duplicated, reordered or invented. A bounded NonBlockingQ drops exactly the oldest value when one is enqueued at capacity. No operation blocks on an empty queue and no execution has a data race.",
 ["schedules", "histories"], "every interleaving of any number of threads, every capacity",
 "Tests call it from one thread or one pair of threads; linearizability and race freedom quantify over interleavings.",
 [I+"concurrency.hpp", I+"cyclic.hpp"],
 [("mutex around every access", I+"concurrency.hpp NonBlockingQ")],
 ["call/return events", "race detector reports"])

prop("C17", "DoubleBuffer hands every value from writers to the reader once, in order",
 "With any number of threads enqueueing and one thread swapping, testing and draining the read side before each swap, every value that was enqueued is dequeued at most once, in enqueue order per producer, and exactly once if never more than the capacity is enqueued between two swaps (otherwise exactly the newest values up to the capacity survive); values become visible only by a swap. No execution has a data race or deadlock, also when copying a value throws.",
 ["schedules", "histories"], "every interleaving of producers with the swapping reader, every capacity",
 "Tests run it single-threaded.",
 [I+"concurrency.hpp", I+"cyclic.hpp"],
 [("spinlock around write-side push and pointer swap", I+"concurrency.hpp DoubleBuffer")],
 ["dequeued values per swap", "race detector reports", "allocator events"])

prop("C18", "Numeric and statistical functions equal their mathematical definitions",
 "sum, product, max_elem, min_elem, max_min, mean, rms, sse, mse, rmse, nrmse_mean, nrmse_max_min, variance, standard_deviation, covariance, correlation, autocovariance, autocorrelation, remove_dc, linear_regression, linear_regression_with_index, detrend, square, abs and is_approx return their textbook value up to floating point rounding, for every sequence type and every input on which the definition and the intermediate values are representable, with and without Bessel correction and adjustment. Algebraic consequences hold: variance is the covariance with itself and non-negative, a detrended or mean-removed sequence has zero mean, the residual of an exact line is zero.",
 ["inputs", "programs"], "every input sequence of signed or floating elements, every length at which the definition makes sense",
 "Tests evaluate each function on one 3 to 5 element sample.",
 [I+"numeric.hpp", I+"scientific.hpp"],
 [("folds and maps over sequences", I+"numeric.hpp, "+I+"scientific.hpp")],
 ["returned numbers"])

prop("C19", "Tuple stores, projects, compares and matches its components faithfully",
 "A Tuple (or Pair) holds exactly the values it was built from: get, p, fst and snd return component i by reference (writes through it change that component only), match passes all components in order to the function exactly once, copies and moves are independent, and equality holds exactly when all components are equal. Component lifetimes are exact: each is constructed and destroyed once.",
 ["inputs", "programs"], "every arity and component types, including repeated, owning, empty and function types",
 "Tests build one or two small tuples of scalars.",
 [I+"meta.hpp"],
 [("one base-class leaf per index", I+"meta.hpp TupleLeaf, TupleImpl, Tuple"), ("recursive comparison", I+"meta.hpp TupleLeafComparatorImpl")],
 ["returned references and values", "call log of the matched function", "component lifetime events"])

prop("C20", "compose, func_ptr and the primitive combinators mean what they say",
 "compose(f, g, ...) called with arguments equals f(g(...)), evaluating each function exactly once per call, innermost first, and stays valid after the composed functions' original objects are gone; func_ptr of a live closure is a plain function pointer with the behaviour and state of the closure of that type converted last. id, min, max, clamp, swap, the op_ functions and compile-time arithmetic on lengths return what the corresponding C++ expressions do, and the type functions about calls (Arguments, InvokeResult, IsInvocable, ...) say what C++ does with the call.",
 ["inputs", "programs"], "every chain length, callable kind (including noexcept, move-only arguments and owning function objects), argument category and value",
 "Tests compose two or three named lambdas and never let the components go out of scope.",
 [I+"prelude.hpp", I+"c_utility.hpp", I+"meta.hpp"],
 [("nested function objects", I+"prelude.hpp Composed"), ("static slot per closure type", I+"c_utility.hpp LambdaPointer"), ("operator functions", I+"meta.hpp")],
 ["returned values", "call log", "sanitizer reports (stack use after scope)"])

prop("C21", "An exception from user code leaves no leak and no broken object",
 "When a function, predicate or comparison passed to any higher-order, search or sort function, or to Enum/Maybe/Tuple match, fmap and bind, throws, the exception reaches the caller unchanged, nothing leaks, every element constructed so far is destroyed exactly once, and the input sequences remain valid (unchanged, or for in-place functions holding live elements). Operations of the containers and of String that throw on a bound violation, or because an allocation failed, likewise leave every object usable and unchanged. When the copy or the construction of an element throws inside a container, Tuple, Maybe or Enum, nothing leaks, every object stays valid, the source of a copy is unchanged, and only a copy assignment, a resize, or an insert or erase of elements that have no move may have done part of its work; moving an element does not throw.",
 ["fault_sequences", "inputs", "programs"], "every call index at which the user function throws or an allocation fails, every function and sequence type",
 "Tests never throw from a callback; each call index of each function is a separate unwinding path.",
 [I+"prelude.hpp", I+"sequence.hpp", I+"sort.hpp", I+"enum.hpp", I+"maybe.hpp"],
 [("results owned by local objects during construction", I+"prelude.hpp")],
 ["exception identity", "element lifetime events", "heap allocator events"])

prop("C22", "Every sequence type presents one coherent Sequence interface",
 "For every type with the Sequence trait - Array, ArrVec, Vector, String, the views, Vcb, Vcq, std::array, std::vector, std::string and user-defined ones - length, nth, data, begin/end, size and emptiness agree in every reachable state: nth(i) is the object at data + i, length equals size and any compile-time size, is at most any compile-time capacity, and mutable access writes the object that const access reads. Views are equal exactly when they show the same range; making one of null or longer than its capacity throws. A type implementing only the trait functions works with every higher-order function exactly like a built-in one.",
 ["programs", "histories"], "every sequence type, element type and state reached by its operations",
 "Each pairing of trait function and type is a separate overload; the tests exercise a few and only in freshly built states.",
 [I+"trait.hpp", I+"sequence.hpp", I+"cyclic.hpp", I+"string.hpp"],
 [("trait specialisations and overloads per type", I+"sequence.hpp, "+I+"cyclic.hpp, "+I+"string.hpp")],
 ["addresses and values through each access path"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
