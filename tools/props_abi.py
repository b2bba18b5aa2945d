"""Properties of the canonical ABI (abi/...)."""


def P(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, observe=observe, technique=technique, note=note, state=list(state))


PROPS = [
    P("A01", "Values survive a trip through linear memory",
      "Storing any well-typed component value into linear memory and loading it back with the same type and string encoding yields an equal value, however values are nested and wherever the guest allocator places them. "
      "The only change allowed is that a floating point NaN comes back as a NaN. "
      "Other values stored before, between or after it, growth of memory and overwriting of unrelated memory do not affect it.",
      ["inputs", "configurations"], "every type built from the component value types, every value of it, every string encoding, every placement by the allocator",
      "roundtrip_test.go covers about 30 hand-written type/value pairs on a fresh heap; the combinations of nesting, padding, case counts and flag counts are unbounded",
      ["abi/io/store.go", "abi/io/load.go", "abi/io/size.go", "abi/io/alignment.go", "abi/io/despecialize.go"],
      [("Store and its per-type helpers", "abi/io/store.go"), ("Load and its per-type helpers", "abi/io/load.go")],
      ["return values of store and load", "bytes of linear memory"],
      "runtime monitoring: round-trip oracle over generated types, values and allocator histories, with deep-copied host values compared after each load",
      "generated types to depth 4, several values per case kept live together, moving and growing heap"),
    P("A02", "The memory image is exactly the canonical ABI's",
      "The bytes that storing a value leaves in guest memory are the canonical ABI encoding of that value: little-endian numbers, canonical NaNs, alignment and padding positions, discriminants, flag bits, pointer/length pairs and tagged string lengths. "
      "Every encoding the ABI permits a guest to produce (non-zero booleans, set bits in unused flag positions, any NaN payload, either form of a dual-encoded string) loads as the value it denotes. "
      "This holds independently of what the library itself wrote earlier, so a component produced by another toolchain reads and writes the same data.",
      ["inputs", "configurations"], "every type, value, encoding and permitted guest encoding of the value",
      "the existing tests mostly check that store and load agree with each other, so an error made symmetrically in both is invisible to them",
      ["abi/io/store.go", "abi/io/load.go", "abi/io/canonicalize.go", "abi/io/size.go", "abi/io/alignment.go"],
      [("little-endian integer stores", "abi/io/store.go"), ("NaN canonicalization", "abi/io/canonicalize.go"), ("variant and flags layout", "abi/io/store.go, abi/io/load.go")],
      ["bytes of linear memory", "loaded values"],
      "runtime monitoring: an independent canonical-ABI reader inspects the memory the library wrote, and an independent writer prepares memory the library reads",
      "independent model in harness/cabi; strict reading of everything written, liberal writing of everything read"),
    P("A03", "Layout and flattening agree with the canonical ABI",
      "For every component type the computed size, alignment and list of core values, and for every function type and flattening limit the computed core signature in both directions, equal the values the canonical ABI defines. "
      "In particular the discriminant of a variant with n cases takes one byte up to 256 cases, two up to 65536 and four beyond, flags take 1, 2, 4, 8, ... bytes by label count, the core types of variant cases are joined, and parameters or results beyond the limit are passed through one pointer.",
      ["inputs"], "every component type, function type and pair of flattening limits",
      "flatten_test.go checks a handful of types; the boundaries (8/9, 16/17, 32/33, 256/257, 65536/65537, 16/17 flat values) and their combinations inside nested types are not reached",
      ["abi/io/size.go", "abi/io/alignment.go", "abi/io/flatten.go", "abi/io/despecialize.go", "abi/io/math.go"],
      [("Size", "abi/io/size.go"), ("Alignment", "abi/io/alignment.go"), ("FlattenType, FlattenFuncTypeLower, FlattenFuncTypeLift", "abi/io/flatten.go")],
      ["computed sizes, alignments and signatures"],
      "runtime monitoring: observed layout of generated types compared online with an independent computation of the ABI rules",
      "dense sampling around every boundary of the layout rules"),
    P("A04", "Only memory that was handed over is written",
      "Storing or lowering a value writes only to the destination it was given and to memory obtained from the guest allocator during that operation; every other byte of linear memory keeps its value, whether the operation succeeds or fails. "
      "Loading or lifting writes nothing at all. "
      "Nothing is ever written or read beyond the end of linear memory, and values returned to the host do not share memory with the guest.",
      ["inputs", "fault_sequences"], "every type and value, every memory content, every placement including the last bytes of memory, successful and failing operations",
      "tests look at the value that comes back and never at the bytes around it",
      ["abi/io/store.go", "abi/io/load.go", "abi/io/lower.go", "abi/io/lift.go"],
      [("bounds checks before each access", "abi/io/store.go, abi/io/load.go")],
      ["all bytes of linear memory before and after", "the canary region behind it"],
      "runtime monitoring: shadow-memory monitor comparing all of linear memory and a canary after each operation",
      "shadow copy of all guest memory, allocation grants recorded by the instrumented allocator"),
    P("A05", "Hostile guest memory never crashes or fools the host",
      "Loading or lifting a value of any type from arbitrary memory contents and arbitrary core values never panics: it returns the value the canonical ABI assigns to those bytes, or an error. "
      "It returns an error exactly when the ABI traps: a pointer that is misaligned or whose range leaves memory (also when the range wraps around 32 bits), an invalid discriminant, a code point that is not a scalar value, malformed text in the declared encoding, or an invalid handle.",
      ["inputs"], "every type, every memory image, every pointer, length, discriminant, code point and handle index, including values near 2^31 and 2^32",
      "tests feed a dozen malformed inputs; hostile pointers and lengths interact with element sizes and alignments of every type",
      ["abi/io/load.go", "abi/io/lift.go", "abi/types/trap.go", "abi/values/coerce_value_iterator.go"],
      [("range and alignment checks", "abi/io/load.go"), ("traps on malformed content", "abi/io/load.go, abi/io/lift.go")],
      ["error or value of every load and lift"],
      "runtime monitoring: differential monitor against an independent ABI reader over corrupted and random guest images, panics captured",
      "structured corruption of valid images, random images, pointers at the end of memory and address space"),
    P("A06", "A faulty guest allocator is contained",
      "When the guest allocator fails, or answers with a pointer that is misaligned or does not leave room for the requested size inside memory, at any call made while a value is stored or lowered, the operation returns an error instead of panicking or reporting success. "
      "An error raised by the allocator itself reaches the caller as that error. "
      "In all these cases nothing outside the destination and properly granted memory is written.",
      ["fault_sequences", "inputs"], "every type and value that allocates, every allocator call in the operation, every kind of bad answer",
      "tests always use a working allocator",
      ["abi/io/store.go", "abi/io/lower.go", "abi/types/canonical_options.go"],
      [("checks on the returned pointer", "abi/io/store.go"), ("error propagation from the allocator", "abi/io/store.go, abi/io/lower.go")],
      ["allocator calls", "returned errors", "all bytes of linear memory"],
      "runtime monitoring with fault injection: the instrumented allocator misbehaves at each call of an operation while a shadow-memory monitor watches",
      "each allocator call of an operation is a fault point, six kinds of fault"),
    P("A07", "Values survive a trip through core values",
      "Lowering any well-typed value to core values yields exactly the core values the canonical ABI defines for it, and lifting them back, or lifting any core values a guest may legally produce for it, yields an equal value. "
      "Lifting consumes exactly the core values of its type, so a sequence of values lifted one after another from one sequence of core values comes back intact. "
      "Bits the ABI tells the host to ignore do not change the result.",
      ["inputs", "configurations"], "every type and value, every joined variant representation, every sequence of values",
      "pair tests cover scalars and a few variants; joined core types (integers carried as wider integers or floats reinterpreted as integers) appear only in combinations of cases",
      ["abi/io/lift.go", "abi/io/lower.go", "abi/values/coerce_value_iterator.go", "abi/io/flatten.go"],
      [("LowerFlat", "abi/io/lower.go"), ("LiftFlat", "abi/io/lift.go"), ("coercing iterator for variants", "abi/values/coerce_value_iterator.go")],
      ["core values and iterator positions", "lifted values"],
      "runtime monitoring: core values compared online with an independent flattening model in both directions",
      "independent flattening of values, noise in ignored bits"),
    P("A08", "Host values of the wrong shape are rejected",
      "Storing or lowering a host value that is not a value of the declared type — wrong dynamic type, number out of range for the declared width or of the wrong signedness, missing field, tuple element or flag, flag that is not a boolean, no case, more than one case or an unknown case of a variant, code point outside the scalar values, or more or fewer values than types — returns an error. "
      "It does not panic, does not silently convert, and writes nothing outside its destination, no matter how deep in the value the mismatch is.",
      ["inputs"], "every type, every position in a value of it, every kind of mismatch",
      "tests only pass matching host values",
      ["abi/io/store.go", "abi/io/lower.go", "abi/types/cast.go"],
      [("type assertions with error returns", "abi/io/store.go, abi/io/lower.go")],
      ["returned errors", "bytes of linear memory"],
      "runtime monitoring: mutation workload over host values with an error oracle and shadow memory",
      "one node replaced at a time, every node kind and replacement kind required in the evidence"),
    P("A09", "Strings are transcoded without loss between encodings",
      "A string passed from the host or a guest with any of the supported string encodings to a guest with any other arrives with the same sequence of code points, in that guest's encoding, properly aligned, with a length in that encoding's units and with the dual-encoding tag set exactly when the text does not fit in one byte per character. "
      "Guest memory never receives malformed text: bytes of a host string that are not valid text are either replaced by U+FFFD one by one or the operation is refused.",
      ["inputs", "configurations"], "every string of code points of every length, every pair of encodings",
      "string_test.go tries 16 strings",
      ["abi/io/store.go", "abi/io/load.go", "abi/io/code_units.go", "encoding/codec.go"],
      [("string store and load per encoding", "abi/io/store.go, abi/io/load.go"), ("codecs", "encoding/")],
      ["bytes, pointer and length of strings in both memories"],
      "runtime monitoring: both guest memories inspected by an independent decoder after every transfer",
      "all encoding pairs, all character classes, lengths around buffer sizes"),
    P("A10", "Calls between components deliver arguments and results intact",
      "For every function signature, a call through lifted and lowered functions between a host and a guest or between two guests with separate memories and string encodings delivers to the callee exactly the arguments the caller passed, in order, and to the caller exactly the results, whether they travel as core values or spilled to memory. "
      "The callee's clean-up function runs exactly once, after the results have been copied out; an error raised by the callee reaches the caller and no results are delivered.",
      ["programs", "inputs", "configurations"], "every signature around and beyond the flattening limits, all topologies, all values",
      "io_test.go lifts and lowers three fixed signatures",
      ["abi/io/canon_lift.go", "abi/io/canon_lower.go", "abi/io/lift.go", "abi/io/lower.go"],
      [("CanonLift and CanonLower", "abi/io/canon_lift.go, abi/io/canon_lower.go"), ("LiftValues and LowerValues", "abi/io/lift.go, abi/io/lower.go")],
      ["arguments seen by callee", "results seen by caller", "order of clean-up and memory reads"],
      "runtime monitoring: instrumented guests on both sides record a call trace that is checked for delivery, order and exactly-once clean-up",
      "independent guests decode arguments and encode results without the library"),
    P("A11", "Handle tables behave like a map with unforgeable indices",
      "Over any history of creating, reading, dropping and transferring handles, an index returned for a live handle is distinct from all other live indices of that table, keeps denoting the same resource until it is dropped or transferred, and is an error afterwards until it is reissued. "
      "Indices that are not live in the table of the given resource type and instance always produce an error and change nothing, and freed indices are used again before new ones. "
      "The destructor of a resource runs exactly once, with the right representation, when its owning handle is dropped, and not when ownership is transferred or a borrow is dropped.",
      ["histories"], "every sequence of handle operations over several instances and resource types, including destructors that operate on the tables",
      "handle_test.go runs one fixed sequence",
      ["abi/io/canon.go", "abi/types/handle.go", "abi/types/component_instance.go", "abi/io/lift.go", "abi/io/lower.go"],
      [("handle table with free list", "abi/types/handle.go"), ("resource new/rep/drop", "abi/io/canon.go")],
      ["indices, representations and errors of every operation", "destructor calls"],
      "runtime monitoring: online checker of a reference handle-table specification over recorded operation histories",
      "histories up to 200 operations over several tables, tables with up to 70,000 handles",
      [("handle table", "live handles per resource type", "abi/types/handle.go")]),
    P("A12", "Borrowed handles are scoped to the call and block their owner",
      "While a handle is lent to a call in progress it can neither be dropped nor transferred, and it becomes usable again exactly when all calls it was lent to have ended. "
      "A call cannot end while a borrowed handle it received is still alive, and dropping a borrow neither runs a destructor nor ends the ownership; a borrowed handle can never be passed off as an owning one.",
      ["histories", "programs"], "every sequence of lending, borrowing, dropping, transferring and ending calls, also nested and with one handle lent repeatedly",
      "no existing test lends a handle to a call that misbehaves",
      ["abi/io/lift.go", "abi/io/lower.go", "abi/types/context.go", "abi/types/handle.go", "abi/io/canon.go"],
      [("lend and borrow counting", "abi/types/context.go"), ("own/borrow lifting", "abi/io/lift.go")],
      ["errors of every operation", "destructor calls", "calls that end"],
      "runtime monitoring: online checker of lend/borrow counting against a reference model, in histories and in real calls with misbehaving guests",
      "histories and call scenarios",
      [("loans", "how often an owning handle is on loan", "abi/types/handle.go"), ("borrow count", "borrows a call still holds", "abi/types/context.go")]),
    P("A13", "A component can only be entered and left when it may be",
      "While a component is inside an outgoing call to an import, calling into it, calling out of it once more and running a destructor it implements from outside are errors; while values are being copied into a component, so that its allocator runs, it can likewise be neither entered nor left. "
      "A refused attempt runs neither the target nor the allocator. "
      "A call that is permitted is never refused, and after any call that finishes normally the component can be entered and left again.",
      ["programs", "histories"], "every tree of nested calls between instances with probes at every callback",
      "no existing test makes nested calls",
      ["abi/io/canon_lift.go", "abi/io/canon_lower.go", "abi/io/canon.go", "abi/types/component_instance.go"],
      [("may-enter and may-leave flags", "abi/types/component_instance.go")],
      ["outcome of probes at every callback"],
      "runtime monitoring: probes at every callback of nested calls compared with a reference model of the call stack",
      "random call trees over up to four instances",
      [("may enter / may leave", "whether the instance accepts and makes calls", "abi/types/component_instance.go")]),
]
