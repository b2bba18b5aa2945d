"""Properties that hold across the library."""
from props_abi import P

EVERYTHING = ["wat/lex/lexer.go", "wat/parse/parser.go", "wast/parse/parser.go", "wit/lex/lexer.go", "wit/parse/parser.go",
              "binary/read.go", "leb128/decode.go", "leb128/encode.go", "encoding/codec.go", "encoding/factory.go",
              "abi/io/store.go", "abi/io/load.go", "abi/io/lower.go", "abi/io/lift.go", "abi/io/canon_lift.go", "abi/io/canon_lower.go",
              "abi/types/handle.go", "runtime/instance.go", "runtime/store.go"]

PROPS = [
    P("A14", "Core values are read in order and as what they are",
      "An iterator over core values yields them in order, each exactly once and only when it is asked for as the kind it has, knows how many there are and how many were read, and reports the end with an error. "
      "Behind a list of joined kinds it yields each value reinterpreted bit by bit as the narrower kind it is asked for: a 32-bit float from 32 or 64 bits, a 64-bit float from 64 bits, 32 bits from the low half of 64; when the list is used up that is an error.",
      ["inputs", "histories"], "every sequence of core values, every sequence of requests, up to two levels of joined kinds",
      "tests reach the iterators only through values that fit",
      ["abi/values/value.go", "abi/values/coerce_value_iterator.go", "abi/values/factory.go", "abi/values/int.go", "abi/values/float.go"],
      [("iterators", "abi/values/")],
      ["values, errors, index and length"],
      "runtime monitoring: every request checked online against a model of the iterator",
      "up to 7 values; whether a value refused for its kind was consumed is left open"),
    P("A15", "Types without a layout are refused",
      "The library can describe streams but the canonical ABI it implements gives them no layout: wherever a type contains one, as a part of records, tuples, variants, options, results and unions at any depth, asking for its size, alignment, core values or a core signature with it, and loading, storing, lifting or lowering a value of it, returns an error and never panics, also when the value happens to be of another case. "
      "A list of such a type has the layout of any list, but lowering or storing such a list that is not empty is an error; a call with such a parameter does not reach the callee.",
      ["inputs"], "every place of a stream inside a type, every operation, otherwise valid values and memory",
      "tests use supported types only",
      ["abi/io/size.go", "abi/io/alignment.go", "abi/io/flatten.go", "abi/io/load.go", "abi/io/store.go", "abi/io/lift.go", "abi/io/lower.go", "abi/io/canon_lift.go", "abi/io/canon_lower.go"],
      [("no match for the type", "abi/io/size.go, abi/io/alignment.go, abi/io/flatten.go, abi/io/load.go, abi/io/store.go, abi/io/lift.go, abi/io/lower.go")],
      ["error of every operation, calls of the callee"],
      "runtime monitoring: every operation on types with an unsupported part checked online for an error, panics captured",
      "up to 4 containers around the stream, up to 4 parts each"),
    P("B04", "Parts of a binary are read one by one",
      "Each reader of a part of a binary (preamble, section header, fixed and variable length number, run of bytes, name, value type and vector of them, result and function type, function, export, locals, instruction, expression) yields what the part encodes and takes exactly its bytes from the source, however these are delivered, so that the next part can be read after it. "
      "When the source ends or fails inside the part, or the part is invalid, the result is an error, and the fault of the source can be recognised in it.",
      ["inputs", "fault_sequences"], "every sequence of parts, every delivery, every offset of the end or a fault",
      "tests read three complete modules at once",
      ["binary/read.go", "leb128/decode.go"],
      [("readers of parts", "binary/read.go")],
      ["value and error of each part, bytes taken"],
      "runtime monitoring: recording sources with generated delivery, cuts and faults; value and position checked online after every part",
      "up to 6 parts in sequence, vectors to 200, names to 5 kB"),
    P("A16", "The guest allocator is used as the ABI says",
      "While a value is stored or lowered the allocator of the guest is asked for new blocks (no original block, size 0) or to resize a block it handed out during this operation, naming that block's exact address, size and alignment. "
      "When the operation succeeds, the blocks left with the value are exactly those it takes: one for each string, list and spilled tuple of values that is not empty, with the length in bytes and the alignment of its content. "
      "When the allocator fails the operation fails.",
      ["inputs", "fault_sequences"], "every type and value, every encoding, storing, lowering, spilling and calling, every failing request",
      "tests use an allocator that ignores what it is asked",
      ["abi/io/store.go", "abi/io/lower.go", "abi/io/canon_lower.go", "abi/io/canon_lift.go", "abi/types/canonical_options.go"],
      [("requests to realloc", "abi/io/store.go, abi/io/canon_lower.go")],
      ["every request to the allocator with its outcome", "regions of guest memory a value occupies"],
      "runtime monitoring: recorded allocator trace replayed by an offline checker and compared with the blocks an independent reader finds",
      "types and values as in A01, one failing request"),
    P("A17", "The place for results that the guest names is checked before use",
      "When the results of a lowered function, or values that are lowered, go to a place in memory the guest names, they are all written there, in the layout of a tuple, if the place is aligned and large enough, also at the very end of memory, and nothing else changes. "
      "A place that is misaligned, begins or ends outside memory, also when its end wraps around 32 bits, is missing or is not a 32-bit integer is an error, and then only memory the guest allocator handed out may have changed.",
      ["inputs"], "every list of result types and values, every place, results of calls with flat or spilled arguments",
      "tests name good places only",
      ["abi/io/canon_lower.go", "abi/io/store.go"],
      [("results to a named place", "abi/io/canon_lower.go")],
      ["error, image at the place, all other memory"],
      "runtime monitoring: memory watched with a shadow copy while results go to generated good and bad places; image read by an independent reader",
      "types and values as in A01 without borrowed handles, up to three results"),
    P("A18", "A guest's texts are in the encoding it names, if that is known",
      "Options of a guest may name any encoding of the default set (utf-8, utf-16, utf-16-le, utf-16-be, latin1, latin1+utf16): texts stored, lowered or passed to that guest are then in exactly that encoding with the length in its code units, and its memory is read as that encoding, an error if malformed, misaligned or outside memory; a character latin1 can not hold is an error. "
      "With any other name every operation on a text that is not empty is an error and never a panic, and such a text does not reach the callee.",
      ["inputs", "configurations"], "every name of an encoding, every text, storing, lowering, loading, lifting and calls between guests of different encodings",
      "tests name utf-8, utf-16 and latin1+utf16 and load well-formed text",
      ["abi/io/store.go", "abi/io/load.go", "encoding/factory.go", "encoding/utf16.go", "encoding/latin1.go", "abi/types/canonical_options.go"],
      [("codec by name", "abi/io/store.go, abi/io/load.go")],
      ["bytes and length in guest memory, values, errors, arguments of the callee"],
      "runtime monitoring: bytes in guest memory checked online against independent encoders and strict decoders for each named encoding",
      "texts up to a megabyte, alone or in a tuple, option or list"),
    P("W09", "A lexer with given rules matches greedily, first rule first",
      "A lexer whose rules are replaced by words, deterministic automata and pairs of nested delimiters reads on as long as any rule that matched so far can continue, then emits that text as the token of the first rule in the list that accepts it, at its offset, line and column. "
      "When no rule can start, or none accepts the text at which all of them stop, it reports an error.",
      ["inputs", "configurations"], "every list of rules, every text",
      "tests use the built-in rules of the text format only",
      ["wat/lex/lexer.go", "wat/lex/dfa.go", "wat/lex/string.go", "wat/lex/nested.go", "wat/lex/registry.go"],
      [("running rules side by side", "wat/lex/lexer.go")],
      ["tokens and errors"],
      "runtime monitoring: tokens of lexers with generated rules checked online against a model that runs the rules side by side",
      "up to 5 rules over six bytes, texts to 60 bytes"),
    P("E03", "Codecs are found by their exact name",
      "Looking up an encoding in a set of codecs yields the codec registered under exactly that name, and an error that says it does not exist for any other name; both ways of looking up agree. "
      "The default set has utf-8, utf-16, utf-16-be, utf-16-le, latin1 and latin1+utf16, each with the alignment and code unit size of its encoding.",
      ["inputs", "configurations"], "every set of codecs, every name",
      "tests look up names that exist",
      ["encoding/factory.go", "encoding/helper.go", "encoding/utf8.go", "encoding/utf16.go", "encoding/latin1.go"],
      [("lookup by name", "encoding/factory.go")],
      ["codecs found and errors"],
      "runtime monitoring: lookups in sets of recording codecs compared with a map",
      "sets of up to 7 codecs and the default set"),
    P("D01", "Results do not depend on earlier work nor change by later work",
      "The same input gives the same result every time, whatever was processed in between and whether that succeeded or failed. "
      "A result, once returned, stays as it is: later calls, with other or the same inputs, and overwriting the bytes it was read from do not change it.",
      ["inputs", "histories"], "every sequence of parsing, lexing, reading, encoding, decoding, storing, loading, lowering, lifting, flattening, instantiating and calling",
      "each test processes one input with fresh objects and looks at the result at once",
      EVERYTHING, [("absence of state outside the objects of the caller", "all packages")],
      ["results at once, after other work and after repetition"],
      "runtime monitoring: histories of mixed work whose results are kept, shown again and repeated",
      "up to 4 pieces of work and 3 others in between; error texts are not compared"),
    P("X01", "Independent work can run at the same time",
      "Work on separate lexers, readers, instances and stores can be done by several goroutines at once, also when they share types, host values, modules or codecs that none of them changes: each gives the result it gives alone. "
      "No two of them access the same memory without synchronization when one of them writes.",
      ["schedules", "inputs"], "every mix of parsing, lexing, reading, encoding, decoding, storing, loading, lowering, lifting, flattening, instantiating and calling, every interleaving",
      "no test uses more than one goroutine",
      EVERYTHING, [("absence of shared mutable state", "all packages")],
      ["results of every goroutine", "reports of the race detector"],
      "runtime monitoring: race detector over mixed concurrent work, results compared with those obtained alone",
      "four goroutines per case, eight cases at once, interleavings as they happen"),
]
