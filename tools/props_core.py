"""Properties of the text codecs, variable-length integers, binary reader and runtime."""
from props_abi import P

PROPS = [
    P("E01", "Text codecs are exact and lossless",
      "For each supported encoding, encoding a text yields exactly the bytes the encoding defines (big or little endian units, surrogate pairs, no byte order mark added or removed) and decoding them yields the same text, for texts of any length. "
      "A text with a character the encoding cannot represent is refused rather than altered; bytes of the input that are not text are replaced by U+FFFD one by one, or the input is refused. "
      "Decoding never produces invalid text, and a valid part at the beginning is always kept.",
      ["inputs", "configurations"], "every text and byte sequence, every encoding",
      "the codec tests use a few short strings; buffer boundaries in the middle of a character and unusual code points are not reached",
      ["encoding/codec.go", "encoding/utf8.go", "encoding/utf16.go", "encoding/latin1.go"],
      [("codecs built on transformers", "encoding/")],
      ["encoded bytes and decoded text"],
      "runtime monitoring: bytes compared with an independent encoder and decoded back, over texts mixing all character classes and buffer-sized lengths",
      "lengths up to 33000 characters, around 1365, 2048, 4096 and 32768"),
    P("E02", "Text codecs work on any stream and report every fault",
      "What a codec writes depends only on the bytes of its source, not on the pieces in which the source delivers them. "
      "When the source or the destination fails at any point the codec reports that error instead of success, and what has been written until then is the beginning of the right output, apart from a character cut off by the fault.",
      ["inputs", "fault_sequences"], "every text, every way of cutting it into pieces, every offset of a failing read or write",
      "tests use in-memory buffers that never fail and deliver everything at once",
      ["encoding/codec.go"],
      [("Encode and Decode over readers and writers", "encoding/codec.go")],
      ["bytes written to the destination", "returned errors"],
      "runtime monitoring with fault injection: instrumented sources and destinations deliver pieces or fail, outputs compared with an independent encoder",
      "six delivery modes; faults at random offsets and at the ends"),
    P("L01", "Variable-length integers round-trip in their shortest form",
      "Encoding an integer writes its shortest variable-length form and reports the number of bytes written, and every decoder reads it, or any longer permitted form, back to the same integer with the number of bytes taken. "
      "Decoders take exactly the bytes of the integer, so integers written one after another are read back one after another and what follows stays unread. "
      "A writer that fails is reported.",
      ["inputs"], "every 32-bit integer, every permitted length, sequences of integers on one stream",
      "tests use two values",
      ["leb128/decode.go", "leb128/encode.go"],
      [("Encode and the three decoders", "leb128/")],
      ["bytes written", "values, byte counts and remaining input"],
      "runtime monitoring: encoded bytes and stream positions compared online with an independent implementation",
      "random and boundary values, three decoders, piecewise readers"),
    P("L02", "Malformed variable-length integers are refused by all decoders",
      "All decoders agree on every sequence of bytes: they return the same integer and byte count, or an error when the integer is cut off, is longer than five bytes or does not fit 32 bits. "
      "None of them panics, and an error of the underlying reader is passed on.",
      ["inputs", "fault_sequences"], "every sequence of bytes, every offset of a failing read",
      "tests contain no malformed integer",
      ["leb128/decode.go", "leb128/encode.go"],
      [("overflow and truncation checks", "leb128/")],
      ["values and errors of all decoders"],
      "runtime monitoring: differential monitor of three decoders against an independent one, with failing readers",
      "random bytes biased to continuation bits and limits of the fifth byte"),
    P("B01", "Binary modules are read faithfully",
      "Reading a well-formed binary module yields exactly its function types, functions with their local variables, types and instructions, and exports, in order and for any number of them, whatever permitted integer lengths the producer used. "
      "Sections the reader does not interpret are skipped without affecting anything else. "
      "A component is recognized as such by its preamble, and reading the same bytes twice gives equal results.",
      ["inputs"], "every module made of the supported types, instructions (local.get, i32.add, end) and exported functions, every permitted encoding of it, any skipped sections between",
      "reader tests read three small fixed files",
      ["binary/read.go", "leb128/decode.go"],
      [("section readers", "binary/")],
      ["the document that is returned"],
      "runtime monitoring: generated modules encoded by an independent encoder, the document compared with the model",
      "up to several hundred elements per section, padded integers, custom and other skipped sections"),
    P("B02", "Malformed binaries are refused without harm",
      "Reading any sequence of bytes ends with the module it encodes or an error, never with a panic; input whose preamble, section order, sizes, counts, type codes, names, indices or integers are malformed is refused, and what is accepted is what an independent decoder reads. "
      "Memory allocated while reading stays within a fixed amount plus a multiple of the length of the input (and of the number of local variables it declares), whatever counts and sizes it announces.",
      ["inputs"], "every sequence of bytes",
      "tests contain no malformed binary",
      ["binary/read.go", "leb128/decode.go"],
      [("size and count checks", "binary/")],
      ["returned documents and errors", "bytes allocated"],
      "runtime monitoring: corrupted modules judged by an independent decoder, panics captured, allocation measured per call",
      "ten kinds of structured corruption, one or two per input"),
    P("B03", "Reading binaries is independent of delivery and honest about faults",
      "The result of reading a binary depends only on its bytes, not on the pieces in which the reader delivers them. "
      "A binary cut off at any point is refused unless what remains is itself complete, and when the reader fails at any point the error is reported and never taken for the end of the file.",
      ["inputs", "fault_sequences"], "every binary, every way of delivering it, every offset of truncation or fault",
      "tests read from complete in-memory buffers",
      ["binary/read.go", "leb128/decode.go"],
      [("reads of fixed and variable length", "binary/")],
      ["returned documents and errors"],
      "runtime monitoring with fault injection: every prefix and delivery mode of generated binaries compared with an independent decoder, failing readers",
      "all prefixes of binaries up to 3000 bytes, six delivery modes, faults at random offsets"),
    P("R01", "Instances resolve their exports to their own functions",
      "For any sequence of modules instantiated in one store, looking up an exported name of an instance yields the address in the store of the function that module exports under that name, also after further modules were instantiated, and different functions never share an address. "
      "A name the module does not export is reported as missing. "
      "A module that exports a function it does not have is refused and leaves the store as it was.",
      ["histories", "inputs"], "every sequence of modules, every exported and unknown name",
      "the runtime test instantiates one module with one function in an empty store",
      ["runtime/instance.go", "runtime/store.go"],
      [("address allocation and export resolution", "runtime/")],
      ["export lookups and the store"],
      "runtime monitoring: online checker that follows the store and all instances over histories of instantiations",
      "up to five modules per store, including the same module twice and broken ones",
      [("store functions", "functions of all instances by address", "runtime/store.go")]),
]
