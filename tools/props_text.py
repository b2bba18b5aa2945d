"""Properties of the text formats: modules (wat), scripts (wast) and interfaces (wit)."""
from props_abi import P

WATLEX = ["wat/lex/lexer.go", "wat/lex/dfa.go", "wat/lex/nested.go", "wat/lex/string.go", "wat/lex/registry.go", "wat/token/token.go"]
WATPARSE = ["wat/parse/parser.go", "wat/ast/ast.go"]
WITLEX = ["wit/lex/lexer.go", "wit/token/token.go", "wit/token/types.go"]
WITPARSE = ["wit/parse/parser.go", "wit/ast/ast.go"]


def lexing(id, what, files, extra, name):
    return P(id, "Lexing %s loses nothing and knows where it is" % what,
      "The tokens of a text, blanks and comments included, are its consecutive non-empty pieces: put together they are the text up to the end or up to the first error. "
      "Each token carries its offset in bytes and the line and column (both counted from zero, columns in bytes) at which it begins, also after comments and blanks that span lines. "
      "At the end of the text the end is reported with that position, and reported again however often one asks.",
      ["inputs"], "every text: any sequence of tokens, blanks and comments, and any sequence of bytes",
      "lexer tests lex single tokens and two short files; positions are compared for a handful of tokens",
      files, [("token reader", name)],
      ["text, offset, line and column of every token"],
      "runtime monitoring: online trace checker over the token stream of generated and arbitrary texts",
      "texts up to some hundred tokens; " + extra)


def lookahead(id, what, files, name):
    return P(id, "Looking ahead in %s does not change what comes" % what,
      "Peeking at the next token of a lexer any number of times yields the token, or the error, that reading it yields, and leaves the lexer where it is. "
      "A copy of a lexer and the original go on independently of each other from the same place, whether or not a token was peeked at before, and a lexer overwritten with a copy continues where the copy is.",
      ["inputs", "histories"], "every text, every sequence of reading, peeking, copying and overwriting on any number of copies",
      "tests peek once; copies are used only inside the parser",
      files, [("peek and clone", name)],
      ["tokens and errors of every operation"],
      "runtime monitoring: random operation histories on a family of lexers, each token checked online against the sequence of a fresh lexer",
      "up to 43 operations on up to 6 copies")


def trivia(id, what, files, name):
    return P(id, "Blanks and comments in %s have no meaning" % what,
      "Two texts made of the same tokens that differ only in the blanks, line ends and comments between the tokens are both refused or both accepted with equal syntax trees. "
      "This holds for well-formed and for malformed sequences of tokens.",
      ["inputs"], "every sequence of tokens, every choice of blanks, line ends, line comments and nested block comments between them",
      "tests write each construct with one layout",
      files, [("skipping of blanks and comments", name)],
      ["syntax trees and errors"],
      "runtime monitoring: metamorphic monitor comparing the outcomes for three layouts of each token sequence",
      "half of the sequences are damaged")


PROPS = [
    lexing("W01", "module text", WATLEX, "all token kinds and broken pieces", "wat/lex/lexer.go"),
    P("W02", "Tokens of module text are classified by their grammar",
      "Every token of a text is recognized as what the grammar of the text format makes it: parenthesis, string, identifier, integer, float, the words that begin a module or a component, or another word, always as long as possible; comments may be nested and may end with the text. "
      "A text that is broken at some place (a string or block comment that does not end, an unknown escape, a character outside the grammar) is refused at that place and not before.",
      ["inputs"], "every text in which tokens are separated as the grammar requires",
      "tests use one or two spellings per kind of token",
      WATLEX, [("token rules", "wat/lex/")],
      ["kind and text of every token", "place of the error"],
      "runtime monitoring: differential monitor against an independent lexer",
      "what happens after an error, tokens glued to each other, raw control characters in strings are left open"),
    lookahead("W03", "module text", WATLEX, "wat/lex/lexer.go"),
    P("W04", "Module text is parsed into the module it denotes",
      "Parsing a well-formed module or component of the supported syntax yields the syntax tree it denotes: all fields, names, types, limits, constants, indices and instructions with their operands, in order, nothing lost, repeated or exchanged, with strings decoded. "
      "Exactly one module or component is taken, so that several in one text are read one after another and nothing follows the last one.",
      ["inputs"], "every sequence of modules and components of the supported syntax (types, functions with parameters, results and locals, imports, exports, tables, memories, globals, plain and folded i32 and control instructions), any layout",
      "parser tests parse fixed small modules",
      WATPARSE, [("recursive descent parser", "wat/parse/parser.go")],
      ["syntax tree", "place where parsing stopped"],
      "runtime monitoring: generated syntax trees written as text, parsed back and compared",
      "up to some hundred tokens per module, nesting up to 6"),
    trivia("W05", "module text", WATLEX + WATPARSE, "wat/parse/parser.go"),
    P("W06", "Numbers in module text have their exact value",
      "An integer literal of 32 or 64 bits, in any base, with sign and underscores, has the value it spells when it is in the range of the signed or the unsigned type, and is refused otherwise. "
      "A float literal (decimal, hexadecimal, infinity, NaN with payload) yields the float nearest to the number it spells, ties to even, with its sign, and is refused when it rounds beyond the largest float or its payload does not fit. "
      "Anything else is refused, and what follows the literal stays unread.",
      ["inputs"], "every spelling of a number, every word that is nearly a number, all four types",
      "tests use a few small decimal numbers",
      WATPARSE + ["wat/lex/lexer.go"], [("literal conversions", "wat/parse/parser.go")],
      ["bits of the converted value", "errors"],
      "runtime monitoring: bits compared with exact rational arithmetic",
      "numbers at the limits and half way between floats; payload bits of nan:canonical and nan:arithmetic and +N beyond the signed range are left open"),
    P("W07", "Malformed module text is refused",
      "Parsing a text that is not well-formed (a token missing, too many, exchanged or unknown, a number out of range, a bad string, text that ends early) returns an error, never a tree and never a panic, also for texts nested some ten thousand levels deep. "
      "A text that is well-formed after the change is still parsed into what it then denotes.",
      ["inputs"], "every text obtained by changing tokens, groups or bytes of a module, every deeply nested text of moderate size",
      "tests contain almost no malformed text",
      WATPARSE + WATLEX, [("expectations of the parser", "wat/parse/parser.go")],
      ["errors", "syntax tree"],
      "runtime monitoring: mutated texts judged by an independent parser with a three-valued verdict, panics captured",
      "constructs of the format that the library does not support are left open; nesting up to 20000 levels"),
    P("W08", "Reading module text from a stream reports every fault",
      "Decoding a module or component from a reader succeeds exactly when the text it delivers can be parsed, whatever the pieces in which it is delivered, and yields a module for a module. "
      "When the reader fails at any point that error is reported, also when the part delivered until then would be complete.",
      ["inputs", "fault_sequences"], "every text, every way of cutting it into pieces, every offset of a failing read",
      "the decoder has no test",
      ["wat/decoder.go"] + WATPARSE, [("reading all of the input", "wat/decoder.go")],
      ["kind of the result and errors"],
      "runtime monitoring with fault injection: instrumented readers deliver pieces or fail, outcome compared with parsing the text",
      "six delivery modes; faults at random offsets and at the ends; the contents of the result are not judged as the decoder does not fill them in"),
    P("S01", "Scripts are parsed into the directives they contain",
      "Parsing a well-formed script of the supported syntax yields its modules, components and assertions in order, each with the module it is about, the function it invokes on which module, its arguments, expected results and failure message, with constants at their exact value. "
      "An empty script has no directives.",
      ["inputs"], "every sequence of modules, components (also quoted), assert_return, assert_trap, assert_invalid and assert_malformed with numeric constants, any layout",
      "script tests parse a few fixed scripts",
      ["wast/parse/parser.go", "wast/ast/ast.go", "wat/parse/parser.go"], [("script parser", "wast/parse/parser.go")],
      ["syntax tree of the script"],
      "runtime monitoring: generated scripts written as text, parsed and compared",
      "up to 8 directives"),
    P("S02", "Malformed scripts are refused",
      "Parsing a script with a malformed directive anywhere in it (a token missing, too many, exchanged or unknown, a number out of range, text that ends early, something other than a directive between directives) returns an error, never a panic and never the directives before it as if they were all. "
      "A script that is well-formed after a change is parsed into what it then denotes, and blanks and comments make no difference.",
      ["inputs"], "every script obtained by changing tokens, groups or bytes of a script",
      "tests contain almost no malformed script",
      ["wast/parse/parser.go", "wat/parse/parser.go"], [("expectations of the parser", "wast/parse/parser.go")],
      ["errors", "syntax tree"],
      "runtime monitoring: mutated scripts judged by an independent parser with a three-valued verdict, panics captured",
      "unsupported constructs are left open"),
    lexing("I01", "interface text", WITLEX, "all token kinds and broken pieces", "wit/lex/lexer.go"),
    P("I02", "Tokens of interface text are classified by their grammar",
      "Every token of an interface text is recognized as what it is: keyword, identifier, identifier escaped with a percent sign (never a keyword), integer or punctuation, always as long as possible; comments may be nested and may end with the text. "
      "A character that begins no token, a lone percent sign or a block comment that does not end is refused at its place and not before.",
      ["inputs"], "every text of kebab-case names, keywords, numbers, punctuation and comments",
      "tests use single tokens",
      WITLEX, [("token rules", "wit/lex/lexer.go")],
      ["kind and text of every token", "place of the error"],
      "runtime monitoring: differential monitor against an independent lexer",
      "names that are not in kebab case and letters outside ascii are left open"),
    lookahead("I03", "interface text", WITLEX, "wit/lex/lexer.go"),
    P("I04", "Interface text is parsed into what it declares",
      "Parsing a well-formed interface file of the supported syntax yields its package with namespace, path and version, and its uses, interfaces and worlds with all types, functions, resources, imports, exports and includes, in order, nothing lost, repeated or exchanged. "
      "Every type is the one written, to any depth, and a function has the parameters and results written for it.",
      ["inputs"], "every file made of package declarations, uses, interfaces, worlds and all kinds of type definitions, any layout",
      "parser tests parse fixed small files",
      WITPARSE, [("recursive descent parser", "wit/parse/parser.go")],
      ["syntax tree"],
      "runtime monitoring: generated syntax trees written as text, parsed back and compared",
      "up to some hundred tokens per file"),
    trivia("I05", "interface text", WITLEX + WITPARSE, "wit/parse/parser.go"),
    P("I06", "Malformed interface text is refused",
      "Parsing an interface text that is not well-formed (a token missing, too many, exchanged or unknown, a version number out of range, text that ends early, something other than a declaration between declarations) returns an error, never a tree and never a panic, also for types nested some ten thousand levels deep. "
      "A text that is well-formed after a change is still parsed into what it then declares.",
      ["inputs"], "every text obtained by changing tokens, groups or bytes of a file, every deeply nested type of moderate size",
      "tests contain almost no malformed text",
      WITPARSE + WITLEX, [("expectations of the parser", "wit/parse/parser.go")],
      ["errors", "syntax tree"],
      "runtime monitoring: mutated texts judged by an independent parser with a three-valued verdict, panics captured",
      "empty lists, trailing commas in some places, prerelease versions and newer syntax are left open"),
]
