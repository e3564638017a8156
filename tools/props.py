NOT_APPLICABLE = []
NOTES = (
    "One harness crate (harness/) links the crates of /repo and enumerates, for each property, every case of a "
    "bounded space on the real code, comparing with a reference model. run.sh rebuilds from the working tree of "
    "/repo. Violations are replayed with: ./run.sh <id> --replay <file>."
)

prop(
    "H01", "SHA-256 digests are right for any message and any way of streaming it",
    "For every message, the digest equals the SHA-256 digest of FIPS 180-4, no matter how the message was cut into "
    "pushes, and no matter which zero runs were pushed through the dedicated zero operation. Finalizing or resetting "
    "an engine makes it equal to a fresh one, a copy of an engine continues independently, and an engine reports to "
    "be reset exactly if no byte was pushed since. Neither operation ever panics.",
    ["inputs", "histories"],
    "all messages, all sequences of push / zero push / finalize / reset / copy",
    "The tests hash a handful of vectors; none has a length of 63 modulo 64, none mixes zero pushes with reuse.",
    ["lib/osi/src/hash.rs", "lib/osi/src/hash/sha256.rs"],
    [("stream buffer and padding", "lib/osi/src/hash/sha256.rs Engine::push, push_zero, finalize"),
     ("compression", "lib/osi/src/hash/sha256.rs Engine::commit")],
    "all lengths up to 4200 (9000), all two-piece splits up to 200+200 bytes with data/zero pieces, all operation "
    "sequences up to depth 4 (5) over 24 operations, all byte values in 120 positions, bit count beyond 2^32"
    "; one engine used for hundreds of messages in cycles, and messages of thousands of pushes",
    observe=["osi::hash::Engine", "osi::hash::hash"],
)

prop(
    "H02", "HMAC-SHA-256 codes are right for any key, message, and streaming",
    "For every key and message, the computed code equals HMAC (RFC 2104) over SHA-256, including keys that are empty, "
    "exactly one block, or longer than a block. The code does not depend on how the message was cut into pushes. "
    "After finalizing or resetting, the same object authenticates the next message with the same key as a fresh "
    "object would.",
    ["inputs", "histories"],
    "all keys, all messages, all sequences of push / zero push / finalize / reset",
    "The tests check the RFC vectors only, with one push each and no reuse at block boundaries.",
    ["lib/osi/src/hmac.rs", "lib/osi/src/hash/sha256.rs"],
    [("key block and inner/outer digests", "lib/osi/src/hmac.rs Hmac")],
    "all key lengths up to 200 with all message lengths up to 140, all operation sequences up to depth 3 (4) for 12 "
    "boundary keys, all values of all key bytes up to 130, long keys and messages up to 2^17 bytes"
    "; one object used for hundreds of messages in cycles, and messages of thousands of pushes",
    observe=["osi::hmac::HmacSha256"],
)

prop(
    "H03", "Digest helpers work with any engine, block size, and digest size",
    "For every engine that provides the required operations only, pushing a run of zeros of any length streams exactly "
    "as many zeros, and authentication codes follow RFC 2104 for its block and digest size, under any key and any "
    "history. Digest values of any size convert from and to bytes and print as two lower-case hexadecimal digits per "
    "byte.",
    ["inputs", "histories", "configurations"],
    "all engines, all sizes, all keys, all sequences of push / zero push / finalize / reset",
    "The tests only use SHA-256, which has its own zero operation and a single block and digest size.",
    ["lib/osi/src/hash.rs", "lib/osi/src/hmac.rs"],
    [("default zero operation, digest values", "lib/osi/src/hash.rs Engine::push_zero, Hash"),
     ("key block and inner/outer digests", "lib/osi/src/hmac.rs Hmac")],
    "zero runs of 0 to 5000 (70000) bytes and around 2^16, 2^20, 2^24; 8 pairs of block and digest size with all keys "
    "of up to 3 blocks and all sequences of up to 2 (3) of 12 operations; values of 10 sizes",
    observe=["osi::hash::Engine", "osi::hmac::Hmac", "osi::hash::Hash"],
)

prop(
    "R01", "Random number generators follow their published recurrences",
    "From every seed and for every history of draws, splits and jumps, the generators yield the sequences of the "
    "published SplitMix64 and Xoshiro256++ algorithms. Splitting advances the parent by two steps and yields the "
    "published child; the two jumps are equivalent to exactly 2^128 and 2^192 draws. Seeding one generator from "
    "another takes one fresh draw per 64-bit word of state, and a seed of all zeros falls back to the documented seed.",
    ["inputs", "histories"],
    "all seeds, all sequences of 32-bit draw / 64-bit draw / split / jump / copy",
    "The tests compare single published sequences; no test looks at the state after seeding from another generator, "
    "and none relates a jump to draws.",
    ["lib/osi/src/rng.rs"],
    [("mixing and splitting", "lib/osi/src/rng.rs Mix64, SplitMix64"),
     ("step, combine, and jump polynomials", "lib/osi/src/rng.rs Xoshiro256pp")],
    "all operation sequences up to depth 4 (5) from 3000 (40000) dense and boundary seeds; Xoshiro from all 1-bit and "
    "all-but-one-bit states, jumps compared with the exact matrix power over GF(2); seeds calculated backwards such that chosen draws and increments "
    "appear at 5 places; runs of 140000 (5 million) draws, chains of 1000 splits and 200 jumps",
    observe=["osi::rng"],
)

prop(
    "S01", "Natural string order is a total order that sorts numbers by value",
    "Comparing strings in natural order is a total order: exactly equal strings compare equal, swapping the operands "
    "reverses the result, and the order is transitive. If two strings first differ in a run of ASCII digits, the one "
    "with the smaller number is smaller, for numbers of any length, and numbers of the same value are ordered like text; "
    "if they first differ in text, the text decides by code point. A string sorts before all longer strings it is the "
    "beginning of, and comparing never panics.",
    ["inputs"],
    "all pairs and triples of strings",
    "The tests compare a few short pairs; transitivity is a statement about triples and breaks only with numbers "
    "beyond the integer range or with non-ASCII numerals.",
    ["lib/osi/src/str.rs"],
    [("tokenisation and token comparison", "lib/osi/src/str.rs cmp_natural")],
    "all pairs and all triples of about 4900 (15k) strings: all strings up to length 3 (4) over 9 symbols, up to 5 (6) over "
    "4 symbols, and numbers around integer limits with zeros and text around them"
    "; long common prefixes of up to 1000 characters and a 7 character Unicode alphabet up to length 3 (4); all pairs and triples of strings "
    "with runs of digits and of text around 2^8, 2^9, 2^10, 2^12, and 2^16; every Unicode scalar value against its successor and 21 others in 6 places",
    observe=["osi::str::cmp_natural"],
)

prop(
    "S02", "Symbolized strings are always valid identifiers of the same shape",
    "Turning any string into a symbol replaces exactly the characters that are not alphanumeric by an underscore, "
    "one for one, and keeps all others. The result is prefixed by one underscore exactly if the input is empty or "
    "starts with a numeric character, so it is never empty, never starts with a number, and is stable when symbolized "
    "again.",
    ["inputs"],
    "all strings",
    "The tests cover a few ASCII strings; the statement ranges over all Unicode scalar values.",
    ["lib/osi/src/str.rs"],
    [("character replacement and prefix", "lib/osi/src/str.rs symbolize")],
    "every Unicode scalar value alone, first and last; all strings up to length 4 (5) over 13 character classes"
    "; long strings around powers of two up to 2^17",
    observe=["osi::str::symbolize"],
)

prop(
    "J01", "JSON tokens of any text match the grammar, and spell the text back",
    "For every text, the tokenizer reports exactly the sequence of tokens and errors that RFC 8259 and the documented "
    "recovery rules demand, each error exactly once and at its place, and reports after every character whether a "
    "token is still pending. If no error is reported, the raw content of all tokens concatenated is the input, "
    "character by character. It never panics and always accepts the next text.",
    ["inputs"],
    "all texts over all Unicode scalar values, all flag sets",
    "The tests tokenize a few dozen short texts; the recovery from errors in the middle of other tokens, comments "
    "next to operators, and most scalar values are never seen.",
    ["lib/osi/src/json/token.rs"],
    [("lexer state machine", "lib/osi/src/json/token.rs Tokenizer::push"),
     ("report callbacks", "lib/osi/src/json/token.rs Report")],
    "all texts up to 4 (5) out of 31 character classes, up to 4 (5) out of 26 fragments, up to 6 (7) keyword and 7 (8) "
    "comment characters, every Unicode scalar value in 9 contexts, tokens up to 20000 characters"
    "; 24 kinds of runs around all powers of two up to 2^16 (2^18); all edits of one or two characters of 8 texts",
    observe=["osi::json::token::Tokenizer"],
)

prop(
    "J02", "JSON tokenization ignores how input is cut, and reuse leaves no trace",
    "The reported sequence depends on the concatenated input alone, not on how it is cut into pushes. After a reset, "
    "an end of input, or a report that asks to stop, the tokenizer behaves like a new one for the next text, and "
    "nothing is reported after a stop. A copy continues independently of its original.",
    ["inputs", "histories"],
    "all texts, all ways to cut them, all points at which a text is abandoned or stopped",
    "The tests use a new tokenizer per text, push texts in one go, and never stop from a report.",
    ["lib/osi/src/json/token.rs"],
    [("reset on completion and stop", "lib/osi/src/json/token.rs Tokenizer::reset, push_str, parse_str"),
     ("accumulated token data", "lib/osi/src/json/token.rs Tokenizer")],
    "all texts up to 5 (6) out of 17 fragments with all cuts of their first 8 characters, all texts up to 5 (6) out of "
    "18 fragments abandoned in 3 ways incl. a stop at every event, copies at all states up to depth 4 (5)"
    "; 24 kinds of runs around all powers of two up to 2^16 cut into parts, or abandoned and followed by another text; "
    "hundreds of texts by one tokenizer",
    observe=["osi::json::token::Tokenizer"],
)

prop(
    "J03", "JSON strings decode all escapes, and flag every invalid one",
    "Every string token carries the text its literal denotes: simple escapes, all 16-bit escapes in any letter case, "
    "and surrogate pairs yield the denoted character, everything else stands for itself. Unpaired surrogates, unknown "
    "or incomplete escapes, and raw control characters are each reported as the matching error, and the rest of the "
    "string is still decoded. The undecoded spelling is always retained.",
    ["inputs"],
    "all string literals",
    "The tests decode a few escapes; there are 65536 escapes and over a million pairs, and invalid sequences "
    "interact with the character that follows.",
    ["lib/osi/src/json/token.rs"],
    [("escape and surrogate states", "lib/osi/src/json/token.rs Tokenizer string states")],
    "every 16-bit escape in 3 spellings, also behind lead surrogates; every surrogate pair in both cases; all literals up to 5 (6) out of 22 fragments and 7 (8) "
    "characters, all continuations of a lead surrogate up to 7 (9) characters; all edits of one or two characters of 7 texts",
    observe=["osi::json::token::Token::String"],
)

prop(
    "J04", "JSON numbers are split exactly, under any set of accepted deviations",
    "A number is reported without error exactly if it conforms to the RFC 8259 grammar, extended by leading zeros or a "
    "plus sign exactly if the respective deviation is allowed. Its integer, fraction, and exponent digits and their "
    "signs are reported exactly as spelled, with an absent fraction or exponent distinguished from a present one. The "
    "character that ends a number is never swallowed.",
    ["inputs", "configurations"],
    "all texts of number characters, all combinations of allowed deviations",
    "The tests cover some numbers with default flags; the combinations of deviations with errors are not covered.",
    ["lib/osi/src/json/token.rs"],
    [("number states", "lib/osi/src/json/token.rs Tokenizer number states"),
     ("flags", "lib/osi/src/json/token.rs FLAG_*")],
    "all texts up to 7 (9) characters out of 8 number characters with 3 terminators under all 4 flag sets",
    observe=["osi::json::token::Token::Number"],
)

prop(
    "A01", "Arguments select the longest matching command and reach it as parameters",
    "Non-flag arguments descend into the configured command tree for as long as some configured command path continues "
    "with them; the first that does not, and all after it, are parameters. Parameters go in order to the command whose "
    "path is exactly the entered one, followed by a single end marker, and that command is the result; if the entered "
    "path is not a configured command, each parameter is an error and no command is the result. A bare double dash "
    "ends commands and flags, and is not itself a parameter.",
    ["inputs", "configurations"],
    "all command sets, all argument lists",
    "The tests parse single lists against two fixed layouts; ambiguous prefixes, gaps in the tree and unordered "
    "definitions only show over many layouts.",
    ["lib/osi/src/args/parse.rs", "lib/osi/src/args/layout.rs"],
    [("descending into sub-commands", "lib/osi/src/args/parse.rs Cursor::enter, compare_prefix"),
     ("parameter dispatch", "lib/osi/src/args/parse.rs Parser::parse_command, parse_cursor")],
    "all 256 subsets of 8 command paths with all lists up to 5 (6) out of 9 arguments and 7 (9) out of 4; all subsets "
    "of 8 unusual names with all lists up to 4 (5)"
    "; layouts with up to 257 commands or layers, names of up to 257 characters that differ in one position, and lists of up to 5000 parameters"
    "; all edits of one or two bytes and of one character of 5 lists",
    observe=["osi::args::parse"],
)

prop(
    "A02", "A flag resolves to the innermost entered command, with exact values",
    "A flag applies to the innermost entered command that defines it, falling back to its configured ancestors, and "
    "never to a command that was not entered; its own name takes precedence over the negation of another flag. Only "
    "toggles can be negated, only value flags take a value: whatever follows the first equals sign, or else the entire "
    "next argument, byte for byte. Each accepted use reaches exactly one flag once, with the name as spelled and the "
    "command entered at that time.",
    ["inputs", "configurations"],
    "all layouts, all argument lists",
    "The tests use few flags on two levels; shadowed flags, names starting with the negation prefix, and values that "
    "look like flags are combinations they do not reach.",
    ["lib/osi/src/args/parse.rs", "lib/osi/src/args/layout.rs"],
    [("flag lookup", "lib/osi/src/args/parse.rs Cursor::find_flag"),
     ("mode dispatch", "lib/osi/src/args/parse.rs Parser::parse_long")],
    "all layouts of up to 2 commands with 5 flag profiles and all lists up to 4 (5) out of 14 arguments, up to 3 "
    "commands with 3 profiles and lists up to 5 (6) out of 7, value flags with lists up to 5 (6) out of 13"
    "; all arguments made of up to 6 (7) of 8 parts for 8 layouts, each in front of 3 lists"
    "; layouts with up to 257 flags or layers, long names, values of up to 70000 bytes, and lists of up to 5140 flags"
    "; all edits of one or two bytes and of one character of 6 lists; "
    "flags of commands with up to 255 others below, and of commands up to 257 layers apart",
    observe=["osi::args::parse"],
)

prop(
    "A03", "Every argument error is reported once, in order, and never derails parsing",
    "Each malformed, unknown, or misused argument yields exactly one diagnostic that carries the offending flag and "
    "value verbatim, including bytes that are not UTF-8, and unknown short flags without their dash. All other "
    "arguments are handled as if the bad one had not been there. If any report asks to stop, parsing ends at once with "
    "the value of that report, and nothing else is reported.",
    ["inputs", "configurations", "fault_sequences"],
    "all layouts, all argument lists, a stop at any report",
    "The tests look at a few errors one at a time and never stop from a report.",
    ["lib/osi/src/args/parse.rs", "lib/osi/src/args.rs"],
    [("error reports", "lib/osi/src/args/parse.rs Cursor::report_error"),
     ("UTF-8 split", "lib/osi/src/args/parse.rs Parser::parse_cursor")],
    "all layouts of up to 2 commands with 3 flag profiles and all lists up to 3 (4) out of 22 malformed arguments or 4 "
    "(5) out of 10, up to 3 commands with lists up to 5 (6), each with a stop at every report"
    "; all arguments made of up to 6 (7) of 8 parts for 8 layouts, with a stop at every report"
    "; long lists and long rejected arguments, broken off at every event"
    "; all edits of one or two bytes and of one character of 4 lists, broken off at every event",
    observe=["osi::args::parse", "osi::args::Error"],
)

prop(
    "A04", "Built-in argument targets hold exactly what the arguments said",
    "For every sequence of uses, a target of a built-in type ends up with the documented value: the last one wins for "
    "single values, all in order for lists, optional targets stay empty if never used. A use the type does not support, "
    "or text that is not UTF-8 where text is required, yields one matching error, which can stop "
    "parsing, and leaves the target as it was. Targets shared between flags behave like the target itself.",
    ["inputs", "histories"],
    "all built-in target types, all flag modes, all sequences of uses and parameters",
    "The tests use a few types once each in their usual mode.",
    ["lib/osi/src/args/report.rs"],
    [("report implementations", "lib/osi/src/args/report.rs FlagReport, CommandReport, Shared")],
    "17 flag targets in 3 modes with all sequences up to 5 (6) out of 6 uses; 7 command targets with all lists up to 5 "
    "(7) out of 5 parameters; up to 5000 uses, parameters, and errors, stopped at the places around powers of two; "
    "all characters in 3 places of a value, for all targets",
    observe=["osi::args::FlagReport", "osi::args::CommandReport"],
)

prop(
    "A05", "Command and flag sets are ordered and searchable however they were defined",
    "For every set of commands or flags, given in any order, iteration yields each exactly once in lexicographic order, "
    "index access agrees with iteration, and a search finds exactly the elements of the set. The parent of a command is "
    "the command with the longest configured proper prefix of its path, if there is any.",
    ["inputs", "configurations"],
    "all sets of commands and flags, all orders of definition",
    "The tests define their sets in order, with at most one gap in the hierarchy.",
    ["lib/osi/src/args/layout.rs"],
    [("sorting on creation", "lib/osi/src/args/layout.rs CommandSet::with, FlagSet::with"),
     ("hierarchy", "lib/osi/src/args/layout.rs CommandSetRef::up_from")],
    "all 1024 subsets of 10 command paths in 20 orders each; all ordered selections of up to 5 out of 7 flag names"
    "; sets of up to 257 commands and flags of 6 families of names in 6 orders; "
    "layouts with gaps between layers and many siblings below others",
    observe=["osi::args::CommandSet", "osi::args::FlagSet"],
)

prop(
    "A06", "Help shows exactly the requested command, its flags, and sub-commands",
    "Help is written exactly if the last use of a help flag asked for it, and then for the command entered at that "
    "time: the information, the usage line, all flags of that command, and all its direct sub-commands, each in order, "
    "with sections omitted if empty and the width of the longest entry. If the writer fails at any point, that failure "
    "is returned and nothing more is written.",
    ["inputs", "configurations", "fault_sequences"],
    "all layouts, all argument lists, all points of failure",
    "The tests check one help page, with a writer that never fails.",
    ["lib/osi/src/args/help.rs"],
    [("help flag", "lib/osi/src/args/help.rs Help, HelpFlag"),
     ("help page", "lib/osi/src/args/help.rs try_help")],
    "all 256 subsets of 8 command paths, 3 flag profiles, settable and toggleable help, all lists up to 5 (6) out of 6 "
    "arguments, writer failing at every call"
    "; up to 257 flags, commands, or layers, and names of up to 257 characters; "
    "all characters in names and texts, and all combinations of missing, empty, and given texts",
    observe=["osi::args::help"],
)

prop(
    "D01", "Exactly the D-Bus single complete types are accepted and kept unchanged",
    "For every byte string, a signature is accepted exactly if it is one complete type, and an accepted signature has the "
    "length, elements, and text it was created from, however long it is. All ways to create a signature agree: owned, "
    "shared, statically sized, as a copy, and as a literal. A buffer of a size that does not match the signature never "
    "yields a signature with other elements, and never makes parsing panic or hang.",
    ["inputs"],
    "all byte strings, all ways to create a signature, all buffer sizes",
    "The tests parse a list of short signatures; none exceeds the compact representation and none uses an unusual buffer.",
    ["lib/tmp/src/fmt/dbus/signature.rs", "lib/tmp/src/fmt/dbus/element.rs"],
    [("parser", "lib/tmp/src/fmt/dbus/signature.rs Node8::parse, Node64::parse"),
     ("constructors", "lib/tmp/src/fmt/dbus/signature.rs Sig::parse, Sig::new, Sig::arc, Sig::try_make"),
     ("length", "lib/tmp/src/fmt/dbus/signature.rs Sig::len")],
    "all strings up to 5 (6) over 27 codes, up to 8 (9) over 7 and 6 codes, up to 4 (5) over 27 codes and up to 7 (8) over 7 "
    "codes inside of long signatures, 8 regular shapes of up to 300 (600) repetitions, every byte at every position of 8 "
    "signatures, every buffer of 0 to 259 words for 18 signatures; shapes of up to 65537 repetitions with a problem at the end; "
    "all sequences of up to 5 of 17 parts, and all edits of 12 signatures",
    observe=["tmp::fmt::dbus::Sig"],
)

prop(
    "D02", "A rejected D-Bus signature is reported with its first problem and place",
    "For every byte string that is not a single complete type, the error names the first problem when reading from left "
    "to right and the place it belongs to: the offending element, the innermost open container, the two elements of a "
    "wrong pair, the opening brace of a wrong dictionary, or the end of the first type of a sequence.",
    ["inputs"],
    "all byte strings",
    "The tests only assert that a signature is rejected, not what is reported.",
    ["lib/tmp/src/fmt/dbus/signature.rs"],
    [("errors", "lib/tmp/src/fmt/dbus/signature.rs Error"),
     ("parser", "lib/tmp/src/fmt/dbus/signature.rs Node8::parse, Node64::parse")],
    "the strings of D01 against a reference parser based on a stack; "
    "all sequences of up to 5 of 17 parts, and all edits of 12 signatures",
    observe=["tmp::fmt::dbus::signature::Error"],
)

prop(
    "D03", "Cursors navigate exactly the tree of types a D-Bus signature describes",
    "For every signature and every place in it, including one past the end, moving to the next, previous, following, "
    "contained, or containing element leads where the structure of the type says, or nowhere if there is none. Position "
    "in the container, length of the type, alignment, sub-signature, and remaining iteration match the structure at that "
    "place. Sub-signatures behave like signatures of their own, and the place never exceeds the length of the signature.",
    ["inputs", "histories"],
    "all signatures, all places, all movements",
    "The tests walk a few signatures along one path.",
    ["lib/tmp/src/fmt/dbus/signature.rs"],
    [("navigation", "lib/tmp/src/fmt/dbus/signature.rs Cursor"),
     ("sub-signatures", "lib/tmp/src/fmt/dbus/signature.rs Sig::at"),
     ("alignment", "lib/tmp/src/fmt/dbus/signature.rs Node8::parse")],
    "11402 signatures (all types up to 8 (9) over 2 leaves with maybe types, up to 5 (6) over 7 leaves, all small types "
    "in long signatures); every index up to two past the end as state, every movement as transition, for the whole and "
    "for every sub-signature; places around powers of two in signatures of up to 65537 repetitions",
    observe=["tmp::fmt::dbus::Cursor"],
)

prop(
    "D04", "D-Bus signatures compare, order, and hash like their text",
    "For all pairs of signatures, equality and order are those of their text, and equal signatures have equal hashes, no "
    "matter whether a signature was parsed on its own, copied, or is part of a shorter or longer signature.",
    ["inputs"],
    "all pairs of signatures in all representations",
    "The tests compare a signature with itself in one representation.",
    ["lib/tmp/src/fmt/dbus/signature.rs"],
    [("comparison", "lib/tmp/src/fmt/dbus/signature.rs Eq, Ord, Hash for Sig")],
    "all pairs of 1332 signatures in 3 forms each; all pairs of long signatures that differ in one place",
    observe=["tmp::fmt::dbus::Sig"],
)

prop(
    "D05", "D-Bus encoding yields exactly the bytes of the specification",
    "For every type the encoder supports, every value, and both byte orders, the output equals the D-Bus marshalling "
    "format: natural alignment with zeroed padding, array lengths without the padding in front of the first element, "
    "strings with length and terminator, variants with their type. The output does not depend on how sub-encoders are "
    "used or how the output is mapped, and is appended to what a vector already holds. Data that exceeds a length field "
    "is refused.",
    ["inputs", "histories"],
    "all types, all values, both byte orders, all uses of sub-encoders, all shapes of output maps",
    "The tests encode three messages in little endian to an empty vector.",
    ["lib/tmp/src/fmt/dbus/dvar.rs", "lib/tmp/src/fmt/dbus/ende.rs", "lib/tmp/src/io/map.rs"],
    [("encoder", "lib/tmp/src/fmt/dbus/dvar.rs Enc"),
     ("output", "lib/tmp/src/io/map.rs Write"),
     ("runtime selection", "lib/tmp/src/fmt/dbus/ende.rs Enc")],
    "all types up to length 5 (6) over 7 leaves and 7 (8) over 3 leaves, all values by the first 6 (7) and 3 (5) choices, "
    "5 ways to use sub-encoders, 6 shapes of maps; strings, signatures, variants, and arrays of 0 to 600 and around "
    "all powers of two up to 2^24 bytes; all 16-bit values in both byte orders, nesting of up to 130 levels, strings and "
    "arrays around the limit of 2^32 bytes; "
    "all characters in 4 places and all strings of up to 4 (5) of 12 characters, sub-encoders on all sets of 9 levels and on every single level out of 130",
    observe=["tmp::fmt::dbus::dvar::Enc", "tmp::fmt::dbus::ende::Enc"],
)

prop(
    "D06", "Encoder operations that do not fit or fail have no effect",
    "After any history, an operation that does not match the type is refused, an incomplete message cannot be committed, "
    "and neither changes what is finally written. A sub-encoder that is dropped without commit leaves no trace. If the "
    "output fails at any point, exactly the affected operation fails with that error, it can be repeated, and nothing is "
    "committed before the message is complete.",
    ["histories", "fault_sequences"],
    "all sequences of operations, all points of failure of the output",
    "The tests contain no wrong operation and no failing output.",
    ["lib/tmp/src/fmt/dbus/dvar.rs"],
    [("element checks", "lib/tmp/src/fmt/dbus/dvar.rs Enc::fixed, Enc::close, Enc::commit"),
     ("sub-encoders", "lib/tmp/src/fmt/dbus/dvar.rs Enc::enc, Enc::enc_with")],
    "all sequences of up to 5 (6) out of 18 operations on 20 types; every misfit at every point and every failing output "
    "call and output limit for all encodings of all types up to length 4 (5), and all pairs of failing calls",
    observe=["tmp::fmt::dbus::dvar::Enc"],
)

prop(
    "D07", "D-Bus decoding returns exactly what was encoded",
    "For every type the decoder supports, every value, and both byte orders, decoding an encoded message returns the same "
    "value, and reports correctly after each element whether an array has more. The result does not depend on how "
    "sub-decoders are used or how the input is mapped. Operations that do not fit are refused without any effect, and "
    "after a failing input the affected operation can be repeated.",
    ["inputs", "histories", "fault_sequences"],
    "all types, all values, all uses of sub-decoders, all shapes of input maps, all points of failure",
    "There is no test of the decoder.",
    ["lib/tmp/src/fmt/dbus/dvar.rs", "lib/tmp/src/fmt/dbus/ende.rs", "lib/tmp/src/io/map.rs"],
    [("decoder", "lib/tmp/src/fmt/dbus/dvar.rs Dec"),
     ("input", "lib/tmp/src/io/map.rs Read")],
    "15 (18) types, all values by the first 7 (9) choices, 5 ways to use sub-decoders, 6 shapes of maps, all misfits at "
    "every point, every failing input call; all sequences of up to 5 (6) out of 11 operations on 20 messages; lengths "
    "around powers of two up to 2^24, all 16-bit values, nesting of up to 130 levels, all pairs of failing calls; all trees of empty arrays of up to 4 levels for 20 kinds of elements; "
    "all characters in 4 places and all strings of up to 4 (5) of 12 characters, sub-decoders on all sets of 9 levels and on every single level out of 130",
    observe=["tmp::fmt::dbus::dvar::Dec"],
)

prop(
    "D08", "D-Bus decoding of hostile input is safe and bounded",
    "For every input, decoding neither panics nor hangs, and uses memory in proportion to the size of the input, "
    "regardless of the lengths the input claims. Truncated data and text that is not UTF-8 are reported as errors, and "
    "values are only returned if the input contains them.",
    ["inputs"],
    "all inputs",
    "There is no test of the decoder.",
    ["lib/tmp/src/fmt/dbus/dvar.rs"],
    [("strings", "lib/tmp/src/fmt/dbus/dvar.rs Dec::str8, Dec::str32"),
     ("arrays", "lib/tmp/src/fmt/dbus/dvar.rs Dec::array")],
    "all inputs up to 7 (9) bytes out of 7 values for 12 types in both byte orders; all truncations and changes of one "
    "byte of all messages by the first 5 (6) choices; all 4096 lengths out of 8 byte values; memory measured by a counting "
    "allocator; types of up to 1000 levels, large texts with false lengths",
    observe=["tmp::fmt::dbus::dvar::Dec"],
)

prop(
    "D09", "D-Bus elements have the codes, sizes, and classes of the specifications",
    "For every code, there is an element exactly if the D-Bus or GVariant specification defines one, and code, "
    "identifier, pair, alignment, size, and class of each element are those of the specifications.",
    ["inputs"],
    "all codes, all elements, all combinations of flags",
    "The tests look at the elements in a table that was copied from the code.",
    ["lib/tmp/src/fmt/dbus/element.rs"],
    [("table", "lib/tmp/src/fmt/dbus/element.rs Element")],
    "all 256 codes, all pairs of 20 elements, all pairs of 7 flags",
    observe=["tmp::fmt::dbus::Element"],
)

prop(
    "I01", "Searching a buffered stream finds the first match, however data arrives",
    "For every stream, start offset, limit, and way of arrival, a search visits each byte from the start offset on "
    "exactly once and in order, and ends at the first byte that does not satisfy the predicate, or at the limit. The "
    "returned data is that of the stream and includes that byte, and if data is missing, the request names the size "
    "needed and the search resumes where it was. Mapping a slice returns at least the minimum, or the same request.",
    ["inputs", "schedules"],
    "all streams, start offsets, limits, predicates, kinds of maps, and divisions of the stream into parts",
    "Nothing tests the search; it is used by one tokenizer with complete data only.",
    ["lib/tmp/src/io/stream.rs"],
    [("search", "lib/tmp/src/io/stream.rs read_map_while, dyn Read::map_while"),
     ("slice reader", "lib/tmp/src/io/stream.rs impl Read for &[u8]")],
    "all streams up to 11 (12) bytes that do or do not satisfy the predicate, all start offsets and limits, data arriving "
    "in five ways, three kinds of maps; all offsets, minima, and maxima for slices"
    "; streams of up to 20000 bytes; "
    "all starts behind the end of the stream, near and far; "
    "streams of up to 4 MiB in pieces of 64 KiB",
    observe=["tmp::io::stream::read_map_while", "tmp::io::stream::Read"],
)

prop(
    "I02", "Streamed writes publish exactly the committed bytes",
    "For every sequence of operations on a write buffer, its content is what was committed or written so far, in order, "
    "mapped space is at least the minimum regardless of the hint, and bytes that were initialized but not committed "
    "keep their value. A write either happens completely, or not at all and with a request for the space needed.",
    ["histories"],
    "all sequences of map, initialize, commit, and write operations with all sizes and hints, on all buffers",
    "One test runs one sequence of operations without limits.",
    ["lib/tmp/src/io/stream.rs"],
    [("provided methods", "lib/tmp/src/io/stream.rs Write::map_unchecked, Write::write"),
     ("growing buffer", "lib/tmp/src/io/stream.rs impl Write for Vec<u8>")],
    "all sequences of up to 6 of 14 operations on the growing buffer, and up to 5 on limited buffers of six sizes with "
    "three kinds of maps, compared to a byte array"
    "; all sequences of 4 of 8 operations of sizes around all powers of two up to 2^16 (2^20)"
    "; long periodic histories",
    observe=["tmp::io::stream::Write"],
)

prop(
    "I03", "Mapped reads and writes move exactly the bytes they report",
    "For every shape of maps, limit, and failure, reads and writes transfer the data in order at the given offset, advance "
    "the offset by the number of bytes transferred, and touch no other byte. They succeed exactly if everything was "
    "transferred, forward failures, and report overflows and exceeded limits as such. Alignment pads with zeroes up to "
    "the next multiple.",
    ["histories", "fault_sequences"],
    "all sequences of operations, offsets, lengths, and alignments, all shapes of maps, all limits, all failing calls",
    "Nothing tests these operations; their only users always get maps of the size they ask for.",
    ["lib/tmp/src/io/map.rs"],
    [("reads", "lib/tmp/src/io/map.rs Read::read_uninit, Read::read, impl Read for [u8]"),
     ("writes", "lib/tmp/src/io/map.rs Write::write, write_iter, fill, zero, align_exp2, impl Write for Vec<u8>")],
    "all sequences of up to 5 (6) of 15 operations with six shapes of maps; sequences shorter by one with 24 limits and "
    "every failing call; all 256 alignments at 13 offsets; all ranges of up to 12 (20) bytes"
    "; all sequences of 3 of 9 operations of sizes around all powers of two up to 2^14 (2^18), pairs of 4 operations up to 2^20",
    observe=["tmp::io::map::Read", "tmp::io::map::Write"],
)

prop(
    "T01", "The stream tokenizer splits every text into the JSON tokens it consists of",
    "For every text, the tokens are those of the JSON grammar, in order and with the exact source text, and numbers are "
    "split into sign, integer, fraction, and exponent. Everything that is not a JSON token is reported as the error that "
    "describes it, and no malformed number is returned without an error.",
    ["inputs"],
    "all texts",
    "The tests use about a dozen texts of valid tokens and selected errors.",
    ["lib/tmp/src/fmt/json/token.rs"],
    [("items", "lib/tmp/src/fmt/json/token.rs Dec::advance_none, advance_whitespace, advance_item"),
     ("numbers", "lib/tmp/src/fmt/json/token.rs Dec::advance_number, DecInner::number_done")],
    "all texts of up to 4 (5) of 28 fragments, all texts of up to 7 (8) of 8 characters of numbers, all texts of up to two "
    "bytes, compared to a lexer that sees the whole text; number texts compared to the grammar of JSON numbers"
    "; 16 kinds of runs around all powers of two up to 2^16 (2^18); all edits of one or two bytes of 7 texts",
    observe=["tmp::fmt::json::token::Dec"],
)

prop(
    "T02", "The stream tokenizer decodes every JSON string exactly",
    "For every text in quotation marks, the content is the text with all escape sequences resolved, and the raw data is the "
    "text itself. Control characters, unknown or malformed escapes, and unpaired surrogates are each reported with their "
    "code, and content that is not UTF-8 is returned as error rather than as string.",
    ["inputs"],
    "all texts in quotation marks",
    "The tests use one example of each kind of escape, never two errors in one string, and no control characters.",
    ["lib/tmp/src/fmt/json/token.rs"],
    [("strings", "lib/tmp/src/fmt/json/token.rs Dec::advance_string"),
     ("accumulated content", "lib/tmp/src/fmt/json/token.rs DecInner::string_raw, string_byte, string_char, raise_string")],
    "all strings of up to 5 of 26 fragments with and without closing mark, all escapes of four digits in four places, all "
    "pairs of surrogates in both cases, all bytes at eight places of strings"
    "; 14 kinds of runs around all powers of two up to 2^16 (2^18); all edits of one or two bytes of 8 texts",
    observe=["tmp::fmt::json::token::Dec"],
)

prop(
    "T03", "The tokens of a JSON text do not depend on how the text arrives",
    "For every text and every division of it into parts, the tokens are the same as if the text was available at once, and "
    "each token is returned as soon as the data so far determines it. Requests for more data ask for more than is "
    "available, and no data is skipped or consumed twice.",
    ["inputs", "schedules"],
    "all texts, all divisions into parts, all kinds of maps",
    "All tests provide the whole text at once.",
    ["lib/tmp/src/fmt/json/token.rs", "lib/tmp/src/io/stream.rs"],
    [("resumption", "lib/tmp/src/fmt/json/token.rs Dec::advance_inner, Dec::clear_done")],
    "all texts of up to 5 (6) of 16 fragments with five ways of arrival and three kinds of maps; all texts of up to 6 (7) of 9 "
    "characters with all divisions; after each part the tokens are compared to those of the text so far"
    "; 30 kinds of runs around all powers of two up to 2^13 (2^16)",
    observe=["tmp::fmt::json::token::Dec::pop"],
)

prop(
    "T04", "Signalling the end of a JSON text yields the pending token, once",
    "For every text, signalling its end returns the token that was pending with all of its data, preceded by the errors it "
    "has, and then nothing. If there is data left, this is reported and no data is lost. Afterwards, the next text is "
    "tokenized from scratch.",
    ["inputs", "histories"],
    "all texts, all points at which the end is signalled, all texts that follow",
    "The tests only signal the end when nothing is pending.",
    ["lib/tmp/src/fmt/json/token.rs"],
    [("completion", "lib/tmp/src/fmt/json/token.rs Dec::complete_inner")],
    "all texts of up to 5 of 16 fragments; the end is signalled after every token and after every prefix, followed by the rest; "
    "runs around powers of two, and hundreds of texts by one tokenizer",
    observe=["tmp::fmt::json::token::Dec::complete"],
)

prop(
    "T05", "The JSON stream accepts exactly the JSON grammar",
    "For every sequence of tokens, the items are those of the JSON grammar: containers open and close in order, keys and "
    "values alternate in objects, and separators are required exactly between members. A token that is out of place is "
    "reported as error and otherwise ignored, and nothing may follow the document.",
    ["inputs", "schedules"],
    "all sequences of tokens, arriving at once or in parts",
    "There is no test of the stream.",
    ["lib/tmp/src/fmt/json/stream.rs"],
    [("grammar", "lib/tmp/src/fmt/json/stream.rs DecInner::advance"),
     ("nesting", "lib/tmp/src/fmt/json/stream.rs DecInner::array_open, array_close, object_open, object_close")],
    "all sequences of up to 7 (8) of 8 kinds of tokens, up to 6 (7) of 12, and all nestings 12 (16) levels deep, compared to a "
    "grammar with an explicit stack"
    "; documents of 7 shapes with a depth or width up to 4097 (16385)"
    "; all sequences of up to 4 (5) of 8 kinds of tokens on 16 depths of up to 513 levels",
    observe=["tmp::fmt::json::stream::Dec"],
)

# Foreign data

prop(
    "F01", "Integers of fixed byte order store, compare, and display like plain ones",
    "For every integer type and value, the memory of its big-endian and little-endian form is the value in that byte order, "
    "and converting back yields the value. Comparison, order, hash, and displayed text are those of the plain integer.",
    ["inputs"],
    "all integer types, all values, all pairs of values",
    "The tests convert one constant per type and compare a value to itself.",
    ["lib/osi/src/ffi/endian.rs"],
    [("conversions", "lib/osi/src/ffi/endian.rs BigEndian, LittleEndian, NativeEndian implementations"),
     ("order", "lib/osi/src/ffi/endian.rs Ord and PartialOrd implementations")],
    "all values of 1 and 2 bytes and all pairs of them; for larger integers all combinations of selected bytes"
    "; all pairs of 9 floats and values of 12 sizes of up to 33 bytes as types defined by the caller",
    observe=["osi::ffi::BigEndian", "osi::ffi::LittleEndian"],
)

prop(
    "F02", "Aligned and packed values have exactly the layout asked for",
    "For every value type and alignment, an integer or wrapped value has the size and alignment that was asked for, stores "
    "the value without any other byte being changed, and returns it unmodified. Wrapped values are dropped exactly once, "
    "under any history of replacing, taking, and unwrapping them.",
    ["inputs", "histories"],
    "all value types, byte orders, and alignments; all histories of operations on wrapped values",
    "The tests look at few combinations of type and alignment, and never at values that have to be dropped.",
    ["lib/osi/src/align.rs", "lib/osi/src/ffi/integer.rs", "lib/osi/src/ffi/packed.rs"],
    [("alignment markers", "lib/osi/src/align.rs AlignAs, AlignOf, Aligned"),
     ("integers", "lib/osi/src/ffi/integer.rs Integer"),
     ("packed values", "lib/osi/src/ffi/packed.rs Packed")],
    "24 integer types, native and in both byte orders, with 8 alignments; all histories of up to 7 (9) of 6 operations"
    "; floats with 3 alignments and packed; "
    "all histories of up to 5 operations on values of 0 bytes to 4 KiB and of alignments up to 256",
    observe=["osi::ffi::Integer", "osi::ffi::Packed", "osi::align::Aligned"],
)

prop(
    "F03", "Pointers of any address width keep their address and compare by it",
    "For every address, pointers return the address they were made of and are of the layout of the address. They compare, "
    "order, hash, and display like the address, independent of what they point to, and pointers to native memory lead "
    "to exactly that memory.",
    ["inputs"],
    "all addresses, address types, target types, and pairs of pointers",
    "The tests use a single address.",
    ["lib/osi/src/ffi/pointer.rs"],
    [("pointers", "lib/osi/src/ffi/pointer.rs Pointer, NativeAddress"),
     ("casts", "lib/osi/src/ffi/pointer.rs Pointer::cast, as_ref, as_mut")],
    "all pairs of selected addresses with 8 address types and 6 target types; all elements of a buffer",
    observe=["osi::ffi::Pointer"],
)

prop(
    "F04", "Types of each supported ABI have the size and alignment of that ABI",
    "For every supported platform, integers, floating-point numbers, addresses, and pointers have the size, alignment, and "
    "byte order that platform defines. Structures of them have the layout a C compiler of that platform uses, and the "
    "native platform is that of the machine.",
    ["inputs", "configurations"],
    "all platforms, all types, all structures of those types, all values",
    "The tests compare the sizes of the native platform only.",
    ["lib/osi/src/ffi/abi.rs"],
    [("platform types", "lib/osi/src/ffi/abi.rs abi modules")],
    "all 16 types of 4 platforms, all structures of a byte and two members of those types compared to a layout algorithm, all "
    "selected values",
    observe=["osi::ffi::abi"],
)

# Memory and types

prop(
    "M01", "Raw memory helpers move exactly the bytes asked for",
    "For every size, alignment, and content, a value copied to another type holds exactly the bytes both have in common, a "
    "byte-swapped value holds its bytes in reverse, and a value viewed as bytes or as uninitialized memory is that same "
    "memory. Comparing memory of any two types tells whether the bytes are the same, and offsets of members are right.",
    ["inputs"],
    "all sizes, alignments, and contents",
    "The tests use few integers of one size.",
    ["lib/osi/src/mem.rs"],
    [("copies", "lib/osi/src/mem.rs transmute_copy_uninit, bswap_copy"),
     ("views", "lib/osi/src/mem.rs as_bytes, as_uninit, assume_init and variants"),
     ("comparison", "lib/osi/src/mem.rs eq"),
     ("offsets", "lib/osi/src/mem.rs typed_offset_of")],
    "all pairs of 24 sizes with 3 alignments each, all sizes up to 40, all patterns with one byte that differs, compared to "
    "plain loops over bytes"
    "; memory of up to 65537 bytes with one byte that differs; "
    "slices around all powers of two up to 2^20 elements of 8 types, and values without size",
    observe=["osi::mem"],
)

prop(
    "M02", "Pointers with flags keep flags and address apart under any history",
    "A pointer with flags exists exactly for addresses that are multiples of four. Under any history of setting flags and "
    "replacing the address, each flag and the address read back as last set, independent of each other, and the length of "
    "slices is kept. Conversions between kinds of pointers keep the address and the target.",
    ["inputs", "histories"],
    "all addresses, all histories of operations",
    "The tests use one pointer and a single conversion each.",
    ["lib/osi/src/ptr.rs", "lib/osi/src/pin.rs"],
    [("pointers with flags", "lib/osi/src/ptr.rs NonNull4"),
     ("conversions", "lib/osi/src/ptr.rs Ptr, OnceRef, lib/osi/src/pin.rs")],
    "all addresses with all low bits around powers of two; all histories of up to 5 (6) of 17 operations; "
    "41 conversions on 24 types of values, slices of up to 65537 elements, strings, and trait objects; "
    "all pairs of addresses around powers of two with all flags",
    observe=["osi::ptr::NonNull4", "osi::pin"],
)

prop(
    "M03", "Maybe-owned values behave like the value, whether owned or not",
    "For every value, its borrowed and its owned form compare, order, and hash the same as the value, in every "
    "combination. Cloning or converting either keeps the value, and tells whether it was owned.",
    ["inputs"],
    "all values, all combinations of owned and borrowed",
    "The tests use two strings.",
    ["lib/osi/src/mown.rs"],
    [("maybe-owned values", "lib/osi/src/mown.rs Mown")],
    "all pairs of strings of up to 4 of 3 characters in all combinations; slices, and values without total order"
    "; strings of up to 8193 bytes that differ in one position or in length"
    "; values without total order compared to themselves; "
    "all histories of up to 6 clones, moves, and drops of 5 kinds of values",
    observe=["osi::mown::Mown"],
)

prop(
    "M04", "Turning smart pointers into raw ones and back loses no reference",
    "Under every history of taking smart pointers apart, restoring, cloning, and dropping them, the value is dropped "
    "exactly once when its last reference goes away, and every pointer leads to it. References compare, order, and hash "
    "by identity exactly if asked to, whatever their values.",
    ["histories", "inputs"],
    "all histories of operations on pointers, all pairs of references",
    "The tests convert a pointer once, without counting references.",
    ["lib/osi/src/convert.rs", "lib/osi/src/cmp.rs"],
    [("conversion", "lib/osi/src/convert.rs IntoDeref, FromDeref"),
     ("identity", "lib/osi/src/cmp.rs Identity")],
    "all histories of up to 8 (10) of 5 operations on two kinds of counted pointers, with a model of the reference count; all "
    "pairs of 24 references of 6 kinds"
    "; all ranges of 7 elements and values without size; histories of up to 4 operations repeated up to 300 times; "
    "all histories of up to 8 of 7 operations including weak references",
    observe=["osi::convert", "osi::cmp::Identity"],
)

prop(
    "M05", "Accessing a member by its description reaches exactly that member",
    "For every structure, member, and content, the pointer obtained from the description of a member is that of the member, "
    "and the way back leads to the structure. Reads and writes through it affect only this member.",
    ["inputs"],
    "all structures, members, and contents",
    "The tests use one structure with one member.",
    ["lib/osi/src/meta.rs"],
    [("member descriptions", "lib/osi/src/meta.rs Field, field_of, field_of_mut, field_of_ptr, container_of_ptr")],
    "all members of 4 structures of different layout, in all elements of an array, 256 contents"
    "; 7 structures with members up to 16 MiB apart; "
    "addresses of members up to 2^40 bytes apart",
    observe=["osi::meta"],
)

prop(
    "E01", "Opaque errors print and chain exactly like the error they carry",
    "For every error and every way to make it opaque, the output names the kind and consists of the output of the original "
    "error, and the chain of causes is that of the original error. Failing output is reported, and the error is "
    "dropped exactly once.",
    ["inputs", "fault_sequences"],
    "all kinds of errors and ways to carry them, all places at which output fails",
    "The tests print few of the combinations, and never to an output that fails.",
    ["lib/osi/src/error.rs"],
    [("opaque errors", "lib/osi/src/error.rs Uncaught")],
    "12 ways to create an error with 6 texts or chains of up to 5 causes; all chains of up to 4 ways to carry an error; texts "
    "of 103 sizes up to 128 KiB; output that fails at all places; "
    "all characters in 4 places and all texts of up to 4 (5) of 12 characters, for all ways to carry an error",
    observe=["osi::error::Uncaught"],
)

prop(
    "E02", "Without the standard library, opaque errors print what the error displays",
    "In a build without the standard library, for every error and every way to make it opaque, nested to any depth, the "
    "output names the kind and consists of the output of the original error, where errors are shown as displayed. Failing output "
    "is reported, and the original error is dropped along with the opaque one.",
    ["inputs", "configurations", "fault_sequences"],
    "all chains of ways to carry an error, all texts and their sizes, all places at which output fails",
    "The tests print a single error in this configuration, never nested, and never to an output that fails.",
    ["lib/osi/src/error.rs"],
    [("opaque errors", "lib/osi/src/error.rs Uncaught")],
    "all chains of up to 4 out of 12 ways to carry an error, with output that fails at all places; texts of 103 sizes up to "
    "128 KiB; errors that only display, or that fail to; all on a separate build without the standard library; "
    "all characters in 4 places and all texts of up to 4 (5) of 12 characters, for all ways to carry an error",
    observe=["osi::error::Uncaught"],
)

prop(
    "C01", "Writing to a stream delivers every byte in order, or reports the failure",
    "For every sequence of partial writes, interruptions, and failures of the stream, exactly the bytes that were accepted "
    "are written, in order and once. Any failure is reported, including that of a stream that accepts nothing, and "
    "strings of the operating system convert to text exactly if they are UTF-8.",
    ["fault_sequences", "inputs"],
    "all results of the stream, all texts",
    "The tests only write to memory, which never fails.",
    ["lib/osi/src/compat.rs"],
    [("writers", "lib/osi/src/compat.rs Write"),
     ("strings", "lib/osi/src/compat.rs OsStr")],
    "all scripts of up to 5 (6) of 6 results with all pairs of 5 texts, written directly and formatted; all strings of up to 4 "
    "of 20 bytes"
    "; texts of up to 131073 bytes in pieces of 9 sizes, interrupted, or failing half way; "
    "all strings of 2 bytes, with a third byte out of 66, and all characters in 4 places",
    observe=["osi::compat"],
)

prop(
    "V01", "Types relate under lifetimes exactly as the variance of their markers says",
    "For every nesting of the provided markers and pointers, a type with a longer lifetime converts to one with a shorter "
    "lifetime exactly if the nesting is covariant, and the reverse exactly if it is contravariant. "
    "Invariant types convert in neither direction.",
    ["programs"],
    "all types built from the markers and pointers, both directions",
    "A test can only contain conversions that compile; that others are rejected cannot be tested by a test that must build.",
    ["lib/osi/src/marker.rs", "lib/osi/src/test.rs", "lib/osi/src/ptr.rs", "lib/osi/src/align.rs"],
    [("markers", "lib/osi/src/marker.rs"), ("test types", "lib/osi/src/test.rs")],
    "all types nested up to 2 (3) levels around all types with a lifetime, in both directions; each is a program that the "
    "compiler accepts or rejects, compared to the product of variances",
    technique="bounded exhaustive enumeration of programs, each decided by the compiler against a reference model",
    observe=["result of compiling a program that uses the crate"],
)

prop(
    "V02", "Wrapper types are shareable and copyable exactly if their content is",
    "For every nesting of the provided types, the result can be sent to or shared with other threads, copied, and cloned "
    "exactly if its content and purpose allow it.",
    ["programs"],
    "all types built from the provided types and content types, all of those traits",
    "A test can only contain programs that compile.",
    ["lib/osi/src/marker.rs", "lib/osi/src/ptr.rs", "lib/osi/src/ffi/pointer.rs", "lib/osi/src/mown.rs", "lib/osi/src/cmp.rs"],
    [("markers", "lib/osi/src/marker.rs"), ("pointers", "lib/osi/src/ptr.rs")],
    "all types nested up to 2 (3) levels of all constructors around all content types, and 4 traits",
    technique="bounded exhaustive enumeration of programs, each decided by the compiler against a reference model",
    observe=["result of compiling a program that uses the crate"],
)

prop(
    "V03", "Borrow rules of unique references and brands reject every unsound program",
    "Every program that keeps a reference derived from a unique reference while it is used otherwise is rejected, and "
    "every program that does not is accepted. Brands of different scopes are never accepted in place of each "
    "other, and never outlive their scope.",
    ["programs"],
    "all programs of statements on a unique reference, all ways to combine brands",
    "A test can only contain programs that compile.",
    ["lib/osi/src/brand.rs", "lib/osi/src/ptr.rs"],
    [("unique references", "lib/osi/src/ptr.rs OnceRef"), ("brands", "lib/osi/src/brand.rs")],
    "all programs of up to 4 (5) of 8 statements; all pairs of brands in up to 4 nested scopes with all ways to combine them, "
    "compared to an analysis of liveness",
    technique="bounded exhaustive enumeration of programs, each decided by the compiler against a reference model",
    observe=["result of compiling a program that uses the crate"],
)

prop(
    "V04", "The never type and forced coercions stand for what the compiler would do",
    "The never type has no values and no size, and is accepted in place of every other type, so a result that cannot fail needs no "
    "handling. A forced coercion evaluates its expression exactly once and yields the very same value, including a borrow that "
    "lasts longer than the compiler can tell, and is rejected outside of unsafe code and for expressions of another type.",
    ["programs", "configurations"],
    "all types, all ways to use the never type and the coercion, with coercions forced and checked",
    "The tests use one type each, and a test can only contain programs that compile.",
    ["lib/osi/src/never.rs", "lib/osi/src/polonius.rs", "lib/osi/src/marker.rs"],
    [("never type", "lib/osi/src/never.rs Never"), ("coercion", "lib/osi/src/polonius.rs coerce_unsafe")],
    "all types of up to 2 (3) layers of 6 constructors over 6 types, in 8 programs with the never type, 8 with forced coercions, 7 with "
    "checked coercions, and 7 that must be rejected; the programs are compiled and run",
    technique="bounded exhaustive enumeration of programs, each decided by the compiler, and run, against a reference model",
    observe=["result of compiling a program that uses the crate", "output of a program that uses the crate"],
)

prop(
    "X01", "Conditional code selects exactly the first branch whose condition holds",
    "For every list of conditions, exactly the code of the first that holds is compiled, or that of the alternative if there "
    "is one and none holds. Code of other branches is not compiled.",
    ["programs", "configurations"],
    "all lists of conditions, with and without alternative, as items and statements",
    "The tests use three lists.",
    ["lib/osi/src/cfg.rs"],
    [("conditions", "lib/osi/src/cfg.rs cond")],
    "all lists of 1 to 4 (5) of 5 conditions, and of 1 to 3 (4) conditions with and without code in each branch; the programs are compiled and run",
    technique="bounded exhaustive enumeration of programs, each compiled and run against a reference model",
    observe=["output of a program that uses the crate"],
)

# Binary formats

prop(
    "B01", "ELF definitions match the specification byte by byte",
    "In both the 32-bit and the 64-bit format, every structure has the size of the specification, every field is at its "
    "place, and setting a field changes its bytes only. Every constant has the number it is assigned by the "
    "specifications, and executables of this machine can be read with the definitions.",
    ["inputs"],
    "all structures, fields, contents, and constants",
    "There are no tests of the definitions.",
    ["lib/sys/src/ffi/elf.rs"],
    [("structures", "lib/sys/src/ffi/elf.rs define_format"), ("constants", "lib/sys/src/ffi/elf.rs")],
    "all 563 constants; all bytes of all structures with all values on 4 patterns; the executable of the check",
    observe=["sys::ffi::elf"],
)

prop(
    "B02", "Error codes have their numbers on every platform",
    "On every platform, each error code has the number that the kernel uses for it there, and different codes have different "
    "numbers, except for the two that are documented to be the same.",
    ["inputs", "configurations"],
    "all error codes, platforms, and pairs of codes",
    "The tests compare the platform of the machine only.",
    ["lib/sys/src/ffi/linux/common/errno.rs", "lib/sys/src/ffi/linux/mod.rs", "lib/sys/src/ffi/linux/libc/errno.rs"],
    [("codes", "lib/sys/src/ffi/linux/common/errno.rs"), ("platforms", "lib/sys/src/ffi/linux/mod.rs impl_platform")],
    "all 133 codes on 6 platforms, all pairs of them, and some errors of the kernel of this machine",
    observe=["sys::ffi::linux"],
)

prop(
    "B03", "PE/COFF definitions match the specification byte by byte",
    "Every structure of both formats has the size of the specification, every field is at its place and little-endian, and "
    "setting a field changes its bytes only. Every constant has the number the specification assigns.",
    ["inputs"],
    "all structures, fields, contents, and constants",
    "The tests look at the sizes of the structures only.",
    ["lib/tmp/src/pecoff.rs"],
    [("structures", "lib/tmp/src/pecoff.rs Header, OptionalHeader, SectionHeader"), ("constants", "lib/tmp/src/pecoff.rs")],
    "all 120 constants; all bytes of all structures with all values on 4 patterns",
    observe=["tmp::pecoff"],
)

prop(
    "B04", "MS-DOS headers and checksum are exact, and the stub runs anywhere",
    "Every field of the headers is at its place, and the checksum of any data is the sum of its little-endian words, with an "
    "odd byte being the low half of a word. The stub program prints its message and exits with code 1 wherever it is "
    "loaded, its own checksum is right, and it leads to data that is appended to it.",
    ["inputs", "programs"],
    "all data, all header contents, all places the stub is loaded at",
    "The tests compare the headers of the stub and four sums, and do not run the stub.",
    ["lib/tmp/src/msdosmz.rs"],
    [("checksum", "lib/tmp/src/msdosmz.rs sum16"), ("headers", "lib/tmp/src/msdosmz.rs Header, HeaderExt, Relocation"),
     ("stub", "lib/tmp/src/msdosmz.rs STUB_X86")],
    "all data of up to 2 bytes and up to 7 (8) of 7 bytes, all sizes to 4095; all bytes of all structures with all values; the stub "
    "in an interpreter at all segments",
    observe=["tmp::msdosmz"],
)

prop(
    "U01", "The query of the manifests yields the versions and exactly the allowed lints",
    "For every workspace, the query prints the version of each of the three packages on a line of its own, followed by a line "
    "with every lint of the compiler or of clippy that the workspace allows, each exactly once and by the name that the compiler "
    "knows it by. No lint with any other level is printed, no matter how the manifest spells its configuration.",
    ["inputs", "configurations"],
    "all levels and spellings of lints of both groups, all combinations of versions, with the directory given or implied",
    "The query is only ever run on the manifests of the repository itself, by the build system, and has no tests.",
    ["lib/util/cargo-query.py"],
    [("allowed lints", "lib/util/cargo-query.py toml_lints"), ("versions", "lib/util/cargo-query.py toml_version")],
    "all configurations of 2 lints in each of 2 groups with 9 levels and spellings; 64 combinations of versions with the "
    "directory given or implied; up to 1000 lints; the real script runs on every workspace, written to a scratch directory; "
    "all permutations of 3 out of 11 names",
    observe=["standard output of lib/util/cargo-query.py"],
)
