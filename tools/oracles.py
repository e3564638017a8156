ORACLES = {
    "H01": "a second implementation of FIPS 180-4 that hashes the whole message at once, with a model of the state "
           "(bytes since the last reset) for histories.",
    "H02": "RFC 2104 spelled out over the reference digest of H01.",
    "H03": "an engine that keeps all data, and RFC 2104 spelled out over its digest.",
    "R01": "the published recurrences; for jumps, the step of Xoshiro256++ as a 256x256 matrix over GF(2), squared 128 "
           "and 192 times, so that the oracle does not contain the jump polynomials.",
    "S01": "the axioms of a total order (checked on all triples via inclusion of the rows of the comparison matrix), "
           "and a comparison of digit runs as arbitrarily long numbers.",
    "S02": "a filter over characters by the Unicode properties of the standard library.",
    "J01": "a tokenizer that sees the whole text and follows RFC 8259 plus the documented recovery; the spelling "
           "clause needs no model at all.",
    "J02": "the same text given in one push to a fresh tokenizer.",
    "J03": "a decoder of string literals that works on the whole literal.",
    "J04": "a recursive-descent parser of the number grammar with the two deviations.",
    "A01": "a resolver that works on sets of paths rather than on sorted trees.",
    "A02": "the same resolver with flag tables per path.",
    "A03": "the same resolver; a stop at report n must yield exactly the first n reports.",
    "A04": "a fold over the sequence of uses for each target type.",
    "A05": "sorted vectors of paths.",
    "A06": "a renderer over the sets of the layout; a failing writer must see a prefix of the output.",
    "D01": "a recursive-descent parser of the signature grammar with its nesting and length rules.",
    "D02": "a left-to-right parser with an explicit stack that returns the first problem.",
    "D03": "a tree of the type; all movements are answered from the tree.",
    "D04": "comparison of the texts.",
    "D05": "a marshaller over value trees, written from the D-Bus specification.",
    "D06": "the encoding without the refused or failed operations, and a model of which operations fit.",
    "D07": "the value tree the message was made of.",
    "D08": "no panic, no hang, a bound on memory by a counting allocator, and a decoder of the specification that "
           "decides whether the input contains the value.",
    "D09": "tables from the D-Bus and GVariant specifications.",
    "I01": "positions computed from the whole stream.",
    "I02": "a byte array and the number of committed bytes.",
    "I03": "a byte array, the offset, and the script of the maps.",
    "T01": "a lexer that sees the whole text.",
    "T02": "a decoder that sees the whole literal.",
    "T03": "the tokens of the text available so far, for each prefix.",
    "T04": "the tokens of the text cut at the place where the end is signalled.",
    "T05": "a push-down automaton of the JSON grammar.",
    "F01": "bytes of the value by shifting; the plain integer for comparison and output.",
    "F02": "the requested layout; a counter of live values for histories.",
    "F03": "the address as plain integer.",
    "F04": "tables of the platform ABIs and the layout rules of C.",
    "M01": "loops over bytes.",
    "M02": "the pair of address and flags.",
    "M03": "the plain value.",
    "M04": "a model of the reference count, a counter of live values, and addresses and lengths for identity.",
    "M05": "`offset_of!` and direct access to the member.",
    "E02": "the output of the original error, wrapped once per way it is carried.",
    "U01": "the configuration that the manifest was generated from.",
    "E01": "the output and the chain of the original error.",
    "C01": "the script of the stream: the accepted bytes, or the failure.",
    "V01": "the product of the variances along the nesting.",
    "V02": "a table of bounds per constructor, applied along the nesting.",
    "V03": "a liveness analysis of the statements, and the identity of brand scopes.",
    "V04": "the same expression without the coercion, and the rules of the never type of the compiler.",
    "X01": "the first condition that holds.",
    "B01": "tables and offsets (see below for their origin).",
    "B02": "a table of the system headers.",
    "B03": "tables and offsets (see below for their origin).",
    "B04": "a sum over bytes; an interpreter of the instructions the stub may use, which loads it like DOS does.",
}

MISSED = {
    "j03-trail-hex": "missed at first; surrogate continuations are now enumerated in all spellings",
    "f04-x86-isize": "missed at first, as the check did not compile; conversions are now resolved per type",
    "t02-trail-case": "would have been missed at first; surrogate pairs in upper case and all edits of some texts were added",
    "j03-digit-g": "would have been missed at first; all edits of some texts were added",
    "a01-depth": "missed at first; deep commands which differ in one layer were added",
    "a03-stripped-name": "missed at first; all arguments that are made of up to 6 parts were added",
    "b04-sum-pages": "missed at first; data of up to 4 MiB was added",
    "d01-stale-tail": "would have been missed at first; the memory is now parsed into twice with different content",
    "m01-over-read": "would have been missed at first; the values are now also placed next to memory that cannot be accessed",
    "m04-identity-value": "missed at first; ranges and values without size were added",
    "m05-container": "missed at first; members up to 16 MiB into a structure were added",
    "m05-mut": "missed at first; single bytes at all offsets were added",
    "s01-surrogates": "missed at first; all characters next to the limits of all encodings were added",
    "x01-empty": "missed at first; branches without code were added",
    "b03-wide-order": "missed at first, as the check did not compile; numbers of any order and alignment are now accepted by the check",
    "v04-copy": "missed at first, as the program that is run died; this is now a violation",
    "a01-slash": "missed at first; all edits of some lists were added",
    "a02-trim": "missed at first; all edits of some lists were added",
    "m03-same": "missed at first; values compared to themselves were added",
    "s01-dense": "missed at first; the order of numbers of the same value is now part of the property",
    "t05-depth": "missed at first; sequences of tokens on deep levels were added",
    "d07-pad-empty": "missed at first; trees of empty arrays were added",
    "d07-trim-nul": "missed at first; all characters and all short strings of 12 characters were added",
    "d01-long-key": "missed at first; all sequences of parts of signatures were added",
    "m01-slice-1m": "missed at first; slices around all powers of two up to 2^20 were added",
    "m04-weak": "missed at first; weak references were added",
    "c01-bom": "missed at first; all characters were added",
    "m02-pin-size": "missed at first; more types of values were added",
    "a04-bom": "would have been missed at first; all characters were added",
    "a06-empty-text": "would have been missed at first; all combinations of missing, empty, and given texts were added",
    "f02-take-aligned": "would have been missed at first; values of larger alignment were added",
    "m03-clone-empty": "would have been missed at first; values without size were added",
    "d07-sub-order": "would have been missed at first; sub-decoders on all sets of levels were added",
    "e01-trim": "would have been missed at first; all characters were added",
    "m02-low-page": "would have been missed at first; all pairs of addresses were added",
    "i01-megabyte": "would have been missed at first; streams of more than a megabyte were added",
    "a02-far-parent": "would have been missed at first; flags of commands with many others below were added",
    "a05-gap": "would have been missed at first; gaps between layers were added",
    "m05-wide": "would have been missed at first; members up to 2^40 bytes apart were added",
}
