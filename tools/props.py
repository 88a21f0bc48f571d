"""Single source of /verif/properties.jsonl.

Run `python3 tools/props.py` to regenerate properties.jsonl.
"""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

ARGS = "lib/osi/src/args"

# --- command-line parser ----------------------------------------------------

prop("C01", "Command-line parsing selects exactly the command the words name",
     "For every set of registered command paths and every argument list, the parser selects the command whose full path equals the longest run of leading command words that still extends to some registered path, and reports that no command was selected when that run is not itself a registered path. The result is the position of that command in the sorted command set and does not depend on the order in which commands were registered. Flags and flag values between the words do not change the selection, and words after `--` or after the first plain argument never do.",
     ["inputs", "configurations"],
     "all command trees (including trees without a root command, with undefined intermediate levels, and with sibling names that are prefixes of each other) x all argument vectors mixing words, flags, values, `-`, `--` and non-UTF-8 bytes",
     "The suite parses a handful of fixed argument vectors against two fixed schemas; the guarantee quantifies over all schemas and all interleavings of words and flags.",
     [f"{ARGS}/parse.rs", f"{ARGS}/layout.rs"],
     [("cursor enter/command/up navigation over the sorted path set", f"{ARGS}/layout.rs"),
      ("argument classification loop", f"{ARGS}/parse.rs")],
     ["return value of the parse call", "which command collector receives parameters"])

prop("C02", "Every flag occurrence reaches the nearest owner with its exact value",
     "A `--name`, `--no-name`, `--name=value` or `--name value` argument is delivered exactly once, in argument order and with its value bytes unchanged, to the flag of that name defined by the deepest selected command at that point of the argument list, falling back to that command's defined ancestors. A name that matches a flag exactly wins over reading it as a `no-` negation, and a value-taking flag consumes exactly one following argument verbatim (whatever it looks like) only when no `=` is present. Flags of commands that were not selected never see any argument, and argument text after `--` is never treated as a flag.",
     ["inputs", "configurations"],
     "all flag sets per command (shadowed names, names starting with `no-`, empty names, all three modes) x all argument vectors x all value byte strings including empty and non-UTF-8",
     "Unit tests cover one flag per mode on a single command; shadowing across command levels, `no-` precedence and values that look like options are only reached by combinations.",
     [f"{ARGS}/parse.rs", f"{ARGS}/layout.rs"],
     [("flag lookup walking up defined commands", f"{ARGS}/parse.rs"),
      ("three-mode dispatch with optional inline value", f"{ARGS}/parse.rs")],
     ["flag collector callbacks"])

prop("C03", "Positional arguments are delivered in order, once, and terminated once",
     "Every argument that is neither a recognised command word, nor an option, nor a consumed option value is delivered verbatim and in order to the selected command, exactly once; everything after `--` is delivered this way regardless of its form, while the `--` itself is not. After the last argument the selected command receives exactly one end-of-parameters notification and no other command receives any. When no command is selected each such argument is instead reported as unexpected.",
     ["inputs", "configurations"],
     "all schemas x all argument vectors (words that equal command names after the first plain argument, `-`, empty strings, option-looking text after `--`, non-UTF-8)",
     "The tests check one or two parameters on one command; order, completeness and the single terminator are statements over every argument list.",
     [f"{ARGS}/parse.rs"],
     [("commands/flags finalized state and parameter forwarding", f"{ARGS}/parse.rs")],
     ["command collector callbacks", "error reports"])

prop("C04", "Each command-line mistake is reported once, in order, without losing the rest",
     "Parsing an argument list yields exactly one diagnostic per mistake (unknown option, unknown short options, value given to a flag that takes none, negation of a flag that cannot be negated, missing value, parameter without a command), in argument order and carrying the offending text, and every other argument is still processed as if the mistake were not there. When a collector or the error sink asks to stop, parsing ends immediately with the stop value it gave and no further collector is called.",
     ["inputs", "configurations", "fault_sequences"],
     "all schemas x all argument vectors with any mix of mistakes x every possible position at which a collector or the error sink requests a stop",
     "Existing tests look at single mistakes in isolation; recovery after one mistake and stop requests at an arbitrary callback are never exercised together.",
     [f"{ARGS}/parse.rs", f"{ARGS}/report.rs"],
     [("error reporting through the parser report and continue/break flow", f"{ARGS}/parse.rs")],
     ["error sink callbacks", "return value of the parse call"])

prop("C05", "Help output lists exactly the flags and sub-commands of the asked command",
     "When help is requested for a command, the generated help contains the general information, the usage of that command's path, every flag of that command in name order with its mode and description, and every direct sub-command in path order with its description, with a column width equal to the longest listed name; empty sections are omitted. When help was not requested (or was un-requested) nothing is written and this is reported. A write failure at any point stops the output and is returned.",
     ["inputs", "configurations", "fault_sequences"],
     "all schemas (unicode names, no flags, no children, deeper descendants only) x help requested at any level x any position of a write failure",
     "The suite renders help for one fixed schema; completeness, order and the width rule are claims for every schema.",
     [f"{ARGS}/help.rs", f"{ARGS}/layout.rs"],
     [("help flag records the current command", f"{ARGS}/help.rs"),
      ("section writers", f"{ARGS}/help.rs"),
      ("iteration of descendants", f"{ARGS}/layout.rs")],
     ["text and callbacks received by the help writer"])

prop("C06", "Built-in argument collectors hold exactly what was given",
     "The ready-made collectors for flags and parameters (presence, boolean, text, raw OS text, optional and list forms, and shared cells around them) end up holding exactly the values given on the command line: the last one for scalars, all of them in order for lists, absent/empty when never given, and true/false according to the last plain or negated use. Input that is not valid UTF-8 leaves a text collector unchanged and is reported as such, while raw collectors keep it byte for byte.",
     ["inputs", "histories"],
     "all collector types x all sequences of set / negate / value / parameter events x all byte strings",
     "Tests store one value into each collector; last-wins, ordering, and the untouched-on-error rule are statements over sequences.",
     [f"{ARGS}/report.rs"],
     [("collector implementations for standard types", f"{ARGS}/report.rs")],
     ["final contents of the collectors", "error reports"])

# --- streaming JSON tokenizer (osi) ------------------------------------------

JT = "lib/osi/src/json/token.rs"
prop("C07", "Well-formed JSON text is split into exactly its tokens with exact values",
     "For every RFC 8259 conforming text, the streaming tokenizer reports no error and exactly the tokens of the text in order, where whitespace runs, numbers and strings carry their source text, numbers carry the exact integer, fraction and exponent digits and signs, and strings carry the fully unescaped characters (including surrogate pairs). Concatenating the source text of all tokens reproduces the input.",
     ["inputs"],
     "all JSON texts: nesting, numbers of any length and shape, strings with any scalar value and any escape, any whitespace, multiple values",
     "The suite lists about fifty literal inputs; digit splitting, escapes and unicode ranges are infinite domains.",
     [JT],
     [("per-character state machine with token accumulators", JT)],
     ["reported tokens and errors"])

prop("C08", "Splitting JSON input differently never changes the tokens reported",
     "Feeding the same characters to the streaming tokenizer as one text, as any sequence of pieces, one character at a time, or via the one-shot call yields the identical sequence of tokens and errors, and the busy/idle status after each character depends only on the characters fed so far. The owned copy of a reported token or error always equals the original.",
     ["inputs", "histories"],
     "all character sequences (valid or not) x all ways to split them into pushes, including empty pieces and splits inside escapes, surrogate pairs, numbers and comments",
     "Tests push whole strings; the number of split points is exponential.",
     [JT],
     [("state kept between pushes", JT)],
     ["reported tokens and errors", "status query"])

prop("C09", "Malformed JSON is diagnosed precisely and tokenizing continues after it",
     "For every character sequence, the streaming tokenizer terminates without failing, reports each deviation from the JSON grammar (stray characters, unknown words, incomplete numbers, bad or unpaired escapes, control characters in strings, unterminated strings, comments, disallowed leading zeroes or plus signs) with the matching diagnostic, and resumes at the next possible token so that all later well-formed tokens are still reported with their exact values. The two leniency options suppress only their own diagnostic and change no token value.",
     ["inputs", "configurations"],
     "all sequences of unicode scalar values x all four option combinations",
     "Only a few malformed literals are tested; recovery depends on the combination of the broken piece and what follows it.",
     [JT],
     [("error paths of the state machine and keyword collection", JT)],
     ["reported tokens and errors"])

prop("C10", "A tokenizer reset, finished or stopped mid-way behaves like a fresh one",
     "After an explicit reset, after end-of-input was signalled, or after a receiver stopped the run at any report, the tokenizer is idle and processes any following input exactly as a newly created one with the same options would; a stop takes effect at the report that requested it, is returned unchanged to the caller, and no later report is made. A clone taken mid-token continues identically to the original.",
     ["inputs", "histories", "fault_sequences"],
     "all first inputs x every stop/reset/end position in them x all second inputs x option combinations",
     "Tests never interrupt a token; leftover accumulator or state bugs only show up in the next input.",
     [JT],
     [("prepare/reset clearing all accumulators and state", JT), ("break propagation", JT)],
     ["reported tokens and errors", "status query"])

# --- hashing -------------------------------------------------------------------

prop("C11", "SHA-256 digests are correct for every message, split and reuse",
     "For every message and every way of feeding it (one shot, any sequence of pieces, runs of zero bytes via the dedicated operation, interleaved resets or reuse after finishing), the digest equals the FIPS 180-4 SHA-256 of the concatenated data, and the hexadecimal form is its 64 lowercase digits. An engine is reported as reset exactly when nothing was fed since creation or the last reset, and cloning or feeding never disturbs another engine.",
     ["inputs", "histories"],
     "all message lengths (all residues modulo the block size, several blocks) x all split points x histories of push, zero-fill, reset, clone, finalize",
     "Known-answer tests cover a few lengths; padding edge cases depend on the length modulo 64 and on how data was buffered.",
     ["lib/osi/src/hash/sha256.rs", "lib/osi/src/hash.rs"],
     [("block buffering and padding", "lib/osi/src/hash/sha256.rs"), ("engine trait and hex formatting", "lib/osi/src/hash.rs")],
     ["digest bytes", "hex text", "reset query"])

prop("C12", "HMAC-SHA256 is correct for every key, message, split and reuse",
     "For every key (empty, shorter, equal to and longer than the block size) and every message fed in any pieces, zero runs, or after any number of resets, the authentication code equals RFC 2104 HMAC with SHA-256. A reset or a finished code restores the keyed state exactly.",
     ["inputs", "histories"],
     "all key lengths x all message lengths and splits x reset histories",
     "RFC 4231 vectors cover seven pairs; key-length boundaries and reuse after reset are not settled by them.",
     ["lib/osi/src/hmac.rs", "lib/osi/src/hash/sha256.rs"],
     [("inner/outer engine preparation from the key", "lib/osi/src/hmac.rs")],
     ["code bytes"])

# --- random numbers --------------------------------------------------------------

prop("C13", "SplitMix64 streams match the published generator for every seed and history",
     "For every seed and every interleaving of 32-bit draws, 64-bit draws and splits, the splittable generators produce exactly the sequence of the published SplitMix64 algorithm, the plain and the splittable form agree for the same seed, and splitting advances the parent by exactly two draws while yielding an independent generator with an odd, well-mixed increment.",
     ["inputs", "histories"],
     "all 2^64 seeds x all operation sequences on a growing set of generators",
     "Two seeds and four draws are tested; 32-bit draws and the low-entropy increment correction are never executed by tests.",
     ["lib/osi/src/rng.rs"],
     [("finalizers and increment derivation", "lib/osi/src/rng.rs")],
     ["drawn numbers"])

prop("C14", "Xoshiro256++ streams, seeding and jumps match the published generator",
     "For every seed the generator produces exactly the published Xoshiro256++ sequence, a seed of all zeroes is replaced by four successive SplitMix64 outputs for seed zero, and seeding from a SplitMix64 generator consumes four successive outputs of it as the state. The long jumps land exactly where 2^128 (respectively 2^192) single draws would, so jumps commute with draws and with each other.",
     ["inputs", "histories"],
     "all 256-bit seeds x all interleavings of draws and jumps",
     "One seed is tested; jump equivalence is an algebraic law over the whole state space.",
     ["lib/osi/src/rng.rs"],
     [("linear state transition and jump polynomials", "lib/osi/src/rng.rs"), ("zero seed replacement", "lib/osi/src/rng.rs")],
     ["drawn numbers"])

# --- strings ----------------------------------------------------------------------

prop("C15", "Natural ordering is a total order that sorts embedded numbers by value",
     "Natural comparison is a total order consistent with string equality (reflexive, antisymmetric, transitive, and equal only for identical strings), so sorting any collection with it gives one well-defined result. Strings that share everything up to a decimal digit run compare by the numeric value of that run, whatever its length, and text without digits compares like plain strings.",
     ["inputs"],
     "all pairs and triples of unicode strings, including digit runs longer than any machine integer, leading zeroes and non-ASCII numerals",
     "Five pairs are tested; transitivity and totality are relations over triples.",
     ["lib/osi/src/str.rs"],
     [("token-wise comparison of text and digit runs", "lib/osi/src/str.rs")],
     ["comparison result"])

prop("C16", "Symbol names are well-formed, stable and keep all usable characters",
     "Turning any string into a symbol name keeps every alphanumeric character in place, replaces each other character by exactly one underscore, and prepends one underscore exactly when the input is empty or starts with a numeric character; the result is never empty, never starts with a numeric character, and converting it again changes nothing. The empty-string filter returns nothing exactly for the empty string and otherwise the string unchanged.",
     ["inputs"],
     "all unicode strings",
     "Six literals are tested; the unicode character classes and idempotence are universal statements.",
     ["lib/osi/src/str.rs"],
     [("character mapping with conditional prefix", "lib/osi/src/str.rs")],
     ["returned strings"])

# --- foreign data types --------------------------------------------------------------

FE = "lib/osi/src/ffi/endian.rs"
prop("C17", "Fixed-endian values store and restore every number in the declared byte order",
     "For every primitive integer and non-zero integer type and every value, a big- or little-endian wrapper stores exactly the bytes of that value in the declared order, returns the same value when read back, and keeps raw (unconverted) access free of any change. Wrapping never changes size or alignment, and every access path (associated, trait and free functions) gives the same result.",
     ["inputs", "configurations"],
     "all supported value types x all values x both byte orders x all access paths",
     "Tests check one value for few types; a wrong swap for one width or a lost bit needs that width and an asymmetric value.",
     [FE, "lib/osi/src/mem.rs"],
     [("conditional byte swap on conversion", FE), ("byte-reversing copy", "lib/osi/src/mem.rs")],
     ["memory bytes of the wrapper", "values returned by accessors"])

prop("C18", "Fixed-endian values compare, hash, format and default like native numbers",
     "Equality, ordering, hashing, display formatting (with any formatting options), default and copying of big- and little-endian values give exactly the result of the same operation on the native number, for every pair of values and every width.",
     ["inputs", "configurations"],
     "all value types x all pairs of values x both byte orders x formatting options",
     "The tests compare a few equal small numbers; order by stored bytes instead of value differs only for suitable pairs.",
     [FE],
     [("comparison and formatting through the native value", FE)],
     ["comparison results, hash streams, formatted text"])

prop("C19", "Fixed-layout integers have the declared layout and behave like plain numbers",
     "A fixed-layout integer has exactly the requested alignment and the size of its value rounded up to it, stores its value at offset zero in the declared byte order, and every sequence of creating, reading, setting, replacing, taking, copying and converting returns what the same sequence on a plain variable would. Comparison, hashing, formatting and non-zero (optional) representations follow the wrapped value, and adjacent memory is never modified.",
     ["inputs", "histories", "configurations"],
     "all value types x all alignments x all values x all operation histories on objects with direct neighbours",
     "Layout is only asserted for a few combinations and never together with histories of updates.",
     ["lib/osi/src/ffi/integer.rs", "lib/osi/src/ffi/packed.rs", "lib/osi/src/align.rs"],
     [("packed value plus zero-sized alignment marker", "lib/osi/src/ffi/integer.rs"), ("alignment markers", "lib/osi/src/align.rs")],
     ["size, alignment, memory bytes", "values returned by accessors"])

prop("C20", "Packed values can live at any address and keep ownership rules",
     "A packed value has alignment one and the size of its content, works at every address, and every sequence of creating, reading, replacing, taking, setting and unwrapping returns exactly what was stored and drops every owned value exactly once. Comparison, hashing and formatting follow the wrapped value.",
     ["inputs", "histories", "configurations"],
     "all value types (plain and owning) x all addresses modulo alignment x all operation histories",
     "Tests use one aligned local; drop balance and misaligned placement need generated histories.",
     ["lib/osi/src/ffi/packed.rs"],
     [("unaligned reads and writes", "lib/osi/src/ffi/packed.rs")],
     ["values returned", "drop counts"])

prop("C21", "Fixed-layout pointers round-trip addresses and never invent a null",
     "A fixed-layout pointer returns the identical non-zero address it was created from through every conversion (machine word, raw pointer, reference, cast to other targets, byte-swapped raw form), refuses a zero address when checked creation is used, and dereferences to the very object whose address it holds. Comparison, hashing and formatting follow the stored address value.",
     ["inputs", "histories", "configurations"],
     "all address representations (native, non-zero, fixed-endian, fixed-layout) x all address values x conversion and update sequences",
     "Tests convert a few addresses; refusal of zero and round trips are for every address and representation.",
     ["lib/osi/src/ffi/pointer.rs"],
     [("native address conversions", "lib/osi/src/ffi/pointer.rs")],
     ["addresses returned, objects reached"])

prop("C22", "Foreign ABI types have the documented size, alignment and encoding",
     "For each supported platform ABI, every type in its table has the size, alignment and byte order of that platform's C ABI, numbers built for it are stored as that platform would store them and read back unchanged, and structures composed of these types place their members where that platform's C compiler would. The native table equals the types of the running platform.",
     ["inputs", "configurations"],
     "all ABI tables x all types x all values x generated structure layouts",
     "Only some sizes are asserted at compile time; encoding of values and placement within structures are not.",
     ["lib/osi/src/ffi/abi.rs", "lib/osi/src/ffi/integer.rs", "lib/osi/src/align.rs"],
     [("per-platform type alias tables", "lib/osi/src/ffi/abi.rs")],
     ["layout and memory bytes"])

# --- memory helpers ----------------------------------------------------------------

prop("C23", "Memory views alias exactly the viewed object",
     "Viewing a value or slice as bytes or as possibly-uninitialised memory (shared or mutable) covers exactly the memory of that object: same address, same length, writes through a mutable view change exactly the corresponding parts, and turning it back yields the same object. Memory equality is true exactly when both objects have the same size and the same bytes.",
     ["inputs", "configurations"],
     "all value contents x types of many sizes x slice lengths including empty x mutation positions",
     "Tests use single small values; length and aliasing mistakes depend on size and position.",
     ["lib/osi/src/mem.rs"],
     [("view constructors and byte comparison", "lib/osi/src/mem.rs")],
     ["view addresses, lengths and contents"])

prop("C24", "Byte reversal and cross-size copies move exactly the right bytes",
     "Reversing a value yields exactly its bytes in opposite order for every size (odd, even, zero, larger than machine words), and reversing twice restores it. Copying a value into another type keeps the leading bytes, truncating or leaving only the tail unspecified, regardless of the alignment of either type, and never touches the source.",
     ["inputs", "configurations"],
     "all byte contents x sizes 0..64 and beyond x alignment combinations of source and destination",
     "Tests use four integer widths; the generic path for other sizes and misaligned copies are barely reached.",
     ["lib/osi/src/mem.rs"],
     [("width-specific and generic reversal", "lib/osi/src/mem.rs"), ("truncating and padding copies", "lib/osi/src/mem.rs")],
     ["bytes of the result"])

prop("C25", "Field and container navigation are exact inverses",
     "For every structure layout, the verified field offset equals the real offset of that field, navigating from a container to a field reaches exactly that field (shared, mutable and raw), and navigating back from the field reaches exactly the original container; writes through the reached field change only that field.",
     ["inputs", "configurations"],
     "structure layouts of many shapes (reordered, packed, over-aligned, zero-sized fields) x all field values x array positions of the container",
     "One layout is tested; direction and offset mistakes cancel out for first fields.",
     ["lib/osi/src/meta.rs", "lib/osi/src/mem.rs"],
     [("offset arithmetic on raw pointers", "lib/osi/src/meta.rs"), ("typed offset macro", "lib/osi/src/mem.rs")],
     ["addresses reached and contents"])

prop("C26", "Tagged pointers keep pointer and tag independent through every history",
     "A tagged pointer can be made from an address exactly when that address is a multiple of four; afterwards any sequence of replacing the pointer, setting the whole tag, or setting single tag bits changes only the addressed part, ignores out-of-range tag bits, and always yields the last pointer unchanged and a tag below four.",
     ["inputs", "histories"],
     "all addresses x all tag values including out-of-range bits x all operation sequences",
     "Tests perform one short sequence on one pointer.",
     ["lib/osi/src/ptr.rs"],
     [("mask arithmetic on the address", "lib/osi/src/ptr.rs")],
     ["pointer and tag accessors"])

prop("C27", "Pointer wrappers and pin helpers always refer to the original object",
     "Creating a lifetime-bound or once-only pointer from any reference, pinned reference or raw pointer and converting it through any chain of its conversions yields the address of the original object, reads and writes through it act on that object, and equality, order and hash are those of the address (or, for wide targets, address and metadata). Identity comparison is true exactly when both sides refer to the same object.",
     ["inputs", "histories"],
     "all conversion chains x sized and wide targets x collections of objects",
     "Tests run each conversion once; chains and the comparison laws over many objects are not covered.",
     ["lib/osi/src/ptr.rs", "lib/osi/src/pin.rs", "lib/osi/src/cmp.rs"],
     [("pointer wrappers", "lib/osi/src/ptr.rs"), ("pin helpers", "lib/osi/src/pin.rs"), ("identity wrapper", "lib/osi/src/cmp.rs")],
     ["addresses and comparison results"])

prop("C28", "Taking smart pointers apart and rebuilding them neither leaks nor double-frees",
     "Disassembling any supported smart pointer (plain or pinned) into its bare target and rebuilding it yields a pointer to the same object with unchanged reference counts, any number of such round trips mixed with clones and drops drops every object exactly once, and the bare form refers to the same object the original dereferenced to.",
     ["inputs", "histories"],
     "all pointer kinds x all histories of clone, disassemble, rebuild, drop over several objects, plain and pinned, sized and unsized targets",
     "Tests do one round trip per kind; ownership balance is a property of histories.",
     ["lib/osi/src/convert.rs", "lib/osi/src/ptr.rs"],
     [("into/from raw conversions per pointer type", "lib/osi/src/convert.rs")],
     ["drop counts, reference counts, addresses"])

prop("C29", "Maybe-owned values behave like the value they stand for",
     "A maybe-owned value dereferences to exactly the borrowed or owned content it was created with, reports truthfully which of the two it is, and compares, orders, hashes and defaults exactly like that content regardless of ownership; cloning keeps content and ownership kind, a borrowed one never copies or drops the content, and an owned one drops it exactly once.",
     ["inputs", "histories"],
     "all contents x all combinations of borrowed and owned x clone/compare/drop histories",
     "Tests compare two literals; mixed-ownership equality and hashing are pairwise statements.",
     ["lib/osi/src/mown.rs"],
     [("two-variant wrapper delegating to the content", "lib/osi/src/mown.rs")],
     ["content, comparison, hash, drop counts"])

prop("C30", "Bridged writers and OS strings pass bytes through unchanged or report failure",
     "Writing text through the bridge from formatted output to byte output delivers exactly the UTF-8 bytes in order even if the sink accepts only part of a write at a time, and any sink failure is reported while everything accepted before it stays written. OS-string conversions return exactly the original bytes, succeed as text exactly when those bytes are valid UTF-8, and order and compare like the bytes.",
     ["inputs", "fault_sequences"],
     "all texts and byte strings x all sinks with short writes, interruptions and failures at any point",
     "Tests write one string into a vector; short writes and failing sinks are not modelled.",
     ["lib/osi/src/compat.rs"],
     [("write adapter", "lib/osi/src/compat.rs"), ("transparent OS string", "lib/osi/src/compat.rs")],
     ["bytes received by the sink, returned strings and errors"])

prop("C31", "Uncaught-error wrappers preserve what they are allowed to expose",
     "Wrapping any value as an uncaught error (opaque, debug, display or error form; boxed or static) yields an error whose display and debug texts contain exactly the wrapped value's own display or debug text under the matching label, whose error chain is that of the wrapped error and empty otherwise, and which drops an owned value exactly once.",
     ["inputs", "configurations"],
     "all wrapping kinds x all texts x all source-chain lengths",
     "Tests format one sample per kind; chain forwarding and formatting pass-through are not generalised.",
     ["lib/osi/src/error.rs"],
     [("variant-wise formatting and source forwarding", "lib/osi/src/error.rs")],
     ["formatted text and error chain"])

# --- sys: ELF and errno -----------------------------------------------------------------

ELF = "lib/sys/src/ffi/elf.rs"
prop("C32", "ELF records have the exact on-disk layout for both classes",
     "Every ELF record type (identification, file header, section, program, symbol, dynamic and both relocation records; 32- and 64-bit) has the size, alignment and field positions of the System V gABI. Interpreting file bytes as a record yields exactly the field values those bytes encode in native byte order, and a record built field by field has exactly those bytes.",
     ["inputs", "configurations"],
     "all record types x both classes x all byte contents",
     "The tests check total sizes; swapped or shifted fields of the same size go unnoticed.",
     [ELF],
     [("repr(C) records over platform types", ELF)],
     ["field values decoded from bytes"])

prop("C33", "ELF constants agree with the registry and the platform definitions",
     "Every exported ELF constant has the value assigned by the gABI registry and the platform's own headers for that name, and no two names that the registry distinguishes within one numbering are merged. This holds identically through the 32-bit, the 64-bit and the native interface.",
     ["inputs", "configurations"],
     "all exported constants x the reference tables x all three interfaces",
     "Tests compare only the constants the C library binding happens to expose.",
     [ELF],
     [("constant tables", ELF)],
     ["constant values"])

prop("C34", "Error numbers equal the kernel's for every supported platform",
     "For every error name and every supported platform table, the number equals the kernel ABI value of that platform, aliases share one number, distinct names otherwise differ, and the running platform's table agrees with its C library for every name.",
     ["inputs", "configurations"],
     "all error names x all platform tables",
     "The suite compares the native table to the C library binding only, and only where the binding is enabled.",
     ["lib/sys/src/ffi/linux/common/errno.rs", "lib/sys/src/ffi/linux/libc/errno.rs", "lib/sys/src/ffi/linux/mod.rs"],
     [("shared error table included per platform", "lib/sys/src/ffi/linux/common/errno.rs")],
     ["constant values"])

# --- D-Bus signatures -----------------------------------------------------------------------

SIG = "lib/tmp/src/fmt/dbus/signature.rs"
prop("C35", "A type signature is accepted exactly when the grammar allows it",
     "For every byte string, parsing a type signature succeeds exactly when it is one single complete type of the signature grammar (basic types, variant, arrays and maybes with exactly one element type, structures, and two-entry dictionaries whose key is basic), independent of length, nesting depth, and of which entry point or storage (borrowed, shared, fixed-size, caller buffer of the announced size) is used; a buffer that is too small is refused, never overrun.",
     ["inputs", "configurations"],
     "all byte strings up to hundreds of characters (across the switch of internal representation at 32 characters), exhaustively for short ones, x all entry points",
     "Tests parse some dozens of short literals; grammar membership is over all strings and the long representation is barely touched.",
     [SIG, "lib/tmp/src/fmt/dbus/element.rs"],
     [("single-pass parser over compact nodes", SIG), ("element table", "lib/tmp/src/fmt/dbus/element.rs")],
     ["parse result"])

prop("C36", "A rejected signature names the true reason and position",
     "When a signature is rejected, the reported reason is true of the input: an unknown code is reported with its position and code, an unpaired or mispaired bracket with the position of the bracket and of its actual opener, an incomplete container with an opener that is really left open, trailing content with the position where the first complete type ended, an illegal dictionary with its position. The empty string is reported as empty.",
     ["inputs"],
     "all rejected byte strings, of short and long representation",
     "Tests check positions in very short strings, where opener and parent coincide.",
     [SIG],
     [("error construction in the parser", SIG)],
     ["error value"])

prop("C37", "Walking a signature visits exactly the tree the text describes",
     "For every valid signature and every position, the reported element, length of the complete type, nesting (down to the first member, up to the enclosing container), neighbours, sub-signature text and alignment equal those of the parse tree of its text, for any sequence of moves, for cursors over borrowed, owned and shared signatures, and for iteration, whose announced remaining count is always exact. A move that has no target leaves the cursor unchanged and says so.",
     ["inputs", "histories"],
     "all valid signatures (both representations) x all move sequences x all cursor constructions",
     "Tests walk a few short signatures; offsets in deep or long signatures and move histories are unexplored.",
     [SIG, "lib/tmp/src/fmt/dbus/element.rs"],
     [("step/up/down offsets stored per node", SIG)],
     ["cursor queries"],
     [("node offsets", "distance to container, length of the complete type", SIG)])

prop("C38", "Signatures compare, hash, print and copy by their text alone",
     "Converting a signature to text returns exactly the parsed text, two signatures are equal exactly when their texts are, equal ones hash equally, they order like the bytes of their texts, and clones, shared copies, sub-signatures and re-parsed signatures are indistinguishable from one parsed directly, whatever storage or internal representation they use.",
     ["inputs", "configurations"],
     "all pairs of valid signatures and sub-signatures x all storage kinds",
     "Tests print a few signatures; sub-signatures of long ones use another internal form than directly parsed ones.",
     [SIG],
     [("text reconstruction and comparison over nodes", SIG)],
     ["text, comparison and hash results"])

prop("C39", "The type-element table is consistent with the D-Bus and GVariant definitions",
     "For every byte, looking up a type code succeeds exactly for the defined codes, and the resulting element reports its own code, its matching bracket, its class (basic, bound container, opening, closing, dynamic, handle, variant), fixed size and alignment for both encodings exactly as the D-Bus and GVariant specifications define; flag queries combine these as set operations.",
     ["inputs", "configurations"],
     "all 256 codes x all flag combinations x both encodings",
     "Tests check selected entries; a wrong entry for a rarely used code shows only there.",
     ["lib/tmp/src/fmt/dbus/element.rs"],
     [("element tables", "lib/tmp/src/fmt/dbus/element.rs")],
     ["element queries"])

# --- D-Bus encoding ---------------------------------------------------------------------------

DV = "lib/tmp/src/fmt/dbus/dvar.rs"
prop("C40", "Encoding any value yields exactly the D-Bus wire bytes",
     "For every signature the encoder supports and every value of it, in both byte orders, encoding the value step by step and committing appends exactly the bytes prescribed by the D-Bus marshalling rules (alignment padding of zero bytes, length prefixes that exclude leading padding, terminators, variant signatures), and nothing else, to the output.",
     ["inputs", "configurations"],
     "all value trees over fixed-size, string-like, array, structure, dictionary and variant types x both byte orders x nesting and alignment situations",
     "Tests encode a few fixed values; padding and lengths depend on everything written before.",
     [DV, "lib/tmp/src/io/map.rs"],
     [("aligned writes with deferred array lengths", DV)],
     ["output bytes after commit"])

prop("C41", "A refused encoding step changes nothing and can be corrected",
     "Any encoder call that does not fit the signature at the current position, closes a container too early, commits incomplete data, or carries oversize data is refused with the matching error, leaves output and position exactly as before, and encoding then continues as if the call had not been made. Nothing reaches the output before a commit succeeds, and committing again adds nothing.",
     ["inputs", "histories", "fault_sequences"],
     "all interleavings of valid and invalid calls at every position of every signature x output failures",
     "Tests check single refusals at the start; later effects of a half-applied refused call need histories.",
     [DV],
     [("type check before write, deferred commit", DV)],
     ["call results", "output bytes"])

prop("C42", "Nested and embedded encoders produce the same bytes as flat encoding",
     "Encoding a value through a nested encoder for a sub-signature, or a variant through any of its entry points, gives bytes identical to encoding the same content in place, with alignment computed from the start of the whole message; completing the nested part resumes the outer encoder directly after it.",
     ["inputs", "histories"],
     "all ways to cut a value tree into nested encoders x both byte orders",
     "Tests nest at most once at aligned offsets.",
     [DV],
     [("sub-encoders sharing output and position", DV)],
     ["output bytes after commit"])

prop("C43", "Decoding returns exactly what was encoded and knows when containers end",
     "For every value of the decodable types and both byte orders, stepping a decoder over its wire bytes returns the original values, the has-more query inside an array is true exactly while elements remain, closing a container whose elements were all read resumes exactly behind it, and the data may be provided in any fragmentation. Type-mismatched or out-of-order calls are refused and leave the decoder able to continue.",
     ["inputs", "histories"],
     "all value trees over decodable types x both byte orders x all fragmentations of the input x interleaved wrong calls",
     "Tests decode one array; end-of-array tracking depends on offsets and nesting.",
     [DV],
     [("position tracking with array end offsets", DV)],
     ["decoded values and call results"])

prop("C44", "Hostile wire data is refused cleanly with bounded effort",
     "For every byte string, signature and call sequence, the decoder terminates, never fails uncontrolledly, never reads outside the provided data, never returns text that is not valid UTF-8, and consumes memory in proportion to the data actually provided rather than to lengths claimed by it.",
     ["inputs", "fault_sequences"],
     "all byte strings (mutated valid encodings, extreme length fields) x decodable signatures x truncation at every byte",
     "Tests feed only well-formed data.",
     [DV, "lib/tmp/src/io/map.rs"],
     [("bounds-checked reads", DV)],
     ["call results, peak allocation"])

prop("C45", "Positioned output and input transfer exactly the bytes asked for",
     "Through the positioned I/O interface, any sequence of writes, iterated writes, fills, zero-fills and alignment paddings followed by a commit appends exactly those bytes at those offsets after the existing content, irrespective of how large the blocks handed out by the backend are, and any read returns exactly the stored bytes or a clean out-of-range error.",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "all operation sequences x backends handing out blocks of any size or failing at any call x non-empty initial output",
     "Tests only use a fresh vector, which always hands out everything at once.",
     ["lib/tmp/src/io/map.rs"],
     [("block-wise copy loops", "lib/tmp/src/io/map.rs"), ("vector and slice backends", "lib/tmp/src/io/map.rs")],
     ["bytes in the output", "bytes returned"])

prop("C46", "Stream I/O helpers deliver every byte once and ask for the right amount",
     "Reading from a byte stream through the block interface returns each byte exactly once and in order for any sequence of requests and advances, a request that cannot be met says how much is missing without consuming anything, prefix scanning stops at exactly the first non-matching byte or the limit, and writing through it appends exactly the written bytes with at least the requested room offered.",
     ["inputs", "histories", "configurations"],
     "all byte strings x all request sizes (minimum, maximum, none, extreme) x all block sizes a backend may offer",
     "Tests use whole slices; block boundaries inside scans are not exercised.",
     ["lib/tmp/src/io/stream.rs"],
     [("minimum/maximum negotiated mapping", "lib/tmp/src/io/stream.rs"), ("scan helper", "lib/tmp/src/io/stream.rs")],
     ["bytes returned, results"])

# --- JSON over byte streams (tmp) -----------------------------------------------------------------

TJ = "lib/tmp/src/fmt/json/token.rs"
prop("C47", "Well-formed JSON bytes are decoded into exactly their tokens",
     "For every RFC 8259 text, the byte-stream token decoder yields no error and exactly the tokens of the text in order; whitespace, numbers and strings carry their exact source text, numbers the exact sign, integer, fraction and exponent parts, strings the fully unescaped text.",
     ["inputs"],
     "all JSON texts as bytes",
     "The suite decodes a few literals per token type.",
     [TJ],
     [("byte-wise state machine over mapped blocks", TJ)],
     ["yielded tokens"])

prop("C48", "How JSON bytes arrive never changes the decoded tokens",
     "Whatever sizes the stream delivers its data in, including single bytes, splits inside multi-byte characters, escapes and numbers, and repeated requests for more, the decoder yields the same tokens as for contiguous data, never consumes bytes beyond the token it returned, and asks for more data exactly when the available bytes cannot complete a token.",
     ["inputs", "histories"],
     "all byte strings x all delivery schedules",
     "Tests provide the full data at once.",
     [TJ, "lib/tmp/src/io/stream.rs"],
     [("resumable state and accumulator", TJ)],
     ["yielded tokens, requests for more"])

prop("C49", "Malformed JSON bytes yield errors without losing the following tokens",
     "For every byte string the token decoder terminates without failing, reports malformed pieces (invalid UTF-8, unknown words, malformed numbers, control characters, unknown, invalid or unpaired escapes in strings) as error tokens of the matching kind, replaces unusable escapes by the replacement character, and yields all unaffected tokens before and after exactly as if the malformed piece were absent.",
     ["inputs"],
     "all byte strings",
     "Few malformed literals are tested; interplay of an error with already decoded string content is not.",
     [TJ],
     [("error states of the decoder", TJ)],
     ["yielded tokens"])

prop("C50", "Ending a JSON byte stream yields the last token once and then nothing",
     "Signalling the end of input at any point yields, over repeated calls, exactly the tokens that remain determined by the bytes so far (the pending number, word, whitespace, or an incomplete-string error), after which every further call reports completion; the calls always come to an end and never fail.",
     ["inputs", "histories"],
     "all byte strings x every cut point x pending-state kinds",
     "Completion is tested only when nothing is pending.",
     [TJ],
     [("completion of the pending state", TJ)],
     ["tokens yielded at completion"])

prop("C51", "The JSON item stream enforces the JSON value grammar",
     "For every token sequence, the item decoder yields an error-free item stream exactly as long as the tokens are the beginning of one JSON value, with opens, closes, keys and primitives in document order, each close matching its open; any grammar violation (missing or extra separators, mismatched or unexpected closers, non-string keys, trailing values) yields an error item and never a failure.",
     ["inputs", "histories"],
     "all JSON documents and token-level mutations of them x delivery schedules",
     "There are no tests for the item stream beyond construction.",
     ["lib/tmp/src/fmt/json/stream.rs"],
     [("value state machine", "lib/tmp/src/fmt/json/stream.rs")],
     ["yielded items"])

# --- executable headers --------------------------------------------------------------------------

prop("C52", "MZ headers convert to and from bytes exactly and checksums balance",
     "Every MZ header, extended header and relocation record converts from bytes and back without loss, each field reading the little-endian value at its documented offset; the 16-bit sum over any byte string equals the wrapping sum of its little-endian words (an odd tail byte counting as the low byte), and the shipped stub program is a consistent MZ image.",
     ["inputs"],
     "all header byte contents x all byte strings of any length",
     "Tests convert one fixed header; field order, odd lengths and carry behaviour are universal.",
     ["lib/tmp/src/msdosmz.rs"],
     [("packed little-endian records", "lib/tmp/src/msdosmz.rs"), ("checksum helper", "lib/tmp/src/msdosmz.rs")],
     ["field values, bytes, sums"])

prop("C53", "PE/COFF records and constants match the published format",
     "Every PE/COFF record type (file header, optional headers for both widths, data directories, section headers) has the published size and field offsets, so bytes decode to exactly the encoded little-endian fields, and every magic number, machine, characteristic and subsystem constant has its published value.",
     ["inputs", "configurations"],
     "all record types x all byte contents x all constants",
     "There are no tests for this module beyond sizes.",
     ["lib/tmp/src/pecoff.rs"],
     [("repr(C) little-endian records and constant table", "lib/tmp/src/pecoff.rs")],
     ["field values decoded from bytes, constant values"])

prop("C54", "Misusing branded, once-only or lifetime-bound handles does not compile",
     "No safe program can mix two distinct brands, forge or leak a brand out of its scope, duplicate a once-only reference, use a lifetime-bound pointer after its object is gone, or send or share a handle across threads when its target does not allow that, and markers have exactly the variance they are named after. Operations with obligations for the caller need an unsafe block. The corresponding intended uses do compile.",
     ["programs"],
     "all safe client programs",
     "Running tests only sees programs that compile; what must be rejected is not tested at all.",
     ["lib/osi/src/brand.rs", "lib/osi/src/ptr.rs", "lib/osi/src/marker.rs", "lib/osi/src/mown.rs", "lib/osi/src/convert.rs", "lib/osi/src/test.rs"],
     [("invariant lifetimes and marker types", "lib/osi/src/marker.rs"), ("auto-trait bounds on pointer wrappers", "lib/osi/src/ptr.rs"), ("lifetimes in signatures", "lib/osi/src/ptr.rs")],
     ["acceptance by the compiler"])

prop("C55", "Markers, brands and the never type exist at compile time only",
     "Variance markers, brands and their identifiers take no space and no alignment in any structure, all values of one marker type are equal, ordered as equal and contribute nothing to a hash, so keys with markers behave like keys without them. A brand scope runs its operation exactly once and hands on its result or panic. The never type has no values, coerces to every type and costs no space in results and options.",
     ["programs", "histories", "inputs"],
     "all marked types x all structures containing markers x histories of keyed containers",
     "Tests look at single instances of two types.",
     ["lib/osi/src/marker.rs", "lib/osi/src/brand.rs", "lib/osi/src/never.rs", "lib/osi/src/test.rs"],
     [("zero-sized marker types", "lib/osi/src/marker.rs"), ("brand scope", "lib/osi/src/brand.rs"), ("never type alias", "lib/osi/src/never.rs")],
     ["sizes, alignments, offsets, comparison results, hash input"])

prop("C56", "Cascading configuration conditions select exactly the first true arm",
     "For every list of configuration conditions and every configuration, exactly the block of the first condition that holds is compiled, or the final block if none holds, or nothing if there is no final block. This holds for items and statements and for cascades nested in blocks; blocks that are not selected are never compiled.",
     ["programs", "configurations"],
     "all cascades of conditions x all configurations",
     "Tests run under a single configuration with three literal cascades.",
     ["lib/osi/src/cfg.rs"],
     [("recursive macro accumulating negated conditions", "lib/osi/src/cfg.rs")],
     ["which blocks take part in the compilation"])

prop("C57", "Borrow-checker coercion yields the very same value, once",
     "The coercion that stands in for a more precise borrow checker evaluates its value expression exactly once and yields that very value: same address, length, content and ownership, dropped once. It is accepted only in an unsafe context and only if source and target types fit, under either borrow checker setting.",
     ["inputs", "programs", "configurations"],
     "all values of all coercible types x both borrow checker settings",
     "Tests coerce two references to integers.",
     ["lib/osi/src/polonius.rs", "lib/osi/src/marker.rs"],
     [("conditional transmute", "lib/osi/src/polonius.rs")],
     ["resulting values, drops, acceptance by the compiler"])

def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")

if __name__ == "__main__":
    main()
