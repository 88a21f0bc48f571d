DEFAULT_NOTE = (
    "Generated-input search against an explicit oracle: a violation is a concrete shrunk case, silence covers "
    "the cases generated. Trusts the reference model in the harness and the Rust toolchain."
)
NA = {
}
TECH = {
    "C11": "property-based testing: differential against an independent SHA-256, histories and splits",
    "C12": "property-based testing: differential against an independent HMAC, key/message grid and histories",
}
TECH.update({
    "C13": "property-based testing: model-based histories of draws and splits against a reference generator",
    "C14": "property-based testing: histories against a reference generator, jumps against matrix powers",
    "C15": "property-based testing: order laws on generated triples, numeric comparison oracle",
    "C16": "property-based testing: per-character oracle and idempotence, all characters and random strings",
})
TECH.update({
    "C17": "property-based testing: byte-level oracle and round trip over 24 number types and all access paths, all 16-bit values",
    "C18": "property-based testing: differential against the same operation on the native number",
    "C19": "property-based testing: model-based operation histories with memory and drop oracles, exhaustive layout table",
    "C20": "property-based testing: model-based operation histories at every offset with memory and drop oracles",
    "C21": "property-based testing: round trip of addresses through all conversions, comparison against the plain address",
    "C22": "property-based testing: exhaustive size/alignment/offset tables and byte-level round trip of numbers",
})
TECH.update({
    "C23": "property-based testing: address/length/content oracle on views, edits through views, pairs for memory equality",
    "C24": "property-based testing: byte-reversal and prefix-copy oracles over sizes and alignments",
    "C25": "property-based testing: round trip container/field over structure shapes, write isolation oracle",
    "C26": "property-based testing: model-based operation histories",
    "C27": "property-based testing: random conversion chains with bit-identity oracle, comparison against object indices",
    "C28": "property-based testing: model-based histories with drop and reference counting oracles",
    "C29": "property-based testing: differential against the plain content, drop-counting histories",
    "C30": "property-based testing and fault injection: scripted sinks, prefix oracle; byte-level oracle for OS strings",
    "C31": "property-based testing: text and chain oracle over generated errors, drop counting",
})

TECH.update({
    "C32": "generated record contents; oracle: decoding of the raw bytes at the offsets, widths and signs of a transcribed gABI table, rebuilt records compared byte by byte, generated images walked",
    "C33": "exhaustive enumeration of all constants through all interfaces against a transcribed reference table, plus pairwise merge relation per numbering and generated file headers",
    "C34": "exhaustive enumeration of all names, tables and kernel return values against transcribed kernel numbers and the C library",
})

TECH.update({
    "C35": "property-based testing: reference grammar as oracle over exhaustive short strings, generated and mutated long ones, all entry points and buffer sizes with guard words",
    "C36": "property-based testing: truth predicate per reported reason over exhaustive short strings and mutated valid signatures",
    "C37": "property-based testing: model-based move histories against the parse tree of the text, for every cursor construction",
    "C38": "property-based testing: differential against the text over pairs of signatures in eight storages, keyed containers as model",
    "C39": "exhaustive enumeration of all codes against a table transcribed from the specifications, generated flag sets as set algebra",
})

TECH.update({
    "C40": "property-based testing: reference encoder of both wire formats over generated value trees, byte-wise comparison",
    "C41": "property-based testing and fault injection: histories with refused calls interleaved, backend failures retried, output compared with the undisturbed run",
    "C42": "property-based testing: nested against flat encoding of the same value tree, both compared with the reference encoder",
    "C43": "property-based testing: round trip through the reference encoder over any fragmentation, with wrong calls interleaved",
    "C44": "fuzzing: mutated encodings, forged lengths and random bytes against a bounded reference walk, with allocation metering",
})

TECH.update({
    "C45": "property-based testing and fault injection: operation histories against a byte model over backends scripted in block size and failures",
    "C46": "property-based testing: scan, map, advance and commit histories against a byte model over growing and limited backends",
})

TECH.update({
    "C47": "property-based testing: grammar-directed JSON texts with the tokens known by construction, every scalar value plain and escaped",
    "C48": "property-based testing: generated arrival schedules against the need and end of every token of a reference lexer",
    "C49": "fuzzing: mutated documents, fragments, all short texts and random bytes against a reference lexer",
    "C50": "property-based testing: end of input at generated cut points and pending states against a reference lexer",
    "C51": "property-based testing: pushdown recognizer over documents, mutated token lists and all token sequences of length six",
})

TECH.update({
    "C52": "property-based testing: generated records against a transcribed offset table both ways, wide-integer sum oracle and additive laws, stub image re-derived",
    "C53": "property-based testing: generated records and images against transcribed offsets, exhaustive constants against the published values",
})

TECH.update({
    "C07": "property-based testing: grammar-directed JSON texts with the tokens known by construction, every scalar value plain and escaped, very large tokens",
    "C08": "property-based testing: metamorphic comparison of generated splits with the one-shot call, status of every prefix against a reference lexer",
    "C09": "fuzzing: mutated documents, fragments, all texts of four significant characters, every scalar value in context, against a reference lexer and serde_json",
    "C10": "property-based testing and fault injection: reset, end or stop at generated positions, then differential against a fresh instance; clones mid-token",
})

TECH.update({
    "C01": "property-based testing: generated command trees and argument lists against a path-prefix model, metamorphic over registration order and inserted flags",
    "C02": "property-based testing: generated flag sets and argument lists against a reference parser, shadowing chains, verbatim value bytes",
    "C03": "property-based testing: parameter events of generated argument lists against a reference parser, tails after the terminator by construction",
    "C04": "property-based testing and fault injection: complete report history against a reference parser, stops at every report, inserted mistakes as metamorphic relation",
    "C05": "property-based testing and fault injection: help callbacks for generated layouts against a page built from the layout, writer failing at generated lines",
    "C06": "property-based testing: histories of flag uses and parameters over all collector types against a value model",
})

TECH.update({
    "C54": "property-based testing over generated programs: pairs of intended use and single misuse judged by the compiler, variance and thread-safety models over random type compositions",
    "C55": "property-based testing: keyed-container histories against a marker-free model, compile-time layout assertions over generated structures",
    "C56": "property-based testing over generated programs: nested cascades under random configurations against an evaluator of the conditions",
    "C57": "property-based testing: identity, drop and evaluation counts over generated values, generated programs for both settings judged by the compiler",
})
