#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T8 = "C, C++, C#, CommonJS, ES module, Go, Java and Python"
GEN = ["generator/target/c/c.go", "generator/target/cpp/cpp.go", "generator/target/csharp/csharp.go",
       "generator/target/commonjs/commonjs.go", "generator/target/esm/esm_encode.go", "generator/target/esm/esm_decode.go",
       "generator/target/golang/golang.go", "generator/target/java/java.go", "generator/target/python/python.go"]
P = []
def add(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mechanism,
                          "observe_at": observe, "hook_needed": hook}})

add("C01", "Encoding puts exactly the documented bits on the wire",
    f"For every accepted schema and every assignment of field values, the encoder generated for each of {T8} returns exactly the byte string the schema's layout defines: fields in declaration order, packed LSB-first with the declared widths, in the declared byte order, void bits zero, strings NUL-terminated, bytes prefixed by a 7-bit little-endian varint length, arrays and nested structs element by element. All eight targets therefore produce identical bytes for the same values. Value bits outside a field's declared width never reach the wire.",
    ["programs", "inputs"],
    "every schema the compiler accepts (field types, widths 1..64 bits, bit offsets 0..7, byte orders, array lengths, nesting) x every field value",
    "The e2e matrix encodes one hand-written schema with a few dozen value sets; the generators slice every field into a different expression per (type, width, offset, order), so thousands of generated code shapes are never executed.",
    GEN + ["compiler/proto_visitor.go", "definition/struct.go"],
    [{"name": "bit slicing of normal/constant fields", "where": "generateEncodeImpl / generateEncodeNormalFieldImpl in each target"},
     {"name": "loop helpers bb_write_field_bits", "where": "each target, arrays longer than -unroll"},
     {"name": "field offsets", "where": "definition/struct.go ForEachField"}],
    ["bytes returned by encode() / written by encode(buffer)"])
add("C02", "Decoding recovers the values the wire layout denotes",
    f"For every accepted schema and every complete wire image, decode in each of {T8} succeeds, returns the number of bytes the message occupies, ignores void bits and trailing bytes, and yields for every field the value its wire bits denote: signed narrow integers sign-extended, unsigned, enum and float bits zero-extended, strings and bytes verbatim. In particular decoding what encode produced gives back the encoded values truncated to their declared widths.",
    ["programs", "inputs"],
    "every accepted schema x every complete wire image (produced by encode, or arbitrary bits in a fixed layout)",
    "Unit tests round-trip a few values on one schema; sign extension, byte order and mask code differ per (type, width, offset) and per target.",
    GEN,
    [{"name": "bit gathering and sign extension", "where": "generateDecodeImpl / generateDecodeNormalFieldImpl in each target"},
     {"name": "loop helpers bb_read_field_bits", "where": "each target"}],
    ["decode return value and field getters"])
add("C03", "Constant fields are always written and always checked",
    f"In each of {T8}, a constant field's declared value appears on the wire in every encoding regardless of the object's state, and decode reports failure for every input in which any bit of any constant field (at any nesting depth or embedded) differs from its declared value, while differences in void bits never cause failure.",
    ["programs", "inputs"],
    "every accepted schema with in-range constants of every type, width, offset and byte order x every single- or multi-bit corruption",
    "Tests flip one whole-byte constant in one struct; masks for sub-byte, multi-byte, big-endian, signed, bool, float and enum-valued constants are separate code shapes.",
    GEN + ["compiler/proto_visitor.go", "compiler/literal_visitor.go"],
    [{"name": "constant encode/decode check", "where": "generateEncodeConstantField / generateDecodeConstantField in each target"}],
    ["decode status", "encoded bytes"])
add("C04", "decode_size drives incremental reads exactly to the frame size",
    f"In each of {T8}, for every encoding E and every prefix p of E followed by nothing, decode_size(p) is the full size of E when p is complete, and otherwise a negative number -r with len(p) < r <= len(E); with bytes of later frames appended it still returns len(E). A receiver that always reads up to r therefore makes progress at every step, never waits for bytes that are not coming, and stops at exactly the frame boundary.",
    ["programs", "inputs", "histories"],
    "every accepted schema (including arrays and nested structs of dynamic size) x every value x every prefix length / read schedule",
    "Tests probe a handful of truncation points on one struct; the contract is over all prefixes and the interplay of several dynamic fields, nested dynamic structs and varint boundaries.",
    GEN + ["definition/struct.go", "definition/type.go"],
    [{"name": "decode_size generation", "where": "decoderSize / decoderSizeField templates in each target"},
     {"name": "dynamic layout", "where": "definition/struct.go, definition/type.go GetTypeBitSize/GetTypeDynamic"}],
    ["decode_size return value"])
add("C05", "Short or hostile input is rejected without crashing",
    "In the Go, Java, C#, Python, CommonJS and ES-module outputs, decode of any strict prefix of a message reports failure and never throws or reads outside the input, and for arbitrary bytes (string fields holding valid UTF-8) both decode_size and decode return normally with a result that never claims more bytes than were supplied. In C and C++, decode_size of arbitrary bytes never reads at or beyond the given size.",
    ["programs", "inputs", "fault_sequences"],
    "every accepted schema without enum-typed fields x every byte string (truncations, bit flips, overlong varints, random bytes)",
    "Tests truncate at one or two places; index arithmetic differs per field sequence and per target.",
    GEN,
    [{"name": "size pre-check in decode", "where": "decoder templates in each target"},
     {"name": "varint guards", "where": "decoderSizeField templates"}],
    ["exceptions, return values; AddressSanitizer for C/C++ decode_size"])
add("C06", "encode_size, encode, decode and decode_size agree on the length",
    f"In each of {T8}, for every object the value of encode_size equals the number of bytes encode writes and reports, and equals what decode and decode_size return on those bytes; writing into a caller buffer of exactly encode_size bytes never touches a byte outside it.",
    ["programs", "inputs"],
    "every accepted schema x every value, in particular varint length boundaries 127/128, 16383/16384 and empty strings/bytes",
    "Tests check one struct at small lengths only.",
    GEN,
    [{"name": "encode_size generation", "where": "encoderSize templates in each target"}],
    ["encode_size / encode / decode / decode_size return values, guard bytes around the buffer"])
add("C07", "Results never depend on old buffer contents or on a reused object",
    f"In each of {T8}, encoding into a caller-supplied buffer (at any start offset where the API has one) that holds arbitrary old bytes writes the same non-void bits as encoding into a zeroed buffer and leaves every byte outside the message untouched; decoding into an object that already holds other values gives the same fields as decoding into a fresh object; encoding does not change the object.",
    ["programs", "histories"],
    "every accepted schema x every history of set/encode/decode operations on one object and one buffer",
    "Every existing test encodes into a fresh zeroed buffer and decodes into a fresh object.",
    GEN,
    [{"name": "'=' versus '|=' choice per byte", "where": "generateEncodeImpl in each target"},
     {"name": "first-assignment of decoded parts", "where": "generateDecodeImpl in each target"}],
    ["buffer contents after encode, fields after decode"])
add("C08", "Copy mode detaches decoded data; zero-copy mode reads it correctly",
    "With -memcpy, and in the targets that always copy (CommonJS, ES module, Java, Python), the string and bytes fields of a decoded object keep their values however the input buffer is modified afterwards, in C, C++, C#, CommonJS, ES module, Go, Java and Python; without -memcpy in C, C++, C# and Go, decode yields the same values for as long as the buffer is left alone. String fields outside C are detached in both modes.",
    ["programs", "histories", "configurations"],
    "every accepted schema with string/bytes fields, arrays and nested structs x every later modification of the input buffer",
    "Tests never modify the input buffer after decode.",
    GEN,
    [{"name": "MemoryCopy option handling", "where": "string/bytes decode templates in each target; options forced in generator.Generate"}],
    ["fields read after overwriting the input buffer"])
add("C09", "Generator options never change the wire format or the decoded values",
    f"For every accepted schema, code generated by {T8} with any combination of -unroll, -decnum, -signext, -memcpy, -minimal, -compat, -single and -inner that the target supports encodes to the same bytes, decodes to the same values and reports the same sizes as with the default options.",
    ["programs", "configurations"],
    "every accepted schema x every option combination x every value",
    "The matrix varies one option at a time over one schema; loop and unrolled codecs, shift and arithmetic sign extension are disjoint code paths that must agree on every field shape.",
    GEN + ["generator/generator.go", "main.go", "generator/gen/gen_option.go"],
    [{"name": "-unroll loop path vs unrolled path", "where": "shouldUseLoop in each target"},
     {"name": "-signext arith vs shift", "where": "sign extension code in each target"},
     {"name": "-decnum constant formatting", "where": "generateBin/generateHex in each target"}],
    ["bytes, values and sizes across option sets"])
add("C10", "Embedding, nesting and inlining structs are wire-equivalent",
    f"In each of {T8}, a struct that embeds another struct (named or declared in place) exposes the embedded fields as its own and has exactly the wire format obtained by writing those fields inline at that position, and a struct-typed field has the wire format of its struct at that position, recursively and also when the inner struct has variable size.",
    ["programs", "inputs"],
    "every accepted composition (embedding, nesting, arrays, in-place definitions, depth) of the same field list x every value",
    "One embedding sample is tested; offsets of promoted fields and variable-size inner structs are computed by separate code.",
    ["compiler/proto_visitor.go", "definition/struct.go", "definition/field.go"] + GEN,
    [{"name": "field promotion", "where": "compiler/proto_visitor.go VisitStructBody/VisitFieldEmbedded"},
     {"name": "layout of struct-typed fields", "where": "definition/struct.go GetTypeBitSize, ForEachField"}],
    ["bytes and decoded values of equivalent schemas"])
add("C11", "A schema is accepted exactly when its layout is well-formed",
    "The compiler accepts a schema if and only if every declared size is positive and no larger than its type, array widths divide evenly among elements, struct-typed fields have their struct's size, string, bytes and struct fields start on byte boundaries, every struct is non-empty, byte-sized and matches its declared size (which a variable-size struct may not have), all names in a scope are distinct and well-cased, constants fit their type's kind, and the known field options have an allowed value and none is repeated; otherwise it exits non-zero, reports an error and writes no file. An accepted schema always yields code in which the recorded struct size equals the sum of its fields.",
    ["programs", "inputs"],
    "every schema built from the field, size, array, embedding and constant forms, valid or with any single violated rule at any position",
    "A few dozen negative files sample single rules at one position each; boundaries (width = type width, width+1, offset 1..7, total mod 8) are not swept.",
    ["compiler/proto_visitor.go", "compiler/option_validator.go", "definition/struct.go", "definition/error.go"],
    [{"name": "size, alignment and name checks", "where": "compiler/proto_visitor.go VisitStructDef, VisitFieldNormal, VisitFieldConstant, VisitStructBody"}],
    ["exit status, files written, Struct size constants in generated code"])
add("C12", "Imports resolve to each file once, in dependency order, or fail",
    "For every import graph, compilation succeeds if and only if all imported files exist, no file imports itself directly or through a cycle, package names are distinct and every referenced or defined global name resolves to exactly one definition among the file and its transitive imports; then each file is compiled and emitted exactly once however many paths reach it, whatever order the imports are written in. On failure the exit status is non-zero and nothing is written.",
    ["programs", "configurations"],
    "every directed import graph over a small set of files x every placement of packages, type definitions and uses",
    "The negative tests contain one self import and one cycle; diamonds, cycles off the root, duplicate packages and visibility through several hops are unsampled.",
    ["compiler/compilation_runtime.go", "compiler/import_visitor.go", "definition/compilation_unit.go", "definition/package.go"],
    [{"name": "parse stack, unit table, package table", "where": "compiler/compilation_runtime.go"},
     {"name": "global names across imports", "where": "definition/compilation_unit.go"}],
    ["exit status, set of output files"],
    [{"name": "ParseStack/Units/Packages", "meaning": "files in progress / finished / packages seen", "where": "compiler/compilation_runtime.go"}])
add("C13", "Enum members have the declared or next consecutive value everywhere",
    f"Each enum member without an explicit value has its predecessor's value plus one (the first has zero), explicit values and references to members of earlier enums are taken as written, values are non-negative and fit the enum's width, and in each of {T8} the generated member has exactly that number, encodes as that number in the enum's declared width, and decodes back to a member of that number.",
    ["programs", "inputs"],
    "every enum definition: any mix of explicit, implicit and referencing members, decimal/hex/octal literals, widths 1..64 bits",
    "Tests use a few fixed enums with explicit values.",
    ["compiler/proto_visitor.go", "definition/enum.go"] + GEN,
    [{"name": "enum numbering", "where": "compiler/proto_visitor.go VisitEnumDef/VisitEnumBody/VisitEnumElement"}],
    ["numeric value of the generated members, encoded bytes"])
add("C14", "Custom getters and setters compute the declared expression",
    f"A custom getter returns the value of its declared expression applied to the current raw field, and a custom setter stores the value of its expression applied to its argument, with the operator precedence, grouping and explicit casts written in the schema; the result is the same in each of {T8}. Accessors never change any other field.",
    ["programs", "inputs"],
    "every expression over the supported operators with operands for which each target's arithmetic agrees (no overflow, no division by zero, casts where kinds are mixed) x raw values",
    "Tests evaluate two or three fixed expressions; the printer must re-create precedence and grouping for every operator nesting in nine languages.",
    ["compiler/proto_visitor.go", "definition/expr.go", "definition/method.go"] + GEN,
    [{"name": "expression printing", "where": "GenerateExpr in each target, generator/gen/gen_dispatcher.go"},
     {"name": "grammar precedence", "where": "compiler/proto_visitor.go VisitExpr"}],
    ["accessor results"])
add("C15", "Files are written exactly where the package and options say, or not at all",
    "A successful run writes exactly the output files implied by the package (or the target's package option), the target's file naming, -single, -inner, -rmpath, -relpath and omit_empty, all below the output directory, and no others; any command-line, compile or generation error exits non-zero with a message on standard error and writes nothing.",
    ["programs", "configurations", "fault_sequences"],
    "every combination of package depth, options, target, number of units and single injected error",
    "Shell tests check a few Go output paths.",
    ["main.go", "generator/generator.go", "generator/gen/gen_ctx.go", "generator/gen/gen_option.go", "definition/package.go"] + GEN,
    [{"name": "output path computation", "where": "generator/gen/gen_ctx.go WriteFile, definition/package.go"},
     {"name": "omit_empty", "where": "each target's Generate"}],
    ["file tree below -o, exit status"])
add("C16", "Generation is deterministic and independent of earlier generations",
    "Compiling and generating the same inputs with the same options always yields byte-identical files, whether in separate runs or in one process after any sequence of other compilations, targets, options and failures, and whatever directory the sources and output live in or the tool is started from.",
    ["histories", "configurations"],
    "every sequence of compile/generate calls (targets, options, inputs, failing inputs) in one process",
    "Every test starts a fresh process and generates once; the generators are process-wide objects with mutable state.",
    ["generator/generator.go", "generator/gen/gen_ctx.go", "util/ordered_map.go", "compiler/compiler.go"] + GEN,
    [{"name": "per-run state reset", "where": "generator.Generate, each target's Generate"},
     {"name": "ordered iteration", "where": "util/ordered_map.go"}],
    ["generated file contents"],
    [{"name": "GenUnits/GenStack/GenState", "meaning": "generator singletons' mutable state", "where": "generator/target/*"}])
add("C17", "Splitting a schema over imported files does not change its codecs",
    f"In each of {T8}, a schema distributed over several files and packages connected by imports, generated as multiple files or with -single, builds with the target's toolchain and has the same wire format, decoded values and sizes as the same definitions in one file.",
    ["programs", "configurations"],
    "every partition of a schema's definitions over an acyclic import graph of packages x -single / -relpath / -rmpath variants",
    "One two-file feature directory is generated by the tests and mostly inspected as text.",
    ["compiler/import_visitor.go", "definition/package.go", "generator/gen/gen_ctx.go"] + GEN,
    [{"name": "cross-unit references and import/include statements", "where": "each target's import generation"}],
    ["build success, bytes, values"])
add("C18", "Literals mean the number they spell",
    f"Every integer literal in decimal, hexadecimal or octal (magnitude up to 2^63-1), optionally signed, every finite float and every boolean literal used as a constant field value, enum value, size or array length denotes its mathematical value: the encoded constant of each of {T8}, the value of a named constant that C#, CommonJS and ES module objects show, the member value, the field width and the element count are that number (for floats, the nearest value of the type).",
    ["inputs", "programs"],
    "every literal spelling x every type and width it may be used with",
    "Tests use a dozen small literals.",
    ["compiler/literal_visitor.go", "definition/literal.go", "compiler/proto_visitor.go"] + GEN,
    [{"name": "literal parsing", "where": "compiler/literal_visitor.go"},
     {"name": "literal printing per target", "where": "GenerateLiteral in each target"}],
    ["encoded bytes of constants, struct sizes"])
add("C19", "Exit status and diagnostics tell success from failure",
    "The tool exits zero if and only if it produced the requested output; warnings never fail a run; every compile error other than a syntax error is reported on standard error at least once with the path, line and column of the offending construct in the file that contains it, and an unknown option is warned about at its position, and an error in one definition does not hide errors in later independent definitions of the same file (a file with syntax errors, and a file whose imports fail, reports at least one of those and need not report more).",
    ["programs", "inputs"],
    "every set of independent erroneous definitions at every position among valid ones",
    "Tests grep for one message per file and do not check positions or the reporting of several errors.",
    ["main.go", "compiler/compilation_runtime.go", "compiler/proto_visitor.go", "definition/error.go", "definition/warning.go", "definition/position.go"],
    [{"name": "error aggregation", "where": "compiler/proto_visitor.go VisitProto, compiler/compilation_runtime.go"},
     {"name": "positions", "where": "definition/position.go, CompileError construction sites"}],
    ["exit status, stderr lines"])
add("C20", "The ordered map keeps insertion order under every operation history",
    "For every sequence of insertions, overwrites, anonymous insertions, lookups and removals, the ordered map used for all definitions holds exactly one entry per live key, iterates in first-insertion order of live entries, and its length, lookup, range and membership results agree with a plain map plus an order list.",
    ["histories"],
    "every sequence of operations on a small key set",
    "No test exercises the ordered map directly; the compiler's declaration order, and so the wire layout, depends on it.",
    ["util/ordered_map.go"],
    [{"name": "keys/values/index bookkeeping", "where": "util/ordered_map.go"}],
    ["method results"])
add("C21", "Field accessors touch exactly their own field",
    "In C, C++, C#, Go, Java and Python, reading a field, one element of an array field, a whole array field or its length through the generated getters, setters and properties gives exactly what was last stored there; storing through one of them changes that field or element and nothing else, and what was stored is what encode writes. Outside C, a newly created object holds zero, false, or an empty string or byte sequence in every field, members of nested structs and elements of arrays included (enum fields aside; in JavaScript, array fields of anything but structs start out empty), and can be encoded once its enum fields (and those arrays) are set.",
    ["programs", "histories"],
    "every accepted schema x every history of single-field stores, reads, decodes and encodes on one object",
    "Tests use accessors of a few scalar fields; item and whole-array accessors exist per element type, per target and per memory mode, and fields of embedded structs get their own.",
    GEN,
    [{"name": "accessors of fields", "where": "getter/setter templates in each target"},
     {"name": "default values", "where": "GenerateTypeDefaultValue / GenerateArrayDefaultValue in each target"}],
    ["values read through accessors, encoded bytes"])
add("C22", "Every form of an operation gives the same result",
    f"In each of {T8}, all the forms in which the API offers an operation agree: encoding to a new buffer or into a caller's buffer, at an offset or through a pointer, span, memory or array form; decoding and decode_size from each input type the target takes; static and instance or prototype forms; objects made by constructor or from properties. The size a struct announces (size) counts its fields of fixed size, dynamic is true exactly if it has a field of variable size at any depth.",
    ["programs", "histories", "configurations"],
    "every accepted schema x every value x every equivalent call form, with and without -compat, -memcpy and -minimal",
    "Tests call one form per target; the other overloads are separate generated code.",
    GEN,
    [{"name": "overloads of encode, decode, encode_size, decode_size", "where": "encoder/decoder templates in each target"},
     {"name": "size and dynamic constants", "where": "structConst templates; definition/struct.go"}],
    ["results of every overload, size, dynamic"])
add("C23", "Objects are equal exactly when their fields are, with equal hashes",
    "In Java and C#, comparing two objects of a struct is true exactly when all their fields hold equal values (nested structs, arrays, strings and byte sequences compared by content, however the objects came to hold them), it is symmetric, and equal objects have equal hash codes; objects that differ only in the sign of a zero may be either, consistently.",
    ["programs", "inputs", "histories"],
    "every accepted schema x every pair of objects: equal, differing in one field or element, decoded or assigned",
    "Tests compare no two objects; comparison code differs per field type, array element type and memory mode.",
    ["generator/target/java/java.go", "generator/target/csharp/csharp.go"],
    [{"name": "equals and hashCode", "where": "structDef template in java.go, Equals/GetHashCode in csharp.go"}],
    ["equals, hashCode / Equals, GetHashCode"])
add("C24", "Schema texts are read exactly by the grammar",
    "A text that follows the grammar (bubbler.g4) is never refused with a syntax error, and the blank space, comments and empty statements between its tokens, and ',' or ';' after an enum value, change neither the verdict, nor the messages (positions aside), nor the generated files. A text that does not follow it is refused with a syntax error at the line and column of the first token that cannot follow what stands before it, and at every character that begins no token, and nothing is written. No text makes the compiler crash or hang.",
    ["inputs"],
    "every sequence of tokens x every separation by blank space, comments and empty statements",
    "Tests compile a few dozen well-formatted files.",
    ["bubbler.g4", "compiler/compilation_runtime.go", "compiler/error_listener.go", "compiler/proto_visitor.go", "compiler/literal_visitor.go", "parser/"],
    [{"name": "lexer and parser set-up", "where": "getProtoAST in compilation_runtime.go"},
     {"name": "reporting syntax errors", "where": "error_listener.go"},
     {"name": "visiting elements", "where": "VisitStructBody, VisitEnumBody, VisitProto"}],
    ["exit status, syntax errors and their positions, output files"])
add("C25", "Names are judged by one rule and respelled consistently in every target",
    "A name is accepted exactly if its first character other than an underscore is a capital (structs, enums, enum members) or a small letter (fields, methods), and is refused at its position otherwise. An accepted name gets a warning at its position exactly if it is not in the recommended style of its kind (PascalCase, ALLCAP_CASE, snake_case), and the form the warning recommends keeps the letters and digits and is itself accepted without a warning (the Go target adds a warning of its own for fields that become private). In each of C, C++, C#, CommonJS, ES module, Go, Java and Python, the generated types and enum members have their names as written and lie in the package, namespace or module of the schema's package name (respelled in PascalCase in C#), and fields and accessors are found under their names respelled in the target's style (snake_case in C, C++ and Python, camelCase in JavaScript, PascalCase in C#, Go and after get or set in Java), whatever the style they are written in, if they differ in more than underscores and case.",
    ["inputs", "programs"],
    "every name x every kind of definition; every struct of differently spelled fields and accessors x every target",
    "Unit tests sample a dozen names of the conversion functions; the generators call them at some two hundred places.",
    ["util/name_style.go", "compiler/proto_visitor.go", "definition/warning.go"] + GEN,
    [{"name": "style checks", "where": "VisitStructName, VisitEnumName, VisitEnumValueName, VisitFieldName, VisitMethodName in proto_visitor.go"},
     {"name": "conversions", "where": "name_style.go"}],
    ["exit status, errors and warnings with positions; names in the generated API, what they store and read, encode output"])
out = os.path.join(HERE, "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
