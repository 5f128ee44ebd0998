"""Writes MANIFEST.json from the table below."""
import json
T = "TLA+ specification (TLC) + replay of its behaviours in the real code"
CLAIMED = {}
def claim(p, note, technique=T, level="model_checking"):
    CLAIMED[p] = (technique, level, note)
CODEC = ("TLC draws schemas and sessions from spec/Session.tla (wire format in spec/Wire.tla), checks the specification's invariants on every state, and every behaviour is replayed "
         "in the code bubbler generates for all eight targets. Sampled: holds for the behaviours explored; trusts TLC, the target compilers and the drivers in harness/targets.py. ")
claim("C01", CODEC + "The grid part walks type x width x bit offset x byte order cells systematically.")
claim("C02", CODEC + "The grid part walks type x width x bit offset x byte order cells systematically.")
claim("C03", CODEC + "Constant bits are flipped one or two at a time.")
claim("C04", CODEC + "All prefixes of messages up to 24 bytes, a sample of prefixes of longer ones.")
claim("C05", CODEC + "C and C++ run under AddressSanitizer; decode of C/C++ has no length and is not covered. Varints of five bytes or more may be refused or accepted.")
claim("C06", CODEC + "C and C++ run under AddressSanitizer.")
claim("C07", CODEC)
claim("C08", CODEC + "C and C++ run under AddressSanitizer; the input buffer is overwritten and freed after decode.")
claim("C09", CODEC + "A fixed list of option sets covering every option and interacting pairs.")
claim("C10", CODEC)
claim("C11", "spec/Layout.tla reads drawn and enumerated schemas as the compiler does and judges every construct; the real tool must accept exactly the files without a fault, and accepted Python output must report the specified sizes. The grid (element type x length x size x offset) is exhaustive in the thorough tier, a sixth of it in the quick one; the rest is sampled.")
claim("C12", "spec/Imports.tla resolves every import graph over three files (quick: every third) and every acyclic one over four, with sampled larger ones and drawn faults in names, packages and spellings; each world is written to disk and compiled by the real tool. Exhaustive over graphs within those bounds, sampled beyond.")
claim("C20", "spec/OMap.tla: all histories up to depth 4 (quick) or 5 (thorough) over two keys, and long drawn ones, replayed against util.OrderedMap with every observation compared.")
claim("C15", "spec/Output.tla derives, from drawn units, packages, package options, target and command-line options (with or without one injected error), the exact set of files a run writes; the real tool runs in a scratch directory and the whole tree below it, the exit status and standard error are compared. Sampled over worlds and options; all nine targets.")
claim("C16", "spec/Process.tla draws histories of compile/generate calls of several inputs, targets and option sets (failures included) in one process; a driver linked with /repo's packages replays them and every result is compared byte for byte with a fresh process, and also across working directories and locations. Sampled histories.")
claim("C17", CODEC + "Each drawn schema is spread over up to five files with drawn import graphs, packages and package options, and generated with nine option sets.")
claim("C13", CODEC + "Profiles with enums of every width from 1 to 64 bits, automatic numbers, aliases, gaps and numbers at the top of the width, as fields, constants, array elements and accessor-free struct members.")
claim("C18", CODEC + "spec/Literals.tla gives every literal spelling (base, sign, digit separators of escapes, floats, strings) its value; the spelled schema and the plain one must produce the same bytes.")
claim("C14", "spec/Exprs.tla draws accessors over typed fields, derives the value of each expression from the documented precedence and C-like arithmetic (exact integers and dyadic floats), and checks that the printed text parses back to the same tree; each behaviour of get and set calls is replayed through the accessors bubbler generates for all eight targets. Sampled; expressions are kept inside the domain where every target's arithmetic agrees (no overflow, exact floats, explicit casts).")
claim("C19", "spec/Layout.tla says where every fault of a drawn schema lies and spec/Imports.tla which file and spot of an import world is at fault; the real tool's diagnostics must name file, line and column of each independent fault and no valid place. Sampled; syntax errors beyond the first of a file are not required to be reported.")
claim("C21", CODEC + "Every store goes through one accessor (item, whole array, field of a nested object) and the whole object is then read back through others. Kotlin has no compiler here.")
claim("C22", CODEC + "Every operation of a session is done in one of up to six drawn forms; four option sets. C and C++ run under AddressSanitizer.")
claim("C23", CODEC + "Pairs of objects: equal, one leaf changed (often by one bit), independent, differing in the sign of a zero; three option sets.")
claim("C24", "spec/Syntax.tla holds the grammar and the lexical rules: token sequences are derived from the grammar or read from schemas of the other specifications, sometimes spoilt, written with drawn separators, and judged by a chart parser that knows the first impossible token; the real tool must agree on verdict and place, and must generate the same files whatever the separators. Exhaustive: all continuations of 32 beginnings to 2 tokens (3 in the thorough tier), replayed in full or by sample; the rest is sampled.")
claim("C25", "spec/Names.tla defines the words of a name and the four styles; every name over a capital, a small letter, a digit and the underscore up to 5 characters (7 in the thorough tier) goes through every kind of definition in the real tool, exhaustively, with verdict, position and recommendation compared; TLC proves on the same names that recommendations are final and keep the letters. Types of drawn names and histories of stores through their members are replayed in all eight targets; sampled.")
NA = {}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "python3 harness/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 harness/check.py %s quick" % p, "thorough_cmd": "python3 harness/check.py %s thorough" % p,
                 "technique": CLAIMED[p][0], "level": CLAIMED[p][1], "level_note": CLAIMED[p][2].strip()} for p in props if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NA.get(p, "not claimed yet: its specification is being written")} for p in props if p not in CLAIMED]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")
