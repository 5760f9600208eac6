NA = {}
TECH = {}
TECH["*"] = ("TLA+ small-step semantics (Amanda.tla) evaluated by TLC on generated programs, conformance of the real compiler and VM",
             "every behaviour TLC computes from the specification is replayed on the compiler and VM built from /repo; bounded by the generated programs")
TECH["C03"] = ("TLA+ specification of every path through bytecode (Code.tla over VM.tla), checked by TLC on the modules the real compiler writes",
               "all paths of every module compiled are covered exhaustively on abstract operands; the modules are those of generated and enumerated programs")
TECH["C23"] = ("TLA+ specification of the instruction set (VM.tla) evaluated by TLC on modules, replayed on the real VM",
               "each instruction on tables of operands, all operand widths and hand-assembled, random and compiled code; bounded by those modules")
TECH["C02"] = ("TLA+ specification of the static semantics (AmaStatic.tla) evaluated by TLC on enumerated and mutated programs; the verdict and line of the real compiler must be one it allows; accepted programs run as Amanda.tla predicts",
               "every generated combination of operand, target and declaration types, and mutated programs; bounded by those programs")
TECH["C20"] = ("TLA+ specification of the static semantics (AmaStatic.tla) evaluated by TLC on enumerated and mutated programs; the verdict and line of the real compiler must be one it allows; accepted programs run as Amanda.tla predicts",
               "every nesting of branches and returns to depth 2, and mutated programs; bounded by those programs")
TECH["C13"] = ("TLA+ specification of scanning (Syntax.tla, Scan) evaluated by TLC on character pairs, literals, token soup and mutated texts; kind, text and line of every token of the real lexer compared",
               "every pair of token classes and every literal form, and mutated and random texts; bounded by those texts")
TECH["C14"] = ("TLA+ pushdown specification of the grammar (Syntax.tla) evaluated by TLC: the phrases it groups are written back with full parentheses and must compile to the same bytecode and values",
               "every pair and triple of operators with operands of each kind, and generated, mutated and random programs; bounded by those")
TECH["C21"] = ("TLA+ specification of the grammar (Syntax.tla) evaluated by TLC on sentences it generates itself (SyntaxWalk.tla), edited sentences, soup and mutated programs; verdict and line compared, no crash; AmaStatic.tla verdicts on enumerated wrong programs",
               "the texts generated from the grammar and mutated; bounded by those")

TECH["C15"] = ("TLA+ specification of the file format (Bson.tla: encoder, element-per-step reader, constants; RoundTrip and Within checked by TLC); documents it predicts compared with what bindump writes and what the VM reads",
               "every document TLC encodes is compared byte by byte and read back by the VM; bounded by the enumerated and generated documents and modules")
TECH["C22"] = ("TLA+ specification of processes and histories (Host.tla): TLC generates histories of seeds, runs and namings, they are replayed in real processes, and TLC checks that what was recorded is a behaviour of the specification",
               "every recorded history is followed event by event by TLC; bounded by the histories and programs generated")
