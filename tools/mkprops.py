"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[min(i, len(files) - 1)]} for i, m in enumerate(mech)]}
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
CG, CK, PA = "amanda/compiler/codegen.py", "amanda/compiler/check/core.py", "amanda/compiler/parse.py"
TY, VM, AV = "amanda/compiler/types/core.py", "amanda/vm/src/vm.rs", "amanda/vm/src/ama_value.rs"
TR, EX, IG = "amanda/compiler/transform.py", "amanda/compiler/check/exhaustiveness.py", "amanda/compiler/check/iguala.py"
BD, BL = "amanda/compiler/bindump.py", "amanda/vm/src/binload.rs"
BI = "amanda/vm/src/modules/builtins/embutidos.rs"
E = "standard output, standard error and exit status of `python -m amanda FILE`"

p("C01", "A program does what its source says",
  "Every accepted program, run to its end, prints exactly the lines that the meaning of its source prescribes: statements run in textual order, operands and arguments are evaluated left to right exactly once, and assignments, conditionals, loops and calls have their ordinary meaning. Compiling and running never adds, drops, reorders or alters an effect, however the language's constructs are combined and nested.",
  ["programs", "inputs"], "all well-typed programs built from any combination of the language's statements and expressions",
  "The ~230 end-to-end cases each show one construct in a few lines; no test nests constructs, and the number of combinations is unbounded.",
  [CG, TR, VM], ["ByteGen.gen_* translation", "ASTTransformer desugaring", "AmaVM::run dispatch loop"], E)
p("C02", "Exactly the well-typed programs are accepted",
  "A program is accepted if and only if it obeys the language's typing rules for operators, assignments, arguments, conditions, indices, fields, conversions and return values. An ill-typed program is rejected with a diagnostic that names the line of the offending construct, and none of its effects happen.",
  ["programs"], "all type-correct and type-incorrect programs: every operator, conversion and assignment position with every combination of operand types",
  "Tests pick a few operand types per operator; the rule tables are a product of positions, operators and an infinite set of types.",
  [CK, TY, "amanda/compiler/ops.py"], ["Analyzer.visit_*", "Type.binop/unaryop/promote_to/check_cast"], E)
p("C03", "Compiled bytecode is structurally safe on every path",
  "For every accepted program, every control path through the bytecode of each function and module keeps the operand stack consistent: no instruction finds too few operands, both sides of a join agree on the stack height, and statements leave nothing behind. Every jump lands on an instruction of the same function, every constant, name, local, record and module index is in range, and no path runs off the end.",
  ["programs"], "all accepted programs, all paths of their control-flow graphs including those no input takes",
  "Tests run a program along one path; a misplaced jump or a leftover operand on another path, or one that the rest of the run happens to tolerate, is invisible to them.",
  [CG, VM, BL], ["append_op/patch_label_loc/write_op_bytes", "AmaVM op_push/op_pop/reserve_stack_space"], "the serialized module the compiler hands to the VM")
p("C04", "Names mean their innermost declaration and variables never interfere",
  "Every use of a name refers to the innermost enclosing declaration that precedes it, and a variable changes only when it is itself assigned. No two variables that are alive at the same time share storage, whatever blocks, loops, branches, patterns, parameters or functions declare them; using a name out of its scope or declaring it twice in one scope is rejected.",
  ["programs"], "all placements of declarations and uses over nested blocks, functions, methods, loops and pattern arms",
  "Storage conflicts depend on how many names each nesting level declares; tests declare one or two names at one level.",
  [CK, CG, "amanda/compiler/symbols/core.py"], ["Scope.resolve/define_symbol/out_id", "ByteGen.declare_local/set_variable"], E)
p("C05", "Calls bind arguments, isolate frames and return to their caller",
  "A call evaluates its arguments left to right, binds them to the parameters by position, runs the body with its own fresh set of local variables, and continues in the caller with the value returned. This holds at any depth of recursion up to the limit of 1000 active frames, and a call beyond that limit ends the program with the recursion-limit error.",
  ["programs", "histories"], "all call graphs, recursion depths up to and beyond the limit, and argument counts from 0 to the maximum",
  "Tests make shallow calls with few parameters and never look at the caller's variables after deep or nested calls.",
  [VM, CG, "amanda/vm/src/values/function.rs"], ["CallFunction/Return", "FrameStack", "gen_functiondecl/gen_call"], E)
p("C06", "Integer arithmetic is exact or reported",
  "Arithmetic and comparison on whole numbers give the mathematically exact result whenever it fits in 64 bits signed, with `//` truncating towards zero and `%` taking the sign of the dividend. A result that does not fit, or a division or remainder by zero, ends the program with the corresponding runtime error: never a wrong value and never a crash.",
  ["inputs", "programs"], "all pairs of 64-bit integers, at and around every boundary, for every operator, in every operand position",
  "Tests use small numbers; the boundary cases are spread over a 2^128 input space per operator.",
  [AV, VM, PA, BL], ["AmaValue::binop", "OpInvert", "Const::from_str"], E)
p("C07", "An int used where a real is expected becomes a real",
  "Wherever the typing rules let an int stand for a real (assignment, initialisation, argument, return value, element, field, optional value, operand or pattern result), the value stored or used is the real number of the same magnitude and behaves and prints as a real from then on. It does not depend on which kind of expression produces the int.",
  ["programs"], "the product of every kind of int-valued expression with every position that expects a real",
  "Tests cover constants and variables in a few positions; the promotion is a separate code path for each expression kind and each position.",
  [CG, CK], ["gen_auto_cast/prom_type", "Type.promote_to"], E)
p("C08", "Vectors behave as shared mutable sequences with checked bounds",
  "A vector is one shared object: every alias sees every element assignment, anexa and remova, and distinct vectors (including the rows of a multi-dimensional vector) never share elements. Reading, writing or removing at an index outside 0..size-1 ends the program with the index error giving that size and index, and leaves the vector unchanged.",
  ["histories", "inputs"], "all sequences of creation, aliasing, element read/write, anexa, remova and tam on any number of vectors of any dimension",
  "Tests perform one or two operations on one vector; aliasing and off-by-one errors need longer histories.",
  [VM, BI, AV, CG], ["OpIndexGet/OpIndexSet/BuildVec", "vec/anexa/remova/tam", "vec_index_check"], E)
p("C09", "Records keep their fields and methods dispatch on the target's type",
  "A record object holds for each declared field the last value given to it, whatever the order of the named arguments, and all references to one object see every field update while different objects never affect each other. A method call runs the method declared for the static type of its target, with the target as alvo, even when other types or functions use the same name.",
  ["histories", "programs"], "all record declarations, orders of named arguments, histories of field reads and updates through aliases, and sets of same-named methods",
  "Tests build one record and call one method; they have no aliases, no permuted arguments and no name shared by two types.",
  [CG, CK, TR, "amanda/vm/src/values/registo.rs"], ["BuildObj/GetProp/SetProp", "visit_methoddecl/transform_call"], E)
p("C10", "Optional values are either nulo or exactly the value stored",
  "A variable, field, parameter, element or result of type T? is nulo or holds a T; comparing with nulo tells which, valor gives the T or ends the program with the null-reference error, and valor_ou gives the T or the default. No operation on an optional value turns nulo into a value or a value (including 0, falso and the empty text) into nulo.",
  ["programs", "inputs"], "all optional types, all ways an optional is produced and passed on, and all element values including the falsy ones",
  "Tests check nulo against one or two types in one position.",
  [CG, TY, TR, VM], ["gen_unwrap/OP_ISNULL/OP_UNWRAP", "ConstructedTy"], E)
p("C11", "iguala takes the first arm that matches, and accepts only complete matches",
  "An iguala runs exactly the first arm, in textual order, whose pattern matches the value, with each pattern variable bound to the matching part, and yields that arm's value. A match that leaves some possible value without an arm is rejected at compile time, and a complete one is never rejected.",
  ["inputs", "programs"], "all union declarations, sequences of arms over them (with literal, variable, wildcard and variant patterns) and values",
  "The decision tree depends on the interaction of all arms; tests have at most a handful of arm sequences.",
  [EX, IG, CG], ["IgualaCompiler", "check_iguala", "gen_iguala_from_ir"], E)
p("C12", "Modules are loaded once, in dependency order, and expose what was asked",
  "Whatever the import graph and import forms, each module's top level runs exactly once, before the code of any module that imports it. An imported name denotes the imported module's own definition, a module's own variables stay one shared instance that importers can read but not assign, missing items or files are rejected, and a cyclic import is rejected rather than looping or running half-initialised modules.",
  ["configurations", "programs"], "all import graphs (chains, diamonds, cycles) with every mix of the three import forms",
  "Tests import one module, or two in a row; order and sharing depend on the whole graph.",
  [CK, CG, TR, VM, "amanda/compiler/__init__.py"], ["Analyzer.load_module", "ByteGen.compile imports", "LoadModuleDef"], E)
p("C13", "Source text is split into the right tokens with the right positions",
  "Any text is divided into tokens by longest match: comments and blanks separate tokens and mean nothing else, keywords are recognised only as whole words, literals denote the value written (including escapes), and each token carries the line it starts on. Text that is not a token is rejected with its line, and tokenising always terminates.",
  ["inputs"], "all texts, in particular all short sequences over the significant characters and all adjacent token pairs",
  "Tests tokenise each operator in isolation; errors appear for particular neighbours, at end of file and across lines.",
  [PA, "amanda/compiler/tokens.py"], ["Lexer.get_token", "Token.from_char"], "Lexer.get_token and program output")
p("C14", "Operators group by the documented precedence and associativity",
  "For any expression, the value computed is that of the fully parenthesised form prescribed by the grammar: conversions, calls, indexing and field access bind tightest, then unary operators, then * / // % e, then + - ou, then comparisons, then equality, all binary operators grouping to the left and assignment to the right. Parentheses override this and redundant parentheses change nothing.",
  ["inputs", "programs"], "all expressions over all operators up to a bounded number of operators, with and without parentheses",
  "Tests pin a few expressions; a wrong grouping shows only for particular operator pairs and operand values.",
  [PA, "amanda/compiler/ast.py"], ["Parser.equality..primary"], E)
p("C15", "What the compiler serializes is what the VM loads",
  "The byte string produced for any module or document decodes, by the binary format's rules, to exactly the structure that was encoded: every length, type tag, name, text (any Unicode), integer, real and byte array. The VM loads from it exactly the constants, names, instructions, functions and records the compiler emitted, for any module size.",
  ["inputs"], "all documents the compiler can emit: all nestings, all key and text contents, all integers, all sizes including beyond one- and two-byte boundaries",
  "Tests compare a handful of small documents with one reference encoder and never load them in the VM.",
  [BD, BL, CG], ["bindump.dumps", "binload::load_bin", "Const::from_str"], "bytes handed to run_module and program output")
p("C16", "Runtime errors are reported at the right place and nothing runs afterwards",
  "When an operation fails at run time, everything printed before it is on standard output, nothing after it runs, the exit status is 1, and the report gives the line of the failing statement and, innermost first, the line and name of every active call. A program that ends normally exits with status 0 and an empty error stream, and a rejected program prints a diagnostic with file and line.",
  ["programs", "histories"], "all kinds of runtime error, at any statement position, nesting depth, call chain and module",
  "Tests check one or two error lines in straight-line code; the line table is an interval map whose mistakes depend on program layout.",
  [CG, VM, "amanda/__main__.py", "amanda/compiler/error.py"], ["src_map/append_op", "offset_to_line/panic_and_throw", "handle_exception"], E)
p("C17", "Texts and format strings keep every character",
  "A text value holds exactly the characters written, indexing and tam count user-perceived characters, and a format string yields its literal parts unchanged interleaved with the printed form of its expressions. This holds for any Unicode content, for literal parts that look like numbers, keywords or quotes, and for any number of parts.",
  ["inputs"], "all literal contents and all sequences of literal parts and expressions",
  "Tests use short ASCII words; a literal part that happens to look like something else is needed to expose a fault.",
  [PA, CG, BL, VM], ["parse_format_str", "gen_fmtstr/BuildStr", "OpIndexGet", "Const::from_str"], E)
p("C18", "Conversions give the documented value or the documented error",
  "A conversion between basic types gives the value the language defines (truncation from real to int, printed form to texto, parsing from texto, truth value to bool) or, if a text does not denote a number or an indef value has another type, ends the program with the conversion error. A value passed through indef keeps its type and value.",
  ["inputs", "programs"], "all values of all basic types and all pairs of source and target types, directly and through indef",
  "Tests convert one value per pair of types.",
  [AV, VM, CG, TY], ["cast/check_cast", "gen_converta", "Primitive.cast_to"], E)
p("C19", "Loops, jumps and choices run exactly the iterations and branches prescribed",
  "para visits start, start+step, ... below the end; enquanto repeats while its condition holds; quebra leaves and continua resumes the innermost enclosing loop; escolha and se run exactly one branch, the first that applies. This holds for any nesting of loops and choices, in functions or at the top level, and quebra or continua outside a loop is rejected.",
  ["programs"], "all nestings of loops, branches and jumps, and all ranges including empty and stepped ones",
  "Tests have single loops; a jump target is saved and restored per nesting level, which only nested programs exercise.",
  [CG, CK, TR], ["gen_enquanto/gen_para/gen_loopctlstmt", "visit_loopctlstmt", "transform_escolha"], E)
p("C20", "A function with a result returns on every path",
  "A function or method that declares a result is accepted if and only if its body returns by the language's rule: a block returns when one of its statements does, a retorna returns, a se or escolha returns when it has a senao and all its branches return, a match when all its arms do, and a loop when its body does. So a body with a branch that can be left without a retorna is always rejected, with the function's line, and one whose branches all return never is; an accepted call without a loop in the way yields a value that some retorna produced.",
  ["programs"], "all nestings of conditionals, loops and returns in function bodies",
  "Tests cover single-level bodies; path coverage is a property of the whole nesting.",
  [CK], ["has_return_*", "validate_return"], E)
p("C21", "Every input gets a verdict: a run or a diagnostic, never a crash",
  "For any text given as a program, the tool either runs it or stops with one diagnostic in the documented format that names a file and line; a running program either ends normally or with a runtime error report. No input makes the compiler raise an internal exception or hang, or makes the virtual machine panic or abort.",
  ["inputs", "programs"], "all texts: well-formed, mutated, truncated and token-shuffled programs",
  "Tests use inputs somebody thought of.",
  [PA, CK, CG, VM, "amanda/__main__.py"], ["Parser", "Analyzer", "ByteGen", "AmaVM::run"], E)
p("C22", "Compiling and running are deterministic",
  "The same sources compile to the same bytecode, the same diagnostics and the same run, byte for byte, in every process, whatever the hash seed, the earlier compilations of the process, and the way the main file is named (relative, absolute, or from another directory when it imports nothing, since imports are looked up in the working directory).",
  ["configurations", "histories"], "all programs and all process environments (hash seeds, naming of the file, earlier compilations in the process)",
  "Tests run under one hash seed and compare nothing across runs.",
  [CK, CG, EX, "amanda/compiler/__init__.py"], ["generic parameter sets", "symbol mangling", "missing_patterns"], E)
p("C23", "The virtual machine executes the instruction set as specified",
  "For every compiled module the virtual machine's observable run equals the execution prescribed, instruction by instruction, by the instruction set: operand order, stack effect, jump condition, frame layout, result and error of each instruction. This includes operand values, counts and addresses larger than the small ones ordinary programs use.",
  ["programs", "inputs"], "all instructions with all operand kinds and sizes, in compiled and in hand-assembled modules",
  "Tests only see instructions through small programs, so one- and two-byte boundaries and unusual operand mixes never occur.",
  [VM, "amanda/vm/src/opcode.rs", AV, BL], ["AmaVM::run", "get_u16_arg/get_u64_arg"], "output of run_module on a module")
p("C24", "Built-in input and output functions transfer exactly the data",
  "leia returns exactly the next input line without its line end, leia_int and leia_real return the number it denotes or end the program with the invalid-value error, and escreva and escrevaln print the value without and with a line end, interleaved in program order with mostra. txt_contem is true exactly when the second text occurs in the first, and the mathematical functions of the mat module give the defined values.",
  ["inputs", "histories"], "all sequences of input lines and of reads and writes",
  "Tests cannot feed input to most of these functions and never interleave them.",
  [BI, "amanda/vm/src/modules/builtins/mat.rs", "std/embutidos.ama", "std/mat.ama"], ["leia*/escreva*", "txt_contem", "mat"], E)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
