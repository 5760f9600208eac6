From c9a402f0fee44987ac2a9dc76c752dcbd70fc912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 01/84] fix: compound assignment to a field dropped the field's
 current value

---
 amanda/compiler/parse.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index c1dff76..cf911fd 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1001,7 +1001,14 @@ class Parser:
 
             self.consume(current)
             if isinstance(expr, ast.Get):
-                expr = ast.Set(target=expr, expr=self.assignment())
+                # The target of the Set and the left operand can't be the same
+                # node, since the child of a Set doesn't load the property
+                expr = ast.Set(
+                    target=expr,
+                    expr=ast.BinOp(
+                        token, left=copy.deepcopy(expr), right=self.equality()
+                    ),
+                )
             elif isinstance(expr, ast.IndexGet):
                 expr = ast.IndexSet(
                     token,
-- 
2.43.0


From fa46baf98a64481076f0466efba21d00d30939d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 02/84] fix: iguala rows shared by several cases lost their
 columns and mixed their bindings

---
 amanda/compiler/check/exhaustiveness.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 4e907af..38183cb 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -53,6 +53,12 @@ class Row:
     guard: int | None
     body: Body
 
+    def copy(self) -> Row:
+        # Compiling a row consumes its columns and extends its bindings, so
+        # a row that belongs to several cases needs a copy for each of them
+        body = Body(list(self.body.bindings), self.body.value)
+        return Row(list(self.columns), self.guard, body)
+
     def remove_column(self, variable: VariableSymbol) -> Column | None:
         try:
             idx = list(map(lambda c: c.variable, self.columns)).index(variable)
@@ -289,7 +295,10 @@ class IgualaCompiler:
 
         if rows and not rows[0].columns:
             row = rows.pop(0)
-            self.diagnostics.reachable.append(row.body.value)
+            if not any(
+                block is row.body.value for block in self.diagnostics.reachable
+            ):
+                self.diagnostics.reachable.append(row.body.value)
             guard = row.guard
             return (
                 DGuard(guard, row.body, self._compile_rows(rows))
@@ -363,8 +372,8 @@ class IgualaCompiler:
             else:
                 fallback_rows.append(row)
 
-        for _, _, rows in raw_cases:
-            rows.extend(fallback_rows)
+        for _, _, case_rows in raw_cases:
+            case_rows.extend([row.copy() for row in fallback_rows])
 
         cases = list(
             map(
@@ -419,8 +428,8 @@ class IgualaCompiler:
                         cols.append(Column(var, pat))
                     cases[idx][2].append(Row(cols, row.guard, row.body))
             else:
-                for _, _, rows in cases:
-                    rows.append(row)
+                for _, _, case_rows in cases:
+                    case_rows.append(row.copy())
 
         return list(
             map(
-- 
2.43.0


From d21c27c3caf47186f467531d9edb548081c5cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 03/84] fix: iguala on int and texto never ran its fallback
 alternative

---
 amanda/compiler/codegen.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 11a55e3..9ad092e 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -759,8 +759,8 @@ class ByteGen:
                         unwrap(unwrap(body.value.symbols).resolve(name))
                     )
                 self.gen(body.value)
-            case DSwitch(variable=var, cases=cases):
-                self.gen_iguala_cases(node, var, cases)
+            case DSwitch(variable=var, cases=cases, fallback=fallback):
+                self.gen_iguala_cases(node, var, cases, fallback)
             case _:
                 unreachable("Invalid decision node")
         pass
@@ -797,7 +797,11 @@ class ByteGen:
                 pass
 
     def gen_iguala_cases(
-        self, node: ast.Iguala, var: symbols.VariableSymbol, cases: list[Case]
+        self,
+        node: ast.Iguala,
+        var: symbols.VariableSymbol,
+        cases: list[Case],
+        fallback: Decision | None,
     ):
         after_if = self.new_label()
         after_block = self.new_label()
@@ -822,6 +826,9 @@ class ByteGen:
             self.append_op(OpCode.JUMP, after_if)
             self.patch_label_loc(after_elsif)
 
+        if fallback:
+            self.gen_iguala_from_ir(node, fallback)
+
         self.patch_label_loc(after_if)
 
     def gen_functiondecl(self, node: ast.FunctionDecl):
-- 
2.43.0


From b6f4a211ee354d9a40009cd93dee7255de2ef9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 04/84] fix: pattern variables of the same name in nested
 igualas shared storage

---
 amanda/compiler/check/exhaustiveness.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 38183cb..5205049 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -236,8 +236,13 @@ class Match:
     def _declare_block_symbols(self, tree: Decision):
         match tree:
             case DSuccess(body):
+                block_scope = unwrap(body.value.symbols)
                 for name, var in body.bindings:
-                    unwrap(body.value.symbols).define(
+                    # Pattern variables have already been declared with an
+                    # id of their own while checking the pattern
+                    if block_scope.get(name):
+                        continue
+                    block_scope.define(
                         name, VariableSymbol(name, var.type, var.module)
                     )
             case DSwitch(cases=cases):
-- 
2.43.0


From 138a786d415a4edd02ef8643da84929327b2c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 05/84] fix: redeclaring a local slot let two pattern variables
 share storage

---
 amanda/compiler/codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 9ad092e..4550e54 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -558,6 +558,8 @@ class ByteGen:
             self.append_op(OpCode.SET_LOCAL, self.func_locals[local])
 
     def declare_local(self, symbol: Symbol) -> int:
+        if symbol.out_id in self.func_locals:
+            return self.func_locals[symbol.out_id]
         idx = len(self.func_locals)
         self.func_locals[symbol.out_id] = idx
         return idx
-- 
2.43.0


From 5290875ff1def69a9ebddf016b62a70721d03ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 06/84] fix: variables at different depths could get the same
 storage

---
 amanda/compiler/check/core.py   | 3 ++-
 amanda/compiler/symbols/core.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 0932214..fe9fbd4 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -173,7 +173,8 @@ class Analyzer(ast.Visitor):
         self, symbol: symbols.Symbol, depth: int, scope: symbols.Scope
     ):
         if not self.is_valid_name(symbol.name) or depth >= 1:
-            symbol.out_id = f"_r{depth}{scope.count()}_"
+            # The separator keeps (1, 10) and (11, 0) apart
+            symbol.out_id = f"_r{depth}_{scope.count()}_"
         scope.define(symbol.name, symbol)
 
     def get_type_sym_or_err(self, type_id: str) -> Type:
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 42c46c1..b654512 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -165,7 +165,7 @@ class Scope:
         return len(self.symbols)
 
     def new_unique_var(self, type: Type, module: Module) -> VariableSymbol:
-        symbol = VariableSymbol(f"_r{self.count()}_", type, module)
+        symbol = VariableSymbol(f"_m{self.count()}_", type, module)
         self.define(symbol.name, symbol)
         return symbol
 
-- 
2.43.0


From 232f72f37a9a4489eec653a2981cebf13088f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 07/84] fix: iguala on anything but a variable crashed the
 compiler

---
 amanda/compiler/codegen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 4550e54..994613f 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -750,6 +750,11 @@ class ByteGen:
         self.exit_block()
 
     def gen_iguala(self, node: ast.Iguala):
+        # Targets that are not a reference to a variable have a variable of
+        # their own
+        if not isinstance(node.target, (ast.Variable, ast.Alvo)):
+            self.gen(node.target)
+            self.set_variable(unwrap(node.target_binding))
         self.gen_iguala_from_ir(node, node.ir.tree)
 
     def gen_iguala_from_ir(self, node: ast.Iguala, decision: Decision):
-- 
2.43.0


From f9aeadfae1c103f2a2a3d7f39aaf6f7d21099157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 08/84] fix: iguala left its target on the operand stack

---
 amanda/compiler/codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 994613f..6e0d81c 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -789,12 +789,12 @@ class ByteGen:
                 unreachable("Unknown constructor")
 
     def gen_iguala_case_bindings(self, var: symbols.VariableSymbol, case: Case):
-        self.load_variable(var)
         match case.constructor:
             case VariantCons(name=name):
                 cargs = case.arguments
                 if not cargs:
                     return
+                self.load_variable(var)
                 for arg in cargs:
                     # Declare local and push local index into stack
                     idx = self.declare_local(arg)
-- 
2.43.0


From bd51319931caa244f1815abff16be2414cea2020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 09/84] fix: reporting a missing pattern over a text crashed,
 and duplicate constants split an iguala

---
 amanda/compiler/check/exhaustiveness.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 5205049..98bad05 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -216,7 +216,7 @@ class Match:
                             terms.append(
                                 Term(var, "true" if val == 1 else "false", [])
                             )
-                        case IntCons():
+                        case IntCons() | StrCons():
                             terms.append(Term(var, "_", []))
                         case VariantCons(name=name):
                             args = case.arguments
@@ -368,8 +368,8 @@ class IgualaCompiler:
                     case _:
                         raise NotImplementedError("Invalid pattern")
 
-                if index := tested.get(key):
-                    raw_cases[index][2].append(row)
+                if key in tested:
+                    raw_cases[tested[key]][2].append(row)
                     continue
 
                 tested[key] = len(raw_cases)
-- 
2.43.0


From ea9ea4a4865ad9cfdf0c50f2e715301c92e6a1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 10/84] fix: an iguala alternative that can't be reached
 crashed the compiler

---
 amanda/compiler/check/iguala.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 2826a1f..4e7c553 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -73,6 +73,10 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
                 expected=iguala.eval_type,
                 actual=block.eval_type,
             )
+    # Blocks that can't be reached are still part of the program
+    for arm in iguala.arms:
+        if not any(arm.body is b for b in tree.diagnostics.reachable):
+            checker.visit(arm.body)
     iguala.ir = tree
     checker.leave_scope()
 
-- 
2.43.0


From 82aa56d51f5fe713ad5f227b556d8e9df5196ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 11/84] fix: bool and real patterns crashed the parser

---
 amanda/compiler/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index cf911fd..ed39d26 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -843,7 +843,7 @@ class Parser:
                     case TT.STRING:
                         return ast.StrPattern(token)
                     case _:
-                        unreachable("Unhandled constant pattern")
+                        self.error("Padrão inválido")
             case _:
                 self.error("Padrão inválido")
 
-- 
2.43.0


From cc74017a49731f9ff5c100615e41ba1c12950dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 12/84] fix: an int where a real is expected was only converted
 for some expressions

---
 amanda/compiler/check/core.py |  1 +
 amanda/compiler/codegen.py    | 22 ++++++++++++----------
 amanda/compiler/transform.py  |  4 ++++
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index fe9fbd4..33541fe 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -959,6 +959,7 @@ class Analyzer(ast.Visitor):
                     else f"Itens do tipo '{idx_ty}' não podem ser modificadas por meio de índices"
                 )
         self.visit(value)
+        value.prom_type = value.eval_type.promote_to(index.eval_type)
         if not self.types_match(index.eval_type, value.eval_type):
             self.ctx_node = node
             self.error(
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 6e0d81c..342e265 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -12,8 +12,9 @@ from amanda.compiler.check.exhaustiveness import (
 )
 from amanda.compiler.symbols.base import Constructor, Symbol
 import amanda.compiler.symbols.core as symbols
-from amanda.compiler.types.builtins import Builtins
+from amanda.compiler.types.builtins import Builtins, SrcBuiltins
 from amanda.compiler.types.core import (
+    ConstructedTy,
     IntCons,
     Primitive,
     Registo,
@@ -428,6 +429,8 @@ class ByteGen:
             result = gen_method(node, args)
         else:
             result = gen_method(node)
+        if isinstance(node, ast.Expr):
+            self.gen_auto_cast(node)
         return result
 
     def enter_block(self, scope):
@@ -473,7 +476,6 @@ class ByteGen:
         literal = str(node.token.lexeme)
         idx = self.get_table_index(literal, self.CONST_TABLE)
         self.append_op(OpCode.LOAD_CONST, idx)
-        self.gen_auto_cast(node.prom_type)
 
     def load_variable(self, symbol: Symbol):
         name = symbol.name
@@ -503,11 +505,8 @@ class ByteGen:
         # 'visit_variable' so that symbol attribute can be set
         if symbol is None:
             symbol = self.scope_symtab.resolve(name)
-        # TODO: Handle prom_type later
-        prom_type = node.prom_type
         var_scope = self.scope_symtab.resolve_scope(name, self.depth)
         self.load_variable(symbol)
-        self.gen_auto_cast(prom_type)
 
     def gen_path(self, node: ast.Path):
         # raise ValueError("Symbol should have been resolved before codegen!")
@@ -592,7 +591,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_binop(self, node: ast.BinOp):
         operator = node.token.token
@@ -651,7 +649,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_se(self, node):
         else_branch = node.else_branch
@@ -894,7 +891,6 @@ class ByteGen:
             self.append_op(OpCode.BUILD_OBJ, len(node.fargs))
         else:
             self.append_op(OpCode.CALL_FUNCTION, len(node.fargs))
-        self.gen_auto_cast(node.prom_type)
 
     def gen_namedarg(self, node: ast.NamedArg):
         self.load_name(node.name.lexeme)
@@ -922,8 +918,14 @@ class ByteGen:
         arg = 0 if target_t != Builtins.Indef else 1
         self.append_op(OpCode.CAST, arg)
 
-    def gen_auto_cast(self, prom_type: Type):
-        if not prom_type or prom_type != Builtins.Real:
+    def gen_auto_cast(self, node: ast.Expr):
+        prom_type = node.prom_type
+        if not prom_type:
+            return
+        if prom_type.is_constructed_from(SrcBuiltins.Opcao):
+            # An optional is represented by the value it contains
+            prom_type = cast(ConstructedTy, prom_type).bound_ty_args["T"]
+        if prom_type != Builtins.Real or node.eval_type != Builtins.Int:
             return
         self.load_variable(prom_type)
         self.append_op(OpCode.CAST, 0)
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index d034a5c..24f6d41 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -33,6 +33,10 @@ class ASTTransformer:
             return node
         if new_node == node:
             return node
+        if isinstance(node, ast.Expr) and isinstance(new_node, ast.Expr):
+            # The new node stands for the same value
+            new_node.eval_type = node.eval_type
+            new_node.prom_type = node.prom_type
         parent: ast.ASTNode = node.parent
         if not parent:
             raise ValueError(
-- 
2.43.0


From d7b8dff7d0db65e28ff61c0181dfd66ce564c57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 13/84] fix: assigning a field to another field aborted the VM

---
 amanda/compiler/codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 342e265..464125a 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -970,7 +970,7 @@ class ByteGen:
         self.gen(node.target)
         self.load_name(node.member.lexeme)
         assert node.parent, "Parent must not be none"
-        if node.child_of(ast.Set):
+        if isinstance(node.parent, ast.Set) and node.parent.target is node:
             return
         self.append_op(OpCode.GET_PROP)
 
-- 
2.43.0


From ad37b22471d7487dcc4c8df6c52d2b7d62687db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 14/84] fix: expression statements left their value on the
 operand stack

---
 amanda/compiler/codegen.py | 31 ++++++++++++++++++++++++-------
 amanda/vm/src/opcode.rs    |  4 +++-
 amanda/vm/src/vm.rs        |  3 +++
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 464125a..4c0f732 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -122,6 +122,8 @@ class OpCode(Enum):
     BIND_MATCH_ARGS = auto()
     # Checks if the variant at TOS is has the integer tag specified by the 64-bit argument.
     MATCH_VARIANT = auto()
+    # Discards TOS.
+    POP_TOP = auto()
     # Stops execution of the VM. Must always be added to stop execution of the vm
     HALT = 0xFF
 
@@ -130,7 +132,7 @@ class OpCode(Enum):
         # uses
         num_ops = len(list(OpCode))
         assert (
-            num_ops == 43
+            num_ops == 44
         ), f"Please update the size of ops after adding a new Op. New size: {num_ops}"
         match self:
             case (
@@ -442,16 +444,25 @@ class ByteGen:
         self.scope_symtab = self.scope_symtab.enclosing_scope
         num_locals = len(self.func_locals)
 
+    def gen_statement(self, node: ast.ASTNode):
+        self.gen(node)
+        # The value of an expression used as a statement is not needed.
+        # Assignments do not produce a value
+        if isinstance(node, ast.Expr) and not isinstance(
+            node, (ast.Assign, ast.IndexSet, ast.Set)
+        ):
+            self.append_op(OpCode.POP_TOP)
+
     def compile_block(self, node):
         self.enter_block(node.symbols)
         for child in node.children:
-            self.gen(child)
+            self.gen_statement(child)
         self.exit_block()
 
     def gen_yieldblock(self, node: ast.YieldBlock):
         self.enter_block(node.symbols)
         for child in node.children:
-            self.gen(child)
+            self.gen_statement(child)
         self.exit_block()
 
     def get_variant_index(self, variant: Variant) -> int:
@@ -695,7 +706,7 @@ class ByteGen:
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Block
         for child in block.children:
-            self.gen(child)
+            self.gen_statement(child)
         self.append_op(OpCode.JUMP, loop)
         # END LOOP
         self.patch_label_loc(after_loop)
@@ -731,7 +742,7 @@ class ByteGen:
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Body
         for child in block.children:
-            self.gen(child)
+            self.gen_statement(child)
         # update: control_var += inc
         if not range_expr.inc:
             self.load_const(1)
@@ -753,6 +764,9 @@ class ByteGen:
             self.gen(node.target)
             self.set_variable(unwrap(node.target_binding))
         self.gen_iguala_from_ir(node, node.ir.tree)
+        # An iguala always produces a value, just like a call
+        if node.eval_type == Builtins.Vazio:
+            self.load_const("falso")
 
     def gen_iguala_from_ir(self, node: ast.Iguala, decision: Decision):
         match decision:
@@ -854,7 +868,7 @@ class ByteGen:
         if not func_symbol.is_builtin():
             self.enter_block(block.symbols)
             for child in block.children:
-                self.gen(child)
+                self.gen_statement(child)
             self.exit_block()
 
         # default return
@@ -904,7 +918,10 @@ class ByteGen:
         self.append_op(OpCode.RETURN)
 
     def gen_produz(self, node: ast.Produz):
-        self.gen(unwrap(node.exp))
+        exp = unwrap(node.exp)
+        self.gen(exp)
+        if exp.eval_type == Builtins.Vazio:
+            self.append_op(OpCode.POP_TOP)
 
     def gen_converta(self, node: ast.Converta):
         target_t = node.target.eval_type
diff --git a/amanda/vm/src/opcode.rs b/amanda/vm/src/opcode.rs
index 7bb0f8d..a9b46a2 100644
--- a/amanda/vm/src/opcode.rs
+++ b/amanda/vm/src/opcode.rs
@@ -45,12 +45,13 @@ pub enum OpCode {
     BuildVariant,
     BindMatchArgs,
     MatchVariant,
+    PopTop,
     Halt = 255,
 }
 
 impl From<&u8> for OpCode {
     fn from(number: &u8) -> Self {
-        let ops: [OpCode; 42] = [
+        let ops: [OpCode; 43] = [
             OpCode::Mostra,
             OpCode::LoadConst,
             OpCode::LoadName,
@@ -93,6 +94,7 @@ impl From<&u8> for OpCode {
             OpCode::BuildVariant,
             OpCode::BindMatchArgs,
             OpCode::MatchVariant,
+            OpCode::PopTop,
         ];
         if *number == 0xff {
             OpCode::Halt
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index f29b003..e9f3f87 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -237,6 +237,9 @@ impl<'a> AmaVM<'a> {
                         unreachable!("Value not a variant");
                     }
                 }
+                OpCode::PopTop => {
+                    self.op_pop();
+                }
                 OpCode::IsNull => {
                     let is_null = self.op_pop().is_none();
                     self.op_push(AmaValue::Bool(is_null));
-- 
2.43.0


From cca0a11deea6b56eceff74f1cdb46ec5365cadf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 15/84] fix: comparing registos, optionals or different kinds
 of values aborted the VM

---
 amanda/vm/src/ama_value.rs | 48 +++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index a56d77d..77556b9 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -42,18 +42,6 @@ macro_rules! comp_ops {
     };
 }
 
-macro_rules! eq_ops {
-    ($res_type: ident, $left: ident, $op: tt, $right: ident) => {
-        Ok(match $res_type {
-            Type::Int => AmaValue::Bool($left.take_int() $op $right.take_int()),
-            Type::Real => AmaValue::Bool($left.take_float() $op $right.take_float()),
-            Type::Bool => AmaValue::Bool($left.take_bool() $op $right.take_bool()),
-            Type::Texto => AmaValue::Bool($left.take_str() $op $right.take_str()),
-            _ => unimplemented!("Operand type not supported"),
-        })
-    };
-}
-
 macro_rules! is_fn {
     ($fn_name: ident, $to_match: path) => {
         pub fn $fn_name(&self) -> bool {
@@ -175,7 +163,41 @@ impl<'a> AmaValue<'a> {
         Ok(())
     }
 
+    // Equality between any two values. Values of different kinds are different,
+    // vectors and instances of a registo are compared by identity.
+    fn equals(&self, other: &Self) -> bool {
+        match (self, other) {
+            (AmaValue::Int(left), AmaValue::Int(right)) => left == right,
+            (
+                AmaValue::Int(_) | AmaValue::F64(_),
+                AmaValue::Int(_) | AmaValue::F64(_),
+            ) => self.take_float() == other.take_float(),
+            (AmaValue::Bool(left), AmaValue::Bool(right)) => left == right,
+            (AmaValue::Str(left), AmaValue::Str(right)) => left == right,
+            (AmaValue::None, AmaValue::None) => true,
+            (AmaValue::Vector(left), AmaValue::Vector(right)) => Rc::ptr_eq(left, right),
+            (AmaValue::RegObj(left), AmaValue::RegObj(right)) => Rc::ptr_eq(left, right),
+            (AmaValue::Variant(ltag, left), AmaValue::Variant(rtag, right)) => {
+                ltag == rtag
+                    && match (left, right) {
+                        (Some(left), Some(right)) => {
+                            left.len() == right.len()
+                                && left.iter().zip(right.iter()).all(|(l, r)| l.equals(r))
+                        }
+                        (None, None) => true,
+                        _ => false,
+                    }
+            }
+            _ => false,
+        }
+    }
+
     pub fn binop(left: &Self, op: OpCode, right: &Self) -> Result<Self, &'a str> {
+        match op {
+            OpCode::OpEq => return Ok(AmaValue::Bool(left.equals(right))),
+            OpCode::OpNotEq => return Ok(AmaValue::Bool(!left.equals(right))),
+            _ => {}
+        }
         let res_type = if left.is_float() || right.is_float() {
             Type::Real
         } else if left.is_int() && right.is_int() {
@@ -217,8 +239,6 @@ impl<'a> AmaValue<'a> {
             }
             OpCode::OpAnd => Ok(AmaValue::Bool(left.take_bool() && right.take_bool())),
             OpCode::OpOr => Ok(AmaValue::Bool(left.take_bool() || right.take_bool())),
-            OpCode::OpEq => eq_ops!(res_type, left, ==, right),
-            OpCode::OpNotEq => eq_ops!(res_type, left, !=,  right),
             OpCode::OpGreater => comp_ops!(res_type, left, >, right),
             OpCode::OpGreaterEq => comp_ops!(res_type, left, >=, right),
             OpCode::OpLess => comp_ops!(res_type, left, <, right),
-- 
2.43.0


From 7943d978b6e1200a535a1423c3a620b2e41ae291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 16/84] fix: negating the smallest int aborted the VM

---
 amanda/vm/src/ama_value.rs | 5 ++++-
 amanda/vm/src/vm.rs        | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index 77556b9..f3c19a7 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -15,6 +15,9 @@ use std::rc::Rc;
 
 pub type RcCell<T> = Rc<RefCell<T>>;
 
+pub const INT_OVERFLOW: &str =
+    "Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis";
+
 macro_rules! arith_ops {
     ($res_type: ident, $left: ident, $op:tt, $op_fn: ident, $right: ident) => {
         match $res_type {
@@ -24,7 +27,7 @@ macro_rules! arith_ops {
                     if let Some(int) = result {
                         Ok(AmaValue::Int(int))
                     } else {
-                        Err("Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis")
+                        Err(INT_OVERFLOW)
                     }
                 }
             _ => unimplemented!("Operand type not supported"),
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index e9f3f87..a82f556 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 use std::fmt::Write;
 use std::borrow::Cow;
 use crate::ama_value;
-use crate::ama_value::{AmaValue, RcCell};
+use crate::ama_value::{AmaValue, RcCell, INT_OVERFLOW};
 use crate::values::function::{AmaFunc, FuncModule};
 use crate::values::registo::{Tabela, RegObj};
 use crate::modules::module::{Module, MGlobals};
@@ -250,7 +250,10 @@ impl<'a> AmaVM<'a> {
                     let op = OpCode::from(&op);
                     if let OpCode::OpInvert = op {
                         match operand {
-                            AmaValue::Int(num) => self.op_push(AmaValue::Int(-num)), 
+                            AmaValue::Int(num) => match num.checked_neg() {
+                                Some(num) => self.op_push(AmaValue::Int(num)), 
+                                None => return self.panic_and_throw(INT_OVERFLOW), 
+                            }, 
                             AmaValue::F64(num) => self.op_push(AmaValue::F64(-num)), 
                             _ => panic!("Fatal error!"),
                         };
-- 
2.43.0


From 84ad0f8d42c85cc51a489dd31ea50a320d5a2c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 17/84] fix: converting an indef that holds an object aborted
 the VM

---
 amanda/vm/src/ama_value.rs      | 3 +++
 amanda/vm/src/values/amatype.rs | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index f3c19a7..5cb1ec6 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -82,6 +82,9 @@ impl<'a> AmaValue<'a> {
             AmaValue::F64(_) => Type::Real,
             AmaValue::Bool(_) => Type::Bool,
             AmaValue::Vector(_) => Type::Vector,
+            AmaValue::RegObj(_) => Type::Registo,
+            AmaValue::Variant(..) => Type::Uniao,
+            AmaValue::None => Type::Nulo,
             _ => unimplemented!("Cannot return type for this value: {:?}", self),
         }
     }
diff --git a/amanda/vm/src/values/amatype.rs b/amanda/vm/src/values/amatype.rs
index abe3451..3424e10 100644
--- a/amanda/vm/src/values/amatype.rs
+++ b/amanda/vm/src/values/amatype.rs
@@ -7,6 +7,9 @@ pub enum Type {
     Texto,
     Bool,
     Vector,
+    Registo,
+    Uniao,
+    Nulo,
 }
 
 impl Type {
@@ -17,6 +20,9 @@ impl Type {
             Type::Texto => "texto",
             Type::Bool => "bool",
             Type::Vector => "Vector",
+            Type::Registo => "Registo",
+            Type::Uniao => "Uniao",
+            Type::Nulo => "nulo",
         }
     }
 }
-- 
2.43.0


From ee7158f8284127cae2cf038daee8d42d7ae44f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 18/84] fix: the integer division of reals truncated its
 operands and produced an int

---
 amanda/vm/src/ama_value.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index 5cb1ec6..2e13593 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -236,10 +236,12 @@ impl<'a> AmaValue<'a> {
                 }
             }
             OpCode::OpFloorDiv => {
-                if right.take_int() == 0 {
+                if right.take_float() == 0.0 {
                     Err("não pode dividir um número por zero")
+                } else if let Type::Real = res_type {
+                    let quotient = left.take_float() / right.take_float();
+                    Ok(AmaValue::F64(quotient.trunc()))
                 } else {
-                    let res_type = Type::Int;
                     arith_ops!(res_type, left, /, checked_div, right)
                 }
             }
-- 
2.43.0


From b4edde1a6f4c9a859bd4e3b4ed20a19993bf1fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 19/84] fix: errors in the update of a para or in a case were
 located at other lines

---
 amanda/compiler/codegen.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 4c0f732..2863063 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -198,9 +198,8 @@ class ByteGen:
         self.ctx_module: Module = module
         self.ctx_loop_start: int = -1
         self.ctx_loop_exit: int = -1
-        self.src_map: dict[int, list[int]] = (
-            {}
-        )  # Maps source lines to bytecode offset
+        # Maps ranges of bytecode offsets to source lines: [start, end, line]
+        self.src_map: list[list[int]] = []
         self.modules: dict[str, int] = {}
 
     def compile_builtin(self, raw: bool = True) -> bytes | dict:
@@ -277,18 +276,10 @@ class ByteGen:
         ops.close()
 
         src_map = []
-        for lineno, offsets in self.src_map.items():
+        for start, end, lineno in self.src_map:
             if lineno == 0:
                 continue
-            # Offset array must contain start and end
-            # If it only contains one value, start == end
-            if len(offsets) == 1:
-                offsets.append(offsets[0])
-            assert (
-                len(offsets) == 2
-            ), f"Found line with offset != 2: {(lineno, offsets)}"
-            offsets.append(lineno)
-            src_map.extend(offsets)
+            src_map.extend((start, end, lineno))
         module = {
             "name": path.split(self.ctx_module.fpath)[1].replace(".ama", ""),
             "builtin": 1 if self.ctx_module.builtin else 0,
@@ -318,14 +309,12 @@ class ByteGen:
         self.labels[label] = self.ip
 
     def append_op(self, op: OpCode, *args: int):
-        if self.lineno in self.src_map:
-            offsets = self.src_map[self.lineno]
-            if len(offsets) < 2:
-                offsets.append(self.ip)
-            elif offsets[-1] < self.ip:
-                offsets[-1] = self.ip
+        # The ops of a line are not always contiguous, e.g. the update of a
+        # 'para' comes after its body. Every contiguous range has its own entry
+        if self.src_map and self.src_map[-1][2] == self.lineno:
+            self.src_map[-1][1] = self.ip
         else:
-            self.src_map[self.lineno] = [self.ip]
+            self.src_map.append([self.ip, self.ip, self.lineno])
         self.ip += op.op_size() // OP_SIZE
         self.ops.append((op, args))
 
-- 
2.43.0


From 2a66e45888159cc31354299409c3054c2ee9da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 20/84] fix: calls in the blocks of an escolha crashed the
 compiler and its expression was evaluated for every case

---
 amanda/compiler/ast.py        |  4 ++++
 amanda/compiler/check/core.py |  5 ++++
 amanda/compiler/codegen.py    | 22 +++++++++++++++++
 amanda/compiler/transform.py  | 45 +----------------------------------
 4 files changed, 32 insertions(+), 44 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 7c9aa0e..263986b 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -284,11 +284,15 @@ class CaseBlock(ASTNode):
 
 
 class Escolha(ASTNode):
+    # Holds the value of the expression while the cases are tested
+    target_binding: symbols.VariableSymbol | None
+
     def __init__(self, token, expression, cases, default_case):
         super().__init__(token)
         self.expression = expression
         self.cases = cases
         self.default_case = default_case
+        self.target_binding = None
 
 
 @dataclass
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 33541fe..8256d30 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1114,6 +1114,11 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"A directiva escolha só pode ser usada para avaliar números inteiros e strings"
             )
+        binding = symbols.VariableSymbol(
+            "_escolha_", expr_type, self.ctx_module
+        )
+        self.define_symbol(binding, self.scope_depth, self.ctx_scope)
+        node.target_binding = binding
         for case in node.cases:
             case_expr = case.expression
             self.visit(case_expr)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 2863063..ebe6f7e 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -676,6 +676,28 @@ class ByteGen:
 
         self.patch_label_loc(after_if)
 
+    def gen_escolha(self, node: ast.Escolha):
+        binding = unwrap(node.target_binding)
+        after_escolha = self.new_label()
+
+        self.gen(node.expression)
+        self.set_variable(binding)
+
+        for case in node.cases:
+            after_case = self.new_label()
+            self.gen(case.expression)
+            self.load_variable(binding)
+            self.append_op(OpCode.OP_EQ)
+            self.append_op(OpCode.JUMP_IF_FALSE, after_case)
+            self.compile_block(case.block)
+            self.append_op(OpCode.JUMP, after_escolha)
+            self.patch_label_loc(after_case)
+
+        if node.default_case:
+            self.compile_block(node.default_case)
+
+        self.patch_label_loc(after_escolha)
+
     def gen_enquanto(self, node):
         after_loop = self.new_label()
         # Set the current loop exit
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index 24f6d41..e3dbb4c 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -8,7 +8,7 @@ from amanda.compiler.symbols.core import (
     MethodSym,
     VariableSymbol,
 )
-from amanda.compiler.types.builtins import Builtins, SrcBuiltins
+from amanda.compiler.types.builtins import SrcBuiltins
 
 from typing import cast, Callable
 
@@ -67,49 +67,6 @@ class ASTTransformer:
         if node.of_type(ast.Converta):
             return node
 
-    def transform_escolha(self, node: ast.Escolha) -> ast.ASTNode:
-        token = node.token
-        new_token = lambda tt, lexeme: Token(tt, lexeme, token.line, token.col)
-        equality_op = lambda left, right: ast.BinOp(
-            new_token(TT.DOUBLEEQUAL, "=="),
-            left=left,
-            right=right,
-            ty=Builtins.Bool,
-        )
-        # check node
-        # transform node into ifs
-        expr = node.expression
-        # let
-        se_node = ast.Se(token, None, None, elsif_branches=[], else_branch=None)
-        if not node.cases and not node.default_case:
-            return ast.NoOp()
-        elif not node.cases and node.default_case:
-            se_node.condition = ast.Constant(
-                new_token(TT.VERDADEIRO, "verdadeiro")
-            )
-            se_node.then_branch = node.default_case
-            return se_node
-        else:
-            first_case = node.cases[0]
-            del node.cases[0]
-            se_node.condition = equality_op(
-                left=first_case.expression,
-                right=node.expression,
-            )
-            se_node.then_branch = first_case.block
-            se_node.else_branch = node.default_case
-            for case in node.cases:
-                se_node.elsif_branches.append(
-                    ast.SenaoSe(
-                        token,
-                        equality_op(
-                            left=case.expression, right=node.expression
-                        ),
-                        case.block,
-                    )
-                )
-            return se_node
-
     def _is_option(self, ty: Type) -> bool:
         return ty.is_constructed_from(SrcBuiltins.Opcao)
 
-- 
2.43.0


From e14360c583b6225c06cf3baad07647f41a690fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 21/84] fix: the top level code of an imported module continued
 in the main module after a call

---
 amanda/vm/src/binload.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amanda/vm/src/binload.rs b/amanda/vm/src/binload.rs
index 731a84f..50cf3ae 100644
--- a/amanda/vm/src/binload.rs
+++ b/amanda/vm/src/binload.rs
@@ -243,7 +243,12 @@ pub fn load_bin<'bin>(amac_bin: &'bin mut [u8]) -> (Module<'bin>, Vec<Module<'bi
     let mut prog_data = unpack_bson_doc(amac_bin);
     let imports = bson_take!(BSONType::Array, prog_data.remove("imports").unwrap())
         .into_iter()
-        .map(|module| build_module(bson_take!(BSONType::Doc, module)))
+        .enumerate()
+        .map(|(idx, module)| {
+            let mut module = build_module(bson_take!(BSONType::Doc, module));
+            module.main.module = FuncModule::Imported(idx);
+            module
+        })
         .collect();
     let module = build_module(prog_data);
     (module, imports)
-- 
2.43.0


From f7acf02549e0791ace98f0c063bb55c0ed49c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 22/84] fix: lines of the frames of other modules were looked
 up in the current module

---
 amanda/vm/src/vm.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index a82f556..c87fe4e 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -41,7 +41,7 @@ impl<'a> FrameStack<'a> {
         Ok(())
     }
 
-    pub fn pop(&mut self) -> Result<AmaFunc, ()> {
+    pub fn pop(&mut self) -> Result<AmaFunc<'a>, ()> {
         if self.sp < -1 {
             Err(())
         } else {
@@ -561,6 +561,14 @@ impl<'a> AmaVM<'a> {
         Ok(())
     }
 
+    // Module that contains the code of a function
+    fn func_module(&self, func: &AmaFunc<'a>) -> &'a Module<'a> {
+        match func.module {
+            FuncModule::Imported(mod_idx) => &self.imports[mod_idx],
+            FuncModule::Main => self.main_module,
+        }
+    }
+
     fn panic_and_throw(&mut self, error: &str) -> Result<(), AmaErr> {
         let mut frames_sp = self.frames.sp;
         let mut err_str = if frames_sp > 0 {
@@ -572,14 +580,14 @@ impl<'a> AmaVM<'a> {
             if frames_sp == 0 {
                 err_str.push_str(&format!(
                     "Erro na linha {}: {}.",
-                    offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                    offset_to_line(func.last_i, &self.func_module(&func).src_map),
                     error
                 ));
                 break;
             }
             err_str.push_str(&format!(
                 "    Linha {}, na função {}\n",
-                offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                offset_to_line(func.last_i, &self.func_module(&func).src_map),
                 func.name
             ));
             frames_sp = self.frames.sp;
-- 
2.43.0


From 686e7a734e3896071a4cba17ac27194322cd2c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 23/84] fix: methods of the same name shared their code and
 items of modules were renamed

---
 amanda/compiler/check/core.py   |  8 +++++---
 amanda/compiler/symbols/base.py |  4 ++--
 amanda/compiler/transform.py    | 17 ++---------------
 amanda/compiler/types/core.py   | 22 +++++++++++-----------
 4 files changed, 20 insertions(+), 31 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 8256d30..bf8e220 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -521,7 +521,9 @@ class Analyzer(ast.Visitor):
         if node.of_type(ast.MethodDecl):
             symbol.is_property = True
         symbol.is_global = True
-        self.define_symbol(symbol, self.scope_depth, self.ctx_scope)
+        # Methods are identified by their type and name
+        self.ctx_scope.define(name, symbol)
+        symbol.name = name
         scope, params = self.define_func_scope(name, node.params)
         symbol.params = params
         return (scope, params)
@@ -657,7 +659,7 @@ class Analyzer(ast.Visitor):
             self.check_function_body(node, symbol, scope)
         # TODO: Refactor method definitions to not rely on the underlying type
         node.symbol = symbol
-        target_ty.define_method(symbol)
+        target_ty.define_method(method_name, symbol)
         self.leave_ty_ctx()
 
     def get_generic_params(
@@ -1325,7 +1327,7 @@ class Analyzer(ast.Visitor):
     ):
         if arg_len != arity:
             if isinstance(symbol, symbols.MethodSym):
-                name = symbol.target_ty.full_field_path(symbol.name)
+                name = symbol.name
             callable_desc = (
                 f"o método {name}" if is_method else f"a função {name}"
             )
diff --git a/amanda/compiler/symbols/base.py b/amanda/compiler/symbols/base.py
index 73ba8cb..89e7968 100644
--- a/amanda/compiler/symbols/base.py
+++ b/amanda/compiler/symbols/base.py
@@ -97,7 +97,7 @@ class Type(Symbol):
     def supports_tam(self) -> bool: ...
 
     @abstractmethod
-    def define_method(self, method: Symbol): ...
+    def define_method(self, name: str, method: Symbol): ...
 
     def has_finite_constructors(self) -> bool:
         return False
@@ -204,7 +204,7 @@ class TypeVar(Type):
     def unaryop(self, op: TokenType) -> Type | None:
         return None
 
-    def define_method(self, method: Symbol):
+    def define_method(self, name: str, method: Symbol):
         raise NotImplementedError(
             "Type var does not support method definitions"
         )
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index e3dbb4c..7d9d91c 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -96,16 +96,6 @@ class ASTTransformer:
         if callee.of_type(ast.Get) and callee.target.eval_type.is_module():
             # A call to a function in another module via a module alias
             sym = cast(FunctionSymbol, node.symbol)
-            # Add func symbol to symbol table
-            # Prefix with the name of the module to avoid overwriting
-            # other methods with the same name, from different modules
-            sym.name = sym.out_id = f"{callee}::{sym.name}"
-            self.program.symbols.define(sym.name, sym)
-            """
-            call_node = ast.Call(callee=var, fargs=node.fargs)
-            call_node.symbol = sym
-            return call_node
-            """
         elif isinstance(node.symbol, MethodSym):
             # Common method call
             sym = cast(MethodSym, node.symbol)
@@ -115,12 +105,10 @@ class ASTTransformer:
                 **sym.params,
             }
             node.fargs.insert(0, instance)
-            if sym.is_external(self.module):
-                sym.name = sym.out_id = f"{sym.module.fpath}::{sym.name}"
-                self.program.symbols.define(sym.name, sym)
         else:
             raise NotImplementedError("Unknown case")
         var = var_node(sym.name, node.token)
+        var.var_symbol = sym
         call_node = ast.Call(callee=var, fargs=node.fargs)
         call_node.symbol = sym
         return call_node
@@ -130,9 +118,8 @@ class ASTTransformer:
         if node.target.eval_type.is_module():
             imp_mod = node.target.eval_type
             sym = imp_mod.module.ast.symbols.resolve(node.member.lexeme)
-            sym.name = sym.out_id = f"{imp_mod.module.fpath}::{sym.name}"
             var = var_node(sym.name, node.token)
-            self.program.symbols.define(sym.name, sym)
+            var.var_symbol = sym
             return var
         else:
             return (
diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 0b19797..73a0637 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -68,8 +68,8 @@ class Primitive(Type):
     def is_generic(self) -> bool:
         return False
 
-    def define_method(self, method: Symbol):
-        Primitive.methods.setdefault(self.tag, {})[method.name] = cast(
+    def define_method(self, name: str, method: Symbol):
+        Primitive.methods.setdefault(self.tag, {})[name] = cast(
             MethodSym, method
         )
 
@@ -258,7 +258,7 @@ class ModuleTy(Type):
     def supports_tam(self) -> bool:
         return False
 
-    def define_method(self, method: Symbol):
+    def define_method(self, name: str, method: Symbol):
         raise NotImplementedError("Methods can't be defined on module")
 
     def get_property(self, prop: str) -> Symbol | None:
@@ -317,9 +317,9 @@ class Vector(Type):
     def is_primitive(self) -> bool:
         return False
 
-    def define_method(self, method: Symbol):
+    def define_method(self, name: str, method: Symbol):
         raise NotImplementedError("Do not know what I have to do here")
-        # self.methods[method.name] = cast(MethodSym, method)
+        # self.methods[name] = cast(MethodSym, method)
 
     def promotion_to(self, other: Type) -> Type | None:
         if not isinstance(other, Primitive):
@@ -415,8 +415,8 @@ class Registo(Type):
     def get_property(self, prop) -> Symbol | None:
         return self.fields.get(prop, self.methods.get(prop))
 
-    def define_method(self, method: Symbol):
-        self.methods[method.name] = cast(MethodSym, method)
+    def define_method(self, name: str, method: Symbol):
+        self.methods[name] = cast(MethodSym, method)
 
     def supports_fields(self) -> bool:
         return True
@@ -551,8 +551,8 @@ class Uniao(Type):
             for variant in self.variants.values()
         ]
 
-    def define_method(self, method: Symbol):
-        self.methods[method.name] = cast(MethodSym, method)
+    def define_method(self, name: str, method: Symbol):
+        self.methods[name] = cast(MethodSym, method)
 
     def supports_fields(self) -> bool:
         return True
@@ -607,8 +607,8 @@ class ConstructedTy(Type):
     def _is_opcao(self) -> bool:
         return self.generic_ty.name == str(Types.TOpcao)
 
-    def define_method(self, method: Symbol):
-        self.generic_ty.define_method(method)
+    def define_method(self, name: str, method: Symbol):
+        self.generic_ty.define_method(name, method)
 
     def cast_from(self, other: Type) -> bool:
         # Only Constructed generic we know of is "Opcao". Ignore the rest
-- 
2.43.0


From 0e372da12e340641c9fd78bb78091356aa89e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 24/84] fix: methods that are never called crashed the compiler

---
 amanda/compiler/codegen.py   | 3 +++
 amanda/compiler/transform.py | 5 -----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index ebe6f7e..1465e39 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -871,6 +871,9 @@ class ByteGen:
         block = node.block
         prev_func_locals = self.func_locals
         self.func_locals = {}
+        if isinstance(func_symbol, symbols.MethodSym):
+            # The target of a method is its first argument
+            self.func_locals["alvo"] = 0
         for param in func_symbol.params.values():
             local = param.out_id
             idx = len(self.func_locals)
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index 7d9d91c..6def854 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -6,7 +6,6 @@ from amanda.compiler.tokens import TokenType as TT, Token
 from amanda.compiler.symbols.core import (
     FunctionSymbol,
     MethodSym,
-    VariableSymbol,
 )
 from amanda.compiler.types.builtins import SrcBuiltins
 
@@ -100,10 +99,6 @@ class ASTTransformer:
             # Common method call
             sym = cast(MethodSym, node.symbol)
             instance = cast(ast.Get, node.callee).target
-            sym.params = {
-                "alvo": VariableSymbol("alvo", sym.return_ty, self.module),
-                **sym.params,
-            }
             node.fargs.insert(0, instance)
         else:
             raise NotImplementedError("Unknown case")
-- 
2.43.0


From 75250d2df1bb020afb787aba8a9701e93e3174ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 25/84] fix: modules were initialized before the modules they
 import

---
 amanda/compiler/check/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index bf8e220..5ced26c 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -425,6 +425,8 @@ class Analyzer(ast.Visitor):
                 )
 
         module.loaded = True
+        # Modules are initialized in order, after the modules they depend on
+        self.imports[module.fpath] = self.imports.pop(module.fpath)
         self.ctx_module = prev_module
 
     def resolve_import(self, fpath: str) -> str | None:
-- 
2.43.0


From 8e0cdf624ab4326d0e0e7c8764a2cd09d84651a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 26/84] fix: variants of a uniao of another module crashed the
 compiler or had other tags

---
 amanda/compiler/codegen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 1465e39..f2ea31b 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -259,6 +259,7 @@ class ByteGen:
                 continue
             compiler = ByteGen(mod)
             compiler.modules = self.modules
+            compiler.uniao_variants = self.uniao_variants
             module_out = compiler.compile({}, raw=False)
             compiled_imports.append(module_out)
             mod.compiled = True
-- 
2.43.0


From 9b37c7909aba15592ad935fe9bbad86b9cf7f6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 27/84] fix: importing all of a module that had already been
 loaded in another way was ignored

---
 amanda/compiler/check/core.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 5ced26c..5ad5cff 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -363,6 +363,21 @@ class Analyzer(ast.Visitor):
             self.assert_can_use_ident(self.ctx_node, item)
             self.global_scope.define(item, sym)
 
+    def define_module_symbols(self, imported_mod: Module):
+        mod_symtab: symbols.Scope = imported_mod.ast.symbols
+        # Already loaded into this scope
+        if mod_symtab is self.global_scope:
+            return
+        for name, sym in mod_symtab.symbols.items():
+            if (
+                isinstance(sym, Typed)
+                and not isinstance(sym.type, ModuleTy)
+                and not sym.is_external(imported_mod)
+                and self.global_scope.get(name) is not sym
+            ):
+                self.assert_can_use_ident(self.ctx_node, name)
+                self.global_scope.define(name, sym)
+
     def load_module(
         self,
         module: Module,
@@ -388,7 +403,7 @@ class Analyzer(ast.Visitor):
                         usa_items=usa_items,
                     )
                 case _:
-                    pass
+                    self.define_module_symbols(existing_mod)
             return
 
         # Check for a cycle
-- 
2.43.0


From 98d5f476abe56932b0b64a9a9ff40c96532e175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 28/84] fix: quebra and continua in a para were rejected or
 acted on another loop

---
 amanda/compiler/check/core.py |  6 ++++++
 amanda/compiler/codegen.py    | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 5ad5cff..cde7a47 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1182,8 +1182,14 @@ class Analyzer(ast.Visitor):
         )
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
+
+        in_loop_state = self.in_loop
+        self.in_loop = True
+
         self.visit(node.statement, scope)
 
+        self.in_loop = in_loop_state
+
     def visit_paraexpr(self, node: ast.ParaExpr):
         # self.visit(node.name)
         self.visit(node.range_expr)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index f2ea31b..8e8c9ab 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -739,6 +739,13 @@ class ByteGen:
         # BEGIN LOOP
         after_loop = self.new_label()
         loop = self.new_label()
+        # 'continua' still has to update the control variable
+        update = self.new_label()
+        loop_exit_state = self.ctx_loop_exit
+        self.ctx_loop_exit = after_loop
+        loop_start_state = self.ctx_loop_start
+        self.ctx_loop_start = update
+
         block = node.statement
         self.enter_block(block.symbols)
 
@@ -756,6 +763,7 @@ class ByteGen:
         for child in block.children:
             self.gen_statement(child)
         # update: control_var += inc
+        self.patch_label_loc(update)
         if not range_expr.inc:
             self.load_const(1)
         else:
@@ -769,6 +777,9 @@ class ByteGen:
         self.patch_label_loc(after_loop)
         self.exit_block()
 
+        self.ctx_loop_start = loop_start_state
+        self.ctx_loop_exit = loop_exit_state
+
     def gen_iguala(self, node: ast.Iguala):
         # Targets that are not a reference to a variable have a variable of
         # their own
-- 
2.43.0


From d6e6ce72fd3caa7276e32ecdab7534e21f45638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 29/84] fix: functions that might not return a value were
 accepted and others rejected

---
 amanda/compiler/check/core.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index cde7a47..013d974 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -100,29 +100,37 @@ class Analyzer(ast.Visitor):
             False
             if not node.else_branch
             else self.has_return(node.then_branch)
+            and all(
+                self.has_return(branch.then_branch)
+                for branch in node.elsif_branches
+            )
             and self.has_return(node.else_branch)
         )
 
+    def has_return_escolha(self, node: ast.Escolha):
+        return (
+            False
+            if not node.default_case
+            else all(self.has_return(case.block) for case in node.cases)
+            and self.has_return(node.default_case)
+        )
+
     def has_return_igualaarm(self, node: ast.IgualaArm):
         return self.has_return_block(node.body)
 
     def has_return_iguala(self, node: ast.Iguala):
-        has_return = True
-        has_var_pattern = False
-        for arm in node.arms:
-            has_return = has_return and self.has_return(arm)
-            if not has_return:
-                return False
-            if isinstance(arm.pattern, ast.BindingPattern):
-                has_var_pattern = True
-        return has_return and has_var_pattern
+        # The patterns of an 'iguala' cover all possible values
+        return all(self.has_return(arm) for arm in node.arms)
 
     def has_return_seiguala(self, node: ast.SeIguala):
         """Method checks for return within
         'se iguala' statements"""
         # If there is no else branch return None immediately
         return (
-            False if not node.else_branch else self.has_return(node.else_branch)
+            False
+            if not node.else_branch
+            else self.has_return(node.then_branch)
+            and self.has_return(node.else_branch)
         )
 
     def has_return_enquanto(self, node):
-- 
2.43.0


From dfd9e280de054392def9ad7fd53ef491d97c5e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 30/84] fix: chained assignments through a field or an index
 lost the assigned value

---
 amanda/compiler/codegen.py | 44 +++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 8e8c9ab..06d5bf8 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -179,6 +179,7 @@ class ByteGen:
 
     CONST_TABLE = 0
     NAME_TABLE = 1
+    ASSIGNMENTS = (ast.Assign, ast.IndexSet, ast.Set)
 
     def __init__(self, module: Module):
         self.depth: int = -1
@@ -421,10 +422,35 @@ class ByteGen:
             result = gen_method(node, args)
         else:
             result = gen_method(node)
-        if isinstance(node, ast.Expr):
+        if isinstance(node, ast.Expr) and not isinstance(
+            node, self.ASSIGNMENTS
+        ):
             self.gen_auto_cast(node)
         return result
 
+    def gen_assigned_value(self, value: ast.Expr, temp: bool = False):
+        """Generates the value of the right side of an assignment. If the
+        value is needed after the assignment, it is kept in a local"""
+        self.gen(value)
+        if isinstance(value, self.ASSIGNMENTS):
+            # The value of an assignment is the value that was assigned
+            if isinstance(value, ast.Assign):
+                self.load_variable(value.left.var_symbol)
+            else:
+                self.gen_temp(OpCode.GET_LOCAL)
+            self.gen_auto_cast(value)
+        if temp:
+            self.gen_temp(OpCode.SET_LOCAL)
+            self.gen_temp(OpCode.GET_LOCAL)
+
+    def gen_temp(self, op: OpCode):
+        local = self.func_locals.setdefault("_temp_", len(self.func_locals))
+        self.append_op(op, local)
+
+    def is_assigned(self, node: ast.ASTNode) -> bool:
+        """Whether an assignment is the right side of another assignment"""
+        return isinstance(node.parent, self.ASSIGNMENTS)
+
     def enter_block(self, scope):
         self.depth += 1
         self.scope_symtab = scope
@@ -439,7 +465,7 @@ class ByteGen:
         # The value of an expression used as a statement is not needed.
         # Assignments do not produce a value
         if isinstance(node, ast.Expr) and not isinstance(
-            node, (ast.Assign, ast.IndexSet, ast.Set)
+            node, self.ASSIGNMENTS
         ):
             self.append_op(OpCode.POP_TOP)
 
@@ -564,16 +590,8 @@ class ByteGen:
         self.func_locals[symbol.out_id] = idx
         return idx
 
-    # TODO: Test whether chained assign still with
-    # mixture of normal assigns and index set (Potential bug)
     def gen_assign(self, node):
-        expr = node.right
-        self.gen(expr)
-        # Deal with consecutive assignments
-        if isinstance(expr, ast.Assign):
-            var_sym = expr.left.var_symbol
-            name = expr.left.token.lexeme
-            self.load_variable(var_sym)
+        self.gen_assigned_value(node.right)
         var = node.left
         assert isinstance(
             var, ast.Variable
@@ -988,7 +1006,7 @@ class ByteGen:
 
     def gen_indexset(self, node):
         self.gen_indexget(node.index, gen_get=False)
-        self.gen(node.value)
+        self.gen_assigned_value(node.value, self.is_assigned(node))
         self.append_op(OpCode.OP_INDEX_SET)
 
     def gen_fmtstr(self, node):
@@ -1019,7 +1037,7 @@ class ByteGen:
 
     def gen_set(self, node: ast.Set):
         self.gen(node.target)
-        self.gen(node.expr)
+        self.gen_assigned_value(node.expr, self.is_assigned(node))
         self.append_op(OpCode.SET_PROP)
 
     def gen_unwrap(self, node: ast.Unwrap):
-- 
2.43.0


From 24e1c4f16a05803dacb0832ed9a4114cce779783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 31/84] fix: initializers that use the variable being declared
 crashed and others that don't were rejected

---
 amanda/compiler/check/core.py   | 13 ++++++++-----
 amanda/compiler/symbols/core.py |  2 ++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 013d974..dbf974e 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -510,10 +510,7 @@ class Analyzer(ast.Visitor):
                     "Erro de inicialização. Variáveis de tipos não primitivos devem ser inicializadas"
                 )
         else:
-            if assign.right.token.lexeme == name:
-                self.error(
-                    f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
-                )
+            symbol.initializing = True
             self.visit(assign)
         if self.scope_depth == 0:
             symbol.is_global = True
@@ -843,6 +840,10 @@ class Analyzer(ast.Visitor):
         elif not sym.can_evaluate():
             self.ctx_node = node
             self.error(self.INVALID_REF, name=name)
+        elif isinstance(sym, symbols.VariableSymbol) and sym.initializing:
+            self.error(
+                f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
+            )
         node.eval_type = sym.type
         node.var_symbol = sym
         assert node.var_symbol
@@ -1043,8 +1044,10 @@ class Analyzer(ast.Visitor):
         rs = self.visit(rhs)
         # Check rhs of assignment
         # is expression
-        self.visit(lhs)
         sym = self.ctx_scope.resolve_typed(lhs.token.lexeme)
+        if isinstance(sym, symbols.VariableSymbol):
+            sym.initializing = False
+        self.visit(lhs)
         if sym.is_external(self.ctx_module):
             self.error(
                 f"Atribuição inválida. As variáveis globais de um módulo importado não podem ser modificadas externamente"
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index b654512..25cb19d 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -12,6 +12,8 @@ class VariableSymbol(Typed):
 
     def __init__(self, name: str, var_type: Type, module: Module):
         super().__init__(name, var_type, module)
+        # Set while the initial value of the variable is being analyzed
+        self.initializing = False
 
     def can_evaluate(self):
         return True
-- 
2.43.0


From 50828de343379aba3e19bd9584f36388a25bc92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 32/84] fix: converting a value to an optional aborted the VM

---
 amanda/compiler/codegen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 06d5bf8..5825a6f 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -971,6 +971,11 @@ class ByteGen:
         target_t = node.target.eval_type
         new_t = node.eval_type
         self.gen(node.target)
+        if new_t.is_constructed_from(SrcBuiltins.Opcao):
+            # An optional is represented by the value it contains
+            new_t = cast(ConstructedTy, new_t).bound_ty_args["T"]
+            if target_t == Builtins.Nulo:
+                return
         # Converting to same type, can ignore this
         # TODO: Do this in sem analysis
         if new_t == target_t or new_t == Builtins.Indef:
-- 
2.43.0


From 7dfd169b89e2b81e07f81efadfd253d2e2b09384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 33/84] fix: the text around the expressions of a f-string
 could be read as another literal

---
 amanda/compiler/parse.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index ed39d26..070f521 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1206,8 +1206,15 @@ class Parser:
         char = format_str.read(1)
         parts = []
 
-        tokenify_str = lambda lexeme: ast.Constant(
-            Token(TT.STRING, lexeme=lexeme, line=token.line, col=token.col)
+        # Parts keep the delimiters, just like any other string
+        delimiter = token.lexeme[0]
+        tokenify_str = lambda text: ast.Constant(
+            Token(
+                TT.STRING,
+                lexeme=f"{delimiter}{text}{delimiter}",
+                line=token.line,
+                col=token.col,
+            )
         )
         # TODO: Reuse this buffer
         current_str = StringIO()
@@ -1242,7 +1249,7 @@ class Parser:
         if buff_str:
             parts.append(tokenify_str(buff_str))
         if not has_expr:
-            return parts[0]
+            return parts[0] if parts else tokenify_str("")
         return ast.FmtStr(token, parts)
 
     def primary(self):
-- 
2.43.0


From 116285f3dbfb5013af588e2c260daffb02da1fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 34/84] fix: errors in the expressions of a f-string were
 located at line 1 and what followed them was ignored

---
 amanda/compiler/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 070f521..c6714d1 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1186,9 +1186,14 @@ class Parser:
             )
         expr.seek(0)
         self.lexer = Lexer(self.filename, expr)
+        self.lexer.line = token.line
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
+            if not self.match(Lexer.EOF):
+                self.error(
+                    "String de formatação inválida. Expressões devem ser delimitadas por '{' e '}'"
+                )
         except AmandaError as e:
             raise AmandaError.syntax_error(
                 self.filename, e.message, token.line, token.col
-- 
2.43.0


From a38a1b470b3fccba425ff27a8bbc518b61aec3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 35/84] fix: the lines of a string that spans several lines
 were not counted

---
 amanda/compiler/parse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index c6714d1..2075a86 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -154,6 +154,7 @@ class Lexer:
         result = StringIO()
         symbol = self.current_char
         start_pos = self.pos
+        start_line = self.line
         self.advance()
         while self.current_char != symbol:
             if self.current_char == "\\":
@@ -169,7 +170,10 @@ class Lexer:
                     self.advance()
                 continue
             if self.current_char == Lexer.EOF:
+                self.line = start_line
                 self.error(self.INVALID_STRING, line=self.line)
+            if self.current_char == "\n":
+                self.line += 1
             result.write(self.current_char)
             self.advance()
         self.advance()
@@ -178,7 +182,7 @@ class Lexer:
         return Token(
             TT.STRING,
             f"{symbol}{whole_str}{symbol}",
-            self.line,
+            start_line,
             start_pos,
         )
 
-- 
2.43.0


From 9caa7d0be4b07e1cc353b23fa73ad3c02dade09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 36/84] fix: sub-patterns of a variant were not checked and
 nested variants crashed the compiler

---
 amanda/compiler/check/iguala.py | 75 ++++++++++++++++++++++-----------
 amanda/compiler/error.py        |  1 +
 2 files changed, 51 insertions(+), 25 deletions(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 4e7c553..28af550 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -82,9 +82,13 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
 
 
 def check_binding_pattern(
-    checker: Checker, arm: ast.IgualaArm, target_ty: Type, var: ast.Variable
+    checker: Checker,
+    arm: ast.IgualaArm,
+    pattern: ast.BindingPattern,
+    target_ty: Type,
 ):
-    arm.pattern.eval_type = target_ty
+    var = pattern.var
+    pattern.eval_type = target_ty
     scope = tycheck.unwrap(arm.body.symbols)
     var_name = var.token.lexeme
     if var_name in scope.symbols:
@@ -98,8 +102,13 @@ def check_binding_pattern(
     )
 
 
-def check_pattern(checker: Checker, arm: ast.IgualaArm, target_ty: Type):
-    match arm.pattern:
+def check_pattern(
+    checker: Checker,
+    arm: ast.IgualaArm,
+    pattern: ast.Pattern,
+    target_ty: Type,
+):
+    match pattern:
         case ast.ADTPattern(adt, args):
             checker.visit(adt)
             sym = tycheck.unwrap(
@@ -112,39 +121,55 @@ def check_pattern(checker: Checker, arm: ast.IgualaArm, target_ty: Type):
                             Errors.VARIANT_TAKES_NO_ARGS,
                             variant=sym.qualified_name(),
                         )
-                    for pattern, ty in zip(args, params):
-                        match pattern:
-                            case ast.BindingPattern(var=var):
-                                check_binding_pattern(checker, arm, ty, var)
-                            case ast.IntPattern():
-                                pattern.eval_type = Builtins.Int
-                            case ast.StrPattern():
-                                pattern.eval_type = Builtins.Texto
-                            case _:
-                                tycheck.unreachable("unknown subpattern")
+                    if len(args) > len(params):
+                        checker.error(
+                            Errors.TOO_MANY_PATTERN_ARGS,
+                            variant=sym.qualified_name(),
+                            expected=len(params),
+                            received=len(args),
+                        )
+                    for n, (arg, ty) in enumerate(zip(args, params), 1):
+                        check_pattern_arg(checker, arm, arg, n, ty)
                 case _:
                     tycheck.unreachable("Unhandled ADT sym")
-            arm.pattern.eval_type = sym.uniao
-            arm.pattern.cons = VariantCons(
+            pattern.eval_type = sym.uniao
+            pattern.cons = VariantCons(
                 sym.tag, sym.uniao, sym.qualified_name(), sym.params
             )
         case ast.IntPattern():
-            arm.pattern.eval_type = Builtins.Int
+            pattern.eval_type = Builtins.Int
         case ast.StrPattern():
-            arm.pattern.eval_type = Builtins.Texto
-        case ast.BindingPattern(var=var):
-            check_binding_pattern(checker, arm, target_ty, var)
+            pattern.eval_type = Builtins.Texto
+        case ast.BindingPattern():
+            check_binding_pattern(checker, arm, pattern, target_ty)
         case _:
             tycheck.unreachable("Unhandled pattern type")
-    if arm.pattern.eval_type != target_ty:
+
+
+def check_pattern_arg(
+    checker: Checker,
+    arm: ast.IgualaArm,
+    pattern: ast.Pattern,
+    n: int,
+    param_ty: Type,
+):
+    check_pattern(checker, arm, pattern, param_ty)
+    if pattern.eval_type != param_ty:
         checker.error(
-            Errors.INVALID_PATTERN_TYPE,
-            expected=target_ty,
-            received=arm.pattern.eval_type,
+            Errors.INVALID_PATTERN_ARG,
+            n=n,
+            param_type=param_ty,
+            eval_type=pattern.eval_type,
         )
 
 
 def check_arm(checker: Checker, iguala: ast.Iguala, arm: ast.IgualaArm):
     # 1. Check pattern
     arm.body.symbols = symbols.Scope(checker.ctx_scope)
-    check_pattern(checker, arm, iguala.target.eval_type)
+    check_pattern(checker, arm, arm.pattern, iguala.target.eval_type)
+    if arm.pattern.eval_type != iguala.target.eval_type:
+        checker.error(
+            Errors.INVALID_PATTERN_TYPE,
+            expected=iguala.target.eval_type,
+            received=arm.pattern.eval_type,
+        )
diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 0f466ff..e731b1f 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -10,6 +10,7 @@ class Errors:
     VARIANT_ALREADY_DECLARED = "A variante '{variant}' já foi declarada anteriormente na união '{uniao}'"
     VOID_FN_MATCH_TARGET = "Funções sem retorno não podem ser usadas como o alvo da instrução 'iguala'"
     VARIANT_TAKES_NO_ARGS = "Padrão inválido. A variante '{variant}' não espera receber nenhum argumento"
+    TOO_MANY_PATTERN_ARGS = "Padrão inválido. A variante '{variant}' espera {expected} argumento(s), mas o padrão possui {received}"
     BINDING_ALREADY_IN_USE = (
         "Padrão inválido. A variável '{var}' já foi utilizada neste padrão"
     )
-- 
2.43.0


From 6e541fa2f870375079c943906be06a079d6a915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 37/84] fix: the unary plus crashed the compiler

---
 amanda/compiler/codegen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 5825a6f..11dc02b 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -606,6 +606,9 @@ class ByteGen:
             self.append_op(OpCode.OP_INVERT)
         elif operator == TT.NAO:
             self.append_op(OpCode.OP_NOT)
+        elif operator == TT.PLUS:
+            # The value of the operand is the value of the expression
+            pass
         else:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
-- 
2.43.0


From 319e5b44bbdb1cb744d0a7696c937e900e424f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 38/84] fix: leia kept the newline in release builds and
 aborted at the end of the input

---
 amanda/vm/src/modules/builtins/embutidos.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 841102d..24fb801 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -31,11 +31,10 @@ fn leia<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
     let mut input = String::from("");
     //TODO: Propagate possible errors to caller
     io::stdin().read_line(&mut input).unwrap();
-    //Remove newline at the end
-    debug_assert!(
-        input.remove(input.len() - 1) == 0xA as char,
-        "Removing wrong char"
-    );
+    //Remove newline at the end. There might not be one at the end of the input
+    if input.ends_with('\n') {
+        input.pop();
+    }
 
     Ok(AmaValue::Str(Cow::Owned(input)))
 }
-- 
2.43.0


From 4f5bcb4a2f71760b8fb160943af1f2752fe621b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 39/84] fix: the rows of a vector created by vec with three
 dimensions were shared

---
 amanda/vm/src/modules/builtins/embutidos.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 24fb801..c66191e 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -112,9 +112,12 @@ fn build_vec<'a>(
         if size == 0 {
             Vec::with_capacity(0)
         } else {
-            let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
-            let mut container = Vec::with_capacity(inner.len());
-            container.resize_with(size, || (AmaValue::Vector(alloc.alloc_ref(inner.clone()))));
+            // Every element needs its own inner vectors
+            let mut container = Vec::with_capacity(size);
+            for _ in 0..size {
+                let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
+                container.push(AmaValue::Vector(alloc.alloc_ref(inner)));
+            }
             container
         }
     }
-- 
2.43.0


From 0ccdb88947876a49a407f17bf31f2dca49c75221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 40/84] fix: error messages with braces crashed the compiler

---
 amanda/compiler/check/core.py | 8 +++++---
 amanda/compiler/parse.py      | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index dbf974e..d807bde 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -151,13 +151,13 @@ class Analyzer(ast.Visitor):
         )
 
     def error(self, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, self.ctx_node.token.line
         )
 
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, loc_tok.line
         )
@@ -907,7 +907,9 @@ class Analyzer(ast.Visitor):
             not target.eval_type.supports_fields()
             and not target.eval_type.supports_methods()
         ):
-            self.error("O Tipo '{ty_sym.name}' nenhum atributo ou método")
+            self.error(
+                f"O Tipo '{target.eval_type}' não possui nenhum atributo ou método"
+            )
         ty_sym = target.eval_type  # type: ignore
         field = node.member.lexeme
         field_sym = cast(Typed, ty_sym.get_property(field))
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 2075a86..8bacea8 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -49,7 +49,7 @@ class Lexer:
         return next_char
 
     def error(self, code, **kwargs):
-        message = code.format(**kwargs)
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.syntax_error(
             self.filename, message, self.line, self.pos
         )
-- 
2.43.0


From 85ce542763acb41708c9376a4a5d5c68feaa6dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 41/84] fix: unicode characters that aren't decimal digits
 crashed the lexer

---
 amanda/compiler/parse.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 8bacea8..2fdb67a 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -122,15 +122,15 @@ class Lexer:
 
     def number(self):
         result = ""
-        while self.current_char.isdigit():
+        while self.current_char.isdecimal():
             result += self.current_char
             self.advance()
         if self.current_char == ".":
             # lookahead to see next char i
-            if self.lookahead().isdigit():
+            if self.lookahead().isdecimal():
                 result += "."
                 self.advance()
-                while self.current_char.isdigit():
+                while self.current_char.isdecimal():
                     result += self.current_char
                     self.advance()
         if "." in result:
@@ -213,11 +213,13 @@ class Lexer:
                     return tok
                 else:
                     tok = Token.from_char(char, self.line, self.pos)
-                    self.advance()
+                    if tok:
+                        self.advance()
                     return tok
             case (False, char, lookahead):
                 tok = Token.from_char(char, self.line, self.pos)
-                self.advance()
+                if tok:
+                    self.advance()
                 return tok
             case _:
                 return self.error(self.INVALID_SYMBOL, symbol=self.current_char)
@@ -246,7 +248,7 @@ class Lexer:
             if self.current_char == "f" and self.lookahead() in ('"', "'"):
                 return self.format_str()
             return self.identifier()
-        elif self.current_char.isdigit():
+        elif self.current_char.isdecimal():
             return self.number()
         elif self.current_char == Lexer.EOF:
             return Token(Lexer.EOF, "", line=self.line, col=self.pos)
-- 
2.43.0


From 7e0569fd6f11205e19baca241bfbdad66ea68932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 42/84] fix: calling a variable with the name of a builtin
 aborted the VM

---
 amanda/compiler/check/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index d807bde..60c025d 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1254,7 +1254,8 @@ class Analyzer(ast.Visitor):
                 )
                 self.error(message)
 
-        if sym.name in BUILTINS:
+        # Variables may have the name of a builtin
+        if sym.name in BUILTINS and isinstance(sym, symbols.FunctionSymbol):
             self.builtin_call(BUILTINS[sym.name], node)
         elif isinstance(sym, Registo):
             self.validate_initializer(sym, node.fargs)
-- 
2.43.0


From c2f3caed3b8670fc44f8d575506621fd3b4d0b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 43/84] fix: invalid calls to vec, anexa and remova crashed the
 compiler or aborted the VM

---
 amanda/compiler/check/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 60c025d..d866ba4 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1303,19 +1303,28 @@ class Analyzer(ast.Visitor):
                     )
 
             type_node = cast(ast.Type, node.fargs[0])
+            if not isinstance(type_node, (ast.Type, ast.Variable)):
+                self.error(
+                    "O argumento 1 da função 'vec' deve ser o nome de um tipo"
+                )
             el_type = self.get_type(type_node)  # Attempt to get type
             # Is arg 1 a vector type?
             if type(el_type) == Vector:
                 self.error(f"O tipo de um vector deve ser um tipo simples")
+            # The elements are initialized with the default value of the type
+            if not el_type.zero_initialized:
+                self.error(
+                    f"Não pode criar um vector do tipo '{el_type}' com a função 'vec'. Os valores deste tipo devem ser inicializados"
+                )
             # Set type based on dimensions
             vec_type = Vector(self.ctx_module, el_type)
             for i in range(len(node.fargs[1:]) - 1):
                 vec_type = Vector(self.ctx_module, vec_type)
             node.eval_type = vec_type
         elif fn == BuiltinFn.ANEXA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             value = node.fargs[1]
-            self.check_vec_op(fn, node)
 
             vec_t = vec_expr.eval_type
             el_type = vec_t.element_type
@@ -1327,9 +1336,9 @@ class Analyzer(ast.Visitor):
             value.prom_type = val_t.promote_to(el_type)
             node.eval_type = cast(Type, self.global_scope.resolve("vazio"))
         elif fn == BuiltinFn.REMOVA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             index = node.fargs[1]
-            self.check_vec_op(fn, node)
             if index.eval_type != Builtins.Int:
                 self.error(
                     "O argumento 2 da função 'remova' deve ser um número inteiro"
-- 
2.43.0


From 07cfdad72bc8801f318db64b5872fae27123ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 44/84] fix: a module with more than 256 variables in its
 blocks aborted the VM

---
 amanda/vm/src/vm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index c87fe4e..00ef4a4 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -101,6 +101,10 @@ impl<'a> AmaVM<'a> {
     }
 
     fn init(&mut self, main: AmaFunc<'a>) {
+        // The locals of the module are stored below the operands
+        if self.values.len() < main.locals {
+            self.values.resize(main.locals, AmaValue::None);
+        }
         self.sp = self.values.len() as isize - 1;
         self.frames.push(main).unwrap();
         self.frames.peek_mut().bp = if self.sp > -1 { 0 } else { -1 };
-- 
2.43.0


From 1a1ca1aca9b52c20e45e3ca19249c50db75fd52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 45/84] fix: constructs with more operands than an instruction
 can hold crashed the compiler

---
 amanda/compiler/check/checker.py |  1 +
 amanda/compiler/check/core.py    | 29 +++++++++++++++++++++++------
 amanda/compiler/check/uniao.py   |  3 +++
 amanda/compiler/parse.py         |  7 ++++++-
 4 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/amanda/compiler/check/checker.py b/amanda/compiler/check/checker.py
index f5986d1..79627ae 100644
--- a/amanda/compiler/check/checker.py
+++ b/amanda/compiler/check/checker.py
@@ -17,6 +17,7 @@ class Checker(Protocol):
     scope_depth: int
 
     def get_generic_params(self, node: ASTNode) -> set[TypeVar]: ...
+    def validate_num_operands(self, number: int, desc: str): ...
     def error(self, code, **kwargs) -> NoReturn: ...
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn: ...
     def enter_ty_ctx(self, scope: symbols.Scope): ...
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index d866ba4..7259851 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -33,6 +33,8 @@ from utils.tycheck import unwrap
 
 
 MAX_AMA_INT = 2**63 - 1
+# The number of operands of an instruction has to fit in a byte
+MAX_OPERANDS = 2**8 - 1
 
 
 class Analyzer(ast.Visitor):
@@ -525,12 +527,18 @@ class Analyzer(ast.Visitor):
         if self.ctx_scope.get(name):
             self.error(id_in_use_err, name=name)
 
+    def validate_num_operands(self, number: int, desc: str):
+        if number > MAX_OPERANDS:
+            self.error(f"{desc} até {MAX_OPERANDS}")
+
     def validate_num_params(self, node: ast.FunctionDecl):
         # Check that func is within max param number
-        if len(node.params) > (2**8) - 1:
-            is_method = node.of_type(ast.MethodDecl)
+        is_method = node.of_type(ast.MethodDecl)
+        # 'alvo' is passed along with the params of a method
+        max_params = MAX_OPERANDS - 1 if is_method else MAX_OPERANDS
+        if len(node.params) > max_params:
             err_msg = (
-                "Os métodos só podem ter até 255 parâmetros"
+                f"Os métodos só podem ter até {max_params} parâmetros"
                 if is_method
                 else f"As funções só podem ter até 255 parâmetros"
             )
@@ -728,6 +736,9 @@ class Analyzer(ast.Visitor):
         self.ctx_reg = registo
         self.enter_scope(reg_scope)
 
+        self.validate_num_operands(
+            len(node.fields), "O número de atributos de um registo só pode ir"
+        )
         for field in node.fields:
             self.visit_vardecl(field)
 
@@ -784,6 +795,9 @@ class Analyzer(ast.Visitor):
     def visit_fmtstr(self, node):
         txt_type = self.global_scope.resolve("texto")
         node.eval_type = txt_type
+        self.validate_num_operands(
+            len(node.parts), "O número de partes de uma fstring só pode ir"
+        )
         for part in node.parts:
             self.visit(part)
             expr_type = part.eval_type
@@ -819,6 +833,9 @@ class Analyzer(ast.Visitor):
         node.eval_type = Vector(self.ctx_module, list_type)
         if len(elements) == 0:
             return
+        self.validate_num_operands(
+            len(elements), "O número de elementos de um vector literal só pode ir"
+        )
         for i, element in enumerate(elements):
             self.visit(element)
             element_type = element.eval_type
@@ -1287,9 +1304,9 @@ class Analyzer(ast.Visitor):
         if fn == BuiltinFn.VEC:
             # TODO: When vargs are implemented, make sure to
             # come here and change the way this node works
-            assert (
-                len(node.fargs) < 256
-            ), "Builtin call exceeded max number of args"
+            self.validate_num_operands(
+                len(node.fargs), "O número de argumentos da função 'vec' só pode ir"
+            )
             if len(node.fargs) < 2:
                 self.error(
                     f"Função 'vec' deve ser invocada com pelo menos 2 argumentos"
diff --git a/amanda/compiler/check/uniao.py b/amanda/compiler/check/uniao.py
index dbf9dbe..c8dd3a4 100644
--- a/amanda/compiler/check/uniao.py
+++ b/amanda/compiler/check/uniao.py
@@ -37,6 +37,9 @@ def check_variant(uniao: Uniao, variant: ast.UniaoVariant, checker: Checker):
             variant=variant_name,
         )
     params = [checker.get_type(p) for p in variant.params]
+    checker.validate_num_operands(
+        len(params), "O número de argumentos de uma variante só pode ir"
+    )
     uniao.add_variant(variant_name, params)
 
 
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 2fdb67a..a5a0903 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -16,6 +16,7 @@ class Lexer:
     EOF = "__eof__"
     # Errors that happen during tokenization
     INVALID_SYMBOL = "O símbolo '{symbol}' não foi reconhecido"
+    INVALID_NUMBER = "Número demasiado grande"
     INVALID_STRING = "A sequência de caracteres não foi delimitada"
 
     def __init__(self, filename, src):
@@ -138,8 +139,12 @@ class Lexer:
                 TT.REAL, float(result), self.line, self.pos - (len(result) + 1)
             )
 
+        try:
+            value = int(result)
+        except ValueError:
+            self.error(self.INVALID_NUMBER)
         return Token(
-            TT.INTEGER, int(result), self.line, self.pos - (len(result) + 1)
+            TT.INTEGER, value, self.line, self.pos - (len(result) + 1)
         )
 
     def escape_seq(self, char, result, seq):
-- 
2.43.0


From a0ffc20e76d771681442d01c99436669549be080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 46/84] fix: methods with more parameters than a call can hold
 crashed the compiler

---
 amanda/compiler/check/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 7259851..56be88f 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -636,6 +636,7 @@ class Analyzer(ast.Visitor):
         self.enter_ty_ctx(ty_ctx)
 
         # Checking target type
+        self.validate_num_params(node)
         target_ty = self.get_type(node.target_ty)
         method_name = node.name.lexeme
         method_id = target_ty.full_field_path(method_name)
-- 
2.43.0


From 09c46b58f2b14eb5199e6820c8ae5f246516b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 47/84] fix: methods of primitive types persisted in later
 compilations of the same process

---
 amanda/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index 05ae739..1105df9 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -11,6 +11,7 @@ from amanda.compiler.parse import parse
 from amanda.compiler.compile import Generator
 from amanda.compiler.check.core import Analyzer
 from amanda.compiler.codegen import ByteGen
+from amanda.compiler.types.core import Primitive
 from amanda.libamanda import run_module
 
 
@@ -20,6 +21,8 @@ def write_file(name, code):
 
 
 def run_frontend(filename) -> tuple:
+    # Methods of primitive types belong to the program being compiled
+    Primitive.methods.clear()
     try:
         program = parse(filename)
         valid_program = Analyzer(filename, [], Module(filename)).visit_module(
-- 
2.43.0


From bf90263a083d8e53f5e85a331bf15f13eeca4400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 48/84] fix: errors of an operation whose operands span several
 lines were located at the last one

---
 amanda/compiler/codegen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 11dc02b..8030f80 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -417,6 +417,7 @@ class ByteGen:
         node_class = type(node).__name__.lower()
         method_name = f"gen_{node_class}"
         gen_method = getattr(self, method_name, self.bad_gen)
+        prev_lineno = self.lineno
         self.lineno = getattr(node, "lineno", self.lineno)
         if node_class == "block":
             result = gen_method(node, args)
@@ -426,6 +427,8 @@ class ByteGen:
             node, self.ASSIGNMENTS
         ):
             self.gen_auto_cast(node)
+        # What is left to generate of the parent belongs to its own line
+        self.lineno = prev_lineno
         return result
 
     def gen_assigned_value(self, value: ast.Expr, temp: bool = False):
-- 
2.43.0


From d07c21f465882680547dc76692247b2f41006ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 49/84] fix: assigning texto, registo and uniao elements of a
 vec by index

---
 amanda/compiler/check/core.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 56be88f..f9c0db3 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -998,14 +998,13 @@ class Analyzer(ast.Visitor):
         index = node.index
         value = node.value
         self.visit(index)
-        idx_ty = index.eval_type
-        if not idx_ty.supports_index_set():
-            if idx_ty.tag == Types.TTEXTO:
-                self.error(
-                    f"As strings não podem ser modificadas por meio de índices"
-                    if idx_ty.tag == Types.TTEXTO
-                    else f"Itens do tipo '{idx_ty}' não podem ser modificadas por meio de índices"
-                )
+        t_type = index.target.eval_type
+        if not t_type.supports_index_set():
+            self.error(
+                f"As strings não podem ser modificadas por meio de índices"
+                if t_type == Builtins.Texto
+                else f"Itens do tipo '{t_type}' não podem ser modificadas por meio de índices"
+            )
         self.visit(value)
         value.prom_type = value.eval_type.promote_to(index.eval_type)
         if not self.types_match(index.eval_type, value.eval_type):
-- 
2.43.0


From 4b298a2aec321d74f5ceb7c0969ac3b4e45bf6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 50/84] fix: conditions, escolha targets and vec sizes of
 registo, uniao or vec type crashed the checker

---
 amanda/compiler/check/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index f9c0db3..2e77bff 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1146,7 +1146,7 @@ class Analyzer(ast.Visitor):
 
     def visit_se(self, node: ast.Se):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.error(f"a condição da instrução 'se' deve ser um valor lógico")
         self.visit(node.then_branch)
         elsif_branches = node.elsif_branches
@@ -1159,7 +1159,7 @@ class Analyzer(ast.Visitor):
         expr = node.expression
         self.visit(expr)
         expr_type = expr.eval_type
-        if expr_type.tag not in (Types.TINT, Types.TTEXTO):
+        if expr_type != Builtins.Int and expr_type != Builtins.Texto:
             self.error(
                 f"A directiva escolha só pode ser usada para avaliar números inteiros e strings"
             )
@@ -1189,7 +1189,7 @@ class Analyzer(ast.Visitor):
 
     def visit_enquanto(self, node: ast.Enquanto):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.ctx_node = node
             self.error(
                 f"a condição da instrução 'enquanto' deve ser um valor lógico"
@@ -1314,7 +1314,7 @@ class Analyzer(ast.Visitor):
             # Is size given valid?
             for arg in node.fargs[1:]:
                 self.visit(arg)
-                if arg.eval_type.tag != Types.TINT:
+                if arg.eval_type != Builtins.Int:
                     self.error(
                         "Os tamanhos de um vector devem ser representado por inteiros"
                     )
-- 
2.43.0


From e776969c8c62e5892709ebf0398ace9f42e01b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 51/84] fix: types with the same name in different modules were
 taken for the same type

---
 amanda/compiler/types/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 73a0637..4c15d7b 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -407,7 +407,11 @@ class Registo(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Registo) and self.name == other.name
+        return (
+            isinstance(other, Registo)
+            and self.name == other.name
+            and self.module == other.module
+        )
 
     def __str__(self) -> str:
         return self.name
@@ -532,7 +536,11 @@ class Uniao(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Uniao) and self.name == other.name
+        return (
+            isinstance(other, Uniao)
+            and self.name == other.name
+            and self.module == other.module
+        )
 
     def __str__(self) -> str:
         return self.name
-- 
2.43.0


From 87d296c91788f436c65d1f0102494f22dc6f4410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 52/84] fix: a variable declared after a block with an iguala
 resolved to a same-named variable of the block

---
 amanda/compiler/codegen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 8030f80..24e29e8 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -186,6 +186,8 @@ class ByteGen:
         self.ama_lineno: int = 1  # tracks lineno in input amanda src
         self.program_symtab: symbols.Scope = None  # type: ignore
         self.scope_symtab: symbols.Scope = None  # type: ignore
+        # The scopes of the blocks around the current one
+        self.outer_scopes: list[symbols.Scope] = []
         self.func_locals: dict[str, int] = {}
         self.const_table: dict[str, int] = {}
         self.uniao_variants: dict[str, int] = {}
@@ -456,11 +458,12 @@ class ByteGen:
 
     def enter_block(self, scope):
         self.depth += 1
+        self.outer_scopes.append(self.scope_symtab)
         self.scope_symtab = scope
 
     def exit_block(self):
         self.depth -= 1
-        self.scope_symtab = self.scope_symtab.enclosing_scope
+        self.scope_symtab = self.outer_scopes.pop()
         num_locals = len(self.func_locals)
 
     def gen_statement(self, node: ast.ASTNode):
-- 
2.43.0


From 9933bbc9f0899156de257a117b91b340c47f009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 53/84] fix: iguala on a global of another module crashed the
 compiler

---
 amanda/compiler/codegen.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 24e29e8..8bca87a 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -810,8 +810,12 @@ class ByteGen:
     def gen_iguala(self, node: ast.Iguala):
         # Targets that are not a reference to a variable have a variable of
         # their own
-        if not isinstance(node.target, (ast.Variable, ast.Alvo)):
-            self.gen(node.target)
+        target = node.target
+        if (
+            not isinstance(target, (ast.Variable, ast.Alvo))
+            or target.var_symbol is not node.target_binding
+        ):
+            self.gen(target)
             self.set_variable(unwrap(node.target_binding))
         self.gen_iguala_from_ir(node, node.ir.tree)
         # An iguala always produces a value, just like a call
-- 
2.43.0


From d418d64fa670419bb8608ac883bed4a5ed05d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 54/84] fix: a global usa of a loaded module left out its types

---
 amanda/compiler/check/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 2e77bff..ab871e1 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -380,8 +380,7 @@ class Analyzer(ast.Visitor):
             return
         for name, sym in mod_symtab.symbols.items():
             if (
-                isinstance(sym, Typed)
-                and not isinstance(sym.type, ModuleTy)
+                not (isinstance(sym, Typed) and isinstance(sym.type, ModuleTy))
                 and not sym.is_external(imported_mod)
                 and self.global_scope.get(name) is not sym
             ):
-- 
2.43.0


From 13c337d28570183befda5f2c2cec3762e4f9b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 55/84] fix: modules that share a scope could not use the same
 item or alias

---
 amanda/compiler/check/core.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index ab871e1..7af045f 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -346,6 +346,14 @@ class Analyzer(ast.Visitor):
     ):
         if not alias:
             raise TypeError("Arg 'alias' should not be None")
+        in_use = self.global_scope.get(alias)
+        # Another module that shares this scope can also use the alias
+        if (
+            in_use
+            and isinstance(in_use.type, ModuleTy)
+            and in_use.type.module.fpath == imported_mod.fpath
+        ):
+            return
         self.assert_can_use_ident(self.ctx_node, alias)
         self.global_scope.define(
             alias,
@@ -370,6 +378,9 @@ class Analyzer(ast.Visitor):
                     f"Erro ao importar módulo. O item '{item}' não foi declarado no módulo '{imported_mod.fpath}'"
                 )
             self.ctx_module = prev_module
+            # Another module that shares this scope can also use the item
+            if self.global_scope.get(item) is sym:
+                continue
             self.assert_can_use_ident(self.ctx_node, item)
             self.global_scope.define(item, sym)
 
-- 
2.43.0


From ddb751b5c675d6398fa3aba81ce6fa3ad0e18c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:22 +0000
Subject: [PATCH 56/84] fix: arms after one that matches every int or texto
 were preferred to it

---
 amanda/compiler/check/exhaustiveness.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 98bad05..96e9b90 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -373,13 +373,15 @@ class IgualaCompiler:
                     continue
 
                 tested[key] = len(raw_cases)
-                raw_cases.append((cons, [], [row]))
+                # Rows that match every value and come first take precedence
+                raw_cases.append(
+                    (cons, [], [row.copy() for row in fallback_rows] + [row])
+                )
             else:
+                for _, _, case_rows in raw_cases:
+                    case_rows.append(row.copy())
                 fallback_rows.append(row)
 
-        for _, _, case_rows in raw_cases:
-            case_rows.extend([row.copy() for row in fallback_rows])
-
         cases = list(
             map(
                 lambda case: Case(
-- 
2.43.0


From 02b5bc5868cce884a4e24ca1c489e61e63c00379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 57/84] fix: the space of the locals of every call was kept
 until the end of the program

---
 amanda/vm/src/vm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 00ef4a4..5ed82e7 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -406,6 +406,8 @@ impl<'a> AmaVM<'a> {
                     let frame_bp = self.frames.peek().bp;
                     self.sp = if frame_bp > -1 { frame_bp - 1 } else { self.sp };
                     self.frames.pop().unwrap();
+                    //Drop the locals, otherwise the space of every call is kept
+                    self.values.truncate((self.sp + 1) as usize);
                     self.op_push(val);
                     let ctx_module = if let FuncModule::Imported(mod_idx) = self.frames.peek().module {
                         &self.imports[mod_idx]
-- 
2.43.0


From 698df68305691da3802c9ac39fbde9e31a76f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 58/84] fix: quebra and continua inside an expression left its
 operands on the stack

---
 amanda/compiler/codegen.py | 61 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 8bca87a..b60e106 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -163,6 +163,40 @@ class OpCode(Enum):
             case _:
                 return OP_SIZE
 
+    def stack_effect(self, args: Sequence[int]) -> int:
+        # Return how many operands the op adds to the stack
+        match self:
+            case (
+                OpCode.LOAD_CONST
+                | OpCode.LOAD_NAME
+                | OpCode.LOAD_REGISTO
+                | OpCode.LOAD_MODULE_DEF
+                | OpCode.GET_GLOBAL
+                | OpCode.GET_LOCAL
+            ):
+                return 1
+            case (
+                OpCode.OP_INVERT
+                | OpCode.OP_NOT
+                | OpCode.OP_ISNULL
+                | OpCode.MATCH_VARIANT
+                | OpCode.JUMP
+                | OpCode.HALT
+            ):
+                return 0
+            case OpCode.OP_INDEX_SET | OpCode.SET_PROP:
+                return -3
+            case OpCode.BUILD_STR | OpCode.BUILD_VEC:
+                return 1 - args[0]
+            case OpCode.CALL_FUNCTION | OpCode.BUILD_VARIANT | OpCode.OP_UNWRAP:
+                return -args[0]
+            case OpCode.BUILD_OBJ:
+                return -2 * args[0]
+            case OpCode.BIND_MATCH_ARGS:
+                return -args[0] - 1
+            case _:
+                return -1
+
     def __str__(self) -> str:
         return str(self.value)
 
@@ -201,6 +235,10 @@ class ByteGen:
         self.ctx_module: Module = module
         self.ctx_loop_start: int = -1
         self.ctx_loop_exit: int = -1
+        # Operands on the stack of the current frame, now and where the
+        # current loop started
+        self.operands: int = 0
+        self.ctx_loop_operands: int = 0
         # Maps ranges of bytecode offsets to source lines: [start, end, line]
         self.src_map: list[list[int]] = []
         self.modules: dict[str, int] = {}
@@ -320,6 +358,7 @@ class ByteGen:
         else:
             self.src_map.append([self.ip, self.ip, self.lineno])
         self.ip += op.op_size() // OP_SIZE
+        self.operands += op.stack_effect(args)
         self.ops.append((op, args))
 
     def load_const(self, const):
@@ -736,6 +775,8 @@ class ByteGen:
         # Set the current loop start
         loop_start_state = self.ctx_loop_start
         self.ctx_loop_start = loop
+        loop_operands_state = self.ctx_loop_operands
+        self.ctx_loop_operands = self.operands
 
         block = node.statement
         self.enter_block(block.symbols)
@@ -755,6 +796,7 @@ class ByteGen:
         self.ctx_loop_start = loop_start_state
         # Restore old loop exit
         self.ctx_loop_exit = loop_exit_state
+        self.ctx_loop_operands = loop_operands_state
 
     # NOTE: this statement is very unstable and will be changed
     # NOTE: This is a loop that can only count forward
@@ -772,6 +814,8 @@ class ByteGen:
         self.ctx_loop_exit = after_loop
         loop_start_state = self.ctx_loop_start
         self.ctx_loop_start = update
+        loop_operands_state = self.ctx_loop_operands
+        self.ctx_loop_operands = self.operands
 
         block = node.statement
         self.enter_block(block.symbols)
@@ -806,6 +850,7 @@ class ByteGen:
 
         self.ctx_loop_start = loop_start_state
         self.ctx_loop_exit = loop_exit_state
+        self.ctx_loop_operands = loop_operands_state
 
     def gen_iguala(self, node: ast.Iguala):
         # Targets that are not a reference to a variable have a variable of
@@ -817,7 +862,12 @@ class ByteGen:
         ):
             self.gen(target)
             self.set_variable(unwrap(node.target_binding))
+        operands = self.operands
         self.gen_iguala_from_ir(node, node.ir.tree)
+        # Only one of the alternatives is executed
+        self.operands = operands
+        if node.eval_type != Builtins.Vazio:
+            self.operands += 1
         # An iguala always produces a value, just like a call
         if node.eval_type == Builtins.Vazio:
             self.load_const("falso")
@@ -877,6 +927,7 @@ class ByteGen:
     ):
         after_if = self.new_label()
         after_block = self.new_label()
+        operands = self.operands
 
         first_case = cases[0]
         # Generate test
@@ -889,6 +940,7 @@ class ByteGen:
         self.patch_label_loc(after_block)
 
         for case in cases[1:]:
+            self.operands = operands
             after_elsif = self.new_label()
             self.gen_iguala_test(var, case.constructor)
             self.append_op(OpCode.JUMP_IF_FALSE, after_elsif)
@@ -899,6 +951,7 @@ class ByteGen:
             self.patch_label_loc(after_elsif)
 
         if fallback:
+            self.operands = operands
             self.gen_iguala_from_ir(node, fallback)
 
         self.patch_label_loc(after_if)
@@ -913,7 +966,9 @@ class ByteGen:
         func_start = self.new_label()
         block = node.block
         prev_func_locals = self.func_locals
+        prev_operands = self.operands
         self.func_locals = {}
+        self.operands = 0
         if isinstance(func_symbol, symbols.MethodSym):
             # The target of a method is its first argument
             self.func_locals["alvo"] = 0
@@ -933,6 +988,7 @@ class ByteGen:
         self.append_op(OpCode.RETURN)
         num_locals = len(self.func_locals)
         self.func_locals = prev_func_locals
+        self.operands = prev_operands
 
         self.patch_label_loc(func_end)
         # TODO: use uint64 for ip and locals
@@ -1034,6 +1090,11 @@ class ByteGen:
 
     def gen_loopctlstmt(self, node):
         token = node.token
+        # The operands of the expressions that are left are not needed
+        operands = self.operands
+        for _ in range(self.ctx_loop_operands, operands):
+            self.append_op(OpCode.POP_TOP)
+        self.operands = operands
         if token.token == TT.QUEBRA:
             self.append_op(OpCode.JUMP, self.ctx_loop_exit)
         else:
-- 
2.43.0


From a4a820659b7e012c15db6aaa5c2f22f92f4bed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 59/84] fix: tell apart types with the same name declared in
 different scopes

---
 amanda/compiler/types/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 4c15d7b..a79185e 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -411,6 +411,8 @@ class Registo(Type):
             isinstance(other, Registo)
             and self.name == other.name
             and self.module == other.module
+            # A local type may have the name of another one
+            and self.out_id == other.out_id
         )
 
     def __str__(self) -> str:
@@ -540,6 +542,8 @@ class Uniao(Type):
             isinstance(other, Uniao)
             and self.name == other.name
             and self.module == other.module
+            # A local type may have the name of another one
+            and self.out_id == other.out_id
         )
 
     def __str__(self) -> str:
-- 
2.43.0


From f07d70c73ffbc259e2a6c59ea9c7cf891412a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 60/84] fix: variants and methods passed as arguments are not
 called

---
 amanda/compiler/check/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 7af045f..93e7fbe 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -856,6 +856,10 @@ class Analyzer(ast.Visitor):
                 )
             element.prom_type = element_type.promote_to(list_type)
 
+    def is_callee(self, node: ast.ASTNode) -> bool:
+        """The arguments of a call are also its children"""
+        return isinstance(node.parent, ast.Call) and node.parent.callee is node
+
     # TODO: Rename this to 'name' or 'identifier'
     def visit_variable(self, node: ast.Variable):
         name = node.token.lexeme
@@ -903,7 +907,7 @@ class Analyzer(ast.Visitor):
         # If variant not referenced in the context of a call
         # and it has params, error out
         if (
-            not node.child_of(ast.Call)
+            not self.is_callee(node)
             and isinstance(current_sym, Variant)
             and len(current_sym.params) > 0
             and not node.child_of(ast.ADTPattern)
@@ -957,7 +961,7 @@ class Analyzer(ast.Visitor):
         )
         if (
             in_eval_ctx
-            and not node.child_of(ast.Call)
+            and not self.is_callee(node)
             and not field_sym.can_evaluate()
         ):
             self.error(self.INVALID_REF, name=field_sym.name)
-- 
2.43.0


From c78649741cf471d54b72a92c4e4bf95a78f20dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 61/84] fix: reject modules used as values

---
 amanda/compiler/check/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 93e7fbe..04964f8 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -876,6 +876,11 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
             )
+        elif isinstance(sym.type, ModuleTy) and not isinstance(
+            node.parent, (ast.Get, ast.Assign)
+        ):
+            # Modules are not values
+            self.error(self.INVALID_REF, name=name)
         node.eval_type = sym.type
         node.var_symbol = sym
         assert node.var_symbol
-- 
2.43.0


From 462f3230a682cbe5847b98be194c462d01309a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 62/84] fix: a pattern with arguments has to be a variant

---
 amanda/compiler/check/iguala.py | 2 +-
 amanda/compiler/error.py        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 28af550..f534a35 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -131,7 +131,7 @@ def check_pattern(
                     for n, (arg, ty) in enumerate(zip(args, params), 1):
                         check_pattern_arg(checker, arm, arg, n, ty)
                 case _:
-                    tycheck.unreachable("Unhandled ADT sym")
+                    checker.error(Errors.NOT_A_VARIANT, name=sym.name)
             pattern.eval_type = sym.uniao
             pattern.cons = VariantCons(
                 sym.tag, sym.uniao, sym.qualified_name(), sym.params
diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index e731b1f..ca21adf 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -10,6 +10,7 @@ class Errors:
     VARIANT_ALREADY_DECLARED = "A variante '{variant}' já foi declarada anteriormente na união '{uniao}'"
     VOID_FN_MATCH_TARGET = "Funções sem retorno não podem ser usadas como o alvo da instrução 'iguala'"
     VARIANT_TAKES_NO_ARGS = "Padrão inválido. A variante '{variant}' não espera receber nenhum argumento"
+    NOT_A_VARIANT = "Padrão inválido. '{name}' não é uma variante de uma união"
     TOO_MANY_PATTERN_ARGS = "Padrão inválido. A variante '{variant}' espera {expected} argumento(s), mas o padrão possui {received}"
     BINDING_ALREADY_IN_USE = (
         "Padrão inválido. A variável '{var}' já foi utilizada neste padrão"
-- 
2.43.0


From 892a351c084eabd7aeedfadcf6dc0e74c98df49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 63/84] fix: reject methods declared for a constructed type

---
 amanda/compiler/check/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 04964f8..bc7cfc1 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -14,6 +14,7 @@ from amanda.compiler.types.builtins import (
     builtin_module,
 )
 from amanda.compiler.types.core import (
+    ConstructedTy,
     ModuleTy,
     Primitive,
     Type,
@@ -651,6 +652,10 @@ class Analyzer(ast.Visitor):
         method_name = node.name.lexeme
         method_id = target_ty.full_field_path(method_name)
         method_desc = f"O método '{method_name}' do tipo '{target_ty}'"
+        # A method would be shared by all the types constructed from the
+        # same generic type
+        if isinstance(target_ty, ConstructedTy):
+            self.error(f"Não pode declarar métodos para o tipo '{target_ty}'")
 
         # Check if field exists on target type
         method_sym = target_ty.get_property(method_name)
-- 
2.43.0


From 195eacc8f9d2a985ba05c8868f79a05687ec6dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 64/84] fix: reject a reference to a method used as a statement

---
 amanda/compiler/check/core.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index bc7cfc1..10bfe01 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -963,17 +963,7 @@ class Analyzer(ast.Visitor):
         # Check if valid use of get
         # References to methods can only be used in the context of
         # a call expression
-        in_eval_ctx = (
-            node.child_of(ast.Expr)
-            or node.child_of(ast.Set)
-            or node.child_of(ast.Assign)
-            or node.child_of(ast.Statement)
-        )
-        if (
-            in_eval_ctx
-            and not self.is_callee(node)
-            and not field_sym.can_evaluate()
-        ):
+        if not self.is_callee(node) and not field_sym.can_evaluate():
             self.error(self.INVALID_REF, name=field_sym.name)
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
-- 
2.43.0


From 6abb2780f4fb3f3e2fdef5ca5ffb37625015a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 65/84] fix: reject named arguments where they have no meaning

---
 amanda/compiler/check/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 10bfe01..522ea9a 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1293,6 +1293,7 @@ class Analyzer(ast.Visitor):
             node.eval_type = sym
         elif isinstance(sym, Variant):
             node.eval_type = sym.uniao
+            self.validate_no_named_args(node.fargs, "Variantes")
             uniao.validate_variant_init(self, sym, node.fargs)
         else:
             self.validate_call(cast(symbols.FunctionSymbol, sym), node.fargs)
@@ -1311,8 +1312,15 @@ class Analyzer(ast.Visitor):
         if not isinstance(vec_t, Vector):
             self.error(f"O argumento 1 da função '{fn}' deve ser um vector")
 
+    def validate_no_named_args(self, fargs: List[ast.Expr], desc: str):
+        for arg in fargs:
+            if arg.of_type(ast.NamedArg):
+                self.ctx_node = arg
+                self.error(f"{desc} não suportam argumentos nomeados")
+
     # Validates call to builtin functions
     def builtin_call(self, fn: BuiltinFn, node: ast.Call):
+        self.validate_no_named_args(node.fargs, "Funções e métodos")
         # TODO: Change this into an actual ast node cause it uses
         # special syntax
         if fn == BuiltinFn.VEC:
-- 
2.43.0


From 8d3b9af392f745ce57043907e2c8db08e912f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 66/84] fix: reject assignments to the value of an optional

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 522ea9a..86c6893 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -979,6 +979,10 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"Atribuição inválida. As variáveis globais de um módulo importado não podem ser modificadas externamente"
             )
+        if isinstance(target.target.eval_type, ConstructedTy):
+            self.error(
+                f"Atribuição inválida. O valor de um objecto do tipo '{target.target.eval_type}' não pode ser modificado"
+            )
         self.visit(expr)
         expr.prom_type = expr.eval_type.promote_to(target.eval_type)
         if not self.types_match(target.eval_type, expr.eval_type):
-- 
2.43.0


From 89790be7e08077624c2b39b7316cfff8fc9313c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 67/84] fix: report an invalid pattern at its own line

---
 amanda/compiler/check/iguala.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index f534a35..5c1b275 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -108,6 +108,7 @@ def check_pattern(
     pattern: ast.Pattern,
     target_ty: Type,
 ):
+    checker.ctx_node = pattern
     match pattern:
         case ast.ADTPattern(adt, args):
             checker.visit(adt)
-- 
2.43.0


From 303f305c015bd8c3113032f8fd0eb88af6978298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 68/84] fix: reject modules of modules used as values

---
 amanda/compiler/check/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 86c6893..c60ab9c 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -968,6 +968,11 @@ class Analyzer(ast.Visitor):
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
         )
+        # Modules are not values
+        if isinstance(node.eval_type, ModuleTy) and not isinstance(
+            node.parent, (ast.Get, ast.Set)
+        ):
+            self.error(self.INVALID_REF, name=field)
         return field_sym
 
     def visit_set(self, node):
-- 
2.43.0


From 0fefca1e7723f90c26e9e5ba1b688265337113e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 69/84] fix: literals are integers even where a local is named
 int

---
 amanda/compiler/check/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index c60ab9c..50ca204 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -826,9 +826,8 @@ class Analyzer(ast.Visitor):
     # TODO: Rename this to literal
     def visit_constant(self, node: ast.Constant):
         constant = node.token.token
-        scope = self.ctx_scope
         if constant == TT.INTEGER:
-            node.eval_type = scope.resolve("int")
+            node.eval_type = Builtins.Int
             int_value = int(node.token.lexeme)
             if int_value > MAX_AMA_INT:
                 self.error(
@@ -1231,7 +1230,7 @@ class Analyzer(ast.Visitor):
         # Define control variable for loop
         name = node.expression.name.lexeme
         sym = symbols.VariableSymbol(
-            name, self.ctx_scope.resolve("int"), self.ctx_module
+            name, Builtins.Int, self.ctx_module
         )
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
-- 
2.43.0


From 354760b2ad196ab414f37ac652f9f45909e0ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 70/84] fix: a type is not a module in the path of a type

---
 amanda/compiler/check/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 50ca204..f9d6867 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -210,7 +210,11 @@ class Analyzer(ast.Visitor):
 
     def get_mod_or_err(self, scope: symbols.Scope, mod_id: str) -> ModuleTy:
         mod = scope.resolve_typed(mod_id)
-        if not mod or not isinstance(mod.type, ModuleTy):
+        if (
+            not mod
+            or mod.is_type()
+            or not isinstance(mod.type, ModuleTy)
+        ):
             self.error(
                 f"Especificação de tipo inválida. O identificador '{mod_id}' não foi reconhecido como um módulo"
             )
-- 
2.43.0


From 8d12fcfaebc0f99308d5855fe5cfc676b6052003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 71/84] fix: errors in the fields of a registo are reported at
 the field

---
 amanda/compiler/check/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index f9d6867..a25d083 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -760,7 +760,7 @@ class Analyzer(ast.Visitor):
             len(node.fields), "O número de atributos de um registo só pode ir"
         )
         for field in node.fields:
-            self.visit_vardecl(field)
+            self.visit(field)
 
         for symbol in cast(symbols.Scope, self.ctx_scope).symbols.values():
             symbol.is_property = True
-- 
2.43.0


From 074cf8415ff5dfcc42a30f9826f9fe7f49b5f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 72/84] fix: the fields of a registo do not hide types

---
 amanda/compiler/check/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index a25d083..fa36460 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -188,8 +188,14 @@ class Analyzer(ast.Visitor):
             symbol.out_id = f"_r{depth}_{scope.count()}_"
         scope.define(symbol.name, symbol)
 
+    def get_type_scope(self) -> symbols.Scope:
+        # The fields of a registo do not hide types
+        if self.ctx_reg and self.ctx_scope.symbols is self.ctx_reg.fields:
+            return self.ctx_scope.enclosing_scope
+        return self.ctx_scope
+
     def get_type_sym_or_err(self, type_id: str) -> Type:
-        type_symbol = self.ctx_scope.resolve(type_id)
+        type_symbol = self.get_type_scope().resolve(type_id)
         # Attempt to get from ty_ctx
         if not type_symbol:
             type_symbol = self.ty_ctx.resolve(type_id)
@@ -266,7 +272,7 @@ class Analyzer(ast.Visitor):
                 )
             case ast.TypePath(components=components):
                 head = components[0]
-                mod = self.get_mod_or_err(self.ctx_scope, head)
+                mod = self.get_mod_or_err(self.get_type_scope(), head)
                 for component in components[1:-1]:
                     mod = self.get_mod_or_err(mod.get_symbols(), component)
 
-- 
2.43.0


From 16134579fd9a4363f41640777ced498caa101e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 73/84] fix: an equal 'produz' before the last one is not the
 last one

---
 amanda/compiler/check/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index fa36460..7314ecc 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1162,7 +1162,7 @@ class Analyzer(ast.Visitor):
             self.ctx_node = node
             self.error(Errors.PRODUZ_OUTSIDE_BLOCK)
         block_last_instruction = self.ctx_yield_block.children[-1]
-        if block_last_instruction != node:
+        if block_last_instruction is not node:
             self.error(Errors.PRODUZ_MUST_BE_LAST_INSTRUCTION)
         expr = unwrap(node.exp)
         self.visit(expr)
-- 
2.43.0


From 970230d595744a98022f73b37fa292ddafe91600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 74/84] fix: an alias already in use is reported in the module
 that imports

---
 amanda/compiler/check/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 7314ecc..6c4020e 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -456,6 +456,7 @@ class Analyzer(ast.Visitor):
                 if not alias:
                     raise TypeError("Arg 'alias' should not be None")
                 imported_mod, _ = self.load_module_scoped(module)
+                self.ctx_module = prev_module
                 self.define_module_alias(
                     alias, importing_mod=prev_module, imported_mod=module
                 )
-- 
2.43.0


From eaa8f414719b74b79aac429ef8370143d7a149e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 75/84] fix: integers in patterns must be representable

---
 amanda/compiler/check/checker.py |  1 +
 amanda/compiler/check/core.py    | 12 +++++++-----
 amanda/compiler/check/iguala.py  |  3 ++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/check/checker.py b/amanda/compiler/check/checker.py
index 79627ae..544be1b 100644
--- a/amanda/compiler/check/checker.py
+++ b/amanda/compiler/check/checker.py
@@ -17,6 +17,7 @@ class Checker(Protocol):
     scope_depth: int
 
     def get_generic_params(self, node: ASTNode) -> set[TypeVar]: ...
+    def validate_int_literal(self, token: Token): ...
     def validate_num_operands(self, number: int, desc: str): ...
     def error(self, code, **kwargs) -> NoReturn: ...
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn: ...
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 6c4020e..5f69563 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -834,16 +834,18 @@ class Analyzer(ast.Visitor):
                     f"Funções invocadas dentro de expressões em fstrings devem retornar valores coercíveis para o tipo 'texto'"
                 )
 
+    def validate_int_literal(self, token: Token):
+        if int(token.lexeme) > MAX_AMA_INT:
+            self.error(
+                f"Número inteiro demasiado grande. Só pode usar números inteiros iguais ou menores que '{MAX_AMA_INT}'"
+            )
+
     # TODO: Rename this to literal
     def visit_constant(self, node: ast.Constant):
         constant = node.token.token
         if constant == TT.INTEGER:
             node.eval_type = Builtins.Int
-            int_value = int(node.token.lexeme)
-            if int_value > MAX_AMA_INT:
-                self.error(
-                    f"Número inteiro demasiado grande. Só pode usar números inteiros iguais ou menores que '{MAX_AMA_INT}'"
-                )
+            self.validate_int_literal(node.token)
         elif constant == TT.REAL:
             node.eval_type = Builtins.Real
         elif constant == TT.STRING:
diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 5c1b275..778cf7d 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -137,7 +137,8 @@ def check_pattern(
             pattern.cons = VariantCons(
                 sym.tag, sym.uniao, sym.qualified_name(), sym.params
             )
-        case ast.IntPattern():
+        case ast.IntPattern(val):
+            checker.validate_int_literal(val)
             pattern.eval_type = Builtins.Int
         case ast.StrPattern():
             pattern.eval_type = Builtins.Texto
-- 
2.43.0


From 751b56c8034a9e3c13f9660a450b391487cc4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:44 +0000
Subject: [PATCH 76/84] fix: an optional cannot be compared with the result of
 a call that returns nothing

---
 amanda/compiler/types/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index a79185e..fbd6169 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -372,8 +372,9 @@ class Registo(Type):
         match (self, op, rhs):
             case [_, (TT.DOUBLEEQUAL | TT.NOTEQUAL), Registo()]:
                 return Builtins.Bool
+            # A call that returns nothing has no value to compare
             case [Registo(name="Opcao"), (TT.DOUBLEEQUAL | TT.NOTEQUAL), _]:
-                return Builtins.Bool
+                return None if rhs == Builtins.Vazio else Builtins.Bool
             case _:
                 return None
 
-- 
2.43.0


From 68cfdd19ee412840698c9ad4cf32f93d52774860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 77/84] fix: an assignment to an element is not a target of
 another assignment

---
 amanda/compiler/ast.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 263986b..7d3041d 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -460,9 +460,6 @@ class IndexSet(Expr):
         self.index = index
         self.value = value
 
-    def is_assignable(self):
-        return True
-
 
 class Set(Expr):
     def __init__(self, *, target: Get, expr: Expr):
-- 
2.43.0


From 6afbeb676672f57c10192932a3bd14b2cf0f9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 78/84] fix: a backslash followed by n does not end a statement

---
 amanda/compiler/tokens.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/tokens.py b/amanda/compiler/tokens.py
index 849cdf6..c568597 100644
--- a/amanda/compiler/tokens.py
+++ b/amanda/compiler/tokens.py
@@ -108,6 +108,8 @@ def build_tokens_dict() -> Dict[str, TokenType]:
     return {
         token_type.value.lower(): token_type
         for token_type in tt_list[start_index : end_index + 1]
+        # The name of the end of a line is not a symbol
+        if token_type != TokenType.NEWLINE
     }
 
 
-- 
2.43.0


From c55b112cb16be9cdb7a4477d6cd5aa219d572af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 79/84] fix: a name in the body of a registo needs a type

---
 amanda/compiler/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index a5a0903..34f26b8 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -657,12 +657,12 @@ class Parser:
                 self.skip_newlines()
                 continue
             name = self.consume(TT.IDENTIFIER)
-            if self.match(TT.COLON):
-                field = self.simple_decl(name)
-                fields.append(field)
-            elif self.match(TT.COMMA):
+            if self.match(TT.COMMA):
                 new_fields = self.multi_decl(name)
                 fields += new_fields
+            else:
+                field = self.simple_decl(name)
+                fields.append(field)
             self.end_stmt()
         return fields
 
-- 
2.43.0


From 69ff545dddea563cd97b3af31e33b3ac82bf5301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:02 +0000
Subject: [PATCH 80/84] fix: a text literal is read one control sequence at a
 time

---
 amanda/compiler/parse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 34f26b8..2c323ab 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -166,10 +166,11 @@ class Lexer:
                 # Attempt to read different control sequences
                 # if control sequence is not read, just process
                 # the char combination as is
-                is_ctl_seq = False
-                is_ctl_seq |= self.escape_seq("n", result, "\n")
-                is_ctl_seq |= self.escape_seq("'", result, "'")
-                is_ctl_seq |= self.escape_seq('"', result, '"')
+                is_ctl_seq = (
+                    self.escape_seq("n", result, "\n")
+                    or self.escape_seq("'", result, "'")
+                    or self.escape_seq('"', result, '"')
+                )
                 if not is_ctl_seq:
                     result.write("\\")
                     self.advance()
-- 
2.43.0


From 667c60822dd3829efbd29286e4dfc97015528a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:13 +0000
Subject: [PATCH 81/84] fix: a native function has nothing that implements it

---
 amanda/compiler/check/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 5f69563..001d1e8 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -619,12 +619,13 @@ class Analyzer(ast.Visitor):
         )
         symbol.set_annotations(node.annotations)
         scope, _ = self.make_func_symbol(name, node, symbol)
-        # Native functions don't have a body, so there's nothing to visit
+        # Builtin functions are provided by the VM, so there's nothing to visit
         node.symbol = symbol
         if symbol.is_builtin():
             return
         if node.is_native:
-            return
+            self.ctx_node = node
+            self.error(f"a função nativa '{name}' não foi implementada")
         self.validate_return(
             node,
             function_type,
-- 
2.43.0


From c0ad9ee255112a69c544753e130f14ef5cd30a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 82/84] fix: every compilation includes all the modules it
 imports

---
 amanda/compiler/codegen.py | 3 ---
 amanda/compiler/module.py  | 1 -
 2 files changed, 4 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index b60e106..6b19def 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -296,14 +296,11 @@ class ByteGen:
 
         compiled_imports = []
         for mod in imports.values():
-            if mod.fpath in self.modules and mod.compiled:
-                continue
             compiler = ByteGen(mod)
             compiler.modules = self.modules
             compiler.uniao_variants = self.uniao_variants
             module_out = compiler.compile({}, raw=False)
             compiled_imports.append(module_out)
-            mod.compiled = True
 
         self.compile_block(program)
         assert self.depth == -1, "A block was not exited in some local scope!"
diff --git a/amanda/compiler/module.py b/amanda/compiler/module.py
index 4c89259..777a252 100644
--- a/amanda/compiler/module.py
+++ b/amanda/compiler/module.py
@@ -9,7 +9,6 @@ class Module:
     ast: Any = None
     loaded: bool = False
     builtin: bool = False
-    compiled: bool = False
 
     def __str__(self) -> str:
         _, tail = path.split(self.fpath)
-- 
2.43.0


From 7963253e68cd711571ad80c83b348a5af44d218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:05 +0000
Subject: [PATCH 83/84] fix: a vector that contains itself is written as [...]

---
 amanda/vm/src/ama_value.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index 2e13593..baafdaf 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -169,6 +169,29 @@ impl<'a> AmaValue<'a> {
         Ok(())
     }
 
+    // Writes the text of a vector. The vectors it is inside of are `open`: one
+    // that contains itself is written as [...]
+    fn write_vec(&self, res: &mut String, open: &mut Vec<*const ()>) {
+        let vec = match self {
+            AmaValue::Vector(vec) => vec,
+            _ => return write!(res, "{}", self).unwrap(),
+        };
+        let id = Rc::as_ptr(vec) as *const ();
+        if open.contains(&id) {
+            return write!(res, "[...]").unwrap();
+        }
+        open.push(id);
+        write!(res, "[").unwrap();
+        for (i, val) in vec.borrow().iter().enumerate() {
+            if i > 0 {
+                write!(res, ", ").unwrap();
+            }
+            val.write_vec(res, open);
+        }
+        write!(res, "]").unwrap();
+        open.pop();
+    }
+
     // Equality between any two values. Values of different kinds are different,
     // vectors and instances of a registo are compared by identity.
     fn equals(&self, other: &Self) -> bool {
@@ -294,18 +317,9 @@ impl Display for AmaValue<'_> {
                 let val_str = if *val { "verdadeiro" } else { "falso" };
                 write!(f, "{}", val_str)
             }
-            AmaValue::Vector(vec) => {
-                let vec = vec.borrow();
+            AmaValue::Vector(_) => {
                 let mut res = String::new();
-                write!(res, "[").unwrap();
-                vec.iter().enumerate().for_each(|(i, val)| {
-                    if i == vec.len() - 1 {
-                        write!(res, "{}", val).unwrap();
-                        return;
-                    }
-                    write!(res, "{}, ", val).unwrap();
-                });
-                write!(res, "]").unwrap();
+                self.write_vec(&mut res, &mut Vec::new());
                 write!(f, "{}", res)
             }
             AmaValue::None => write!(f, "nulo"),
-- 
2.43.0


From 89360945e381ee9c4c600df5f90203bf1fcc7e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 84/84] fix: releasing a long chain of values does not exhaust
 the native stack

---
 amanda/vm/src/ama_value.rs      | 35 +++++++++++++++++++++++++++++++++
 amanda/vm/src/lib.rs            |  7 ++++---
 amanda/vm/src/values/registo.rs |  4 ++++
 amanda/vm/src/vm.rs             |  2 +-
 4 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index baafdaf..3e1d9a4 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -279,6 +279,41 @@ impl<'a> AmaValue<'a> {
     }
 }
 
+// Values that only this one holds are released one by one: each could hold
+// another, as the nodes of a list do, and the native stack is limited.
+impl<'a> AmaValue<'a> {
+    fn release_into(&mut self, pending: &mut Vec<AmaValue<'a>>) {
+        match self {
+            AmaValue::Vector(vec) => {
+                if let Some(vec) = Rc::get_mut(vec) {
+                    pending.append(vec.get_mut());
+                }
+            }
+            AmaValue::RegObj(obj) => {
+                if let Some(obj) = Rc::get_mut(obj) {
+                    pending.extend(obj.get_mut().take_values());
+                }
+            }
+            AmaValue::Variant(_, Some(args)) => {
+                if let Some(args) = Rc::get_mut(args) {
+                    pending.append(args);
+                }
+            }
+            _ => {}
+        }
+    }
+}
+
+impl Drop for AmaValue<'_> {
+    fn drop(&mut self) {
+        let mut pending = Vec::new();
+        self.release_into(&mut pending);
+        while let Some(mut value) = pending.pop() {
+            value.release_into(&mut pending);
+        }
+    }
+}
+
 impl Clone for AmaValue<'_> {
     fn clone(&self) -> Self {
         match self {
diff --git a/amanda/vm/src/lib.rs b/amanda/vm/src/lib.rs
index 807d667..749b5ad 100644
--- a/amanda/vm/src/lib.rs
+++ b/amanda/vm/src/lib.rs
@@ -23,10 +23,11 @@ pub extern "C" fn run_module(bin_module: *mut u8, size: u32) -> u8 {
     };
 
     let alloc = Alloc::new();
-    let (main_module, imports) = binload::load_bin(module);
+    // The values of the program borrow from its modules
+    let (main_module, imports): &'static _ = Box::leak(Box::new(binload::load_bin(module)));
 
-    let mut vm = AmaVM::new(&main_module, &imports, alloc);
-    if let Err(err) = vm.run(&main_module) {
+    let mut vm = AmaVM::new(main_module, imports, alloc);
+    if let Err(err) = vm.run(main_module) {
         eprint!("{}", err);
         ERR
     } else {
diff --git a/amanda/vm/src/values/registo.rs b/amanda/vm/src/values/registo.rs
index 3c44303..b87451e 100644
--- a/amanda/vm/src/values/registo.rs
+++ b/amanda/vm/src/values/registo.rs
@@ -54,6 +54,10 @@ impl<'a> RegObj<'a> {
         self.state.insert(field, value);
     }
 
+    pub fn take_values(&mut self) -> impl Iterator<Item = AmaValue<'a>> {
+        std::mem::take(&mut self.state).into_values()
+    }
+
     pub fn reg_name(&self) -> &str {
         self.registo.name
     }
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 5ed82e7..916ac97 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -491,7 +491,7 @@ impl<'a> AmaVM<'a> {
                     self.sp = (start - 1) as isize;
                     let object = self.op_pop();
                     match object {
-                        AmaValue::Variant(_, Some(args)) => {
+                        AmaValue::Variant(_, Some(ref args)) => {
                             for (i, local_idx) in local_indices.iter().enumerate() {
                                 let idx = self.frames.peek().bp as usize + *local_idx as usize;
                                 self.values[idx] = args[i].clone();
-- 
2.43.0

