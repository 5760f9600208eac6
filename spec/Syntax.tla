------------------------------- MODULE Syntax -------------------------------
(* The text of a module: its tokens, whether it follows the grammar and how  *)
(* its operators group.                                                      *)
(*                                                                           *)
(* Texts come from a JSON file (IOEnv.PROGS), each with a second text of the *)
(* same length that gives the class of every character.  Scan divides a text into tokens.  Then a push-down  *)
(* machine follows the grammar with one token of lookahead: the state is the *)
(* position, the stack of what is expected, the starts of the operands that  *)
(* are open and the groups found so far (pairs of the first and the last     *)
(* token of every operation).  The verdict is "yes", or "no" with the first  *)
(* token that cannot follow.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT StepsPerTransition
VARIABLES pid, toks, M
vars == <<pid, toks, M>>

P == JsonDeserialize(IOEnv.PROGS)

-----------------------------------------------------------------------------
\* Tokens.  A character is <<itself, class>>: l letter, d digit, w other
\* characters of words, s blank, n end of line, o anything else.
Keywords == {"mostra", "e", "ou", "nao", "verdadeiro", "falso", "caso", "retorna", "produz", "se", "senao", "senaose", "escolha", "entao", "enquanto", "para",
             "faca", "de", "continua", "quebra", "usa", "como", "alvo", "registo", "iguala", "inc", "fim", "func", "met", "nulo", "vazio", "nativa", "uniao", "classe"}
Double == {"..", "@@", "::", ":>", "=>", "//", "+=", "-=", "*=", "/=", "<=", ">=", "!=", "=="}
Single == {"(", ")", ".", ";", ",", "{", "}", "[", "]", "@", ":", "?", "+", "-", "*", "/", "%", "<", ">", "="}
Quotes == {"'", "\""}

Chars(text, kinds) == TLCEval([i \in 1..Len(text) |-> <<SubSeq(text, i, i), SubSeq(kinds, i, i)>>])
\* at: the first and the last character of a token
Tok(k, v, l) == [k |-> k, v |-> v, l |-> l, at |-> <<0, 0>>]
Text(cs) == FoldLeft(LAMBDA a, c: a \o c[1], "", cs)
\* v: the characters of the token so far, d: the tokens made, l: the line, s: the line the token starts on
Start == [mode |-> "start", v |-> <<>>, d |-> <<>>, l |-> 1, s |-> 1, q |-> "", f |-> FALSE, o |-> 0]
Make(z, ts, last) == [z EXCEPT !.d = @ \o [ts EXCEPT ![1].at = <<z.o, last>>], !.mode = "start", !.v = <<>>]

RECURSIVE Scan(_, _)
\* The pieces of a formatted text: literal text, and expressions between braces
Pieces(cs) ==
  LET n == Len(cs)
      at(i) == IF i <= n THEN cs[i][1] ELSE ""
      step(z, i) ==
        CASE z.mode = "skip" -> [z EXCEPT !.mode = "text"]
          [] z.mode = "text" -> IF at(i) = "{" THEN IF at(i + 1) = "{" THEN [z EXCEPT !.mode = "skip"] ELSE [z EXCEPT !.mode = "expr", !.v = <<>>] ELSE z
          [] OTHER -> IF at(i) = "}" THEN [z EXCEPT !.mode = "text", !.d = Append(@, z.v)] ELSE [z EXCEPT !.v = Append(@, cs[i])]
      r == FoldLeft(step, [mode |-> "text", v |-> <<>>, d |-> <<>>], [i \in 1..n |-> i])
  IN [exprs |-> r.d, open |-> r.mode = "expr"]
Blank(c) == c[2] \in {"s", "n"}
Word(c) == c[2] \in {"l", "d", "w"} \/ c[1] = "_"
\* The tokens of an expression in a formatted text
Piece(cs, l) ==
  LET solid == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i: ~Blank(cs[i]))
      a == IF solid = <<>> THEN 0 ELSE solid[1]
  IN IF solid = <<>> THEN <<Tok("err", "", l)>>
     ELSE IF cs[a][1] = "f" /\ a < Len(cs) /\ cs[a + 1][1] \in Quotes THEN <<Tok("err", "", l)>>
     ELSE LET ts == Scan(cs, l) IN [i \in 1..Len(ts) |-> IF ts[i].k = "eof" THEN Tok("end", "", ts[i].l) ELSE ts[i]]
Formatted(cs, q, l) ==
  LET p == Pieces(cs)
  IN <<Tok("fstr", q \o Text(cs) \o q, l)>> \o (IF p.exprs = <<>> THEN <<>> ELSE <<Tok("parts", "", l)>>)
     \o FlattenSeq([i \in 1..Len(p.exprs) |-> Piece(p.exprs[i], l)]) \o (IF p.open THEN <<Tok("err", "", l)>> ELSE <<>>) \o <<Tok("fend", "", l)>>

Scan(cs, line) ==
  LET n == Len(cs)
      at(i) == IF i <= n THEN cs[i][1] ELSE ""
      is(i, k) == i <= n /\ cs[i][2] = k
      dead(z, l) == [Make(z, <<Tok("err", "", l)>>, n) EXCEPT !.mode = "dead"]
      \* A character that starts a token, or none
      first(y, i) ==
        LET c == at(i)
            z == [y EXCEPT !.o = i]
        IN IF is(i, "n") THEN IF i = n THEN z ELSE [Make(z, <<Tok("nl", "\\n", z.l)>>, i) EXCEPT !.l = @ + 1]
           ELSE IF is(i, "s") THEN z
           ELSE IF c = "#" THEN [z EXCEPT !.mode = "comment"]
           ELSE IF c \in Quotes THEN [z EXCEPT !.mode = "str", !.q = c, !.s = z.l, !.f = FALSE]
           ELSE IF c = "f" /\ at(i + 1) \in Quotes THEN [z EXCEPT !.mode = "open", !.q = at(i + 1), !.s = z.l, !.f = TRUE]
           ELSE IF is(i, "l") \/ c = "_" THEN [z EXCEPT !.mode = "word", !.v = <<cs[i]>>]
           ELSE IF is(i, "d") THEN [z EXCEPT !.mode = "whole", !.v = <<cs[i]>>]
           ELSE IF i < n /\ (c \o at(i + 1)) \in Double THEN [Make(z, <<Tok(c \o at(i + 1), c \o at(i + 1), z.l)>>, i + 1) EXCEPT !.mode = "skip"]
           ELSE IF c \in Single THEN Make(z, <<Tok(c, c, z.l)>>, i)
           ELSE dead(z, z.l)
      word(z, last) == LET t == Text(z.v) IN Make(z, <<Tok(IF t \in Keywords THEN t ELSE "id", t, z.l)>>, last)
      number(z, k, last) == Make(z, <<Tok(k, Text(z.v), z.l)>>, last)
      step(z, i) ==
        CASE z.mode = "dead" -> z
          [] z.mode = "start" -> first(z, i)
          [] z.mode = "skip" -> [z EXCEPT !.mode = "start"]
          [] z.mode = "comment" -> IF is(i, "n") THEN first([z EXCEPT !.mode = "start"], i) ELSE z
          [] z.mode = "word" -> IF Word(cs[i]) THEN [z EXCEPT !.v = Append(@, cs[i])] ELSE first(word(z, i - 1), i)
          [] z.mode = "whole" -> IF is(i, "d") THEN [z EXCEPT !.v = Append(@, cs[i])]
                                 ELSE IF at(i) = "." /\ is(i + 1, "d") THEN [z EXCEPT !.mode = "real", !.v = Append(@, cs[i])]
                                 ELSE first(number(z, "int", i - 1), i)
          [] z.mode = "real" -> IF is(i, "d") THEN [z EXCEPT !.v = Append(@, cs[i])] ELSE first(number(z, "real", i - 1), i)
          [] z.mode = "open" -> [z EXCEPT !.mode = "str"]
          [] z.mode = "esc" -> [z EXCEPT !.mode = "str"]
          [] z.mode = "str" ->
               IF at(i) = z.q THEN Make(z, IF z.f THEN Formatted(z.v, z.q, z.s) ELSE <<Tok("str", z.q \o Text(z.v) \o z.q, z.s)>>, i)
               ELSE IF at(i) = "\\" /\ at(i + 1) \in {"n"} \cup Quotes
                    THEN [z EXCEPT !.mode = "esc", !.v = Append(@, IF at(i + 1) = "n" THEN <<"\n", "n">> ELSE cs[i + 1])]
               ELSE [z EXCEPT !.v = Append(@, cs[i]), !.l = IF is(i, "n") THEN @ + 1 ELSE @]
      z == FoldLeft(step, [Start EXCEPT !.l = line], [i \in 1..n |-> i])
      r == CASE z.mode = "word" -> word(z, n)
             [] z.mode = "whole" -> number(z, "int", n)
             [] z.mode = "real" -> number(z, "real", n)
             [] z.mode \in {"str", "esc", "open"} -> dead(z, z.s)
             [] OTHER -> z
  IN Append(r.d, Tok("eof", "", r.l))

-----------------------------------------------------------------------------
\* Grammar.  What is expected is a token (T), a token that only groups (S), a
\* phrase (N) or a note on what was read (A).
T(k) == <<"t", k>>
S(k) == <<"s", k>>
N(x) == <<"n", x>>
A(x) == <<"a", x>>
Err == <<<<"e", "">>>>
NL == N("newlines")
Compound == {"+=", "-=", "*=", "/="}
Binary(phrase, next, ops, k) == IF k \in ops THEN <<T(k), N(next), A("group"), N(phrase)>> ELSE <<A("close")>>
Id2(k, more) == IF k = "," THEN <<T(","), T("id"), N(more)>> ELSE <<>>

\* x: the phrase, k: the next token, v: what the last expression is
Expand(x, k, v) ==
  CASE x = "newlines" -> IF k = "nl" THEN <<T("nl"), NL>> ELSE <<>>
    [] x = "end" -> IF k \in {"nl", ";", "eof"} THEN <<T(k)>> ELSE Err
    [] x = "optcomma" -> IF k = "," THEN <<T(",")>> ELSE <<>>
    \* modules and blocks
    [] x = "module" -> <<NL, N("modnotes"), N("imports")>>
    [] x = "modnotes" -> IF k = "@@" THEN <<T("@@"), N("note"), N("modnotes")>> ELSE <<>>
    [] x = "imports" -> IF k = "usa" THEN <<T("usa"), T("str"), N("import"), NL, N("imports")>> ELSE <<N("top")>>
    [] x = "import" -> IF k = "=>" THEN <<T("=>"), N("imported")>> ELSE <<N("end")>>
    [] x = "imported" -> IF k = "id" THEN <<T("id")>> ELSE IF k = "[" THEN <<T("["), T("id"), N("ids"), T("]")>> ELSE Err
    [] x = "ids" -> Id2(k, "ids")
    [] x = "top" -> IF k = "eof" THEN <<>> ELSE IF k = "nl" THEN <<T("nl"), N("top")>> ELSE <<N("item"), N("top")>>
    [] x = "block" -> IF k \in {"fim", "senao", "senaose", "caso", "eof"} THEN <<>> ELSE IF k = "nl" THEN <<T("nl"), N("block")>> ELSE <<N("item"), N("block")>>
    [] x = "item" -> IF k = "@" THEN <<N("notes"), NL, N("noted")>> ELSE <<N("item2")>>
    [] x = "notes" -> IF k = "@" THEN <<T("@"), N("note"), N("notes")>> ELSE <<>>
    [] x = "noted" -> IF k \in {"func", "met", "registo", "uniao"} THEN <<N("item2")>> ELSE Err
    [] x = "note" -> <<T("id"), N("note2")>>
    [] x = "note2" -> IF k = "(" THEN <<T("("), N("note3")>> ELSE <<>>
    [] x = "note3" -> IF k = ")" THEN Err ELSE <<N("attrs")>>
    [] x = "attrs" -> IF k = ")" THEN <<T(")")>> ELSE <<T("id"), T("="), T("str"), N("optcomma"), N("attrs")>>
    [] x = "item2" ->
         (CASE k = "func" -> <<T("func"), N("func")>>
            [] k = "met" -> <<T("met"), N("generics"), N("type"), T("::"), T("id"), T("("), T("alvo"), N("more"), T(")"), N("mresult"), N("block"), T("fim")>>
            [] k = "registo" -> <<T("registo"), T("id"), N("generics"), N("fields"), T("fim")>>
            [] k = "uniao" -> <<T("uniao"), T("id"), N("generics"), NL, N("variants"), NL, T("fim")>>
            [] OTHER -> <<N("stmt")>>)
    [] x = "func" -> IF k = "nativa" THEN <<T("nativa"), N("header"), N("end")>> ELSE <<N("header"), N("block"), T("fim")>>
    [] x = "header" -> <<T("id"), T("("), N("params"), T(")"), N("result")>>
    [] x = "result" -> IF k = ":" THEN <<T(":"), N("result2")>> ELSE <<>>
    [] x = "result2" -> IF k = "vazio" THEN <<T("vazio")>> ELSE <<N("type")>>
    [] x = "mresult" -> IF k = ":" THEN <<T(":"), N("type")>> ELSE <<>>
    [] x = "more" -> IF k = "," THEN <<T(","), N("params")>> ELSE <<>>
    [] x = "params" -> <<NL, N("params1")>>
    [] x = "params1" -> IF k = "id" THEN <<T("id"), T(":"), N("type"), N("params2")>> ELSE <<>>
    [] x = "params2" -> IF k = ")" THEN <<>> ELSE <<NL, T(","), NL, T("id"), T(":"), N("type"), NL, N("params2")>>
    [] x = "generics" -> IF k = "[" THEN <<T("["), T("id"), N("optcomma"), N("generics2")>> ELSE <<>>
    [] x = "generics2" -> IF k = "]" THEN <<T("]")>> ELSE <<T("id"), N("optcomma"), N("generics2")>>
    [] x = "fields" -> IF k = "fim" THEN <<>> ELSE IF k = "nl" THEN <<T("nl"), N("fields")>> ELSE IF k = "id" THEN <<T("id"), N("field"), N("end"), N("fields")>> ELSE Err
    [] x = "field" -> IF k = "," THEN <<N("names")>> ELSE <<N("decl")>>
    [] x = "variants" -> IF k = "id" THEN <<N("variant"), NL, N("variants2")>> ELSE <<>>
    [] x = "variants2" -> IF k = "," THEN <<T(","), NL, N("variant"), N("variants2")>> ELSE <<>>
    [] x = "variant" -> <<T("id"), N("payload")>>
    [] x = "payload" -> IF k = "(" THEN <<T("("), NL, N("type"), N("payload2"), T(")")>> ELSE <<>>
    [] x = "payload2" -> IF k = "," THEN <<T(","), NL, N("type"), NL, N("payload2")>> ELSE <<>>
    \* types
    [] x = "type" -> IF k = "id" THEN <<T("id"), N("type2")>> ELSE IF k = "[" THEN <<T("["), N("type"), T("]"), N("maybe")>> ELSE Err
    [] x = "type2" -> IF k = "." THEN <<T("."), T("id"), N("type2")>> ELSE <<N("targs"), N("maybe")>>
    [] x = "maybe" -> IF k = "?" THEN <<T("?")>> ELSE <<>>
    [] x = "targs" -> IF k = "[" THEN <<T("["), N("type"), N("optcomma"), N("targs2")>> ELSE <<>>
    [] x = "targs2" -> IF k = "]" THEN <<T("]")>> ELSE <<N("type"), N("optcomma"), N("targs2")>>
    \* statements
    [] x = "stmt" ->
         (CASE k \in {"mostra", "produz"} -> <<T(k), N("expr"), N("end")>>
            [] k = "retorna" -> <<T(k), N("retorna")>>
            [] k = "enquanto" -> <<T(k), N("expr"), T("faca"), N("block"), T("fim")>>
            [] k = "se" -> <<T(k), N("se")>>
            [] k = "para" -> <<T(k), T("id"), T("de"), N("expr"), T(".."), N("expr"), N("inc"), T("faca"), N("block"), T("fim")>>
            [] k = "escolha" -> <<T(k), N("expr"), T(":"), NL, N("cases"), N("default"), T("fim")>>
            [] k \in {"quebra", "continua"} -> <<T(k), N("end")>>
            [] k = "iguala" -> <<N("match")>>
            [] OTHER -> <<N("expr"), N("asg"), N("decls"), N("end")>>)
    [] x = "retorna" -> IF k \in {";", "nl"} THEN <<N("end")>> ELSE <<N("expr"), N("end")>>
    [] x = "se" -> IF k = "iguala" THEN <<T(k), N("expr"), T("=>"), N("pattern"), T("entao"), N("block"), N("else"), T("fim")>>
                   ELSE <<N("expr"), T("entao"), N("block"), N("elses"), N("else"), T("fim")>>
    [] x = "elses" -> IF k = "senaose" THEN <<T(k), N("expr"), T("entao"), N("block"), N("elses")>> ELSE <<>>
    [] x = "else" -> IF k = "senao" THEN <<T(k), N("block")>> ELSE <<>>
    [] x = "inc" -> IF k = "inc" THEN <<T(k), N("expr")>> ELSE <<>>
    [] x = "cases" -> IF k = "caso" THEN <<T(k), N("expr"), T(":"), N("block"), N("cases")>> ELSE <<>>
    [] x = "default" -> IF k = "senao" THEN <<T(k), T(":"), N("block")>> ELSE <<>>
    \* assignments and declarations; assignment groups to the right
    [] x = "asg" -> IF k = "=" THEN <<T(k), A("target"), N("expr"), N("asg2"), A("other")>>
                    ELSE IF k \in Compound THEN <<A("target"), T(k), N("expr"), A("other")>> ELSE <<>>
    [] x = "asg2" -> IF k = "=" THEN <<T(k), A("target"), N("expr"), N("asg2")>> ELSE IF k \in Compound THEN Err ELSE <<>>
    [] x = "decls" -> IF v # "var" THEN <<>> ELSE IF k = ":" THEN <<N("decl")>> ELSE IF k = "," THEN <<N("names")>> ELSE <<>>
    [] x = "decl" -> <<T(":"), N("type"), N("init")>>
    [] x = "init" -> IF k = "=" THEN <<T(k), N("expr")>> ELSE <<>>
    [] x = "names" -> IF k = "," THEN <<T(","), T("id"), N("names")>> ELSE <<T(":"), N("type")>>
    \* matches
    [] x = "match" -> <<T("iguala"), N("expr"), N("arms")>>
    [] x = "arms" -> IF k = "fim" THEN <<T("fim")>> ELSE <<N("arm"), N("arms2"), N("arms")>>
    [] x = "arms2" -> IF k = "," THEN <<T(","), N("arm"), N("arms2")>> ELSE <<>>
    [] x = "arm" -> <<NL, N("pattern"), T("=>"), NL, N("body"), NL>>
    [] x = "body" -> IF k = "faca" THEN <<T(k), N("block"), T("fim")>> ELSE <<N("expr")>>
    [] x = "pattern" -> <<N("primary"), A("pattern"), N("pattern2")>>
    [] x = "pattern2" -> IF v \in {"var", "path"} /\ k = "(" THEN <<T(k), N("pattern"), NL, N("patterns"), T(")")>> ELSE <<>>
    [] x = "patterns" -> IF k = "," THEN <<T(k), N("pattern"), N("patterns")>> ELSE <<>>
    \* expressions
    [] x = "expr" -> <<A("open"), N("comparison"), N("expr2")>>
    [] x = "expr2" -> Binary("expr2", "comparison", {"==", "!="}, k)
    [] x = "comparison" -> <<A("open"), N("sum"), N("comparison2")>>
    [] x = "comparison2" -> Binary("comparison2", "sum", {"<", "<=", ">", ">="}, k)
    [] x = "sum" -> <<A("open"), N("term"), N("sum2")>>
    [] x = "sum2" -> Binary("sum2", "term", {"+", "-", "ou"}, k)
    [] x = "term" -> <<A("open"), N("unary"), N("term2")>>
    [] x = "term2" -> Binary("term2", "unary", {"*", "/", "//", "%", "e"}, k)
    [] x = "unary" -> IF k \in {"+", "-", "nao"} THEN <<A("open"), T(k), N("unary"), A("group"), A("close")>> ELSE <<A("open"), N("primary"), N("post")>>
    [] x = "post" ->
         (CASE k = "(" -> <<T(k), NL, N("args"), T(")"), A("group"), N("post")>>
            [] k = "[" -> <<T(k), N("expr"), T("]"), A("group"), A("target0"), N("post")>>
            [] k = "." -> <<T(k), T("id"), A("group"), A("target0"), N("post")>>
            [] k = ":>" -> <<T(k), N("type"), A("group"), A("close")>>
            [] OTHER -> <<A("close")>>)
    [] x = "args" -> IF k = ")" THEN <<>> ELSE <<N("arg"), NL, N("args2")>>
    [] x = "args2" -> IF k = "," THEN <<T(k), NL, N("arg"), NL, N("args2")>> ELSE <<>>
    [] x = "arg" -> <<N("expr"), N("named")>>
    [] x = "named" -> IF v = "var" /\ k = ":" THEN <<T(k), N("expr")>> ELSE <<>>
    [] x = "primary" ->
         (CASE k = "id" -> <<T(k), A("var"), N("path")>>
            [] k \in {"int", "str"} -> <<T(k), A(k)>>
            [] k \in {"real", "nulo", "verdadeiro", "falso", "alvo"} -> <<T(k), A("other")>>
            [] k = "fstr" -> <<T(k), N("fstr")>>
            [] k = "[" -> <<T(k), NL, N("type"), T(":"), N("list"), NL, T("]"), A("other")>>
            [] k = "(" -> <<S(k), N("expr"), S(")")>>
            [] k = "iguala" -> <<N("match"), A("other")>>
            [] OTHER -> Err)
    [] x = "path" -> IF k = "::" THEN <<T(k), T("id"), A("path"), N("path")>> ELSE <<>>
    [] x = "fstr" -> IF k = "parts" THEN <<T(k), N("parts"), T("fend"), A("other")>> ELSE <<T("fend"), A("str")>>
    [] x = "parts" -> IF k = "fend" THEN <<>> ELSE <<N("expr"), T("end"), N("parts")>>
    [] x = "list" -> IF k = "]" THEN <<>> ELSE <<NL, N("expr"), N("list2")>>
    [] x = "list2" -> IF k = "]" THEN <<>> ELSE <<NL, T(","), NL, N("expr"), NL, N("list2")>>

-----------------------------------------------------------------------------
\* The machine
Fail(m) == [m EXCEPT !.st = "no"]
Note(m, x) ==
  CASE x = "open" -> [m EXCEPT !.open = Append(@, m.pos)]
    [] x = "close" -> [m EXCEPT !.open = Front(@)]
    [] x = "group" -> [m EXCEPT !.groups = Append(@, <<Last(m.open), m.pos - 1>>), !.v = "other"]
    [] x = "target0" -> [m EXCEPT !.v = "place"]
    [] x = "target" -> IF m.v \in {"var", "place"} THEN m ELSE Fail(m)
    [] x = "pattern" -> IF m.v \in {"var", "path", "int", "str"} THEN m ELSE Fail(m)
    [] OTHER -> [m EXCEPT !.v = x]
Move(m, ts) ==
  LET s == Last(m.stk)
      r == [m EXCEPT !.stk = Front(@)]
      k == ts[m.pos].k
  IN IF s[1] = "a" THEN Note(r, s[2])
     ELSE IF k = "err" THEN Fail(m)
     ELSE CASE s[1] = "t" -> IF k = s[2] THEN [r EXCEPT !.pos = IF k = "eof" THEN @ ELSE @ + 1] ELSE Fail(m)
            [] s[1] = "s" -> IF k = s[2] THEN [r EXCEPT !.pos = @ + 1, !.drops = Append(@, m.pos)] ELSE Fail(m)
            [] s[1] = "e" -> Fail(m)
            [] OTHER -> [r EXCEPT !.stk = @ \o Reverse(Expand(s[2], k, m.v))]
Ticks == [i \in 1..StepsPerTransition |-> i]
Many(m0) == FoldLeft(LAMBDA m, i: IF m.st # "run" \/ m.stk = <<>> THEN m ELSE Move(m, toks), m0, Ticks)

\* Where a module that does not follow the grammar stops
At == [from |-> IF M.pos > 1 THEN toks[M.pos - 1].l ELSE toks[1].l, at |-> M.pos]
Plain == SelectSeq([i \in 1..Len(toks) |-> i], LAMBDA i: Cardinality({j \in 1..(i - 1): toks[j].k = "fstr"}) = Cardinality({j \in 1..(i - 1): toks[j].k = "fend"}))

Init == pid \in 1..Len(P) /\ toks = <<>> /\ M = [st |-> "new", pos |-> 1, stk |-> <<N("module")>>, open |-> <<>>, groups |-> <<>>, drops |-> <<>>, v |-> "other"]
Scanning == M.st = "new" /\ toks' = Scan(Chars(P[pid].text, P[pid].kinds), 1) /\ M' = [M EXCEPT !.st = "run"]
Running == M.st = "run" /\ M.stk # <<>> /\ M' = Many(M)
Accepting == M.st = "run" /\ M.stk = <<>> /\ M' = [M EXCEPT !.st = "yes"]
Reporting == /\ M.st \in {"yes", "no"}
             /\ PrintT("@@" \o ToJson([p |-> P[pid].pid, st |-> M.st, pos |-> M.pos, groups |-> M.groups, drops |-> M.drops, toks |-> [i \in 1..Len(toks) |-> <<toks[i].k, toks[i].v, toks[i].l, toks[i].at[1], toks[i].at[2]>>]]))
             /\ M' = [st |-> "done", stk |-> <<>>, open |-> <<>>, groups |-> <<>>]
Next == (Scanning \/ ((Running \/ Accepting \/ Reporting) /\ UNCHANGED toks)) /\ UNCHANGED pid
Spec == Init /\ [][Next]_vars

\* Every operand that was opened is closed, and groups nest
Closed == M.st = "yes" => M.open = <<>> /\ toks[M.pos].k = "eof"
Nested == M.st = "yes" => \A a, b \in Range(M.groups): a[1] > b[2] \/ b[1] > a[2] \/ (a[1] >= b[1] /\ a[2] <= b[2]) \/ (b[1] >= a[1] /\ b[2] <= a[2])
\* Lines never go back, except from the parts of a formatted text to what follows
Ordered == M.st = "yes" => \A i \in 1..(Len(toks) - 1): toks[i].k \in {"end", "fend"} \/ toks[i].l <= toks[i + 1].l
=============================================================================
