----------------------------- MODULE SyntaxWalk -----------------------------
(* Behaviours of the grammar: sentences built token by token, each token one *)
(* of those that may follow.  After a number of tokens chosen beforehand the *)
(* sentence is brought to an end.                                            *)
EXTENDS Syntax, FiniteSetsExt

CONSTANT Longest
VARIABLES ks, len
wvars == <<pid, toks, M, ks, len>>

\* Formatted texts are taken whole
Alphabet == (Keywords \ {"como", "classe"}) \cup Double \cup (Single \ {"{", "}"}) \cup {"id", "int", "real", "str", "nl", "eof", "F0", "F1"}
Kinds(a) == CASE a = "F0" -> <<"fstr", "fend">> [] a = "F1" -> <<"fstr", "parts", "id", "end", "fend">> [] OTHER -> <<a>>
Tokens(a) == [i \in 1..Len(Kinds(a)) |-> Tok(Kinds(a)[i], "", 1)]
\* What ends a sentence soonest
Closers == <<"eof", "fim", "]", ")", "=>", "entao", "faca", "..", "de", ":", "::", "alvo", "id", "(", "str", "=", "nl", ",">>

\* The machine goes on until it needs another token
Feed(m0, ts) == FoldLeft(LAMBDA m, i: IF m.st # "run" \/ m.stk = <<>> \/ (m.pos > Len(ts) /\ Last(m.stk)[1] # "a") THEN m ELSE Move(m, ts), m0, Ticks)
Letters == SetToSeq(Alphabet)
Fits(as) == FoldLeft(LAMBDA acc, a: LET m == Feed(M, toks \o Tokens(a)) IN IF m.st = "run" THEN Append(acc, <<a, m>>) ELSE acc, <<>>, as)
Take(x) == ks' = Append(ks, x[1]) /\ toks' = toks \o Tokens(x[1]) /\ M' = [x[2] EXCEPT !.groups = <<>>] /\ UNCHANGED <<pid, len>>

WInit == pid = 0 /\ toks = <<>> /\ ks = <<>> /\ len \in 2..Longest
         /\ M = [st |-> "run", pos |-> 1, stk |-> <<N("module")>>, open |-> <<>>, groups |-> <<>>, drops |-> <<>>, v |-> "other"]
Growing == Len(ks) < len /\ M.st = "run" /\ \E n \in {Fits(Letters)}: \E j \in 1..Len(n): n[j][1] # "eof" /\ Take(n[j])
Ending == Len(ks) >= len /\ Len(ks) < len + 20 /\ M.st = "run" /\ M.stk # <<>> /\ \E n \in {Fits(Closers)}: n # <<>> /\ Take(n[1])
Ended == M.st = "run" /\ M.stk = <<>> /\ PrintT("@@" \o ToJson([ks |-> ks])) /\ M' = [M EXCEPT !.st = "done"] /\ UNCHANGED <<pid, toks, ks, len>>
WNext == Growing \/ Ending \/ Ended
WSpec == WInit /\ [][WNext]_wvars
\* Nothing that was opened is left open at the end
Whole == M.stk = <<>> => M.open = <<>> /\ Last(ks) = "eof"
=============================================================================
