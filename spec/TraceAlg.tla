-------------------------------- MODULE TraceAlg --------------------------------
(***************************************************************************)
(* Is every recorded notation session of the real code as specified?       *)
(* Texts are parsed, algs are printed, inverted, serialized and built; the *)
(* only state is the builders' contents.                                   *)
(***************************************************************************)
EXTENDS Notation, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES d, l, B, bad, want
vars == <<d, l, B, bad, want>>

S == Sessions[d]
E == S.ev[l]
Nothing == [ok |-> TRUE]

Init == d \in DOMAIN Sessions /\ l = 1 /\ B = <<>> /\ bad = FALSE /\ want = Nothing

No == [ok |-> FALSE, panic |-> FALSE, disp |-> TRUE]
Accept(r) == IF r.ok THEN [ok |-> TRUE, ast |-> r.alg] ELSE No
ParseAs(kind, txt) == CASE kind = "alg" -> ParseAlg(txt)
                        [] kind = "move" -> ParseMove(txt)
                        [] OTHER -> ParseQuantum(txt)
TextAs(kind, alg) == CASE kind = "alg" -> AlgText(alg)
                       [] kind = "move" -> MoveText(alg[1])
                       [] OTHER -> QuantumText(alg[1].pre, alg[1].fam)
Printed(alg) == LET txt == AlgText(alg) IN
    [ok |-> TRUE, txt |-> txt, back |-> TRUE, ast |-> ParseAlg(txt).alg]
(* What is said of an alg whose structure is too deep to be shown.          *)
Deep(alg) == LET txt == AlgText(alg)  inv == InvertAlg(alg) IN
    [ok |-> TRUE, txt |-> txt, back |-> ParseAlg(txt).alg = alg, inv |-> AlgText(inv),
     twice |-> InvertAlg(inv) = alg, orig |-> txt, ser |-> txt]
CliInvert(r) == IF r.ok THEN [ok |-> TRUE, crash |-> FALSE, out |-> Append(AlgText(InvertAlg(r.alg)), NLC)]
                ELSE [ok |-> FALSE, crash |-> FALSE, out |-> <<>>]

(* What the tool is given: text, bytes that may not be text, or a standard   *)
(* input that cannot be read.                                               *)
Given(e) == IF e.via = "dir" THEN Rejected
            ELSE IF "raw" \notin DOMAIN e THEN ParseAlg(e.txt)
            ELSE LET u == Utf8(e.raw) IN IF u.ok THEN ParseAlg(u.txt) ELSE Rejected

Wanted ==
    CASE E.op = "parse" -> Accept(ParseAs(E.kind, E.txt))
      [] E.op = "print" -> Printed(E.alg)
      [] E.op = "print_move" -> [ok |-> TRUE, txt |-> MoveText(E.mv), back |-> TRUE, ast |-> <<E.mv>>,
                                 q |-> QuantumText(E.mv.pre, E.mv.fam)]
      [] E.op = "round" -> LET r == ParseAlg(E.txt) IN IF r.ok THEN Printed(r.alg) ELSE No
      [] E.op = "deep" -> LET r == ParseAlg(E.txt) IN IF r.ok THEN Deep(r.alg) ELSE No
      [] E.op = "many" -> [ok |-> TRUE, vals |-> [i \in DOMAIN E.txts |-> LET a == ParseAlg(E.txts[i]).alg IN
                               [txt |-> AlgText(a), inv |-> AlgText(InvertAlg(a)), ast |-> a]]]
      [] E.op = "parts" -> [ok |-> TRUE, vals |-> [i \in DOMAIN E.alg |-> LET n == E.alg[i]  inv == InvertAlg(<<n>>) IN
                               [node |-> NodeText(n), own |-> NodeText(n), same |-> TRUE, inv |-> inv, owninv |-> inv]]]
      [] E.op = "prefix" -> LET m == E.alg[1] IN
            [ok |-> TRUE, txts |-> IF m.pre = <<>> THEN <<>> ELSE [j \in 1 .. 3 |-> PrefixText(m.pre)], same |-> TRUE,
             txt |-> QuantumText(m.pre, m.fam)]
      [] E.op = "invert" -> LET i == InvertAlg(E.alg) IN
            [ok |-> TRUE, ast |-> i, twice |-> InvertAlg(i), orig |-> E.alg, same |-> TRUE, txt |-> AlgText(i)]
      [] E.op = "invert_move" -> [ok |-> TRUE, ast |-> <<InvertMove(E.mv)>>, twice |-> <<InvertMove(InvertMove(E.mv))>>]
      [] E.op = "ser" -> [ok |-> TRUE, txt |-> TextAs(E.kind, E.alg)]
      [] E.op = "de" -> Accept(ParseAs(E.kind, E.txt))
      [] E.op = "lit" -> LET r == ParseAs(E.kind, E.txt) IN       \* a literal in a program
            IF r.ok THEN [ok |-> TRUE, ast |-> r.alg, same |-> TRUE] ELSE No
      [] E.op = "de_raw" -> [ok |-> FALSE]
      [] E.op = "cmt_new" -> IF \E i \in DOMAIN E.txt : E.txt[i] = NLC THEN [ok |-> FALSE, disp |-> TRUE]
                             ELSE [ok |-> TRUE, ast |-> <<CommentNode(E.txt)>>]
      [] E.op = "err_new" ->           \* says what it was made to say, and is of its kind however it is passed on
            [ok |-> FALSE, panic |-> FALSE, err |-> E.err, disp |-> TRUE, chain |-> TRUE, says |-> TRUE, shown |-> TRUE,
             outer |-> IF E.err \in {"notation", "move"} THEN "alg" ELSE E.err]
      [] E.op \in {"b_new", "b_push"} -> [ok |-> TRUE, after |-> E.alg]
      [] E.op = "b_done" -> [ok |-> TRUE, ast |-> B[E.r]]
      [] E.op = "cli" -> LET r == Given(E) IN
            IF E.cmd = "parse" THEN [ok |-> r.ok, crash |-> FALSE] ELSE CliInvert(r)

(* What the builders hold afterwards.                                       *)
At(r, v) == [j \in (DOMAIN B) \cup {r} |-> IF j = r THEN v ELSE B[j]]
Next ==
    /\ ~bad /\ l <= Len(S.ev)
    /\ want' = Wanted
    /\ B' = CASE E.op = "b_new" -> At(E.r, E.alg)
              [] E.op = "b_push" -> At(E.r, B[E.r] \o E.alg)
              [] OTHER -> B
    /\ l' = l + 1 /\ d' = d
    /\ bad' = ~(\A f \in DOMAIN want' : f \in DOMAIN E.res /\ E.res[f] = want'[f])
    /\ bad' => PrintT("MISMATCH " \o ToJson([sid |-> S.sid, at |-> l, event |-> E, expected |-> want']))

Spec == Init /\ [][Next]_vars
Conforming == ~bad
================================================================================
