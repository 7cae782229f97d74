------------------------------- MODULE Notation -------------------------------
(***************************************************************************)
(* The alg notation of cubing.rs: its abstract syntax, its grammar as a    *)
(* character-level pushdown automaton, its canonical text, and inversion.  *)
(*                                                                         *)
(* Text is a sequence of Unicode code points.  A numeral that can exceed   *)
(* TLC's integers (layer numbers are unsigned 32-bit) is a normalized      *)
(* sequence of digit code points; amounts are integers in i32.             *)
(*                                                                         *)
(* An alg is a sequence of nodes; a node is one of                         *)
(*   [t |-> "move", fam, pre, amt]   fam: text; pre: <<>>, <<l>>, <<o,i>>  *)
(*   [t |-> "pause"]  [t |-> "nl"]  [t |-> "cmt", txt]                     *)
(*   [t |-> "grp", alg, amt]                                               *)
(*   [t |-> "comm", a, b]  [t |-> "conj", a, b]                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

SP == 32      NLC == 10     QUOTE == 39   LP == 40      RP == 41
PLUS == 43    COMMA == 44   MINUS == 45   DOT == 46     SLASH == 47
COLON == 58   LB == 91      RB == 93

IsDigit(c) == c \in 48..57
IsLetter(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95

S_SLASH == <<95, 83, 76, 65, 83, 72, 95>>                       \* _SLASH_
S_PLUS == <<95, 80, 76, 85, 83, 95>>                            \* _PLUS_
S_PLUSPLUS == <<95, 80, 76, 85, 83, 80, 76, 85, 83, 95>>        \* _PLUSPLUS_
S_U_SQ == <<85, 95, 83, 81, 95>>                                \* U_SQ_
S_D_SQ == <<68, 95, 83, 81, 95>>                                \* D_SQ_

MaxI32 == 2147483647
DigitsMaxI32 == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
DigitsMaxU32 == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>

(* ---------------------------- numerals -------------------------------- *)
RECURSIVE StripZeros(_)
StripZeros(ds) == IF Len(ds) > 1 /\ ds[1] = 48 THEN StripZeros(Tail(ds)) ELSE ds

RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE
                ELSE IF a[1] # b[1] THEN a[1] < b[1]
                ELSE LexLeq(Tail(a), Tail(b))
NumeralLeq(ds, max) == LET n == StripZeros(ds) IN
    Len(n) < Len(max) \/ (Len(n) = Len(max) /\ LexLeq(n, max))
FitsI32(ds) == NumeralLeq(ds, DigitsMaxI32)
FitsU32(ds) == NumeralLeq(ds, DigitsMaxU32)
IntOf(ds) == FoldLeft(LAMBDA acc, c : acc * 10 + (c - 48), 0, StripZeros(ds))

RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))
IntText(n) == IF n < 0 THEN <<MINUS>> \o NatText(-n) ELSE NatText(n)
Abs(n) == IF n < 0 THEN -n ELSE n

(* ----------------------- bytes as text (UTF-8) ------------------------ *)
(* need: continuation bytes still to come, the next of them in lo..hi.      *)
Utf8Start == [ok |-> TRUE, need |-> 0, cp |-> 0, lo |-> 128, hi |-> 191, txt |-> <<>>]
Utf8Lead(s, need, cp, lo, hi) == [s EXCEPT !.need = need, !.cp = cp, !.lo = lo, !.hi = hi]
Utf8Step(s, b) ==
    IF ~s.ok THEN s
    ELSE IF s.need > 0
    THEN IF b \notin s.lo..s.hi THEN [s EXCEPT !.ok = FALSE]
         ELSE LET cp == s.cp * 64 + (b - 128) IN
              IF s.need = 1 THEN [s EXCEPT !.need = 0, !.txt = Append(@, cp)]
              ELSE [s EXCEPT !.need = @ - 1, !.cp = cp, !.lo = 128, !.hi = 191]
    ELSE CASE b < 128 -> [s EXCEPT !.txt = Append(@, b)]
           [] b \in 194..223 -> Utf8Lead(s, 1, b - 192, 128, 191)
           [] b = 224 -> Utf8Lead(s, 2, 0, 160, 191)
           [] b = 237 -> Utf8Lead(s, 2, 13, 128, 159)
           [] b \in 225..239 -> Utf8Lead(s, 2, b - 224, 128, 191)
           [] b = 240 -> Utf8Lead(s, 3, 0, 144, 191)
           [] b \in 241..243 -> Utf8Lead(s, 3, b - 240, 128, 191)
           [] b = 244 -> Utf8Lead(s, 3, 4, 128, 143)
           [] OTHER -> [s EXCEPT !.ok = FALSE]
Utf8(bytes) == LET e == FoldLeft(Utf8Step, Utf8Start, bytes) IN [ok |-> e.ok /\ e.need = 0, txt |-> e.txt]

(* ------------------------------ nodes --------------------------------- *)
MoveNode(pre, fam, amt) == [t |-> "move", fam |-> fam, pre |-> pre, amt |-> amt]
PauseNode == [t |-> "pause"]
NewlineNode == [t |-> "nl"]
CommentNode(txt) == [t |-> "cmt", txt |-> txt]
GroupNode(alg, amt) == [t |-> "grp", alg |-> alg, amt |-> amt]
CommNode(a, b) == [t |-> "comm", a |-> a, b |-> b]
ConjNode(a, b) == [t |-> "conj", a |-> a, b |-> b]
SlashNode == MoveNode(<<>>, S_SLASH, 1)
TupleNode(top, bottom) ==
    GroupNode(<<MoveNode(<<>>, S_U_SQ, top), MoveNode(<<>>, S_D_SQ, bottom)>>, 1)

(* A grouping that is written as a Square-1 tuple.                          *)
IsTuple(g) == /\ g.t = "grp" /\ g.amt = 1 /\ Len(g.alg) = 2
              /\ g.alg[1].t = "move" /\ g.alg[1].pre = <<>> /\ g.alg[1].fam = S_U_SQ
              /\ g.alg[2].t = "move" /\ g.alg[2].pre = <<>> /\ g.alg[2].fam = S_D_SQ

(***************************************************************************)
(* The grammar, as a deterministic pushdown automaton.                     *)
(*                                                                         *)
(* A configuration has a mode, a stack of open lists (the alg itself, an   *)
(* open parenthesis, the first or second half of an open bracket) and the  *)
(* registers of the element being read.  Step consumes one character;      *)
(* Finish says whether the text may end here, and what it means.           *)
(***************************************************************************)
Frame(k) == [k |-> k, nodes |-> <<>>, a |-> <<>>, sep |-> 0]

Cfg0 == [m |-> "ready", stk |-> <<Frame("top")>>, sp |-> FALSE,
         d1 |-> <<>>, d2 |-> <<>>, fam |-> <<>>, neg |-> FALSE, neg2 |-> FALSE,
         tup |-> FALSE, txt |-> <<>>, pend |-> <<>>]
DeadCfg == [Cfg0 EXCEPT !.m = "dead"]

Top(cfg) == cfg.stk[Len(cfg.stk)]

(* Append a finished element to the innermost open list.                    *)
AddNode(cfg, node) ==
    LET n == Len(cfg.stk) IN
    [Cfg0 EXCEPT !.stk = [cfg.stk EXCEPT ![n].nodes = Append(@, node)]]

(* An element other than a newline needs a space before it, unless it is    *)
(* first in its list or follows a newline.                                  *)
CanStart(cfg) == LET ns == Top(cfg).nodes IN
    ns = <<>> \/ cfg.sp \/ ns[Len(ns)].t = "nl"

PrefixOf(cfg) == (IF cfg.d1 = <<>> THEN <<>> ELSE <<StripZeros(cfg.d1)>>)
                 \o (IF cfg.d2 = <<>> THEN <<>> ELSE <<StripZeros(cfg.d2)>>)

AddMove(cfg, fam, amt) == AddNode(cfg, MoveNode(PrefixOf(cfg), fam, amt))

(* Finish the grouping or bracket in cfg.pend with the amount digits in     *)
(* cfg.fam (empty: 1) and the given sign.                                   *)
CloseGroup(cfg, sign) ==
    IF ~FitsI32(cfg.fam) THEN DeadCfg
    ELSE LET n == IF cfg.fam = <<>> THEN sign ELSE sign * IntOf(cfg.fam)
             f == cfg.pend[1]
             bracket == IF f.sep = COMMA THEN CommNode(f.a, f.nodes) ELSE ConjNode(f.a, f.nodes)
         IN IF f.k = "par" THEN AddNode(cfg, GroupNode(f.nodes, n))
            ELSE IF n = 1 THEN AddNode(cfg, bracket)
            ELSE AddNode(cfg, GroupNode(<<bracket>>, n))

(* Pop the innermost open list; it waits for an optional amount.            *)
Close(cfg) == [Cfg0 EXCEPT !.m = "gamt", !.stk = Front(cfg.stk), !.pend = <<Top(cfg)>>]

Push(cfg, k, mode) == [Cfg0 EXCEPT !.m = mode, !.stk = Append(cfg.stk, Frame(k))]

(* Between elements.                                                        *)
Ready(cfg, c) ==
    CASE c = SP -> [cfg EXCEPT !.sp = TRUE, !.m = "ready"]
      [] c = NLC -> AddNode(cfg, NewlineNode)
      [] c = RP -> IF Top(cfg).k = "par" THEN Close(cfg) ELSE DeadCfg
      [] c = RB -> IF Top(cfg).k = "brb" THEN Close(cfg) ELSE DeadCfg
      [] c = COMMA \/ c = COLON ->
            IF Top(cfg).k = "bra"
            THEN [Cfg0 EXCEPT !.stk = [cfg.stk EXCEPT ![Len(cfg.stk)] =
                     [k |-> "brb", nodes |-> <<>>, a |-> @.nodes, sep |-> c]]]
            ELSE DeadCfg
      [] OTHER ->
         IF ~CanStart(cfg) THEN DeadCfg ELSE
         CASE IsDigit(c) -> [cfg EXCEPT !.m = "d1", !.d1 = <<c>>, !.tup = (cfg.m = "opened")]
           [] IsLetter(c) -> [cfg EXCEPT !.m = "fam", !.fam = <<c>>]
           [] c = SLASH -> [cfg EXCEPT !.m = "slash"]
           [] c = DOT -> AddNode(cfg, PauseNode)
           [] c = LP -> Push(cfg, "par", "opened")
           [] c = LB -> Push(cfg, "bra", "ready")
           [] c = MINUS /\ cfg.m = "opened" -> [cfg EXCEPT !.m = "tneg1", !.neg = TRUE]
           [] OTHER -> DeadCfg

(* The end of a move's amount digits (in cfg.txt).                          *)
AmountMove(cfg, fam, sign) ==
    IF FitsI32(cfg.txt) THEN AddMove(cfg, fam, sign * IntOf(cfg.txt)) ELSE DeadCfg

Then(cfg, c) == IF cfg.m = "dead" THEN cfg ELSE Ready(cfg, c)

Signed(neg, ds) == IF neg THEN -IntOf(ds) ELSE IntOf(ds)

Step(cfg, c) ==
    CASE cfg.m = "dead" -> cfg
      [] cfg.m \in {"ready", "opened"} -> Ready(cfg, c)
      \* layer prefix, or the first number of a tuple directly after "("
      [] cfg.m = "d1" ->
            (CASE IsDigit(c) -> [cfg EXCEPT !.d1 = Append(@, c)]
               [] IsLetter(c) /\ FitsU32(cfg.d1) -> [cfg EXCEPT !.m = "fam", !.fam = <<c>>]
               [] c = MINUS /\ FitsU32(cfg.d1) -> [cfg EXCEPT !.m = "range"]
               [] c = COMMA /\ cfg.tup /\ FitsI32(cfg.d1) -> [cfg EXCEPT !.m = "tcomma"]
               [] OTHER -> DeadCfg)
      [] cfg.m = "range" -> IF IsDigit(c) THEN [cfg EXCEPT !.m = "d2", !.d2 = <<c>>] ELSE DeadCfg
      [] cfg.m = "d2" ->
            (CASE IsDigit(c) -> [cfg EXCEPT !.d2 = Append(@, c)]
               [] IsLetter(c) /\ FitsU32(cfg.d2) -> [cfg EXCEPT !.m = "fam", !.fam = <<c>>]
               [] OTHER -> DeadCfg)
      \* move family and suffix
      [] cfg.m = "fam" ->
            (CASE IsLetter(c) -> [cfg EXCEPT !.fam = Append(@, c)]
               [] IsDigit(c) -> [cfg EXCEPT !.m = "amt", !.txt = <<c>>]
               [] c = QUOTE -> AddMove(cfg, cfg.fam, -1)
               [] c = PLUS -> [cfg EXCEPT !.m = "plus"]
               [] c = MINUS -> [cfg EXCEPT !.m = "minus"]
               [] OTHER -> Then(AddMove(cfg, cfg.fam, 1), c))
      [] cfg.m = "plus" -> IF c = PLUS THEN AddMove(cfg, cfg.fam \o S_PLUSPLUS, 1) ELSE DeadCfg
      [] cfg.m = "minus" -> IF c = MINUS THEN AddMove(cfg, cfg.fam \o S_PLUSPLUS, -1) ELSE DeadCfg
      [] cfg.m = "amt" ->
            (CASE IsDigit(c) -> [cfg EXCEPT !.txt = Append(@, c)]
               [] c = QUOTE -> AmountMove(cfg, cfg.fam, -1)
               [] c = PLUS -> AmountMove(cfg, cfg.fam \o S_PLUS, 1)
               [] c = MINUS -> AmountMove(cfg, cfg.fam \o S_PLUS, -1)
               [] OTHER -> Then(AmountMove(cfg, cfg.fam, 1), c))
      \* "/" or "// comment"
      [] cfg.m = "slash" ->
            IF c = SLASH THEN [cfg EXCEPT !.m = "cmt"] ELSE Then(AddNode(cfg, SlashNode), c)
      [] cfg.m = "cmt" ->
            IF c = NLC THEN AddNode(AddNode(cfg, CommentNode(cfg.txt)), NewlineNode)
            ELSE [cfg EXCEPT !.txt = Append(@, c)]
      \* optional amount after ")" or "]"
      [] cfg.m = "gamt" ->
            (CASE IsDigit(c) -> [cfg EXCEPT !.fam = Append(@, c)]
               [] c = QUOTE -> CloseGroup(cfg, -1)
               [] OTHER -> Then(CloseGroup(cfg, 1), c))
      \* Square-1 tuple "(a, b)"
      [] cfg.m = "tneg1" -> IF IsDigit(c) THEN [cfg EXCEPT !.m = "t1", !.d1 = <<c>>] ELSE DeadCfg
      [] cfg.m = "t1" ->
            (CASE IsDigit(c) -> [cfg EXCEPT !.d1 = Append(@, c)]
               [] c = COMMA /\ FitsI32(cfg.d1) -> [cfg EXCEPT !.m = "tcomma"]
               [] OTHER -> DeadCfg)
      [] cfg.m = "tcomma" -> IF c = SP THEN [cfg EXCEPT !.m = "tspace"] ELSE DeadCfg
      [] cfg.m = "tspace" ->
            (CASE IsDigit(c) -> [cfg EXCEPT !.m = "t2", !.d2 = <<c>>]
               [] c = MINUS -> [cfg EXCEPT !.m = "tneg2", !.neg2 = TRUE]
               [] OTHER -> DeadCfg)
      [] cfg.m = "tneg2" -> IF IsDigit(c) THEN [cfg EXCEPT !.m = "t2", !.d2 = <<c>>] ELSE DeadCfg
      [] cfg.m = "t2" ->
            (CASE IsDigit(c) -> [cfg EXCEPT !.d2 = Append(@, c)]
               [] c = RP /\ FitsI32(cfg.d2) ->
                    AddNode([cfg EXCEPT !.stk = Front(@)],
                            TupleNode(Signed(cfg.neg, cfg.d1), Signed(cfg.neg2, cfg.d2)))
               [] OTHER -> DeadCfg)

Modes == {"dead", "ready", "opened", "d1", "range", "d2", "fam", "plus", "minus", "amt",
          "slash", "cmt", "gamt", "tneg1", "t1", "tcomma", "tspace", "tneg2", "t2"}

Rejected == [ok |-> FALSE, alg |-> <<>>]

(* The meaning of the text read so far, if it is a complete alg.            *)
Finish(cfg) ==
    LET done == CASE cfg.m \in {"ready", "opened"} -> cfg
                  [] cfg.m = "fam" -> AddMove(cfg, cfg.fam, 1)
                  [] cfg.m = "amt" -> AmountMove(cfg, cfg.fam, 1)
                  [] cfg.m = "slash" -> AddNode(cfg, SlashNode)
                  [] cfg.m = "cmt" -> AddNode(cfg, CommentNode(cfg.txt))
                  [] cfg.m = "gamt" -> CloseGroup(cfg, 1)
                  [] OTHER -> DeadCfg
    IN IF done.m = "dead" \/ Len(done.stk) # 1 THEN Rejected
       ELSE [ok |-> TRUE, alg |-> done.stk[1].nodes]

ParseAlg(s) == Finish(FoldLeft(Step, Cfg0, s))

(* A single move is an alg of one move without any spacing.                 *)
ParseMove(s) ==
    LET r == ParseAlg(s) IN
    IF /\ r.ok /\ Len(r.alg) = 1 /\ r.alg[1].t = "move"
       /\ \A i \in DOMAIN s : s[i] # SP
    THEN r ELSE Rejected

(* A bare family with its prefix: a move whose text ends in its family.     *)
ParseQuantum(s) ==
    LET r == ParseMove(s) IN
    IF r.ok /\ IsLetter(s[Len(s)]) THEN r ELSE Rejected

(***************************************************************************)
(* Canonical text.                                                         *)
(***************************************************************************)
AmountText(n) == IF n = 1 THEN <<>>
                 ELSE IF n = -1 THEN <<QUOTE>>
                 ELSE IF n < 0 THEN Append(NatText(-n), QUOTE)
                 ELSE NatText(n)

PrefixText(pre) == CASE Len(pre) = 0 -> <<>>
                     [] Len(pre) = 1 -> pre[1]
                     [] OTHER -> pre[1] \o <<MINUS>> \o pre[2]

EndsIn(fam, suf) == Len(fam) > Len(suf) /\ SubSeq(fam, Len(fam) - Len(suf) + 1, Len(fam)) = suf
Strip(fam, suf) == SubSeq(fam, 1, Len(fam) - Len(suf))

QuantumText(pre, fam) == PrefixText(pre) \o fam

MoveText(m) ==
    CASE m.fam = S_SLASH /\ m.pre = <<>> /\ m.amt = 1 -> <<SLASH>>
      [] EndsIn(m.fam, S_PLUS) ->
            QuantumText(m.pre, Strip(m.fam, S_PLUS)) \o NatText(Abs(m.amt))
              \o (IF m.amt < 0 THEN <<MINUS>> ELSE <<PLUS>>)
      [] EndsIn(m.fam, S_PLUSPLUS) /\ m.amt \in {1, -1} ->
            QuantumText(m.pre, Strip(m.fam, S_PLUSPLUS))
              \o (IF m.amt < 0 THEN <<MINUS, MINUS>> ELSE <<PLUS, PLUS>>)
      [] OTHER -> QuantumText(m.pre, m.fam) \o AmountText(m.amt)

SpaceBetween(u, v) ==
    CASE u.t = "cmt" -> (IF v.t = "nl" THEN <<>> ELSE <<NLC>>)
      [] u.t = "nl" \/ v.t = "nl" -> <<>>
      [] OTHER -> <<SP>>

RECURSIVE AlgText(_), NodeText(_)
AlgText(alg) ==
    FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE SpaceBetween(alg[i-1], alg[i]))
                                 \o NodeText(alg[i]),
             <<>>, [i \in 1..Len(alg) |-> i])
(* Inside brackets a final comment is ended by a newline.                    *)
Enclosed(alg) == AlgText(alg) \o
    (IF alg # <<>> /\ alg[Len(alg)].t = "cmt" THEN <<NLC>> ELSE <<>>)
NodeText(n) ==
    CASE n.t = "move" -> MoveText(n)
      [] n.t = "pause" -> <<DOT>>
      [] n.t = "nl" -> <<NLC>>
      [] n.t = "cmt" -> <<SLASH, SLASH>> \o n.txt
      [] n.t = "comm" -> <<LB>> \o Enclosed(n.a) \o <<COMMA, SP>> \o Enclosed(n.b) \o <<RB>>
      [] n.t = "conj" -> <<LB>> \o Enclosed(n.a) \o <<COLON, SP>> \o Enclosed(n.b) \o <<RB>>
      [] n.t = "grp" ->
            IF Len(n.alg) = 1 /\ n.alg[1].t \in {"comm", "conj"}
            THEN NodeText(n.alg[1]) \o AmountText(n.amt)
            ELSE IF IsTuple(n)
            THEN <<LP>> \o IntText(n.alg[1].amt) \o <<COMMA, SP>> \o IntText(n.alg[2].amt) \o <<RP>>
            ELSE <<LP>> \o Enclosed(n.alg) \o <<RP>> \o AmountText(n.amt)

(***************************************************************************)
(* The two notational identities: Canon(x) = Canon(y) means x and y may    *)
(* stand for each other after printing and parsing.                        *)
(***************************************************************************)
RECURSIVE Canon(_, _), CanonNode(_)
(* `enclosed`: the alg is inside brackets, so a last comment needs a newline. *)
Canon(alg, enclosed) ==
    FoldLeft(LAMBDA acc, i :
                LET n == CanonNode(alg[i])
                    nextIsNl == IF i = Len(alg) THEN ~enclosed ELSE alg[i+1].t = "nl"
                IN acc \o (IF n.t = "cmt" /\ ~nextIsNl THEN <<n, NewlineNode>> ELSE <<n>>),
             <<>>, [i \in 1..Len(alg) |-> i])
CanonNode(n) ==
    CASE n.t = "comm" -> CommNode(Canon(n.a, TRUE), Canon(n.b, TRUE))
      [] n.t = "conj" -> ConjNode(Canon(n.a, TRUE), Canon(n.b, TRUE))
      [] n.t = "grp" ->
            LET inner == Canon(n.alg, TRUE) IN
            IF n.amt = 1 /\ Len(inner) = 1 /\ inner[1].t \in {"comm", "conj"}
            THEN inner[1] ELSE GroupNode(inner, n.amt)
      [] OTHER -> n
Same(x, y) == Canon(x, FALSE) = Canon(y, FALSE)

(***************************************************************************)
(* Inversion.                                                              *)
(***************************************************************************)
InvertMove(m) == IF m.fam = S_SLASH /\ m.pre = <<>> THEN m ELSE [m EXCEPT !.amt = -@]

RECURSIVE InvertAlg(_), InvertNode(_)
InvertAlg(alg) == [i \in 1..Len(alg) |-> InvertNode(alg[Len(alg) + 1 - i])]
InvertNode(n) ==
    CASE n.t = "move" -> InvertMove(n)
      [] n.t \in {"pause", "nl", "cmt"} -> n
      [] n.t = "comm" -> CommNode(n.b, n.a)
      [] n.t = "conj" -> ConjNode(n.a, InvertAlg(n.b))
      [] n.t = "grp" -> IF IsTuple(n)
                        THEN GroupNode(<<InvertMove(n.alg[1]), InvertMove(n.alg[2])>>, 1)
                        ELSE GroupNode(n.alg, -n.amt)

(* An explicit inverse grouping of a tuple's moves: inverting it gives a     *)
(* tuple, and inverting again negates the tuple's numbers instead.           *)
RECURSIVE HasInverseTuple(_)
HasInverseTuple(alg) == \E i \in DOMAIN alg :
    LET n == alg[i] IN
    CASE n.t = "grp" -> IsTuple(GroupNode(n.alg, -n.amt)) \/ HasInverseTuple(n.alg)
      [] n.t \in {"comm", "conj"} -> HasInverseTuple(n.a) \/ HasInverseTuple(n.b)
      [] OTHER -> FALSE

(* Well-formed nodes: what parsing, inversion and careful construction give. *)
RECURSIVE WellFormed(_)
WellFormedMove(m) == /\ m.fam # <<>> /\ \A i \in DOMAIN m.fam : IsLetter(m.fam[i])
                     /\ m.amt >= -MaxI32
WellFormed(alg) == \A i \in DOMAIN alg :
    LET n == alg[i] IN
    CASE n.t = "move" -> WellFormedMove(n)
      [] n.t = "cmt" -> \A j \in DOMAIN n.txt : n.txt[j] # NLC
      [] n.t = "grp" -> WellFormed(n.alg) /\ n.amt >= -MaxI32
      [] n.t \in {"comm", "conj"} -> WellFormed(n.a) /\ WellFormed(n.b)
      [] OTHER -> TRUE
================================================================================
