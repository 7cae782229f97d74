-------------------------------- MODULE KSession -------------------------------
(***************************************************************************)
(* A user's session with one puzzle, as a state machine: registers of      *)
(* transformations T, patterns P, transformation buffers TB and pattern    *)
(* buffers PB, and one action per public operation.  `out` is what the     *)
(* operation shows.  Every action changes exactly the register it names.   *)
(***************************************************************************)
EXTENDS KPuzzle

CONSTANT DefOf(_)       \* the puzzle definition with a given id

VARIABLES d,            \* the id of the definition (never changes)
          ready,        \* has the puzzle been created
          T, P, TB, PB, \* registers
          out           \* what the last operation showed

regs == <<T, P, TB, PB>>
kvars == <<d, ready, T, P, TB, PB, out>>

Orbs == DefOf(d).orbits
Shown(v) == [ok |-> TRUE, val |-> v]
Done == [ok |-> TRUE]
Refused(kind) == [ok |-> FALSE, panic |-> FALSE, err |-> kind]
Panics == [ok |-> FALSE, panic |-> TRUE, err |-> "panic"]

Keep == UNCHANGED <<d, ready>>
SetT(r, v) == T' = [T EXCEPT ![r] = v] /\ UNCHANGED <<P, TB, PB>>
SetP(r, v) == P' = [P EXCEPT ![r] = v] /\ UNCHANGED <<T, TB, PB>>
SetTB(r, v) == TB' = [TB EXCEPT ![r] = v] /\ UNCHANGED <<T, P, PB>>
SetPB(r, v) == PB' = [PB EXCEPT ![r] = v] /\ UNCHANGED <<T, P, TB>>
Observe(v) == Keep /\ UNCHANGED regs /\ out' = v
WriteT(r, v) == Keep /\ SetT(r, v) /\ out' = Shown(v)
WriteP(r, v) == Keep /\ SetP(r, v) /\ out' = Shown(v)

DefaultP == POf(Orbs, DefOf(d).dflt)

(* ------------------------------ the puzzle ---------------------------- *)
Fill(nt, np, nb) ==
    /\ T' = [i \in 1..nt |-> Identity(Orbs)]
    /\ TB' = [i \in 1..nb |-> Identity(Orbs)]
    /\ P' = [i \in 1..np |-> DefaultP]
    /\ PB' = [i \in 1..(IF np = 0 THEN 0 ELSE nb) |-> DefaultP]
Create(nt, np, nb) ==
    IF Accepted(DefOf(d))
    THEN /\ ready' = TRUE /\ Fill(nt, np, nb) /\ out' = Done /\ UNCHANGED d
    ELSE /\ out' = Refused("definition") /\ UNCHANGED <<d, ready, T, P, TB, PB>>
(* The definition is written as JSON and loaded again: a fresh equal puzzle. *)
Reload(nt, np, nb) == ready /\ Create(nt, np, nb)
(* An equal puzzle takes the puzzle's place: values of the one are values of *)
(* the other.  And whatever is refused leaves no trace anywhere.            *)
Twin == Observe(Done)
Misuse == Observe(Done)
Info == ready /\ Observe([ok |-> TRUE, val |-> Orbs, found |-> TRUE, missing |-> TRUE,
                          name |-> DefOf(d).name])

(* --------------------------- transformations -------------------------- *)
TIdentity(r) == WriteT(r, Identity(Orbs))
TFromData(r, data) == IF GoodTData(Orbs, data) THEN WriteT(r, TOf(Orbs, data))
                      ELSE Observe(Refused("transformation"))
TBack(r, a) == IF IsTransformation(Orbs, T[a])
               THEN Keep /\ SetT(r, T[a]) /\ out' = [ok |-> TRUE, val |-> T[a], eq |-> TRUE]
               ELSE Observe(Refused("transformation"))      \* half written, slot by slot
TEval(r, e) == IF e.ok THEN WriteT(r, e.t) ELSE Observe(Refused("move"))
TMove(r, mv) == TEval(r, EvalMove(DefOf(d), mv))
TAlg(r, alg) == TEval(r, EvalAlg(DefOf(d), alg))
(* An alg and its inverse undo each other.  (Stated for definitions whose    *)
(* moves are defined once; the inverse's own effect is then forced.)        *)
TAlgAndInverse(r, alg) ==
    /\ DefinedOnce(DefOf(d))
    /\ LET e == EvalAlg(DefOf(d), alg) IN
       IF ~e.ok THEN Observe(Refused("move"))
       ELSE /\ Keep /\ SetT(r, e.t)
            /\ out' = [ok |-> TRUE, val |-> e.t, inv |-> InverseT(Orbs, e.t),
                       ab |-> Identity(Orbs), ba |-> Identity(Orbs)]
(* The work of evaluating: one unit per composition, inverse or copy.  An    *)
(* amount costs its number of bits, not its size.                          *)
RECURSIVE Bits(_), WorkOf(_, _)
Bits(n) == IF n = 0 THEN 0 ELSE IF n < 0 THEN Bits(-n) ELSE 1 + Bits(n \div 2)
WorkOf(def, alg) == FoldLeft(LAMBDA w, n : w + 2 +
    CASE n.t = "move" -> LET r == Resolve(def, n) IN
                         2 * Bits(r.rel) + (IF r.src = "derived" THEN WorkOf(def, def.derived[r.i].a) ELSE 0)
      [] n.t = "grp" -> 2 * Bits(n.amt) + WorkOf(def, n.alg)
      [] n.t \in {"comm", "conj"} -> 4 + 2 * WorkOf(def, n.a) + 2 * WorkOf(def, n.b)
      [] OTHER -> 0, 1, alg)
AtMost(n, most) == IF n <= most THEN n ELSE most
(* Evaluation makes a bounded number of blocks of memory and takes a bounded *)
(* time (measured in compositions of the same puzzle) per unit of work.     *)
TCost(r, alg, seen) ==
    LET e == EvalAlg(DefOf(d), alg)  w == WorkOf(DefOf(d), alg) IN
    IF ~e.ok THEN Observe(Refused("move"))
    ELSE /\ Keep /\ SetT(r, e.t)
         /\ out' = [ok |-> TRUE, val |-> e.t,
                    blocks |-> AtMost(seen.blocks, 32 * w + 500),
                    time |-> AtMost(seen.time, 48 * w + 1000)]
TCompose(r, a, b) == WriteT(r, Compose(Orbs, T[a], T[b]))
TInvert(r, a) == IsTransformation(Orbs, T[a]) /\ WriteT(r, InverseT(Orbs, T[a]))
TClone(r, a) == WriteT(r, T[a])
TEqual(a, b) == LET q == T[a] = T[b] IN Observe([ok |-> TRUE, eq |-> q, ne |-> ~q, qe |-> q])
TSetPermutation(r, k, i, v) ==
    IF i < Orbs[k].np /\ v < Orbs[k].np
    THEN Keep /\ SetT(r, [T[r] EXCEPT ![k].p[i + 1] = v]) /\ out' = Done
    ELSE Observe(Panics)
TSetDelta(r, k, i, v) ==
    IF i < Orbs[k].np /\ v < Orbs[k].no
    THEN Keep /\ SetT(r, [T[r] EXCEPT ![k].d[i + 1] = v]) /\ out' = Done
    ELSE Observe(Panics)
TGet(r, k, i, what) ==
    IF i < Orbs[k].np
    THEN Observe([ok |-> TRUE, v |-> IF what = "p" THEN T[r][k].p[i + 1] ELSE T[r][k].d[i + 1]])
    ELSE Observe(Panics)

(* ------------------------------ patterns ------------------------------ *)
PDefault(r) == WriteP(r, DefaultP)
PFromData(r, data) == IF GoodPData(Orbs, data) THEN WriteP(r, POf(Orbs, data))
                      ELSE Observe(Refused("pattern"))
PBack(r, a) == /\ Keep /\ SetP(r, P[a]) /\ out' = [ok |-> TRUE, val |-> P[a], eq |-> TRUE]
PApply(r, a, b) == WriteP(r, Apply(Orbs, P[a], T[b]))
PEval(r, a, e) == IF e.ok THEN WriteP(r, Apply(Orbs, P[a], e.t)) ELSE Observe(Refused("move"))
PMove(r, a, mv) == PEval(r, a, EvalMove(DefOf(d), mv))
PAlg(r, a, alg) == PEval(r, a, EvalAlg(DefOf(d), alg))
PClone(r, a) == WriteP(r, P[a])
PEqual(a, b) == LET q == P[a] = P[b] IN
    Observe(IF q THEN [ok |-> TRUE, eq |-> TRUE, ne |-> FALSE, qe |-> TRUE, hasheq |-> TRUE]
            ELSE [ok |-> TRUE, eq |-> FALSE, ne |-> TRUE, qe |-> FALSE])
PSetPiece(r, k, i, v) ==
    IF i < Orbs[k].np
    THEN Keep /\ SetP(r, [P[r] EXCEPT ![k].p[i + 1] = v]) /\ out' = Done
    ELSE Observe(Panics)
PSetOrientation(r, k, i, v, m) ==
    LET no == Orbs[k].no IN
    IF i < Orbs[k].np /\ (IF m = 0 THEN v < no ELSE no % m = 0 /\ v < m)
    THEN /\ Keep /\ out' = Done
         /\ SetP(r, [P[r] EXCEPT ![k].o[i + 1] = v, ![k].m[i + 1] = IF m = no THEN 0 ELSE m])
    ELSE Observe(Panics)
PGet(r, k, i, what) ==
    IF i < Orbs[k].np
    THEN Observe(IF what = "p" THEN [ok |-> TRUE, v |-> P[r][k].p[i + 1]]
                 ELSE [ok |-> TRUE, v |-> P[r][k].o[i + 1], m |-> P[r][k].m[i + 1]])
    ELSE Observe(Panics)

(* ------------------------------- buffers ------------------------------ *)
TBNew(r, a) == Keep /\ SetTB(r, T[a]) /\ out' = Shown(T[a])
(* n times the same transformation.                                         *)
TBApply(r, b, n) == LET v == Compose(Orbs, TB[r], Power(Orbs, T[b], n)) IN Keep /\ SetTB(r, v) /\ out' = Shown(v)
TBCurrent(r, a) == WriteT(r, TB[a])
TBEqual(a, b) == LET q == TB[a] = TB[b] IN Observe([ok |-> TRUE, eq |-> q, ne |-> ~q, qe |-> q])
PBNew(r, a) == Keep /\ SetPB(r, P[a]) /\ out' = Shown(P[a])
PBApply(r, b, n) == LET v == Apply(Orbs, PB[r], Power(Orbs, T[b], n)) IN Keep /\ SetPB(r, v) /\ out' = Shown(v)
PBCurrent(r, a) == WriteP(r, PB[a])
PBEqual(a, b) == LET q == PB[a] = PB[b] IN Observe([ok |-> TRUE, eq |-> q, ne |-> ~q, qe |-> q])

(* ------------------------- in quick succession ------------------------ *)
OrNothing(e) == IF e.ok THEN e.t ELSE <<>>
EvalText(def, txt) == EvalAlg(def, ParseAlg(txt).alg)
TMany(txts) == Observe([ok |-> TRUE, vals |-> [i \in DOMAIN txts |-> OrNothing(EvalText(DefOf(d), txts[i]))]])
PMany(a, txts) == Observe([ok |-> TRUE, vals |-> [i \in DOMAIN txts |->
    LET e == EvalText(DefOf(d), txts[i]) IN IF e.ok THEN Apply(Orbs, P[a], e.t) ELSE <<>>]])
CMany(a, pairs) == Observe([ok |-> TRUE,
    vals |-> [i \in DOMAIN pairs |-> Compose(Orbs, TOf(Orbs, pairs[i][1]), TOf(Orbs, pairs[i][2]))],
    pats |-> [i \in DOMAIN pairs |-> Apply(Orbs, Apply(Orbs, P[a], TOf(Orbs, pairs[i][2])), InverseT(Orbs, TOf(Orbs, pairs[i][1])))]])
(* Other puzzles: what one is asked does not depend on the others.           *)
KMany(defs, qs) ==
    LET evals == [i \in DOMAIN qs |-> EvalText(defs[qs[i].k], qs[i].txt)] IN
    Observe([ok |-> TRUE, vals |-> [i \in DOMAIN qs |-> OrNothing(evals[i])],
             pats |-> [i \in DOMAIN qs |-> LET def == defs[qs[i].k] IN
                          IF evals[i].ok THEN Apply(def.orbits, POf(def.orbits, def.dflt), evals[i].t) ELSE <<>>]])

(***************************************************************************)
(* The operation an event names.                                           *)
(***************************************************************************)
Count(e) == IF "times" \in DOMAIN e THEN e.times ELSE 1
AlgOf(e) == IF "txt" \in DOMAIN e THEN ParseAlg(e.txt).alg ELSE e.alg
Perform(e, nt, np, nb) ==
    CASE e.op = "puzzle" -> Create(nt, np, nb)
      [] e.op = "reload" -> Reload(nt, np, nb)
      [] e.op = "info" -> Info
      [] e.op = "twin" -> Twin
      [] e.op = "misuse" -> Misuse
      [] e.op = "puzzle_text" -> Observe(Refused("definition"))
      [] e.op = "t_text" -> Observe(Refused("transformation"))
      [] e.op = "p_text" -> Observe(Refused("pattern"))
      [] e.op = "t_id" -> TIdentity(e.r)
      [] e.op = "t_data" -> TFromData(e.r, e.data)
      [] e.op = "t_back" -> TBack(e.r, e.a)
      [] e.op = "t_move" -> TMove(e.r, e.mv)
      [] e.op = "t_alg" -> TAlg(e.r, AlgOf(e))
      [] e.op = "t_cost" -> TCost(e.r, AlgOf(e), e.res)
      [] e.op = "t_algs" -> TAlgAndInverse(e.r, AlgOf(e))
      [] e.op \in {"t_comp", "t_into"} -> TCompose(e.r, e.a, e.b)
      [] e.op = "t_inv" -> TInvert(e.r, e.a)
      [] e.op = "t_clone" -> TClone(e.r, e.a)
      [] e.op = "t_eq" -> TEqual(e.a, e.b)
      [] e.op = "t_set_p" -> TSetPermutation(e.r, e.o, e.i, e.v)
      [] e.op = "t_set_d" -> TSetDelta(e.r, e.o, e.i, e.v)
      [] e.op = "t_get" -> TGet(e.r, e.o, e.i, e.what)
      [] e.op = "p_default" -> PDefault(e.r)
      [] e.op = "p_data" -> PFromData(e.r, e.data)
      [] e.op = "p_back" -> PBack(e.r, e.a)
      [] e.op \in {"p_apply", "p_into"} -> PApply(e.r, e.a, e.b)
      [] e.op = "p_move" -> PMove(e.r, e.a, e.mv)
      [] e.op = "p_alg" -> PAlg(e.r, e.a, AlgOf(e))
      [] e.op = "p_clone" -> PClone(e.r, e.a)
      [] e.op = "p_eq" -> PEqual(e.a, e.b)
      [] e.op = "p_set_p" -> PSetPiece(e.r, e.o, e.i, e.v)
      [] e.op = "p_set_o" -> PSetOrientation(e.r, e.o, e.i, e.v, e.m)
      [] e.op = "p_get" -> PGet(e.r, e.o, e.i, e.what)
      [] e.op = "t_many" -> TMany(e.txts)
      [] e.op = "p_many" -> PMany(e.a, e.txts)
      [] e.op = "c_many" -> CMany(e.a, e.pairs)
      [] e.op = "k_many" -> KMany(e.defs, e.qs)
      [] e.op = "tb_new" -> TBNew(e.r, e.a)
      [] e.op = "tb_apply" -> TBApply(e.r, e.b, Count(e))
      [] e.op = "tb_cur" -> TBCurrent(e.r, e.a)
      [] e.op = "tb_eq" -> TBEqual(e.a, e.b)
      [] e.op = "pb_new" -> PBNew(e.r, e.a)
      [] e.op = "pb_apply" -> PBApply(e.r, e.b, Count(e))
      [] e.op = "pb_cur" -> PBCurrent(e.r, e.a)
      [] e.op = "pb_eq" -> PBEqual(e.a, e.b)
================================================================================
