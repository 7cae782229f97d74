-------------------------------- MODULE MC_Session -------------------------------
(***************************************************************************)
(* Histories of a session (KSession) on small puzzles, exhaustively up to  *)
(* Depth operations or as random walks.  Each complete history is printed  *)
(* and replayed on the real code.                                          *)
(***************************************************************************)
EXTENDS KSession, Json, IOUtils

CONSTANTS Depth, NT, NP, NB, Focus
VARIABLE hist

Mv(f, n) == MoveNode(<<>>, <<f>>, n)
DefA == [name |-> "a", hasd |-> TRUE,
    orbits |-> <<[n |-> "E", np |-> 3, no |-> 2], [n |-> "N", np |-> 0, no |-> 5], [n |-> "C", np |-> 2, no |-> 3]>>,
    dflt |-> <<[o |-> "E", p |-> <<0, 1, 1>>, x |-> <<0, 0, 0>>, m |-> <<0, 1, 1>>, hm |-> TRUE],
               [o |-> "N", p |-> <<>>, x |-> <<>>, m |-> <<>>, hm |-> FALSE],
               [o |-> "C", p |-> <<0, 1>>, x |-> <<0, 0>>, m |-> <<>>, hm |-> FALSE]>>,
    moves |-> <<[k |-> Mv(82, 1), t |-> <<[o |-> "E", p |-> <<1, 2, 0>>, d |-> <<1, 0, 0>>],
                                           [o |-> "N", p |-> <<>>, d |-> <<>>],
                                           [o |-> "C", p |-> <<1, 0>>, d |-> <<1, 0>>]>>]>>,
    derived |-> <<[k |-> Mv(83, 1), a |-> <<Mv(82, -1), GroupNode(<<Mv(82, 2)>>, 2)>>]>>]
DefB == [name |-> "b", hasd |-> FALSE, derived |-> <<>>,
    orbits |-> <<[n |-> "X", np |-> 2, no |-> 6]>>,
    dflt |-> <<[o |-> "X", p |-> <<7, 7>>, x |-> <<2, 1>>, m |-> <<3, 2>>, hm |-> TRUE]>>,
    moves |-> <<[k |-> Mv(82, 1), t |-> <<[o |-> "X", p |-> <<1, 0>>, d |-> <<1, 4>>]>>]>>]
Defs == <<DefA, DefB>>
SessionDef(i) == Defs[i]

ASSUME ndJsonSerialize(IOEnv.OUT, Defs)

(* Data offered to the session: good ones and one that is malformed.        *)
TData(i) == IF i = 1
    THEN {<<[o |-> "E", p |-> <<2, 1, 0>>, d |-> <<0, 1, 1>>], [o |-> "N", p |-> <<>>, d |-> <<>>], [o |-> "C", p |-> <<0, 1>>, d |-> <<2, 1>>]>>,
          <<[o |-> "E", p |-> <<2, 1, 1>>, d |-> <<0, 1, 1>>], [o |-> "N", p |-> <<>>, d |-> <<>>], [o |-> "C", p |-> <<0, 1>>, d |-> <<2, 1>>]>>}
    ELSE {<<[o |-> "X", p |-> <<0, 1>>, d |-> <<5, 3>>]>>, <<[o |-> "X", p |-> <<0, 1>>, d |-> <<5, 6>>]>>}
PData(i) == IF i = 1
    THEN {<<[o |-> "E", p |-> <<2, 1, 0>>, x |-> <<0, 1, 0>>, m |-> <<0, 2, 1>>, hm |-> TRUE], [o |-> "N", p |-> <<>>, x |-> <<>>, m |-> <<>>, hm |-> TRUE],
            [o |-> "C", p |-> <<1, 0>>, x |-> <<2, 1>>, m |-> <<>>, hm |-> FALSE]>>,
          <<[o |-> "E", p |-> <<2, 1, 0>>, x |-> <<0, 1, 0>>, m |-> <<0, 1, 1>>, hm |-> TRUE], [o |-> "N", p |-> <<>>, x |-> <<>>, m |-> <<>>, hm |-> TRUE],
            [o |-> "C", p |-> <<1, 0>>, x |-> <<2, 1>>, m |-> <<>>, hm |-> FALSE]>>}
    ELSE {<<[o |-> "X", p |-> <<0, 255>>, x |-> <<5, 0>>, m |-> <<0, 1>>, hm |-> TRUE]>>,
          <<[o |-> "X", p |-> <<0, 1>>, x |-> <<0, 0>>, m |-> <<4, 0>>, hm |-> TRUE]>>}
Moves == {Mv(82, 1), Mv(82, -3), Mv(83, 2), Mv(81, 1)}
Algs == {<<CommNode(<<Mv(82, 1)>>, <<Mv(82, 2)>>), GroupNode(<<Mv(82, 1)>>, -2147483647)>>, <<Mv(82, 2), Mv(81, 0)>>}

RegT == 1..NT  RegP == 1..NP  RegB == 1..NB
Slots(i) == {<<k, s>> \in {1, 3} \X {0, 1, 2} : k <= Len(Defs[i].orbits)}

Ops(i) ==
    LET on(group, set) == IF group \in Focus THEN set ELSE {} IN
    on("group",
       {[op |-> o, r |-> r, a |-> a, b |-> b] : o \in {"t_comp", "t_into"}, r \in RegT, a \in RegT, b \in RegT}
       \cup {[op |-> "t_inv", r |-> r, a |-> a] : r \in RegT, a \in RegT} \cup {[op |-> "t_id", r |-> r] : r \in RegT})
    \cup on("source",
       {[op |-> "t_move", r |-> r, mv |-> m] : r \in RegT, m \in Moves}
       \cup {[op |-> "t_alg", r |-> r, alg |-> m] : r \in RegT, m \in Algs}
       \cup {[op |-> "t_data", r |-> r, data |-> x, via |-> "data"] : r \in RegT, x \in TData(i)}
       \cup {[op |-> "p_data", r |-> r, data |-> x, via |-> "json"] : r \in RegP, x \in PData(i)}
       \cup {[op |-> "p_default", r |-> r] : r \in RegP} \cup {[op |-> "reload"]})
    \cup on("action",
       {[op |-> o, r |-> r, a |-> a, b |-> b] : o \in {"p_apply", "p_into"}, r \in RegP, a \in RegP, b \in RegT}
       \cup {[op |-> "p_move", r |-> r, a |-> a, mv |-> m] : r \in RegP, a \in RegP, m \in Moves}
       \cup {[op |-> "p_alg", r |-> r, a |-> a, alg |-> m] : r \in RegP, a \in RegP, m \in Algs})
    \cup on("equal",
       {[op |-> "t_eq", a |-> a, b |-> b] : a \in RegT, b \in RegT} \cup {[op |-> "p_eq", a |-> a, b |-> b] : a \in RegP, b \in RegP}
       \cup {[op |-> "t_clone", r |-> r, a |-> a] : r \in RegT, a \in RegT}
       \cup {[op |-> "p_clone", r |-> r, a |-> a, via |-> v] : r \in RegP, a \in RegP, v \in {"clone", "from"}}
       \cup {[op |-> "t_back", r |-> r, a |-> a, via |-> "json"] : r \in RegT, a \in RegT}
       \cup {[op |-> "p_back", r |-> r, a |-> a, via |-> "json"] : r \in RegP, a \in RegP})
    \cup on("buffer",
       {[op |-> o, r |-> r, a |-> a] : o \in {"tb_new"}, r \in RegB, a \in RegT} \cup {[op |-> "tb_cur", r |-> r, a |-> a] : r \in RegT, a \in RegB}
       \cup {[op |-> "pb_new", r |-> r, a |-> a] : r \in RegB, a \in RegP} \cup {[op |-> "pb_cur", r |-> r, a |-> a] : r \in RegP, a \in RegB}
       \cup {[op |-> o, r |-> r, b |-> b] : o \in {"tb_apply", "pb_apply"}, r \in RegB, b \in RegT}
       \cup {[op |-> o, a |-> a, b |-> b] : o \in {"tb_eq", "pb_eq"}, a \in RegB, b \in RegB})
    \cup on("slot",
       {[op |-> o, r |-> r, o |-> s[1], i |-> s[2], v |-> v] : o \in {"t_set_p", "t_set_d"}, r \in RegT, s \in Slots(i), v \in {0, 1, 6}}
       \cup {[op |-> "p_set_p", r |-> r, o |-> s[1], i |-> s[2], v |-> v] : r \in RegP, s \in Slots(i), v \in {1, 255}}
       \cup {[op |-> "p_set_o", r |-> r, o |-> s[1], i |-> s[2], v |-> v[1], m |-> v[2]] :
                r \in RegP, s \in Slots(i), v \in {<<1, 0>>, <<0, 2>>, <<1, 3>>, <<0, 6>>, <<5, 6>>, <<1, 1>>}}
       \cup {[op |-> o, r |-> r, o |-> s[1], i |-> s[2], what |-> w] : o \in {"t_get", "p_get"}, r \in RegT \cap RegP, s \in Slots(i), w \in {"p", "x"}})

OpsOf == [i \in DOMAIN Defs |-> Ops(i)]

MCInit == /\ d \in DOMAIN Defs /\ ready = TRUE /\ out = Done /\ hist = <<>>
          /\ T = [i \in RegT |-> Identity(Orbs)] /\ TB = [i \in RegB |-> Identity(Orbs)]
          /\ P = [i \in RegP |-> DefaultP] /\ PB = [i \in RegB |-> DefaultP]
MCNext == /\ Len(hist) < Depth
          /\ \E e \in OpsOf[d] : Perform(e, NT, NP, NB) /\ hist' = Append(hist, e)
MCSpec == MCInit /\ [][MCNext]_<<d, ready, T, P, TB, PB, out, hist>>

(* A random walk: one successor per state.                                  *)
Enabled(e) == e.op = "t_inv" => IsTransformation(Orbs, T[e.a])
WalkNext == /\ Len(hist) < Depth
            /\ \E e \in {RandomElement({x \in OpsOf[d] : Enabled(x)})} :
                  Perform(e, NT, NP, NB) /\ hist' = Append(hist, e)
WalkSpec == MCInit /\ [][WalkNext]_<<d, ready, T, P, TB, PB, out, hist>>

Complete == Len(hist) = Depth => PrintT("HIST " \o ToJson([d |-> d, ev |-> hist]))
Fits(t) == \A k \in DOMAIN Orbs : \A i \in 1..Orbs[k].np : t[k].p[i] \in 0..(Orbs[k].np - 1) /\ t[k].d[i] \in 0..(Orbs[k].no - 1)
TypeOK == /\ \A r \in RegT : Fits(T[r])
          /\ \A r \in RegB : Fits(TB[r]) /\ IsPattern(Orbs, PB[r])
          /\ \A r \in RegP : IsPattern(Orbs, P[r])
(* One operation changes at most one register.                              *)
Changed == {<<"T", r>> : r \in {q \in RegT : T[q] # T'[q]}} \cup {<<"P", r>> : r \in {q \in RegP : P[q] # P'[q]}}
           \cup {<<"TB", r>> : r \in {q \in RegB : TB[q] # TB'[q]}} \cup {<<"PB", r>> : r \in {q \in RegB : PB[q] # PB'[q]}}
OneChange == [][hist'[Len(hist')].op # "reload" => Cardinality(Changed) <= 1]_<<T, P, TB, PB>>
================================================================================
