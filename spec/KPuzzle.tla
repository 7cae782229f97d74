-------------------------------- MODULE KPuzzle --------------------------------
(***************************************************************************)
(* The mathematics of a KPuzzle: transformations and patterns over orbits, *)
(* move lookup, evaluation of algs, acceptance of definitions, and which   *)
(* data describes a value.                                                 *)
(*                                                                         *)
(* An orbit is [n |-> name, np |-> pieces, no |-> orientations].  A        *)
(* transformation has one [p, d] per orbit, a pattern one [p, o, m]: piece *)
(* (or permutation) and orientation values are 0-based, positions 1-based. *)
(* A modulus of 0 distinguishes all orientations.                          *)
(*                                                                         *)
(* A definition is a record with                                           *)
(*   orbits   sequence of orbits                                           *)
(*   moves    sequence of [k |-> move, t |-> transformation data]          *)
(*   derived  sequence of [k |-> move, a |-> alg];  hasd: is it present    *)
(*   dflt     pattern data                                                 *)
(***************************************************************************)
EXTENDS Notation, FiniteSets

MaxOrientations == 107

(* -------------------------- transformations --------------------------- *)
Identity(orbs) ==
    [k \in 1..Len(orbs) |-> [p |-> [i \in 1..orbs[k].np |-> i - 1],
                             d |-> [i \in 1..orbs[k].np |-> 0]]]

(* First a, then b.                                                         *)
ComposeOrbit(a, b, no) ==
    [p |-> [i \in DOMAIN b.p |-> a.p[b.p[i] + 1]],
     d |-> [i \in DOMAIN b.p |-> (a.d[b.p[i] + 1] + b.d[i]) % no]]
Compose(orbs, a, b) == [k \in 1..Len(orbs) |-> ComposeOrbit(a[k], b[k], orbs[k].no)]

IsPerm(p) == {p[i] : i \in DOMAIN p} = 0..(Len(p) - 1)
IsTransformation(orbs, t) ==
    /\ Len(t) = Len(orbs)
    /\ \A k \in 1..Len(orbs) :
          /\ Len(t[k].p) = orbs[k].np /\ Len(t[k].d) = orbs[k].np
          /\ IsPerm(t[k].p)
          /\ \A i \in DOMAIN t[k].d : t[k].d[i] \in 0..(orbs[k].no - 1)

InverseOrbit(a, no) ==
    LET at == FoldLeft(LAMBDA f, i : [f EXCEPT ![a.p[i] + 1] = i], a.p, [i \in DOMAIN a.p |-> i])
    IN [p |-> [j \in DOMAIN a.p |-> at[j] - 1],
        d |-> [j \in DOMAIN a.p |-> (no - a.d[at[j]]) % no]]
InverseT(orbs, a) == [k \in 1..Len(orbs) |-> InverseOrbit(a[k], orbs[k].no)]

(***************************************************************************)
(* n applications, n >= 0.  Along the cycle of a position, the source      *)
(* after n steps and the orientation changes met on the way: whole rounds  *)
(* of the cycle and a rest.                                                *)
(***************************************************************************)
RECURSIVE Orbit(_, _, _)
Orbit(p, i, seen) ==      \* the cycle of position i, starting at i
    IF seen # <<>> /\ i = seen[1] THEN seen
    ELSE Orbit(p, p[i] + 1, Append(seen, i))
TimesOrbit(a, n, no) ==
    LET cyc == [i \in DOMAIN a.p |-> Orbit(a.p, i, <<>>)]
        Sum(s, len) == FoldLeft(LAMBDA acc, j : acc + a.d[s[j]], 0, [j \in 1..len |-> j])
    IN [p |-> [i \in DOMAIN a.p |-> cyc[i][(n % Len(cyc[i])) + 1] - 1],
        d |-> [i \in DOMAIN a.p |->
                 LET s == cyc[i]  rounds == n \div Len(s)  rest == n % Len(s)
                 IN (((rounds % no) * (Sum(s, Len(s)) % no)) + Sum(s, rest)) % no]]
Times(orbs, a, n) == [k \in 1..Len(orbs) |-> TimesOrbit(a[k], n, orbs[k].no)]
Power(orbs, a, n) == CASE n = 1 -> a
                       [] n >= 0 /\ n # 1 -> Times(orbs, a, n)
                       [] OTHER -> Times(orbs, InverseT(orbs, a), -n)

(* The same by definition, for checking Power on small puzzles.             *)
RECURSIVE PowerByDefinition(_, _, _)
PowerByDefinition(orbs, a, n) ==
    CASE n = 0 -> Identity(orbs)
      [] n > 0 -> Compose(orbs, PowerByDefinition(orbs, a, n - 1), a)
      [] OTHER -> PowerByDefinition(orbs, InverseT(orbs, a), -n)

(* ------------------------------ patterns ------------------------------ *)
ApplyOrbit(x, t, no) ==
    [p |-> [i \in DOMAIN t.p |-> x.p[t.p[i] + 1]],
     m |-> [i \in DOMAIN t.p |-> x.m[t.p[i] + 1]],
     o |-> [i \in DOMAIN t.p |->
              LET j == t.p[i] + 1
                  mod == IF x.m[j] = 0 THEN no ELSE x.m[j]
              IN (x.o[j] + t.d[i]) % mod]]
Apply(orbs, x, t) == [k \in 1..Len(orbs) |-> ApplyOrbit(x[k], t[k], orbs[k].no)]

IsPattern(orbs, x) ==
    /\ Len(x) = Len(orbs)
    /\ \A k \in 1..Len(orbs) :
          /\ Len(x[k].p) = orbs[k].np /\ Len(x[k].o) = orbs[k].np /\ Len(x[k].m) = orbs[k].np
          /\ \A i \in DOMAIN x[k].p :
                /\ x[k].p[i] \in 0..255
                /\ x[k].m[i] # orbs[k].no
                /\ IF x[k].m[i] = 0 THEN x[k].o[i] \in 0..(orbs[k].no - 1)
                   ELSE orbs[k].no % x[k].m[i] = 0 /\ x[k].o[i] \in 0..(x[k].m[i] - 1)

(* ------------------------- from and to data --------------------------- *)
HasOrbit(data, name) == \E j \in DOMAIN data : data[j].o = name
OrbitData(data, name) == data[CHOOSE j \in DOMAIN data : data[j].o = name]

GoodTOrbit(orb, e) ==
    /\ Len(e.p) = orb.np /\ Len(e.d) = orb.np
    /\ IsPerm(e.p)
    /\ \A i \in DOMAIN e.d : e.d[i] < orb.no
GoodTData(orbs, data) == \A k \in DOMAIN orbs :
    HasOrbit(data, orbs[k].n) /\ GoodTOrbit(orbs[k], OrbitData(data, orbs[k].n))
TOf(orbs, data) == [k \in 1..Len(orbs) |->
    LET e == OrbitData(data, orbs[k].n) IN [p |-> e.p, d |-> e.d]]

GoodPOrbit(orb, e) ==
    /\ Len(e.p) = orb.np /\ Len(e.x) = orb.np /\ (e.hm => Len(e.m) = orb.np)
    /\ \A i \in DOMAIN e.p :
          LET m == IF e.hm THEN e.m[i] ELSE 0 IN
          IF m = 0 THEN e.x[i] < orb.no ELSE orb.no % m = 0 /\ e.x[i] < m
GoodPData(orbs, data) == \A k \in DOMAIN orbs :
    HasOrbit(data, orbs[k].n) /\ GoodPOrbit(orbs[k], OrbitData(data, orbs[k].n))
POf(orbs, data) == [k \in 1..Len(orbs) |->
    LET e == OrbitData(data, orbs[k].n) IN
    [p |-> e.p, o |-> e.x,
     m |-> [i \in DOMAIN e.p |-> IF ~e.hm \/ e.m[i] = orbs[k].no THEN 0 ELSE e.m[i]]]]

(* ---------------------------- move lookup ----------------------------- *)
SameMove(x, y) == x.fam = y.fam /\ x.pre = y.pre /\ x.amt = y.amt
IndexOf(table, mv) == LET S == {i \in DOMAIN table : SameMove(table[i].k, mv)}
                      IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
WithAmount1(mv) == [mv EXCEPT !.amt = 1]

(* Where a move resolves: [src: "direct", "derived" or "none", i, rel].     *)
Resolve(def, mv) ==
    LET derived == IF def.hasd THEN def.derived ELSE <<>>
        try == << <<"direct",  IndexOf(def.moves, WithAmount1(mv)), mv.amt>>,
                  <<"derived", IndexOf(derived,   WithAmount1(mv)), mv.amt>>,
                  <<"direct",  IndexOf(def.moves, mv), 1>>,
                  <<"derived", IndexOf(derived,   mv), 1>>,
                  <<"direct",  IndexOf(def.moves, InvertMove(mv)), -1>>,
                  <<"derived", IndexOf(derived,   InvertMove(mv)), -1>> >>
        hits == {j \in DOMAIN try : try[j][2] # 0}
    IN IF hits = {} THEN [src |-> "none", i |-> 0, rel |-> 0]
       ELSE LET j == CHOOSE j \in hits : \A h \in hits : j <= h
            IN [src |-> try[j][1], i |-> try[j][2], rel |-> try[j][3]]

(* ------------------------------ evaluation ---------------------------- *)
NoMove == [ok |-> FALSE, t |-> <<>>]
Ok(t) == [ok |-> TRUE, t |-> t]

RECURSIVE EvalAlg(_, _), EvalNode(_, _), EvalMove(_, _)
EvalMove(def, mv) ==
    LET r == Resolve(def, mv) IN
    CASE r.src = "none" -> NoMove
      [] r.src = "direct" -> Ok(Power(def.orbits, TOf(def.orbits, def.moves[r.i].t), r.rel))
      [] OTHER -> LET e == EvalAlg(def, def.derived[r.i].a) IN
                  IF e.ok THEN Ok(Power(def.orbits, e.t, r.rel)) ELSE NoMove
EvalNode(def, n) ==
    CASE n.t = "move" -> EvalMove(def, n)
      [] n.t \in {"pause", "nl", "cmt"} -> Ok(Identity(def.orbits))
      [] n.t = "grp" -> LET e == EvalAlg(def, n.alg) IN
                        IF e.ok THEN Ok(Power(def.orbits, e.t, n.amt)) ELSE NoMove
      [] OTHER ->
            LET a == EvalAlg(def, n.a)  b == EvalAlg(def, n.b)
                C(x, y) == Compose(def.orbits, x, y)
            IN IF ~(a.ok /\ b.ok) THEN NoMove
               ELSE IF n.t = "comm"
               THEN Ok(C(C(C(a.t, b.t), InverseT(def.orbits, a.t)), InverseT(def.orbits, b.t)))
               ELSE Ok(C(C(a.t, b.t), InverseT(def.orbits, a.t)))
EvalAlg(def, alg) ==
    FoldLeft(LAMBDA acc, n :
                IF ~acc.ok THEN acc
                ELSE LET e == EvalNode(def, n) IN
                     IF e.ok THEN Ok(Compose(def.orbits, acc.t, e.t)) ELSE NoMove,
             Ok(Identity(def.orbits)), alg)

(* ---------------------- acceptance of definitions --------------------- *)
RECURSIVE MovesIn(_)
MovesIn(alg) == UNION {LET n == alg[i] IN
    CASE n.t = "move" -> {n}
      [] n.t = "grp" -> MovesIn(n.alg)
      [] n.t \in {"comm", "conj"} -> MovesIn(n.a) \cup MovesIn(n.b)
      [] OTHER -> {} : i \in DOMAIN alg}

Derived(def) == IF def.hasd THEN DOMAIN def.derived ELSE {}

(* Evaluable in at most n levels of derived moves.                          *)
RECURSIVE Evaluable(_, _, _)
Evaluable(uses, good, n) ==
    LET next == {i \in DOMAIN uses :
                   \A r \in uses[i] : r.src = "direct" \/ (r.src = "derived" /\ r.i \in good)}
    IN IF n = 0 \/ next = good THEN good ELSE Evaluable(uses, next, n - 1)

DerivedAccepted(def) ==
    LET uses == [i \in Derived(def) |-> {Resolve(def, m) : m \in MovesIn(def.derived[i].a)}]
        good == Evaluable(uses, {}, Cardinality(Derived(def)) + 1)
    IN \A i \in Derived(def) :
          LET r == Resolve(def, def.derived[i].k) IN r.src = "direct" \/ r.i \in good

Accepted(def) ==
    /\ \A k \in DOMAIN def.orbits : def.orbits[k].no \in 1..MaxOrientations
    /\ \A j \in DOMAIN def.moves : GoodTData(def.orbits, def.moves[j].t)
    /\ DerivedAccepted(def)

(* The same by unfolding: every derived key evaluates along every path      *)
(* without meeting itself.  Checked equal to the above on small definitions.*)
RECURSIVE Unfolds(_, _, _)
Unfolds(def, mv, path) ==
    LET r == Resolve(def, mv) IN
    CASE r.src = "none" -> FALSE
      [] r.src = "direct" -> TRUE
      [] OTHER -> r.i \notin path
                  /\ \A m \in MovesIn(def.derived[r.i].a) : Unfolds(def, m, path \cup {r.i})
AcceptedByUnfolding(def) == \A i \in Derived(def) : Unfolds(def, def.derived[i].k, {})

(* The premise of C12: every family is defined once, `/` is self-inverse     *)
(* and the Square-1 layers commute.                                         *)
Quantum(mv) == <<mv.fam, mv.pre>>
DefinedOnce(def) ==
    LET keys == [j \in DOMAIN def.moves |-> def.moves[j].k] \o
                (IF def.hasd THEN [j \in DOMAIN def.derived |-> def.derived[j].k] ELSE <<>>)
        IsSlash(mv) == mv.fam = S_SLASH /\ mv.pre = <<>>
        Sq(fam) == EvalMove(def, MoveNode(<<>>, fam, 1))
    IN /\ \A i, j \in DOMAIN keys : i # j => Quantum(keys[i]) # Quantum(keys[j])
       /\ \A i \in DOMAIN keys : IsSlash(keys[i]) =>
             LET e == EvalMove(def, keys[i]) IN
             keys[i].amt = 1 /\ e.ok /\ Compose(def.orbits, e.t, e.t) = Identity(def.orbits)
       /\ Sq(S_U_SQ).ok /\ Sq(S_D_SQ).ok =>
             Compose(def.orbits, Sq(S_U_SQ).t, Sq(S_D_SQ).t)
               = Compose(def.orbits, Sq(S_D_SQ).t, Sq(S_U_SQ).t)
================================================================================
