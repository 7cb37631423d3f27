------------------------------------------------ MODULE LockObj ------------------------------------------------
(* Lock objects: unique_lock ("x"), upgrade_lock ("p"), shared_lock ("s"), lock_guard, shared_lock_guard and      *)
(* unlock_guard over mutexes with exclusive, upgradable and shared ownership, as seen by the one thread using them.*)
(* A mutex that cannot grant a blocking request at once reports an error (outcome "block"), so that the effect of  *)
(* a throwing mutex operation on the lock object is part of the model.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,        \* the kind of each lock object slot, e.g. <<"x", "x">>
          NM,           \* number of mutexes
          Guards,       \* include a guard slot
          MaxOrphan,    \* how many holds of one mode of a mutex can be without an owner object
          Dump          \* print the transitions
VARIABLE S
Slot == 1..Len(Kinds)
Mx == 1..NM
Mode == {"x", "p", "s"}
Dead == [m |-> -1, o |-> FALSE]          \* no object in this slot
Empty == [m |-> 0, o |-> FALSE]          \* no associated mutex
NoGuard == [g |-> "none", i |-> 0]
Init == S = [sl |-> [i \in Slot |-> Dead],
             mx |-> [m \in Mx |-> [k \in Mode |-> 0]],         \* what the mutex has granted
             orph |-> [m \in Mx |-> [k \in Mode |-> 0]],       \* holds taken by hand or released from their object
             gd |-> NoGuard]
----------------------------------------------------------------------------------------------------------------
(* The mutex *)
Avail(s, m, k) == CASE k = "x" -> \A j \in Mode : s.mx[m][j] = 0
                    [] k = "p" -> s.mx[m]["x"] = 0 /\ s.mx[m]["p"] = 0
                    [] k = "s" -> s.mx[m]["x"] = 0
Take(s, m, k) == [s EXCEPT !.mx[m][k] = @ + 1]
Drop(s, m, k) == [s EXCEPT !.mx[m][k] = @ - 1]
(* atomic change of mode from the held mode a to b *)
CanConvert(s, m, a, b) == Avail(Drop(s, m, a), m, b)
Convert(s, m, a, b) == Take(Drop(s, m, a), m, b)
(* What the mutex saw: number of acquisitions, releases and conversions that took effect *)
Nothing == [m \in Mx |-> <<0, 0, 0>>]
Acq(m) == [Nothing EXCEPT ![m] = <<1, 0, 0>>]
Rel(m) == [Nothing EXCEPT ![m] = <<0, 1, 0>>]
Cnv(m) == [Nothing EXCEPT ![m] = <<0, 0, 1>>]
Out(st, r, calls) == [st |-> st, r |-> r, calls |-> calls]
Same(s, r) == {Out(s, r, Nothing)}
----------------------------------------------------------------------------------------------------------------
(* Operations of lock objects. Each returns the set of permitted outcomes. *)
Obj(s, i, m, o) == [s EXCEPT !.sl[i] = [m |-> m, o |-> o]]
(* blocking acquisition into slot i, which is associated with m in state a *)
TakeInto(s, a, i, m, yes, no) == IF Avail(s, m, Kinds[i]) THEN {Out(Obj(Take(s, m, Kinds[i]), i, m, TRUE), yes, Acq(m))} ELSE {Out(a, no, Nothing)}
New(s, i, how, m) ==
    CASE how = "default" -> {Out(Obj(s, i, 0, FALSE), "ok", Nothing)}
      [] how = "defer" -> {Out(Obj(s, i, m, FALSE), "ok", Nothing)}
      [] how = "adopt" -> {Out(Obj([s EXCEPT !.orph[m][Kinds[i]] = @ - 1], i, m, TRUE), "ok", Nothing)}
      [] how = "lock" -> TakeInto(s, s, i, m, "ok", "block")
      [] how \in {"try", "for", "until"} -> TakeInto(s, Obj(s, i, m, FALSE), i, m, "ok", "ok")
LockOp(s, i, how) ==
    LET x == s.sl[i] IN
    IF x.m = 0 THEN Same(s, "eperm")
    ELSE IF x.o THEN Same(s, "edeadlk")
    ELSE IF how = "lock" THEN TakeInto(s, s, i, x.m, "ok", "block")
    ELSE TakeInto(s, s, i, x.m, "true", "false")            \* try_lock, timed_lock, try_lock_for, try_lock_until
Unlock(s, i) ==
    LET x == s.sl[i] IN
    IF x.m = 0 \/ ~ x.o THEN Same(s, "eperm") ELSE {Out(Drop(Obj(s, i, x.m, FALSE), x.m, Kinds[i]), "ok", Rel(x.m))}
Destroy(s, i) ==
    LET x == s.sl[i]  d == [s EXCEPT !.sl[i] = Dead] IN
    IF x.o THEN {Out(Drop(d, x.m, Kinds[i]), "ok", Rel(x.m))} ELSE {Out(d, "ok", Nothing)}
Release(s, i) ==
    LET x == s.sl[i]  d == Obj(s, i, 0, FALSE) IN
    {Out(IF x.o THEN [d EXCEPT !.orph[x.m][Kinds[i]] = @ + 1] ELSE d, IF x.m = 0 THEN "null" ELSE "mutex", Nothing)}
Swap(s, i, j) == {Out([s EXCEPT !.sl[i] = s.sl[j], !.sl[j] = s.sl[i]], "ok", Nothing)}
MoveNew(s, i, j) == {Out([s EXCEPT !.sl[i] = s.sl[j], !.sl[j] = Empty], "ok", Nothing)}       \* slot i is dead
(* Move assignment: the target takes over what the source had. What the target had is either given to the source   *)
(* or released at once.                                                                                           *)
MoveAssign(s, i, j) ==
    IF i = j THEN Same(s, "ok")
    ELSE Swap(s, i, j) \cup
         LET x == s.sl[i]  d == [s EXCEPT !.sl[i] = s.sl[j], !.sl[j] = Empty] IN
         {IF x.o THEN Out(Drop(d, x.m, Kinds[i]), "ok", Rel(x.m)) ELSE Out(d, "ok", Nothing)}
(* Conversion of the lock j into a new lock object in slot i *)
Blocking == {<<"x", "s">>, <<"x", "p">>, <<"p", "s">>, <<"p", "x">>}                          \* from, to
Trying == {<<"p", "x">>, <<"s", "x">>, <<"s", "p">>}
Timed == {<<"s", "x">>, <<"s", "p">>}
ConvNew(s, i, j, how) ==
    LET y == s.sl[j]  a == Kinds[j]  b == Kinds[i] IN
    IF ~ y.o THEN MoveNew(s, i, j)
    ELSE IF CanConvert(s, y.m, a, b) THEN {Out(Convert([s EXCEPT !.sl[i] = y, !.sl[j] = Empty], y.m, a, b), "ok", Cnv(y.m))}
    ELSE IF how = "block" THEN Same(s, "block")                                               \* no object is created
    ELSE {Out(Obj(s, i, 0, FALSE), "ok", Nothing)}
Add(c1, c2) == [m \in Mx |-> <<c1[m][1] + c2[m][1], c1[m][2] + c2[m][2], c1[m][3] + c2[m][3]>>]
(* Converting assignment: the target's previous ownership ends *)
ConvAssign(s, i, j) ==
    LET y == s.sl[j]  a == Kinds[j]  b == Kinds[i]  x == s.sl[i]
        moved(t) == [t EXCEPT !.sl[i] = y, !.sl[j] = Empty]
        old(t) == IF x.o THEN Drop(t, x.m, b) ELSE t
        rel == IF x.o THEN Rel(x.m) ELSE Nothing
    IN  IF ~ y.o THEN {Out(old(moved(s)), "ok", rel)}
        ELSE IF CanConvert(s, y.m, a, b) THEN {Out(old(Convert(moved(s), y.m, a, b)), "ok", Add(Cnv(y.m), rel))}
        ELSE Same(s, "block")
(* Guards *)
GuardNew(s, g, i) ==       \* i: a mutex, for unlock_guard over a lock object ("ul") a slot
    LET k == IF g \in {"slg", "slga"} THEN "s" ELSE "x"
        G(t, n) == [t EXCEPT !.gd = [g |-> n, i |-> i]] IN
    CASE g \in {"lg", "slg"} -> IF Avail(s, i, k) THEN {Out(G(Take(s, i, k), g), "ok", Acq(i))} ELSE Same(s, "block")
      [] g = "lga" -> {Out(G([s EXCEPT !.orph[i][k] = @ - 1], "lg"), "ok", Nothing)}
      [] g = "slga" -> {Out(G([s EXCEPT !.orph[i][k] = @ - 1], "slg"), "ok", Nothing)}
      [] g = "um" -> {Out(G(Drop([s EXCEPT !.orph[i]["x"] = @ - 1], i, "x"), g), "ok", Rel(i))}
      [] g = "ul" -> {Out(G(r.st, g), r.r, r.calls) : r \in Unlock(s, i)}
GuardEnd(s) ==
    LET g == s.gd.g  i == s.gd.i  d == [s EXCEPT !.gd = NoGuard] IN
    CASE g = "lg" -> {Out(Drop(d, i, "x"), "ok", Rel(i))}
      [] g = "slg" -> {Out(Drop(d, i, "s"), "ok", Rel(i))}
      [] g = "um" -> IF Avail(s, i, "x") THEN {Out([Take(d, i, "x") EXCEPT !.orph[i]["x"] = @ + 1], "ok", Acq(i))} ELSE {Out(d, "block", Nothing)}
      [] g = "ul" -> LockOp(d, i, "lock")
----------------------------------------------------------------------------------------------------------------
(* The operations enabled in a state: <<name, operands, outcomes>> *)
Alive(s, i) == s.sl[i].m >= 0
K(i, j) == <<Kinds[j], Kinds[i]>>
SameKind(i, j) == Kinds[i] = Kinds[j]
SlotOps(s) ==
    UNION {
      IF ~ Alive(s, i)
      THEN {<<"new_default", <<i>>, New(s, i, "default", 0)>>}
           \cup {<<"new_" \o h, <<i, m>>, New(s, i, h, m)>> : h \in {"lock", "defer", "try", "for", "until"}, m \in Mx}
           \cup {<<"new_adopt", <<i, m>>, New(s, i, "adopt", m)>> : m \in {n \in Mx : s.orph[n][Kinds[i]] > 0}}
           \cup {<<"scope", <<i, m>>, IF Avail(s, m, Kinds[i]) THEN {Out(s, "ok", Add(Acq(m), Rel(m)))} ELSE Same(s, "block")>> : m \in Mx}
           \cup {<<"new_move", <<i, j>>, MoveNew(s, i, j)>> : j \in {j \in Slot : Alive(s, j) /\ SameKind(i, j)}}
           \cup {<<"conv_block", <<i, j>>, ConvNew(s, i, j, "block")>> : j \in {j \in Slot : Alive(s, j) /\ K(i, j) \in Blocking}}
           \cup {<<"conv_try", <<i, j>>, ConvNew(s, i, j, "try")>> : j \in {j \in Slot : Alive(s, j) /\ K(i, j) \in Trying}}
           \cup {<<"conv_" \o h, <<i, j>>, ConvNew(s, i, j, "try")>> : h \in {"for", "until"}, j \in {j \in Slot : Alive(s, j) /\ K(i, j) \in Timed}}
      ELSE {<<"lock", <<i>>, LockOp(s, i, "lock")>>, <<"unlock", <<i>>, Unlock(s, i)>>, <<"release", <<i>>, Release(s, i)>>}
           \cup {<<h, <<i>>, LockOp(s, i, "try")>> : h \in {"try_lock", "timed_lock", "timed_lock_abs", "try_lock_for", "try_lock_until"}}
           \cup (IF s.gd = [g |-> "ul", i |-> i] THEN {} ELSE {<<"destroy", <<i>>, Destroy(s, i)>>, <<"unwind", <<i>>, Destroy(s, i)>>})
           \cup {<<h, <<i, j>>, Swap(s, i, j)>> : h \in {"swap", "swap_free"}, j \in {j \in Slot : Alive(s, j) /\ SameKind(i, j) /\ i <= j}}
           \cup {<<"assign", <<i, j>>, MoveAssign(s, i, j)>> : j \in {j \in Slot : Alive(s, j) /\ SameKind(i, j)}}
           \cup {<<"assign_conv", <<i, j>>, ConvAssign(s, i, j)>> : j \in {j \in Slot : Alive(s, j) /\ K(i, j) \in Blocking}}
      : i \in Slot}
Env(s) == {<<"take_" \o k, <<m>>, IF Avail(s, m, k) THEN {Out([Take(s, m, k) EXCEPT !.orph[m][k] = @ + 1], "ok", Acq(m))} ELSE {}>> : m \in Mx, k \in Mode}
          \cup {<<"drop_" \o k, <<m>>, IF s.orph[m][k] > 0 THEN {Out([Drop(s, m, k) EXCEPT !.orph[m][k] = @ - 1], "ok", Rel(m))} ELSE {}>> : m \in Mx, k \in Mode}
GuardOps(s) ==
    IF ~ Guards THEN {}
    ELSE IF s.gd.g # "none" THEN {<<"guard_end", <<>>, GuardEnd(s)>>, <<"guard_unwind", <<>>, IF s.gd.g \in {"lg", "slg"} THEN GuardEnd(s) ELSE {}>>}
    ELSE {<<"guard_" \o g, <<m>>, GuardNew(s, g, m)>> : g \in {"lg", "slg"}, m \in Mx}
         \cup {<<"guard_lga", <<m>>, IF s.orph[m]["x"] > 0 THEN GuardNew(s, "lga", m) ELSE {}>> : m \in Mx}
         \cup {<<"guard_slga", <<m>>, IF s.orph[m]["s"] > 0 THEN GuardNew(s, "slga", m) ELSE {}>> : m \in Mx}
         \cup {<<"guard_um", <<m>>, IF s.orph[m]["x"] > 0 THEN GuardNew(s, "um", m) ELSE {}>> : m \in Mx}
         \cup {<<"guard_ul", <<i>>, IF Alive(s, i) /\ s.sl[i].o THEN GuardNew(s, "ul", i) ELSE {}>> : i \in Slot}
Ops(s) == {op \in SlotOps(s) \cup Env(s) \cup GuardOps(s) : op[3] # {} /\ \A r \in op[3] : \A m \in Mx, k \in Mode : r.st.orph[m][k] <= MaxOrphan}
(* what the harness can see of a state *)
Seen(s) == <<[i \in Slot |-> <<s.sl[i].m, IF s.sl[i].o THEN 1 ELSE 0>>], [m \in Mx |-> <<s.mx[m]["x"], s.mx[m]["p"], s.mx[m]["s"]>>],
             [m \in Mx |-> <<s.orph[m]["x"], s.orph[m]["p"], s.orph[m]["s"]>>], <<s.gd.g, s.gd.i>> >>
Next == \E op \in Ops(S) : \E r \in op[3] :
            /\ S' = r.st
            /\ Dump => PrintT(ToJson(<<"E", Seen(S), op[1], op[2], r.r, r.calls, Seen(r.st)>>))
Spec == Init /\ [][Next]_S
----------------------------------------------------------------------------------------------------------------
(* Properties *)
Owners(m, k) == {i \in Slot : Kinds[i] = k /\ S.sl[i].m = m /\ S.sl[i].o}
GuardHolds(m, k) == IF ((S.gd.g = "lg" /\ k = "x") \/ (S.gd.g = "slg" /\ k = "s")) /\ S.gd.i = m THEN 1 ELSE 0
(* every grant of a mutex has exactly one owner: nothing dropped, nothing duplicated *)
Accounted == \A m \in Mx, k \in Mode : S.mx[m][k] = Cardinality(Owners(m, k)) + S.orph[m][k] + GuardHolds(m, k)
Compatible == \A m \in Mx : /\ S.mx[m]["x"] + S.mx[m]["p"] <= 1
                            /\ S.mx[m]["x"] = 1 => S.mx[m]["s"] = 0
OwnsImpliesMutex == \A i \in Slot : S.sl[i].o => S.sl[i].m \in Mx
(* acquisitions minus releases equal what is held *)
Sum(f) == f[1] - f[2]
Holds(s, m) == s.mx[m]["x"] + s.mx[m]["p"] + s.mx[m]["s"]
Balanced == \A op \in Ops(S) : \A r \in op[3] : \A m \in Mx : Holds(r.st, m) - Holds(S, m) = r.calls[m][1] - r.calls[m][2]
(* an operation that reports an error changes nothing but the guard it ends *)
ErrorsChangeNothing == \A op \in Ops(S) : \A r \in op[3] : r.r \in {"eperm", "edeadlk", "block"} => r.st.sl = S.sl /\ r.st.mx = S.mx /\ r.st.orph = S.orph /\ r.calls = Nothing
(* after a transfer the source owns nothing, unless it is given what the target had *)
TransferOps == {"new_move", "assign", "conv_block", "conv_try", "conv_for", "conv_until", "assign_conv"}
SourceGivesUp == \A op \in Ops(S) : op[1] \in TransferOps /\ op[2][1] # op[2][Len(op[2])] => \A r \in op[3] :
    LET i == op[2][1]  j == op[2][2] IN
       \/ (r.r = "block" /\ r.st.sl = S.sl)
       \/ (r.st.sl[i] = S.sl[j] /\ (r.st.sl[j] = Empty \/ (op[1] = "assign" /\ r.st.sl[j] = S.sl[i])))
       \/ (op[1] \in {"conv_try", "conv_for", "conv_until"} /\ r.st.sl[i] = Empty /\ r.st.sl[j] = S.sl[j])
================================================================================================================
