----------------------------------------------- MODULE SyncMC -----------------------------------------------
(* The listed properties, checked on Sync itself. Threads call operations of a menu in any order the rules of *)
(* the API allow (no recursive locking, unlock only by the owner, and so on), time passes, the operating      *)
(* system refuses requests. History variables record what users observe; the properties are stated with them. *)
EXTENDS Sync, TLC, Json, IOUtils

Confs == JsonDeserialize(IOEnv.CONF)       \* [n, kind, init, max, k, maxnow, hb, tss, faults, menu]

VARIABLES c, S, cnt, G, F
vars == <<c, S, cnt, G, F>>
Cf == Confs[c]
T == 1..Cf.n
O == 0..(Len(Cf.kind) - 1)
Kind(o) == Cf.kind[o + 1]

(* G: history.                                                                                                                    *)
(*   wr[o], rs[o]   stamp of the last exclusive owner's last action before it gave the mutex up, and those of the readers since       *)
(*   un[t], und[t]  the resource was unavailable at some moment of the pending call; ... at some moment not before its deadline       *)
(*   ps[o]          stamps of the posts (sets) that took effect, since the last reset for a manual-reset event                        *)
(*   np[o], nt[o]   number of posts and of successful waits                                                                           *)
(*   st[id]         where value id is: "s" stored, "r" released to the user, "c" cleaned up, with the cleanup function that is due    *)
(*   reg[t], ran[t] exit callbacks registered and called                                                                              *)
GInit == [wr |-> [o \in O |-> <<0, 0>>], rs |-> [o \in O |-> {}], un |-> [t \in T |-> FALSE], und |-> [t \in T |-> FALSE],
          ps |-> [o \in O |-> {}], np |-> [o \in O |-> 0], nt |-> [o \in O |-> 0], st |-> <<>>, reg |-> [t \in T |-> <<>>], ran |-> [t \in T |-> <<>>], out |-> [t \in T |-> FALSE]]
Init == /\ c \in 1..Len(Confs)
        /\ S = InitState(Cf.n, Cf.kind, Cf.init, Cf.max, Cf.hb, Cf.tss)
        /\ cnt = [t \in T |-> 0]
        /\ G = GInit
        /\ F = Cf.faults

Available(X, P) == CASE P.op \in {"lock", "trylock", "tlock"} -> FreeX(X, P.o)
                     [] P.op \in {"lock_sh", "trylock_sh"} -> FreeS(X, P.o)
                     [] P.op \in {"wait", "trywait", "twait"} -> (IF Kind(P.o) = "mre" THEN X.flag[P.o] ELSE DOMAIN X.tok[P.o] # {})
                     [] OTHER -> TRUE
(* the resource counts as unavailable while the thread that gives it has not returned *)
Unav(X, u) == X.pend[u].op # "none" /\ X.pend[u].ph # "d" /\ (~ Available(X, X.pend[u]) \/ Giving(X, X.pend[u].o))
Watch(g, X) == [g EXCEPT !.un = [u \in T |-> X.pend[u].op # "none" /\ (g.un[u] \/ Unav(X, u))],
                         !.und = [u \in T |-> X.pend[u].op # "none" /\ (g.und[u] \/ (Unav(X, u) /\ Expired(X, X.pend[u])))]]

(* what a thread may call *)
Holds(t, o) == S.own[o] = t \/ t \in S.rd[o]
Legal(t, m) ==
    CASE m.op \in {"lock", "trylock", "tlock", "lock_sh", "trylock_sh"} -> ~ Holds(t, m.o)
      [] m.op = "unlock" -> S.own[m.o] = t
      [] m.op = "unlock_sh" -> t \in S.rd[m.o]
      [] m.op = "cvwait" -> Holds(t, m.m)
      [] m.op = "setv" -> \E o \in O : S.own[o] = t
      [] m.op = "nate" -> S.own[m.o] = t /\ \A x \in S.nat[t] : x[3] # m.o
      [] m.op = "pnew" -> S.tp[m.o] = -1
      [] m.op = "pdel" -> S.tp[m.o] # -1 /\ \A u \in T : S.pend[u].op # "none" => S.pend[u].op = "exit" \/ S.pend[u].o # m.o
      [] m.op \in {"pset", "preset", "pget", "prel"} -> S.tp[m.o] # -1 /\ \A u \in T : ~ (S.pend[u].op = "pdel" /\ S.pend[u].o = m.o)
      [] OTHER -> TRUE
Releases == {"unlock", "unlock_sh"}
Fresh == Cardinality(DOMAIN G.st) + 1                   \* a value or callback nobody used before
Rec(t, m) == [op |-> m.op, i |-> cnt[t] + 1, o |-> m.o, m |-> m.m, dl |-> IF m.dl = -1 THEN -1 ELSE IF m.rel THEN S.now + m.dl ELSE m.dl, rel |-> m.rel,
              pv |-> m.pv, need |-> m.need, via |-> 0, v |-> IF m.op = "pset" THEN Fresh ELSE IF m.op = "atexit" THEN 10 * t + Len(G.reg[t]) ELSE m.v]
DoCall == \E t \in T : \E k \in DOMAIN Cf.menu : LET m == Cf.menu[k] IN
    /\ CanCall(S, t) /\ ~ G.out[t] /\ t \in {m.ts[i] : i \in DOMAIN m.ts} /\ Legal(t, m)
    /\ cnt[t] < Cf.k \/ m.op \in Releases \/ m.op = "exit"
    /\ m.op = "exit" => (cnt[t] >= Cf.k /\ \A o \in O : ~ Holds(t, o) \/ \E x \in S.nat[t] : x[3] = o)
    /\ m.op \in Releases /\ Cf.tss => \A x \in S.nat[t] : x[3] # m.o
    /\ cnt' = [cnt EXCEPT ![t] = @ + 1]
    /\ IF m.op = "setv" THEN S' = SetVar(S, m.o, m.v) /\ UNCHANGED G
       ELSE LET r == Rec(t, m)  X == Call(S, t, r) IN
            /\ S' = X
            /\ G' = LET g0 == [G EXCEPT !.un[t] = FALSE, !.und[t] = FALSE]
                        g1 == IF m.op = "unlock" \/ (m.op = "cvwait" /\ S.own[m.m] = t) THEN LET q == IF m.op = "unlock" THEN m.o ELSE m.m IN [g0 EXCEPT !.wr[q] = <<t, r.i>>, !.rs[q] = {}]
                              ELSE IF m.op = "unlock_sh" \/ (m.op = "cvwait" /\ t \in S.rd[m.m]) THEN LET q == IF m.op = "unlock_sh" THEN m.o ELSE m.m IN [g0 EXCEPT !.rs[q] = @ \cup {<<t, r.i>>}]
                              ELSE IF m.op = "pset" THEN [g0 EXCEPT !.st = Append(@, <<"s", S.tp[m.o]>>)]
                              ELSE IF m.op = "prel" /\ S.tv[t][m.o] # 0 THEN [g0 EXCEPT !.st[S.tv[t][m.o]] = <<"r", 0>>]
                              ELSE IF m.op = "atexit" THEN [g0 EXCEPT !.reg[t] = Append(@, r.v)] ELSE g0
                    IN  Watch(g1, X)
    /\ UNCHANGED <<c, F>>
(* an internal step; what became effective is recorded *)
Effect(t, X) == LET P == S.pend[t] IN P.op # "none" /\ P.ph # "d" /\ X.pend[t].op # "none" /\ X.pend[t].ph = "d"
Took(t, X) == Effect(t, X) /\ S.pend[t].op \in {"wait", "trywait", "twait"} /\ X.pend[t].res = 1
Gave(t, X) == Effect(t, X) /\ S.pend[t].op \in {"post", "set"} /\ X.pend[t].res = 1
DoStep == \E t \in T : \E X \in Steps(S, t) :
    /\ S' = X
    /\ G' = LET P == S.pend[t]
                g == IF Took(t, X) THEN [G EXCEPT !.nt[P.o] = @ + 1]
                     ELSE IF Gave(t, X) THEN [G EXCEPT !.np[P.o] = @ + 1, !.ps[P.o] = @ \cup {<<t, P.i>>}]
                     ELSE IF Effect(t, X) /\ P.op = "reset" THEN [G EXCEPT !.ps[P.o] = {}]
                     ELSE G
            IN  Watch(g, X)
    /\ UNCHANGED <<c, cnt, F>>
DoRet == \E t \in T :
    /\ S.pend[t].op # "none" /\ S.pend[t].ph = "d" /\ (Cf.tss => S.due[t] = {})
    /\ S' = Ret(S, t) /\ G' = [G EXCEPT !.out[t] = @ \/ S.pend[t].op = "exit"]
    /\ UNCHANGED <<c, cnt, F>>
DoPred == \E t \in T : \E v \in {0, 1, 2} :
    /\ S.pend[t].op = "cvwait" /\ S.pend[t].ph = "p" /\ CanPred(S, t, v, 1)
    /\ S' = Pred(S, t, v) /\ UNCHANGED <<c, cnt, F, G>>
DoTick == /\ S.now < Cf.maxnow
          /\ S' = (IF Quiet(S) THEN Tick(Settle(S), S.now + 1, FALSE, T) ELSE Tick(S, S.now + 1, TRUE, T))
          /\ G' = Watch(G, S')
          /\ UNCHANGED <<c, cnt, F>>
DoSettle == /\ Quiet(S) /\ Settle(S) # S /\ S' = Settle(S) /\ UNCHANGED <<c, cnt, F, G>>
DoFault == /\ F > 0 /\ F' = F - 1
           /\ \E t \in T : \E fn \in {"mutex_lock", "mutex_trylock", "mutex_timedlock", "cond_wait", "sem_post"} : \E e \in {4, 22} : S' \in Fault(S, t, fn, e)
           /\ G' = Watch(G, S') /\ UNCHANGED <<c, cnt>>
(* cleanup functions and exit callbacks *)
DoClean == /\ Cf.tss
           /\ \E t \in T : \E x \in S.due[t] :
                /\ CanClean(S, t, x[1], x[2]) /\ S' = Clean(S, t, x[1], x[2])
                /\ Assert(G.st[x[1]] = <<"s", x[2]>>, <<"cleaned up although not stored, or by the wrong function", x, G.st>>)      \* C17, C18
                /\ G' = [G EXCEPT !.st[x[1]] = <<"c", 0>>]
           /\ UNCHANGED <<c, cnt, F>>
DoCallBack == /\ Cf.tss
              /\ \E t \in T : \E i \in DOMAIN G.reg[t] : \E X \in CallBack(S, t, G.reg[t][i], t) :
                   S' = X /\ G' = [G EXCEPT !.ran[t] = Append(@, G.reg[t][i])]
              /\ UNCHANGED <<c, cnt, F>>
Next == DoCall \/ DoStep \/ DoRet \/ DoPred \/ DoTick \/ DoSettle \/ DoFault \/ DoClean \/ DoCallBack
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------------------------------------
(* Nothing can happen without a new call, a spurious wakeup, a fault, or time passing *)
Stopped == Quiet(S) /\ \A t \in T : S.pend[t].op # "none" => S.pend[t].ph # "d"
AtRest == Stopped /\ \A t \in T : S.pend[t] = NoOp => G.out[t] \/ (cnt[t] >= Cf.k /\ \A o \in O : ~ Holds(t, o))

Owners(o) == {t \in T : S.own[o] = t} \cup S.rd[o]
(* C01, C04: at most one exclusive owner, and never together with a shared one *)
Exclusion == \A o \in O : (S.own[o] # 0 => S.rd[o] = {}) /\ S.own[o] \in 0..Cf.n
(* C02: an owner sees everything earlier owners did *)
Visible == Cf.hb => \A o \in O : \A t \in Owners(o) :
    /\ G.wr[o][1] # 0 => S.view[t][G.wr[o][1]] >= G.wr[o][2]
    /\ S.own[o] = t => \A r \in G.rs[o] : S.view[t][r[1]] >= r[2]
(* C03, C04, C09, C10, C11: a failed attempt happened when the resource was unavailable (at or after the deadline of a timed one) *)
Truthful == \A t \in T : LET P == S.pend[t] IN P.op # "none" /\ P.ph = "d" /\ P.res = 0 =>
    /\ P.op \in {"trylock", "trylock_sh", "trywait"} => G.un[t]
    /\ P.op \in {"tlock", "twait"} => G.und[t]
(* C03, C09, C10, C11: nobody is left behind *)
Served == Stopped => \A t \in T : LET P == S.pend[t] IN P.op \in {"lock", "lock_sh", "tlock", "wait", "twait"} => ~ Available(S, P)
(* C13: never early; and time cannot leave a timed operation behind *)
NotEarly == \A t \in T : LET P == S.pend[t] IN P.op \in {"tlock", "twait", "cvwait"} /\ P.ph = "d" /\ P.res = 0 => Timed(P) /\ S.now >= P.dl
NotLate == Stopped => \A t \in T : LET P == S.pend[t] IN P.op # "none" /\ Timed(P) => (S.now < P.dlm \/ (P.op = "cvwait" /\ ~ Free(S, P.m, P.sh)))
(* C07: blocked without the lock, on the way out with it *)
WaitOwns == \A t \in T : LET P == S.pend[t] IN P.op = "cvwait" =>
    IF P.ph \in {"w", "n", "x", "f"} THEN ~ Owns(S, t, P.m, P.sh) ELSE Owns(S, t, P.m, P.sh)
(* C08: true only if the predicate holds (the caller owns the lock, so it still does) *)
Predicate == \A t \in T : LET P == S.pend[t] IN P.op = "cvwait" /\ P.pv >= 0 /\ P.ph = "d" /\ P.need # 99 =>
    (P.res = 1 => S.var[P.pv] >= P.need) /\ (P.res = 0 => S.var[P.pv] < P.need)
(* C09: permits are conserved *)
Conserved == \A o \in O : Kind(o) = "sem" => BagSize(S.tok[o]) = Cf.init[o + 1] + G.np[o] - G.nt[o]
(* C10: never more successes than posts; without waiters at most one permit is kept *)
AutoReset == \A o \in O : Kind(o) = "are" =>
    /\ G.nt[o] + BagSize(S.tok[o]) <= G.np[o]
    /\ BagSize(S.tok[o]) <= 1 + Cardinality(Waiting(S, o))
    /\ G.np[o] > 0 /\ G.nt[o] = 0 => BagSize(S.tok[o]) >= 1
(* C12: a successful wait sees a post it can be paired with; one served by a flag sees every set since the last reset *)
Handed == Cf.hb => \A t \in T : LET P == S.pend[t] IN P.op \in {"wait", "trywait", "twait"} /\ P.ph = "d" /\ P.res = 1 =>
    /\ Kind(P.o) \in {"sem", "are"} /\ Cf.init[P.o + 1] = 0 => \E p \in G.ps[P.o] : S.view[t][p[1]] >= p[2]
FlagSeen == [][Cf.hb => \A t \in T : Took(t, S') /\ Kind(S.pend[t].o) = "mre" => \A p \in G.ps[S.pend[t].o] : S'.view[t][p[1]] >= p[2]]_vars
(* C10: while threads are known to be blocked, posts are not merged *)
PostReleases == [][\A t \in T : Gave(t, S') /\ Kind(S.pend[t].o) = "are" /\ BagSize(S.tok[S.pend[t].o]) <= Cardinality(Blocked(S, S.pend[t].o))
                     => BagSize(S'.tok[S.pend[t].o]) = BagSize(S.tok[S.pend[t].o]) + 1]_vars
(* C11: waits do not change the flag *)
FlagStays == [][\A o \in O : S'.flag[o] # S.flag[o] => \E t \in T : Effect(t, S') /\ S.pend[t].op = (IF S'.flag[o] THEN "set" ELSE "reset") /\ S.pend[t].o = o]_vars
(* C05, C06: one notification wakes one waiter, notifying all wakes all; starting to wait and releasing the mutex is one step *)
Wakes == [][\A t \in T : LET P == S.pend[t] IN
              /\ Effect(t, S') /\ P.op = "notify1" /\ CvWaiters(S, P.o) # {} => Cardinality(CvWaiters(S', P.o)) = Cardinality(CvWaiters(S, P.o)) - 1
              /\ Effect(t, S') /\ P.op = "notifyN" => CvWaiters(S', P.o) = {}
              /\ P.op = "cvwait" /\ P.ph # "w" /\ S'.pend[t].op = "cvwait" /\ S'.pend[t].ph = "w" => Owns(S, t, P.m, P.sh) /\ ~ Owns(S', t, P.m, P.sh)]_vars
(* C21, C22: a refused request changes nothing but the result *)
Refused == [][F' < F => /\ S'.own = S.own /\ S'.rd = S.rd /\ S'.tok = S.tok /\ S'.flag = S.flag /\ S'.var = S.var
                        /\ \A t \in T : S'.pend[t] # S.pend[t] => S'.pend[t].ph = "f" \/ S'.pend[t].res \in {10, 12, 13}]_vars
ReportsOnly == [][\A t \in T : S.pend[t].op # "none" /\ S'.pend[t] # S.pend[t] /\ S'.pend[t].op # "none" /\ S'.pend[t].ph = "d" /\ S'.pend[t].res \in {10, 11, 12, 13} =>
                    F < Cf.faults \/ F' < F \/ (S.pend[t].op = "post" /\ BagSize(S.tok[S.pend[t].o]) >= Cf.max[S.pend[t].o + 1])]_vars
(* C17: a pointer holds what its thread stored, C18: nothing is lost *)
Places == Cf.tss => \A id \in DOMAIN G.st :
    LET held == {<<t, o>> \in T \X O : S.tv[t][o] = id}
        due == {<<t, f>> \in T \X (0..3) : <<id, f>> \in S.due[t]}
        pend == {t \in T : S.pend[t].op = "pset" /\ S.pend[t].v = id /\ S.pend[t].ph # "d"}
        fn == G.st[id][2]
    IN  /\ Cardinality(held) + Cardinality(due) + Cardinality(pend) <= 1
        /\ G.st[id][1] # "s" => due = {} /\ pend = {} /\ (held # {} => \E x \in held : S.pend[x[1]].op = "prel")
        /\ G.st[id][1] = "s" /\ fn # 3 => Cardinality(held) + Cardinality(due) + Cardinality(pend) = 1
        /\ \A x \in held : S.tp[x[2]] = fn \/ G.st[id][1] # "s"
Cleaned == Cf.tss => \A t \in T : G.out[t] => (\A o \in O : S.tv[t][o] = 0) /\ S.due[t] = {}
(* C19: once each, the latest first (callbacks of the model register nothing themselves) *)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Callbacks == Cf.tss => \A t \in T : LET r == Rev(G.reg[t]) IN G.ran[t] = SubSeq(r, 1, Len(G.ran[t])) /\ (G.out[t] => Len(G.ran[t]) = Len(r))
(* C20: handed over at the end, after everything else *)
Handover == Cf.tss => \A t \in T : \A x \in S.nat[t] : x[2] = "u" => S.own[x[3]] = t
HandedOver == Cf.tss => \A t \in T : G.out[t] => S.nat[t] = {} /\ \A o \in O : S.own[o] # t
LastThing == [][Cf.tss => \A t \in T : S'.nat[t] # S.nat[t] /\ S.pend[t].op = "exit" => Stored(S, t) = {} /\ S.due[t] = {} /\ G.ran[t] = Rev(G.reg[t])]_vars
=============================================================================================================
