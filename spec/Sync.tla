------------------------------------------------ MODULE Sync ------------------------------------------------
(* Observable behaviour of the synchronization objects of Boost.Sync.                                        *)
(*                                                                                                           *)
(* One record S holds the whole abstract state. Threads call operations; a pending operation takes internal  *)
(* steps (Steps) at which it takes effect atomically, and returns when it is done. Must(S, t) says that the  *)
(* pending operation of t is obliged to move: a state in which nothing runs any more (a quiescent point) is  *)
(* legal only if no operation is obliged to move. Views record what each thread must be able to see: view    *)
(* [t][u] = i means that everything thread u did before calling its i-th operation happens-before t now.     *)
(*                                                                                                           *)
(* SyncMC checks the listed properties on this module, SyncTrace judges histories recorded from the real    *)
(* code against it.                                                                                          *)
EXTENDS Integers, Sequences, FiniteSets

NoOp == [op |-> "none"]
Max2(a, b) == IF a >= b THEN a ELSE b
Join(a, b) == [u \in DOMAIN a |-> Max2(a[u], b[u])]

------------------------------------------------------------------------------------------------------------
(* Bags of views: the permits of a semaphore or event, each carrying what its consumer must see. *)
BagAdd(b, x) == IF x \in DOMAIN b THEN [b EXCEPT ![x] = @ + 1] ELSE [y \in DOMAIN b \cup {x} |-> IF y = x THEN 1 ELSE b[y]]
BagDel(b, x) == IF b[x] > 1 THEN [b EXCEPT ![x] = @ - 1] ELSE [y \in DOMAIN b \ {x} |-> b[y]]
RECURSIVE SumOver(_, _)
SumOver(b, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN b[x] + SumOver(b, D \ {x})
BagSize(b) == SumOver(b, DOMAIN b)
EmptyBag == [x \in {} |-> 0]

(* Initial state for n threads and objects described by kind and init (sequences, object o is at o + 1). *)
(* tss says whether thread-specific state is used (it is left out otherwise to keep states small).       *)
InitState(n, kind, init, max, hb, tss) ==
    LET T == IF tss THEN 1..n ELSE {}
        Z == [u \in (IF hb THEN 1..n ELSE {}) |-> 0]
        O == 0..(Len(kind) - 1)
    IN  [ n |-> n, kind |-> kind, max |-> max, zero |-> Z, now |-> 0,
          pend |-> [t \in 1..n |-> NoOp],
          view |-> [t \in 1..n |-> Z],
          own  |-> [o \in O |-> 0],          \* exclusive owner
          rd   |-> [o \in O |-> {}],         \* shared owners
          mv   |-> [o \in O |-> Z],          \* view released by the last exclusive owner
          rv   |-> [o \in O |-> Z],          \* views released by shared owners since
          tok  |-> [o \in O |-> IF kind[o + 1] \in {"sem", "are"} /\ init[o + 1] > 0 THEN [v \in {Z} |-> init[o + 1]] ELSE EmptyBag],
          flag |-> [o \in O |-> FALSE],
          fv   |-> [o \in O |-> Z],
          var  |-> [o \in O |-> IF kind[o + 1] = "var" THEN init[o + 1] ELSE 0],
          tp   |-> [o \in O |-> IF kind[o + 1] = "tsp" THEN init[o + 1] ELSE -1],    \* thread-specific pointers: which cleanup function (3: none), -1 if the object does not exist
          tv   |-> [t \in T |-> [o \in O |-> 0]],                                   \* their values, 0 is null
          due  |-> [t \in T |-> {}],                                                \* values t has taken out and has to clean up, with the cleanup function
          cb   |-> [t \in T |-> [cur |-> <<>>, new |-> <<>>]],                      \* exit callbacks; new: registered while the thread is ending
          nat  |-> [t \in T |-> {}] ]                                              \* what is left to unlock and to notify at the end of t

------------------------------------------------------------------------------------------------------------
(* Ownership *)
FreeX(S, o) == S.own[o] = 0 /\ S.rd[o] = {}
FreeS(S, o) == S.own[o] = 0
AcqX(S, t, o) == [S EXCEPT !.own[o] = t, !.view[t] = Join(@, Join(S.mv[o], S.rv[o]))]
AcqS(S, t, o) == [S EXCEPT !.rd[o] = @ \cup {t}, !.view[t] = Join(@, S.mv[o])]
RelX(S, t, o) == [S EXCEPT !.own[o] = 0, !.mv[o] = S.view[t], !.rv[o] = S.zero]
RelS(S, t, o) == [S EXCEPT !.rd[o] = @ \ {t}, !.rv[o] = Join(@, S.view[t])]
Free(S, o, sh) == IF sh THEN FreeS(S, o) ELSE FreeX(S, o)
Acq(S, t, o, sh) == IF sh THEN AcqS(S, t, o) ELSE AcqX(S, t, o)
Rel(S, t, o, sh) == IF sh THEN RelS(S, t, o) ELSE RelX(S, t, o)
Owns(S, t, o, sh) == IF sh THEN t \in S.rd[o] ELSE S.own[o] = t

Done(S, t, r) == [S EXCEPT !.pend[t].ph = "d", !.pend[t].res = r]
Fail(S, t, r, e) == [S EXCEPT !.pend[t].ph = "d", !.pend[t].res = r, !.pend[t].aux = e]
Phase(S, t, p) == [S EXCEPT !.pend[t].ph = p]

Timed(P) == P.dl >= 0
Expired(S, P) == Timed(P) /\ S.now >= P.dl      \* the operation may give up
Overdue(S, P) == Timed(P) /\ S.now >= P.dlm     \* the operation has to give up

(* threads in a wait on event o, all of them and those known to be blocked *)
Waiting(S, o) == {u \in 1..S.n : S.pend[u].op \in {"wait", "twait"} /\ S.pend[u].o = o /\ S.pend[u].ph = "c"}
Blocked(S, o) == {u \in Waiting(S, o) : S.pend[u].blk}
CvWaiters(S, c) == {u \in 1..S.n : S.pend[u].op = "cvwait" /\ S.pend[u].o = c /\ S.pend[u].ph = "w"}

(* a timed operation may give up although the resource was just made available, if a thread doing so has not returned yet;      *)
(* the same holds for try_wait on an auto-reset event while a post is in progress                                                   *)
Giving(S, o) == \E u \in 1..S.n : S.pend[u].op \in {"post", "set", "unlock", "unlock_sh"} /\ S.pend[u].o = o
(* an auto-reset event keeps at most one permit more than there are waits left *)
Trim(S, o) == IF S.kind[o + 1] = "are" /\ BagSize(S.tok[o]) > Cardinality(Waiting(S, o)) + 1
              THEN {LET r == BagDel(BagDel(S.tok[o], x[1]), x[2]) IN [S EXCEPT !.tok[o] = BagAdd(r, Join(x[1], x[2]))] : x \in {y \in (DOMAIN S.tok[o]) \X (DOMAIN S.tok[o]) : y[1] # y[2] \/ S.tok[o][y[1]] > 1}}
              ELSE {S}
GiveUp(S, t, P) == IF Giving(S, P.o) /\ (Expired(S, P) \/ (P.op = "trywait" /\ S.kind[P.o + 1] = "are")) THEN Trim(Done(S, t, 0), P.o) ELSE {}

TakeToken(S, t, o) == {Done([S EXCEPT !.tok[o] = BagDel(@, v), !.view[t] = Join(@, v)], t, 1) : v \in DOMAIN S.tok[o]}

------------------------------------------------------------------------------------------------------------
(* Thread-specific pointers, exit callbacks *)
SetVal(S, t, o, v) == LET old == S.tv[t][o] IN
    [S EXCEPT !.tv[t][o] = v, !.due[t] = IF old # 0 /\ old # v /\ S.tp[o] # 3 THEN @ \cup {<<old, S.tp[o]>>} ELSE @]
DelPtr(S, t, o) ==
    [S EXCEPT !.tp[o] = -1, !.tv = [u \in DOMAIN S.tv |-> [S.tv[u] EXCEPT ![o] = 0]],
              !.due[t] = IF S.tp[o] = 3 THEN @ ELSE @ \cup {<<S.tv[u][o], S.tp[o]>> : u \in {w \in DOMAIN S.tv : S.tv[w][o] # 0}}]
Register(S, t, id) == IF S.pend[t].op = "exit" THEN [S EXCEPT !.cb[t].new = Append(@, id)] ELSE [S EXCEPT !.cb[t].cur = Append(@, id)]
AddNotify(S, t, m, c) == LET i == Cardinality(S.nat[t]) IN [S EXCEPT !.nat[t] = @ \cup {<<i, "u", m>>, <<i, "n", c>>}]
Stored(S, t) == {o \in DOMAIN S.tp : S.tv[t][o] # 0}
WakeAll(S, c) == [S EXCEPT !.pend = [u \in DOMAIN S.pend |-> IF u \in CvWaiters(S, c) THEN [S.pend[u] EXCEPT !.ph = "n"] ELSE S.pend[u]]]
ExitSteps(S, t, P) ==
    CASE P.ph = "c" ->      \* values are cleaned up and callbacks run, in any relative order
            (IF S.due[t] = {} THEN {SetVal(S, t, o, 0) : o \in Stored(S, t)} ELSE {})
            \cup (IF S.due[t] = {} /\ Stored(S, t) = {} /\ S.cb[t].cur = <<>> /\ S.cb[t].new = <<>> THEN {Phase(S, t, "u")} ELSE {})
      [] P.ph = "u" ->      \* then mutexes are released and waiters notified
            IF S.nat[t] = {} THEN {Done(S, t, 1)}
            ELSE {LET A == [S EXCEPT !.nat[t] = @ \ {x}] IN IF x[2] = "u" THEN RelX(A, t, x[3]) ELSE WakeAll(A, x[3]) : x \in S.nat[t]}
      [] OTHER -> {}
(* what is observed inside an operation: cleanup function fn called for id, exit callback called *)
TssOps == {"pset", "preset", "psame", "pdel", "exit"}
CanClean(S, t, id, fn) == <<id, fn>> \in S.due[t]
Clean(S, t, id, fn) == [S EXCEPT !.due[t] = @ \ {<<id, fn>>}]
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
(* the latest registration first; what is registered while the thread ends may be called at once or after what is left of the present round *)
CallBack(S, t, id, own) ==
    IF S.pend[t].op # "exit" \/ S.pend[t].ph # "c" \/ own # t THEN {}
    ELSE LET c == S.cb[t] IN
         (IF c.new # <<>> /\ Last(c.new) = id THEN {[S EXCEPT !.cb[t].new = Front(@)]} ELSE {})
         \cup (IF c.cur # <<>> /\ Last(c.cur) = id THEN {[S EXCEPT !.cb[t].cur = Front(@)]} ELSE {})
         \cup (IF c.cur = <<>> /\ c.new # <<>> /\ Last(c.new) = id THEN {[S EXCEPT !.cb[t] = [cur |-> Front(c.new), new |-> <<>>]]} ELSE {})

------------------------------------------------------------------------------------------------------------
(* Internal steps of the pending operation of t: the set of possible next states. *)
CvSteps(S, t, P) ==
    CASE P.ph = "c" ->       \* called, owns the mutex
            IF P.pv >= 0 THEN {Phase(S, t, "p")} ELSE {Phase(S, t, "b")}
      [] P.ph = "b" ->       \* about to block: releases the mutex and starts to wait in one step
            {Phase(Rel(S, t, P.m, P.sh), t, "w")}
            \cup (IF Expired(S, P) THEN {IF P.pv >= 0 THEN [S EXCEPT !.pend[t].ph = "p", !.pend[t].last = TRUE] ELSE Done(S, t, 0)} ELSE {})
      [] P.ph = "w" ->       \* waiting; may wake spuriously before the deadline, gives up after it
            (IF Expired(S, P) THEN {Phase(S, t, "x")} ELSE {}) \cup (IF Overdue(S, P) THEN {} ELSE {Phase(S, t, "n")})
      [] P.ph = "n" ->       \* woken: has to own the mutex again
            IF Free(S, P.m, P.sh)
            THEN LET A == Acq(S, t, P.m, P.sh) IN
                 (IF P.pv >= 0 THEN {Phase(A, t, "p")} ELSE {Done(A, t, 1)})
                 \cup (IF Expired(S, P) THEN {IF P.pv >= 0 THEN [A EXCEPT !.pend[t].ph = "p", !.pend[t].last = TRUE] ELSE Done(A, t, 0)} ELSE {})
            ELSE {}
      [] P.ph = "f" ->       \* the system refused to wait: owns the mutex again, then reports
            IF Free(S, P.m, P.sh) THEN {Fail(Acq(S, t, P.m, P.sh), t, 12, P.aux)} ELSE {}
      [] P.ph = "x" ->       \* timed out: has to own the mutex again
            IF Free(S, P.m, P.sh)
            THEN LET A == Acq(S, t, P.m, P.sh) IN
                 {IF P.pv >= 0 THEN [A EXCEPT !.pend[t].ph = "p", !.pend[t].last = TRUE] ELSE Done(A, t, 0)}
            ELSE {}
      [] OTHER -> {}         \* "p": waits for the predicate

Steps(S, t) ==
    LET P == S.pend[t] IN
    IF P.op = "none" \/ P.ph = "d" THEN {}
    ELSE CASE P.op = "lock" -> IF FreeX(S, P.o) THEN {Done(AcqX(S, t, P.o), t, 1)} ELSE {}
      [] P.op = "trylock" -> IF FreeX(S, P.o) THEN {Done(AcqX(S, t, P.o), t, 1)} ELSE {Done(S, t, 0)}
      [] P.op = "tlock" -> IF FreeX(S, P.o) THEN {Done(AcqX(S, t, P.o), t, 1)} \cup GiveUp(S, t, P) ELSE IF Expired(S, P) THEN {Done(S, t, 0)} ELSE {}
      [] P.op = "unlock" -> {Done(RelX(S, t, P.o), t, 1)}
      [] P.op = "lock_sh" -> IF FreeS(S, P.o) THEN {Done(AcqS(S, t, P.o), t, 1)} ELSE {}
      [] P.op = "trylock_sh" -> IF FreeS(S, P.o) THEN {Done(AcqS(S, t, P.o), t, 1)} ELSE {Done(S, t, 0)}
      [] P.op = "unlock_sh" -> {Done(RelS(S, t, P.o), t, 1)}
      [] P.op = "cvwait" -> CvSteps(S, t, P)
      [] P.op = "notify1" -> IF CvWaiters(S, P.o) = {} THEN {Done(S, t, 1)}
                             ELSE {Done([S EXCEPT !.pend[u].ph = "n"], t, 1) : u \in CvWaiters(S, P.o)}
      [] P.op = "notifyN" -> {Done([S EXCEPT !.pend = [u \in DOMAIN S.pend |-> IF u \in CvWaiters(S, P.o) THEN [S.pend[u] EXCEPT !.ph = "n"] ELSE S.pend[u]]], t, 1)}
      [] P.op = "post" ->
            LET k == BagSize(S.tok[P.o]) IN
            IF S.kind[P.o + 1] = "sem"
            THEN IF k >= S.max[P.o + 1] THEN {Fail(S, t, 13, 75)}
                 ELSE {Done([S EXCEPT !.tok[P.o] = BagAdd(@, S.view[t])], t, 1)}
            ELSE \* auto-reset event: one permit for each blocked thread, and one that stays
                 (IF k <= Cardinality(Waiting(S, P.o)) THEN {Done([S EXCEPT !.tok[P.o] = BagAdd(@, S.view[t])], t, 1)} ELSE {})
                 \cup (IF k > Cardinality(Blocked(S, P.o)) THEN {Done([S EXCEPT !.tok[P.o] = BagAdd(BagDel(@, v), Join(v, S.view[t]))], t, 1) : v \in DOMAIN S.tok[P.o]} ELSE {})
      [] P.op = "set" -> {Done([S EXCEPT !.flag[P.o] = TRUE, !.fv[P.o] = Join(IF S.flag[P.o] THEN @ ELSE S.zero, S.view[t])], t, 1)}
      [] P.op = "reset" -> {Done([S EXCEPT !.flag[P.o] = FALSE, !.fv[P.o] = S.zero], t, 1)}
      [] P.op \in {"wait", "trywait", "twait"} ->
            IF S.kind[P.o + 1] = "mre"
            THEN IF S.flag[P.o] THEN {Done([S EXCEPT !.view[t] = Join(@, S.fv[P.o])], t, 1)} \cup GiveUp(S, t, P)
                 ELSE IF P.op = "trywait" \/ (P.op = "twait" /\ Expired(S, P)) THEN {Done(S, t, 0)} ELSE {}
            ELSE IF DOMAIN S.tok[P.o] # {} THEN TakeToken(S, t, P.o) \cup GiveUp(S, t, P)
                 ELSE IF P.op = "trywait" \/ (P.op = "twait" /\ Expired(S, P)) THEN {Done(S, t, 0)} ELSE {}
      [] P.op \in {"create", "destroy"} -> {Done(S, t, 1)}
      [] P.op = "pnew" -> IF S.tp[P.o] = -1 THEN {Done([S EXCEPT !.tp[P.o] = P.v], t, 1)} ELSE {}
      [] P.op = "pdel" -> {Done(DelPtr(S, t, P.o), t, 1)}
      [] P.op = "pset" -> {Done(SetVal(S, t, P.o, P.v), t, 1)}
      [] P.op = "preset" -> {Done(SetVal(S, t, P.o, 0), t, 1)}
      [] P.op = "psame" -> {Done(S, t, 1)}
      [] P.op = "pget" -> {Done(S, t, S.tv[t][P.o])}
      [] P.op = "prel" -> {Done([S EXCEPT !.tv[t][P.o] = 0], t, S.tv[t][P.o])}
      [] P.op = "atexit" -> {Done(Register(S, t, P.v), t, 1)}
      [] P.op = "nate" -> {Done(AddNotify(S, t, P.o, P.m), t, 1)}
      [] P.op = "exit" -> ExitSteps(S, t, P)
      [] OTHER -> {}

(* The operating system refuses a request of the pending operation with error e. An interruption (EINTR = 4) changes nothing;       *)
(* any other error makes the operation fail with the documented exception and without any other effect.                             *)
WinCreate == {"create_event", "create_semaphore", "create_timer", "tls_alloc", "tls_set", "dup_handle", "register_wait"}
Fault(S, t, fn, e) ==
    LET P == S.pend[t] IN
    IF e = 4 THEN {S}
    ELSE IF P.op = "none" \/ P.ph = "d" THEN {}
    ELSE CASE fn \in {"mutex_init", "cond_init", "sem_init"} -> IF P.op = "create" THEN {Fail(S, t, 11, e)} ELSE {}
           [] fn \in {"mutex_lock", "mutex_trylock", "mutex_timedlock"} -> IF P.op \in {"lock", "trylock", "tlock"} THEN {Fail(S, t, 10, e)} ELSE {}
           [] fn \in {"cond_wait", "cond_timedwait"} ->
                CASE P.op = "cvwait" /\ P.ph = "b" -> {Fail(S, t, 12, e)}
                  [] P.op = "cvwait" /\ P.ph \in {"w", "n", "x"} -> {[S EXCEPT !.pend[t].ph = "f", !.pend[t].aux = e]}
                  [] P.op \in {"lock", "tlock"} -> {Fail(S, t, 10, e)}
                  [] OTHER -> {}
           (* no memory; the lock passed to notify_all_at_thread_exit is released *)
           [] fn = "new" -> CASE P.op \in {"pset", "pnew", "atexit"} -> {Fail(S, t, 15, e)}
                              [] P.op = "nate" -> {Fail(RelX(S, t, P.o), t, 15, e)}
                              [] OTHER -> {}
           [] fn \in {"sem_post", "release_semaphore"} -> IF P.op = "post" THEN {Fail(S, t, 13, e)} ELSE {}
           (* Windows: objects of the kernel are created when they are first needed *)
           [] fn \in WinCreate -> CASE P.op \in {"lock", "tlock", "cvwait"} /\ P.ph \in {"c", "b"} -> {Fail(S, t, 11, e)}
                                   [] P.op \in {"create", "twait"} -> {Fail(S, t, 11, e)}
                                   [] OTHER -> {}
           [] fn \in {"wait", "set_timer"} ->
                CASE P.op = "cvwait" /\ P.ph \in {"c", "b"} -> {Fail(S, t, 12, e)}
                  [] P.op = "cvwait" /\ P.ph \in {"w", "n", "x"} -> {[S EXCEPT !.pend[t].ph = "f", !.pend[t].aux = e]}
                  [] P.op \in {"lock", "tlock"} -> {Fail(S, t, 10, e)}
                  [] P.op \in {"wait", "trywait", "twait"} -> {Fail(S, t, 12, e)}
                  [] OTHER -> {}
           [] OTHER -> {}

(* The pending operation of t is obliged to move on. *)
Must(S, t) ==
    LET P == S.pend[t] IN
    IF P.op = "none" THEN FALSE
    ELSE IF P.ph = "d" THEN TRUE
    ELSE CASE P.op = "cvwait" -> CASE P.ph = "w" -> Overdue(S, P)
                                   [] P.ph \in {"n", "x", "f"} -> Free(S, P.m, P.sh)
                                   [] OTHER -> TRUE
           [] P.op \in {"tlock", "twait"} -> Overdue(S, P) \/ (Steps(S, t) # {} /\ ~ Expired(S, P)) \/ (P.op = "tlock" /\ FreeX(S, P.o))
                                             \/ (P.op = "twait" /\ (IF S.kind[P.o + 1] = "mre" THEN S.flag[P.o] ELSE DOMAIN S.tok[P.o] # {}))
           [] P.op \in TssOps -> TRUE
           [] OTHER -> Steps(S, t) # {}
Quiet(S) == \A t \in 1..S.n : ~ Must(S, t)

------------------------------------------------------------------------------------------------------------
(* Visible transitions *)
(* c: the call, a record with op, i (index of the operation in its thread), o, m, dl, rel, pv, need *)
CanCall(S, t) == S.pend[t] = NoOp
Call(S, t, c) ==
    LET sh == c.op = "cvwait" /\ t \in S.rd[c.m]
        V == IF S.zero = <<>> THEN S ELSE [S EXCEPT !.view[t][t] = c.i]
    IN  [V EXCEPT !.pend[t] = [op |-> c.op, i |-> c.i, o |-> c.o, m |-> c.m, dl |-> c.dl, dlm |-> c.dl, rel |-> c.rel, pv |-> c.pv,
                               need |-> c.need, via |-> c.via, v |-> c.v, sh |-> sh, ph |-> "c", res |-> -1, aux |-> 0, last |-> FALSE, blk |-> FALSE]]
(* the caller observes res, aux (owns_lock of the lock object, or the error code) and the happens-before vector hb *)
CanRet(S, t, r) ==
    LET P == S.pend[t] IN
    /\ P.op # "none" /\ P.ph = "d" /\ P.res = r.res
    /\ (IF DOMAIN S.due = {} THEN TRUE ELSE S.due[t] = {})
    /\ P.op = "pget" => r.aux = (IF r.res = 0 THEN 0 ELSE 1)
    /\ P.op \in {"nate", "exit"} /\ P.res < 10 => r.aux = 0        \* no lock object owns the mutex, no callback object is left
    /\ P.op \notin {"pget", "prel"} /\ P.res >= 10 /\ P.res < 20 => r.aux = P.aux
    /\ P.op = "lock" /\ P.res < 10 /\ P.via \in {1, 3, 4} => r.aux = 1
    /\ P.op \in {"trylock", "trylock_sh", "tlock"} /\ P.res < 10 => r.aux = r.res
    /\ P.op = "cvwait" /\ P.res < 10 => r.aux = 1
    /\ \A u \in DOMAIN S.zero : r.hb[u] >= S.view[t][u]
Ret(S, t) == [S EXCEPT !.pend[t] = NoOp]
Later(d, by) == IF d > 2000000000 - by THEN 2000000000 ELSE d + by      \* TLC's integers end at 2^31
(* Time passes. While threads are still running, a relative timeout may be measured from a later moment: one not yet blocked
   (bl: those blocked with a running timeout), including one that was woken and has to block again. *)
Tick(S, to, busy, bl) ==
    [S EXCEPT !.now = to,
              !.pend = IF ~ busy THEN S.pend ELSE [u \in DOMAIN S.pend |->
                  IF S.pend[u].op # "none" /\ S.pend[u].dl >= 0 /\ S.pend[u].rel /\ ~ (S.pend[u].blk /\ u \in bl) THEN [S.pend[u] EXCEPT !.dlm = Later(@, to - S.now)] ELSE S.pend[u]]]
(* When nothing runs until then, nobody stays blocked beyond the moment he has to give up. *)
CanTick(S, to, busy) == busy \/ \A t \in 1..S.n : S.pend[t].op # "none" =>
    LET d == S.pend[t].dlm IN Timed(S.pend[t]) /\ S.now < d /\ d < to => ~ Must([S EXCEPT !.now = d], t)
Settle(S) == [S EXCEPT !.pend = [u \in DOMAIN S.pend |-> IF S.pend[u].op # "none" THEN [S.pend[u] EXCEPT !.blk = TRUE] ELSE S.pend[u]]]
(* the predicate of a condition wait is evaluated: v = 1 true, 0 false, 2 throws *)
CanPred(S, t, v, owns) ==
    LET P == S.pend[t] IN
    /\ P.op = "cvwait" /\ P.pv >= 0 /\ (P.ph = "p" \/ (P.ph = "d" /\ P.res \in {0, 1}))    \* it may be evaluated once more before returning
    /\ Owns(S, t, P.m, P.sh) /\ owns = 1
    /\ v = IF P.need = 99 THEN 2 ELSE IF S.var[P.pv] >= P.need THEN 1 ELSE 0
Pred(S, t, v) ==
    CASE v = 1 -> Done(S, t, 1)
      [] v = 2 -> Done(S, t, 20)
      [] OTHER -> IF S.pend[t].last THEN Done(S, t, 0) ELSE Phase(S, t, "b")
SetVar(S, o, v) == [S EXCEPT !.var[o] = v]
=============================================================================================================
