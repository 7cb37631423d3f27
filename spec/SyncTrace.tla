---------------------------------------------- MODULE SyncTrace ---------------------------------------------
(* Judges histories recorded from the real code. All histories of a run are merged in one prefix tree; a      *)
(* history is accepted if some behaviour of Sync produces its events. Every accepted history is printed.      *)
EXTENDS Sync, TLC, TLCExt, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
Scens == Data.scens            \* [n, kind, init, max, hb, lazy, root]
Nodes == Data.nodes            \* [e, ch, acc]
Verbose == IOEnv.VERBOSE = "1"

VARIABLES sc, node, nxt, S
vars == <<sc, node, nxt, S>>

E(i) == Nodes[i].e
Init == /\ sc \in 1..Len(Scens)
        /\ node = Scens[sc].root
        /\ nxt = 0
        /\ S = InitState(Scens[sc].n, Scens[sc].kind, Scens[sc].init, Scens[sc].max, Scens[sc].hb, Scens[sc].tss)

Report(i) == /\ (Nodes[i].acc # 0 => PrintT(<<"ACC", Nodes[i].acc>>))
             /\ (Verbose => PrintT(<<"AT", i>>))
Goto(i) == node' = i /\ nxt' = 0 /\ Report(i) /\ UNCHANGED sc

(* calls are inputs: taken at once (internal steps commute with them) *)
Input == /\ nxt = 0
         /\ \E k \in DOMAIN Nodes[node].ch :
              LET c == Nodes[node].ch[k]  e == E(c) IN
              \/ /\ e.k = "C" /\ CanCall(S, e.t) /\ S' = Call(S, e.t, e) /\ Goto(c)
              \/ /\ e.k = "V" /\ S' = SetVar(S, e.o, e.v) /\ Goto(c)
(* other events are observations: choose the next one, then move until it can happen *)
Commit == /\ nxt = 0
          /\ \E k \in DOMAIN Nodes[node].ch : E(Nodes[node].ch[k]).k \in {"R", "Q", "P", "G", "F", "T", "K", "A", "S", "X", "Y", "Z"} /\ nxt' = Nodes[node].ch[k]
          /\ UNCHANGED <<sc, node, S>>
(* in large scenarios only the thread observed next and the pending producers move *)
Producers == {"post", "set", "reset", "unlock", "unlock_sh", "notify1", "notifyN"}
Movers == (IF E(nxt).k \in {"Q", "T"} THEN {} ELSE {E(nxt).t}) \cup {u \in 1..S.n : S.pend[u].op \in Producers}
Internal == /\ nxt # 0
            /\ \E t \in (IF Scens[sc].lazy THEN Movers ELSE 1..S.n) : S' \in Steps(S, t)
            /\ UNCHANGED <<sc, node, nxt>>
Observe == /\ nxt # 0
           /\ LET e == E(nxt) IN
              \/ /\ e.k = "R" /\ CanRet(S, e.t, e) /\ S' = Ret(S, e.t)
              \/ /\ e.k = "Q" /\ Quiet(S) /\ S' = Settle(S)
              \/ /\ e.k = "P" /\ CanPred(S, e.t, e.v, e.w) /\ S' = Pred(S, e.t, e.v)
              \/ /\ e.k = "T" /\ CanTick(S, e.v, e.busy) /\ S' = Tick(S, e.v, e.busy, {e.blocked[j] : j \in DOMAIN e.blocked})
              \/ /\ e.k = "F" /\ S' \in Fault(S, e.t, e.fn, e.err)
              \/ /\ e.k = "K" /\ CanClean(S, e.t, e.id, e.v) /\ S' = Clean(S, e.t, e.id, e.v)
              \/ /\ e.k = "A" /\ S' \in CallBack(S, e.t, e.id, e.v)
              \/ /\ e.k = "S" /\ S' = SetVal(S, e.t, e.o, e.v)                             \* a cleanup function or callback stores a value,
              \/ /\ e.k = "X" /\ S' = Register(S, e.t, e.id)                               \* registers a callback,
              \/ /\ e.k = "Y" /\ S.tv[e.t][e.o] = e.v /\ UNCHANGED S                       \* reads a value,
              \/ /\ e.k = "Z" /\ S' = AddNotify(S, e.t, e.o, e.v)                          \* asks for a notification
              \/ /\ e.k = "G" /\ S.var[e.o] = e.v /\ UNCHANGED S
           /\ Goto(nxt)
Next == Input \/ Commit \/ Internal \/ Observe
Spec == Init /\ [][Next]_vars
=============================================================================================================
