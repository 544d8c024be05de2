------------------------------ MODULE CrashTrace ------------------------------
(* Validates what the real store holds after the process died: a state that    *)
(* the history passed through, at most followed by the recording part of the   *)
(* operation in progress (C10).                                                *)
(*                                                                             *)
(* `past` are the states after each operation since the store was opened; a    *)
(* crash event says how many operations were certainly completed, which one    *)
(* was next, and what was read back from the reopened store.                   *)
EXTENDS ChainsTrace

VARIABLE past

ctvars == <<blocks, heads, leash, l, past>>

At(b, h, p) == INSTANCE Chains WITH blocks <- b, heads <- h, leash <- p

St(b, h, p) == [b |-> b, h |-> h, p |-> p]
Cur == St(blocks, heads, leash)

RecordedIn(st, b, rec, on) == St(st.b @@ (b :> rec), At(st.b, st.h, st.p)!HeadsWith(b, on), st.p)
PlacedIn(st, a, b) == St(st.b, st.h, (a :> b) @@ st.p)

(* The states an operation may leave behind when it is cut short, beside the one before it. *)
Partial(st, o) ==
    CASE o.op = "put" /\ o.b \notin DOMAIN st.b /\ o.p \in DOMAIN st.b /\ InRange(o.bt, o.tsl) ->
            {RecordedIn(st, o.b, At(st.b, st.h, st.p)!KeyBlock(o.p, o.bt, o.ts, o.gen), o.p)}
      [] o.op = "micro" /\ o.b \notin DOMAIN st.b /\ o.r \in DOMAIN st.b \ {Genesis} ->
            {RecordedIn(st, o.b, At(st.b, st.h, st.p)!MicroBlock(o.r), o.r)}
      [] o.op = "churn" -> {PlacedIn(st, o.a, o.bs[i]) : i \in DOMAIN o.bs}
      [] OTHER -> {}

(* ... and when it was completed, though its caller did not learn that. *)
Complete(st, o) ==
    CASE o.op \in {"put", "micro"} /\ o.b \in DOMAIN st.b -> {PlacedIn(st, o.a, o.b)}
      [] o.op \in {"put", "micro"} -> {PlacedIn(q, o.a, o.b) : q \in Partial(st, o)}
      [] o.op = "move" -> {PlacedIn(st, o.a, o.b)}
      [] OTHER -> {}

Survivors ==
    LET st == past[Ev.done + 1]
    IN IF Ev.how = "clean" THEN {st}
       ELSE IF Ev.how = "cut" THEN {st} \cup Partial(st, Ev.next)
       ELSE {st} \cup Partial(st, Ev.next) \cup Complete(st, Ev.next)

SameRec(r, o) == Plain(r) = RecOf(o)

Matches(st) ==
    /\ DOMAIN st.b = {Ev.blocks[i].id : i \in DOMAIN Ev.blocks}
    /\ \A i \in DOMAIN Ev.blocks : SameRec(st.b[Ev.blocks[i].id], Ev.blocks[i])
    /\ SeqSet(Ev.heads) = {<<n, st.h[n]>> : n \in DOMAIN st.h}
    /\ SeqSet(Ev.leashes) = {<<a, st.p[a]>> : a \in DOMAIN st.p}
    /\ \A i \in DOMAIN Ev.chains : Ev.chains[i] = At(st.b, st.h, st.p)!Chain(Ev.chains[i][1])
    /\ \A i \in DOMAIN Ev.lcbs : Ev.lcbs[i][2] \in At(st.b, st.h, st.p)!LCBs(Ev.lcbs[i][1])

Readable == Ev.res = "ok" /\ NoDup(Ev.heads) /\ NoDup(Ev.leashes)
            /\ Len(Ev.blocks) = Cardinality({Ev.blocks[i].id : i \in DOMAIN Ev.blocks})

Diff(st) == [blocks  |-> <<DOMAIN st.b, {Ev.blocks[i].id : i \in DOMAIN Ev.blocks}>>,
             records |-> {<<Plain(st.b[Ev.blocks[i].id]), Ev.blocks[i]>> : i \in {i \in DOMAIN Ev.blocks : Ev.blocks[i].id \in DOMAIN st.b
                             /\ ~SameRec(st.b[Ev.blocks[i].id], Ev.blocks[i])}},
             heads   |-> <<{<<n, st.h[n]>> : n \in DOMAIN st.h}, SeqSet(Ev.heads)>>,
             leashes |-> <<{<<a, st.p[a]>> : a \in DOMAIN st.p}, SeqSet(Ev.leashes)>>]

Valid == /\ Holds("reopened store readable", Readable, <<Ev.how, Ev.done, Ev.res>>)
         /\ Holds("survived state", \E st \in Survivors : Matches(st), <<Ev.how, Ev.done, Ev.next, {Diff(st) : st \in Survivors}>>)

(* A crash tried on a copy of the store. *)
Crash == /\ Ev.op = "crash"
         /\ Valid
         /\ UNCHANGED <<blocks, heads, leash, past>>

(* A crash (or clean close) of the store itself: work goes on from what survived. *)
Recover == /\ Ev.op = "recover"
           /\ Valid
           /\ \E st \in Survivors : Matches(st) /\ blocks' = st.b /\ heads' = st.h /\ leash' = st.p
           /\ past' = <<St(blocks', heads', leash')>>

(* Many moves of one peer, to make the store write its tables. *)
Churn == /\ Ev.op = "churn"
         /\ Position(Ev.a, Ev.bs[Len(Ev.bs)])
         /\ UNCHANGED <<blocks, heads>>

CTNext == /\ l <= Len(Trace)
          /\ l' = l + 1
          /\ \/ New /\ past' = <<St(blocks', heads', leash')>>
             \/ (Put \/ Micro \/ MoveTo \/ Churn) /\ past' = IF Ev.light THEN <<St(blocks', heads', leash')>>
                                                             ELSE Append(past, St(blocks', heads', leash'))
             \/ Crash
             \/ Recover

CTSpec == TraceInit /\ past = <<>> /\ [][CTNext]_ctvars
===============================================================================
