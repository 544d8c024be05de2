----------------------------- MODULE LoaderTrace ------------------------------
(* Validates runs recorded from the real history loader, working on the real   *)
(* stores in virtual time, against Loader.tla. Each event of a trace is a      *)
(* delivery, a change of the stores, or time that passed, with the messages    *)
(* the loader sent and the changes of the chain store that were seen after it. *)
(* An event is explained by steps of the loader that send exactly these        *)
(* messages and leave exactly this store. Properties that are not in Focus     *)
(* are not judged: there the loader is followed wherever it goes.              *)
EXTENDS Loader, Scores, Json, IOUtils

CONSTANT Focus

TraceNoBlock == -1
Trace == ndJsonDeserialize(IOEnv.TRACE)

ScoreTable == [bt \in {Trace[i].x.bt : i \in {i \in DOMAIN Trace : Trace[i].op \in {"put", "blk"}}}
                  \cup {Trace[i].bt : i \in {i \in DOMAIN Trace : Trace[i].op = "new"}} |-> BlockScore64(bt)]
TableScore(bt) == ScoreTable[bt]
InRange(bt, ts) == Storable(bt, ts[2])
TraceDiff(x, y) == IF BigLess(x, y) THEN <<"-", BigSub(y, x)>> ELSE <<"+", BigSub(x, y)>>

VARIABLES l, k, run, clock, base

tvars == <<vars, l, k, run, clock, base>>

On(p) == p \in Focus
Ev == Trace[l]
Holds(what, cond, detail) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", ToString(l), what, detail>>) /\ FALSE

(* The time stamp is kept with its number, for range checks. *)
Body(x) == [b |-> x.b, p |-> x.p, bt |-> x.bt, ts |-> <<x.ts, x.tsl>>, gen |-> x.gen]

\* Blocks with even numbers are identified by digests, which have no signature.
SigForm(ids) == [i \in DOMAIN ids |-> IF ids[i] % 2 = 0 THEN -1 ELSE ids[i]]
Wire(m) == IF m.kind = "sigs" THEN [m EXCEPT !.ids = SigForm(@)] ELSE m

(* Messages sent from the k-th on are those of this step. *)
Sends == /\ k + Len(sent') <= Len(Ev.sends)
         /\ \A i \in DOMAIN sent' :
               LET m == Ev.sends[k + i]  w == Wire(sent'[i])
               IN /\ m.c = w.c
                  /\ (m.kind = "block") = (w.kind = "block")
                  /\ (w.kind = "block" \/ On("L04")) => m = w
         /\ k' = k + Len(sent')

-------------------------------------------------------------------------------

TraceInit == /\ l = 1 /\ k = 0 /\ run = FALSE /\ clock = 0
             /\ base = [known |-> {}, leash |-> <<>>, sel |-> Nobody]
             /\ blocks = <<>> /\ heads = <<>> /\ leash = <<>> /\ LoaderInit

ObsLeash == [a \in {Ev.moved[i][1] : i \in DOMAIN Ev.moved} |-> Ev.moved[CHOOSE i \in DOMAIN Ev.moved : Ev.moved[i][1] = a][2]] @@ base.leash
ObsKnown == base.known \cup {Ev.new[i].id : i \in DOMAIN Ev.new}
ObsRec(b) == LET r == Ev.new[CHOOSE i \in DOMAIN Ev.new : Ev.new[i].id = b]
             IN [par |-> r.par, h |-> r.h, score |-> r.score, ts |-> <<r.ts, <<>>>>, gen |-> r.gen, kind |-> "key"]

(* What the event itself does. *)
Still == UNCHANGED <<loopvars, age>> /\ sent' = <<>>

TConnect == Ev.op = "connect" /\ link' = (Ev.a :> [c |-> Ev.c, sigs |-> Ev.sigs]) @@ link /\ UNCHANGED <<cvars, ann>> /\ Still
TDisconnect == Ev.op = "disconnect" /\ link' = [x \in DOMAIN link \ {Ev.a} |-> link[x]] /\ UNCHANGED <<cvars, ann>> /\ Still
TScore == Ev.op = "score" /\ ann' = (Ev.a :> Ev.s) @@ ann /\ UNCHANGED <<cvars, link>> /\ Still
TPut == /\ Ev.op = "put"
        /\ LET x == Body(Ev.x) IN PutBlock(x.b, x.p, x.bt, x.ts, x.gen, Ev.a)
        /\ UNCHANGED <<link, ann>> /\ Still
TTime == Ev.op = "time" /\ UNCHANGED <<cvars, link, ann>> /\ Still
TSettled == /\ Ev.op = "settled"
            /\ UNCHANGED <<cvars, link, ann>> /\ Still
TStop == /\ Ev.op = "shutdown"
         /\ On("L01") => Holds("shutdown ends", Ev.res = "ok", Ev)
         /\ UNCHANGED <<cvars, link, ann>> /\ Still

Received == Holds("the loader takes messages", Ev.res = "ok", Ev)

TBlk == /\ Ev.op = "blk" /\ Received
        /\ \/ Arrive(Ev.a, Body(Ev.x))
           \/ ~On("L03") /\ sel # Nobody /\ Arrive(sel, Body(Ev.x))

(* Requests as observed, when their contents are not on trial. *)
RECURSIVE BlockSends(_)
BlockSends(i) == IF i > Len(Ev.sends) \/ Ev.sends[i].kind # "block" THEN <<>>
                 ELSE <<Ev.sends[i].ids[1]>> \o BlockSends(i + 1)
AnswerAnyhow ==
    /\ ph = "ids"
    /\ leash' = IF sel \in DOMAIN ObsLeash THEN (sel :> ObsLeash[sel]) @@ leash ELSE leash
    /\ LET asked == BlockSends(1)
       IN /\ queue' = [i \in DOMAIN asked |-> [id |-> asked[i], got |-> <<>>]]
          /\ sent' = [i \in DOMAIN asked |-> BlockRequest(via, asked[i])]
          /\ ph' = IF asked = <<>> THEN "done" ELSE "blocks"
    /\ age' = 0
    /\ UNCHANGED <<blocks, heads, link, ann, sel, via, broken, prevLag, fails>>
TIds == /\ Ev.op = "ids" /\ Received
        /\ \/ Answer(Ev.a, Ev.l)
           \/ ~On("L03") /\ (Ev.a # sel \/ Ev.l = <<>>) /\ AnswerAnyhow
           \/ ~On("L04") /\ Ev.a = sel /\ Ev.l # <<>> /\ AnswerAnyhow

TNew == /\ Ev.op = "new"
        /\ blocks' = (Genesis :> [par |-> NoBlock, h |-> 1, score |-> BlockScore(Ev.bt), ts |-> <<Ev.ts, <<>>>>, gen |-> Ev.gen, kind |-> "genesis"])
        /\ heads' = <<Genesis>> /\ leash' = <<>>
        /\ link' = <<>> /\ ann' = <<>> /\ ph' = "idle" /\ sel' = Nobody /\ via' = Nobody
        /\ queue' = <<>> /\ broken' = FALSE /\ prevLag' = NoLag /\ fails' = <<>>
        /\ age' = 0 /\ wait' = 0 /\ sent' = <<>>
        /\ clock' = 0 /\ k' = 0
        /\ base' = [known |-> {Genesis}, leash |-> <<>>, sel |-> Nobody]
        /\ run' = TRUE /\ l' = l

Enter == /\ ~run /\ l <= Len(Trace)
         /\ \/ TNew
            \/ /\ \/ TConnect \/ TDisconnect \/ TScore \/ TPut \/ TBlk \/ TIds \/ TTime \/ TSettled \/ TStop
               /\ Watch(0)
               /\ Sends
               /\ base' = [base EXCEPT !.sel = sel]
               /\ run' = TRUE
               /\ UNCHANGED <<l, clock>>

-------------------------------------------------------------------------------
(* What the loader does on its own. *)

\* Where the peer was left otherwise than it should have been.
ObsPoint(a) == IF ~On("L02") /\ a \in DOMAIN ObsLeash /\ ObsLeash[a] \in Known /\ ObsLeash[a] # LeashOf(a) THEN {ObsLeash[a]} ELSE {}
SelectAny == \E a \in DOMAIN link :
    \/ Select(a)
    \/ /\ ~On("L05") \/ (~On("L03") /\ a \in Lagging)
       /\ ph = "idle" \/ (~On("L03") /\ ~On("L04") /\ ph \in {"ids", "blocks"})
       /\ \E b \in StartingPoints(a) \cup ObsPoint(a) : Ask(a, link[a], b)
       /\ fails' = IF Fails(a) >= Threshold THEN (a :> 0) @@ fails ELSE fails
       /\ prevLag' = NoLag
       /\ UNCHANGED <<cvars, link, ann>>

ConcludeAny == \/ Conclude
               \/ /\ ~On("L05") /\ ph = "done"
                  /\ fails' = (sel :> 0) @@ fails
                  /\ \/ Ask(sel, via, LeashOf(sel)) /\ prevLag' = prevLag
                     \/ Rest
                  /\ UNCHANGED <<cvars, link, ann>>

\* A round is given up after some time in any case.
Patience == 15000
GiveUpAny == \/ GiveUp
             \/ ~On("L01") /\ ph \in {"ids", "blocks"} /\ Ev.op = "time" /\ age >= Patience /\ Drop

Work == /\ run
        /\ Apply \/ ConcludeAny \/ GiveUpAny \/ SelectAny
        /\ Watch(0)
        /\ Sends
        /\ UNCHANGED <<l, run, clock, base>>

(* Time passes up to the end of the event, or up to when an answer is overdue. *)
Lapse == /\ run /\ clock < Ev.now
         /\ \E t \in {Ev.now} \cup (IF ph \in {"ids", "blocks"} /\ TimeoutMax - age > 0 /\ clock + TimeoutMax - age < Ev.now /\ On("L01")
                                    THEN {clock + TimeoutMax - age} ELSE {}) :
               /\ On("L01") => InTime(t - clock)
               /\ Pass(t - clock) /\ Watch(t - clock)
               /\ clock' = t
         /\ UNCHANGED <<l, k, run, base>>

-------------------------------------------------------------------------------
(* Everything observed is explained. *)

JudgedChain == \/ On("L02") /\ Ev.op \in {"blk", "time"}
               \/ On("L04") /\ Ev.op = "ids"
Unmoved == (On("L03") /\ Ev.op \in {"blk", "ids"} /\ (Ev.a # base.sel \/ (Ev.op = "ids" /\ Ev.l = <<>>)))
           => (ObsKnown = base.known /\ ObsLeash = base.leash)

Finish == /\ run /\ Resting /\ k = Len(Ev.sends) /\ clock = Ev.now
          /\ JudgedChain => (Known = ObsKnown /\ leash = ObsLeash)
          /\ Unmoved
          /\ leash' = ObsLeash
          /\ blocks' = [b \in ObsKnown |-> IF b \in Known THEN blocks[b] ELSE ObsRec(b)]
          /\ base' = [known |-> ObsKnown, leash |-> ObsLeash, sel |-> sel]
          /\ l' = l + 1 /\ k' = 0 /\ run' = FALSE
          /\ heads' = heads /\ sent' = <<>>
          \* What no property on trial depends on is forgotten.
          /\ fails' = IF On("L04") THEN fails ELSE <<>>
          /\ prevLag' = IF On("L05") THEN prevLag ELSE NoLag
          /\ age' = IF On("L01") \/ age < TimeoutMin THEN age ELSE TimeoutMin
          /\ UNCHANGED <<link, ann, ph, sel, via, queue, broken, clock>>
          /\ IF On("L01") THEN Watch(0) ELSE wait' = 0

(* L06 looks at the outcome only. *)
Follow == /\ l <= Len(Trace) /\ ~run
          /\ IF Ev.op = "new" THEN leash' = <<>> /\ base' = [base EXCEPT !.leash = <<>>]
             ELSE /\ leash' = ObsLeash /\ base' = [base EXCEPT !.leash = ObsLeash]
                  /\ Ev.op = "settled" =>
                        Holds("positions of responsive peers", \A i \in DOMAIN Ev.heads : (IF Ev.heads[i][1] \in DOMAIN ObsLeash THEN ObsLeash[Ev.heads[i][1]] ELSE Genesis) = Ev.heads[i][2],
                              {<<Ev.heads[i], ObsLeash>> : i \in DOMAIN Ev.heads})
          /\ l' = l + 1
          /\ UNCHANGED <<blocks, heads, lvars, k, run, clock>>

TraceNext == IF Focus = {"L06"} THEN Follow ELSE Enter \/ Work \/ Lapse \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Progress == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 0)

TraceAccepted == \/ TLCGet(1) = Len(Trace) + 1
                 \/ PrintT(<<"REJECTED", ToString(TLCGet(1))>>) /\ FALSE
View == <<leash, Known, link, ann, ph, sel, via, [i \in DOMAIN queue |-> <<queue[i].id, queue[i].got # <<>>>>], broken, prevLag, fails, age, wait, l, k, run, clock, base.sel>>
===============================================================================
