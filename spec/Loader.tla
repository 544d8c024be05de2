-------------------------------- MODULE Loader --------------------------------
(* History loading: in sessions with one connected peer at a time, the         *)
(* detector asks it for the ids that follow the chain it is positioned on,     *)
(* requests the blocks it does not know, and applies them.                     *)
(*                                                                             *)
(* Time is counted since the last request (age) and since there is someone to  *)
(* select while nothing is in progress (wait). Loader actions are atomic       *)
(* steps on the chain store of Chains.tla; what is sent by a step is `sent`.   *)
EXTENDS Chains

CONSTANTS
    Batch,          \* ids sent with a request, at most
    Threshold,      \* failed rounds after which a session starts from the last common block
    TimeoutMin, TimeoutMax, \* age at which an unanswered request is given up
    SelectWithin,   \* a session starts at most this long after it could have
    ScoreDiff(_, _),
    Nobody

VARIABLES
    link,       \* connected peer -> [c, sigs]: its connection, whether it speaks the old protocol
    ann,        \* peer -> last announced score
    ph,         \* "idle", "ids", "blocks", or within a step "apply", "done"
    sel, via,   \* peer being loaded from, and its connection
    queue,      \* requested blocks in order: [id, got], got = <<>> or <<block>>
    broken,     \* a block of this round was refused by the store
    prevLag,    \* <<lag>> of the peer after the last completed round of this session
    fails,      \* peer -> failed rounds since the last completed one
    age, wait,
    sent

lvars == <<link, ann, ph, sel, via, queue, broken, prevLag, fails, age, wait, sent>>
loopvars == <<ph, sel, via, queue, broken, prevLag, fails>>
vars == <<cvars, lvars>>

NoLag == <<>>

LoaderInit == /\ link = <<>> /\ ann = <<>> /\ ph = "idle" /\ sel = Nobody /\ via = Nobody
              /\ queue = <<>> /\  broken = FALSE /\ prevLag = NoLag /\ fails = <<>>
              /\ age = 0 /\ wait = 0 /\ sent = <<>>

-------------------------------------------------------------------------------

Behind(a) == a \in DOMAIN ann /\ ScoreLess(LeashScore(a), ann[a])
Lagging == {a \in DOMAIN link : Behind(a)}
Lag(a) == ScoreDiff(ann[a], LeashScore(a))
Fails(a) == IF a \in DOMAIN fails THEN fails[a] ELSE 0
Slots(q, id) == {i \in DOMAIN q : q[i].id = id}
Full(q) == \A i \in DOMAIN q : q[i].got # <<>>
Resting == ph \in {"idle", "ids", "blocks"}

IdsRequest(v, b) == [c |-> v.c, kind |-> IF v.sigs THEN "sigs" ELSE "ids", ids |-> LastIDs(b, Batch)]
BlockRequest(v, id) == [c |-> v.c, kind |-> "block", ids |-> <<id>>]

Ask(a, v, b) == /\ ph' = "ids" /\ sel' = a /\ via' = v
                /\ queue' = <<>> /\ broken' = FALSE
                /\ sent' = <<IdsRequest(v, b)>>
                /\ age' = 0

Rest == /\ ph' = "idle" /\ sel' = Nobody /\ via' = Nobody
        /\ queue' = <<>> /\ broken' = FALSE /\ prevLag' = NoLag
        /\ sent' = <<>> /\ age' = 0

(* A new session. *)
StartingPoints(a) == IF Fails(a) >= Threshold THEN LCBs(a) ELSE {LeashOf(a)}

Select(a) == /\ ph = "idle"
             /\ a \in Lagging
             /\ \E b \in StartingPoints(a) : Ask(a, link[a], b)
             /\ fails' = IF Fails(a) >= Threshold THEN (a :> 0) @@ fails ELSE fails
             /\ UNCHANGED <<cvars, link, ann, prevLag>>

(* A list of ids from peer a. *)
RECURSIVE KnownPrefix(_)
KnownPrefix(ids) == IF ids = <<>> \/ Head(ids) \notin Known THEN 0 ELSE 1 + KnownPrefix(Tail(ids))

Answer(a, ids) ==
    /\ IF ph # "ids" \/ a # sel \/ ids = <<>>
       THEN UNCHANGED <<leash, loopvars, age>> /\ sent' = <<>>
       ELSE LET k    == KnownPrefix(ids)
                rest == SubSeq(ids, k + 1, Len(ids))
            IN /\ \/ leash' = IF k = 0 THEN leash ELSE (a :> ids[k]) @@ leash
                  \/ k > 0 /\ LeashOf(a) = ids[k] /\ leash' = leash   \* it is there already
               /\ queue' = [i \in DOMAIN rest |-> [id |-> rest[i], got |-> <<>>]]
               /\ sent' = [i \in DOMAIN rest |-> BlockRequest(via, rest[i])]
               /\ ph' = IF rest = <<>> THEN "done" ELSE "blocks"
               /\ age' = 0
               /\ UNCHANGED <<sel, via, broken, prevLag, fails>>
    /\ UNCHANGED <<blocks, heads, link, ann>>

(* A block x = [b, p, bt, ts, gen] from peer a. It goes to the first place     *)
(* where it was requested, and possibly to further ones.                       *)
Fill(x, S) == [i \in DOMAIN queue |-> IF i \in S THEN [queue[i] EXCEPT !.got = <<x>>] ELSE queue[i]]
First(S) == CHOOSE i \in S : \A j \in S : i <= j

Arrive(a, x) ==
    /\ sent' = <<>>
    /\ IF ph # "blocks" \/ a # sel
       THEN UNCHANGED loopvars
       ELSE \/ /\ Slots(queue, x.b) # {}
               /\ \E S \in SUBSET Slots(queue, x.b) :
                    /\ First(Slots(queue, x.b)) \in S
                    /\ queue' = Fill(x, S)
               /\ IF Full(queue') /\ ~broken THEN ph' = "apply" ELSE UNCHANGED ph
               /\ UNCHANGED <<sel, via, broken, prevLag, fails>>
            \/ /\ Slots(queue, x.b) = {}
               /\ UNCHANGED loopvars
            \/ /\ broken        \* applied once more
               /\ ph' = "apply"
               /\ UNCHANGED <<sel, via, queue, broken, prevLag, fails>>
    /\ UNCHANGED <<cvars, link, ann, age>>

(* Store the received blocks in the requested order, up to the first that is   *)
(* missing or refused; the peer is positioned on the last one stored.          *)
RECURSIVE Stored(_, _)
Stored(i, st) ==
    IF i > Len(queue) \/ queue[i].got = <<>> THEN st
    ELSE LET x == queue[i].got[1]
         IN IF x.b \in DOMAIN st.blocks THEN Stored(i + 1, [st EXCEPT !.n = i])
            ELSE IF x.p \in DOMAIN st.blocks /\ Acceptable(x.bt, x.ts)
            THEN Stored(i + 1, [blocks |-> st.blocks @@ (x.b :> KeyBlockIn(st.blocks, x.p, x.bt, x.ts, x.gen)),
                                heads |-> HeadsIn(st.heads, x.b, x.p), n |-> i])
            ELSE st
PutQueue == Stored(1, [blocks |-> blocks, heads |-> heads, n |-> 0])
Keep(st) == /\ blocks' = st.blocks /\ heads' = st.heads
            /\ leash' = IF st.n = 0 THEN leash ELSE (sel :> queue[st.n].id) @@ leash

(* All requested blocks are there: apply them. *)
Apply == /\ ph = "apply"
         /\ LET st == PutQueue
            IN /\ Keep(st)
               /\ IF st.n = Len(queue) THEN ph' = "done" /\ UNCHANGED broken
                                       ELSE ph' = "blocks" /\ broken' = TRUE
         /\ sent' = <<>>
         /\ UNCHANGED <<link, ann, sel, via, queue, prevLag, fails, age>>

(* A round is complete: continue the session if that helped, or end it. *)
Conclude == /\ ph = "done"
            /\ fails' = (sel :> 0) @@ fails
            /\ IF Behind(sel) /\ <<Lag(sel)>> # prevLag
               THEN Ask(sel, via, LeashOf(sel)) /\ prevLag' = <<Lag(sel)>>
               ELSE Rest
            /\ UNCHANGED <<cvars, link, ann>>

(* No answer: apply what arrived without gaps and end the session. *)
Drop == /\ Keep(PutQueue)
        /\ Rest
        /\ fails' = (sel :> Fails(sel) + 1) @@ fails
        /\ UNCHANGED <<link, ann>>
GiveUp == /\ ph \in {"ids", "blocks"}
          /\ age >= TimeoutMin \/ broken
          /\ Drop

(* Time. *)
InTime(d) == /\ ph \in {"ids", "blocks"} => age + d <= TimeoutMax
             /\ (ph = "idle" /\ Lagging # {}) => wait + d <= SelectWithin
Pass(d) == /\ Resting
           /\ age' = IF ph = "idle" THEN 0 ELSE age + d
           /\ sent' = <<>>
           /\ UNCHANGED <<cvars, link, ann, loopvars>>
Watch(d) == wait' = IF ph' = "idle" /\ (\E a \in DOMAIN link' : a \in DOMAIN ann' /\ Behind(a)')
                    THEN IF ph = "idle" /\ Lagging # {} THEN wait + d ELSE 0
                    ELSE 0

Loop == Apply \/ Conclude \/ GiveUp \/ \E a \in Lagging : Select(a)

-------------------------------------------------------------------------------
(* Properties of the design *)

LoaderOK == /\ ph = "idle" => sel = Nobody /\ queue = <<>> /\ prevLag = NoLag
            /\ ph # "idle" => sel # Nobody /\ sel \in DOMAIN ann
            /\ ph = "ids" => queue = <<>>                                       \* L02: nothing of earlier rounds
            /\ \A i \in DOMAIN queue : queue[i].got # <<>> => queue[i].got[1].b = queue[i].id
            /\ \A a \in DOMAIN fails : fails[a] <= Threshold + 1

(* L03, L05: messages go to the selected peer only, ids requests of new        *)
(* sessions only to lagging ones.                                              *)
SentOK == [][\A i \in DOMAIN sent' : sent'[i].c = via'.c]_vars
SelectOK == [][(sel = Nobody /\ sel' # Nobody) => sel' \in Lagging]_vars
(* L02: the loader moves nobody else. *)
OthersAlone == [][\A a \in Leashed \ {sel} : ph = "apply" \/ (sel # Nobody /\ sel' # sel) => leash'[a] = leash[a]]_vars
===============================================================================
