----------------------------- MODULE Loader_Live ------------------------------
(* L06: with responsive peers that answer truthfully and silent ones that do   *)
(* not, every responsive peer is eventually positioned on the head of its      *)
(* chain. Selection is random: every lagging peer is selected again and again. *)
EXTENDS Loader

CONSTANTS Own(_),       \* peer -> its chain, from genesis up
          Responsive, Silent,
          Page          \* ids in an answer, at most

VARIABLE pend           \* messages on their way between the detector and responsive peers

MCAdd(x, y) == x + y
MCLess(x, y) == x < y
MCDiff(x, y) == x - y
MCScore(bt) == bt
MCAcceptable(bt, ts) == TRUE
MCNoBlock == -1

\* Two chains that part at block 1, one of which is longer, and a third that parts at genesis.
MCOwn(a) == CASE a = "a" -> <<0, 1, 2, 3>> [] a = "b" -> <<0, 1, 4>> [] OTHER -> <<0, 5>>
MCOwn2(a) == CASE a = "a" -> <<0, 1, 2, 3, 4, 5>> [] OTHER -> <<0, 1>>

Prev(a, b) == Own(a)[(CHOOSE i \in DOMAIN Own(a) : Own(a)[i] = b) - 1]
X(a, b) == [b |-> b, p |-> Prev(a, b), bt |-> 1, ts |-> b, gen |-> 0]
InOwn(a, b) == \E i \in DOMAIN Own(a) : Own(a)[i] = b
HeadOf(a) == Own(a)[Len(Own(a))]

LiveInit == /\ ChainsInit(1, 0, 0)
            /\ link = [a \in Responsive \cup Silent |-> [c |-> a, sigs |-> FALSE]]
            /\ ann = [a \in Responsive \cup Silent |-> IF a \in Responsive THEN Len(Own(a)) ELSE 100]
            /\ ph = "idle" /\ sel = Nobody /\ via = Nobody /\ queue = <<>>  /\ broken = FALSE
            /\ prevLag = NoLag /\ fails = <<>> /\ age = 0 /\ wait = 0 /\ sent = <<>> /\ pend = <<>>

Arriving(m) == m.c \in Responsive

Work == /\ Loop /\ Watch(0)
        /\ pend' = pend \o SelectSeq(sent', Arriving)
SelectOne(a) == Select(a) /\ Watch(0) /\ pend' = pend \o SelectSeq(sent', Arriving)

\* The part of the chain after the newest id it recognises.
Following(a, ids) ==
    LET hits == {i \in DOMAIN Own(a) : \E j \in DOMAIN ids : ids[j] = Own(a)[i]}
        top  == CHOOSE i \in hits : \A j \in hits : j <= i
    IN IF hits = {} THEN <<>> ELSE SubSeq(Own(a), top + 1, IF Len(Own(a)) < top + Page THEN Len(Own(a)) ELSE top + Page)

Respond ==
    /\ Resting /\ pend # <<>>
    /\ LET m == Head(pend)
       IN CASE m.kind = "ids" -> /\ Answer(m.c, Following(m.c, m.ids))
                                 /\ pend' = Tail(pend) \o SelectSeq(sent', Arriving)
            [] m.kind = "block" -> \* put into the store by the distributor, then handed on
                 /\ InOwn(m.c, m.ids[1])
                 /\ LET x == X(m.c, m.ids[1]) IN PutBlock(x.b, x.p, x.bt, x.ts, x.gen, m.c)
                 /\ UNCHANGED lvars
                 /\ pend' = <<[c |-> m.c, kind |-> "handed", ids |-> m.ids]>> \o Tail(pend)
            [] OTHER -> Arrive(m.c, X(m.c, m.ids[1])) /\ pend' = Tail(pend)
    /\ Watch(0)

Clock == /\ pend = <<>> /\ InTime(1) /\ Pass(1) /\ Watch(1) /\ pend' = pend

LiveNext == Work \/ Respond \/ Clock
lv == <<vars, pend>>
View == <<[b \in DOMAIN blocks |-> 0], leash, ph, sel, [i \in DOMAIN queue |-> <<queue[i].id, queue[i].got # <<>>>>], broken, prevLag, fails, age, wait, pend>>

LiveSpec == /\ LiveInit /\ [][LiveNext]_lv
            /\ WF_lv(Respond) /\ WF_lv(Clock) /\ WF_lv(Work)
            /\ \A a \in Responsive \cup Silent : SF_lv(SelectOne(a))

Reconstructed == <>[](\A a \in Responsive : LeashOf(a) = HeadOf(a))
===============================================================================
