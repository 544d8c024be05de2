------------------------------ MODULE Loader_MC -------------------------------
(* Bounded instance of Loader with arbitrary peers, and generator of the       *)
(* histories replayed on the real loader. One unit of time is 11 seconds.      *)
EXTENDS Loader, Json

CONSTANTS Peers, Lists, Emit, MaxOps, Relink

VARIABLE hist
mcvars == <<vars, hist>>

MCAdd(x, y) == x + y
MCLess(x, y) == x < y
MCDiff(x, y) == x - y
MCScore(bt) == bt
MCAcceptable(bt, ts) == bt # 9
MCNoBlock == -1

\* 0-1-2 is one chain, 3 forks off genesis, 8 is unacceptable, 7 has no parent.
Par(b) == IF b \in {1, 3} THEN 0 ELSE IF b \in {2, 8} THEN 1 ELSE 6
X(b) == [b |-> b, p |-> Par(b), bt |-> IF b = 8 THEN 9 ELSE 1, ts |-> b, gen |-> 0]
Bodies == {1, 2, 3, 7, 8}
MCLists == {<<>>, <<0, 1>>, <<1, 2>>, <<3>>, <<0>>, <<1, 8>>, <<7>>}

MCInit == /\ ChainsInit(1, 0, 0) /\ LoaderInit /\ hist = <<>>

\* What cannot be told from behaviour is hidden: heads, the last message.
View == <<[b \in DOMAIN blocks |-> 0], leash, link, ann, ph, sel, [i \in DOMAIN queue |-> <<queue[i].id, queue[i].got # <<>>>>], broken, prevLag, fails, age, wait>>

Do(op) == hist' = Append(hist, op)
Env == Resting /\ Len(hist) < MaxOps

MCConnect == \E a \in Peers : /\ Env /\ (Relink \/ hist = <<>>) /\ a \notin DOMAIN link
                              /\ link' = (a :> [c |-> a, sigs |-> FALSE]) @@ link
                              /\ UNCHANGED <<cvars, loopvars, ann, age>> /\ sent' = <<>>
                              /\ Do([op |-> "connect", a |-> a]) /\ Watch(0)
MCDisconnect == \E a \in DOMAIN link : /\ Env /\ Relink
                              /\ link' = [x \in DOMAIN link \ {a} |-> link[x]]
                              /\ UNCHANGED <<cvars, loopvars, ann, age>> /\ sent' = <<>>
                              /\ Do([op |-> "disconnect", a |-> a]) /\ Watch(0)
MCScoreMsg == \E a \in Peers, s \in {2, 3} : /\ Env /\ (a \in DOMAIN ann => ann[a] # s) /\ a \in DOMAIN link
                              /\ ann' = (a :> s) @@ ann
                              /\ UNCHANGED <<cvars, loopvars, link, age>> /\ sent' = <<>>
                              /\ Do([op |-> "score", a |-> a, s |-> s]) /\ Watch(0)
MCIds == \E a \in DOMAIN link, l \in Lists : /\ Env /\ ph = "ids"
                              /\ Answer(a, l)
                              /\ Do([op |-> "ids", a |-> a, l |-> l]) /\ Watch(0)
\* The distributor puts a block into the store and hands it on.
MCPut == \E a \in DOMAIN link, b \in Bodies : /\ Env
                              /\ PutBlock(b, X(b).p, X(b).bt, X(b).ts, X(b).gen, a)
                              /\ UNCHANGED lvars
                              /\ Do([op |-> "put", a |-> a, b |-> b])
MCBlk == \E a \in DOMAIN link, b \in Bodies : /\ Env /\ ph = "blocks"
                              /\ Arrive(a, X(b))
                              /\ Do([op |-> "blk", a |-> a, b |-> b]) /\ Watch(0)
MCPass == /\ Env /\ ENABLED Pass(1) /\ InTime(1) /\ Pass(1) /\ Watch(1) /\ Do([op |-> "sleep", ph |-> ph])
MCLoop == Loop /\ Watch(0) /\ hist' = hist

MCNext == MCConnect \/ MCDisconnect \/ MCScoreMsg \/ MCIds \/ MCPut \/ MCBlk \/ MCPass \/ MCLoop
MCSpec == MCInit /\ [][MCNext]_mcvars

EmitTransition == Emit = "transitions" => (hist' # hist => PrintT("OPS " \o ToJson(hist')))
EmitState == Emit = "states" /\ Len(hist) = MaxOps /\ Resting => PrintT("OPS " \o ToJson(hist))
MCInv == LoaderOK /\ TreeOK /\ LeashOK
===============================================================================
