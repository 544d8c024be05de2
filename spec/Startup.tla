-------------------------------- MODULE Startup --------------------------------
(* Starting the program: which parameters it adopts, which it refuses, and what *)
(* runs of it do to each other and to what they keep on disk (N02).             *)
(* A launch is described by one class per parameter.                            *)
EXTENDS Integers, FiniteSets, Sequences, TLC

VARIABLES
    run,    \* instance -> its launch, for those that run
    data    \* folder -> addresses its book has got through parameters

stvars == <<run, data>>

(* ---- classes of parameters ---- *)

Folders == {"f1", "f2"}
Good == [db |-> Folders,
         type |-> {"mainnet", "testnet", "stagenet", "TestNet"},
         peers |-> {"", "one", "two", "blanks", "v6", "loop", "self"},
         api |-> {"a1", "a2", "anywhere"},
         net |-> {"n1", "n2", "anywhere", "v6", "mapped"},
         declared |-> {"", "own", "mapped"},
         name |-> {"plain", "spaces", "unicode", "longest", "widest"},
         versions |-> {"one", "two", "three", "twice", "short"},
         log |-> {"", "DEBUG", "ERROR", "error"},
         more |-> {"", "words"}]
Wrong == [db |-> {"", "missing", "file"},
          type |-> {"", "custom", "other"},
          peers |-> {"host", "noport", "bigport", "semicolon"},
          api |-> {"", "host", "noport", "bigport"},
          net |-> {"", "host", "noport", "bigport"},
          declared |-> {"v6"},
          name |-> {"", "toolong", "wide"},
          versions |-> {"", "blank", "words", "four", "negative"},
          log |-> {"other"},
          more |-> {"flag"}]
(* Whether it may be taken for "none" is left open. *)
Vague == [declared |-> {"host", "noport", "bigport"}]
Params == DOMAIN Good

Bad(c) == {p \in Params : c[p] \in Wrong[p]}
Open(c) == c.declared \in Vague.declared

(* It listens for connections if it has got something to declare. *)
Listens(c) == c.declared \in {"own", "mapped"}
Ports(c) == CASE c.net \in {"n1", "mapped"} -> {"n1"} [] c.net = "n2" -> {"n2"} [] OTHER -> {"n1", "n2"}

(* Addresses given as peers that belong into the book. *)
Seeds(c) == CASE c.peers = "one" -> {"s1"} [] c.peers \in {"two", "blanks"} -> {"s1", "s2"} [] c.peers = "v6" -> {"s1"}
              [] c.peers = "loop" -> {"s2"} [] c.peers = "self" -> IF Listens(c) THEN {} ELSE {"self"} [] OTHER -> {}
AppName(c) == CASE c.type = "mainnet" -> "wavesW" [] c.type \in {"testnet", "TestNet"} -> "wavesT" [] c.type = "stagenet" -> "wavesS"
Versions(c) == CASE c.versions = "one" -> {<<1, 5, 0>>} [] c.versions = "two" -> {<<1, 5, 0>>, <<1, 4, 0>>}
                 [] c.versions = "three" -> {<<1, 2, 0>>, <<1, 3, 0>>, <<1, 1, 7>>} [] c.versions = "twice" -> {<<1, 5, 0>>}
                 [] c.versions = "short" -> {<<1, 5, 0>>}
Newest(c) == CHOOSE v \in Versions(c) : \A w \in Versions(c) : w[2] < v[2] \/ w = v
Compatible(v, w) == v[1] = w[1] /\ v[2] - w[2] \in -1..1

(* What cannot be shared. *)
Api(c) == IF c.api = "anywhere" THEN {"a1", "a2"} ELSE {c.api}
Taken(c) == \/ \E i \in DOMAIN run : run[i].db = c.db
            \/ c.apibusy \/ \E i \in DOMAIN run : Api(run[i]) \cap Api(c) # {}

StartupInit == run = <<>> /\ data = <<>>

Book(f) == IF f \in DOMAIN data THEN data[f] ELSE {}
Adopt(i, c) == /\ i \notin DOMAIN run
               /\ Bad(c) = {} /\ ~Taken(c)
               /\ run' = (i :> c) @@ run
               /\ data' = (c.db :> (Book(c.db) \cup Seeds(c))) @@ data
(* Nobody else notices; refused parameters leave no traces either. *)
Refuse(c) == /\ Bad(c) # {} \/ Open(c) \/ Taken(c)
             /\ UNCHANGED run
             /\ \/ UNCHANGED data
                \/ /\ Bad(c) = {} /\ ~\E i \in DOMAIN run : run[i].db = c.db
                   /\ data' = (c.db :> (Book(c.db) \cup Seeds(c))) @@ data
Stop(i) == i \in DOMAIN run /\ run' = [j \in DOMAIN run \ {i} |-> run[j]] /\ UNCHANGED data

(* Whether it can listen depends on others, too. *)
NetSure(i) == ~run[i].netbusy /\ run[i].net # "v6" /\ ~\E j \in DOMAIN run \ {i} : Listens(run[j]) /\ Ports(run[i]) \cap Ports(run[j]) # {}

Exclusive == \A i, j \in DOMAIN run : i # j => run[i].db # run[j].db /\ Api(run[i]) \cap Api(run[j]) = {}
(* What presents itself to a node that calls, and whom it accepts. *)
Accepts(c, app, ver) == app = AppName(c) /\ Compatible(ver, Newest(c))

OnlyGood == \A i \in DOMAIN run : Bad(run[i]) = {}
Kept == [][\A f \in DOMAIN data : data[f] \subseteq data'[f]]_data
===============================================================================
