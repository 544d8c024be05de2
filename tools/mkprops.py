import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

CL="chains/linkage.go"; CS="chains/storage.go"; CU="chains/utils.go"; CE="chains/storage_entities.go"
p("C01","Block tree grows correctly and recorded blocks never change",
 "A delivered block is recorded exactly when it is not yet known and its parent is known; it then has its parent's height plus one, its parent's score plus floor(2^64 / base target) (plus nothing for a zero base target), and its own parent, timestamp and generator address. A block whose parent is unknown is refused with the 'parent not found' error, one whose base target exceeds the signed 64-bit range or whose timestamp lies beyond the year 9998 with some error, and a refused block has no effect at all; delivering a known block again changes no block. Whatever happens later, a recorded block stays known and its recorded fields never change.",
 ["histories","inputs"],"every history of block and micro-block deliveries from any set of peers, in any order, with duplicates and orphans, for every base target and timestamp",
 "The tests insert one fixed chain or one fixed fork and look at a few blocks; duplicates, orphans, interleaved forks, extreme base targets and later re-reading of old blocks are not covered.",
 [CL,CS,CU,CE],[("PutBlock","%s: Linkage.PutBlock"%CL),("putProtoBlock","%s: storage.putProtoBlock"%CS),("score","%s: calculateCumulativeScore"%CU)],
 ["Linkage.PutBlock","Linkage.HasBlock","Linkage.Block"],[("blocks","block number -> height, score, parent, generator, timestamp","%s: blockPrefix keys"%CS)])
p("C02","Micro-blocks produce a sibling version of the block they extend",
 "A micro-block announcement whose resulting block is unknown and whose reference is a known block (other than genesis) records the resulting block with the reference's own parent, height, score, timestamp and generator, as another child of the reference's parent. An announcement with an unknown reference is refused with the 'reference block not found' error and has no effect; one whose resulting block is already known records nothing. Later blocks may build on the reference or on the new version alike, and both stay recorded.",
 ["histories","inputs"],"every history mixing blocks and micro-block announcements, including chains of micro-blocks, announcements for non-head blocks, and key blocks built on any version",
 "Existing tests put a single micro-block on a head; chains of micro-blocks, micro-blocks on inner blocks, on already superseded versions and across forks are not tested.",
 [CL,CS],[("PutMicroBlock","%s: Linkage.PutMicroBlock"%CL),("putMicroBlock","%s: storage.putMicroBlock"%CS)],["Linkage.PutMicroBlock","Linkage.Block","Linkage.LastIDs"])
p("C03","Heads are exactly the open chain ends, with stable numbers",
 "The reported heads are exactly the recorded blocks that nothing has been put on top of yet, neither a block nor a micro-block, each with its own number. When the block of a head is extended or superseded first, that head keeps its number and moves to the newcomer; a newcomer on any other block opens a new head with the next unused number, starting from head 1 on the genesis block. Active heads are exactly the heads some peer is currently positioned on.",
 ["histories"],"every history of block and micro-block deliveries and peer moves",
 "Tests check head lists for two hand-made forks only.",
 [CL,CS],[("putHead","%s: storage.putHead / putNewHead"%CS),("activeHeads","%s: Linkage.activeHeads"%CL)],["Linkage.Heads","Linkage.ActiveHeads"],[("heads","head number -> block, block -> head number","%s: headToBlockPrefix, blockToHeadPrefix"%CS)])
p("C04","Each peer is positioned on the block it delivered or was moved to last",
 "A peer's position is the block of its last successfully processed block delivery or micro-block announcement, known or new, or the block it was explicitly moved to, whichever came last; refused deliveries leave it, and no operation of one peer changes the position of another. The list of positions holds every positioned peer exactly once with that block. A peer never positioned is reported as having no position, at the genesis block with the genesis score, and otherwise its score is that of its block.",
 ["histories"],"every history of deliveries, refused deliveries and moves of any number of IPv4 and IPv6 peers",
 "Tests exercise at most two peers along one path and never interleave refused deliveries with positions of several peers.",
 [CL,CS,CU],[("updateLeash","%s: storage.updateLeash"%CS),("leashes","%s: storage.leashes"%CS),("Leash/LeashScore","%s"%CL)],["Linkage.Leash","Linkage.HasLeash","Linkage.LeashScore","Linkage.Leashes"],[("leash","peer address -> block id","%s: leashPrefix keys"%CS)])
p("C05","Last common block of a peer with the longest fork is right for any tree",
 "For every peer, the last common block is the highest block that is an ancestor of, or equal to, both the peer's block and the head of the longest fork, where the longest fork is the one with the greatest score among the blocks peers are positioned on and, for equal scores, with the most peers. For a peer without a position it is the genesis block. The answer is given for every tree shape and depth, including forks right after genesis, forks of unequal height and micro-block versions.",
 ["histories","inputs"],"every block tree, chain height, divergence point and assignment of peers to blocks",
 "The skip-link search is tested on a few hand-made trees of at most about ten blocks; the set of (height, height, divergence) triples and the exponents of the skip links are unbounded.",
 [CL,CS],[("lca","%s: storage.lca, fastBackwardFarthest"%CS),("skip links","%s: storage.putNewLinkForBlock"%CS),("LCB","%s: Linkage.LCB"%CL)],["Linkage.LCB","Linkage.Forks"],[("links","block number -> ancestors at distances 1,2,4,...","%s: chainPrefix keys"%CS)])
p("C06","Ancestor lists are the true chain, newest first",
 "The list of the last N block ids ending in a known block consists of that block, its parent, the parent's parent and so on, without gaps or repetitions, of length min(N, height of the block), for every block and every N >= 0. For an unknown block an error is returned.",
 ["histories","inputs"],"every block tree, every block in it and every count from zero to beyond the height",
 "Tests take one list of one length from one chain.",
 [CS,CL],[("getAncestors","%s: storage.getAncestors"%CS)],["Linkage.LastIDs"])
p("C07","Forks report partitions the peers and measures every fork correctly",
 "The forks report has exactly one entry per block that a peer (of the requested subset, or any peer if the subset is empty) is positioned on, with exactly those peers, and that block's id, time, generator, height and score. Entries are ordered by descending score and, for equal scores, descending number of peers; exactly the first is marked longest, and each entry's last common block and length are those relative to it. With no such peer the report is empty, not an error.",
 ["histories","inputs"],"every tree, every assignment of peers to blocks and every requested subset, the empty one and unknown peers included",
 "Tests look at one or two fixed forks; subsets, ties, no peers at all and deep divergence are not tested.",
 [CL,"chains/entities.go"],[("forks","%s: Linkage.forks"%CL),("ordering","chains/entities.go: byScoreAndPeersDesc")],["Linkage.Forks"])
p("C08","Single-peer fork view and fork statistics agree with the forks report",
 "The fork of a positioned peer is the forks report's entry that contains this peer: same head, peers, score, height, time, generator, last common block, length and longest mark (up to ties for the longest fork). The statistics count every fork once: as long when it has more than five blocks after its last common block with the longest fork, as short otherwise, the longest fork itself being short.",
 ["histories"],"every tree and assignment of peers to blocks",
 "The views are computed by separate code that no test compares.",
 [CL],[("Fork","%s: Linkage.Fork"%CL),("Stats","%s: Linkage.Stats"%CL)],["Linkage.Fork","Linkage.Stats"])
p("C09","Generator statistics count the true producers of a fork's last blocks",
 "The generators report for a known block and a count N >= 0 covers exactly min(N, height) blocks: the block and its nearest ancestors. Every generator that produced at least one of them appears exactly once with the number it produced, ordered by descending number. Any huge N is served like the full height.",
 ["histories","inputs"],"every tree, block and count",
 "Tests cover one chain with one count; huge counts and boundary at genesis are not covered.",
 [CL,CS],[("getBlocks","%s: storage.getBlocks"%CS),("ForkGenerators","%s: Linkage.ForkGenerators"%CL)],["Linkage.ForkGenerators"])
p("C10","The chain store survives crashes at any point as a clean prefix",
 "After a restart, clean or after the process died at any point, the store holds exactly the effects of some prefix of the completed operations, at most followed by the recording part of the one in progress: blocks, heads, positions, ancestors and forks all belong to one state that the history passed through. No block is ever half recorded, no operation completed before a clean close is lost, initialisation never duplicates or resets the genesis block, and work continues from the recovered state as from any other.",
 ["crash_points","histories"],"every operation history and every point (every byte of the write-ahead log) at which the process can die, followed by further operations",
 "No test reopens the store, let alone after a cut at an arbitrary point.",
 [CS,CL],[("atomic batch","%s: putProtoBlock / putMicroBlock one leveldb batch each"%CS),("initialize","%s: storage.initialize"%CS)],["NewLinkage on an existing folder"])
p("C11","Concurrent use of the chain store is linearizable",
 "Calls made concurrently by the message distributor, the history loader and API requests take effect one at a time in some order consistent with real time: every reply is one the sequential store would give. Compound views (forks, single fork, last common block, generator counts, statistics) each reflect a single moment, never blocks and positions of different moments, and no call blocks for ever.",
 ["schedules","histories"],"every interleaving of concurrent callers",
 "All tests are single-threaded.",
 [CL],[("RWMutex","%s: Linkage.mu around every public method"%CL)],["all Linkage methods"])

PR="peers/registry.go"; PS="peers/storage.go"; PV="peers/version_provider.go"
p("P01","Dial candidates are exactly the eligible known addresses, each handed out once",
 "Taking the available addresses yields exactly the known addresses that are not hostile, have a port, are not our own, are not connected, are not already handed out, and whose next-attempt time has passed. Each address yielded is marked as handed out and is not yielded again until that attempt ends with the peer being registered, refused, unregistered or marked hostile.",
 ["histories","schedules"],"every history of discovery, dialling, registration, failure and time",
 "Tests never call this function.",
 [PR],[("TakeAvailableAddresses","%s: Registry.TakeAvailableAddresses"%PR)],["Registry.TakeAvailableAddresses"],[("pending","addresses handed out","%s: Registry.pending"%PR)])
p("P02","A hostile peer stays hostile and is never connected, dialled or negotiated with",
 "A peer that speaks an incompatible protocol version (differing in major version or by two or more minor versions from the one negotiated), or belongs to another network, or was explicitly marked hostile, is disconnected and recorded as hostile. From then on, and across restarts, no handshake, discovery, score or version request turns it into a non-hostile peer: its connections are closed and refused, it is never listed as connected or friendly, never offered for dialling, and gets no protocol version. A compatible peer of the right network is never recorded as hostile.",
 ["histories"],"every history of registry calls after the hostile mark, including reconnects with a good handshake and restarts",
 "The tests cover ordering and storage round-trips only; re-registration of a hostile peer is untested.",
 [PR,PV],[("RegisterPeer hostile checks","%s: Registry.RegisterPeer"%PR),("MarkAsHostile","%s: Registry.MarkAsHostile"%PR)],["Registry.RegisterPeer","Registry.Connections","Registry.FriendlyPeers","Registry.SuggestVersion"])
p("P03","Connections list is exactly the registered, not yet unregistered peers",
 "A peer is listed as connected exactly from a successful registration until it is unregistered, with the name, version, nonce and port of its latest handshake: the declared port if the declared address is its own IPv4 address, otherwise zero. A registration that is refused (not IPv4, our own address, loopback or non-IPv4 declared address, hostile) closes that connection and leaves no connected entry for it. A broadcast goes to each connected peer exactly once and to nobody else.",
 ["histories","inputs"],"every history of connects, disconnects and refused handshakes, with any handshake contents",
 "Tests never register a peer.",
 [PR],[("RegisterPeer","%s: Registry.RegisterPeer / checkPort"%PR),("UnregisterPeer","%s: Registry.UnregisterPeer"%PR)],["Registry.Connections","Registry.Broadcast","peer.Close"],[("connections","address -> live connection","%s: Registry.connections"%PR)])
p("P04","The address book only grows with new, usable IPv4 addresses",
 "Adding discovered addresses records exactly those that are IPv4, not loopback, not our own and not yet known, each once, as unknown peers with the given port, and returns how many were added; everything already recorded for known addresses is untouched. No known peer ever disappears from the list of all peers.",
 ["histories","inputs"],"every list of addresses and every registry state",
 "The only test adds one short list to an empty registry.",
 [PR],[("AppendAddresses","%s: Registry.AppendAddresses"%PR)],["Registry.AppendAddresses","Registry.Peers"])
p("P05","Version negotiation cycles through the configured versions",
 "For an address seen for the first time the newest configured protocol version is suggested; each further suggestion to a peer that never completed a handshake is the next older configured version, wrapping around to the newest; a peer that did complete one is always offered its own version; a hostile one is refused. A suggestion to a peer that never completed a handshake postpones its next dial attempt by ten minutes and survives restarts.",
 ["histories","configurations"],"every configured version list and every history of negotiations and registrations",
 "Only a version ordering helper is tested.",
 [PV,PR],[("SuggestVersion","%s: Registry.SuggestVersion"%PV),("nextVersion","%s: versions.nextVersion"%PR)],["Registry.SuggestVersion"])
p("P06","Peer records are kept exactly and survive crashes and restarts",
 "The record of every peer (port, nonce, name, version, state, next attempt, score) is that of the last completed operation on it: registering keeps the score, score updates, unregistering and hostile marks change nothing else than their own fields, and operations on one peer never change another. After a restart, clean or by a crash at any point, every record reads as it was after some prefix of the operations, with no connection and nothing handed out.",
 ["histories","crash_points"],"every history of registry operations over any peers, every crash point, and restarts in between",
 "One round-trip of a single peer is tested, without reopening.",
 [PS,PR],[("putPeer","%s: storage.putPeer"%PS),("peer","%s: storage.peer / peers"%PS)],["Registry.Peer","Registry.Peers"])
p("P07","Dialling loop retries every eligible address and never stops",
 "Every ten seconds the dialling loop attempts one outbound connection to each address that is eligible at that moment and to no other; an address whose attempt failed is not attempted again for ten minutes and is attempted again after that. The loop goes on until shutdown, and then ends.",
 ["histories","schedules","fault_sequences"],"every history of discovered addresses, failing and pending attempts, over unbounded time",
 "There is no test of the dialling loop; its behaviour spans hours of real time.",
 ["respawn.go",PR,"connection_manager.go"],[("handleEvents","respawn.go: Respawn.handleEvents"),("establishConnections","respawn.go: Respawn.establishConnections")],["attempts seen by the version provider"])

LL="loading/loader.go"; LP="loading/peer_loader.go"; LQ="loading/queue.go"
p("L01","History loading never gets stuck",
 "Whatever the selected peer sends or fails to send, each loading round ends: with the requested blocks applied, or with a failure about half a minute after the last request went unanswered. Then, as long as there is a connected peer whose announced score exceeds the score of its position, a new round is started with one of these within a few seconds; a failure to store a block ends the round like a timeout. No message makes the loader stop or crash.",
 ["schedules","histories","fault_sequences"],"every sequence of messages and silences from any peers and every storage refusal",
 "Tests drive one state machine through three short happy scripts with mocks; time never passes in them.",
 [LL,LP],[("timeout","%s: peerLoader.onTick"%LP),("Fail/OK","%s: Loader.OK, Loader.Fail"%LL),("sync timer","%s: Loader.loop"%LL)],["messages sent to peers over virtual time"])
p("L02","Received blocks are applied in order and only what arrived contiguously",
 "When all blocks requested in a round have arrived, in any order and with duplicates or foreign blocks in between, exactly they are applied in the requested order and the peer is positioned on the last. When the round times out, exactly the longest prefix of the requested blocks that has arrived is applied and the rest dropped, and nothing when no list of blocks was received in that round. Blocks delivered in an earlier round are never applied again by a later one.",
 ["histories","schedules"],"every order, duplication, omission and timing of block deliveries in every sequence of rounds",
 "The tests deliver one full batch in order.",
 [LP,LQ],[("queue","%s: queue.put / ready"%LQ),("appendBlock","%s: peerLoader.appendBlock / handleFailure"%LP)],["Linkage state after each round"])
p("L03","Only the peer being loaded from can influence loading",
 "Block lists and blocks from any other peer, and empty block lists, neither advance, reset nor end the current round, trigger no request and change no stored data through the loader. While a round is in progress no other peer is asked for history.",
 ["histories","schedules"],"every interleaving of messages from other peers with a running round",
 "Tests involve a single peer.",
 [LL],[("peer filter","%s: Loader.handleIDs / handleBlock"%LL)],["messages sent to peers"])
p("L04","History requests name exactly the peer's own chain and the missing blocks",
 "A round starts by sending the selected peer the last (at most 100) ids of the chain ending in its current position, newest first, as ids for protocol 1.2 and newer and as signatures for older ones; after ten failed rounds with a peer the next one starts from its last common block with the longest fork instead. On the answer the peer's position advances along the leading ids that are already known, and all ids from the first unknown one on are requested, once each, in order; if all are known the round is complete.",
 ["histories","inputs"],"every stored tree, position, answer list (known, unknown and mixed) and failure count",
 "Tests use mocks that accept fixed lists of two or three ids.",
 [LP,"peers/peer.go"],[("requestIDs","%s: peerLoader.requestIDs / requestIDsFromLCA"%LP),("requestBlocks","%s: peerLoader.requestBlocks"%LP),("wire form","peers/peer.go: Peer.RequestBlockIDs")],["messages sent to peers"])
p("L05","Only lagging connected peers are selected, and loading continues while it helps",
 "A loading session is started only with a connected peer whose last announced score is known and greater than the score of its position. After a completed round the same peer is asked again at once if it is still lagging and its lag has changed since the previous completed round of the same loading session, otherwise the session ends and the next selection is made from all lagging peers. The measure of progress starts afresh with every session.",
 ["histories"],"every set of connected peers, announced scores and positions, and every sequence of successful and failed sessions",
 "The selection and continuation logic has no test.",
 [LL],[("sync","%s: Loader.sync"%LL),("isLagging","%s: Loader.OK / isLagging"%LL)],["messages sent to peers"])
p("L06","Every responsive peer's fork is eventually reconstructed",
 "If connected peers answer history requests truthfully within the timeout, announce their scores, and stop changing, then eventually (selection is random) every such peer is positioned on the head of its own chain, whatever forks they are on, in whatever order they connected and however many other peers stay silent or answer with nothing.",
 ["schedules","histories"],"every set of peer chains and every mixture of responsive and silent peers",
 "It is an end-to-end liveness property over minutes of time and several components.",
 [LL,LP,"distributor.go"],[("loader loop","%s: Loader.loop"%LL),("distributor","distributor.go: Distributor.handleMessage")],["Linkage.Leashes over virtual time"])

D="distributor.go"
p("D01","Every peer message takes effect exactly as its kind prescribes",
 "A block is put into the store under the sender's address and passed on to the loader also when its parent is unknown; a micro-block announcement is put into the store only; an announced score becomes the sender's score; announced addresses are added to the address book; block lists reach the loader under the sender's address in the order sent; and a request for peers is answered to the sender alone with exactly the friendly peers. All other messages have no effect, a new connection registers the peer, an error closes and unregisters it, and every minute each connected peer is asked for peers exactly once.",
 ["histories","inputs"],"every sequence of messages of every kind from every peer",
 "There is no test of message handling.",
 [D,"connection_manager.go"],[("handleMessage","%s: Distributor.handleMessage"%D),("handleInfoMessage","%s: Distributor.handleInfoMessage"%D),("message filter","connection_manager.go: skipFunc")],["stores, loader channels and replies"])
p("D02","No message or handshake from the network can crash or poison the detector",
 "Whatever a peer sends in a handshake or message (empty or odd application names, invalid text, extreme versions, scores, timestamps and base targets, empty lists, truncated or garbage payloads, unknown message types) the detector goes on running and serving every other peer and query. What is not storable (a score longer than the 64 bytes the protocol allows included) is refused without effect on the stores, and after any such input all queries, including those after a restart, work as before.",
 ["inputs","histories"],"every byte content of every message and handshake, in every state",
 "No test sends malformed or extreme input.",
 [D,CL,CS,CU,PR],[("unmarshal checks","%s: handleBlockMessage and others"%D),("limits","%s: calculateScore; %s: safeTimestamp"%(CU,CL))],["liveness of the distributor and all queries afterwards"])
p("D03","Shutdown always terminates",
 "After termination is requested, the dialling loop, loader, message distributor and API all finish in bounded time whatever messages are in flight between them and whatever round is in progress, and none of them sends on or waits for a component that has already finished. A component also finishes if nothing is left to consume what it produces.",
 ["schedules","histories"],"every state of the components and every interleaving of cancellation with message handling",
 "No test starts these components together.",
 [D,LL,"respawn.go","forkdetector.go","listener.go"],[("channel hand-off","%s: idsCh and blockCh sends"%D),("order","forkdetector.go: run")],["Shutdown returning"])
p("D04","Peers are seen through the wire as the protocol says",
 "An incoming connection is answered, and a connection to a peer is opened, with the network name, node name, nonce, declared address and the negotiated protocol version. After the handshake the block, micro-block, score, address and block-list messages of an incoming connection reach the stores while all other kinds are dropped without disturbing the connection or the framing of later messages. When the connection ends, the peer is no longer listed as connected. A hostile address, or one no version can be suggested for, is refused: the connection is closed without any handshake sent.",
 ["histories","inputs"],"every sequence of framed messages, including skipped kinds, on incoming connections",
 "There is no test with a connection.",
 ["connection_manager.go",D],[("Accept","connection_manager.go: ConnectionManager.Accept"),("skipFunc","connection_manager.go: ConnectionManager.skipFunc")],["bytes written to the connection; stores"])
A="api/api.go"
p("A01","The HTTP API is a faithful view of the stores",
 "Every API answer equals what the stores hold at that moment: peers, friendly peers, connections, active heads, positions grouped by block and ordered by score and peers, status counters, forks, and one peer's fork; active forks cover exactly the currently connected peers (those requested, if any are given), so with none of them connected the answer is an empty list. Fork generators default to the fork's own blocks, or the last 1000 for the longest fork. An unparsable peer address or count is answered with 400, a peer without position with 404, and neither state of the stores nor any parameter leads to a 5xx answer.",
 ["histories","inputs"],"every store and registry state, the empty one included, and every request parameter",
 "The API has no tests.",
 [A,"api/entities.go",CL],[("handlers","%s: API.routes"%A)],["HTTP status and body"])
p("N01","The running detector discovers the network and reports its forks",
 "Started with nothing but seed addresses, the program as a whole discovers the network: it connects to every node of its network that is reachable through seeds, answers of connected nodes and incoming connections, keeps those connections while the node stays, and comes to place every such node that serves its chain on that chain's last block, following growth, micro-blocks and switches of branches. The HTTP answers then describe exactly that: all, friendly and connected peers with the identities they presented, forks, heads, generators and status. It presents itself as configured, dials only addresses it was told of, tells only of friendly peers, asks only for blocks that were listed to it, requests from blocks it has in the way of the negotiated version, and takes up where it was after a crash or restart; asked to terminate, it does. Nodes that are silent, of another network or of an unsupported version do not keep it from that.",
 ["histories","liveness"],"every topology of the network, behaviour of its nodes, growth of their chains, and stop of the program",
 "No test starts the program; discovery, synchronisation, storage and the API are only ever put together in production.",
 ["forkdetector.go","parameters.go",D,CL],[("run","forkdetector.go: run"),("handleEvents","respawn.go: Respawn.handleEvents"),("handleMessage","distributor.go: Distributor.handleMessage"),("NewListener","listener.go: NewListener")],["sockets of the simulated nodes; HTTP answers"])
p("N02","Parameters are adopted or refused; instances leave each other alone",
 "Started with any command line, the program either adopts all of it or refuses to run with a message and a non-zero status, never with a panic, and a refused command line leaves nothing behind in the database folder. Adopted, it answers at the given API address, knows the peers it brings along for its blockchain and exactly those of the given ones it can use (IPv4, not local, not itself) besides those kept in the folder from earlier runs, listens at the network address if and only if it has an address to declare, presents the configured name, network, declared address and versions, and accepts callers of its network with versions compatible with the newest configured. Another instance is refused a database folder or an API address that is in use, and the instance that uses it goes on undisturbed; once stopped or killed, folder and address are free again and nothing of the book is lost.",
 ["inputs","histories"],"every combination of parameters and every history of starts and stops of instances",
 "No test parses parameters or starts the program, let alone two of them.",
 ["parameters.go","forkdetector.go","listener.go"],[("newParameters","parameters.go: newParameters"),("run","forkdetector.go: run"),("NewListener","listener.go: NewListener")],["exit status and output","files","HTTP answers","handshakes"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
