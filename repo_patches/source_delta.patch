From 61dc4a8e88c034d0e3be81e553387d7a67eecdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 01/26] fix: out of range access in search for the common
 ancestor of forks near genesis

---
 chains/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/storage.go b/chains/storage.go
index 50e3895..e4a4ffd 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -354,6 +354,9 @@ func (s *storage) lca(id1, id2 proto.BlockID) (proto.BlockID, error) {
 	// Finding the link closest to the genesis block which is not the common ancestor of farthest and other i.e.
 	// a link x such that x is not the common ancestor of farthest and other but x.Parents[0] is.
 	for i := len(farthest.Parents) - 1; i >= 0; i-- {
+		if i >= len(farthest.Parents) {
+			continue // After a step towards the genesis block the links may have fewer parents.
+		}
 		if farthest.Parents[i] != other.Parents[i] {
 			farthest, err = s.getLink(sn, farthest.Parents[i])
 			if err != nil {
-- 
2.43.0


From 905d66105e37fd98149a025bf0f0c7be9dda3997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 02/26] fix: panic on a request for forks while no peer is
 leashed

---
 chains/linkage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/linkage.go b/chains/linkage.go
index 102f90a..17d9a85 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -522,6 +522,9 @@ func (l *Linkage) forks(peers LookupPeers) ([]Fork, error) {
 		}
 		r = append(r, frk)
 	}
+	if len(r) == 0 {
+		return r, nil // No leashes, there is nothing to compare.
+	}
 	sort.Sort(byScoreAndPeersDesc(r))
 
 	longest := r[0]
-- 
2.43.0


From b14985eec658dac79f1fce0c8a6351096a326b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 03/26] fix: panic on a huge or negative count of requested
 ancestors

---
 chains/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chains/storage.go b/chains/storage.go
index e4a4ffd..f402441 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -244,7 +244,7 @@ func (s *storage) getAncestors(id proto.BlockID, count int) ([]proto.BlockID, er
 	if err != nil {
 		return nil, fmt.Errorf("failed to get ancestors: %w", err)
 	}
-	r := make([]proto.BlockID, 0, count)
+	r := make([]proto.BlockID, 0)
 	i := 0
 	for i < count {
 		l, glErr := s.getLink(sn, n)
@@ -276,7 +276,7 @@ func (s *storage) getBlocks(id proto.BlockID, count int) ([]Block, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to get blocks: %w", err)
 	}
-	r := make([]Block, 0, count)
+	r := make([]Block, 0)
 	i := 0
 	for i < count {
 		b, gbErr := s.getBlock(sn, n)
-- 
2.43.0


From 21451c35e1fdabc76a012831b7f6f068aba7e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 04/26] fix: panics on blocks with timestamp or base target out
 of the signed range

---
 chains/linkage.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chains/linkage.go b/chains/linkage.go
index 17d9a85..07a8462 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -23,6 +23,7 @@ const (
 var (
 	ErrParentNotFound = fmt.Errorf("parent not found")
 	ErrRefNotFound    = fmt.Errorf("reference block not found")
+	ErrInvalidBlock   = fmt.Errorf("invalid block")
 )
 
 type Leasher interface {
@@ -90,6 +91,10 @@ func (l *Linkage) PutBlock(block *proto.Block, addr netip.Addr) error {
 	if !hasParent {
 		return ErrParentNotFound
 	}
+	// Blocks come unchecked from the network, values out of the signed range can't be stored nor reported.
+	if block.Timestamp >= math.MaxInt64 || block.BaseTarget > math.MaxInt64 {
+		return ErrInvalidBlock
+	}
 	if insErr := l.st.putProtoBlock(block); insErr != nil {
 		return insErr
 	}
-- 
2.43.0


From 7ad6ddba2f2980e6f2a8d766c148b044e49a9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 05/26] fix: a hostile peer could register again or stay
 connected

---
 peers/registry.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index e7f0b39..fa2b9e3 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -82,11 +82,11 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 			_ = np.Close()
 			return fmt.Errorf("failed to register peer: %w", err)
 		}
-		if p.State == PeerHostile {
-			_ = np.Close()
-			return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
-		}
-		p = Peer{}
+		p = Peer{AddressPort: netip.AddrPortFrom(addr, 0)}
+	}
+	if p.State == PeerHostile {
+		_ = np.Close()
+		return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
 	}
 
 	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
@@ -94,6 +94,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		p.Version = np.Handshake().Version
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
 		_ = np.Close()
+		r.disconnect(addr)
 		return r.storage.putPeer(p)
 	}
 	if np.Handshake().AppName[len(np.Handshake().AppName)-1] != r.scheme {
@@ -101,6 +102,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		p.Version = np.Handshake().Version
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
 		_ = np.Close()
+		r.disconnect(addr)
 		return r.storage.putPeer(p)
 	}
 
@@ -121,6 +123,14 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	return r.storage.putPeer(p)
 }
 
+// disconnect closes the active connection with the given address, if there is one, and forgets it.
+func (r *Registry) disconnect(addr netip.Addr) {
+	if c, ok := r.connections[addr]; ok {
+		_ = c.Close()
+		delete(r.connections, addr)
+	}
+}
+
 func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
@@ -188,6 +198,7 @@ func (r *Registry) MarkAsHostile(addr net.Addr) error {
 	}
 
 	delete(r.pending, a)
+	r.disconnect(a)
 
 	p, err := r.storage.peer(a)
 	if err != nil {
-- 
2.43.0


From dc8bad90f9cbf3dffa4d4b2eea6592d353976b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 06/26] fix: panic on a handshake with an empty application
 name

---
 peers/registry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index fa2b9e3..456ec63 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -7,6 +7,7 @@ import (
 	"net"
 	"net/netip"
 	"sort"
+	"strings"
 	"sync"
 	"time"
 
@@ -97,7 +98,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		r.disconnect(addr)
 		return r.storage.putPeer(p)
 	}
-	if np.Handshake().AppName[len(np.Handshake().AppName)-1] != r.scheme {
+	if !strings.HasSuffix(np.Handshake().AppName, string([]byte{r.scheme})) {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
-- 
2.43.0


From 009b6b64861ac177311ced5753c7c892ec1c0775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 07/26] fix: a peer with an invalid name was listed as
 connected without a record or was not recorded as hostile

---
 peers/registry.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index 456ec63..a09a03d 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"go.uber.org/zap"
@@ -93,7 +94,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
-		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
+		p.Name = validName(fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName))
 		_ = np.Close()
 		r.disconnect(addr)
 		return r.storage.putPeer(p)
@@ -101,7 +102,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	if !strings.HasSuffix(np.Handshake().AppName, string([]byte{r.scheme})) {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
-		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
+		p.Name = validName(fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName))
 		_ = np.Close()
 		r.disconnect(addr)
 		return r.storage.putPeer(p)
@@ -113,15 +114,23 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	}
 	p.AddressPort = netip.AddrPortFrom(addr, port)
 	p.Nonce = handshake.NodeNonce
-	p.Name = handshake.NodeName
+	p.Name = validName(handshake.NodeName)
 	p.Version = handshake.Version
 	p.State = PeerConnected
 	p.NextAttempt = time.Now().Round(time.Second)
 	p.p = np
 
+	if putErr := r.storage.putPeer(p); putErr != nil {
+		_ = np.Close()
+		return fmt.Errorf("failed to register peer: %w", putErr)
+	}
 	r.connections[addr] = np
+	return nil
+}
 
-	return r.storage.putPeer(p)
+// validName replaces everything that is not UTF-8, such names can't be stored.
+func validName(name string) string {
+	return strings.ToValidUTF8(name, string(utf8.RuneError))
 }
 
 // disconnect closes the active connection with the given address, if there is one, and forgets it.
-- 
2.43.0


From c092f74d55b7acb9e7ef45149036a6e10b09e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 08/26] fix: refused connections to itself or with an invalid
 declared address were left open

---
 peers/registry.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peers/registry.go b/peers/registry.go
index a09a03d..eadfcdd 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -74,6 +74,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		return fmt.Errorf("failed to register peer: not an IPv4 address: '%s'", addr.String())
 	}
 	if addr.Compare(r.declared) == 0 {
+		_ = np.Close()
 		return errors.New("failed to register peer: connection to itself")
 	}
 
@@ -158,6 +159,7 @@ func checkPort(addr netip.Addr, np peer.Peer, handshake proto.Handshake) (uint16
 	if !handshake.DeclaredAddr.Empty() {
 		ha, pErr := netip.ParseAddrPort(handshake.DeclaredAddr.String())
 		if pErr != nil {
+			_ = np.Close()
 			return 0, fmt.Errorf("failed to register peer: invalid declared address: %w", pErr)
 		}
 		port = ha.Port()
-- 
2.43.0


From bf3448569fd3b495f60510777428b28c61d282a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 09/26] fix: older versions were never suggested if a newer one
 was configured twice

---
 peers/registry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index eadfcdd..948e5fb 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"net"
 	"net/netip"
+	"slices"
 	"sort"
 	"strings"
 	"sync"
@@ -393,7 +394,7 @@ func newVersions(vs []proto.Version) versions {
 	for i, v := range sorted {
 		sorted[i] = proto.NewVersion(v.Major(), v.Minor(), 0)
 	}
-	return versions(sorted)
+	return versions(slices.Compact(sorted)) // Versions may differ in patch only.
 }
 
 func (vs versions) bestVersion() proto.Version {
-- 
2.43.0


From 9f77979cbb0fc8e0b7a338baf88fc5aeb9000219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 10/26] fix: failure of one connection unregistered another
 active one with the same address

---
 distributor.go    | 2 +-
 peers/registry.go | 7 ++++++-
 respawn.go        | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/distributor.go b/distributor.go
index 2807b88..d0827f1 100644
--- a/distributor.go
+++ b/distributor.go
@@ -135,7 +135,7 @@ func (d *Distributor) handleInternalError(peer peer.Peer, ie *peer.InternalErr)
 	if clErr := peer.Close(); clErr != nil {
 		zap.S().Warnf("Failed to close peer '%s' connection: %v", ap.Addr().String(), clErr)
 	}
-	if urErr := d.registry.UnregisterPeer(ap.Addr()); urErr != nil {
+	if urErr := d.registry.UnregisterPeer(ap.Addr(), peer); urErr != nil {
 		zap.S().Warnf("Failed to unregister peer '%s': %v", ap.Addr().String(), urErr)
 	}
 }
diff --git a/peers/registry.go b/peers/registry.go
index 948e5fb..3ad256d 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -180,7 +180,9 @@ func checkPort(addr netip.Addr, np peer.Peer, handshake proto.Handshake) (uint16
 	return port, nil
 }
 
-func (r *Registry) UnregisterPeer(addr netip.Addr) error {
+// UnregisterPeer forgets the connection with the peer after it ended or, if np is nil, after an attempt to connect failed.
+// Another connection with the same address, which is active in the meantime, is left as is.
+func (r *Registry) UnregisterPeer(addr netip.Addr, np peer.Peer) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
@@ -193,6 +195,9 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 	}
 
 	delete(r.pending, addr)
+	if c, ok := r.connections[addr]; ok && c != np {
+		return nil
+	}
 	delete(r.connections, addr)
 
 	p.NextAttempt = time.Now().Add(delay).Round(time.Second)
diff --git a/respawn.go b/respawn.go
index 0a9aaef..982f81f 100644
--- a/respawn.go
+++ b/respawn.go
@@ -79,7 +79,7 @@ func (r *Respawn) establishConnections(addresses []netip.AddrPort) {
 			addr := proto.NewTCPAddrFromString(ap.String())
 			if cErr := r.cm.Connect(r.ctx, addr); cErr != nil {
 				zap.S().Debugf("[RSP] Failed to establish outbound connection: %v", cErr)
-				if urErr := r.reg.UnregisterPeer(ap.Addr()); urErr != nil {
+				if urErr := r.reg.UnregisterPeer(ap.Addr(), nil); urErr != nil {
 					zap.S().Warnf("Failed to unregister peer on connection failure: %v", urErr)
 					return
 				}
-- 
2.43.0


From 12aaa49866e3605156c4ce5a653da9ce34e6d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 11/26] fix: IPv6 address was taken for an IPv4 peer with the
 same leading bytes

---
 peers/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peers/storage.go b/peers/storage.go
index b653beb..a2b6c22 100644
--- a/peers/storage.go
+++ b/peers/storage.go
@@ -66,6 +66,9 @@ func (s *storage) close() error {
 }
 
 func (s *storage) peer(addr netip.Addr) (Peer, error) {
+	if !addr.Is4() { // Only IPv4 addresses are stored, a key of any other address may match some of them.
+		return Peer{}, leveldb.ErrNotFound
+	}
 	sn, err := s.db.GetSnapshot()
 	if err != nil {
 		return Peer{}, err
-- 
2.43.0


From a2448cfeb03d2f0ca38488effea3a85578d38138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 12/26] fix: report failure of history loading also when a
 received block can't be stored

---
 loading/peer_loader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index febfa25..9a4a584 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -241,7 +241,10 @@ func (pl *peerLoader) handleFailure(_ context.Context, _ ...any) error {
 	for _, it := range pl.queue.q {
 		if it.received != nil && it.received.BlockID() == it.requested {
 			if err := pl.hp.PutBlock(it.received, pl.peer.ID()); err != nil {
-				return err
+				// Failure has to be reported anyway, otherwise the loader waits for this peer forever.
+				zap.S().Warnf("Failed to apply block '%s' from peer '%s': %v",
+					it.received.BlockID(), pl.peer.ID(), err)
+				break
 			}
 		} else {
 			break // Stop on first not received block.
-- 
2.43.0


From 78f726303f6038c3f31d155b3e62e351e1b994bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 13/26] fix: drop blocks of the previous loading round on start
 of the next one

---
 loading/peer_loader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index 9a4a584..3d67b2c 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -150,6 +150,7 @@ func (pl *peerLoader) onTick(_ context.Context, args ...any) error {
 }
 
 func (pl *peerLoader) requestIDs(_ context.Context, _ ...any) error {
+	pl.queue = queue{} // Blocks of the previous round must not be applied again on failure of this one.
 	leash, err := pl.hp.Leash(pl.peer.ID())
 	if err != nil {
 		return fmt.Errorf("failed to request IDs from '%s': %w", pl.peer.ID(), err)
@@ -164,6 +165,7 @@ func (pl *peerLoader) requestIDs(_ context.Context, _ ...any) error {
 }
 
 func (pl *peerLoader) requestIDsFromLCA(_ context.Context, _ ...any) error {
+	pl.queue = queue{}
 	lca, err := pl.hp.LCB(pl.peer.ID())
 	if err != nil {
 		return fmt.Errorf("failed to request IDs from '%s': %w", pl.peer.ID(), err)
-- 
2.43.0


From 1da2923750a6941cbc48454f3a1dd11a01603640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 14/26] fix: forget the lag of the failed loading session

---
 loading/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loading/loader.go b/loading/loader.go
index a78a79c..3483bb7 100644
--- a/loading/loader.go
+++ b/loading/loader.go
@@ -153,7 +153,7 @@ func (l *Loader) Fail() {
 	if l.pl != nil && l.pl.sm.MustState() == stateDone {
 		zap.S().Debugf("[LDR] Peer '%s' failed to load history", l.pl.peer.ID())
 		l.fc.inc(l.pl.peer.ID())
-		l.pl = nil
+		l.resetLoadingPeer()
 	}
 }
 
-- 
2.43.0


From e08284ae609ed7f730d54b896c213b99b874fcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 15/26] fix: go on dialling after the available addresses could
 not be read

---
 respawn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/respawn.go b/respawn.go
index 982f81f..765035d 100644
--- a/respawn.go
+++ b/respawn.go
@@ -56,6 +56,7 @@ func (r *Respawn) handleEvents() error {
 		case <-r.ctx.Done():
 			return nil
 		case <-r.timer.C:
+			r.timer.Reset(respawnInterval)
 			addresses, err := r.reg.TakeAvailableAddresses()
 			if len(addresses) > 0 {
 				zap.S().Infof("Trying to establish connections to %d available addresses", len(addresses))
@@ -68,7 +69,6 @@ func (r *Respawn) handleEvents() error {
 				continue
 			}
 			r.establishConnections(addresses)
-			r.timer.Reset(respawnInterval)
 		}
 	}
 }
-- 
2.43.0


From 97b53b76e4fa3ef1e117adf1631601c6754dd788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 16/26] fix: decode only headers of received blocks

Malformed transactions of a received block ended the process: the protobuf
converter panics on a signed transaction of no kind, and the binary decoder
allocates as many transactions as the block claims to have.
---
 distributor.go | 69 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 7 deletions(-)

diff --git a/distributor.go b/distributor.go
index d0827f1..0cc685c 100644
--- a/distributor.go
+++ b/distributor.go
@@ -2,11 +2,13 @@ package main
 
 import (
 	"context"
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"math/big"
 	"net"
 	"net/netip"
+	"slices"
 	"time"
 
 	"github.com/rhansen/go-kairos/kairos"
@@ -14,6 +16,7 @@ import (
 	"go.uber.org/zap"
 	"golang.org/x/sync/errgroup"
 
+	pb "github.com/wavesplatform/gowaves/pkg/grpc/generated/waves"
 	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
 	"github.com/wavesplatform/gowaves/pkg/proto"
 
@@ -22,7 +25,10 @@ import (
 	"github.com/alexeykiselev/waves-fork-detector/peers"
 )
 
-const pingInterval = 1 * time.Minute
+const (
+	pingInterval = 1 * time.Minute
+	uint32Size   = 4
+)
 
 type Distributor struct {
 	ctx  context.Context
@@ -177,30 +183,79 @@ func (d *Distributor) handleScoreMessage(peer peer.Peer, score []byte) {
 }
 
 func (d *Distributor) handleBlockMessage(peer peer.Peer, bm *proto.BlockMessage) {
-	b := &proto.Block{}
-	if err := b.UnmarshalBinary(bm.BlockBytes, d.scheme); err != nil {
+	b, err := blockFromBinary(bm.BlockBytes, d.scheme)
+	if err != nil {
 		zap.S().Warnf("Failed to unmarshal block from peer '%s': %v", peer.RemoteAddr().String(), err)
 		return
 	}
 	zap.S().Infof("Block '%s' received from peer '%s'", b.BlockID().String(), peer.RemoteAddr().String())
-	if err := d.handleBlock(b, peer.RemoteAddr()); err != nil {
+	if err = d.handleBlock(b, peer.RemoteAddr()); err != nil {
 		zap.S().Warnf("Failed to handle block from peer '%s': %v", peer.RemoteAddr().String(), err)
 	}
 }
 
 func (d *Distributor) handleProtoBlockMessage(peer peer.Peer, bm *proto.PBBlockMessage) {
-	b := &proto.Block{}
-	if err := b.UnmarshalFromProtobuf(bm.PBBlockBytes); err != nil {
+	b, err := blockFromProtobuf(bm.PBBlockBytes)
+	if err != nil {
 		zap.S().Warnf("Failed to unmarshal protobuf block from peer '%s': %v",
 			peer.RemoteAddr().String(), err)
 		return
 	}
 	zap.S().Infof("Block '%s' received from peer '%s'", b.BlockID().String(), peer.RemoteAddr().String())
-	if err := d.handleBlock(b, peer.RemoteAddr()); err != nil {
+	if err = d.handleBlock(b, peer.RemoteAddr()); err != nil {
 		zap.S().Warnf("Failed to handle block from peer '%s': %v", peer.RemoteAddr().String(), err)
 	}
 }
 
+// blockFromProtobuf decodes the header of the block. Transactions are not needed here, and an attempt to decode those
+// that are malformed ends in panic.
+func blockFromProtobuf(data []byte) (*proto.Block, error) {
+	block := &pb.Block{}
+	if err := block.UnmarshalVT(data); err != nil {
+		return nil, err
+	}
+	converter := proto.ProtobufConverter{}
+	header, err := converter.BlockHeader(block)
+	if err != nil {
+		return nil, err
+	}
+	return &proto.Block{BlockHeader: header}, nil
+}
+
+// blockFromBinary decodes the header of the block. Transactions are cut out, they are not needed here and memory for
+// as many of them as the block claims to have may not be available.
+func blockFromBinary(data []byte, scheme proto.Scheme) (*proto.Block, error) {
+	const (
+		txsLengthOffset = 117
+		txsOffset       = txsLengthOffset + uint32Size
+	)
+	if len(data) < txsOffset {
+		return nil, errors.New("invalid data size")
+	}
+	countSize := 1
+	if proto.BlockVersion(data[0]) >= proto.NgBlockVersion {
+		countSize = uint32Size
+	}
+	txsLength := int(binary.BigEndian.Uint32(data[txsLengthOffset:]))
+	if txsLength < countSize || txsLength > len(data)-txsOffset {
+		return nil, errors.New("invalid size of transactions")
+	}
+	headerBytes := slices.Concat(data[:txsOffset+countSize], data[txsOffset+txsLength:])
+	if featuresOffset := txsOffset + countSize; countSize == uint32Size {
+		if len(headerBytes) < featuresOffset+uint32Size {
+			return nil, errors.New("invalid data size")
+		}
+		if cnt := int(binary.BigEndian.Uint32(headerBytes[featuresOffset:])); cnt > len(headerBytes)/2 {
+			return nil, errors.New("invalid number of features")
+		}
+	}
+	b := &proto.Block{}
+	if err := b.UnmarshalHeaderFromBinary(headerBytes, scheme); err != nil {
+		return nil, err
+	}
+	return b, nil
+}
+
 func (d *Distributor) handleBlock(block *proto.Block, addr proto.TCPAddr) error {
 	ap, err := netip.ParseAddrPort(addr.String())
 	if err != nil {
-- 
2.43.0


From aaa46c548630a2ee35d68dd21a9db487ed87996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 17/26] fix: ignore scores of unreasonable size

Peers may announce a score of up to 100 MB. Converting it to text takes
minutes, while all other messages wait, and it is stored in the registry.
---
 distributor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/distributor.go b/distributor.go
index 0cc685c..1cea66b 100644
--- a/distributor.go
+++ b/distributor.go
@@ -28,6 +28,7 @@ import (
 const (
 	pingInterval = 1 * time.Minute
 	uint32Size   = 4
+	maxScoreSize = 64 // limit of Waves nodes
 )
 
 type Distributor struct {
@@ -173,6 +174,10 @@ func (d *Distributor) handleScoreMessage(peer peer.Peer, score []byte) {
 		zap.S().Debugf("[DTR] Failed to parse peer address: %v", err)
 		return
 	}
+	if len(score) > maxScoreSize {
+		zap.S().Debugf("[DTR] Score of %d bytes received from %s is ignored", len(score), ap.Addr().String())
+		return
+	}
 	s := big.NewInt(0).SetBytes(score)
 	zap.S().Debugf("[DTR] New score %s recevied from %s", s.String(), ap.Addr().String())
 	err = d.registry.UpdatePeerScore(ap.Addr(), s)
-- 
2.43.0


From 90158184ac99144cd2f241b752e20ddcb940f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 18/26] fix: skip micro-block announcements without payload

Unmarshalling of such a message panics.
---
 connection_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connection_manager.go b/connection_manager.go
index fdca406..8eb03d0 100644
--- a/connection_manager.go
+++ b/connection_manager.go
@@ -115,6 +115,9 @@ func (h *ConnectionManager) Connect(ctx context.Context, addr proto.TCPAddr) err
 }
 
 func (h *ConnectionManager) skipFunc(header proto.Header) bool {
+	if header.ContentID == proto.ContentIDInvMicroblock && header.PayloadLength == 0 {
+		return true // The message without payload can't be unmarshaled.
+	}
 	if r, ok := h.discarded[header.ContentID]; ok {
 		return r
 	}
-- 
2.43.0


From ee8ab71f711111bacd48e257854c1020333aa149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 19/26] fix: close refused incoming connections

---
 connection_manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection_manager.go b/connection_manager.go
index 8eb03d0..a998325 100644
--- a/connection_manager.go
+++ b/connection_manager.go
@@ -72,10 +72,12 @@ func (h *ConnectionManager) Accept(ctx context.Context, conn net.Conn) error {
 
 	ap, err := netip.ParseAddrPort(conn.RemoteAddr().String())
 	if err != nil {
+		_ = conn.Close()
 		return fmt.Errorf("failed to handle incoming connection: %w", err)
 	}
 	ver, err := h.vp.SuggestVersion(ap.Addr())
 	if err != nil {
+		_ = conn.Close()
 		return err
 	}
 	params := incoming.PeerParams{
-- 
2.43.0


From ac2f024e79e56666df57cf5c2e125ef2f0110e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 20/26] fix: compare minor versions of peers without overflow

---
 peers/registry.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index 3ad256d..6261722 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -93,7 +93,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
 	}
 
-	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
+	if !compatible(np.Handshake().Version, p.Version) {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
 		p.Name = validName(fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName))
@@ -130,6 +130,12 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	return nil
 }
 
+// compatible tells if the major versions are the same and the minor ones differ by one at most.
+// Version.CmpMinor can't be used here, for it the difference of 2^31±1 is the same as of 1.
+func compatible(a, b proto.Version) bool {
+	return a.Major() == b.Major() && max(a.Minor(), b.Minor())-min(a.Minor(), b.Minor()) <= 1
+}
+
 // validName replaces everything that is not UTF-8, such names can't be stored.
 func validName(name string) string {
 	return strings.ToValidUTF8(name, string(utf8.RuneError))
-- 
2.43.0


From 900a86ff3ebad13e4bb2d5817b4e25917b82bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 21/26] fix: give up handing over to the loader on shutdown

---
 distributor.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/distributor.go b/distributor.go
index 1cea66b..e043673 100644
--- a/distributor.go
+++ b/distributor.go
@@ -270,7 +270,10 @@ func (d *Distributor) handleBlock(block *proto.Block, addr proto.TCPAddr) error
 		return fmt.Errorf("failed to append block: %w", err)
 	}
 	zap.S().Debugf("[DTR] Block '%s' from '%s' was appended", block.BlockID().String(), ap.Addr().String())
-	d.blockCh <- loading.BlockPackage{Peer: ap.Addr(), Block: block}
+	select {
+	case d.blockCh <- loading.BlockPackage{Peer: ap.Addr(), Block: block}:
+	case <-d.ctx.Done(): // There is no one to receive the block on shutdown.
+	}
 	return nil
 }
 
@@ -323,7 +326,7 @@ func (d *Distributor) handleSignaturesMessage(peer peer.Peer, signatures []crypt
 		ids[i] = proto.NewBlockIDFromSignature(s)
 	}
 	zap.S().Debugf("[DTR] Signatures received from '%s'", ap.Addr().String())
-	d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}
+	d.sendIDs(loading.IDsPackage{Peer: ap.Addr(), IDs: ids})
 }
 
 func (d *Distributor) handleBlockIDsMessage(peer peer.Peer, ids []proto.BlockID) {
@@ -338,7 +341,14 @@ func (d *Distributor) handleBlockIDsMessage(peer peer.Peer, ids []proto.BlockID)
 	}
 	zap.S().Debugf("[DTR] Block IDs [%s..%s] received from %s",
 		ids[0].ShortString(), ids[len(ids)-1].ShortString(), ap.Addr().String())
-	d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}
+	d.sendIDs(loading.IDsPackage{Peer: ap.Addr(), IDs: ids})
+}
+
+func (d *Distributor) sendIDs(ids loading.IDsPackage) {
+	select {
+	case d.idsCh <- ids:
+	case <-d.ctx.Done(): // There is no one to receive IDs on shutdown.
+	}
 }
 
 func (d *Distributor) handleMicroBlockInvMessage(peer peer.Peer, msg *proto.MicroBlockInvMessage) {
-- 
2.43.0


From 0c306bd0d48d340afa8d9f862ce94d5a781e689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 22/26] fix: shut the listener down also when it failed to
 listen or is just starting

---
 listener.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/listener.go b/listener.go
index 377ff37..c0d4b23 100644
--- a/listener.go
+++ b/listener.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"context"
+	"errors"
 	"net"
 
 	"go.uber.org/zap"
@@ -18,7 +19,6 @@ type Listener struct {
 	declared proto.TCPAddr
 
 	cm *ConnectionManager
-	nl net.Listener
 }
 
 func NewListener(bind, declared proto.TCPAddr, cm *ConnectionManager) Service {
@@ -49,10 +49,6 @@ func (l *Listener) Run(ctx context.Context) {
 }
 
 func (l *Listener) Shutdown() {
-	if err := l.nl.Close(); err != nil {
-		zap.S().Errorf("Failed to close listener on %s: %v", l.bind, err)
-		return
-	}
 	if err := l.wait(); err != nil {
 		zap.S().Warnf("Failed to shutdown Listener: %v", err)
 	}
@@ -66,15 +62,22 @@ func (l *Listener) run() error {
 	if err != nil {
 		return err
 	}
-	l.nl = nl
+	context.AfterFunc(l.ctx, func() {
+		if clErr := nl.Close(); clErr != nil {
+			zap.S().Errorf("Failed to close listener on %s: %v", l.bind, clErr)
+		}
+	})
 
 	for {
 		select {
 		case <-l.ctx.Done():
 			return nil
 		default:
-			conn, acErr := l.nl.Accept()
+			conn, acErr := nl.Accept()
 			if acErr != nil {
+				if errors.Is(acErr, net.ErrClosed) {
+					return nil
+				}
 				zap.S().Errorf("Failed to accept connection: %v", acErr)
 				continue
 			}
-- 
2.43.0


From 5e0548d67586139dfd21cb1b61c1614e7440974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:37 +0000
Subject: [PATCH 23/26] fix: no active forks were reported as all forks

---
 api/api.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/api/api.go b/api/api.go
index c6f42c5..eb10427 100644
--- a/api/api.go
+++ b/api/api.go
@@ -308,10 +308,13 @@ func (a *API) activeForks(w http.ResponseWriter, r *http.Request) {
 		}
 		ps[conn.ID()] = struct{}{}
 	}
-	forks, err := a.linkage.Forks(ps)
-	if err != nil {
-		http.Error(w, fmt.Sprintf("Failed to complete request: %v", err), http.StatusInternalServerError)
-		return
+	forks := make([]chains.Fork, 0)
+	if len(ps) > 0 { // An empty set of peers means all peers for Forks, but here it means that none of them is connected.
+		forks, err = a.linkage.Forks(ps)
+		if err != nil {
+			http.Error(w, fmt.Sprintf("Failed to complete request: %v", err), http.StatusInternalServerError)
+			return
+		}
 	}
 	err = json.NewEncoder(w).Encode(forks)
 	if err != nil {
-- 
2.43.0


From 108fc5848bde56398376dfec1ae8182a9ac3f813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 24/26] fix: fork of a peer given by an IPv6 address with a
 zone could not be found

---
 chains/linkage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chains/linkage.go b/chains/linkage.go
index 07a8462..db0a78c 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -374,7 +374,7 @@ func (l *Linkage) Fork(peer netip.Addr) (Fork, error) {
 			longest = k
 			peers = len(v)
 		}
-		if slices.Contains(v, peer) {
+		if slices.Contains(v, peer.WithZone("")) { // Zones are not a part of leashes.
 			fork = Fork{
 				Longest:         false,
 				HeadBlock:       b.ID,
-- 
2.43.0


From 5828d04b0a9d4b1d0441f81f7d1fb31493b90cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 25/26] fix: blocks with timestamps after the year 9999 made
 requests to API fail

---
 chains/linkage.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chains/linkage.go b/chains/linkage.go
index db0a78c..eba04d6 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -18,6 +18,9 @@ import (
 
 const (
 	longForkThreshold = 5
+	// maxTimestamp is the latest timestamp of blocks in milliseconds (9999-01-01T00:00:00Z): later ones, in some time zones,
+	// can't be represented in JSON.
+	maxTimestamp = 253370764800000
 )
 
 var (
@@ -91,8 +94,8 @@ func (l *Linkage) PutBlock(block *proto.Block, addr netip.Addr) error {
 	if !hasParent {
 		return ErrParentNotFound
 	}
-	// Blocks come unchecked from the network, values out of the signed range can't be stored nor reported.
-	if block.Timestamp >= math.MaxInt64 || block.BaseTarget > math.MaxInt64 {
+	// Blocks come unchecked from the network, values out of range can't be stored nor reported.
+	if block.Timestamp > maxTimestamp || block.BaseTarget > math.MaxInt64 {
 		return ErrInvalidBlock
 	}
 	if insErr := l.st.putProtoBlock(block); insErr != nil {
-- 
2.43.0


From 72c5f9488f4a15bb5920532973d3565b65bb3271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:13 +0000
Subject: [PATCH 26/26] fix: panic on IPv6 network or declared address in
 parameters

---
 parameters.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parameters.go b/parameters.go
index 0bb480c..3edcc6c 100644
--- a/parameters.go
+++ b/parameters.go
@@ -79,6 +79,10 @@ func newParameters() (*parameters, error) {
 	if err != nil {
 		return nil, fmt.Errorf("invalid parameters: %w", err)
 	}
+	da := parseAddress(*flagDeclaredAddress)
+	if !da.Empty() && da.IP.To4() == nil { // IPv6 address can't be presented to the network.
+		return nil, fmt.Errorf("invalid parameters: invalid declared address: not an IPv4 address: %s", da.String())
+	}
 	nm, err := checkName(*flagName)
 	if err != nil {
 		return nil, fmt.Errorf("invalid parameters: %w", err)
@@ -91,7 +95,7 @@ func newParameters() (*parameters, error) {
 		seedPeers:       sps,
 		apiBind:         aa,
 		netBind:         parseAddress(na),
-		declaredAddress: parseAddress(*flagDeclaredAddress),
+		declaredAddress: da,
 		name:            nm,
 		nonce:           rand2.Uint32(), //nolint:gosec // No need for crypto random here.
 		versions:        vss,
@@ -215,7 +219,5 @@ func parseAddress(addr string) proto.TCPAddr {
 	if err != nil {
 		return proto.TCPAddr{}
 	}
-	ip4 := ap.Addr().As4()
-	ip := net.IPv4(ip4[0], ip4[1], ip4[2], ip4[3])
-	return proto.NewTCPAddr(ip, int(ap.Port()))
+	return proto.NewTCPAddr(ap.Addr().AsSlice(), int(ap.Port()))
 }
-- 
2.43.0

