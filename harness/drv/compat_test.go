package main

import (
	"net/netip"

	"github.com/wavesplatform/gowaves/pkg/p2p/peer"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// unregister ends connection p (nil: an attempt that made none) with addr.
func unregister(r *peers.Registry, addr netip.Addr, p *fakePeer) error {
	if p == nil {
		return r.UnregisterPeer(addr, nil)
	}
	return r.UnregisterPeer(addr, peer.Peer(p))
}
