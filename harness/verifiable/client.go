package verifiable

// C23: what the tracking client returns, against every answer of a misbehaving server.

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"google.golang.org/protobuf/proto"
)

// clKnown says whether a head is that of history l.
func clKnown(l *rigLog, hd *pb.LogTreeHashResponse) bool {
	return hd != nil && hd.TreeSize >= 1 && int(hd.TreeSize) <= len(l.leaves) && bytes.Equal(hd.RootHash, l.root(int(hd.TreeSize)))
}

// clAgree says whether two heads belong to one history.
func clAgree(ls []*rigLog, a, b *pb.LogTreeHashResponse) bool {
	if a == nil || b == nil || a.TreeSize < 1 || b.TreeSize < 1 {
		return false
	}
	if a.TreeSize == b.TreeSize {
		return bytes.Equal(a.RootHash, b.RootHash)
	}
	for _, l := range ls {
		if clKnown(l, a) && clKnown(l, b) {
			return true
		}
	}
	return false
}

func clHead(h *vh, l *rigLog) *pb.LogTreeHashResponse {
	n := h.rng.Intn(len(l.leaves) + 1)
	if n == 0 {
		n = len(l.leaves)
	}
	hd := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: l.root(n)}
	switch h.rng.Intn(16) {
	case 0:
		hd.RootHash = vhash(h)
	case 1:
		return &pb.LogTreeHashResponse{}
	}
	return hd
}

func clSize(h *vh, n int) int64 {
	switch h.rng.Intn(4) {
	case 0:
		return 0
	case 1:
		return int64(n + 1)
	}
	return int64(1 + h.rng.Intn(n+1))
}

func clHeads(h *vh, f *fake, ws []*fkWorld) {
	ls := []*rigLog{ws[0].log, ws[1].log}
	w := ws[h.rng.Intn(2)]
	var prev *pb.LogTreeHashResponse
	if h.rng.Intn(5) > 0 {
		prev = clHead(h, w.log)
	}
	pc := proto.Clone(prev).(*pb.LogTreeHashResponse)
	lg := &Log{Log: w.log.ref, Service: f}
	judge := func(what string, r *pb.LogTreeHashResponse, err error, latest bool) {
		kv := []interface{}{"prev", prev, "returned", r, "calls", f.trace}
		if err != nil {
			if r != nil {
				h.fail("head tracking", what+" returns a head with an error", kv...)
			}
			return
		}
		if r == nil {
			h.fail("head tracking", what+" returns neither a head nor an error", kv...)
			return
		}
		if prev == nil {
			return
		}
		if !proto.Equal(prev, pc) {
			h.fail("head tracking", what+" changed the caller's head", kv...)
			return
		}
		if r != prev && !proto.Equal(r, prev) && !clAgree(ls, prev, r) {
			h.fail("head tracking", what+" returned a head that is not proved consistent with the earlier one", kv...)
		}
		if latest && r.TreeSize < prev.TreeSize {
			h.fail("head tracking", what+" went backwards", kv...)
		}
		if r != prev {
			h.nt()
		}
	}
	n := max(len(ls[0].leaves), len(ls[1].leaves))
	switch h.rng.Intn(4) {
	case 0:
		s := clSize(h, n)
		if prev != nil && h.rng.Intn(4) == 0 {
			s = prev.TreeSize
		}
		r, err := lg.VerifiedTreeHead(ctxB, prev, s)
		judge(fmt.Sprintf("VerifiedTreeHead(%d)", s), r, err, false)
	case 1:
		if h.rng.Intn(2) == 0 { // a server that lags behind
			f.ask = func(op string, i int, q proto.Message) {
				if op == "head" {
					q.(*pb.LogTreeHashRequest).TreeSize = int64(1 + h.rng.Intn(n))
				}
			}
		}
		r, err := lg.VerifiedLatestTreeHead(ctxB, prev)
		judge("VerifiedLatestTreeHead", r, err, true)
	case 2:
		l := ls[h.rng.Intn(2)]
		m := 1 + h.rng.Intn(len(l.leaves))
		i := h.rng.Intn(m)
		p := &pb.LogInclusionProofResponse{LeafIndex: int64(i), TreeSize: int64(m), AuditPath: rPath(int64(i), l.leaves[:m])}
		leaf := append([]byte{}, l.leaves[i]...)
		switch h.rng.Intn(5) {
		case 0:
			fkTamper(h, p)
		case 1:
			leaf = vhash(h)
		}
		r, err := lg.VerifySuppliedInclusionProof(ctxB, prev, p, leaf)
		judge("VerifySuppliedInclusionProof", r, err, false)
		if err == nil && r != nil {
			root, ok := rIncFold(p.LeafIndex, p.TreeSize, p.AuditPath, leaf)
			if p.LeafIndex < 0 || p.LeafIndex >= p.TreeSize || p.TreeSize != r.TreeSize || !ok || !bytes.Equal(root, r.RootHash) {
				h.fail("supplied proof", "VerifySuppliedInclusionProof accepted a proof that does not verify for the head it returned", "proof", p, "leaf", leaf, "returned", r)
			}
		}
	case 3:
		if prev == nil {
			prev = clHead(h, w.log)
		}
		l := ls[h.rng.Intn(2)]
		leaf := l.leaves[h.rng.Intn(len(l.leaves))]
		if h.rng.Intn(6) == 0 {
			leaf = vhash(h)
		}
		if h.rng.Intn(3) == 0 { // a proof of another leaf
			f.ask = func(op string, i int, q proto.Message) {
				if x, ok := q.(*pb.LogInclusionProofRequest); ok {
					x.MtlHash = l.leaves[h.rng.Intn(len(l.leaves))]
				}
			}
		}
		if err := lg.VerifyInclusion(ctxB, prev, leaf); err == nil {
			for _, l := range ls {
				if i := l.has(leaf); i >= 0 && int64(i) < prev.TreeSize && clKnown(l, prev) {
					h.nt()
					return
				}
			}
			h.fail("inclusion", "VerifyInclusion succeeded for a leaf that the head does not hold", "head", prev, "leaf", leaf, "calls", f.trace)
		}
	}
}

// clMapHead says whether a map head is that of a history at its size.
func clMapHead(w *fkWorld, m *pb.MapTreeHashResponse) bool {
	n := int(m.GetMutationLog().GetTreeSize())
	return clKnown(w.ml, m.GetMutationLog()) && bytes.Equal(m.RootHash, w.m.roots[n])
}

func clState(h *vh, w *fkWorld) *MapTreeState {
	n := 1 + h.rng.Intn(len(w.ml.leaves))
	s := &MapTreeState{
		MapTreeHead:         &pb.MapTreeHashResponse{RootHash: w.m.roots[n], MutationLog: &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: w.ml.root(n)}},
		TreeHeadLogTreeHead: &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: w.tl.root(n)},
	}
	if t := n + h.rng.Intn(len(w.tl.leaves)-n+1); h.rng.Intn(2) == 0 {
		s.TreeHeadLogTreeHead = &pb.LogTreeHashResponse{TreeSize: int64(t), RootHash: w.tl.root(t)}
	}
	return s
}

func clMaps(h *vh, f *fake, ws []*fkWorld) {
	w := ws[h.rng.Intn(2)]
	mls, tls := []*rigLog{ws[0].ml, ws[1].ml}, []*rigLog{ws[0].tl, ws[1].tl}
	vm := &Map{Map: w.m.ref, Service: f}
	var prev *MapTreeState
	if h.rng.Intn(5) > 0 {
		prev = clState(h, w)
	}
	n := max(len(mls[0].leaves), len(mls[1].leaves))
	if h.rng.Intn(3) == 0 { // a stale map head: the server lags behind, or answers another size
		f.ask = func(op string, i int, q proto.Message) {
			if x, ok := q.(*pb.MapTreeHashRequest); ok {
				x.TreeSize = int64(1 + h.rng.Intn(n))
			}
		}
	}
	judge := func(what string, r *MapTreeState, err error, latest bool) {
		kv := []interface{}{"prev", prev, "returned", r, "calls", f.trace}
		if err != nil {
			if r != nil {
				h.fail("map state", what+" returns a state with an error", kv...)
			}
			return
		}
		if r == prev {
			return
		}
		if r == nil {
			h.fail("map state", what+" lost the earlier state", kv...)
			return
		}
		if r.MapTreeHead == nil || r.MapTreeHead.MutationLog == nil || r.TreeHeadLogTreeHead == nil {
			h.fail("map state", what+" returned an incomplete state", kv...)
			return
		}
		ok := false
		for _, w := range ws {
			ok = ok || (clMapHead(w, r.MapTreeHead) && clKnown(w.tl, r.TreeHeadLogTreeHead) && r.MapTreeHead.MutationLog.TreeSize <= r.TreeHeadLogTreeHead.TreeSize)
		}
		if !ok {
			h.fail("map state", what+" returned a map head that is not in the tree head log whose head it returned", kv...)
		}
		if prev != nil {
			if !clAgree(mls, prev.MapTreeHead.MutationLog, r.MapTreeHead.MutationLog) {
				h.fail("map state", what+" returned a mutation log head that is not consistent with the earlier one", kv...)
			}
			if !clAgree(tls, prev.TreeHeadLogTreeHead, r.TreeHeadLogTreeHead) {
				h.fail("map state", what+" returned a tree head log head that is not consistent with the earlier one", kv...)
			}
			if latest && r.TreeSize() < prev.TreeSize() {
				h.fail("map state", what+" went backwards", kv...)
			}
			if r.TreeHeadLogTreeHead.TreeSize < prev.TreeHeadLogTreeHead.TreeSize {
				h.fail("map state", what+" returned a smaller tree head log head", kv...)
			}
		}
		h.nt()
	}
	switch h.rng.Intn(3) {
	case 0:
		s := clSize(h, n)
		r, err := vm.VerifiedMapState(ctxB, prev, s)
		judge(fmt.Sprintf("VerifiedMapState(%d)", s), r, err, false)
	case 1:
		r, err := vm.VerifiedLatestMapState(ctxB, prev)
		judge("VerifiedLatestMapState", r, err, true)
	case 2:
		if prev == nil {
			prev = clState(h, w)
		}
		c := w.m.hist[int(prev.TreeSize())]
		key := []byte("absent")
		ms := w.m.muts
		if len(ms) > 0 && h.rng.Intn(6) > 0 {
			key = ms[h.rng.Intn(len(ms))].Key
		}
		if h.rng.Intn(3) == 0 {
			f.ask = func(op string, i int, q proto.Message) {
				if x, ok := q.(*pb.MapGetValueRequest); ok {
					if h.rng.Intn(2) == 0 {
						x.Key = ms[h.rng.Intn(len(ms))].Key
					} else {
						x.TreeSize = int64(1 + h.rng.Intn(n))
					}
				}
			}
		}
		v, err := vm.VerifiedGet(ctxB, key, prev)
		if err != nil {
			if v != nil {
				h.fail("verified get", "VerifiedGet returns a value with an error", "key", key, "state", prev, "value", v)
			}
			return
		}
		if !bytes.Equal(v.GetLeafInput(), c[string(key)].GetLeafInput()) {
			h.fail("verified get", "VerifiedGet returned a value that the map does not hold", "key", key, "state", prev, "value", v, "held", c[string(key)], "calls", f.trace)
		}
		h.nt()
	}
}

func TestVerifClient(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	for i := 0; i < 4 || h.more(); i++ {
		if h.stop() {
			return
		}
		a, b := 1+h.rng.Intn(12), 1+h.rng.Intn(12)
		if i%3 == 0 {
			b = a
		}
		s := h.rng.Intn(min(a, b))
		ws := fkWorlds(h, a, b, s, nil)
		for k := 0; k < 400 && !h.stop(); k++ {
			f := &fake{w: ws}
			d := fkMode(h, f)
			h.do("client", fmt.Sprintf("sizes %d %d shared %d, server answers from %s (%d)", a, b, s, d, k), func() {
				if h.rng.Intn(2) == 0 {
					clHeads(h, f, ws)
				} else {
					clMaps(h, f, ws)
				}
			})
		}
	}
}
