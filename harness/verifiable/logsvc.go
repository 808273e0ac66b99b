package verifiable

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"google.golang.org/protobuf/proto"
)

// lgData is varied entry data: short and empty inputs, shared prefixes, with and without extra data.
func lgData(h *vh, i int) *pb.LeafData {
	d := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("e%d", i))}
	switch h.rng.Intn(6) {
	case 0:
		d.LeafInput = nil
	case 1:
		d.LeafInput = append([]byte{0}, d.LeafInput...)
	case 2:
		d.LeafInput = bytes.Repeat([]byte{1}, 1+i%65)
	}
	switch h.rng.Intn(3) {
	case 0:
		d.ExtraData = []byte(fmt.Sprintf(`{"n":%d}`, i))
		d.Format = pb.DataFormat_JSON
	case 1:
		d.ExtraData = []byte{0, 255, byte(i)}
	}
	return d
}

// lgBuild makes a log of n entries through the service, with repeats on the way.
func lgBuild(h *vh, r *rig, name string, n int) *rigLog {
	l := &rigLog{ref: rigLogRef(name, pb.LogType_STRUCT_TYPE_LOG)}
	for i := 0; len(l.leaves) < n; i++ {
		d := lgData(h, i)
		if len(l.data) > 0 && h.rng.Intn(5) == 0 {
			d = proto.Clone(l.data[h.rng.Intn(len(l.data))]).(*pb.LeafData)
		}
		lgAdd(h, r, l, d)
	}
	return l
}

func lgAdd(h *vh, r *rig, l *rigLog, d *pb.LeafData) {
	resp, err := r.svc.LogAddEntry(ctxB, &pb.LogAddEntryRequest{Log: l.ref, Value: proto.Clone(d).(*pb.LeafData)})
	if err != nil {
		h.fail("add", "an add failed: "+err.Error(), "size", len(l.leaves), "leaf_input", d.LeafInput)
		panic("add failed")
	}
	if !bytes.Equal(resp.LeafHash, rLeaf(d.LeafInput)) {
		h.fail("add", "the leaf hash returned by an add is not the entry's", "leaf_input", d.LeafInput)
	}
	l.add(d)
}

// lgAll gives the logs to look at: plain ones and the two of a map.
func lgAll(h *vh, n int) (*rig, []*rigLog) {
	r := newRig()
	ls := []*rigLog{lgBuild(h, r, "log", n)}
	if h.deep || n <= 20 {
		mm, tl := lgMap(h, r, "m", n)
		ls = append(ls, mm, tl)
	}
	return r, ls
}

// lgMap makes a map of n mutations and gives its two logs.
func lgMap(h *vh, r *rig, name string, n int) (*rigLog, *rigLog) {
	m := newRigMap(rigMapRef(name))
	ml := &rigLog{ref: rigLogRef(name, pb.LogType_STRUCT_TYPE_MUTATION_LOG)}
	tl := &rigLog{ref: rigLogRef(name, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG)}
	for i := 0; i < n; i++ {
		mu := &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprintf("k%d", h.rng.Intn(1+n/2))), Value: &pb.LeafData{LeafInput: []byte(fmt.Sprintf("v%d", i))}}
		if h.rng.Intn(4) == 0 {
			mu = &pb.MapMutation{Action: "delete", Key: mu.Key}
		}
		lgMutate(h, r, m, ml, tl, mu)
	}
	return ml, tl
}

func lgMutate(h *vh, r *rig, m *rigMap, ml, tl *rigLog, mu *pb.MapMutation) {
	nq := len(r.mut.got)
	resp, err := r.svc.MapSetValue(ctxB, &pb.MapSetValueRequest{Map: m.ref, Mutation: proto.Clone(mu).(*pb.MapMutation)})
	if err != nil {
		h.fail("set", "a map mutation failed: "+err.Error(), "mutation", mu)
		panic("set failed")
	}
	m.apply(mu)
	if len(r.mut.got) != nq+1 || r.mut.got[nq].LogAddEntry == nil {
		h.fail("set", "a map mutation was not queued once")
		panic("not queued")
	}
	v := r.mut.got[nq].LogAddEntry.Value
	if !bytes.Equal(resp.LeafHash, rLeaf(v.GetLeafInput())) {
		h.fail("set", "the leaf hash returned is not that of the queued mutation")
	}
	ml.add(v)
	hd, err := CreateJSONLeafDataFromProto(&pb.MapTreeHashResponse{RootHash: m.roots[len(m.roots)-1], MutationLog: &pb.LogTreeHashResponse{RootHash: ml.root(len(ml.leaves)), TreeSize: int64(len(ml.leaves))}})
	if err != nil {
		panic(err)
	}
	tl.add(hd)
}

// lgSizes are the log sizes examined: all small ones, then around powers of two, then random.
func lgSizes(h *vh, f func(n int)) {
	for n := 0; n <= 33 && !h.stop(); n++ {
		f(n)
	}
	for _, n := range []int{63, 64, 65, 127, 128, 129} {
		if !h.stop() {
			f(n)
		}
	}
	for h.more() {
		f(34 + h.rng.Intn(230))
	}
}

func lgPick(h *vh, n int) []int64 {
	if n <= 20 {
		var r []int64
		for i := 0; i <= n; i++ {
			r = append(r, int64(i))
		}
		return r
	}
	m := map[int64]bool{0: true, 1: true, int64(n): true, int64(n - 1): true, int64(n / 2): true}
	for k := 0; k < 6; k++ {
		m[int64(h.rng.Intn(n+1))] = true
	}
	for p := int64(2); p <= int64(n); p *= 2 {
		m[p] = true
	}
	var r []int64
	for k := range m {
		r = append(r, k)
	}
	return r
}

var lgOdd = []int64{-1, math.MinInt64, -2, math.MaxInt64, math.MaxInt64 - 1, 1 << 62, 1 << 32, -1 << 32}

func TestVerifServedInclusion(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	lgSizes(h, func(n int) {
		h.do("served inclusion proofs", n, func() {
			r, ls := lgAll(h, n)
			for _, l := range ls {
				N := int64(len(l.leaves))
				for _, size := range lgPick(h, int(N)) {
					M := size
					if size == 0 {
						M = N
					}
					var idx []int64
					if M > 0 {
						idx = lgPick(h, int(M)-1)
					}
					for _, i := range idx {
						for _, by := range []bool{false, true} {
							req := &pb.LogInclusionProofRequest{Log: l.ref, TreeSize: size, LeafIndex: i}
							if by {
								req.LeafIndex = int64(h.rng.Intn(3)) * 7
								req.MtlHash = l.leaves[i]
							}
							p, err := r.svc.LogInclusionProof(ctxB, req)
							if err != nil {
								h.fail("inclusion", "no proof for an entry of the log: "+err.Error(), "log", l.ref.LogType, "size", N, "tree_size", size, "index", i, "by_hash", by)
								return
							}
							if h.rng.Intn(8) == 0 && !rigFaults(h, r, "inclusion", req, func() (proto.Message, error) { return r.svc.LogInclusionProof(ctxB, req) }) {
								return
							}
							if p.TreeSize != M || p.LeafIndex != i || !rigPathEq(p.AuditPath, rPath(i, l.leaves[:M])) {
								h.fail("inclusion", "the proof is not the RFC 6962 audit path asked for", "log", l.ref.LogType, "size", N, "tree_size", size, "index", i, "by_hash", by, "got_size", p.TreeSize, "got_index", p.LeafIndex, "got_path_len", len(p.AuditPath))
								return
							}
							hd, err := r.svc.LogTreeHash(ctxB, &pb.LogTreeHashRequest{Log: l.ref, TreeSize: size})
							if err != nil || VerifyLogInclusionProof(p, l.leaves[i], hd) != nil {
								h.fail("inclusion", "the proof served does not verify against the log's own head", "log", l.ref.LogType, "size", N, "tree_size", size, "index", i)
								return
							}
							h.nt()
						}
					}
				}
				refuse := func(what string, size, i int64, mtl []byte) {
					p, err := r.svc.LogInclusionProof(ctxB, &pb.LogInclusionProofRequest{Log: l.ref, TreeSize: size, LeafIndex: i, MtlHash: mtl})
					if err == nil || p != nil {
						h.fail("inclusion refused", what, "log", l.ref.LogType, "size", N, "tree_size", size, "index", i, "hash", mtl)
					}
				}
				for _, s := range append([]int64{N + 1, N + 2, 2*N + 1}, lgOdd...) {
					if s > N || s < 0 {
						refuse("a proof for a tree size out of range", s, 0, nil)
						if N > 0 {
							refuse("a proof for a tree size out of range", s, 0, l.leaves[0])
						}
					}
				}
				for _, size := range lgPick(h, int(N)) {
					M := size
					if M == 0 {
						M = N
					}
					for _, i := range append([]int64{M, M + 1, N + 1}, lgOdd...) {
						if i < 0 || i >= M {
							refuse("a proof for an index out of range", size, i, nil)
						}
					}
					if M < N {
						refuse("a proof for an entry beyond the tree size", size, 0, l.leaves[M])
						refuse("a proof for an entry beyond the tree size", size, 0, l.leaves[N-1])
					}
				}
				for _, x := range [][]byte{vhash(h), rLeaf([]byte("nope")), {0}, bytes.Repeat([]byte{0}, 32)} {
					refuse("a proof for a hash that is not in the log", 0, 0, x)
					if N > 0 {
						refuse("a proof for a hash that is not in the log", N, 0, x)
						refuse("a proof for a hash that is not in the log", 1, 0, l.leaves[0][:31])
					}
				}
			}
		})
	})
}

func TestVerifServedConsistency(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	lgSizes(h, func(n int) {
		h.do("served consistency proofs", n, func() {
			r, ls := lgAll(h, n)
			for _, l := range ls {
				N := int64(len(l.leaves))
				for _, b := range lgPick(h, int(N)) {
					B := b
					if b == 0 {
						B = N
					}
					for _, a := range append(lgPick(h, int(N)), N+1, -1, math.MinInt64, math.MaxInt64) {
						p, err := r.svc.LogConsistencyProof(ctxB, &pb.LogConsistencyProofRequest{Log: l.ref, FromSize: a, TreeSize: b})
						if h.rng.Intn(8) == 0 {
							q := &pb.LogConsistencyProofRequest{Log: l.ref, FromSize: a, TreeSize: b}
							if !rigFaults(h, r, "consistency", q, func() (proto.Message, error) { return r.svc.LogConsistencyProof(ctxB, q) }) {
								return
							}
						}
						if !(0 < a && a < B) {
							if err == nil || p != nil {
								h.fail("consistency refused", "a consistency proof between sizes that have none", "log", l.ref.LogType, "size", N, "from", a, "to", b)
								return
							}
							continue
						}
						if err != nil {
							h.fail("consistency", "no proof between two sizes of the log: "+err.Error(), "log", l.ref.LogType, "size", N, "from", a, "to", b)
							return
						}
						if p.FromSize != a || p.TreeSize != B || !rigPathEq(p.AuditPath, rSub(a, l.leaves[:B], true)) {
							h.fail("consistency", "the proof is not the RFC 6962 proof asked for", "log", l.ref.LogType, "size", N, "from", a, "to", b, "got_from", p.FromSize, "got_to", p.TreeSize)
							return
						}
						ha, e1 := r.svc.LogTreeHash(ctxB, &pb.LogTreeHashRequest{Log: l.ref, TreeSize: a})
						hb, e2 := r.svc.LogTreeHash(ctxB, &pb.LogTreeHashRequest{Log: l.ref, TreeSize: b})
						if e1 != nil || e2 != nil || VerifyLogConsistencyProof(p, ha, hb) != nil {
							h.fail("consistency", "the proof served does not verify between the log's own heads", "log", l.ref.LogType, "size", N, "from", a, "to", b)
							return
						}
						h.nt()
					}
				}
				for _, b := range append([]int64{N + 1, N + 2}, lgOdd...) {
					for _, a := range []int64{0, 1, 2, N, N - 1, b - 1, b} {
						if b > N || b < 0 {
							if p, err := r.svc.LogConsistencyProof(ctxB, &pb.LogConsistencyProofRequest{Log: l.ref, FromSize: a, TreeSize: b}); err == nil || p != nil {
								h.fail("consistency refused", "a consistency proof to a size the log does not have", "log", l.ref.LogType, "size", N, "from", a, "to", b)
								return
							}
						}
					}
				}
			}
		})
	})
}

func lgHead(h *vh, r *rig, l *rigLog, size int64, kase string) bool {
	N := int64(len(l.leaves))
	M := size
	if size == 0 {
		M = N
	}
	p, err := r.svc.LogTreeHash(ctxB, &pb.LogTreeHashRequest{Log: l.ref, TreeSize: size})
	if size < 0 || size > N {
		if err == nil || p != nil {
			h.fail(kase, "a head for a size the log does not have", "log", l.ref.LogType, "size", N, "tree_size", size)
			return false
		}
		return true
	}
	if err != nil {
		h.fail(kase, "no head for a size of the log: "+err.Error(), "log", l.ref.LogType, "size", N, "tree_size", size)
		return false
	}
	if h.rng.Intn(8) == 0 {
		q := &pb.LogTreeHashRequest{Log: l.ref, TreeSize: size}
		if !rigFaults(h, r, kase, q, func() (proto.Message, error) { return r.svc.LogTreeHash(ctxB, q) }) {
			return false
		}
	}
	if p.TreeSize != M || !bytes.Equal(p.RootHash, l.root(int(M))) {
		h.fail(kase, "the head is not that of the entries in order", "log", l.ref.LogType, "size", N, "tree_size", size, "got_size", p.TreeSize)
		return false
	}
	return true
}

func lgFetch(h *vh, r *rig, l *rigLog, a, b int64, kase string) bool {
	N := int64(len(l.leaves))
	B := b
	if b == 0 {
		B = N
	}
	p, err := r.svc.LogFetchEntries(ctxB, &pb.LogFetchEntriesRequest{Log: l.ref, First: a, Last: b})
	if a < 0 || B <= a || B > N || b < 0 {
		if err == nil || p != nil {
			h.fail(kase, "entries for an interval the log does not have", "log", l.ref.LogType, "size", N, "first", a, "last", b)
			return false
		}
		return true
	}
	if err != nil {
		h.fail(kase, "no entries for an interval of the log: "+err.Error(), "log", l.ref.LogType, "size", N, "first", a, "last", b)
		return false
	}
	if h.rng.Intn(8) == 0 {
		q := &pb.LogFetchEntriesRequest{Log: l.ref, First: a, Last: b}
		if !rigFaults(h, r, kase, q, func() (proto.Message, error) { return r.svc.LogFetchEntries(ctxB, q) }) {
			return false
		}
	}
	if int64(len(p.Values)) != B-a {
		h.fail(kase, "the wrong number of entries", "log", l.ref.LogType, "size", N, "first", a, "last", b, "got", len(p.Values))
		return false
	}
	for i, v := range p.Values {
		if !rigSameData(v, l.data[a+int64(i)]) {
			h.fail(kase, "an entry is not the data added at its index", "log", l.ref.LogType, "size", N, "first", a, "last", b, "index", a+int64(i))
			return false
		}
	}
	return true
}

func TestVerifReadBack(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	lgSizes(h, func(n int) {
		h.do("heads and entries read back", n, func() {
			r, ls := lgAll(h, n)
			for _, l := range ls {
				N := int64(len(l.leaves))
				for _, m := range append(append(lgPick(h, int(N)), N+1, 2*N+1), lgOdd...) {
					if !lgHead(h, r, l, m, "heads read back") {
						return
					}
				}
				ps := append(append(lgPick(h, int(N)), N+1, -1), math.MinInt64, math.MaxInt64)
				for _, a := range ps {
					for _, b := range ps {
						if !lgFetch(h, r, l, a, b, "entries read back") {
							return
						}
					}
				}
				h.nt()
			}
		})
	})
}

func TestVerifAppendOnly(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	check := func(r *rig, l *rigLog, kase string) bool {
		for _, m := range lgPick(h, len(l.leaves)) {
			if !lgHead(h, r, l, m, kase) {
				return false
			}
		}
		return len(l.leaves) == 0 || lgFetch(h, r, l, 0, 0, kase)
	}
	lgSizes(h, func(n int) {
		h.do("appends", n, func() {
			r := newRig()
			l := lgBuild(h, r, "log", n)
			if !check(r, l, "appends") {
				return
			}
			for k := 0; k < 4; k++ {
				// an entry already there changes nothing, even with other extra data
				if n > 0 {
					before := r.st.snapshot()
					d := proto.Clone(l.data[h.rng.Intn(n)]).(*pb.LeafData)
					if k%2 == 1 {
						d.ExtraData = []byte("other")
					}
					lgAdd(h, r, l, d)
					for ns, m := range before {
						for key, v := range m {
							if !bytes.Equal(r.st.data[ns][key], v) {
								h.fail("duplicate", "adding an entry already there altered what was stored", "size", n, "key", []byte(key))
								return
							}
						}
					}
					if !check(r, l, "duplicate") {
						return
					}
				}
				// one new entry, interrupted at any point and applied again, on storage that keeps partial writes
				d := lgData(h, 1000+k)
				d.LeafInput = append(d.LeafInput, vhash(h)...)
				before := r.st.snapshot()
				r.st.keep = true
				for cut := 1; ; cut++ {
					at, o := r.st.nset+cut, "set"
					if k%2 == 1 {
						at, o = r.st.nget+cut, "get"
					}
					r.st.fault = func(op string, i int) bool { return op == o && i >= at }
					_, err := r.svc.LogAddEntry(ctxB, &pb.LogAddEntryRequest{Log: l.ref, Value: proto.Clone(d).(*pb.LeafData)})
					r.st.fault = nil
					if err == nil {
						break
					}
					if cut > 60 {
						h.fail("interrupted", "an interrupted add never completes", "size", n)
						return
					}
					for ns, m := range before {
						for key, v := range m {
							if !bytes.Equal(r.st.data[ns][key], v) {
								h.fail("interrupted", "an interrupted add altered what was stored", "size", n, "cut", cut, "key", []byte(key))
								return
							}
						}
					}
					if !check(r, l, "interrupted") {
						return
					}
				}
				l.add(d)
				n = len(l.leaves)
				if !check(r, l, "applied again after an interruption") {
					return
				}
				// every record of the log is what a fresh log of the same entries has
				f := newRig()
				for _, e := range l.data {
					if _, err := f.svc.LogAddEntry(ctxB, &pb.LogAddEntryRequest{Log: l.ref, Value: proto.Clone(e).(*pb.LeafData)}); err != nil {
						h.fail("interrupted", "an add failed: "+err.Error(), "size", n)
						return
					}
				}
				for ns, m := range f.st.data {
					for key, v := range m {
						if !bytes.Equal(r.st.data[ns][key], v) {
							h.fail("applied again", "applying again after an interruption gives other records than applying once", "size", n, "key", []byte(key))
							return
						}
					}
				}
				h.nt()
			}
		})
	})
}
