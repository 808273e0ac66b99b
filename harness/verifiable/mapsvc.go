package verifiable

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"golang.org/x/net/context"
	"google.golang.org/protobuf/proto"
)

// mpNear finds keys whose paths share many leading bits with one another.
func mpKeys(h *vh, n int) [][]byte {
	var r [][]byte
	base := rigBits([]byte("k0"))
	want := h.rng.Intn(13)
	for i := 0; len(r) < n && i < 40000; i++ {
		k := []byte(fmt.Sprintf("k%d", i))
		if h.rng.Intn(3) == 0 || want < 3 {
			r = append(r, k)
			continue
		}
		if rigBits(k)[:want] == base[:want] {
			r = append(r, k)
		}
	}
	if h.rng.Intn(4) == 0 {
		r = append(r, []byte{})
	}
	return r
}

func mpValue(h *vh, i int) *pb.LeafData {
	v := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("v%d", i))}
	switch h.rng.Intn(8) {
	case 0:
		v.LeafInput = nil // the empty value
	case 1:
		v.LeafInput = []byte{0}
	case 2:
		v.ExtraData = []byte(fmt.Sprintf("x%d", i))
	case 3:
		v.ExtraData = []byte(`{"a":"b"}`)
		v.Format = pb.DataFormat_JSON
	}
	return v
}

// mpMutation is a random mutation of the current contents.
func mpMutation(h *vh, m *rigMap, keys [][]byte, i int) *pb.MapMutation {
	k := keys[h.rng.Intn(len(keys))]
	cur := m.hist[len(m.hist)-1]
	mu := &pb.MapMutation{Key: k, Value: mpValue(h, i)}
	switch h.rng.Intn(10) {
	case 0, 1, 2, 3:
		mu.Action = "set"
		if v, ok := cur[string(k)]; ok && h.rng.Intn(4) == 0 {
			mu.Value = proto.Clone(v).(*pb.LeafData) // set to what it is
		}
	case 4, 5, 6:
		mu.Action = "delete"
		if h.rng.Intn(2) == 0 {
			mu.Value = nil
		}
		mu.PreviousLeafHash = vhash(h)
	default:
		mu.Action = "update"
		mu.PreviousLeafHash = m.leafOf(cur, k)
		switch h.rng.Intn(5) {
		case 0:
			mu.PreviousLeafHash = vhash(h)
		case 1:
			mu.PreviousLeafHash = nil
		case 2:
			mu.PreviousLeafHash = rLeaf(nil)
		case 3:
			mu.PreviousLeafHash = mu.PreviousLeafHash[:31]
		}
	}
	return mu
}

// mpData gives what the store holds for a leaf input: extra data of equal leaf inputs is shared, the last stored wins.
func mpLast(m *rigMap) map[string]bool {
	seen := map[string]string{}
	shared := map[string]bool{}
	for _, mu := range m.muts {
		if mu.Value != nil {
			s := string(mu.Value.ExtraData) + "|" + fmt.Sprint(mu.Value.Format)
			k := string(mu.Value.LeafInput)
			if p, ok := seen[k]; ok && p != s {
				shared[k] = true
			}
			seen[k] = s
		}
	}
	return shared
}

func mpSizes(h *vh, n int) []int64 {
	r := []int64{0, int64(n)}
	for i := 1; i < n && len(r) < 7; i += 1 + n/5 {
		r = append(r, int64(i))
	}
	return r
}

func mpBuild(h *vh, r *rig, name string, n int) (m *rigMap, ml, tl *rigLog, keys [][]byte) {
	m = newRigMap(rigMapRef(name))
	ml = &rigLog{ref: rigLogRef(name, pb.LogType_STRUCT_TYPE_MUTATION_LOG)}
	tl = &rigLog{ref: rigLogRef(name, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG)}
	keys = mpKeys(h, 2+h.rng.Intn(12))
	for i := 0; i < n; i++ {
		lgMutate(h, r, m, ml, tl, mpMutation(h, m, keys, i))
	}
	return
}

func mpRoot(h *vh, r *rig, m *rigMap, ml *rigLog, size int64, kase string) bool {
	N := int64(len(m.muts))
	M := size
	if M == 0 {
		M = N
	}
	p, err := r.svc.MapTreeHash(ctxB, &pb.MapTreeHashRequest{Map: m.ref, TreeSize: size})
	if size < 0 || size > N {
		if err == nil || p != nil {
			h.fail(kase, "a map head for a size the map does not have", "size", N, "tree_size", size)
			return false
		}
		return true
	}
	if err != nil {
		h.fail(kase, "no map head for a size of the map: "+err.Error(), "size", N, "tree_size", size)
		return false
	}
	if h.rng.Intn(4) == 0 {
		q := &pb.MapTreeHashRequest{Map: m.ref, TreeSize: size}
		if !rigFaults(h, r, kase, q, func() (proto.Message, error) { return r.svc.MapTreeHash(ctxB, q) }) {
			return false
		}
	}
	if !bytes.Equal(p.RootHash, m.roots[M]) {
		h.fail(kase, "the map root is not that of the contents after the mutations", "size", N, "tree_size", size, "mutations", m.muts)
		return false
	}
	if p.MutationLog.GetTreeSize() != M || !bytes.Equal(p.MutationLog.GetRootHash(), ml.root(int(M))) {
		h.fail(kase, "the map head does not carry the mutation log's head of that size", "size", N, "tree_size", size)
		return false
	}
	return true
}

func mpGet(h *vh, r *rig, m *rigMap, size int64, key []byte, shared map[string]bool, kase string) bool {
	N := int64(len(m.muts))
	M := size
	if M == 0 {
		M = N
	}
	p, err := r.svc.MapGetValue(ctxB, &pb.MapGetValueRequest{Map: m.ref, TreeSize: size, Key: key})
	if size < 0 || size > N {
		if err == nil || p != nil {
			h.fail(kase, "a value for a size the map does not have", "size", N, "tree_size", size, "key", key)
			return false
		}
		return true
	}
	if err != nil {
		h.fail(kase, "no answer for a key at a size of the map: "+err.Error(), "size", N, "tree_size", size, "key", string(key), "mutations", m.muts)
		return false
	}
	if h.rng.Intn(4) == 0 {
		q := &pb.MapGetValueRequest{Map: m.ref, TreeSize: size, Key: key}
		if !rigFaults(h, r, kase, q, func() (proto.Message, error) { return r.svc.MapGetValue(ctxB, q) }) {
			return false
		}
	}
	want := m.hist[M][string(key)]
	if p.TreeSize != M || len(p.AuditPath) != 256 || !bytes.Equal(p.Value.GetLeafInput(), want.GetLeafInput()) {
		h.fail(kase, "the value is not the one in force", "size", N, "tree_size", size, "key", string(key), "got", p.Value.GetLeafInput(), "want", want.GetLeafInput(), "mutations", m.muts)
		return false
	}
	if !shared[string(want.GetLeafInput())] && !rigSameData(p.Value, want) {
		h.fail(kase, "the data returned is not the data set", "size", N, "tree_size", size, "key", string(key), "got", p.Value, "want", want)
		return false
	}
	if !bytes.Equal(rigMapFold(key, rLeaf(p.Value.GetLeafInput()), p.AuditPath), m.roots[M]) {
		h.fail(kase, "the proof does not fold to the map root", "size", N, "tree_size", size, "key", string(key), "mutations", m.muts)
		return false
	}
	return true
}

func TestVerifMapMutations(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	for i := 0; i < 12 || h.more(); i++ {
		if h.stop() {
			return
		}
		n := i
		if i > 12 {
			n = 5 + h.rng.Intn(50)
		}
		h.do("map mutations", fmt.Sprint(i, n), func() {
			r := newRig()
			m, ml, _, keys := mpBuild(h, r, "m", n)
			for s := int64(0); s <= int64(n); s++ {
				if !mpRoot(h, r, m, ml, s, "map mutations") {
					return
				}
			}
			// the contents as the lookups see them
			shared := mpLast(m)
			for _, s := range mpSizes(h, n) {
				for _, k := range keys {
					if !mpGet(h, r, m, s, k, shared, "map contents") {
						return
					}
				}
			}
			// an unknown action is refused whoever applies it, and changes nothing
			before := r.st.snapshot()
			for _, a := range []string{"", "Set", "sett", "remove", "setdelete", " delete"} {
				mu := &pb.MapMutation{Action: a, Key: keys[0], Value: &pb.LeafData{LeafInput: []byte("zz")}}
				if _, err := r.svc.MapSetValue(ctxB, &pb.MapSetValueRequest{Map: m.ref, Mutation: mu}); err == nil {
					h.fail("unknown action", "an unknown action is accepted", "action", a)
					return
				}
				ld, err := CreateJSONLeafDataFromMutation(mu)
				if err != nil {
					panic(err)
				}
				err = r.mut.QueueMutation(ctxB, mpNS(r, m), &pb.Mutation{LogAddEntry: &pb.LogAddEntryRequest{Log: ml.ref, Value: ld}})
				if err == nil {
					h.fail("unknown action", "an unknown action is applied", "action", a)
					return
				}
			}
			if fmt.Sprint(before) != fmt.Sprint(r.st.snapshot()) {
				h.fail("unknown action", "a refused mutation changed what is stored")
				return
			}
			// a mutation applied while the storage fails is applied in full or not at all
			{
				r2 := newRig()
				for _, x := range r.mut.got[:n] {
					r2.mut.QueueMutation(ctxB, mpNS(r, m), proto.Clone(x).(*pb.Mutation))
				}
				ld, err := CreateJSONLeafDataFromMutation(mpMutation(h, m, keys, 9000+i))
				if err != nil {
					panic(err)
				}
				g := &pb.Mutation{LogAddEntry: &pb.LogAddEntryRequest{Log: ml.ref, Value: ld}}
				base := r2.st.snapshot()
				r2.mut.QueueMutation(ctxB, mpNS(r, m), g)
				done := r2.st.snapshot()
				put := func() {
					r2.st.data = map[string]map[string][]byte{}
					for a, b := range base {
						r2.st.data[a] = map[string][]byte{}
						for k, v := range b {
							r2.st.data[a][k] = v
						}
					}
				}
				put()
				for cut := 1; cut < 2000; cut++ {
					at, o, once := r2.st.nget+cut, "get", h.rng.Intn(2) == 0
					if cut%3 == 0 {
						at, o = r2.st.nset+cut/3, "set"
					}
					hit := false
					r2.st.fault = func(op string, i int) bool {
						x := op == o && (i == at || !once && i > at)
						hit = hit || x
						return x
					}
					err := r2.mut.QueueMutation(ctxB, mpNS(r, m), g)
					r2.st.fault = nil
					want := base
					if err == nil {
						want = done
					}
					if got := r2.st.snapshot(); fmt.Sprint(got) != fmt.Sprint(want) {
						h.fail("failing storage", "a mutation applied while the storage fails reports success but is not applied, or fails but is", "size", n, "failing_op", o, "number", cut, "error", fmt.Sprint(err))
						return
					}
					put()
					if !hit && o == "get" {
						break
					}
				}
			}
			// nothing recorded for an earlier size is altered, other than the size
			old := r.st.snapshot()
			lgMutate(h, r, m, ml, &rigLog{}, mpMutation(h, m, keys, 7000+i))
			for ns, mm := range old {
				for k, v := range mm {
					if !bytes.Equal(v, r.st.data[ns][k]) && !bytes.Contains([]byte(k), []byte("size")) && !bytes.Contains([]byte(k), []byte("data")) {
						h.fail("earlier sizes", "a mutation altered a record of an earlier size", "key", []byte(k), "size", n)
						return
					}
				}
			}
			for s := int64(0); s <= int64(n+1); s++ {
				if !mpRoot(h, r, m, ml, s, "earlier sizes") {
					return
				}
			}
			h.nt()
		})
	}
}

func mpNS(r *rig, m *rigMap) []byte {
	ns, err := mapBucket(m.ref)
	if err != nil {
		panic(err)
	}
	return ns
}

func TestVerifMapLookups(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	for i := 0; i < 10 || h.more(); i++ {
		if h.stop() {
			return
		}
		n := i
		if i > 10 {
			n = 3 + h.rng.Intn(60)
		}
		h.do("map lookups", fmt.Sprint(i, n), func() {
			r := newRig()
			m, _, _, keys := mpBuild(h, r, "m", n)
			shared := mpLast(m)
			for k := 0; k < 6; k++ {
				keys = append(keys, []byte(fmt.Sprintf("absent%d", h.rng.Intn(1000))))
			}
			keys = append(keys, mpKeys(h, 5)...)
			for _, s := range append(mpSizes(h, n), int64(n+1), -1, math.MinInt64, math.MaxInt64) {
				for _, k := range keys {
					if !mpGet(h, r, m, s, k, shared, "map lookups") {
						return
					}
				}
				if s >= 0 && s <= int64(n) {
					// the head the service serves agrees
					hd, err := r.svc.MapTreeHash(ctxB, &pb.MapTreeHashRequest{Map: m.ref, TreeSize: s})
					if err != nil {
						h.fail("map lookups", "no map head: "+err.Error(), "size", n, "tree_size", s)
						return
					}
					p, _ := r.svc.MapGetValue(ctxB, &pb.MapGetValueRequest{Map: m.ref, TreeSize: s, Key: keys[0]})
					if err := VerifyMapInclusionProof(p, keys[0], hd); err != nil {
						h.fail("map lookups", "a lookup does not verify against the map head served", "size", n, "tree_size", s, "key", string(keys[0]))
						return
					}
				}
			}
			h.nt()
		})
	}
}

func TestVerifLockstep(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	for i := 0; i < 12 || h.more(); i++ {
		if h.stop() {
			return
		}
		n := i
		if i > 12 {
			n = 3 + h.rng.Intn(60)
		}
		h.do("lockstep", fmt.Sprint(i, n), func() {
			r := newRig()
			m, ml, tl, keys := mpBuild(h, r, "m", n)
			for s := int64(0); s <= int64(n+1); s++ {
				if !mpRoot(h, r, m, ml, s, "lockstep") || !lgHead(h, r, ml, s, "lockstep mutation log") || !lgHead(h, r, tl, s, "lockstep tree head log") {
					return
				}
			}
			if len(ml.leaves) != n || len(tl.leaves) != n {
				panic("the reference logs are short")
			}
			for _, l := range []*rigLog{ml, tl} {
				if !lgFetch(h, r, l, 0, 0, "lockstep entries") {
					return
				}
			}
			// the same mutation applied again changes nothing
			if n > 0 {
				before := r.st.snapshot()
				g := proto.Clone(r.mut.got[h.rng.Intn(n)]).(*pb.Mutation)
				if err := r.mut.QueueMutation(ctxB, mpNS(r, m), g); err != nil {
					h.fail("lockstep", "a mutation already in the log fails: "+err.Error(), "size", n)
					return
				}
				if fmt.Sprint(before) != fmt.Sprint(r.st.snapshot()) {
					h.fail("lockstep", "a mutation already in the log changed what is stored", "size", n)
					return
				}
			}
			// interrupted at any point and applied again, on storage that keeps partial writes
			for _, o := range []string{"set", "get"} {
				if n == 0 || n >= 30 {
					break
				}
				m0, g := newRig(), proto.Clone(r.mut.got[n-1]).(*pb.Mutation)
				for _, x := range r.mut.got[:n-1] {
					m0.mut.QueueMutation(ctxB, mpNS(r, m), x)
				}
				m0.st.keep = true
				for cut := 1; cut < 2000; cut++ {
					at, once := m0.st.nset+cut, o == "get" && cut%2 == 0
					if o == "get" {
						at = m0.st.nget + cut
					}
					m0.st.fault = func(op string, i int) bool { return op == o && (i == at || !once && i > at) }
					err := m0.mut.QueueMutation(ctxB, mpNS(r, m), proto.Clone(g).(*pb.Mutation))
					m0.st.fault = nil
					if err == nil {
						break
					}
				}
				if !mpRoot(h, m0, m, ml, int64(n), "lockstep interrupted") || !lgHead(h, m0, ml, 0, "lockstep interrupted") || !lgHead(h, m0, tl, 0, "lockstep interrupted") {
					return
				}
			}
			// a plain log has none of this
			k := 0
			m2 := newRig()
			m2.st.rec = true
			mu := mpMutation(h, newRigMap(m.ref), keys, 1)
			ld, _ := CreateJSONLeafDataFromMutation(mu)
			l := &rigLog{ref: rigLogRef("m", pb.LogType_STRUCT_TYPE_LOG)}
			for k = 0; k < 3; k++ {
				d := proto.Clone(ld).(*pb.LeafData)
				d.LeafInput = append(d.LeafInput, byte(k))
				lgAdd(h, m2, l, d)
			}
			for _, w := range m2.st.wrote {
				if w.kind == "*pb.MapNode" {
					h.fail("lockstep", "a plain log writes map nodes")
					return
				}
			}
			for _, lt := range []pb.LogType{1, 2} {
				if hd, err := m2.svc.LogTreeHash(ctxB, &pb.LogTreeHashRequest{Log: rigLogRef("m", lt)}); err != nil || hd.TreeSize != 0 {
					h.fail("lockstep", "a plain log has side effects on a map's logs", "log", lt)
					return
				}
			}
			m2.st.ExecuteReadOnly(ctxB, nil, func(ctx context.Context, kr KeyReader) error { return nil })
			h.nt()
		})
	}
}
