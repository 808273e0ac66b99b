package verifiable

// C14: what a map audit accepts: logs with lies in them, served honestly or not, and the replay itself against the reference.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"golang.org/x/net/context"
	"google.golang.org/protobuf/proto"
)

// maWorld is a mutation log and a tree head log with any contents, and what replaying the mutations gives.
type maWorld struct {
	r      *rig
	ml, tl *rigLog
	n      int // mutations that replay, before the first that does not
	muts   []*pb.MapMutation
	roots  [][]byte // after 0..n mutations
}

func maMutLeaf(m *pb.MapMutation) *pb.LeafData {
	li, err := jlBare(m)
	if err != nil {
		panic(err)
	}
	x, _ := json.Marshal(m)
	return &pb.LeafData{LeafInput: li, ExtraData: x, Format: pb.DataFormat_JSON}
}
func maHeadLeaf(m *pb.MapTreeHashResponse) *pb.LeafData {
	x, _ := json.Marshal(m)
	li, err := jlHash(x)
	if err != nil {
		panic(err)
	}
	return &pb.LeafData{LeafInput: li, ExtraData: x, Format: pb.DataFormat_JSON}
}

// maReplay finds out which mutations replay and to what roots.
func (w *maWorld) maReplay() {
	m := newRigMap(rigMapRef("m"))
	for _, d := range w.ml.data {
		var mu pb.MapMutation
		if json.Unmarshal(d.ExtraData, &mu) != nil || bytes.Equal(bytes.TrimSpace(d.ExtraData), []byte("null")) {
			break
		}
		li, err := jlBare(&mu)
		if err != nil || !bytes.Equal(li, d.LeafInput) {
			break
		}
		cur := m.hist[len(m.hist)-1]
		if mu.Action != "set" && mu.Action != "delete" && mu.Action != "update" {
			break
		}
		if mu.Value == nil && (mu.Action == "set" || (mu.Action == "update" && bytes.Equal(m.leafOf(cur, mu.Key), mu.PreviousLeafHash))) {
			break
		}
		m.apply(&mu)
	}
	w.n, w.muts, w.roots = len(m.muts), m.muts, m.roots
}

func maBuild(h *vh, n int) *maWorld {
	w := &maWorld{r: newRig(), ml: &rigLog{ref: rigLogRef("ml", pb.LogType_STRUCT_TYPE_LOG)}, tl: &rigLog{ref: rigLogRef("tl", pb.LogType_STRUCT_TYPE_LOG)}}
	keys := mpKeys(h, 1+h.rng.Intn(12))
	m := newRigMap(rigMapRef("m"))
	bad := -1
	if n > 0 && h.rng.Intn(3) == 0 {
		bad = h.rng.Intn(n)
	}
	for i := 0; i < n; i++ {
		mu := mpMutation(h, m, keys, i)
		if h.rng.Intn(3) > 0 {
			mu.Timestamp = fmt.Sprint(i)
		}
		if mu.Action != "delete" && mu.Value == nil {
			mu.Value = mpValue(h, i)
		}
		if i != bad {
			m.apply(mu)
		}
		d := maMutLeaf(mu)
		if i == bad {
			switch h.rng.Intn(9) {
			case 0:
				mu.Action = []string{"", "Set", "other"}[h.rng.Intn(3)]
				d = maMutLeaf(mu)
			case 1:
				mu.Action, mu.Value = "set", nil
				d = maMutLeaf(mu)
			case 2:
				mu.Action, mu.Value, mu.PreviousLeafHash = "update", nil, m.leafOf(m.hist[len(m.hist)-1], mu.Key)
				d = maMutLeaf(mu)
			case 3:
				mu.Key = append([]byte("other"), mu.Key...)
				d.ExtraData = maMutLeaf(mu).ExtraData
			case 4:
				d.LeafInput = vhash(h)
			case 5:
				d.ExtraData = []byte([]string{"", "null", "{", "[]", "{}", "\"x\"", "1"}[h.rng.Intn(7)])
			case 6:
				d.LeafInput, d.ExtraData = nil, nil
			case 7:
				d.ExtraData = []byte("null")
				d.LeafInput, _ = jlHash(d.ExtraData)
			case 8:
				d.ExtraData = []byte("{}")
				d.LeafInput, _ = jlHash(d.ExtraData)
			}
		}
		lgAdd(h, w.r, w.ml, d)
	}
	w.maReplay()
	lie := -1
	tn := 1 + h.rng.Intn(len(w.ml.leaves)+2)
	if h.rng.Intn(2) == 0 {
		lie = h.rng.Intn(tn)
	}
	for i := 0; i < tn; i++ {
		s := i + 1
		if h.rng.Intn(8) == 0 {
			s = 1 + h.rng.Intn(len(w.ml.leaves)+1)
		}
		if s > len(w.ml.leaves) {
			s = len(w.ml.leaves)
		}
		hd := &pb.MapTreeHashResponse{RootHash: w.roots[min(s, w.n)], MutationLog: &pb.LogTreeHashResponse{TreeSize: int64(s), RootHash: w.ml.root(s)}}
		var d *pb.LeafData
		if i == lie {
			switch h.rng.Intn(10) {
			case 0:
				hd.RootHash = vhash(h)
			case 1:
				hd.RootHash = w.roots[h.rng.Intn(len(w.roots))]
			case 2:
				hd.MutationLog.RootHash = vhash(h)
			case 3:
				hd.MutationLog.RootHash = w.ml.root(h.rng.Intn(len(w.ml.leaves) + 1))
			case 4:
				hd.MutationLog.TreeSize = []int64{0, -1, int64(len(w.ml.leaves) + 1), 1 << 62, int64(s + 1), int64(s - 1)}[h.rng.Intn(6)]
			case 5:
				hd.MutationLog = nil
			case 6:
				fkTamper(h, hd)
			case 7:
				d = maHeadLeaf(hd)
				fkTamper(h, d)
			case 8:
				d = &pb.LeafData{ExtraData: []byte([]string{"null", "{", "{}", "[]", "1", ""}[h.rng.Intn(6)])}
				d.LeafInput, _ = jlHash(d.ExtraData)
			case 9:
				hd.RootHash = nil
			}
		}
		if d == nil {
			d = maHeadLeaf(hd)
		}
		lgAdd(h, w.r, w.tl, d)
	}
	return w
}

// maRedirect serves a map's logs from the plain logs of the world; the mutation log seems to grow.
func maRedirect(h *vh, f *fake, w *maWorld) {
	grow := int64(len(w.ml.leaves))
	if h.rng.Intn(2) == 0 {
		grow = int64(1 + h.rng.Intn(len(w.ml.leaves)+1))
	}
	ask := f.ask
	f.ask = func(op string, n int, q proto.Message) {
		if ask != nil {
			ask(op, n, q)
		}
		ref := func(l *pb.LogRef) {
			if l.LogType == pb.LogType_STRUCT_TYPE_MUTATION_LOG {
				l.Name = "ml"
			} else {
				l.Name = "tl"
			}
			l.LogType = pb.LogType_STRUCT_TYPE_LOG
		}
		switch x := q.(type) {
		case *pb.LogTreeHashRequest:
			if x.Log.LogType == pb.LogType_STRUCT_TYPE_MUTATION_LOG && x.TreeSize == 0 {
				if grow > int64(len(w.ml.leaves)) {
					grow = int64(len(w.ml.leaves))
				}
				x.TreeSize = grow
				grow += int64(1 + h.rng.Intn(3))
			}
			ref(x.Log)
		case *pb.LogInclusionProofRequest:
			ref(x.Log)
		case *pb.LogConsistencyProofRequest:
			ref(x.Log)
		case *pb.LogFetchEntriesRequest:
			ref(x.Log)
		}
	}
}

type maCall struct {
	Idx   int64
	Key   []byte
	Value *pb.LeafData
}

func maAudit(h *vh, w *maWorld, f *fake, d string) {
	vm := &Map{Map: rigMapRef("m"), Service: f}
	tn := len(w.tl.leaves)
	k := 1 + h.rng.Intn(tn)
	if h.rng.Intn(2) == 0 {
		k = tn
	}
	head := &MapTreeState{TreeHeadLogTreeHead: &pb.LogTreeHashResponse{TreeSize: int64(k), RootHash: w.tl.root(k)}}
	base := 0
	var prev *MapTreeState
	if h.rng.Intn(3) == 0 {
		base = h.rng.Intn(k + 1)
		prev = &MapTreeState{TreeHeadLogTreeHead: &pb.LogTreeHashResponse{TreeSize: int64(base), RootHash: w.tl.root(base)}}
	}
	if h.rng.Intn(20) == 0 {
		head.TreeHeadLogTreeHead.RootHash = vhash(h)
	}
	if h.rng.Intn(30) == 0 {
		var none *MapTreeState
		if h.rng.Intn(2) == 0 {
			none = &MapTreeState{}
		}
		if err := vm.VerifyMap(ctxB, prev, none, nil, nil); err == nil {
			h.fail("map audit", "an audit without a head succeeded")
		}
		return
	}
	var calls []maCall
	failAt, failed := -1, false
	if h.rng.Intn(8) == 0 {
		failAt = h.rng.Intn(4)
	}
	leaves := 0
	leafFail := -1
	if h.rng.Intn(10) == 0 {
		leafFail = h.rng.Intn(4)
	}
	var leafFn LeafDataAuditFunction = func(ctx context.Context, v *pb.LeafData) error {
		leaves++
		if leaves-1 == leafFail {
			failed = true
			return errors.New("leaf: no")
		}
		return nil
	}
	if leafFail < 0 && h.rng.Intn(3) == 0 {
		leafFn = nil
	}
	err := vm.VerifyMap(ctxB, prev, head, leafFn, func(ctx context.Context, idx int64, key []byte, v *pb.LeafData) error {
		calls = append(calls, maCall{idx, key, v})
		if len(calls)-1 == failAt {
			failed = true
			return errors.New("auditor: no")
		}
		return nil
	})
	if err != nil {
		return
	}
	kv := []interface{}{"mutations", w.muts, "replayable", w.n, "heads", w.tl.data, "from", base, "to", k, "calls", f.trace}
	if failed {
		h.fail("map audit", "an audit succeeded although an audit function failed", kv...)
		return
	}
	if base == k {
		return
	}
	if !bytes.Equal(head.TreeHeadLogTreeHead.RootHash, w.tl.root(k)) {
		h.fail("map audit", "an audit succeeded to a tree head log head that is wrong", kv...)
		return
	}
	most := int64(0)
	for i := base; i < k; i++ {
		e := w.tl.data[i]
		var m pb.MapTreeHashResponse
		li, herr := jlHash(e.ExtraData)
		if json.Unmarshal(e.ExtraData, &m) != nil || herr != nil || !bytes.Equal(li, e.LeafInput) {
			h.fail("map audit", fmt.Sprintf("an audit accepted tree head log entry %d, which is malformed", i), kv...)
			return
		}
		s := m.GetMutationLog().GetTreeSize()
		if s < 1 || s > int64(w.n) || !bytes.Equal(m.RootHash, w.roots[s]) || !bytes.Equal(m.MutationLog.RootHash, w.ml.root(int(s))) {
			h.fail("map audit", fmt.Sprintf("an audit accepted tree head log entry %d, which is not what the mutations give", i), kv...)
			return
		}
		if s > most {
			most = s
		}
	}
	h.nt()
	var want []maCall
	for i := 0; i < w.n; i++ {
		if !bytes.Equal(w.roots[i], w.roots[i+1]) {
			want = append(want, maCall{int64(i), w.muts[i].Key, w.muts[i].Value})
		}
	}
	// mutations after the greatest size examined may or may not have been replayed
	for i, c := range calls {
		if i >= len(want) || c.Idx != want[i].Idx || !bytes.Equal(c.Key, want[i].Key) || !rigSameData(c.Value, want[i].Value) || (c.Value == nil) != (want[i].Value == nil) {
			h.fail("map audit", fmt.Sprintf("the audit function was called for mutation %d, out of turn or without a change of the root", c.Idx), append(kv, "got", calls, "want", want)...)
			return
		}
	}
	if len(calls) < len(want) && want[len(calls)].Idx < most {
		h.fail("map audit", fmt.Sprintf("the audit function was not called for mutation %d, which changes the root", want[len(calls)].Idx), append(kv, "got", calls)...)
		return
	}
	if leafFn != nil && int64(leaves) < most {
		h.fail("map audit", "the leaf audit function was not called for every mutation", kv...)
	}
}

// maTree replays mutations one by one and compares each root with the reference.
func maTree(h *vh, n int) {
	keys := mpKeys(h, 1+h.rng.Intn(20))
	m := newRigMap(rigMapRef("m"))
	var root mapAuditNode
	if x := root.CalcHash(); !bytes.Equal(x, m.roots[0]) {
		h.fail("replay", "the root of the empty map is wrong")
		return
	}
	for i := 0; i < n; i++ {
		mu := mpMutation(h, m, keys, i)
		if mu.Action != "delete" && mu.Value == nil {
			mu.Value = mpValue(h, i)
		}
		m.apply(mu)
		x, err := addMutationToTree(&root, mu)
		if err != nil {
			h.fail("replay", "a mutation does not replay: "+err.Error(), "mutations", m.muts)
			return
		}
		if !bytes.Equal(x, m.roots[i+1]) {
			h.fail("replay", fmt.Sprintf("replaying mutation %d gives another root than the map has", i), "mutations", m.muts)
			return
		}
	}
	h.nt()
}

// maHonest audits a map of the service itself: every genuine state is accepted, with every change handed over.
func maHonest(h *vh, n int) {
	r := newRig()
	m, ml, tl, _ := mpBuild(h, r, "m", n)
	vm := &Map{Map: m.ref, Service: r.svc}
	k := 1 + h.rng.Intn(n)
	state := func(k int) *MapTreeState {
		return &MapTreeState{
			MapTreeHead:         &pb.MapTreeHashResponse{RootHash: m.roots[k], MutationLog: &pb.LogTreeHashResponse{TreeSize: int64(k), RootHash: ml.root(k)}},
			TreeHeadLogTreeHead: &pb.LogTreeHashResponse{TreeSize: int64(k), RootHash: tl.root(k)},
		}
	}
	var prev *MapTreeState
	p := 0
	if h.rng.Intn(2) == 0 {
		p = h.rng.Intn(k + 1)
		prev = state(p)
	}
	var got []maCall
	leaves := 0
	err := vm.VerifyMap(ctxB, prev, state(k), func(ctx context.Context, v *pb.LeafData) error { leaves++; return nil }, func(ctx context.Context, idx int64, key []byte, v *pb.LeafData) error {
		got = append(got, maCall{idx, key, v})
		return nil
	})
	kv := []interface{}{"mutations", m.muts, "from", p, "to", k, "error", fmt.Sprint(err)}
	if err != nil {
		h.fail("honest map audit", "an audit of an honest map does not succeed", kv...)
		return
	}
	if p == k {
		return
	}
	for i := 0; i < k; i++ {
		if bytes.Equal(m.roots[i], m.roots[i+1]) {
			continue
		}
		if len(got) == 0 || got[0].Idx != int64(i) || !bytes.Equal(got[0].Key, m.muts[i].Key) {
			h.fail("honest map audit", fmt.Sprintf("the audit function was not called for mutation %d, which changes the root", i), kv...)
			return
		}
		got = got[1:]
	}
	h.nt()
}

func TestVerifMapAudit(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	for i := 0; i < 30 || h.more(); i++ {
		if h.stop() {
			return
		}
		h.do("replay", fmt.Sprint("tree ", i), func() { maTree(h, 1+i%40) })
		h.do("honest", fmt.Sprint("map ", i), func() { maHonest(h, 1+h.rng.Intn(20)) })
		var w *maWorld
		h.do("world", i, func() { w = maBuild(h, 1+h.rng.Intn(14)) })
		if w == nil {
			return
		}
		for k := 0; k < 60 && !h.stop(); k++ {
			f := &fake{w: []*fkWorld{{r: w.r}, {r: w.r}}}
			d := "honest"
			if k%3 == 2 {
				d = auStream(h, f)
			}
			maRedirect(h, f, w)
			h.do("map audit", fmt.Sprintf("%d mutations, %d replay, %d heads, server: %s (%d)", len(w.ml.leaves), w.n, len(w.tl.leaves), d, k), func() { maAudit(h, w, f, d) })
		}
	}
}
