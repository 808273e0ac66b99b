package batch

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

// mtStore keeps bytes per namespace, and the contents of a namespace after each update; an update that fails is undone.
type mtStore struct {
	mu    sync.Mutex
	data  map[string]map[string]string
	snaps map[string][]map[string]string
	sizes map[string][]bool // whether the update wrote the size
	keep  bool              // leave a failed update as it is
	fail  int               // fail the set this many sets from now
	sets  int
}

type mtTx struct {
	s     *mtStore
	m     map[string]string
	ro    bool
	wrote map[string]bool
}

var errMt = errors.New("storage fault")

func newMtStore() *mtStore {
	return &mtStore{data: map[string]map[string]string{}, snaps: map[string][]map[string]string{}, sizes: map[string][]bool{}, fail: -1}
}

func mtClone(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func mtSame(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func (t *mtTx) Get(ctx context.Context, key []byte, value proto.Message) error {
	b, ok := t.m[string(key)]
	if !ok {
		return verifiable.ErrNoSuchKey
	}
	return proto.Unmarshal([]byte(b), value)
}

func (t *mtTx) Set(ctx context.Context, key []byte, value proto.Message) error {
	if t.s.fail == 0 {
		return errMt
	}
	if t.s.fail > 0 {
		t.s.fail--
	}
	t.s.sets++
	t.wrote[string(key)] = true
	if value == nil {
		delete(t.m, string(key))
		return nil
	}
	b, err := proto.Marshal(value)
	if err != nil {
		return err
	}
	t.m[string(key)] = string(b)
	return nil
}

func (s *mtStore) ExecuteReadOnly(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
	s.mu.Lock()
	m := mtClone(s.data[string(ns)])
	s.mu.Unlock()
	return f(ctx, &mtTx{s: s, m: m, wrote: map[string]bool{}})
}

func (s *mtStore) ExecuteUpdate(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := &mtTx{s: s, m: mtClone(s.data[string(ns)]), wrote: map[string]bool{}}
	err := f(ctx, t)
	if err == nil || s.keep {
		s.data[string(ns)] = t.m
	}
	if err == nil && len(t.wrote) > 0 {
		s.snaps[string(ns)] = append(s.snaps[string(ns)], mtClone(t.m))
	}
	return err
}

func (s *mtStore) size(ns string) int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	var o pb.ObjectSize
	if b, ok := s.data[ns]["metadata/size"]; ok {
		proto.Unmarshal([]byte(b), &o)
	}
	return o.Size
}

type mtQ struct {
	ns  string
	mut *pb.Mutation
}

func (q mtQ) String() string { return fmt.Sprintf("%s: %v", q.ns, q.mut) }

// mtMut draws a mutation; small values so that duplicates are common.
func mtMut(h *vh, kind int, i int) *pb.Mutation {
	if kind == 0 {
		v := &pb.LeafData{LeafInput: []byte(fmt.Sprint("v", h.rng.Intn(9)))}
		if h.rng.Intn(6) == 0 {
			v.LeafInput = nil
		}
		if h.rng.Intn(3) == 0 {
			v.ExtraData = []byte("x")
		}
		return &pb.Mutation{LogAddEntry: &pb.LogAddEntryRequest{Log: &pb.LogRef{Name: "l", LogType: pb.LogType_STRUCT_TYPE_LOG}, Value: v}}
	}
	mm := &pb.MapMutation{Key: []byte(fmt.Sprint("k", h.rng.Intn(4))), Timestamp: "2026-01-01T00:00:00Z"}
	if h.rng.Intn(3) > 0 {
		mm.Timestamp = fmt.Sprintf("2026-01-01T00:00:%02dZ", i%60)
	}
	switch h.rng.Intn(4) {
	case 0:
		mm.Action = "delete"
	case 1:
		mm.Action = "update"
		mm.Value = &pb.LeafData{LeafInput: []byte(fmt.Sprint("v", h.rng.Intn(4)))}
		mm.PreviousLeafHash = []byte{1}
	default:
		mm.Action = "set"
		mm.Value = &pb.LeafData{LeafInput: []byte(fmt.Sprint("v", h.rng.Intn(4)))}
		if h.rng.Intn(5) == 0 {
			mm.Value = &pb.LeafData{}
		}
	}
	ld, err := verifiable.CreateJSONLeafDataFromProto(mm)
	if err != nil {
		panic(err)
	}
	return &pb.Mutation{LogAddEntry: &pb.LogAddEntryRequest{Log: &pb.LogRef{Name: "m", LogType: pb.LogType_STRUCT_TYPE_MUTATION_LOG}, Value: ld}}
}

func mtDesc(qs []mtQ) []string {
	var r []string
	for _, q := range qs {
		r = append(r, q.String())
	}
	return r
}

// mtReference applies the mutations one at a time, as ApplyMutation and the recorded size say.
func mtReference(qs []mtQ) (map[string][]map[string]string, map[string]int64, error) {
	snaps := map[string][]map[string]string{}
	sizes := map[string]int64{}
	cur := map[string]map[string]string{}
	for _, q := range qs {
		if cur[q.ns] == nil {
			cur[q.ns] = map[string]string{}
		}
		m := mtClone(cur[q.ns])
		t := &mtTx{s: newMtStore(), m: m, wrote: map[string]bool{}}
		next, err := verifiable.ApplyMutation(context.Background(), t, sizes[q.ns], proto.Clone(q.mut).(*pb.Mutation))
		if err != nil {
			return nil, nil, err
		}
		if next != sizes[q.ns] {
			if err := t.Set(context.Background(), []byte("metadata/size"), &pb.ObjectSize{Size: next}); err != nil {
				return nil, nil, err
			}
		}
		sizes[q.ns] = next
		cur[q.ns] = m
		snaps[q.ns] = append(snaps[q.ns], mtClone(m))
	}
	return snaps, sizes, nil
}

func mtHistory(h *vh, n int) []mtQ {
	nns := 1 + h.rng.Intn(3)
	var qs []mtQ
	last := 0
	for i := 0; i < n; i++ {
		if h.rng.Intn(3) == 0 {
			last = h.rng.Intn(nns)
		}
		qs = append(qs, mtQ{fmt.Sprint("ns", last), mtMut(h, last%2, i)})
	}
	return qs
}

func mtDiff(got, want map[string]string) string {
	for k, v := range want {
		if w, ok := got[k]; !ok {
			return fmt.Sprintf("%q is missing", k)
		} else if w != v {
			return fmt.Sprintf("%q holds %x, one at a time %x", k, w, v)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%q should not be there", k)
		}
	}
	return "nothing"
}

// mtFinal compares what is stored with applying the mutations one at a time.
func mtFinal(h *vh, kase string, s *mtStore, qs []mtQ, conf interface{}) {
	snaps, sizes, err := mtReference(qs)
	if err != nil {
		h.fail(kase, "a well-formed mutation cannot be applied: "+err.Error(), "queue", mtDesc(qs))
		return
	}
	for ns, ss := range snaps {
		if !mtSame(s.data[ns], ss[len(ss)-1]) {
			h.fail(kase, "the stored contents differ from applying the mutations one at a time: "+mtDiff(s.data[ns], ss[len(ss)-1]), "namespace", ns, "size", sizes[ns], "mutator", conf, "queue", mtDesc(qs))
			return
		}
		at := -1 // each update leaves what some number of mutations of this namespace leave
		for i, got := range s.snaps[ns] {
			ok := false
			for j := at + 1; j < len(ss) && !ok; j++ {
				if mtSame(got, ss[j]) {
					at, ok = j, true
				}
			}
			if !ok && !(at >= 0 && mtSame(got, ss[at])) {
				h.fail(kase, "an update leaves contents that no prefix of the mutations leaves (data and size not recorded together, or out of order)", "namespace", ns, "update", i, "mutator", conf, "queue", mtDesc(qs))
				return
			}
		}
	}
	for ns, m := range s.data {
		if snaps[ns] == nil && len(m) > 0 {
			h.fail(kase, "a namespace no mutation was queued for has contents", "namespace", ns)
		}
	}
}

func mtInstant(h *vh, n int) {
	s := newMtStore()
	m := &instant.Mutator{Writer: s}
	qs := mtHistory(h, n)
	for i, q := range qs {
		if err := m.QueueMutation(context.Background(), []byte(q.ns), proto.Clone(q.mut).(*pb.Mutation)); err != nil {
			h.fail("instant", "a well-formed mutation is refused: "+err.Error(), "queue", mtDesc(qs[:i+1]))
			return
		}
		if _, sizes, err := mtReference(qs[:i+1]); err == nil && s.size(q.ns) != sizes[q.ns] {
			h.fail("instant", "the recorded size is not the size of what was applied", "want", sizes[q.ns], "got", s.size(q.ns), "queue", mtDesc(qs[:i+1]))
			return
		}
	}
	mtFinal(h, "instant", s, qs, "instant")
	h.nontriv++
}

// mtInstantFault fails one write of an application: an error comes back and the recorded size stays.
func mtInstantFault(h *vh) {
	s := newMtStore()
	s.keep = true
	m := &instant.Mutator{Writer: s}
	qs := mtHistory(h, 1+h.rng.Intn(6))
	for i, q := range qs {
		before := s.size(q.ns)
		last := i == len(qs)-1
		if last {
			s.fail = h.rng.Intn(12)
		}
		sets := s.sets
		err := m.QueueMutation(context.Background(), []byte(q.ns), proto.Clone(q.mut).(*pb.Mutation))
		failed := s.fail == 0 && last
		s.fail = -1
		if failed && err != nil && s.size(q.ns) != before {
			h.fail("instant-fault", "a failed application recorded a new size", "before", before, "after", s.size(q.ns), "sets done", s.sets-sets, "queue", mtDesc(qs))
			return
		}
		if err == nil {
			if _, sizes, e := mtReference(qs[:i+1]); e == nil && sizes[q.ns] != s.size(q.ns) {
				h.fail("instant-fault", "a mutation was accepted but its size is not recorded", "want", sizes[q.ns], "got", s.size(q.ns), "storage failed", failed, "queue", mtDesc(qs))
				return
			}
		}
	}
	// and a mutation that cannot be applied
	before := s.size("ns0")
	for _, bad := range []*pb.Mutation{{}, {LogAddEntry: &pb.LogAddEntryRequest{Log: &pb.LogRef{LogType: pb.LogType_STRUCT_TYPE_MUTATION_LOG}, Value: &pb.LeafData{LeafInput: []byte("zz"), ExtraData: []byte("no json")}}}} {
		err := m.QueueMutation(context.Background(), []byte("ns0"), bad)
		if err == nil {
			h.fail("instant-fault", "a mutation that cannot be applied is accepted", "mutation", fmt.Sprint(bad))
		}
		if s.size("ns0") != before {
			h.fail("instant-fault", "a failed application recorded a new size", "mutation", fmt.Sprint(bad))
		}
	}
	h.nontriv++
}

func mtBatch(h *vh, n int) {
	s := newMtStore()
	conf := &Mutator{Writer: s, Timeout: time.Duration(1+h.rng.Intn(8)) * time.Millisecond, BatchSize: 1 + h.rng.Intn(7), BufferSize: h.rng.Intn(30)}
	if h.rng.Intn(5) == 0 {
		conf.BatchSize = 1000
	}
	m, err := conf.Create()
	if err != nil {
		h.fail("batch", err.Error())
		return
	}
	qs := mtHistory(h, n)
	slow := h.rng.Intn(3)
	for i, q := range qs {
		ns := []byte(q.ns)
		if err := m.QueueMutation(context.Background(), ns, proto.Clone(q.mut).(*pb.Mutation)); err != nil {
			h.fail("batch", "a well-formed mutation is refused: "+err.Error(), "queue", mtDesc(qs[:i+1]))
			return
		}
		if slow == 1 && h.rng.Intn(4) == 0 {
			time.Sleep(time.Duration(h.rng.Intn(12)) * time.Millisecond)
		}
	}
	desc := fmt.Sprintf("batch size %d, timeout %v, buffer %d", conf.BatchSize, conf.Timeout, conf.BufferSize)
	_, sizes, err := mtReference(qs)
	if err != nil {
		h.fail("batch", "a well-formed mutation cannot be applied: "+err.Error(), "queue", mtDesc(qs))
		return
	}
	end := time.Now().Add(8 * time.Second)
	for {
		done := true
		for ns, n := range sizes {
			done = done && s.size(ns) == n
		}
		if done {
			break
		}
		if time.Now().After(end) {
			h.fail("batch", "queued mutations were not applied", "mutator", desc, "want sizes", sizes, "got", map[string]int64{"ns0": s.size("ns0"), "ns1": s.size("ns1"), "ns2": s.size("ns2")}, "queue", mtDesc(qs))
			return
		}
		time.Sleep(time.Millisecond)
	}
	s.mu.Lock()
	mtFinal(h, "batch", s, qs, desc)
	s.mu.Unlock()
	h.nontriv++
}

// mtChild runs in a process of its own: the batch mutator ends the process when an application fails.
// It writes what is stored after every successful update to a file.
func TestVerifMutatorChild(t *testing.T) {
	out := os.Getenv("VERIF_MT_OUT")
	if out == "" {
		return
	}
	s := newMtStore()
	s.keep = true
	var plan struct{ Good, FailAt int }
	json.Unmarshal([]byte(os.Getenv("VERIF_MT_PLAN")), &plan)
	conf := &Mutator{Writer: &mtSpill{s, out}, Timeout: 5 * time.Millisecond, BatchSize: 4, BufferSize: 10}
	m, _ := conf.Create()
	for i := 0; i < plan.Good; i++ {
		m.QueueMutation(context.Background(), []byte("n"), &pb.Mutation{LogAddEntry: &pb.LogAddEntryRequest{Log: &pb.LogRef{LogType: pb.LogType_STRUCT_TYPE_LOG}, Value: &pb.LeafData{LeafInput: []byte(fmt.Sprint(i))}}})
	}
	if plan.FailAt >= 0 {
		time.Sleep(60 * time.Millisecond)
		s.mu.Lock()
		s.fail = plan.FailAt
		s.mu.Unlock()
		m.QueueMutation(context.Background(), []byte("n"), &pb.Mutation{LogAddEntry: &pb.LogAddEntryRequest{Log: &pb.LogRef{LogType: pb.LogType_STRUCT_TYPE_LOG}, Value: &pb.LeafData{LeafInput: []byte("more")}}})
	} else {
		m.QueueMutation(context.Background(), []byte("n"), &pb.Mutation{})
	}
	time.Sleep(150 * time.Millisecond)
}

// mtSpill writes the recorded size and leaf count after every update, failed or not.
type mtSpill struct {
	*mtStore
	out string
}

func (s *mtSpill) ExecuteUpdate(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
	err := s.mtStore.ExecuteUpdate(ctx, ns, f)
	leaves := 0
	s.mu.Lock()
	for k := range s.data[string(ns)] {
		if strings.HasPrefix(k, "user_leaf/") {
			leaves++
		}
	}
	s.mu.Unlock()
	b, _ := json.Marshal(map[string]interface{}{"size": s.size(string(ns)), "leaves": leaves, "failed": err != nil})
	fl, _ := os.OpenFile(s.out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600)
	fl.Write(append(b, '\n'))
	fl.Close()
	return err
}

// mtFatal checks what a failed application leaves behind.
func mtFatal(h *vh, good, failAt int) {
	dir, err := os.MkdirTemp("", "verif-mutator-")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out")
	c := exec.Command(os.Args[0], "-test.run", "^TestVerifMutatorChild$")
	c.Env = append(os.Environ(), "VERIF_MT_OUT="+out, fmt.Sprintf(`VERIF_MT_PLAN={"Good":%d,"FailAt":%d}`, good, failAt))
	c.Run()
	b, _ := os.ReadFile(out)
	prev := int64(0)
	for _, ln := range bytes.Split(bytes.TrimSpace(b), []byte("\n")) {
		var r struct {
			Size   int64
			Leaves int
			Failed bool
		}
		if json.Unmarshal(ln, &r) != nil {
			continue
		}
		if r.Failed && r.Size != prev {
			h.fail("batch-fault", "a failed application recorded a new size", "before", prev, "after", r.Size, "good", good, "fail at set", failAt)
			return
		}
		if !r.Failed && r.Size != int64(r.Leaves) {
			h.fail("batch-fault", "the recorded size is not the number of entries applied", "size", r.Size, "entries", r.Leaves, "good", good, "fail at set", failAt)
			return
		}
		prev = r.Size
	}
	if failAt < 0 && prev > int64(good) {
		h.fail("batch-fault", "a failed application recorded a new size", "size", prev, "accepted", good, "fail at set", failAt)
	}
	h.nontriv++
}

func TestVerifMutators(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	for i := 0; (i < 40 || h.more()) && !h.stop(); i++ {
		h.do("instant", i, func() { mtInstant(h, 1+h.rng.Intn(14)) })
		h.do("instant-fault", i, func() { mtInstantFault(h) })
		h.do("batch", i, func() { mtBatch(h, 1+h.rng.Intn(25)) })
		if i%6 == 0 {
			h.do("batch-fault", i, func() { mtFatal(h, h.rng.Intn(6), h.rng.Intn(9)-1) })
		}
	}
}
