package verifiable

// A service over a recording storage, policy and mutator, and reference contents of the logs and maps behind it.

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"sort"
	"sync"

	"github.com/continusec/verifiabledatastructures/pb"
	"golang.org/x/net/context"
	"google.golang.org/protobuf/proto"
)

var errRigFault = errors.New("rig: storage fault")

type rigRec struct {
	ns, key string
	kind    string
	val     []byte
}

// rigStore keeps each namespace in memory. Updates that fail are rolled back unless keep is set.
type rigStore struct {
	mu    sync.Mutex
	data  map[string]map[string][]byte
	keep  bool
	nset  int
	nget  int
	fault func(op string, n int) bool
	ev    *[]string
	wrote []rigRec
	rec   bool
}

type rigTx struct {
	s  *rigStore
	ns string
	rw bool
}

func (s *rigStore) ExecuteReadOnly(ctx context.Context, ns []byte, f func(ctx context.Context, db KeyReader) error) error {
	if s.ev != nil {
		*s.ev = append(*s.ev, "read "+hex.EncodeToString(ns))
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return f(ctx, &rigTx{s: s, ns: string(ns)})
}

func (s *rigStore) ExecuteUpdate(ctx context.Context, ns []byte, f func(ctx context.Context, db KeyWriter) error) error {
	if s.ev != nil {
		*s.ev = append(*s.ev, "update "+hex.EncodeToString(ns))
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.data == nil {
		s.data = map[string]map[string][]byte{}
	}
	old := s.data[string(ns)]
	cp := map[string][]byte{}
	for k, v := range old {
		cp[k] = v
	}
	s.data[string(ns)] = cp
	err := f(ctx, &rigTx{s: s, ns: string(ns), rw: true})
	if err != nil && !s.keep {
		s.data[string(ns)] = old
	}
	return err
}

func (t *rigTx) Get(ctx context.Context, key []byte, value proto.Message) error {
	t.s.nget++
	if t.s.fault != nil && t.s.fault("get", t.s.nget) {
		return errRigFault
	}
	b, ok := t.s.data[t.ns][string(key)]
	if !ok {
		return ErrNoSuchKey
	}
	return proto.Unmarshal(b, value)
}

func (t *rigTx) Set(ctx context.Context, key []byte, value proto.Message) error {
	if !t.rw {
		return errors.New("rig: write in a read")
	}
	t.s.nset++
	if t.s.fault != nil && t.s.fault("set", t.s.nset) {
		return errRigFault
	}
	if value == nil {
		delete(t.s.data[t.ns], string(key))
		return nil
	}
	b, err := proto.Marshal(value)
	if err != nil {
		return err
	}
	if t.s.rec {
		t.s.wrote = append(t.s.wrote, rigRec{ns: t.ns, key: string(key), kind: fmt.Sprintf("%T", value), val: b})
	}
	t.s.data[t.ns][string(key)] = b
	return nil
}

// rigFaults asks again while single reads of the storage fail: an answer is still the right one, or there is none.
func rigFaults(h *vh, r *rig, kase string, q proto.Message, ask func() (proto.Message, error)) bool {
	n0 := r.st.nget
	want, werr := ask()
	n := r.st.nget - n0
	for t := 0; t < 4 && t < n; t++ {
		k := 1 + h.rng.Intn(n)
		if n <= 4 {
			k = 1 + t
		}
		at, on := r.st.nget+k, h.rng.Intn(2) == 0
		r.st.fault = func(op string, i int) bool { return op == "get" && (i == at || on && i > at) }
		got, err := ask()
		r.st.fault = nil
		if err == nil && (werr != nil || !proto.Equal(got, want)) {
			h.fail(kase, "a failing read of the storage gives a wrong answer instead of an error", "request", fmt.Sprint(q), "failing_read", k, "got", fmt.Sprint(got), "want", fmt.Sprint(want))
			return false
		}
	}
	return true
}

func (s *rigStore) snapshot() map[string]map[string][]byte {
	r := map[string]map[string][]byte{}
	for n, m := range s.data {
		if len(m) == 0 {
			continue
		}
		c := map[string][]byte{}
		for k, v := range m {
			c[k] = v
		}
		r[n] = c
	}
	return r
}

// rigMut applies every mutation at once.
type rigMut struct {
	st  *rigStore
	ev  *[]string
	got []*pb.Mutation
	nss [][]byte
	err error
	off bool // queue only
}

func (m *rigMut) QueueMutation(ctx context.Context, ns []byte, mut *pb.Mutation) error {
	if m.ev != nil {
		*m.ev = append(*m.ev, "queue "+hex.EncodeToString(ns))
	}
	m.got = append(m.got, proto.Clone(mut).(*pb.Mutation))
	m.nss = append(m.nss, append([]byte{}, ns...))
	if m.err != nil {
		return m.err
	}
	if m.off {
		return nil
	}
	return m.st.ExecuteUpdate(ctx, ns, func(ctx context.Context, kw KeyWriter) error {
		n, err := ReadObjectSize(ctx, kw)
		if err != nil {
			return err
		}
		k, err := ApplyMutation(ctx, kw, n, proto.Clone(mut).(*pb.Mutation))
		if err != nil {
			return err
		}
		return WriteObjectSize(ctx, kw, k)
	})
}

type rigAsk struct {
	Acct, Key, Name string
	Perm            pb.Permission
}

type rigPol struct {
	ev     *[]string
	asked  []rigAsk
	refuse func(a rigAsk) bool
	filter string
}

func (p *rigPol) VerifyAllowed(ctx context.Context, account, apiKey, objectName string, perm pb.Permission) (*AccessModifier, error) {
	a := rigAsk{account, apiKey, objectName, perm}
	p.asked = append(p.asked, a)
	if p.ev != nil {
		*p.ev = append(*p.ev, fmt.Sprintf("ask %q %q %q %d", account, apiKey, objectName, perm))
	}
	if p.refuse != nil && p.refuse(a) {
		return nil, ErrNotAuthorized
	}
	f := p.filter
	if f == "" {
		f = AllFields
	}
	if f == "<none>" {
		f = ""
	}
	return &AccessModifier{FieldFilter: f}, nil
}

type rig struct {
	st  *rigStore
	pol *rigPol
	mut *rigMut
	svc pb.VerifiableDataStructuresServiceServer
	ev  []string
}

func newRig() *rig {
	r := &rig{st: &rigStore{}, pol: &rigPol{}}
	r.mut = &rigMut{st: r.st}
	r.st.ev, r.pol.ev, r.mut.ev = &r.ev, &r.ev, &r.ev
	r.svc = (&Service{Mutator: r.mut, AccessPolicy: r.pol, Reader: r.st}).MustCreate()
	return r
}

func rigAcct() *pb.AccountRef { return &pb.AccountRef{Id: "acct", ApiKey: "key"} }
func rigLogRef(name string, lt pb.LogType) *pb.LogRef {
	return &pb.LogRef{Account: rigAcct(), Name: name, LogType: lt}
}
func rigMapRef(name string) *pb.MapRef { return &pb.MapRef{Account: rigAcct(), Name: name} }

var ctxB = context.Background()

// rigLog is the reference contents of one log.
type rigLog struct {
	ref    *pb.LogRef
	data   []*pb.LeafData
	leaves [][]byte
}

func (l *rigLog) has(lh []byte) int {
	for i, x := range l.leaves {
		if bytes.Equal(x, lh) {
			return i
		}
	}
	return -1
}

func (l *rigLog) add(d *pb.LeafData) {
	lh := rLeaf(d.LeafInput)
	if l.has(lh) < 0 {
		l.leaves = append(l.leaves, lh)
		l.data = append(l.data, proto.Clone(d).(*pb.LeafData))
	}
}

func (l *rigLog) root(n int) []byte {
	if n == 0 {
		return nil
	}
	return rMth(l.leaves[:n])
}

func rigBits(key []byte) string {
	x := sha256.Sum256(key)
	var b bytes.Buffer
	for _, y := range x {
		fmt.Fprintf(&b, "%08b", y)
	}
	return b.String()
}

var rigDefaults = func() [][]byte {
	r := make([][]byte, 257)
	r[256] = rLeaf(nil)
	for i := 255; i >= 0; i-- {
		r[i] = rNode(r[i+1], r[i+1])
	}
	return r
}()

type rigEnt struct {
	bits string
	leaf []byte
}

// rigSMT is the hash at a depth of the entries that share its path; they are sorted by path.
func rigSMT(es []rigEnt, depth int) []byte {
	if len(es) == 0 {
		return rigDefaults[depth]
	}
	if depth == 256 {
		return es[0].leaf
	}
	if len(es) == 1 { // fold up from the leaf
		h := es[0].leaf
		for d := 255; d >= depth; d-- {
			if es[0].bits[d] == '1' {
				h = rNode(rigDefaults[d+1], h)
			} else {
				h = rNode(h, rigDefaults[d+1])
			}
		}
		return h
	}
	i := sort.Search(len(es), func(i int) bool { return es[i].bits[depth] == '1' })
	return rNode(rigSMT(es[:i], depth+1), rigSMT(es[i:], depth+1))
}

// rigMap is the reference contents of one map at every size.
type rigMap struct {
	ref   *pb.MapRef
	hist  []map[string]*pb.LeafData // contents after n mutations
	roots [][]byte
	muts  []*pb.MapMutation
	last  map[string]*pb.LeafData // data last stored for a leaf input
}

func newRigMap(ref *pb.MapRef) *rigMap {
	return &rigMap{ref: ref, hist: []map[string]*pb.LeafData{{}}, roots: [][]byte{rigDefaults[0]}, last: map[string]*pb.LeafData{}}
}

func rigRoot(c map[string]*pb.LeafData) []byte {
	var es []rigEnt
	for k, v := range c {
		es = append(es, rigEnt{rigBits([]byte(k)), rLeaf(v.LeafInput)})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].bits < es[j].bits })
	return rigSMT(es, 0)
}

// apply gives the contents after a mutation.
func (m *rigMap) apply(mu *pb.MapMutation) {
	cur := m.hist[len(m.hist)-1]
	nxt := map[string]*pb.LeafData{}
	for k, v := range cur {
		nxt[k] = v
	}
	set := func() {
		if len(mu.Value.LeafInput) == 0 { // the empty leaf is no value
			delete(nxt, string(mu.Key))
		} else {
			nxt[string(mu.Key)] = proto.Clone(mu.Value).(*pb.LeafData)
		}
	}
	switch mu.Action {
	case "set":
		set()
	case "delete":
		delete(nxt, string(mu.Key))
	case "update":
		if bytes.Equal(m.leafOf(cur, mu.Key), mu.PreviousLeafHash) {
			set()
		}
	}
	m.muts = append(m.muts, proto.Clone(mu).(*pb.MapMutation))
	m.hist = append(m.hist, nxt)
	m.roots = append(m.roots, rigRoot(nxt))
}

func (m *rigMap) leafOf(c map[string]*pb.LeafData, key []byte) []byte {
	if v, ok := c[string(key)]; ok {
		return rLeaf(v.LeafInput)
	}
	return rLeaf(nil)
}

// rigMapFold folds a lookup's path from a leaf to the root.
func rigMapFold(key []byte, leaf []byte, path [][]byte) []byte {
	b := rigBits(key)
	h := leaf
	for d := 255; d >= 0; d-- {
		p := path[d]
		if len(p) == 0 {
			p = rigDefaults[d+1]
		}
		if b[d] == '1' {
			h = rNode(p, h)
		} else {
			h = rNode(h, p)
		}
	}
	return h
}

func rigSameData(a, b *pb.LeafData) bool {
	return bytes.Equal(a.GetLeafInput(), b.GetLeafInput()) && bytes.Equal(a.GetExtraData(), b.GetExtraData()) && a.GetFormat() == b.GetFormat()
}

func rigPathEq(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}
