package verifiable

// C21: the objects of the client interface issue exactly the operations asked for, and hand back what was answered.

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"golang.org/x/net/context"
	"google.golang.org/protobuf/proto"
)

// ccSvc records what is asked and answers as told.
type ccSvc struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	asked  []proto.Message
	ctx    []context.Context
	answer func(q proto.Message) (proto.Message, error)
}

func (s *ccSvc) do(ctx context.Context, q proto.Message) (proto.Message, error) {
	s.asked = append(s.asked, proto.Clone(q))
	s.ctx = append(s.ctx, ctx)
	return s.answer(q)
}

func (s *ccSvc) LogAddEntry(ctx context.Context, q *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	r, err := s.do(ctx, q)
	if err != nil {
		return nil, err
	}
	return r.(*pb.LogAddEntryResponse), nil
}
func (s *ccSvc) LogFetchEntries(ctx context.Context, q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	r, err := s.do(ctx, q)
	if err != nil {
		return nil, err
	}
	return r.(*pb.LogFetchEntriesResponse), nil
}
func (s *ccSvc) LogTreeHash(ctx context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	r, err := s.do(ctx, q)
	if err != nil {
		return nil, err
	}
	return r.(*pb.LogTreeHashResponse), nil
}
func (s *ccSvc) LogInclusionProof(ctx context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	r, err := s.do(ctx, q)
	if err != nil {
		return nil, err
	}
	return r.(*pb.LogInclusionProofResponse), nil
}
func (s *ccSvc) LogConsistencyProof(ctx context.Context, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	r, err := s.do(ctx, q)
	if err != nil {
		return nil, err
	}
	return r.(*pb.LogConsistencyProofResponse), nil
}
func (s *ccSvc) MapSetValue(ctx context.Context, q *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	r, err := s.do(ctx, q)
	if err != nil {
		return nil, err
	}
	return r.(*pb.MapSetValueResponse), nil
}
func (s *ccSvc) MapGetValue(ctx context.Context, q *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	r, err := s.do(ctx, q)
	if err != nil {
		return nil, err
	}
	return r.(*pb.MapGetValueResponse), nil
}
func (s *ccSvc) MapTreeHash(ctx context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	r, err := s.do(ctx, q)
	if err != nil {
		return nil, err
	}
	return r.(*pb.MapTreeHashResponse), nil
}

type ccKey struct{}

// ccAsk runs one call of the client and compares what reached the service.
func ccAsk(h *vh, s *ccSvc, what string, want proto.Message, resp proto.Message, call func(ctx context.Context) (proto.Message, error)) {
	for _, fail := range []bool{false, true} {
		s.asked, s.ctx = nil, nil
		s.answer = func(proto.Message) (proto.Message, error) {
			if fail {
				return nil, errFake
			}
			return resp, nil
		}
		ctx := context.WithValue(context.Background(), ccKey{}, what)
		got, err := call(ctx)
		if len(s.asked) != 1 || !proto.Equal(s.asked[0], want) {
			ccFail(h, what, "the service was asked %v, want %v", s.asked, want)
		}
		if s.ctx[0].Value(ccKey{}) != what {
			ccFail(h, what, "the caller's context did not reach the service")
		}
		if fail && err == nil {
			ccFail(h, what, "the service's error was lost, the caller has %v", got)
		}
		if !fail && (err != nil || !proto.Equal(got, resp)) {
			ccFail(h, what, "the caller has %v, %v; the service answered %v", got, err, resp)
		}
	}
	h.nt()
}

func ccBytes(h *vh) []byte {
	switch h.rng.Intn(5) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	b := make([]byte, 1+h.rng.Intn(40))
	h.rng.Read(b)
	return b
}

func ccNum(h *vh) int64 {
	switch h.rng.Intn(5) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return h.rng.Int63()
	}
	return int64(h.rng.Intn(1000))
}

func ccLeaf(h *vh) *pb.LeafData {
	if h.rng.Intn(10) == 0 {
		return nil
	}
	return &pb.LeafData{LeafInput: ccBytes(h), ExtraData: ccBytes(h)}
}

func ccOnce(h *vh) {
	s := &ccSvc{}
	id, key := fmt.Sprint("a", h.rng.Intn(1000)), fmt.Sprint("k", h.rng.Intn(1000))
	acc := (&Client{Service: s}).Account(id, key)
	ar := &pb.AccountRef{Id: id, ApiKey: key}
	name := fmt.Sprint("n", h.rng.Intn(1000))
	m := acc.VerifiableMap(name)
	mr := &pb.MapRef{Account: ar, Name: name}
	logs := []*Log{acc.VerifiableLog(name), m.MutationLog(), m.TreeHeadLog()}
	for i, lt := range []pb.LogType{pb.LogType_STRUCT_TYPE_LOG, pb.LogType_STRUCT_TYPE_MUTATION_LOG, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG} {
		l := logs[i]
		lr := &pb.LogRef{Account: ar, Name: name, LogType: lt}
		w := fmt.Sprintf("%v log: ", lt)
		a, b, lh := ccNum(h), ccNum(h), ccBytes(h)
		head := &pb.LogTreeHashResponse{TreeSize: ccNum(h), RootHash: ccBytes(h)}
		ccAsk(h, s, w+"TreeHead", &pb.LogTreeHashRequest{Log: lr, TreeSize: a}, head, func(ctx context.Context) (proto.Message, error) { return l.TreeHead(ctx, a) })
		inc := &pb.LogInclusionProofResponse{TreeSize: ccNum(h), LeafIndex: ccNum(h), AuditPath: [][]byte{ccBytes(h), ccBytes(h)}}
		ccAsk(h, s, w+"InclusionProof", &pb.LogInclusionProofRequest{Log: lr, TreeSize: a, MtlHash: lh}, inc, func(ctx context.Context) (proto.Message, error) { return l.InclusionProof(ctx, a, lh) })
		ccAsk(h, s, w+"InclusionProofByIndex", &pb.LogInclusionProofRequest{Log: lr, TreeSize: a, LeafIndex: b}, inc, func(ctx context.Context) (proto.Message, error) { return l.InclusionProofByIndex(ctx, a, b) })
		con := &pb.LogConsistencyProofResponse{FromSize: ccNum(h), TreeSize: ccNum(h), AuditPath: [][]byte{ccBytes(h)}}
		ccAsk(h, s, w+"ConsistencyProof", &pb.LogConsistencyProofRequest{Log: lr, FromSize: a, TreeSize: b}, con, func(ctx context.Context) (proto.Message, error) { return l.ConsistencyProof(ctx, a, b) })
		d := ccLeaf(h)
		added := &pb.LogAddEntryResponse{LeafHash: ccBytes(h)}
		ccAsk(h, s, w+"Add", &pb.LogAddEntryRequest{Log: lr, Value: d}, added, func(ctx context.Context) (proto.Message, error) {
			p, err := l.Add(ctx, d)
			if err != nil {
				return nil, err
			}
			return &pb.LogAddEntryResponse{LeafHash: p.LeafHash()}, nil
		})
		if e := ccLeaf(h); e != nil {
			ccAsk(h, s, w+"Entry", &pb.LogFetchEntriesRequest{Log: lr, First: a, Last: a + 1}, &pb.LogFetchEntriesResponse{Values: []*pb.LeafData{e}}, func(ctx context.Context) (proto.Message, error) {
				v, err := l.Entry(ctx, a)
				return &pb.LogFetchEntriesResponse{Values: []*pb.LeafData{v}}, err
			})
		}
		for _, n := range []int{0, 2} { // an answer with no entry, or with more than were asked for, gives no entry
			s.answer = func(proto.Message) (proto.Message, error) {
				r := &pb.LogFetchEntriesResponse{}
				for i := 0; i < n; i++ {
					r.Values = append(r.Values, &pb.LeafData{})
				}
				return r, nil
			}
			if v, err := l.Entry(context.Background(), a); err == nil {
				ccFail(h, w+"Entry", "%d entries were answered, the caller has %v and no error", n, v)
			}
		}
		ccEntries(h, s, l, lr)
	}
	k, n, prev, val := ccBytes(h), ccNum(h), ccBytes(h), ccLeaf(h)
	gv := &pb.MapGetValueResponse{TreeSize: ccNum(h), Value: &pb.LeafData{LeafInput: ccBytes(h)}, AuditPath: [][]byte{ccBytes(h)}}
	ccAsk(h, s, "map Get", &pb.MapGetValueRequest{Map: mr, Key: k, TreeSize: n}, gv, func(ctx context.Context) (proto.Message, error) { return m.Get(ctx, k, n) })
	mh := &pb.MapTreeHashResponse{RootHash: ccBytes(h), MutationLog: &pb.LogTreeHashResponse{TreeSize: ccNum(h), RootHash: ccBytes(h)}}
	ccAsk(h, s, "map TreeHead", &pb.MapTreeHashRequest{Map: mr, TreeSize: n}, mh, func(ctx context.Context) (proto.Message, error) { return m.TreeHead(ctx, n) })
	set := func(what string, mu *pb.MapMutation, f func(ctx context.Context) (MapUpdatePromise, error)) {
		ccAsk(h, s, what, &pb.MapSetValueRequest{Map: mr, Mutation: mu}, &pb.MapSetValueResponse{LeafHash: ccBytes(h)}, func(ctx context.Context) (proto.Message, error) {
			p, err := f(ctx)
			if err != nil {
				return nil, err
			}
			return &pb.MapSetValueResponse{LeafHash: p.LeafHash()}, nil
		})
	}
	set("map Set", &pb.MapMutation{Action: "set", Key: k, Value: val}, func(ctx context.Context) (MapUpdatePromise, error) { return m.Set(ctx, k, val) })
	set("map Delete", &pb.MapMutation{Action: "delete", Key: k}, func(ctx context.Context) (MapUpdatePromise, error) { return m.Delete(ctx, k) })
	set("map Update", &pb.MapMutation{Action: "update", Key: k, Value: val, PreviousLeafHash: prev}, func(ctx context.Context) (MapUpdatePromise, error) { return m.Update(ctx, k, val, prev) })
	ccWait(h, s, acc, name, ar)
}

// ccEntries reads a range through Log.Entries from a server that answers with as many entries as it likes.
func ccEntries(h *vh, s *ccSvc, l *Log, lr *pb.LogRef) {
	size := int64(h.rng.Intn(40))
	if h.rng.Intn(6) == 0 {
		size = int64(480 + h.rng.Intn(600))
	}
	limit := int64(1 + h.rng.Intn(20))
	if size > 100 {
		limit = int64(100 + h.rng.Intn(1000))
	}
	start, end := int64(h.rng.Intn(5)), int64(h.rng.Intn(int(size)+3))
	stop := int64(-1) // from this index on the server fails, or has nothing
	if h.rng.Intn(3) == 0 {
		stop = int64(h.rng.Intn(int(size) + 1))
	}
	bad := h.rng.Intn(2) == 0
	want := end
	if size < want {
		want = size
	}
	if stop >= 0 && stop < want {
		want = stop
	}
	s.asked = nil
	s.answer = func(q proto.Message) (proto.Message, error) {
		r := q.(*pb.LogFetchEntriesRequest)
		if stop >= 0 && r.First >= stop && bad {
			return nil, errFake
		}
		last := r.Last
		if last > r.First+limit {
			last = r.First + limit
		}
		if last > size {
			last = size
		}
		if stop >= 0 && last > stop {
			last = stop
		}
		rv := &pb.LogFetchEntriesResponse{}
		for i := r.First; i < last; i++ {
			rv.Values = append(rv.Values, &pb.LeafData{LeafInput: []byte(fmt.Sprint(i))})
		}
		return rv, nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	at := start
	ch := l.Entries(ctx, start, end)
	for {
		var e *pb.LeafData
		var ok bool
		select {
		case e, ok = <-ch:
		case <-time.After(20 * time.Second):
			ccFail(h, "Entries", "asked for %d to %d of %d, after %d nothing more came and the stream was not closed", start, end, size, at)
		}
		if !ok {
			break
		}
		if !bytes.Equal(e.LeafInput, []byte(fmt.Sprint(at))) {
			ccFail(h, "Entries", "asked for %d to %d of %d, got %q where entry %d belongs", start, end, size, e.LeafInput, at)
		}
		at++
		if at > end+2 {
			ccFail(h, "Entries", "asked for %d to %d of %d, got entry %d too", start, end, size, at-1)
		}
	}
	if start < want && at != want {
		ccFail(h, "Entries", "asked for %d to %d of %d (%d of which the server gives), %d at a time: the stream ended before entry %d", start, end, size, want, limit, at)
	}
	if start >= want && at != start {
		ccFail(h, "Entries", "asked for %d to %d of %d, got %d entries", start, end, size, at-start)
	}
	for _, q := range s.asked {
		r := q.(*pb.LogFetchEntriesRequest)
		if !proto.Equal(r.Log, lr) || r.First < start || r.Last > end || r.First >= r.Last {
			ccFail(h, "Entries", "asked for %d to %d of %v, the service was asked %v", start, end, lr, r)
		}
	}
	h.nt()
}

// ccWait checks that a promise's Wait returns only a head that includes the leaf, and for a map the head at that size.
func ccWait(h *vh, s *ccSvc, acc *Account, name string, ar *pb.AccountRef) {
	lh := vhash(h)
	other := vhash(h)
	good := h.rng.Intn(4) > 0
	n := 0
	head := &pb.LogTreeHashResponse{TreeSize: 2, RootHash: rNode(lh, other)}
	mh := &pb.MapTreeHashResponse{RootHash: vhash(h), MutationLog: head}
	lt := pb.LogType_STRUCT_TYPE_MUTATION_LOG
	s.asked = nil
	s.answer = func(q proto.Message) (proto.Message, error) {
		n++
		if n > 6 {
			return nil, errFake
		}
		switch r := q.(type) {
		case *pb.LogAddEntryRequest:
			return &pb.LogAddEntryResponse{LeafHash: lh}, nil
		case *pb.MapSetValueRequest:
			return &pb.MapSetValueResponse{LeafHash: lh}, nil
		case *pb.LogTreeHashRequest:
			if r.Log.LogType != lt || r.Log.Name != name || !proto.Equal(r.Log.Account, ar) {
				ccFail(h, "Wait", "the head of %v was asked for", r.Log)
			}
			if n > 3 {
				return nil, errFake
			}
			return head, nil
		case *pb.LogInclusionProofRequest:
			p := &pb.LogInclusionProofResponse{TreeSize: 2, LeafIndex: 0, AuditPath: [][]byte{other}}
			if !bytes.Equal(r.MtlHash, lh) {
				ccFail(h, "Wait", "a proof for %x was asked for, want %x", r.MtlHash, lh)
			}
			if !good {
				p.AuditPath[0] = vhash(h)
			}
			return p, nil
		case *pb.MapTreeHashRequest:
			if r.TreeSize != 2 || r.Map.Name != name || !proto.Equal(r.Map.Account, ar) {
				ccFail(h, "Wait", "the map head asked for is %v", r)
			}
			return mh, nil
		}
		return nil, errFake
	}
	if !good && h.rng.Intn(10) > 0 { // an unproved head makes the client wait a second
		return
	}
	if h.rng.Intn(2) == 0 {
		lt = pb.LogType_STRUCT_TYPE_LOG
		p, err := acc.VerifiableLog(name).Add(context.Background(), &pb.LeafData{LeafInput: []byte("x")})
		if err != nil {
			ccFail(h, "Wait", "Add: %v", err)
		}
		r, err := p.Wait(context.Background())
		if good && (err != nil || !proto.Equal(r, head)) {
			ccFail(h, "Wait", "log promise: %v, %v; want %v", r, err, head)
		}
		if !good && err == nil {
			ccFail(h, "Wait", "log promise: the head %v was returned though no proof of the entry verified", r)
		}
	} else {
		p, err := acc.VerifiableMap(name).Set(context.Background(), []byte("k"), &pb.LeafData{LeafInput: []byte("x")})
		if err != nil {
			ccFail(h, "Wait", "Set: %v", err)
		}
		r, err := p.Wait(context.Background())
		if good && (err != nil || !proto.Equal(r, mh)) {
			ccFail(h, "Wait", "map promise: %v, %v; want %v", r, err, mh)
		}
		if !good && err == nil {
			ccFail(h, "Wait", "map promise: the head %v was returned though no proof of the mutation verified", r)
		}
	}
	h.nt()
}

type ccStop struct{}

func ccFail(h *vh, what, f string, a ...interface{}) {
	h.fail(what, fmt.Sprintf(f, a...))
	panic(ccStop{})
}

func TestVerifClientCalls(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	for i := 0; i < 4 || h.more(); i++ {
		if h.stop() {
			return
		}
		h.do("client calls", i, func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(ccStop); !ok {
						panic(r)
					}
				}
			}()
			ccOnce(h)
		})
	}
}
