package verifiable

// Requests of every shape against a populated service: no panic, no hang, and whatever is accepted can be applied.

import (
	"fmt"
	"math"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"golang.org/x/net/context"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// crFill fills a message with values that are usually plausible; absent sub-messages are common.
func crFill(h *vh, m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.IsList() || f.IsMap() {
			continue
		}
		switch f.Kind() {
		case protoreflect.MessageKind:
			if h.rng.Intn(8) == 0 || depth > 4 {
				continue
			}
			s := m.NewField(f)
			crFill(h, s.Message(), depth+1)
			m.Set(f, s)
		case protoreflect.EnumKind:
			v := []int32{0, 0, 1, 1, 2, 3, -1, 99, math.MaxInt32, math.MinInt32}[h.rng.Intn(10)]
			m.Set(f, protoreflect.ValueOfEnum(protoreflect.EnumNumber(v)))
		case protoreflect.Int64Kind:
			v := []int64{0, 0, 1, 2, 3, 4, 5, 6, 7, -1, math.MaxInt64, math.MinInt64, 1 << 62, math.MaxInt64 - 1}[h.rng.Intn(14)]
			m.Set(f, protoreflect.ValueOfInt64(v))
		case protoreflect.Int32Kind:
			m.Set(f, protoreflect.ValueOfInt32(int32(h.rng.Intn(5)-1)))
		case protoreflect.StringKind:
			p := []string{"obj", "obj", "obj", "other", "", "acct", "key", "set", "delete", "update", "\u00e9", "a/b", "*"}
			v := p[h.rng.Intn(len(p))]
			switch string(f.Name()) {
			case "id":
				v = []string{"acct", "acct", "acct", "", "x"}[h.rng.Intn(5)]
			case "name":
				v = []string{"obj", "obj", "obj", "", "other"}[h.rng.Intn(5)]
			case "action":
				v = []string{"set", "delete", "update", "", "bad"}[h.rng.Intn(5)]
			}
			m.Set(f, protoreflect.ValueOfString(v))
		case protoreflect.BytesKind:
			b := [][]byte{nil, {}, []byte("k"), []byte("v"), []byte(`{"a":1}`), []byte("null"), []byte("{"), rLeaf([]byte("e1")), make([]byte, 31), make([]byte, 33), make([]byte, 4096)}[h.rng.Intn(11)]
			m.Set(f, protoreflect.ValueOfBytes(b))
		}
	}
}

func TestVerifNoCrash(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	for i := 0; (h.more() || i < 60) && !h.stop(); i++ {
		r := newRig()
		n := h.rng.Intn(7)
		lgBuild(h, r, "obj", n)
		mpBuild(h, r, "obj", h.rng.Intn(5))
		r.pol.filter = []string{"", "", "<none>", "a", "a,b"}[h.rng.Intn(5)]
		r.mut.off = true
		svc := r.svc
		if h.rng.Intn(10) == 0 {
			svc = (&Service{AccessPolicy: r.pol, Reader: r.st}).MustCreate()
		}
		calls := []struct {
			q    proto.Message
			call func(q proto.Message) (interface{}, bool, error)
		}{
			{&pb.LogAddEntryRequest{}, func(q proto.Message) (interface{}, bool, error) {
				p, err := svc.LogAddEntry(ctxB, q.(*pb.LogAddEntryRequest))
				return p, p == nil, err
			}},
			{&pb.LogFetchEntriesRequest{}, func(q proto.Message) (interface{}, bool, error) {
				p, err := svc.LogFetchEntries(ctxB, q.(*pb.LogFetchEntriesRequest))
				return p, p == nil, err
			}},
			{&pb.LogTreeHashRequest{}, func(q proto.Message) (interface{}, bool, error) {
				p, err := svc.LogTreeHash(ctxB, q.(*pb.LogTreeHashRequest))
				return p, p == nil, err
			}},
			{&pb.LogInclusionProofRequest{}, func(q proto.Message) (interface{}, bool, error) {
				p, err := svc.LogInclusionProof(ctxB, q.(*pb.LogInclusionProofRequest))
				return p, p == nil, err
			}},
			{&pb.LogConsistencyProofRequest{}, func(q proto.Message) (interface{}, bool, error) {
				p, err := svc.LogConsistencyProof(ctxB, q.(*pb.LogConsistencyProofRequest))
				return p, p == nil, err
			}},
			{&pb.MapSetValueRequest{}, func(q proto.Message) (interface{}, bool, error) {
				p, err := svc.MapSetValue(ctxB, q.(*pb.MapSetValueRequest))
				return p, p == nil, err
			}},
			{&pb.MapGetValueRequest{}, func(q proto.Message) (interface{}, bool, error) {
				p, err := svc.MapGetValue(ctxB, q.(*pb.MapGetValueRequest))
				return p, p == nil, err
			}},
			{&pb.MapTreeHashRequest{}, func(q proto.Message) (interface{}, bool, error) {
				p, err := svc.MapTreeHash(ctxB, q.(*pb.MapTreeHashRequest))
				return p, p == nil, err
			}},
		}
		for j := 0; j < 40 && !h.stop(); j++ {
			c := calls[h.rng.Intn(len(calls))]
			q := proto.Clone(c.q)
			if h.rng.Intn(60) > 0 {
				crFill(h, q.ProtoReflect(), 0)
			}
			// over a transport, a message arrives as it decodes
			b, err := proto.Marshal(q)
			if err != nil {
				continue
			}
			q = proto.Clone(c.q)
			if proto.Unmarshal(b, q) != nil {
				continue
			}
			kase := fmt.Sprintf("%T on %d entries", q, n)
			desc := map[string]interface{}{"request": fmt.Sprintf("%T{%v}", q, q), "bytes": fmt.Sprintf("%x", b)}
			h.do(kase, desc, func() {
				before := len(r.mut.got)
				_, none, err := c.call(q)
				if err == nil {
					h.nt()
				}
				if none == (err == nil) {
					h.fail(kase, "neither exactly a response nor an error", "input", desc, "error", fmt.Sprint(err))
				}
				if err == nil && len(r.mut.got) == before {
					switch q.(type) {
					case *pb.LogAddEntryRequest, *pb.MapSetValueRequest:
						h.fail(kase, "accepted but nothing was queued", "input", desc)
					}
				}
				for k := before; k < len(r.mut.got); k++ {
					mut := r.mut.got[k]
					e := r.st.ExecuteUpdate(ctxB, r.mut.nss[k], func(ctx context.Context, kw KeyWriter) error {
						s, err := ReadObjectSize(ctx, kw)
						if err != nil {
							return err
						}
						z, err := ApplyMutation(ctx, kw, s, proto.Clone(mut).(*pb.Mutation))
						if err != nil {
							return err
						}
						if z != s && z != s+1 {
							h.fail(kase, "applying moved the size by other than one", "input", desc, "from", s, "to", z)
						}
						return WriteObjectSize(ctx, kw, z)
					})
					if e != nil {
						h.fail(kase, "a queued mutation cannot be applied", "input", desc, "error", e.Error(), "mutation", fmt.Sprint(mut))
					}
				}
			})
		}
	}
}
