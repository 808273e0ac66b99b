package verifiable

// A server that answers from one of two honest histories that share a beginning, mixes them, alters answers or fails.

import (
	"errors"
	"fmt"

	"github.com/continusec/verifiabledatastructures/pb"
	"golang.org/x/net/context"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

var errFake = errors.New("fake: server error")

// fkWorld is one honest history.
type fkWorld struct {
	r      *rig
	log    *rigLog
	m      *rigMap
	ml, tl *rigLog
}

type fake struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	w     []*fkWorld
	pick  func(op string, n int) int                     // history to answer from, -1 for an error
	ask   func(op string, n int, req proto.Message)      // may alter the request
	alter func(op string, n int, resp proto.Message)     // may alter the answer
	n     int
	trace []string
}

func (f *fake) call(op string, req proto.Message, do func(s pb.VerifiableDataStructuresServiceServer, req proto.Message) (proto.Message, error)) (proto.Message, error) {
	n := f.n
	f.n++
	k := 0
	if f.pick != nil {
		k = f.pick(op, n)
	}
	if k < 0 {
		f.trace = append(f.trace, op+": error")
		return nil, errFake
	}
	q := proto.Clone(req)
	if f.ask != nil {
		f.ask(op, n, q)
	}
	r, err := do(f.w[k].r.svc, q)
	if err != nil {
		f.trace = append(f.trace, fmt.Sprintf("%s from %d: %v", op, k, err))
		return nil, err
	}
	r = proto.Clone(r)
	if f.alter != nil {
		f.alter(op, n, r)
	}
	f.trace = append(f.trace, fmt.Sprintf("%s from %d", op, k))
	return r, nil
}

func (f *fake) LogFetchEntries(ctx context.Context, q *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	r, err := f.call("entries", q, func(s pb.VerifiableDataStructuresServiceServer, q proto.Message) (proto.Message, error) {
		return s.LogFetchEntries(ctx, q.(*pb.LogFetchEntriesRequest))
	})
	if err != nil {
		return nil, err
	}
	return r.(*pb.LogFetchEntriesResponse), nil
}
func (f *fake) LogTreeHash(ctx context.Context, q *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	r, err := f.call("head", q, func(s pb.VerifiableDataStructuresServiceServer, q proto.Message) (proto.Message, error) {
		return s.LogTreeHash(ctx, q.(*pb.LogTreeHashRequest))
	})
	if err != nil {
		return nil, err
	}
	return r.(*pb.LogTreeHashResponse), nil
}
func (f *fake) LogInclusionProof(ctx context.Context, q *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	r, err := f.call("inclusion", q, func(s pb.VerifiableDataStructuresServiceServer, q proto.Message) (proto.Message, error) {
		return s.LogInclusionProof(ctx, q.(*pb.LogInclusionProofRequest))
	})
	if err != nil {
		return nil, err
	}
	return r.(*pb.LogInclusionProofResponse), nil
}
func (f *fake) LogConsistencyProof(ctx context.Context, q *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	r, err := f.call("consistency", q, func(s pb.VerifiableDataStructuresServiceServer, q proto.Message) (proto.Message, error) {
		return s.LogConsistencyProof(ctx, q.(*pb.LogConsistencyProofRequest))
	})
	if err != nil {
		return nil, err
	}
	return r.(*pb.LogConsistencyProofResponse), nil
}
func (f *fake) MapGetValue(ctx context.Context, q *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	r, err := f.call("get", q, func(s pb.VerifiableDataStructuresServiceServer, q proto.Message) (proto.Message, error) {
		return s.MapGetValue(ctx, q.(*pb.MapGetValueRequest))
	})
	if err != nil {
		return nil, err
	}
	return r.(*pb.MapGetValueResponse), nil
}
func (f *fake) MapTreeHash(ctx context.Context, q *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	r, err := f.call("maphead", q, func(s pb.VerifiableDataStructuresServiceServer, q proto.Message) (proto.Message, error) {
		return s.MapTreeHash(ctx, q.(*pb.MapTreeHashRequest))
	})
	if err != nil {
		return nil, err
	}
	return r.(*pb.MapTreeHashResponse), nil
}

// fkWorlds builds two histories of sizes a and b that share their first s entries and mutations.
func fkWorlds(h *vh, a, b, s int, prep func(mu *pb.MapMutation) *pb.MapMutation) []*fkWorld {
	var ws []*fkWorld
	keys := mpKeys(h, 1+max(a, b)/2)
	var sharedLog []*pb.LeafData
	var sharedMap []*pb.MapMutation
	for k, n := range []int{a, b} {
		r := newRig()
		w := &fkWorld{r: r, m: newRigMap(rigMapRef("m")),
			log: &rigLog{ref: rigLogRef("log", pb.LogType_STRUCT_TYPE_LOG)},
			ml:  &rigLog{ref: rigLogRef("m", pb.LogType_STRUCT_TYPE_MUTATION_LOG)},
			tl:  &rigLog{ref: rigLogRef("m", pb.LogType_STRUCT_TYPE_TREEHEAD_LOG)}}
		for i := 0; i < n; i++ {
			d := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("entry %d of %d", i, k))}
			if i < s && i < len(sharedLog) {
				d = sharedLog[i]
			}
			if k == 0 {
				sharedLog = append(sharedLog, d)
			}
			lgAdd(h, r, w.log, d)
			mu := mpMutation(h, w.m, keys, 1000*k+i)
			if prep != nil {
				mu = prep(mu)
			}
			if i < s && i < len(sharedMap) {
				mu = sharedMap[i]
			}
			if k == 0 {
				sharedMap = append(sharedMap, mu)
			}
			lgMutate(h, r, w.m, w.ml, w.tl, mu)
		}
		ws = append(ws, w)
	}
	return ws
}

// fkTamper changes one random thing in a message.
func fkTamper(h *vh, m proto.Message) {
	r := m.ProtoReflect()
	fs := r.Descriptor().Fields()
	f := fs.Get(h.rng.Intn(fs.Len()))
	if f.IsList() {
		l := r.Mutable(f).List()
		i := 0
		if l.Len() > 0 {
			i = h.rng.Intn(l.Len())
		}
		switch c := h.rng.Intn(5); {
		case c == 0 || l.Len() == 0:
			l.Append(l.NewElement())
		case c == 1:
			l.Truncate(l.Len() - 1)
		case c == 2:
			j := h.rng.Intn(l.Len())
			if f.Kind() == protoreflect.MessageKind {
				a, b := proto.Clone(l.Get(i).Message().Interface()), proto.Clone(l.Get(j).Message().Interface())
				l.Set(i, protoreflect.ValueOfMessage(b.ProtoReflect()))
				l.Set(j, protoreflect.ValueOfMessage(a.ProtoReflect()))
			} else {
				a := l.Get(i)
				l.Set(i, l.Get(j))
				l.Set(j, a)
			}
		case c == 3:
			l.Append(l.Get(i))
		case f.Kind() == protoreflect.MessageKind:
			fkTamper(h, l.Get(i).Message().Interface())
		default:
			l.Set(i, fkOther(h, f, l.Get(i)))
		}
		return
	}
	if f.Kind() == protoreflect.MessageKind {
		if h.rng.Intn(4) == 0 || !r.Has(f) {
			r.Clear(f)
			return
		}
		fkTamper(h, r.Mutable(f).Message().Interface())
		return
	}
	r.Set(f, fkOther(h, f, r.Get(f)))
}

func fkOther(h *vh, f protoreflect.FieldDescriptor, v protoreflect.Value) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.Int64Kind:
		return protoreflect.ValueOfInt64([]int64{0, 1, -1, v.Int() - 1, v.Int() + 1, 2 * v.Int(), 1 << 40}[h.rng.Intn(7)])
	case protoreflect.BytesKind:
		b := append([]byte{}, v.Bytes()...)
		switch h.rng.Intn(5) {
		case 0:
			return protoreflect.ValueOfBytes(nil)
		case 1:
			return protoreflect.ValueOfBytes(append(b, 7))
		case 2:
			if len(b) > 0 {
				return protoreflect.ValueOfBytes(b[:len(b)-1])
			}
		case 3:
			return protoreflect.ValueOfBytes(vhash(h))
		}
		if len(b) > 0 {
			b[h.rng.Intn(len(b))] ^= 1 << uint(h.rng.Intn(8))
			return protoreflect.ValueOfBytes(b)
		}
		return protoreflect.ValueOfBytes([]byte{1})
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(v.String() + "x")
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(v.Enum() + 1)
	}
	return v
}

// fkModes are the ways the server misbehaves: always one history, switching at a call, mixing, failing, altering one or some answers.
func fkMode(h *vh, f *fake) string {
	at, p := h.rng.Intn(6), 1+h.rng.Intn(3)
	home := h.rng.Intn(2)
	f.pick = func(op string, n int) int { return home }
	var d string
	switch h.rng.Intn(6) {
	case 0:
		d = fmt.Sprintf("history %d", home)
	case 1:
		d = fmt.Sprintf("history %d until call %d, then the other", home, at)
		f.pick = func(op string, n int) int {
			if n >= at {
				return 1 - home
			}
			return home
		}
	case 2:
		d = "a random history each call"
		f.pick = func(op string, n int) int { return h.rng.Intn(2) }
	case 3:
		ops := []string{"head", "inclusion", "consistency", "maphead", "get", "entries"}
		o := ops[h.rng.Intn(len(ops))]
		d = fmt.Sprintf("history %d but %s from the other", home, o)
		f.pick = func(op string, n int) int {
			if op == o {
				return 1 - home
			}
			return home
		}
	case 4:
		d = fmt.Sprintf("history %d but an error at call %d", home, at)
		f.pick = func(op string, n int) int {
			if n == at {
				return -1
			}
			return home
		}
	case 5:
		d = fmt.Sprintf("history %d", home)
	}
	switch h.rng.Intn(4) {
	case 0:
		d += fmt.Sprintf(", altering answer %d", at%4)
		f.alter = func(op string, n int, r proto.Message) {
			if n == at%4 {
				for i := 0; i < p; i++ {
					fkTamper(h, r)
				}
			}
		}
	case 1:
		d += ", altering some answers"
		f.alter = func(op string, n int, r proto.Message) {
			if h.rng.Intn(3) == 0 {
				fkTamper(h, r)
			}
		}
	}
	return d
}
