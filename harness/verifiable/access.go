package verifiable

// What the access policy is asked, what happens when it refuses, and what is shown under a field filter.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

type acOp struct {
	name  string
	perm  func(lt pb.LogType) pb.Permission // 0: never allowed
	onMap bool
	write bool
	call  func(r *rig, l *pb.LogRef, m *pb.MapRef) (proto.Message, bool, error)
}

func acOps(h *vh) []acOp {
	pick := func(xs ...int64) int64 { return xs[h.rng.Intn(len(xs))] }
	by := func(a, b, c pb.Permission) func(lt pb.LogType) pb.Permission {
		return func(lt pb.LogType) pb.Permission {
			switch lt {
			case pb.LogType_STRUCT_TYPE_LOG:
				return a
			case pb.LogType_STRUCT_TYPE_MUTATION_LOG:
				return b
			case pb.LogType_STRUCT_TYPE_TREEHEAD_LOG:
				return c
			}
			return 0
		}
	}
	on := func(p pb.Permission) func(lt pb.LogType) pb.Permission {
		return func(pb.LogType) pb.Permission { return p }
	}
	mh := pb.Permission_PERM_MAP_MUTATION_READ_HASH
	mu := func() *pb.MapMutation {
		m := &pb.MapMutation{Key: []byte("k"), Action: []string{"set", "update", "delete", "bad", ""}[h.rng.Intn(5)]}
		if h.rng.Intn(4) > 0 {
			m.Value = &pb.LeafData{LeafInput: []byte("v")}
		}
		if h.rng.Intn(8) == 0 {
			return nil
		}
		return m
	}
	return []acOp{
		{"LogAddEntry", by(pb.Permission_PERM_LOG_RAW_ADD, 0, 0), false, true, func(r *rig, l *pb.LogRef, m *pb.MapRef) (proto.Message, bool, error) {
			q := &pb.LogAddEntryRequest{Log: l, Value: &pb.LeafData{LeafInput: []byte(fmt.Sprintf("n%d", h.rng.Intn(5)))}}
			if h.rng.Intn(6) == 0 {
				q.Value = nil
			}
			p, err := r.svc.LogAddEntry(ctxB, q)
			return p, p == nil, err
		}},
		{"LogFetchEntries", by(pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_MAP_MUTATION_READ_ENTRY, mh), false, false, func(r *rig, l *pb.LogRef, m *pb.MapRef) (proto.Message, bool, error) {
			p, err := r.svc.LogFetchEntries(ctxB, &pb.LogFetchEntriesRequest{Log: l, First: pick(0, 1, -1, 9), Last: pick(0, 1, 2, 3, -1, 99)})
			return p, p == nil, err
		}},
		{"LogTreeHash", by(pb.Permission_PERM_LOG_READ_HASH, mh, mh), false, false, func(r *rig, l *pb.LogRef, m *pb.MapRef) (proto.Message, bool, error) {
			p, err := r.svc.LogTreeHash(ctxB, &pb.LogTreeHashRequest{Log: l, TreeSize: pick(0, 1, 2, 3, -1, 99)})
			return p, p == nil, err
		}},
		{"LogInclusionProof", by(pb.Permission_PERM_LOG_PROVE_INCLUSION, mh, mh), false, false, func(r *rig, l *pb.LogRef, m *pb.MapRef) (proto.Message, bool, error) {
			q := &pb.LogInclusionProofRequest{Log: l, TreeSize: pick(0, 1, 2, 3, -1, 99), LeafIndex: pick(0, 1, 2, -1, 99)}
			if h.rng.Intn(2) == 0 {
				q.MtlHash = rLeaf([]byte("e1"))
			}
			p, err := r.svc.LogInclusionProof(ctxB, q)
			return p, p == nil, err
		}},
		{"LogConsistencyProof", by(pb.Permission_PERM_LOG_READ_HASH, mh, mh), false, false, func(r *rig, l *pb.LogRef, m *pb.MapRef) (proto.Message, bool, error) {
			p, err := r.svc.LogConsistencyProof(ctxB, &pb.LogConsistencyProofRequest{Log: l, FromSize: pick(0, 1, 2, -1), TreeSize: pick(0, 1, 2, 3, -1, 99)})
			return p, p == nil, err
		}},
		{"MapSetValue", on(pb.Permission_PERM_MAP_SET_VALUE), true, true, func(r *rig, l *pb.LogRef, m *pb.MapRef) (proto.Message, bool, error) {
			p, err := r.svc.MapSetValue(ctxB, &pb.MapSetValueRequest{Map: m, Mutation: mu()})
			return p, p == nil, err
		}},
		{"MapGetValue", on(pb.Permission_PERM_MAP_GET_VALUE), true, false, func(r *rig, l *pb.LogRef, m *pb.MapRef) (proto.Message, bool, error) {
			p, err := r.svc.MapGetValue(ctxB, &pb.MapGetValueRequest{Map: m, Key: []byte("k"), TreeSize: pick(0, 1, 2, -1, 99)})
			return p, p == nil, err
		}},
		{"MapTreeHash", on(pb.Permission_PERM_MAP_GET_VALUE), true, false, func(r *rig, l *pb.LogRef, m *pb.MapRef) (proto.Message, bool, error) {
			p, err := r.svc.MapTreeHash(ctxB, &pb.MapTreeHashRequest{Map: m, TreeSize: pick(0, 1, 2, -1, 99)})
			return p, p == nil, err
		}},
	}
}

func TestVerifAccess(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	ops := acOps(h)
	for i := 0; (h.more() || i < 400) && !h.stop(); i++ {
		r := newRig()
		n := h.rng.Intn(4)
		names := []string{"obj", "other", "", "a/b", "\u00e9"}
		name := names[h.rng.Intn(len(names))]
		lgBuild(h, r, name, n)
		mpBuild(h, r, name, n)
		op := ops[h.rng.Intn(len(ops))]
		lt := pb.LogType(h.rng.Intn(3))
		if h.rng.Intn(12) == 0 {
			lt = []pb.LogType{3, -1, 99, 1 << 30}[h.rng.Intn(4)]
		}
		acct := &pb.AccountRef{Id: []string{"acct", "", "zz"}[h.rng.Intn(3)], ApiKey: []string{"key", "", "*"}[h.rng.Intn(3)]}
		if h.rng.Intn(10) == 0 {
			acct = nil
		}
		log := &pb.LogRef{Account: acct, Name: name, LogType: lt}
		mp := &pb.MapRef{Account: acct, Name: name}
		if h.rng.Intn(15) == 0 {
			log, mp = nil, nil
		}
		want := op.perm(lt)
		// a policy that grants everything, nothing, or everything but (or nothing but) the right permission
		mode := h.rng.Intn(5)
		r.pol.refuse = func(a rigAsk) bool {
			switch mode {
			case 0, 1:
				return false
			case 2:
				return true
			case 3:
				return a.Perm == want
			}
			return a.Perm != want
		}
		refused := mode == 2 || mode == 3
		desc := fmt.Sprintf("%s type %d account %v name %q policy %d", op.name, lt, acct, name, mode)
		h.do(op.name, desc, func() {
			before := r.st.snapshot()
			r.ev, r.pol.asked, r.mut.got = nil, nil, nil
			gets := r.st.nget
			_, absent, err := op.call(r, log, mp)
			known := acct != nil && (op.onMap && mp != nil || !op.onMap && log != nil)
			touched := r.st.nget != gets
			for _, e := range r.ev {
				if !strings.HasPrefix(e, "ask ") {
					touched = true
				}
			}
			if err != nil && !absent {
				h.fail(op.name, "a response alongside an error", "input", desc)
			}
			if !known || want == 0 || refused {
				if err == nil || status.Code(err) != codes.PermissionDenied {
					h.fail(op.name, "not refused with permission denied", "input", desc, "err", fmt.Sprint(err))
				}
				if touched {
					h.fail(op.name, "storage or the mutator was touched although the operation is not allowed", "input", desc, "events", r.ev)
				}
				if fmt.Sprint(before) != fmt.Sprint(r.st.snapshot()) {
					h.fail(op.name, "stored data changed although the operation is not allowed", "input", desc)
				}
				if !known || want == 0 {
					return
				}
			} else if mode != 4 && err != nil && status.Code(err) == codes.PermissionDenied {
				h.fail(op.name, "permission denied although the policy granted it", "input", desc)
			}
			if len(r.pol.asked) == 0 || r.pol.asked[0] != (rigAsk{acct.Id, acct.ApiKey, name, want}) {
				h.fail(op.name, "the policy was not asked with the caller's account, key, name and the operation's permission", "input", desc, "asked", r.pol.asked, "want", want)
				return
			}
			if len(r.ev) > 0 && !strings.HasPrefix(r.ev[0], "ask ") {
				h.fail(op.name, "something happened before the policy was asked", "input", desc, "events", r.ev)
			}
			// only the object asked about may be touched
			ns, nerr := mapBucket(mp)
			if !op.onMap {
				ns, nerr = logBucket(log)
			}
			if nerr == nil {
				for _, e := range r.ev {
					if !strings.HasPrefix(e, "ask ") && !strings.HasSuffix(e, " "+fmt.Sprintf("%x", ns)) {
						h.fail(op.name, "another object's namespace was touched", "input", desc, "event", e)
					}
				}
			}
			if !op.write && len(r.mut.got) > 0 {
				h.fail(op.name, "a read queued a mutation", "input", desc)
			}
			h.nt()
		})
	}
}

// fiWant is what a caller who sees only the fields of the filter gets; ok is false when there is nothing that can be shown.
func fiWant(d *pb.LeafData, filter string) (want []byte, ok bool) {
	if filter == AllFields {
		return d.ExtraData, true
	}
	if d.Format != pb.DataFormat_JSON {
		return nil, false
	}
	var o interface{}
	if json.Unmarshal(d.ExtraData, &o) != nil {
		return nil, false
	}
	f, err := objecthash.Filtered(o, filter)
	if err != nil {
		return nil, false
	}
	b, err := json.Marshal(f)
	return b, err == nil
}

func fiData(h *vh, i int) *pb.LeafData {
	d := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("leaf %d", i)), Format: pb.DataFormat_JSON}
	switch h.rng.Intn(10) {
	case 0:
		d.ExtraData = []byte(`["secret"]`)
	case 1:
		d.ExtraData = []byte(`{"a":"secret"`)
	case 2:
		d.Format = pb.DataFormat_UNSPECIFIED
		d.ExtraData = []byte(`{"a":"secret"}`)
	case 3:
		d.ExtraData = nil
	default:
		m := map[string]interface{}{}
		for _, k := range []string{"a", "b", "c", "d*"} {
			if h.rng.Intn(3) > 0 {
				m[k] = []interface{}{fmt.Sprintf("n%d", h.rng.Intn(99)), jlVal(h, 1)}
			}
		}
		d.ExtraData, _ = json.Marshal(m)
	}
	return d
}

// fiSame checks one piece of data that was returned.
func fiSame(h *vh, kase string, got, stored *pb.LeafData, filter string, desc interface{}) {
	want, ok := fiWant(stored, filter)
	if !ok {
		if filter != AllFields && len(got.GetExtraData()) > 0 {
			h.fail(kase, "data that cannot be filtered was returned", "input", desc, "stored", string(stored.ExtraData), "got", string(got.GetExtraData()))
		}
		return
	}
	if !bytes.Equal(got.GetLeafInput(), stored.LeafInput) {
		h.fail(kase, "the leaf input is not the stored one", "input", desc, "stored", string(stored.LeafInput), "got", string(got.GetLeafInput()))
	}
	if !bytes.Equal(got.GetExtraData(), want) {
		h.fail(kase, "the extra data is not the stored JSON as filtered", "input", desc, "stored", string(stored.ExtraData), "got", string(got.GetExtraData()), "want", string(want))
	}
	if filter == AllFields && got.GetFormat() != stored.Format {
		h.fail(kase, "the format of unfiltered data changed", "input", desc)
	}
}

func TestVerifFilter(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	filters := []string{"*", "<none>", "a", "a,b", "c", "a,b,c,d*", "zz", "**", "*,a", " *"}
	for i := 0; (h.more() || i < 150) && !h.stop(); i++ {
		r := newRig()
		n := 1 + h.rng.Intn(5)
		l := &rigLog{ref: rigLogRef("log", pb.LogType_STRUCT_TYPE_LOG)}
		m := newRigMap(rigMapRef("map"))
		ml := &rigLog{ref: rigLogRef("map", pb.LogType_STRUCT_TYPE_MUTATION_LOG)}
		tl := &rigLog{ref: rigLogRef("map", pb.LogType_STRUCT_TYPE_TREEHEAD_LOG)}
		muts := []*pb.MapMutation{}
		h.do("build", n, func() {
			for j := 0; j < n; j++ {
				lgAdd(h, r, l, fiData(h, j))
				mu := &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprintf("k%d", h.rng.Intn(3))), Value: fiData(h, 100+j)}
				switch h.rng.Intn(5) {
				case 0:
					mu.Action, mu.Value = "delete", nil
				case 1: // takes effect
					mu.Action, mu.PreviousLeafHash = "update", m.leafOf(m.hist[len(m.hist)-1], mu.Key)
				case 2: // does not
					mu.Action, mu.PreviousLeafHash = "update", rLeaf([]byte("some other value"))
				}
				lgMutate(h, r, m, ml, tl, mu)
				muts = append(muts, mu)
			}
		})
		f := filters[h.rng.Intn(len(filters))]
		r.pol.filter = f
		if f == "<none>" {
			f = ""
		}
		fetch := func(ref *pb.LogRef, a, b int64) ([]*pb.LeafData, bool) {
			p, err := r.svc.LogFetchEntries(ctxB, &pb.LogFetchEntriesRequest{Log: ref, First: a, Last: b})
			if err != nil {
				if p != nil && len(p.Values) > 0 {
					h.fail("LogFetchEntries", "data alongside an error", "filter", f)
				}
				return nil, false
			}
			return p.Values, true
		}
		for a := int64(0); a < int64(n) && !h.stop(); a++ {
			for _, b := range []int64{a + 1, int64(n)} {
				desc := map[string]interface{}{"filter": f, "first": a, "last": b, "entries": n, "round": i}
				h.do("filtered log entries", desc, func() {
					all := true
					if b > int64(len(l.data)) {
						return
					}
					for _, d := range l.data[a:b] {
						_, ok := fiWant(d, f)
						all = all && ok
					}
					vs, ok := fetch(l.ref, a, b)
					if ok && !all {
						h.fail("filtered log entries", "a range with data that cannot be filtered gave no error", "input", desc)
					}
					if !ok && all {
						h.fail("filtered log entries", "a range that can be shown gave an error", "input", desc)
					}
					for j, v := range vs {
						fiSame(h, "filtered log entries", v, l.data[a+int64(j)], f, desc)
					}
					if ok && f != AllFields {
						h.nt()
					}
				})
				h.do("filtered mutation log entries", desc, func() {
					all := true
					for _, mu := range muts[a:b] {
						if mu.Value != nil {
							_, ok := fiWant(mu.Value, f)
							all = all && ok
						}
					}
					vs, ok := fetch(ml.ref, a, b)
					if ok != all {
						h.fail("filtered mutation log entries", "an error exactly when some value cannot be filtered was expected", "input", desc, "shown", ok, "can be shown", all)
					}
					for j, v := range vs {
						var mm pb.MapMutation
						if err := json.Unmarshal(v.ExtraData, &mm); err != nil {
							h.fail("filtered mutation log entries", "the entry is not a mutation", "input", desc)
							continue
						}
						want := muts[a+int64(j)]
						if !bytes.Equal(v.LeafInput, ml.data[a+int64(j)].LeafInput) || !bytes.Equal(mm.Key, want.Key) || mm.Action != want.Action {
							h.fail("filtered mutation log entries", "the entry is not the mutation at its index", "input", desc)
							continue
						}
						if (mm.Value == nil) != (want.Value == nil) {
							h.fail("filtered mutation log entries", "the entry gained or lost its value", "input", desc)
						} else if want.Value != nil {
							fiSame(h, "filtered mutation log entries", mm.Value, want.Value, f, desc)
						}
					}
				})
			}
		}
		for k := 0; k < 4 && !h.stop(); k++ {
			key := []byte(fmt.Sprintf("k%d", k))
			size := int64(1 + h.rng.Intn(n))
			desc := map[string]interface{}{"filter": f, "key": string(key), "size": size, "round": i}
			h.do("filtered map value", desc, func() {
				stored := m.hist[size][string(key)]
				p, err := r.svc.MapGetValue(ctxB, &pb.MapGetValueRequest{Map: m.ref, Key: key, TreeSize: size})
				if err != nil {
					if p != nil {
						h.fail("filtered map value", "data alongside an error", "input", desc)
					}
					if stored != nil {
						if _, ok := fiWant(stored, f); ok {
							h.fail("filtered map value", "a value that can be shown gave an error", "input", desc, "err", err.Error())
						}
					}
					return
				}
				if stored == nil {
					if len(p.Value.GetLeafInput()) > 0 || len(p.Value.GetExtraData()) > 0 && f == AllFields {
						h.fail("filtered map value", "data for a key that has none", "input", desc)
					}
					return
				}
				if _, ok := fiWant(stored, f); !ok {
					h.fail("filtered map value", "a value that cannot be filtered gave no error", "input", desc, "stored", string(stored.ExtraData))
				}
				fiSame(h, "filtered map value", p.Value, stored, f, desc)
				h.nt()
			})
		}
	}
}
