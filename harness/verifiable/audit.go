package verifiable

// C13: what a log audit accepts, against every answer of a misbehaving server.

import (
	"bytes"
	"errors"
	"fmt"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"golang.org/x/net/context"
	"google.golang.org/protobuf/proto"
)

// auStream alters streams of entries and the starting proof, in ways an auditor must notice.
func auStream(h *vh, f *fake) string {
	home := h.rng.Intn(len(f.w))
	f.pick = func(op string, n int) int { return home }
	at := h.rng.Intn(3)
	ent := func(what string, g func(r *pb.LogFetchEntriesResponse)) string {
		f.alter = func(op string, n int, r proto.Message) {
			if x, ok := r.(*pb.LogFetchEntriesResponse); ok && len(x.Values) > 0 {
				g(x)
			}
		}
		return what
	}
	switch h.rng.Intn(15) {
	case 0:
		return "honest"
	case 1:
		return ent("two entries swapped", func(r *pb.LogFetchEntriesResponse) {
			i, j := h.rng.Intn(len(r.Values)), h.rng.Intn(len(r.Values))
			r.Values[i], r.Values[j] = r.Values[j], r.Values[i]
		})
	case 2:
		return ent("the last entry missing", func(r *pb.LogFetchEntriesResponse) { r.Values = r.Values[:len(r.Values)-1] })
	case 3:
		return ent("one entry twice", func(r *pb.LogFetchEntriesResponse) {
			i := h.rng.Intn(len(r.Values))
			r.Values = append(r.Values[:i+1], r.Values[i:]...)
		})
	case 4:
		return ent("more entries than asked for", func(r *pb.LogFetchEntriesResponse) {
			for i := h.rng.Intn(3); i >= 0; i-- {
				r.Values = append(r.Values, &pb.LeafData{LeafInput: []byte("extra")})
			}
		})
	case 5:
		return ent("an entry altered", func(r *pb.LogFetchEntriesResponse) { fkTamper(h, r.Values[h.rng.Intn(len(r.Values))]) })
	case 6:
		return ent("an entry absent", func(r *pb.LogFetchEntriesResponse) { r.Values[h.rng.Intn(len(r.Values))] = nil })
	case 7:
		return ent("a single entry at a time", func(r *pb.LogFetchEntriesResponse) { r.Values = r.Values[:1] })
	case 8:
		n := 0
		return ent("everything after some entries missing", func(r *pb.LogFetchEntriesResponse) {
			n++
			if n > at {
				r.Values = nil
			} else {
				r.Values = r.Values[:1+h.rng.Intn(len(r.Values))]
			}
		})
	case 9:
		f.pick = func(op string, n int) int {
			if op == "entries" {
				return 1 - home
			}
			return home
		}
		return "entries of the other history"
	case 10:
		f.pick = func(op string, n int) int {
			if op == "inclusion" {
				return 1 - home
			}
			return home
		}
		return "starting proof of the other history"
	case 11:
		f.alter = func(op string, n int, r proto.Message) {
			if x, ok := r.(*pb.LogInclusionProofResponse); ok {
				_, ps := vtweaks(h, x.AuditPath)
				if len(ps) > 0 {
					x.AuditPath = ps[h.rng.Intn(len(ps))]
				}
			}
		}
		return "starting proof altered"
	case 12:
		f.ask = func(op string, n int, r proto.Message) {
			if x, ok := r.(*pb.LogFetchEntriesRequest); ok {
				x.First -= int64(h.rng.Intn(2))
				x.Last -= int64(h.rng.Intn(2))
			}
		}
		return "entries of the wrong place"
	case 13:
		f.pick = func(op string, n int) int {
			if n == at {
				return -1
			}
			return home
		}
		return fmt.Sprintf("an error at call %d", at)
	}
	return fkMode(h, f)
}

// auForge makes a starting proof that folds to the earlier head but is not its stack, and the head that follows from it.
func auForge(h *vh, f *fake, l *rigLog, prev, head *pb.LogTreeHashResponse) bool {
	n := prev.TreeSize
	var p [][]byte
	for m, e := n, n; m > 0; m &= m - 1 { // smallest complete subtree first
		w := m & -m
		p = append(p, rMth(l.leaves[e-w:e]))
		e -= w
	}
	switch w := n & -n; {
	case h.rng.Intn(2) == 0 && w > 1: // a subtree in two halves
		p = append([][]byte{rMth(l.leaves[n-w/2 : n]), rMth(l.leaves[n-w : n-w/2])}, p[1:]...)
	case len(p) > 1: // the first ones together
		j := 2 + h.rng.Intn(len(p)-1)
		x := p[0]
		for _, y := range p[1:j] {
			x = rNode(y, x)
		}
		p = append([][]byte{x}, p[j:]...)
	default:
		return false
	}
	var st [][]byte
	for i := len(p) - 1; i >= 0; i-- {
		st = append(st, p[i])
	}
	for i := n; i < head.TreeSize; i++ {
		st = append(st, l.leaves[i])
		for z := i; z&1 == 1; z >>= 1 {
			if len(st) < 2 {
				return false
			}
			st = append(st[:len(st)-2:len(st)-2], rNode(st[len(st)-2], st[len(st)-1]))
		}
	}
	x := st[len(st)-1]
	for i := len(st) - 2; i >= 0; i-- {
		x = rNode(st[i], x)
	}
	head.RootHash = x
	f.alter = func(op string, n int, r proto.Message) {
		if x, ok := r.(*pb.LogInclusionProofResponse); ok {
			x.AuditPath = p
		}
	}
	return true
}

type auCall struct {
	Idx   int64
	Entry *pb.LeafData
}

// auHonest audits against the service itself: every genuine pair of heads is accepted, with every entry handed over.
func auHonest(h *vh, w *fkWorld) {
	l := w.log
	n := 1 + h.rng.Intn(len(l.leaves))
	m := h.rng.Intn(n)
	hd := func(k int) *pb.LogTreeHashResponse {
		return &pb.LogTreeHashResponse{TreeSize: int64(k), RootHash: l.root(k)}
	}
	prev := hd(m)
	if m == 0 && h.rng.Intn(2) == 0 {
		prev = nil
	}
	at := int64(m)
	bad := false
	err := (&Log{Log: l.ref, Service: w.r.svc}).VerifyEntries(ctxB, prev, hd(n), func(ctx context.Context, idx int64, e *pb.LeafData) error {
		bad = bad || idx != at || idx >= int64(n) || !rigSameData(e, l.data[idx])
		at++
		return nil
	})
	if err != nil || bad || at != int64(n) {
		h.fail("honest audit", "an audit of an honest log does not succeed with exactly its entries", "log_size", len(l.leaves), "from", m, "to", n, "error", fmt.Sprint(err), "audited", at-int64(m))
	}
	h.nt()
}

func TestVerifLogAudit(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	for i := 0; i < 4 || h.more(); i++ {
		if h.stop() {
			return
		}
		a, b := 1+h.rng.Intn(20), 1+h.rng.Intn(20)
		if i%3 == 0 {
			b = a
		}
		if i == 2 && h.deep {
			a, b = 1003, 1003
		}
		s := h.rng.Intn(min(a, b))
		if i%3 == 1 {
			s = min(a, b)
		}
		var ws []*fkWorld
		for k, n := range []int{a, b} {
			r := newRig()
			w := &fkWorld{r: r, log: &rigLog{ref: rigLogRef("log", pb.LogType_STRUCT_TYPE_LOG)}}
			for j := 0; j < n; j++ {
				d := &pb.LeafData{LeafInput: []byte(fmt.Sprintf("entry %d of %d", j, k)), ExtraData: []byte{byte(j)}}
				if j < s {
					d.LeafInput = []byte(fmt.Sprintf("entry %d", j))
				}
				lgAdd(h, r, w.log, d)
			}
			ws = append(ws, w)
		}
		for k := 0; k < 3 && !h.stop(); k++ {
			h.do("honest audit", fmt.Sprintf("sizes %d %d (%d)", a, b, k), func() { auHonest(h, ws[h.rng.Intn(2)]) })
		}
		for k := 0; k < 500 && !h.stop(); k++ {
			if len(ws[0].log.leaves) > 500 && k > 60 {
				break
			}
			f := &fake{w: ws}
			d := auStream(h, f)
			w := ws[h.rng.Intn(2)]
			h.do("audit", fmt.Sprintf("sizes %d %d shared %d, server: %s (%d)", a, b, s, d, k), func() {
				l := w.log
				head, prev := clHead(h, l), (*pb.LogTreeHashResponse)(nil)
				if h.rng.Intn(3) > 0 {
					prev = clHead(h, l)
				}
				if h.rng.Intn(40) == 0 {
					head = nil
				}
				if prev != nil && head != nil && prev.TreeSize > head.TreeSize && h.rng.Intn(4) > 0 {
					prev, head = head, prev
				}
				if prev != nil && head != nil && clKnown(l, prev) && prev.TreeSize < head.TreeSize && h.rng.Intn(6) == 0 {
					f.pick = func(op string, n int) int {
						if w == ws[0] {
							return 0
						}
						return 1
					}
					if auForge(h, f, l, prev, head) {
						h.nt()
					}
				}
				var calls []auCall
				failAt := -1
				if h.rng.Intn(8) == 0 {
					failAt = h.rng.Intn(len(l.leaves))
				}
				failed := false
				audit := func(ctx context.Context, idx int64, e *pb.LeafData) error {
					calls = append(calls, auCall{idx, e})
					if len(calls)-1 == failAt {
						failed = true
						return errors.New("auditor: no")
					}
					return nil
				}
				fn := LogAuditFunction(audit)
				if h.rng.Intn(10) == 0 {
					fn = nil
				}
				err := (&Log{Log: l.ref, Service: f}).VerifyEntries(ctxB, prev, head, fn)
				kv := []interface{}{"prev", prev, "head", head, "calls", f.trace, "audited", len(calls)}
				if err != nil {
					return
				}
				if head == nil {
					h.fail("audit", "an audit without a head succeeded", kv...)
					return
				}
				if failed {
					h.fail("audit", "an audit succeeded although the audit function failed", kv...)
					return
				}
				base := int64(0)
				if prev != nil && prev.TreeSize > 0 {
					base = prev.TreeSize
				}
				if (prev != nil && head.TreeSize <= prev.TreeSize) || head.TreeSize < 1 {
					if len(calls) > 0 {
						h.fail("audit", "entries were audited for no new head", kv...)
					}
					return
				}
				x := (*rigLog)(nil)
				for _, w := range ws {
					if clKnown(w.log, head) && (base == 0 || clKnown(w.log, prev)) {
						x = w.log
					}
				}
				if x == nil {
					h.fail("audit", "an audit succeeded to a head that no entries lead to", kv...)
					return
				}
				h.nt()
				if fn == nil {
					return
				}
				if int64(len(calls)) != head.TreeSize-base {
					h.fail("audit", "the number of entries audited is not the number between the heads", kv...)
					return
				}
				for j, c := range calls {
					if c.Idx != base+int64(j) {
						h.fail("audit", fmt.Sprintf("entry %d was audited with index %d", base+int64(j), c.Idx), kv...)
						return
					}
					if !bytes.Equal(rLeaf(c.Entry.GetLeafInput()), x.leaves[base+int64(j)]) {
						h.fail("audit", fmt.Sprintf("the entry audited at %d is not the one the head commits to", c.Idx), kv...)
						return
					}
				}
			})
		}
	}
}
