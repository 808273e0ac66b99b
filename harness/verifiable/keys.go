package verifiable

import (
	"fmt"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
)

type kyObj struct {
	acct, name string
	isMap      bool
}

// kyNames are names built from pieces that could run together.
func kyNames(h *vh) (string, string) {
	parts := []string{"", "a", "b", "ab", "/", "\"", "\\", ",", ":", "{", "}", "account", "name", "type", "map", "log", "\x00", "0", "1", " ", "é", "A"}
	w := func() string {
		s := ""
		for k := h.rng.Intn(4); k >= 0; k-- {
			s += parts[h.rng.Intn(len(parts))]
		}
		return s
	}
	return w(), w()
}

func TestVerifKeys(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	round := func(objs []kyObj) {
		r := newRig()
		nsOf := map[string]kyObj{}
		seen := map[kyObj]bool{}
		for i, o := range objs {
			if seen[o] {
				continue
			}
			seen[o] = true
			acct := &pb.AccountRef{Id: o.acct, ApiKey: "k"}
			nq := len(r.mut.nss)
			n := 1 + i%3
			for j := 0; j < n; j++ {
				var err error
				if o.isMap {
					_, err = r.svc.MapSetValue(ctxB, &pb.MapSetValueRequest{Map: &pb.MapRef{Account: acct, Name: o.name}, Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: &pb.LeafData{LeafInput: []byte(fmt.Sprintf("%d-%d", i, j))}}})
				} else {
					_, err = r.svc.LogAddEntry(ctxB, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acct, Name: o.name}, Value: &pb.LeafData{LeafInput: []byte(fmt.Sprintf("%d-%d", i, j))}})
				}
				if err != nil {
					return // a name the store cannot hold
				}
			}
			for _, ns := range r.mut.nss[nq:] {
				if p, ok := nsOf[string(ns)]; ok && p != o {
					h.fail("namespaces", "two objects share one namespace", "a", fmt.Sprintf("%+q", p), "b", fmt.Sprintf("%+q", o))
					return
				}
				nsOf[string(ns)] = o
			}
		}
		// each still holds just what was put in it
		done := map[kyObj]bool{}
		for i, o := range objs {
			if done[o] {
				continue
			}
			done[o] = true
			acct := &pb.AccountRef{Id: o.acct, ApiKey: "k"}
			n := int64(1 + i%3)
			lts := []pb.LogType{pb.LogType_STRUCT_TYPE_LOG}
			if o.isMap {
				lts = []pb.LogType{pb.LogType_STRUCT_TYPE_MUTATION_LOG, pb.LogType_STRUCT_TYPE_TREEHEAD_LOG}
				g, err := r.svc.MapGetValue(ctxB, &pb.MapGetValueRequest{Map: &pb.MapRef{Account: acct, Name: o.name}, Key: []byte("k")})
				if err != nil || string(g.Value.GetLeafInput()) != fmt.Sprintf("%d-%d", i, n-1) || g.TreeSize != n {
					h.fail("namespaces", "a map does not hold what was set in it", "map", fmt.Sprintf("%+q", o), "err", fmt.Sprint(err))
					return
				}
			}
			for _, lt := range lts {
				hd, err := r.svc.LogTreeHash(ctxB, &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: acct, Name: o.name, LogType: lt}})
				if err != nil || hd.TreeSize != n {
					h.fail("namespaces", "a log does not hold what was added to it", "object", fmt.Sprintf("%+q", o), "log_type", lt, "err", fmt.Sprint(err), "size", hd.GetTreeSize(), "want", n)
					return
				}
			}
		}
		h.nt()
	}
	fixed := [][2]string{{"a", "b"}, {"ab", ""}, {"", "ab"}, {"a", "ab"}, {"aa", "b"}, {"b", "a"}, {"a/b", "c"}, {"a", "b/c"}, {"a\x00b", "c"}, {"a", "b\x00c"}, {"name", "account"}, {"account", "name"}, {"a", "map"}, {"a", "log"}, {"a", "a"}, {"\",\"name\":\"", "x"}, {"", "\",\"name\":\"x"}, {"A", "B"}, {"", ""}}
	h.do("namespaces of fixed names", fixed, func() {
		var os []kyObj
		for _, f := range fixed {
			os = append(os, kyObj{f[0], f[1], false}, kyObj{f[0], f[1], true})
		}
		round(os)
	})
	// every record of a log and of a map has a key of its own
	h.do("records", nil, func() {
		for _, n := range []int{1, 2, 40, 300} {
			r := newRig()
			r.st.rec = true
			lgBuild(h, r, "log", n)
			kyDistinct(h, r, n, 1)
			r = newRig()
			r.st.rec = true
			lgMap(h, r, "m", n)
			kyDistinct(h, r, n, 2)
		}
		h.nt()
	})
	for i := 0; h.more(); i++ {
		var os []kyObj
		for k := 0; k < 12; k++ {
			a, n := kyNames(h)
			os = append(os, kyObj{a, n, h.rng.Intn(2) == 0})
			switch h.rng.Intn(3) {
			case 0:
				os = append(os, kyObj{n, a, os[len(os)-1].isMap})
			case 1:
				os = append(os, kyObj{a, n, !os[len(os)-1].isMap})
			}
			if x := a + n; len(x) > 0 {
				c := h.rng.Intn(len(x))
				os = append(os, kyObj{x[:c], x[c:], h.rng.Intn(2) == 0})
			}
		}
		h.do("namespaces", i, func() { round(os) })
	}
}

func kyDistinct(h *vh, r *rig, n, logs int) {
	kind := map[string]string{}
	val := map[string]string{}
	cnt := map[string]int{}
	for _, w := range r.st.wrote {
		k := w.ns + "|" + w.key
		if p, ok := kind[k]; ok {
			if p != w.kind {
				h.fail("records", "records of two kinds share a key", "entries", n, "kinds", p+" "+w.kind, "key", []byte(w.key))
				return
			}
			if val[k] != string(w.val) && w.kind != "*pb.ObjectSize" && w.kind != "*pb.LeafData" {
				h.fail("records", "two records of one kind share a key", "entries", n, "kind", w.kind, "key", []byte(w.key))
				return
			}
		} else {
			cnt[w.kind]++
		}
		kind[k], val[k] = w.kind, string(w.val)
	}
	for _, k := range []string{"*pb.LeafNode", "*pb.EntryIndex", "*pb.LogTreeHash"} {
		if cnt[k] != n*logs {
			h.fail("records", "the number of records of a kind is not one for each entry", "entries", n, "kind", k, "keys", cnt[k], "want", n*logs)
			return
		}
	}
}
