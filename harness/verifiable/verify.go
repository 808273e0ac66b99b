package verifiable

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
)

func vhash(h *vh) []byte { b := make([]byte, 32); h.rng.Read(b); return b }

// vtweaks are near-miss variants of a path.
func vtweaks(h *vh, p [][]byte) (names []string, out [][][]byte) {
	add := func(n string, q [][]byte) { names = append(names, n); out = append(out, q) }
	add("same", cloneB(p))
	add("nil path", nil)
	add("appended", append(cloneB(p), vhash(h)))
	add("prepended", append([][]byte{vhash(h)}, cloneB(p)...))
	add("appended twice", append(cloneB(p), vhash(h), vhash(h)))
	if n := len(p); n > 0 {
		add("first dropped", cloneB(p)[1:])
		add("last dropped", cloneB(p)[:n-1])
		i := h.rng.Intn(n)
		q := cloneB(p)
		add(fmt.Sprintf("element %d dropped", i), append(q[:i:i], q[i+1:]...))
		q = cloneB(p)
		q[i][h.rng.Intn(len(q[i])+0)] ^= 1 << uint(h.rng.Intn(8))
		add(fmt.Sprintf("element %d altered", i), q)
		q = cloneB(p)
		q[i] = nil
		add(fmt.Sprintf("element %d nil", i), q)
		q = cloneB(p)
		q[i] = q[i][:31]
		add(fmt.Sprintf("element %d truncated", i), q)
		q = cloneB(p)
		q[i] = append(q[i], 0)
		add(fmt.Sprintf("element %d lengthened", i), q)
		q = cloneB(p)
		q = append(q, q[n-1])
		add("last repeated", q)
		for i := 0; i+1 < n; i++ {
			q := cloneB(p)
			q[i], q[i+1] = q[i+1], q[i]
			add(fmt.Sprintf("elements %d and %d swapped", i, i+1), q)
			// a shifted boundary keeps the concatenation of the two
			q = cloneB(p)
			q[i+1] = append([]byte{q[i][31]}, q[i+1]...)
			q[i] = q[i][:31]
			add(fmt.Sprintf("boundary of %d and %d shifted", i, i+1), q)
		}
	}
	return
}

func vsizes(h *vh) (int64, int64) {
	n := int64(1)
	switch h.rng.Intn(4) {
	case 0:
		n = 1 + h.rng.Int63n(300)
	case 1:
		n = int64(1)<<uint(h.rng.Intn(63)) + h.rng.Int63n(5) - 2
	case 2:
		n = math.MaxInt64 - h.rng.Int63n(4)
	default:
		n = 1 + h.rng.Int63()>>uint(h.rng.Intn(62))
	}
	if n < 2 {
		n = 2
	}
	m := h.rng.Int63n(n)
	switch h.rng.Intn(5) {
	case 0:
		m = n - 1
	case 1:
		m = int64(1) << uint(h.rng.Intn(62))
		if m >= n {
			m = 0
		}
	case 2:
		m = 0
	}
	return m, n
}

func TestVerifInclusion(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	try := func(kase string, self *pb.LogInclusionProofResponse, leaf []byte, head *pb.LogTreeHashResponse) {
		desc := map[string]interface{}{"proof": self, "leaf": leaf, "head": head}
		h.do("inclusion", desc, func() {
			p2 := cloneB(self.AuditPath)
			l2 := append([]byte{}, leaf...)
			got := VerifyLogInclusionProof(self, leaf, head) == nil
			want := false
			if self.TreeSize == head.TreeSize && self.LeafIndex >= 0 && self.LeafIndex < self.TreeSize && rHashes(self.AuditPath) && len(head.RootHash) == 32 {
				r, ok := rIncFold(self.LeafIndex, self.TreeSize, self.AuditPath, leaf)
				want = ok && bytes.Equal(r, head.RootHash)
			}
			h.nt()
			if got != want {
				h.fail("inclusion", fmt.Sprintf("%s: verification accepted=%v, but RFC 6962 says %v", kase, got, want), "input", desc)
			}
			if !sameB(p2, self.AuditPath) || !bytes.Equal(l2, leaf) {
				h.fail("inclusion", "verification changed the proof or leaf", "input", desc)
			}
		})
	}
	all := func(m, n int64, leaf []byte, path [][]byte, root []byte) {
		names, ps := vtweaks(h, path)
		for i := range ps {
			try(names[i], &pb.LogInclusionProofResponse{TreeSize: n, LeafIndex: m, AuditPath: ps[i]}, leaf, &pb.LogTreeHashResponse{TreeSize: n, RootHash: root})
			if h.stop() {
				return
			}
		}
		for _, x := range []int64{m - 1, m + 1, m ^ 1, n, n - 1, -1, 0, math.MinInt64, math.MaxInt64, m / 2, m * 2} {
			try("index changed", &pb.LogInclusionProofResponse{TreeSize: n, LeafIndex: x, AuditPath: cloneB(path)}, leaf, &pb.LogTreeHashResponse{TreeSize: n, RootHash: root})
		}
		for _, x := range []int64{n - 1, n + 1, 0, -1, -n, math.MinInt64, math.MaxInt64, n * 2, n ^ 1} {
			for _, y := range []int64{n, x} {
				try("size changed", &pb.LogInclusionProofResponse{TreeSize: x, LeafIndex: m, AuditPath: cloneB(path)}, leaf, &pb.LogTreeHashResponse{TreeSize: y, RootHash: root})
				try("size changed", &pb.LogInclusionProofResponse{TreeSize: y, LeafIndex: m, AuditPath: cloneB(path)}, leaf, &pb.LogTreeHashResponse{TreeSize: x, RootHash: root})
			}
		}
		h0 := &pb.LogTreeHashResponse{TreeSize: n, RootHash: root}
		pr := &pb.LogInclusionProofResponse{TreeSize: n, LeafIndex: m, AuditPath: cloneB(path)}
		try("other leaf", pr, vhash(h), h0)
		try("root as leaf", pr, root, h0)
		try("nil leaf", pr, nil, h0)
		if len(leaf) == 32 {
			try("short leaf", pr, leaf[:31], h0)
			if len(path) > 0 && len(path[0]) == 32 {
				// a boundary moved between leaf and first element, in both directions
				q := cloneB(path)
				q[0] = append([]byte{leaf[31]}, q[0]...)
				try("boundary moved from leaf", &pb.LogInclusionProofResponse{TreeSize: n, LeafIndex: m, AuditPath: q}, leaf[:31], h0)
				q = cloneB(path)
				q[0] = append(q[0], leaf[0])
				try("boundary moved to leaf", &pb.LogInclusionProofResponse{TreeSize: n, LeafIndex: m, AuditPath: q}, leaf[1:], h0)
			}
		}
		try("other root", pr, leaf, &pb.LogTreeHashResponse{TreeSize: n, RootHash: vhash(h)})
		try("nil root", pr, leaf, &pb.LogTreeHashResponse{TreeSize: n})
		if len(root) == 32 {
			try("short root", pr, leaf, &pb.LogTreeHashResponse{TreeSize: n, RootHash: root[:31]})
			try("long root", pr, leaf, &pb.LogTreeHashResponse{TreeSize: n, RootHash: append(append([]byte{}, root...), 0)})
		}
	}
	var d [][]byte
	for n := int64(1); n <= 34 && !h.stop(); n++ {
		d = append(d, vhash(h))
		root := rMth(d)
		for m := int64(0); m < n && !h.stop(); m++ {
			p := rPath(m, d)
			all(m, n, d[m], p, root)
			for j := range d {
				try("claimed for another leaf", &pb.LogInclusionProofResponse{TreeSize: n, LeafIndex: m, AuditPath: cloneB(p)}, d[j], &pb.LogTreeHashResponse{TreeSize: n, RootHash: root})
			}
		}
	}
	for k := 0; h.more() && (k < 600 || h.deep); k++ {
		m, n := vsizes(h)
		p := make([][]byte, rPathLen(m, n))
		for i := range p {
			p[i] = vhash(h)
		}
		leaf := vhash(h)
		root, _ := rIncFold(m, n, p, leaf)
		all(m, n, leaf, p, root)
	}
	// a single-entry tree whose "hash" is not one
	all(0, 1, []byte{}, nil, []byte{})
	all(0, 1, []byte{1}, nil, []byte{1})
}

func TestVerifConsistency(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	try := func(kase string, self *pb.LogConsistencyProofResponse, a, b *pb.LogTreeHashResponse) {
		desc := map[string]interface{}{"proof": self, "first": a, "second": b}
		h.do("consistency", desc, func() {
			p2 := cloneB(self.AuditPath)
			got := VerifyLogConsistencyProof(self, a, b) == nil
			want := false
			if self.FromSize == a.TreeSize && self.TreeSize == b.TreeSize && 0 < self.FromSize && self.FromSize < self.TreeSize && rHashes(self.AuditPath) && len(a.RootHash) == 32 && len(b.RootHash) == 32 {
				x, y, ok := rConsFold(self.FromSize, self.TreeSize, self.AuditPath, true, a.RootHash)
				want = ok && bytes.Equal(x, a.RootHash) && bytes.Equal(y, b.RootHash)
			}
			h.nt()
			if got != want {
				h.fail("consistency", fmt.Sprintf("%s: verification accepted=%v, but RFC 6962 says %v", kase, got, want), "input", desc)
			}
			if !sameB(p2, self.AuditPath) {
				h.fail("consistency", "verification changed the proof", "input", desc)
			}
		})
	}
	hd := func(n int64, r []byte) *pb.LogTreeHashResponse { return &pb.LogTreeHashResponse{TreeSize: n, RootHash: r} }
	all := func(m, n int64, p [][]byte, a, b []byte) {
		names, ps := vtweaks(h, p)
		for i := range ps {
			try(names[i], &pb.LogConsistencyProofResponse{FromSize: m, TreeSize: n, AuditPath: ps[i]}, hd(m, a), hd(n, b))
			// the head such a tweaked proof would imply
			if m > 0 && m < n {
				if x, y, ok := rConsFold(m, n, ps[i], true, a); ok {
					try(names[i]+", implied heads", &pb.LogConsistencyProofResponse{FromSize: m, TreeSize: n, AuditPath: ps[i]}, hd(m, x), hd(n, y))
					try(names[i]+", implied first head", &pb.LogConsistencyProofResponse{FromSize: m, TreeSize: n, AuditPath: ps[i]}, hd(m, x), hd(n, b))
					try(names[i]+", implied second head", &pb.LogConsistencyProofResponse{FromSize: m, TreeSize: n, AuditPath: ps[i]}, hd(m, a), hd(n, y))
				}
			}
			if h.stop() {
				return
			}
		}
		pr := func(x, y int64) *pb.LogConsistencyProofResponse {
			return &pb.LogConsistencyProofResponse{FromSize: x, TreeSize: y, AuditPath: cloneB(p)}
		}
		for _, x := range []int64{m - 1, m + 1, m ^ 1, 0, -1, n, n + 1, math.MinInt64, math.MaxInt64, m * 2, m / 2, -m} {
			try("first size changed", pr(x, n), hd(x, a), hd(n, b))
			try("first size changed", pr(x, n), hd(m, a), hd(n, b))
			try("first size changed", pr(m, n), hd(x, a), hd(n, b))
			try("second size changed", pr(m, x), hd(m, a), hd(x, b))
			try("second size changed", pr(m, x), hd(m, a), hd(n, b))
			try("second size changed", pr(m, n), hd(m, a), hd(x, b))
		}
		for _, x := range []int64{n - 1, n + 1, n * 2, n ^ 1} {
			try("second size changed", pr(m, x), hd(m, a), hd(x, b))
		}
		try("first root changed", pr(m, n), hd(m, vhash(h)), hd(n, b))
		try("second root changed", pr(m, n), hd(m, a), hd(n, vhash(h)))
		try("roots swapped", pr(m, n), hd(m, b), hd(n, a))
		try("nil roots", pr(m, n), hd(m, nil), hd(n, nil))
		try("nil first root", pr(m, n), hd(m, nil), hd(n, b))
		try("nil second root", pr(m, n), hd(m, a), hd(n, nil))
		if len(a) == 32 {
			try("short first root", pr(m, n), hd(m, a[:31]), hd(n, b))
		}
	}
	var d [][]byte
	for n := int64(1); n <= 33 && !h.stop(); n++ {
		d = append(d, vhash(h))
		for m := int64(1); m < n && !h.stop(); m++ {
			all(m, n, rSub(m, d, true), rMth(d[:m]), rMth(d))
		}
		try("equal sizes", &pb.LogConsistencyProofResponse{FromSize: n, TreeSize: n}, hd(n, rMth(d)), hd(n, rMth(d)))
		try("from zero", &pb.LogConsistencyProofResponse{FromSize: 0, TreeSize: n}, hd(0, rMth(nil)), hd(n, rMth(d)))
		try("from zero", &pb.LogConsistencyProofResponse{FromSize: 0, TreeSize: n, AuditPath: [][]byte{rMth(d)}}, hd(0, nil), hd(n, rMth(d)))
	}
	for k := 0; h.more() && (k < 600 || h.deep); k++ {
		m, n := vsizes(h)
		if m == 0 {
			m = 1
		}
		p := make([][]byte, rSubLen(m, n, true))
		for i := range p {
			p[i] = vhash(h)
		}
		a0 := vhash(h)
		a, b, _ := rConsFold(m, n, p, true, a0)
		all(m, n, p, a, b)
	}
}

func TestVerifMapProof(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	try := func(kase string, self *pb.MapGetValueResponse, key []byte, head *pb.MapTreeHashResponse) {
		type short struct {
			Kase string
			Key  []byte
			Size int64
			Leaf []byte
			N    int
			P    [][]byte
			Root []byte
		}
		desc := short{kase, key, self.TreeSize, self.Value.GetLeafInput(), len(self.AuditPath), self.AuditPath, head.RootHash}
		h.do("map proof", desc, func() {
			p2 := cloneB(self.AuditPath)
			got := VerifyMapInclusionProof(self, key, head) == nil
			want := self.TreeSize == head.MutationLog.GetTreeSize() && len(self.AuditPath) == 256 && bytes.Equal(rMapFold(key, self.AuditPath, self.Value.GetLeafInput()), head.RootHash)
			h.nt()
			if got != want {
				h.fail("map proof", fmt.Sprintf("%s: verification accepted=%v, but folding the siblings says %v", kase, got, want), "input", desc)
			}
			if !sameB(p2, self.AuditPath) {
				h.fail("map proof", "verification changed the proof", "input", desc)
			}
		})
	}
	hd := func(n int64, r []byte) *pb.MapTreeHashResponse {
		return &pb.MapTreeHashResponse{MutationLog: &pb.LogTreeHashResponse{TreeSize: n}, RootHash: r}
	}
	for k := 0; h.more() && (k < 60 || h.deep); k++ {
		m := map[string][]byte{}
		nk := k % 7
		for i := 0; i < nk; i++ {
			m[fmt.Sprintf("k%d-%d", k, i)] = vhash(h)[:1+h.rng.Intn(31)]
		}
		root := rMapRoot(m)
		keys := [][]byte{nil, []byte("absent"), vhash(h)}
		for kk := range m {
			keys = append(keys, []byte(kk))
		}
		for _, key := range keys {
			leaf := m[string(key)]
			p := rSiblings(m, key)
			val := &pb.LeafData{LeafInput: leaf}
			mk := func(n int64, q [][]byte, v *pb.LeafData) *pb.MapGetValueResponse {
				return &pb.MapGetValueResponse{TreeSize: n, AuditPath: q, Value: v}
			}
			n := int64(nk)
			try("full", mk(n, p, val), key, hd(n, root))
			try("extra data is not part of the leaf", mk(n, p, &pb.LeafData{LeafInput: leaf, ExtraData: vhash(h)}), key, hd(n, root))
			q := cloneB(p)
			for i := range q {
				if bytes.Equal(q[i], rDef[i+1]) {
					if i%2 == 0 {
						q[i] = nil
					} else {
						q[i] = []byte{}
					}
				}
			}
			try("defaults omitted", mk(n, q, val), key, hd(n, root))
			for _, i := range []int{0, 1, 2, 3, 7, 8, 127, 254, 255, h.rng.Intn(256)} {
				x := cloneB(q)
				x[i] = vhash(h)
				try(fmt.Sprintf("sibling %d altered", i), mk(n, x, val), key, hd(n, root))
				try(fmt.Sprintf("sibling %d altered, implied root", i), mk(n, x, val), key, hd(n, rMapFold(key, x, leaf)))
				x = cloneB(q)
				x[i] = rDef[i]
				try(fmt.Sprintf("sibling %d the default of another depth", i), mk(n, x, val), key, hd(n, root))
				x = cloneB(q)
				x[i] = nil
				try(fmt.Sprintf("sibling %d omitted", i), mk(n, x, val), key, hd(n, root))
				x = cloneB(p)
				x[i] = x[i][:31]
				try(fmt.Sprintf("sibling %d truncated", i), mk(n, x, val), key, hd(n, root))
				x = cloneB(q)
				x[i], x[(i+1)%256] = x[(i+1)%256], x[i]
				try(fmt.Sprintf("siblings %d and next swapped", i), mk(n, x, val), key, hd(n, root))
			}
			for _, l := range []int{0, 1, 128, 255} {
				try(fmt.Sprintf("path cut to %d", l), mk(n, q[:l], val), key, hd(n, root))
			}
			try("nil path", mk(n, nil, val), key, hd(n, root))
			try("path of 257", mk(n, append(cloneB(q), nil), val), key, hd(n, root))
			try("path of 257", mk(n, append([][]byte{nil}, cloneB(q)...), val), key, hd(n, root))
			try("size changed", mk(n+1, q, val), key, hd(n, root))
			try("size changed", mk(n, q, val), key, hd(n+1, root))
			try("size changed", mk(-n, q, val), key, hd(n, root))
			try("no mutation log", mk(n, q, val), key, &pb.MapTreeHashResponse{RootHash: root})
			try("no mutation log", mk(0, q, val), key, &pb.MapTreeHashResponse{RootHash: root})
			try("nil value", mk(n, q, nil), key, hd(n, root))
			try("other value", mk(n, q, &pb.LeafData{LeafInput: vhash(h)}), key, hd(n, root))
			try("hashed value", mk(n, q, &pb.LeafData{LeafInput: rLeaf(leaf)}), key, hd(n, root))
			try("other key", mk(n, q, val), vhash(h), hd(n, root))
			kh := sha256.Sum256(key)
			try("hash of the key as key", mk(n, q, val), kh[:], hd(n, root))
			try("other root", mk(n, q, val), key, hd(n, vhash(h)))
			try("nil root", mk(n, q, val), key, hd(n, nil))
			try("short root", mk(n, q, val), key, hd(n, root[:31]))
			for _, k2 := range keys {
				try("proof for another key", mk(n, q, val), k2, hd(n, root))
			}
			if h.stop() {
				return
			}
		}
	}
	h.do("map proof", "empty messages", func() {
		VerifyMapInclusionProof(&pb.MapGetValueResponse{}, nil, &pb.MapTreeHashResponse{})
	})
}
