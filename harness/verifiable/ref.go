package verifiable

// Reference definitions the harnesses compare the real code with, written from RFC 6962 and the property statements.

import (
	"bytes"
	"crypto/sha256"
)

func rLeaf(b []byte) []byte { x := sha256.Sum256(append([]byte{0}, b...)); return x[:] }
func rNode(l, r []byte) []byte {
	x := sha256.Sum256(append(append([]byte{1}, l...), r...))
	return x[:]
}
func rSplit(n int64) int64 {
	k := int64(1)
	for n-k > k {
		k *= 2
	}
	return k
}

// rMth is the tree hash of a sequence of leaf hashes.
func rMth(d [][]byte) []byte {
	if len(d) == 0 {
		x := sha256.Sum256(nil)
		return x[:]
	}
	if len(d) == 1 {
		return d[0]
	}
	k := rSplit(int64(len(d)))
	return rNode(rMth(d[:k]), rMth(d[k:]))
}
func rPath(m int64, d [][]byte) [][]byte {
	if len(d) <= 1 {
		return nil
	}
	k := rSplit(int64(len(d)))
	if m < k {
		return append(rPath(m, d[:k]), rMth(d[k:]))
	}
	return append(rPath(m-k, d[k:]), rMth(d[:k]))
}
func rSub(m int64, d [][]byte, top bool) [][]byte {
	n := int64(len(d))
	if m == n {
		if top {
			return nil
		}
		return [][]byte{rMth(d)}
	}
	k := rSplit(n)
	if m <= k {
		return append(rSub(m, d[:k], top), rMth(d[k:]))
	}
	return append(rSub(m-k, d[k:], false), rMth(d[:k]))
}

// rIncFold folds an audit path; nil when its length is wrong.
func rIncFold(m, n int64, p [][]byte, leaf []byte) ([]byte, bool) {
	if n <= 1 {
		return leaf, len(p) == 0
	}
	if len(p) == 0 {
		return nil, false
	}
	k, q, l := rSplit(n), p[:len(p)-1], p[len(p)-1]
	if m < k {
		r, ok := rIncFold(m, k, q, leaf)
		return rNode(r, l), ok
	}
	r, ok := rIncFold(m-k, n-k, q, leaf)
	return rNode(l, r), ok
}
func rConsFold(m, n int64, p [][]byte, top bool, old []byte) (a, b []byte, ok bool) {
	if m == n {
		if top {
			return old, old, len(p) == 0
		}
		if len(p) != 1 {
			return nil, nil, false
		}
		return p[0], p[0], true
	}
	if len(p) == 0 {
		return nil, nil, false
	}
	k, q, l := rSplit(n), p[:len(p)-1], p[len(p)-1]
	if m <= k {
		a, b, ok = rConsFold(m, k, q, top, old)
		return a, rNode(b, l), ok
	}
	a, b, ok = rConsFold(m-k, n-k, q, false, old)
	return rNode(l, a), rNode(l, b), ok
}
func rPathLen(m, n int64) int {
	if n <= 1 {
		return 0
	}
	k := rSplit(n)
	if m < k {
		return rPathLen(m, k) + 1
	}
	return rPathLen(m-k, n-k) + 1
}
func rSubLen(m, n int64, top bool) int {
	if m == n {
		if top {
			return 0
		}
		return 1
	}
	k := rSplit(n)
	if m <= k {
		return rSubLen(m, k, top) + 1
	}
	return rSubLen(m-k, n-k, false) + 1
}
func rHashes(p [][]byte) bool {
	for _, x := range p {
		if len(x) != 32 {
			return false
		}
	}
	return true
}

// rDefaults are the default values of the 257 depths.
func rDefaults() [][]byte {
	r := make([][]byte, 257)
	r[256] = rLeaf(nil)
	for i := 255; i >= 0; i-- {
		r[i] = rNode(r[i+1], r[i+1])
	}
	return r
}

var rDef = rDefaults()

func rBit(h []byte, i int) bool { return h[i/8]&(1<<uint(7-i%8)) != 0 }

// rMapFold folds a lookup's siblings from the leaf up.
func rMapFold(key []byte, p [][]byte, leaf []byte) []byte {
	h := sha256.Sum256(key)
	t := rLeaf(leaf)
	for i := 255; i >= 0; i-- {
		s := p[i]
		if len(s) == 0 {
			s = rDef[i+1]
		}
		if rBit(h[:], i) {
			t = rNode(s, t)
		} else {
			t = rNode(t, s)
		}
	}
	return t
}

// rSmt is the root of the subtree at depth d holding the given leaves (path -> leaf input).
type rkv struct {
	h    []byte
	leaf []byte
}

func rSmt(kv []rkv, d int) []byte {
	if len(kv) == 0 {
		return rDef[d]
	}
	if d == 256 {
		return rLeaf(kv[0].leaf)
	}
	var l, r []rkv
	for _, x := range kv {
		if rBit(x.h, d) {
			r = append(r, x)
		} else {
			l = append(l, x)
		}
	}
	return rNode(rSmt(l, d+1), rSmt(r, d+1))
}

// rContents turns a map's contents into leaves; empty values are absent.
func rContents(m map[string][]byte) []rkv {
	var r []rkv
	for k, v := range m {
		if len(v) == 0 {
			continue
		}
		h := sha256.Sum256([]byte(k))
		r = append(r, rkv{append([]byte{}, h[:]...), v})
	}
	return r
}
func rMapRoot(m map[string][]byte) []byte { return rSmt(rContents(m), 0) }

// rSiblings are the 256 siblings of a key's path.
func rSiblings(m map[string][]byte, key []byte) [][]byte {
	h := sha256.Sum256(key)
	r := make([][]byte, 256)
	cur := rContents(m)
	for d := 0; d < 256; d++ {
		var same, other []rkv
		for _, x := range cur {
			if rBit(x.h, d) == rBit(h[:], d) {
				same = append(same, x)
			} else {
				other = append(other, x)
			}
		}
		r[d] = rSmt(other, d+1)
		cur = same
	}
	return r
}

func cloneB(p [][]byte) [][]byte {
	if p == nil {
		return nil
	}
	r := make([][]byte, len(p))
	for i, x := range p {
		if x != nil {
			r[i] = append([]byte{}, x...)
		}
	}
	return r
}

func sameB(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}
