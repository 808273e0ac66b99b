package merkle

import (
	"bytes"
	"crypto/sha256"
	"math"
	"testing"
)

func refLeaf(b []byte) []byte { x := sha256.Sum256(append([]byte{0}, b...)); return x[:] }
func refNode(l, r []byte) []byte {
	x := sha256.Sum256(append(append([]byte{1}, l...), r...))
	return x[:]
}

func TestVerifHashing(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	rb := func(n int) []byte { b := make([]byte, n); h.rng.Read(b); return b }
	for n := 0; n < 200 && !h.stop(); n++ {
		b := rb(n)
		orig := append([]byte{}, b...)
		h.do("leaf", map[string]interface{}{"bytes": b}, func() {
			h.nt()
			if !bytes.Equal(LeafHash(b), refLeaf(b)) {
				h.fail("leaf", "leaf hash differs from SHA-256(0x00 || bytes)", "bytes", b)
			}
			if !bytes.Equal(b, orig) {
				h.fail("leaf", "LeafHash changed its argument", "bytes", orig)
			}
		})
		l, r := rb(h.rng.Intn(70)), rb(h.rng.Intn(70))
		if n%3 == 0 {
			l, r = rb(32), rb(32)
		}
		h.do("node", map[string]interface{}{"l": l, "r": r}, func() {
			h.nt()
			if !bytes.Equal(NodeHash(l, r), refNode(l, r)) {
				h.fail("node", "node hash differs from SHA-256(0x01 || left || right)", "left", l, "right", r)
			}
		})
	}
	h.do("nilhash", nil, func() {
		if !bytes.Equal(LeafHash(nil), refLeaf(nil)) || !bytes.Equal(NodeHash(nil, nil), refNode(nil, nil)) {
			h.fail("nilhash", "hash of nil differs")
		}
	})
	h.do("defaults", nil, func() {
		h.nt()
		d := GenerateMapDefaultLeafValues()
		if len(d) != 257 {
			h.fail("defaults", "not 257 default values", "len", len(d))
			return
		}
		w := refLeaf(nil)
		for i := 256; i >= 0; i-- {
			if !bytes.Equal(d[i], w) {
				h.fail("defaults", "default value differs", "depth", i)
				return
			}
			w = refNode(w, w)
		}
	})
	for n := 0; n < 300 && !h.stop(); n++ {
		k := rb(h.rng.Intn(40))
		h.do("keypath", map[string]interface{}{"key": k}, func() {
			h.nt()
			p := ConstructMapKeyPath(k)
			s := sha256.Sum256(k)
			if len(p) != 256 {
				h.fail("keypath", "path length", "key", k, "len", len(p))
				return
			}
			for i := range p {
				if p[i] != ((s[i/8]>>(7-uint(i%8)))&1 == 1) {
					h.fail("keypath", "path bit differs", "key", k, "bit", i)
					return
				}
			}
		})
	}
}

func refSplit(n int64) int64 {
	k := int64(1)
	for i := 0; i < 62; i++ {
		if int64(1)<<uint(i) < n {
			k = int64(1) << uint(i)
		}
	}
	if n > 1<<62 {
		k = 1 << 62
	}
	return k
}

func refPath(m, s, e int64) [][2]int64 {
	if e-s == 1 {
		return nil
	}
	k := refSplit(e - s)
	if m < k {
		return append(refPath(m, s, s+k), [2]int64{s + k, e})
	}
	return append(refPath(m-k, s+k, e), [2]int64{s, s + k})
}

func refSub(m, s, e int64, b bool) [][2]int64 {
	if m == e-s {
		if b {
			return nil
		}
		return [][2]int64{{s, e}}
	}
	k := refSplit(e - s)
	if m <= k {
		return append(refSub(m, s, s+k, b), [2]int64{s + k, e})
	}
	return append(refSub(m-k, s+k, e, false), [2]int64{s, s + k})
}

func same(a, b [][2]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestVerifRanges(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	pow := func(n int64) bool { return n > 0 && n&(n-1) == 0 }
	calc := func(n int64) {
		h.do("split", n, func() {
			h.nt()
			if k := CalcK(n); k != refSplit(n) {
				h.fail("split", "split point is not the largest power of two below the size", "size", n, "got", k, "want", refSplit(n))
			}
		})
		h.do("ispow2", n, func() {
			if n > 0 && IsPow2(n) != pow(n) || n <= 0 && IsPow2(n) {
				h.fail("ispow2", "power-of-two test is wrong", "n", n)
			}
		})
	}
	for n := int64(-5); n < 600 && !h.stop(); n++ {
		calc(n)
	}
	for i := uint(0); i < 63 && !h.stop(); i++ {
		for d := int64(-2); d <= 2; d++ {
			calc(int64(1)<<i + d)
			calc(-(int64(1) << i) + d)
		}
	}
	for _, n := range []int64{math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1} {
		if h.stop() {
			return
		}
		calc(n)
	}
	path := func(m, s, e int64) {
		h.do("path", []int64{m, s, e}, func() {
			h.nt()
			if g := Path(m, s, e); !same(g, refPath(m, s, e)) {
				h.fail("path", "audit path ranges differ from RFC 6962", "m", m, "start", s, "end", e, "got", g, "want", refPath(m, s, e))
			}
		})
	}
	sub := func(m, s, e int64, b bool) {
		h.do("subproof", []interface{}{m, s, e, b}, func() {
			h.nt()
			if g := SubProof(m, s, e, b); !same(g, refSub(m, s, e, b)) {
				h.fail("subproof", "consistency ranges differ from RFC 6962", "m", m, "start", s, "end", e, "complete", b, "got", g, "want", refSub(m, s, e, b))
			}
		})
	}
	for n := int64(1); n <= 40 && !h.stop(); n++ {
		for m := int64(0); m < n && !h.stop(); m++ {
			path(m, 0, n)
			path(m, 64, 64+n)
			sub(m+1, 0, n, true)
			sub(m+1, 0, n, false)
			sub(m+1, 64, 64+n, false)
		}
	}
	for h.more() && h.cases < 60000 {
		n := h.rng.Int63()>>uint(h.rng.Intn(62)) + 1
		m := h.rng.Int63n(n)
		if h.rng.Intn(3) == 0 {
			m = n - 1 - h.rng.Int63n(min64(n, 4))
		}
		path(m, 0, n)
		sub(m+1, 0, n, true)
		calc(n)
	}
	path(0, 0, math.MaxInt64)
	path(math.MaxInt64-1, 0, math.MaxInt64)
	sub(1, 0, math.MaxInt64, true)
	sub(math.MaxInt64-1, 0, math.MaxInt64, true)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
