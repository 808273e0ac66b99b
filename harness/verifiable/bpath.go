package verifiable

import (
	"bytes"
	"crypto/sha256"
	"testing"
)

func vbits(b []byte) string {
	r := make([]byte, 0, len(b)*8)
	for _, x := range b {
		for m := 7; m >= 0; m-- {
			r = append(r, '0'+(x>>uint(m))&1)
		}
	}
	return string(r)
}

func vpathOK(h *vh, kase string, p BPath, want string, desc interface{}) bool {
	orig := append([]byte{}, p...)
	if int(p.Length()) != len(want) {
		h.fail(kase, "length differs from the denoted sequence", "input", desc, "want", len(want), "got", int(p.Length()))
		return false
	}
	for i := range want {
		if p.At(uint(i)) != (want[i] == '1') {
			h.fail(kase, "bit differs from the denoted sequence", "input", desc, "index", i, "want", want)
			return false
		}
	}
	if p.Str() != want {
		h.fail(kase, "string form differs from the bits", "input", desc, "want", want, "got", p.Str())
		return false
	}
	// canonical bytes: a length byte, then exactly the bits with zero padding
	exp := []byte{}
	if len(want) > 0 {
		exp = make([]byte, 2+(len(want)-1)/8)
		exp[0] = byte(len(want))
		for i := range want {
			if want[i] == '1' {
				exp[1+i/8] |= 1 << uint(7-i%8)
			}
		}
	}
	if !bytes.Equal(exp, p) {
		h.fail(kase, "representation is not the canonical one, so equal sequences could differ or distinct ones coincide", "input", desc, "want", exp, "got", []byte(p))
		return false
	}
	if !bytes.Equal(orig, p) {
		h.fail(kase, "an accessor changed the path", "input", desc)
		return false
	}
	return true
}

func TestVerifBPath(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	type pb struct {
		p BPath
		b string
	}
	base := []pb{}
	for _, k := range [][]byte{nil, {}, {0}, []byte("foo"), []byte("a"), bytes.Repeat([]byte{7}, 64), bytes.Repeat([]byte("ab"), 100)} {
		k := k
		h.do("key", map[string]interface{}{"key": k}, func() {
			h.nt()
			s := sha256.Sum256(k)
			p := BPathFromKey(k)
			if vpathOK(h, "key", p, vbits(s[:]), map[string]interface{}{"key": k}) {
				base = append(base, pb{p, vbits(s[:])})
			}
		})
	}
	h.do("constants", nil, func() {
		h.nt()
		vpathOK(h, "constants", BPathFalse, "0", "BPathFalse")
		vpathOK(h, "constants", BPathTrue, "1", "BPathTrue")
		vpathOK(h, "constants", BPathEmpty, "", "BPathEmpty")
	})
	if h.stop() {
		return
	}
	slice := func(x pb, s, e int) (r pb, ok bool) {
		d := map[string]interface{}{"path": []byte(x.p), "start": s, "end": e}
		h.do("slice", d, func() {
			if s < e {
				h.nt()
			}
			w := ""
			if s < e {
				w = x.b[s:e]
			}
			b4 := append([]byte{}, x.p...)
			q := x.p.Slice(uint(s), uint(e))
			ok = vpathOK(h, "slice", q, w, d)
			if !bytes.Equal(b4, x.p) {
				h.fail("slice", "Slice changed its receiver", "input", d)
			}
			if ok {
				r = pb{q, w}
				if len(q) > 0 && len(x.p) > 0 {
					// no aliasing: a later write to the source path must not show through
				}
			}
		})
		return
	}
	join := func(x, y pb) (r pb, ok bool) {
		d := map[string]interface{}{"a": []byte(x.p), "b": []byte(y.p)}
		h.do("join", d, func() {
			if len(x.b)+len(y.b) > 0 {
				h.nt()
			}
			xa, ya := append([]byte{}, x.p...), append([]byte{}, y.p...)
			q := BPathJoin(x.p, y.p)
			ok = vpathOK(h, "join", q, x.b+y.b, d)
			if !bytes.Equal(xa, x.p) || !bytes.Equal(ya, y.p) {
				h.fail("join", "BPathJoin changed an argument", "input", d)
			}
			r = pb{q, x.b + y.b}
		})
		return
	}
	for bi, x := range base {
		for s := 0; s <= 256; s++ {
			for _, e := range []int{0, s - 1, s, s + 1, s + 7, s + 8, s + 9, s + 15, s + 16, s + 17, 127, 128, 129, 247, 248, 249, 254, 255, 256} {
				if e < 0 || e > 256 || (bi > 1 && (s+e)%5 != 0) {
					continue
				}
				if r, ok := slice(x, s, e); ok && bi == 0 {
					// rejoin the three parts
					if a, ok2 := slice(x, 0, s); ok2 && e >= s {
						if c, ok3 := slice(x, e, 256); ok3 {
							if j, ok4 := join(a, r); ok4 {
								join(j, c)
							}
						}
					}
				}
				if h.stop() {
					return
				}
			}
		}
	}
	for la := 0; la <= 256 && !h.stop(); la++ {
		for _, lb := range []int{0, 1, 7, 8, 9, 16, 255 - la, 256 - la} {
			if lb < 0 || la+lb > 256 {
				continue
			}
			a, ok := slice(base[la%len(base)], 0, la)
			if !ok {
				return
			}
			b, ok := slice(base[(la+1)%len(base)], 256-lb, 256)
			if !ok {
				return
			}
			join(a, b)
			if la < 256 && lb == 0 {
				join(a, pb{BPathTrue, "1"})
				join(a, pb{BPathFalse, "0"})
			}
		}
	}
	for n := 0; h.more() && (n < 3000 || h.deep); n++ {
		k := make([]byte, h.rng.Intn(80))
		h.rng.Read(k)
		s := sha256.Sum256(k)
		x := pb{BPathFromKey(k), vbits(s[:])}
		if !vpathOK(h, "key", x.p, x.b, map[string]interface{}{"key": k}) {
			return
		}
		for d := 0; d < 8 && !h.stop(); d++ {
			i, j := h.rng.Intn(len(x.b)+1), h.rng.Intn(len(x.b)+1)
			if i > j {
				i, j = j, i
			}
			y, ok := slice(x, i, j)
			if !ok {
				return
			}
			z, ok := slice(x, 0, h.rng.Intn(len(x.b)+1))
			if !ok {
				return
			}
			if len(y.b)+len(z.b) <= 256 {
				if w, ok := join(y, z); ok {
					y = w
				}
			}
			x = y
		}
	}
}
