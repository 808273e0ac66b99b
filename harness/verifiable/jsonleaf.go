package verifiable

// Leaf data from JSON, objects, messages and mutations: what is created, and what validates.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"testing"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"golang.org/x/net/context"
	"google.golang.org/protobuf/proto"
)

func jlStr(h *vh) string {
	switch h.rng.Intn(9) {
	case 0:
		return ""
	case 1:
		return "***REDACTED*** Hash: " + fmt.Sprintf("%064x", h.rng.Int63())
	case 2:
		return "***REDACTED*** Hash: zz"
	case 3:
		return "\u00e9\u4e16\U0001f600\x00\n"
	case 4:
		return "<&>\u2028"
	}
	return fmt.Sprintf("s%d", h.rng.Intn(1000))
}

func jlVal(h *vh, d int) interface{} {
	k := h.rng.Intn(8)
	if d <= 0 && k > 5 {
		k -= 4
	}
	switch k {
	case 0:
		return nil
	case 1:
		return h.rng.Intn(2) == 0
	case 2:
		return float64(h.rng.Intn(2000)-1000) / float64(1+h.rng.Intn(8))
	case 3, 4, 5:
		return jlStr(h)
	case 6:
		l := []interface{}{}
		for i := h.rng.Intn(4); i > 0; i-- {
			l = append(l, jlVal(h, d-1))
		}
		return l
	}
	m := map[string]interface{}{}
	for i := h.rng.Intn(4); i > 0; i-- {
		m[jlStr(h)] = jlVal(h, d-1)
	}
	return m
}

func jlHash(b []byte) ([]byte, error) {
	var o interface{}
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	return objecthash.ObjectHashWithStdRedaction(o)
}

func jlBare(m *pb.MapMutation) ([]byte, error) {
	c := proto.Clone(m).(*pb.MapMutation)
	if c.Value != nil {
		c.Value.ExtraData = nil
		c.Value.Format = 0
	}
	b, err := json.Marshal(c)
	if err != nil {
		return nil, err
	}
	return jlHash(b)
}

func jlMutation(h *vh) *pb.MapMutation {
	by := func() []byte {
		if h.rng.Intn(3) == 0 {
			return nil
		}
		b := make([]byte, h.rng.Intn(40))
		h.rng.Read(b)
		return b
	}
	m := &pb.MapMutation{Timestamp: "2020-01-01T00:00:00Z", Action: []string{"set", "delete", "update", "", "other"}[h.rng.Intn(5)], Key: by(), PreviousLeafHash: by()}
	if h.rng.Intn(4) > 0 {
		m.Value = &pb.LeafData{LeafInput: by(), ExtraData: by(), Format: pb.DataFormat(h.rng.Intn(2))}
	}
	return m
}

// jlCheck compares one piece of created leaf data with the JSON it should hold.
func jlCheck(h *vh, kase string, ld *pb.LeafData, err error, want []byte, desc interface{}) {
	hs, herr := jlHash(want)
	if (err == nil) != (herr == nil) {
		h.fail(kase, "created although the JSON cannot be hashed, or refused although it can", "json", string(want), "err", fmt.Sprint(err), "input", desc)
		return
	}
	if err != nil {
		if ld != nil {
			h.fail(kase, "leaf data alongside an error", "json", string(want), "input", desc)
		}
		return
	}
	h.nt()
	if !bytes.Equal(ld.LeafInput, hs) {
		h.fail(kase, "the leaf input is not the standard-redaction object hash of the extra data", "json", string(want), "got", ld.LeafInput, "want", hs)
	} else if !bytes.Equal(ld.ExtraData, want) {
		h.fail(kase, "the extra data is not the JSON given", "json", string(want), "got", string(ld.ExtraData))
	}
	if e := ValidateJSONLeafData(context.TODO(), ld); e != nil {
		h.fail(kase, "created leaf data does not validate", "json", string(want), "err", e.Error())
	}
}

// jlTweak gives a changed copy of leaf data, possibly nil.
func jlTweak(h *vh, ld *pb.LeafData) *pb.LeafData {
	if ld == nil {
		return nil
	}
	c := proto.Clone(ld).(*pb.LeafData)
	switch h.rng.Intn(13) {
	case 0:
		return nil
	case 1:
		c.LeafInput = nil
	case 2:
		c.ExtraData = nil
	case 3:
		c.ExtraData = []byte("null")
	case 4:
		c.ExtraData = []byte([]string{"[]", "5", "\"x\"", "{}", "true", "{\"value\":null}", "{\"value\":5}", "{\"value\":{}}"}[h.rng.Intn(8)])
	case 5:
		if len(c.LeafInput) > 0 {
			c.LeafInput[h.rng.Intn(len(c.LeafInput))] ^= 1 << uint(h.rng.Intn(8))
		}
	case 6:
		if len(c.LeafInput) > 0 {
			c.LeafInput = c.LeafInput[:h.rng.Intn(len(c.LeafInput))]
		}
	case 7:
		c.LeafInput = append(c.LeafInput, 0)
	case 8:
		if len(c.ExtraData) > 0 {
			c.ExtraData[h.rng.Intn(len(c.ExtraData))] ^= 1
		}
	case 9:
		c.ExtraData = append([]byte(" \n"), c.ExtraData...)
	case 10:
		c.ExtraData = append(c.ExtraData, ' ')
	case 11:
		c.Format = pb.DataFormat(h.rng.Intn(3))
	case 12:
		var o interface{}
		if json.Unmarshal(c.ExtraData, &o) == nil {
			if b, err := json.MarshalIndent(o, "", "  "); err == nil {
				c.ExtraData = b
			}
		}
	}
	if h.rng.Intn(6) == 0 {
		if x, err := jlHash(c.ExtraData); err == nil {
			c.LeafInput = x
		}
	}
	return c
}

func jlValid(h *vh, kase string, ld *pb.LeafData) {
	hs, err := jlHash(ld.GetExtraData())
	want := err == nil && bytes.Equal(hs, ld.GetLeafInput())
	got := ValidateJSONLeafData(context.TODO(), ld) == nil
	if got != want {
		h.fail(kase, "validation disagrees with the equation it decides", "valid", want, "validator says", got, "data", ld)
	}
}

func jlMutValid(h *vh, kase string, ld *pb.LeafData) {
	var m *pb.MapMutation
	want := false
	if json.Unmarshal(ld.GetExtraData(), &m) == nil && m != nil {
		if hs, err := jlBare(m); err == nil {
			want = bytes.Equal(hs, ld.GetLeafInput())
		}
	}
	got := ValidateJSONLeafDataFromMutation(ld) == nil
	if got != want {
		h.fail(kase, "validation of mutation leaf data disagrees with the equation it decides", "valid", want, "validator says", got, "data", ld)
	}
}

func TestVerifJSONLeaf(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	for i := 0; h.more() && !h.stop() || i < 400; i++ {
		if h.stop() {
			break
		}
		o := jlVal(h, 3)
		raw, _ := json.Marshal(o)
		switch h.rng.Intn(6) {
		case 0:
			raw = append(append([]byte(" \t"), raw...), '\n')
		case 1:
			raw = append(raw, []byte([]string{"x", "{", " 1", "]"}[h.rng.Intn(4)])...)
		case 2:
			raw, _ = json.MarshalIndent(o, "", "  ")
		}
		var ld *pb.LeafData
		h.do("CreateJSONLeafData", string(raw), func() {
			in := append([]byte{}, raw...)
			var err error
			ld, err = CreateJSONLeafData(in)
			jlCheck(h, "CreateJSONLeafData", ld, err, raw, string(raw))
			if !bytes.Equal(in, raw) {
				h.fail("CreateJSONLeafData", "the caller's bytes were altered", "json", string(raw))
			}
		})
		h.do("CreateJSONLeafDataFromObject", o, func() {
			want, _ := json.Marshal(o)
			d, err := CreateJSONLeafDataFromObject(o)
			jlCheck(h, "CreateJSONLeafDataFromObject", d, err, want, o)
		})
		if i%4 == 0 {
			for j, bad := range []interface{}{make(chan int), math.NaN(), map[string]interface{}{"a": math.Inf(1)}, func() {}, json.Number("x")} {
				h.do("CreateJSONLeafDataFromObject refused", j, func() {
					if d, err := CreateJSONLeafDataFromObject(bad); err == nil {
						h.fail("CreateJSONLeafDataFromObject", "leaf data from what has no JSON", "object", fmt.Sprintf("%T", bad), "made", d)
					}
				})
			}
			for _, bad := range []string{"", "{", "nul", "{\"a\":}", "[1,]", "x"} {
				h.do("refused JSON", bad, func() {
					if d, err := CreateRedactableJSONLeafData([]byte(bad)); err == nil {
						h.fail("CreateRedactableJSONLeafData", "leaf data from what is not JSON", "json", bad, "made", d)
					}
					if d, err := CreateJSONLeafData([]byte(bad)); err == nil {
						h.fail("CreateJSONLeafData", "leaf data from what is not JSON", "json", bad, "made", d)
					}
				})
			}
		}
		h.do("ValidateJSONLeafData", ld, func() {
			for j := 0; j < 4; j++ {
				x := jlTweak(h, ld)
				jlValid(h, "ValidateJSONLeafData", x)
				jlMutValid(h, "ValidateJSONLeafDataFromMutation", x)
			}
		})
		if ld != nil && i%4 == 0 {
			h.do("CreateRedactableJSONLeafData", string(raw), func() {
				d, err := CreateRedactableJSONLeafData(raw)
				if err != nil {
					return
				}
				if !bytes.Contains(raw, []byte("***REDACTED***")) {
					if e := ValidateJSONLeafData(context.TODO(), d); e != nil {
						h.fail("CreateRedactableJSONLeafData", "redactable leaf data does not validate", "json", string(raw), "made", string(d.ExtraData))
					}
					s, err := ShedRedactedJSONFields(d.ExtraData)
					if err != nil {
						h.fail("ShedRedactedJSONFields", "redactable leaf data cannot be shed", "json", string(raw), "err", err.Error())
					} else {
						var a, b interface{}
						json.Unmarshal(s, &a)
						json.Unmarshal(raw, &b)
						x, _ := json.Marshal(a)
						y, _ := json.Marshal(b)
						if !bytes.Equal(x, y) {
							h.fail("ShedRedactedJSONFields", "shedding what was made redactable does not give the JSON back", "json", string(raw), "got", string(s))
						}
					}
				}
			})
		}
		m := jlMutation(h)
		h.do("CreateJSONLeafDataFromProto", m, func() {
			want, _ := json.Marshal(m)
			d, err := CreateJSONLeafDataFromProto(m)
			jlCheck(h, "CreateJSONLeafDataFromProto", d, err, want, m)
		})
		h.do("CreateJSONLeafDataFromMutation", m, func() {
			before := proto.Clone(m).(*pb.MapMutation)
			vp := m.Value
			d, err := CreateJSONLeafDataFromMutation(m)
			if !proto.Equal(before, m) || vp != m.Value || (vp != nil && (bytes.Equal(vp.ExtraData, nil) != bytes.Equal(before.Value.ExtraData, nil))) {
				h.fail("CreateJSONLeafDataFromMutation", "the caller's mutation was altered", "before", before, "after", m)
			}
			if err != nil {
				h.fail("CreateJSONLeafDataFromMutation", "refused a mutation", "mutation", m, "err", err.Error())
				return
			}
			want, _ := json.Marshal(before)
			if !bytes.Equal(want, d.ExtraData) {
				h.fail("CreateJSONLeafDataFromMutation", "the extra data is not the mutation's JSON", "mutation", m, "got", string(d.ExtraData), "want", string(want))
			}
			hs, err := jlBare(before)
			if err != nil || !bytes.Equal(hs, d.LeafInput) {
				h.fail("CreateJSONLeafDataFromMutation", "the leaf input is not the hash of the mutation without its value's extra data and format", "mutation", m, "got", d.LeafInput, "want", hs)
			}
			if e := ValidateJSONLeafDataFromMutation(d); e != nil {
				h.fail("ValidateJSONLeafDataFromMutation", "created mutation leaf data does not validate", "mutation", m)
			}
			h.nt()
			for j := 0; j < 4; j++ {
				x := jlTweak(h, d)
				jlMutValid(h, "ValidateJSONLeafDataFromMutation", x)
				jlValid(h, "ValidateJSONLeafData", x)
			}
		})
	}
}
