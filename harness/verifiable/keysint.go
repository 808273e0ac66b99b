package verifiable

import (
	"fmt"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"golang.org/x/net/context"
	"google.golang.org/protobuf/proto"
)

type kiRec struct {
	name  string
	write func(kw KeyWriter) error
	read  func(kr KeyReader) (proto.Message, error)
	want  proto.Message
}

// TestVerifRecords writes one record of every kind at many positions and reads each back.
func TestVerifRecords(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	ints := []int64{0, 1, 2, 9, 10, 47, 127, 128, 255, 256, 257, 65535, 65536, 65537, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, 1 << 48, 1 << 55, 1 << 56, 1 << 60, 1<<62 + 1, 1<<63 - 1}
	round := func(ints []int64, keys [][]byte, paths []BPath) {
		var rs []kiRec
		u := 0
		tag := func() []byte { u++; return []byte(fmt.Sprintf("record %d", u)) }
		for _, lt := range []pb.LogType{0, 1, 2} {
			lt := lt
			for _, i := range ints {
				i := i
				m := &pb.LeafNode{Mth: tag()}
				rs = append(rs, kiRec{fmt.Sprintf("leaf %d of log %d", i, lt), func(kw KeyWriter) error { return writeLeafNodeByIndex(ctxB, kw, lt, i, m) }, func(kr KeyReader) (proto.Message, error) { return lookupLeafNodeByIndex(ctxB, kr, lt, i) }, m})
				m2 := &pb.LogTreeHash{Mth: tag()}
				rs = append(rs, kiRec{fmt.Sprintf("root %d of log %d", i, lt), func(kw KeyWriter) error { return writeLogRootHashBySize(ctxB, kw, lt, i, m2) }, func(kr KeyReader) (proto.Message, error) { return lookupLogRootHashBySize(ctxB, kr, lt, i) }, m2})
				for _, j := range ints {
					j := j
					if i < j && (len(ints) < 12 || h.rng.Intn(4) == 0) {
						m3 := &pb.TreeNode{Mth: tag()}
						rs = append(rs, kiRec{fmt.Sprintf("node %d-%d of log %d", i, j, lt), func(kw KeyWriter) error { return writeTreeNodeByRange(ctxB, kw, lt, i, j, m3) }, func(kr KeyReader) (proto.Message, error) { return lookupTreeNodeByRange(ctxB, kr, lt, i, j) }, m3})
					}
				}
			}
			for _, k := range keys {
				k := k
				m := &pb.LeafData{LeafInput: tag()}
				rs = append(rs, kiRec{fmt.Sprintf("data %x of log %d", k, lt), func(kw KeyWriter) error { return writeDataByLeafHash(ctxB, kw, lt, k, m) }, func(kr KeyReader) (proto.Message, error) { return lookupDataByLeafHash(ctxB, kr, lt, k) }, m})
				u++
				m2 := &pb.EntryIndex{Index: int64(u)}
				rs = append(rs, kiRec{fmt.Sprintf("index %x of log %d", k, lt), func(kw KeyWriter) error { return writeIndexByLeafHash(ctxB, kw, lt, k, m2) }, func(kr KeyReader) (proto.Message, error) { return lookupIndexByLeafHash(ctxB, kr, lt, k) }, m2})
			}
		}
		for _, i := range ints {
			for _, p := range paths {
				i, p := i, p
				if i == 0 && p.Length() == 0 {
					continue
				}
				m := &pb.MapNode{LeftHash: tag()}
				rs = append(rs, kiRec{fmt.Sprintf("map node %d %s", i, p.Str()), func(kw KeyWriter) error { return writeMapHash(ctxB, kw, i, p, m) }, func(kr KeyReader) (proto.Message, error) { return lookupMapHash(ctxB, kr, i, p) }, m})
			}
		}
		m := &pb.ObjectSize{Size: 4711}
		rs = append(rs, kiRec{"size", func(kw KeyWriter) error { return WriteObjectSize(ctxB, kw, 4711) }, func(kr KeyReader) (proto.Message, error) {
			n, err := ReadObjectSize(ctxB, kr)
			return &pb.ObjectSize{Size: n}, err
		}, m})
		h.rng.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
		st := &rigStore{}
		st.ExecuteUpdate(ctxB, []byte("n"), func(ctx context.Context, kw KeyWriter) error {
			for _, x := range rs {
				if got, err := x.read(kw); err == nil && proto.Equal(got, x.want) {
					h.fail("records", "a record is there before it is written", "record", x.name)
					return nil
				}
				if err := x.write(kw); err != nil {
					h.fail("records", "a record cannot be written", "record", x.name, "err", err.Error())
					return nil
				}
			}
			for _, x := range rs {
				got, err := x.read(kw)
				if err != nil || !proto.Equal(got, x.want) {
					h.fail("records", "a record is not read back as it was written", "record", x.name, "got", fmt.Sprint(got), "err", fmt.Sprint(err))
					return nil
				}
			}
			return nil
		})
		h.nt()
	}
	mkp := func() []BPath {
		full := BPathFromKey(vhash(h))
		ps := []BPath{BPathEmpty, BPathFalse, BPathTrue, full}
		for _, n := range []uint{1, 2, 7, 8, 9, 16, 17, 255} {
			ps = append(ps, full.Slice(0, n))
		}
		seen := map[string]bool{}
		var r []BPath
		for _, p := range ps {
			if !seen[string(p)] {
				seen[string(p)] = true
				r = append(r, p)
			}
		}
		return r
	}
	k0 := [][]byte{{0}, {0, 0}, vhash(h), vhash(h), []byte("a"), []byte("/")}
	h.do("records at fixed positions", 0, func() { round(ints, k0, mkp()) })
	for i := 0; h.more(); i++ {
		var is []int64
		seen := map[int64]bool{}
		for k := 0; k < 10; k++ {
			x := int64(h.rng.Uint64() >> 1 >> uint(h.rng.Intn(63)))
			for _, y := range []int64{x, x ^ 1<<uint(h.rng.Intn(62)), x << 8 & (1<<63 - 1)} {
				if !seen[y] {
					seen[y] = true
					is = append(is, y)
				}
			}
		}
		h.do("records", is, func() { round(is, [][]byte{vhash(h), vhash(h)[:31], vhash(h)}, mkp()) })
	}
}
