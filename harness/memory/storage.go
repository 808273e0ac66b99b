package memory

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/badger"
	"github.com/continusec/verifiabledatastructures/storage/bolt"
	"github.com/continusec/verifiabledatastructures/storage/postgres"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
)

type stBackend struct {
	name  string
	dir   string
	sw    verifiable.StorageWriter
	close func()
}

// stOpen opens a backend; files go below dir only.
func stOpen(name, dir string) *stBackend {
	switch name {
	case "memory":
		return &stBackend{name: name, sw: &TransientStorage{}, close: func() {}}
	case "bolt":
		s := &bolt.Storage{Path: dir}
		return &stBackend{name: name, dir: dir, sw: s, close: s.Close}
	case "postgres":
		return stPostgres(dir)
	default:
		s := &badger.Storage{Path: dir}
		return &stBackend{name: name, dir: dir, sw: s, close: s.Close}
	}
}

var (
	pgServers  = map[string]*pgServer{}
	pgServerMu sync.Mutex
)

// stPostgres opens the postgres backend on the stand-in server kept for dir, by a connection of its own.
func stPostgres(dir string) *stBackend {
	pgServerMu.Lock()
	defer pgServerMu.Unlock()
	s := pgServers[dir]
	if s == nil {
		n, err := pgStart()
		if err != nil {
			panic("no loopback: " + err.Error())
		}
		s = n
		pgServers[dir] = s
	}
	c, end, err := s.dial()
	if err != nil {
		panic("no connection to the stand-in server: " + err.Error())
	}
	return &stBackend{name: "postgres", dir: dir, sw: &postgres.Storage{Pool: c}, close: end}
}

// stForget stops the stand-in server of dir, and says whether it understood everything it was asked.
func stForget(dir string) bool {
	pgServerMu.Lock()
	defer pgServerMu.Unlock()
	s := pgServers[dir]
	delete(pgServers, dir)
	if s == nil {
		return true
	}
	s.stop()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.unknown == ""
}

// stUnderstood says whether the stand-in server understands what the backend asks of it.
func stUnderstood() bool {
	dir := "probe"
	ctx := context.Background()
	b := stPostgres(dir)
	for _, v := range []proto.Message{&pb.ObjectSize{Size: 1}, &pb.ObjectSize{Size: 2}, nil, nil} {
		b.sw.ExecuteUpdate(ctx, []byte{1}, func(ctx context.Context, db verifiable.KeyWriter) error {
			db.Get(ctx, []byte("k"), &pb.ObjectSize{})
			return db.Set(ctx, []byte("k"), v)
		})
		b.sw.ExecuteReadOnly(ctx, []byte{1}, func(ctx context.Context, db verifiable.KeyReader) error {
			return db.Get(ctx, []byte("k"), &pb.ObjectSize{})
		})
	}
	done := make(chan bool)
	go func() { b.close(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
	}
	return stForget(dir)
}

type stModel map[string]map[string]proto.Message

func (m stModel) clone() stModel {
	r := stModel{}
	for ns, d := range m {
		r[ns] = map[string]proto.Message{}
		for k, v := range d {
			r[ns][k] = v
		}
	}
	return r
}

// stValue draws a record; some have an empty encoding.
func stValue(h *vh) proto.Message {
	b := func() []byte {
		x := make([]byte, h.rng.Intn(40))
		h.rng.Read(x)
		return x
	}
	switch h.rng.Intn(8) {
	case 0:
		return &pb.LeafData{}
	case 1:
		return &pb.ObjectSize{}
	case 2:
		return &pb.ObjectSize{Size: h.rng.Int63() - h.rng.Int63()}
	case 3:
		return &pb.MapNode{LeafHash: b(), Path: b(), LeftNumber: h.rng.Int63n(9)}
	case 4:
		return &pb.EntryIndex{Index: h.rng.Int63n(3)}
	}
	return &pb.LeafData{LeafInput: b(), ExtraData: b(), Format: pb.DataFormat(h.rng.Intn(2))}
}

func stKeys(h *vh) [][]byte {
	ks := [][]byte{{0}, {0, 0}, {0xff}, []byte("metadata/size"), []byte("metadata/siz"), []byte("user_data/"), []byte("user_data/\x00"), []byte("USER_DATA/"), []byte("root"), []byte("key/with/slash"), bytes.Repeat([]byte{7}, 200), []byte("\xc3\x28"), []byte("\xef\xbf\xbd")}
	for i := 0; i < 6; i++ {
		x := make([]byte, 1+h.rng.Intn(45))
		h.rng.Read(x)
		ks = append(ks, x)
	}
	return ks
}

// stCheckAll reads every key of every namespace and compares with the model.
func stCheckAll(h *vh, b *stBackend, m stModel, nss, keys [][]byte, kase string, rec interface{}) bool {
	ctx := context.Background()
	for _, ns := range nss {
		called := 0
		err := b.sw.ExecuteReadOnly(ctx, ns, func(ctx context.Context, db verifiable.KeyReader) error {
			called++
			for _, k := range keys {
				want := m[string(ns)][string(k)]
				if why := stGet(h, db, k, want); why != "" {
					h.fail(kase, why, "backend", b.name, "namespace", fmt.Sprintf("%x", ns), "key", fmt.Sprintf("%x", k), "history", rec)
				}
			}
			return nil
		})
		if err != nil || called != 1 {
			h.fail(kase, "a read transaction did not run its function once", "backend", b.name, "calls", called, "error", fmt.Sprint(err), "history", rec)
		}
	}
	return h.fails == 0
}

// stGet reads key into a message that may already hold something.
func stGet(h *vh, db verifiable.KeyReader, k []byte, want proto.Message) string {
	if want == nil {
		got := &pb.LeafData{}
		err := db.Get(context.Background(), append([]byte(nil), k...), got)
		if err != verifiable.ErrNoSuchKey {
			return "reading a key that was never set, or was deleted, does not give ErrNoSuchKey: " + fmt.Sprint(err, got)
		}
		return ""
	}
	got := proto.Clone(want)
	if h.rng.Intn(2) == 0 {
		proto.Reset(got)
	} else if l, ok := got.(*pb.LeafData); ok {
		l.ExtraData = []byte("stale")
	}
	err := db.Get(context.Background(), append([]byte(nil), k...), got)
	if err != nil {
		return "reading a key that was set failed: " + err.Error()
	}
	if !proto.Equal(got, want) {
		return fmt.Sprintf("read %v, last set %v", got, want)
	}
	return ""
}

func stHistory(h *vh, name string, steps int, reopen bool) {
	dir, err := os.MkdirTemp("", "verif-storage-")
	if err != nil {
		h.t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	defer stForget(dir)
	b := stOpen(name, dir)
	defer func() { b.close() }()
	ctx := context.Background()
	nss := [][]byte{{1}, {1, 0}, []byte("01"), {0xab}, []byte("ab"), []byte("AB")}
	if name != "memory" {
		nss = [][]byte{{0xab}, []byte("ab"), []byte("\x61b\x00")}
	}
	keys := stKeys(h)
	m := stModel{}
	var rec []string
	for i := 0; i < steps && h.fails == 0; i++ {
		ns := nss[h.rng.Intn(len(nss))]
		s := string(ns)
		fails := h.rng.Intn(6) == 0
		after := m.clone()
		if after[s] == nil {
			after[s] = map[string]proto.Message{}
		}
		var mine error
		if fails {
			mine = errors.New("callback error " + strconv.Itoa(i))
			switch h.rng.Intn(6) {
			case 0:
				mine = verifiable.ErrNoSuchKey
			case 1:
				mine = verifiable.ErrNotFound
			}
		}
		if h.rng.Intn(5) == 0 {
			rec = append(rec, fmt.Sprintf("read %x err=%v", ns, mine))
			err := b.sw.ExecuteReadOnly(ctx, ns, func(ctx context.Context, db verifiable.KeyReader) error {
				k := keys[h.rng.Intn(len(keys))]
				if why := stGet(h, db, k, m[s][string(k)]); why != "" {
					h.fail("storage", why, "backend", name, "key", fmt.Sprintf("%x", k), "history", rec)
				}
				return mine
			})
			if err != mine {
				h.fail("storage", "a read transaction does not return its function's error", "backend", name, "want", fmt.Sprint(mine), "got", fmt.Sprint(err))
			}
			continue
		}
		rec = append(rec, fmt.Sprintf("update %x err=%v", ns, mine))
		calls := 0
		err := b.sw.ExecuteUpdate(ctx, ns, func(ctx context.Context, db verifiable.KeyWriter) error {
			calls++
			for j := h.rng.Intn(6); j >= 0; j-- {
				k := keys[h.rng.Intn(len(keys))]
				switch h.rng.Intn(4) {
				case 0:
					rec = append(rec, fmt.Sprintf("  delete %x", k))
					if err := db.Set(ctx, append([]byte(nil), k...), nil); err != nil {
						h.fail("storage", "setting nil failed: "+err.Error(), "backend", name, "history", rec)
					}
					delete(after[s], string(k))
				case 1:
					if why := stGet(h, db, k, after[s][string(k)]); why != "" {
						h.fail("storage", "inside an update: "+why, "backend", name, "key", fmt.Sprintf("%x", k), "history", rec)
					}
				default:
					v := stValue(h)
					rec = append(rec, fmt.Sprintf("  set %x %v", k, v))
					if err := db.Set(ctx, append([]byte(nil), k...), v); err != nil {
						h.fail("storage", "set failed: "+err.Error(), "backend", name, "history", rec)
					}
					after[s][string(k)] = v
					if why := stGet(h, db, k, v); why != "" {
						h.fail("storage", "straight after set: "+why, "backend", name, "key", fmt.Sprintf("%x", k), "history", rec)
					}
				}
			}
			return mine
		})
		if err != mine {
			h.fail("storage", "an update does not return its function's error", "backend", name, "want", fmt.Sprint(mine), "got", fmt.Sprint(err))
		}
		if calls != 1 {
			h.fail("storage", "an update did not run its function once", "backend", name, "calls", calls)
		}
		if h.fails > 0 {
			return
		}
		if mine == nil {
			m = after
		} else { // whether a failed update is undone is up to the backend, but it is undone as a whole
			same := true
			b.sw.ExecuteReadOnly(ctx, ns, func(ctx context.Context, db verifiable.KeyReader) error {
				for _, k := range keys {
					same = same && stGet(h, db, k, m[s][string(k)]) == ""
				}
				return nil
			})
			if !same {
				m = after
			}
			rec = append(rec, fmt.Sprintf("  (undone: %v)", same))
		}
		if i%7 == 0 && !stCheckAll(h, b, m, nss, keys, "storage", rec) {
			return
		}
		if reopen && name != "memory" && i%25 == 24 {
			rec = append(rec, "close and open again")
			b.close()
			b = stOpen(name, dir)
		}
	}
	stCheckAll(h, b, m, nss, keys, "storage", rec)
	h.nontriv++
}

// stPanic checks that a panic in a transaction leaves the store usable.
func stPanic(h *vh, name string) {
	dir, _ := os.MkdirTemp("", "verif-storage-")
	defer os.RemoveAll(dir)
	defer stForget(dir)
	b := stOpen(name, dir)
	defer b.close()
	ns := []byte{3}
	for i := 0; i < 4; i++ {
		func() {
			defer func() { recover() }()
			if i%2 == 0 {
				b.sw.ExecuteUpdate(context.Background(), ns, func(ctx context.Context, db verifiable.KeyWriter) error { panic("callback") })
			} else {
				b.sw.ExecuteReadOnly(context.Background(), ns, func(ctx context.Context, db verifiable.KeyReader) error { panic("callback") })
			}
		}()
		done := make(chan error, 1)
		go func() {
			err := b.sw.ExecuteUpdate(context.Background(), ns, func(ctx context.Context, db verifiable.KeyWriter) error {
				return db.Set(ctx, []byte("k"), &pb.ObjectSize{Size: int64(i)})
			})
			if err == nil {
				err = b.sw.ExecuteReadOnly(context.Background(), ns, func(ctx context.Context, db verifiable.KeyReader) error {
					return db.Get(ctx, []byte("k"), &pb.ObjectSize{})
				})
			}
			done <- err
		}()
		select {
		case err := <-done:
			if err != nil {
				h.fail("panic", "a transaction after one that panicked fails: "+err.Error(), "backend", name)
			}
		case <-time.After(8 * time.Second):
			h.fail("panic", "a lock is still held after a transaction that panicked", "backend", name, "step", i)
			return
		}
	}
	h.nontriv++
}

// stLocks runs transactions side by side: an update excludes everything, reads share.
func stLocks(h *vh) {
	b := stOpen("memory", "")
	ctx := context.Background()
	nss := [][]byte{{1}, {2}, {3}}
	for _, other := range nss { // two reads at once
		in := make(chan bool)
		go b.sw.ExecuteReadOnly(ctx, nss[0], func(context.Context, verifiable.KeyReader) error {
			done := make(chan bool)
			go func() {
				b.sw.ExecuteReadOnly(ctx, other, func(context.Context, verifiable.KeyReader) error { return nil })
				close(done)
			}()
			select {
			case <-done:
				in <- true
			case <-time.After(5 * time.Second):
				in <- false
			}
			return nil
		})
		if !<-in {
			h.fail("locks", "a read waits for another read", "namespaces", fmt.Sprint(nss[0], other))
			return
		}
	}
	for _, first := range []string{"update", "read"} { // an update next to a read or another update
		for _, second := range []string{"update", "read"} {
			if first == "read" && second == "read" {
				continue
			}
			for _, other := range nss[:2] {
				entered, release := make(chan bool), make(chan bool)
				var inSecond int32
				run := func(kind string, ns []byte, f func()) {
					if kind == "update" {
						b.sw.ExecuteUpdate(ctx, ns, func(context.Context, verifiable.KeyWriter) error { f(); return nil })
					} else {
						b.sw.ExecuteReadOnly(ctx, ns, func(context.Context, verifiable.KeyReader) error { f(); return nil })
					}
				}
				end := make(chan bool, 2)
				go func() { run(first, nss[0], func() { entered <- true; <-release }); end <- true }()
				<-entered
				go func() { run(second, other, func() { atomic.StoreInt32(&inSecond, 1) }); end <- true }()
				time.Sleep(20 * time.Millisecond)
				overlap := atomic.LoadInt32(&inSecond) == 1
				release <- true
				<-end
				<-end
				if overlap {
					h.fail("locks", "the in-memory backend lets a "+second+" run during a "+first, "namespaces", fmt.Sprint(nss[0], other))
					return
				}
			}
		}
	}
	h.nontriv++
}

// stCount increments counters from several goroutines: no increment of a transaction that succeeded is lost.
func stCount(h *vh, name string) {
	dir, _ := os.MkdirTemp("", "verif-storage-")
	defer os.RemoveAll(dir)
	defer stForget(dir)
	b := stOpen(name, dir)
	defer b.close()
	ctx := context.Background()
	nss := [][]byte{{1}, {2}}
	var want [2]int64
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 25; i++ {
				w := (g + i) % 2
				err := b.sw.ExecuteUpdate(ctx, nss[w], func(ctx context.Context, db verifiable.KeyWriter) error {
					var o pb.ObjectSize
					if err := db.Get(ctx, []byte("n"), &o); err != nil && err != verifiable.ErrNoSuchKey {
						return err
					}
					o.Size++
					return db.Set(ctx, []byte("n"), &o)
				})
				if err == nil {
					atomic.AddInt64(&want[w], 1)
				}
				b.sw.ExecuteReadOnly(ctx, nss[1-w], func(ctx context.Context, db verifiable.KeyReader) error {
					var o pb.ObjectSize
					return db.Get(ctx, []byte("n"), &o)
				})
			}
		}(g)
	}
	wg.Wait()
	for w, ns := range nss {
		var o pb.ObjectSize
		err := b.sw.ExecuteReadOnly(ctx, ns, func(ctx context.Context, db verifiable.KeyReader) error { return db.Get(ctx, []byte("n"), &o) })
		if err != nil || o.Size != want[w] {
			h.fail("count", "increments by concurrent updates are lost", "backend", name, "successful", want[w], "stored", o.Size, "error", fmt.Sprint(err))
		}
	}
	h.nontriv++
}

// stInterleave starts a read while an update is between two writes: the update keeps both.
func stInterleave(h *vh, name string, kind int) {
	dir, _ := os.MkdirTemp("", "verif-storage-")
	defer os.RemoveAll(dir)
	defer stForget(dir)
	b := stOpen(name, dir)
	defer b.close()
	ctx := context.Background()
	ns, other := []byte{1}, []byte{1}
	if kind%2 == 1 {
		other = []byte{2}
	}
	for _, n := range [][]byte{ns, other} { // the tables are there
		b.sw.ExecuteReadOnly(ctx, n, func(context.Context, verifiable.KeyReader) error { return nil })
	}
	set := func(db verifiable.KeyWriter, k string) error { return db.Set(ctx, []byte(k), &pb.ObjectSize{Size: 7}) }
	read := make(chan error, 1)
	err := b.sw.ExecuteUpdate(ctx, ns, func(ctx context.Context, db verifiable.KeyWriter) error {
		if err := set(db, "a"); err != nil {
			return err
		}
		go func() {
			f := func(db verifiable.KeyReader) error {
				if err := db.Get(ctx, []byte("zz"), &pb.ObjectSize{}); err != verifiable.ErrNoSuchKey {
					return fmt.Errorf("read gives %v", err)
				}
				return nil
			}
			if kind/2 == 0 {
				read <- b.sw.ExecuteReadOnly(ctx, other, func(ctx context.Context, db verifiable.KeyReader) error { return f(db) })
			} else {
				read <- b.sw.ExecuteUpdate(ctx, other, func(ctx context.Context, db verifiable.KeyWriter) error { f(db); return errors.New("mine") })
			}
		}()
		select {
		case e := <-read:
			read <- e
		case <-time.After(40 * time.Millisecond):
		}
		return set(db, "b")
	})
	select {
	case e := <-read:
		if kind/2 == 0 && e != nil {
			h.fail("interleave", "a read during an update fails: "+e.Error(), "backend", name)
		}
	case <-time.After(8 * time.Second):
		h.fail("interleave", "a read never ends", "backend", name)
		return
	}
	e := b.sw.ExecuteReadOnly(ctx, ns, func(ctx context.Context, db verifiable.KeyReader) error {
		var x, y pb.ObjectSize
		e1, e2 := db.Get(ctx, []byte("a"), &x), db.Get(ctx, []byte("b"), &y)
		if err == nil && (e1 != nil || e2 != nil || x.Size != 7 || y.Size != 7) {
			h.fail("interleave", "an update that succeeded has lost a write to another transaction", "backend", name, "errors", fmt.Sprint(e1, e2))
		}
		return nil
	})
	if err != nil || e != nil {
		h.fail("interleave", "a transaction fails because of another", "backend", name, "errors", fmt.Sprint(err, e))
	}
	h.nontriv++
}

// stPgTwo increments a counter through two connections to one server, as two processes would.
func stPgTwo(h *vh) {
	dir, _ := os.MkdirTemp("", "verif-storage-")
	defer os.RemoveAll(dir)
	defer stForget(dir)
	ctx := context.Background()
	bs := []*stBackend{stPostgres(dir), stPostgres(dir)}
	var want int64
	var wg sync.WaitGroup
	for _, b := range bs {
		wg.Add(1)
		go func(b *stBackend) {
			defer wg.Done()
			defer b.close()
			for i := 0; i < 40; i++ {
				if b.sw.ExecuteUpdate(ctx, []byte{1}, func(ctx context.Context, db verifiable.KeyWriter) error {
					var o pb.ObjectSize
					if err := db.Get(ctx, []byte("n"), &o); err != nil && err != verifiable.ErrNoSuchKey {
						return err
					}
					o.Size++
					time.Sleep(time.Duration(i%3) * 100 * time.Microsecond)
					return db.Set(ctx, []byte("n"), &o)
				}) == nil {
					atomic.AddInt64(&want, 1)
				}
			}
		}(b)
	}
	wg.Wait()
	b := stPostgres(dir)
	defer b.close()
	var o pb.ObjectSize
	err := b.sw.ExecuteReadOnly(ctx, []byte{1}, func(ctx context.Context, db verifiable.KeyReader) error { return db.Get(ctx, []byte("n"), &o) })
	if err != nil || o.Size != want || want != 80 {
		h.fail("two", "increments by two processes are lost", "successful", want, "stored", o.Size, "error", fmt.Sprint(err))
	}
	h.nontriv++
}

// stPgFaults makes the server refuse one statement after the other.
func stPgFaults(h *vh) {
	ctx := context.Background()
	for n := 0; n < 12; n++ {
		for _, known := range []bool{false, true} {
			dir := fmt.Sprint("faults", n, known)
			b := stPostgres(dir)
			s := pgServers[dir]
			seeded := false
			put := func(v int64) error {
				return b.sw.ExecuteUpdate(ctx, []byte{5}, func(ctx context.Context, db verifiable.KeyWriter) error {
					e := db.Get(ctx, []byte("k"), &pb.ObjectSize{})
					if e != nil && e != verifiable.ErrNoSuchKey {
						return e
					}
					if seeded && e != nil {
						h.fail("pgfault", "a read that the server refuses is taken for an absent key", "statement", n)
					}
					return db.Set(ctx, []byte("k"), &pb.ObjectSize{Size: v})
				})
			}
			if known {
				put(1)
				seeded = true
			}
			left := n
			hit := ""
			s.mu.Lock()
			s.fault = func(sql string) bool {
				if hit == "" && left == 0 {
					hit = sql
					return true
				}
				left--
				return false
			}
			s.mu.Unlock()
			err := put(2)
			s.mu.Lock()
			s.fault = nil
			s.mu.Unlock()
			b2 := stPostgres(dir)
			var o pb.ObjectSize
			e := b2.sw.ExecuteReadOnly(ctx, []byte{5}, func(ctx context.Context, db verifiable.KeyReader) error { return db.Get(ctx, []byte("k"), &o) })
			switch {
			case err == nil && (e != nil || o.Size != 2):
				h.fail("pgfault", "an update that reports success is not there", "refused", hit, "read", fmt.Sprint(e, o.Size))
			case err != nil && known && (e != nil || o.Size != 1), err != nil && !known && e != verifiable.ErrNoSuchKey:
				h.fail("pgfault", "an update that reports an error has changed the value", "refused", hit, "read", fmt.Sprint(e, o.Size))
			case err == verifiable.ErrNoSuchKey:
				h.fail("pgfault", "a server fault is reported as an absent key", "refused", hit)
			}
			b.close()
			b2.close()
			stForget(dir)
		}
	}
	h.nontriv++
}

// stFaults checks what the backends say when the store fails.
func stFaults(h *vh, name string) {
	dir, _ := os.MkdirTemp("", "verif-storage-")
	defer os.RemoveAll(dir)
	defer stForget(dir)
	ctx := context.Background()
	isFault := func(what string, err error) {
		if err == nil || err == verifiable.ErrNoSuchKey {
			h.fail("fault", what+" is not reported as a storage error", "backend", name, "error", fmt.Sprint(err))
		}
	}
	// a directory that cannot exist
	f := filepath.Join(dir, "file")
	os.WriteFile(f, []byte("x"), 0600)
	x := stOpen(name, filepath.Join(f, "below"))
	called := false
	isFault("opening below a file (read)", x.sw.ExecuteReadOnly(ctx, []byte{1}, func(context.Context, verifiable.KeyReader) error { called = true; return nil }))
	isFault("opening below a file (update)", x.sw.ExecuteUpdate(ctx, []byte{1}, func(context.Context, verifiable.KeyWriter) error { called = true; return nil }))
	if called {
		h.fail("fault", "a transaction on a store that cannot be opened runs", "backend", name)
	}
	// a transaction that is over
	b := stOpen(name, dir)
	var old verifiable.KeyWriter
	b.sw.ExecuteUpdate(ctx, []byte{2}, func(ctx context.Context, db verifiable.KeyWriter) error {
		old = db
		return db.Set(ctx, []byte("k"), &pb.ObjectSize{Size: 5})
	})
	if name == "badger" { // bolt reads of a closed transaction are not defined
		var o pb.ObjectSize
		err := old.Get(ctx, []byte("k"), &o)
		if err == verifiable.ErrNoSuchKey || (err == nil && o.Size != 5) {
			h.fail("fault", "a read that fails is taken for an absent key", "backend", name, "error", fmt.Sprint(err))
		}
	}
	// writes that the store refuses
	err := b.sw.ExecuteUpdate(ctx, []byte{2}, func(ctx context.Context, db verifiable.KeyWriter) error {
		return db.Set(ctx, []byte{}, &pb.ObjectSize{Size: 6})
	})
	isFault("setting an empty key", err)
	err = b.sw.ExecuteUpdate(ctx, []byte{2}, func(ctx context.Context, db verifiable.KeyWriter) error {
		return db.Set(ctx, bytes.Repeat([]byte{1}, 70000), &pb.ObjectSize{Size: 6})
	})
	isFault("setting a key that is too long", err)
	// a closed store
	b.close()
	called = false
	func() {
		defer func() { recover() }()
		isFault("a read of a closed store", b.sw.ExecuteReadOnly(ctx, []byte{2}, func(ctx context.Context, db verifiable.KeyReader) error {
			called = true
			return db.Get(ctx, []byte("k"), &pb.ObjectSize{})
		}))
	}()
	h.nontriv++
}

// stBadRecord reads a record that is not a message of the type asked for.
func stBadRecord(h *vh, name string) {
	dir, _ := os.MkdirTemp("", "verif-storage-")
	defer os.RemoveAll(dir)
	defer stForget(dir)
	b := stOpen(name, dir)
	defer b.close()
	ctx := context.Background()
	bad := &pb.LeafData{} // carries bytes that are no ResourceAccount: field 1 a string of invalid UTF-8
	bad.LeafInput = []byte{0xff, 0xfe}
	var err error
	b.sw.ExecuteUpdate(ctx, []byte{9}, func(ctx context.Context, db verifiable.KeyWriter) error {
		if e := db.Set(ctx, []byte("k"), bad); e != nil {
			return e
		}
		err = db.Get(ctx, []byte("k"), &pb.ResourceAccount{})
		return nil
	})
	if err == nil || err == verifiable.ErrNoSuchKey {
		h.fail("record", "a record that cannot be decoded reads as "+fmt.Sprint(err), "backend", name)
	}
	// and a value that cannot be encoded is not stored
	e := b.sw.ExecuteUpdate(ctx, []byte{9}, func(ctx context.Context, db verifiable.KeyWriter) error {
		e := db.Set(ctx, []byte("k"), &pb.ResourceAccount{Id: "\xff\xfe"})
		if e == nil {
			h.fail("record", "a value that cannot be encoded is set without an error", "backend", name)
		}
		var o pb.LeafData
		if g := db.Get(ctx, []byte("k"), &o); g != nil || !proto.Equal(&o, bad) {
			h.fail("record", "a failed set changed the value", "backend", name, "error", fmt.Sprint(g))
		}
		return nil
	})
	if e != nil {
		h.fail("record", "update failed: "+e.Error(), "backend", name)
	}
	h.nontriv++
}

func TestVerifStorage(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	names := []string{"memory", "bolt", "badger", "postgres"}
	if !stUnderstood() {
		names = names[:3]
	}
	for _, n := range names {
		n := n
		h.do("record", n, func() { stBadRecord(h, n) })
		h.do("panic", n, func() { stPanic(h, n) })
		h.do("count", n, func() { stCount(h, n) })
		if n == "bolt" || n == "badger" {
			h.do("fault", n, func() { stFaults(h, n) })
		}
	}
	for _, n := range names[1:] {
		for k := 0; k < 4; k++ {
			n, k := n, k
			if n == "bolt" && k == 2 { // updates of one file exclude each other
				continue
			}
			h.do("interleave", []interface{}{n, k}, func() { stInterleave(h, n, k) })
		}
	}
	if len(names) == 4 {
		h.do("two", "postgres", func() { stPgTwo(h) })
		h.do("pgfault", "postgres", func() { stPgFaults(h) })
	}
	h.do("locks", "memory", func() { stLocks(h) })
	for _, n := range names {
		n := n
		for i := 0; i < map[string]int{"memory": 60, "bolt": 3, "badger": 2, "postgres": 8}[n] && !h.stop(); i++ {
			h.do("storage", []interface{}{n, i}, func() { stHistory(h, n, 60, i%2 == 0) })
		}
	}
	for i := 0; h.more(); i++ {
		n := "memory"
		if i%20 == 19 {
			n = names[1+h.rng.Intn(len(names)-1)]
		}
		h.do("storage", []interface{}{n, "more", i}, func() { stHistory(h, n, 80, i%2 == 0) })
	}
}
