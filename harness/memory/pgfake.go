package memory

// A stand-in for a postgres server, on a loopback connection: it understands the few statements a
// key-value table needs, runs transactions on a copy of the tables, and makes LOCK TABLE wait.
// The real backend talks to it through the real pgx library.

import (
	"context"
	"net"
	"regexp"
	"strings"
	"sync"

	"github.com/jackc/pgx/v5/pgproto3"
	"github.com/jackc/pgx/v5/pgxpool"
)

type pgTable map[string][]byte

type pgServer struct {
	ln      net.Listener
	mu      sync.Mutex
	cond    *sync.Cond
	tables  map[string]pgTable
	locks   map[string]*pgSession
	fault   func(sql string) bool // statements to refuse
	unknown string                // a statement that is not understood: nothing is concluded then
	conns   map[net.Conn]bool
}

type pgWrite struct {
	table, key string
	val        []byte
	del        bool
}

type pgSession struct {
	s      *pgServer
	status byte // I, T or E
	writes []pgWrite
	made   map[string]bool
	prep   map[string]string
}

func pgStart() (*pgServer, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &pgServer{ln: ln, tables: map[string]pgTable{}, locks: map[string]*pgSession{}, conns: map[net.Conn]bool{}}
	s.cond = sync.NewCond(&s.mu)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns[c] = true
			s.mu.Unlock()
			go s.serve(c)
		}
	}()
	return s, nil
}

func (s *pgServer) stop() {
	s.ln.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.conns {
		c.Close()
	}
}

// dial opens a pool and takes the connection the backend is given.
func (s *pgServer) dial() (*pgxpool.Conn, func(), error) {
	pool, err := pgxpool.New(context.Background(), "postgres://u:p@"+s.ln.Addr().String()+"/db?sslmode=disable")
	if err != nil {
		return nil, nil, err
	}
	c, err := pool.Acquire(context.Background())
	if err != nil {
		pool.Close()
		return nil, nil, err
	}
	return c, func() { c.Release(); pool.Close() }, nil
}

func (s *pgServer) serve(c net.Conn) {
	se := &pgSession{s: s, status: 'I', made: map[string]bool{}, prep: map[string]string{}}
	defer func() {
		c.Close()
		s.mu.Lock()
		se.finish(false)
		delete(s.conns, c)
		s.mu.Unlock()
	}()
	be := pgproto3.NewBackend(c, c)
	if _, err := be.ReceiveStartupMessage(); err != nil {
		return
	}
	be.Send(&pgproto3.AuthenticationOk{})
	for _, kv := range [][2]string{{"server_version", "16.0"}, {"client_encoding", "UTF8"}, {"standard_conforming_strings", "on"}} {
		be.Send(&pgproto3.ParameterStatus{Name: kv[0], Value: kv[1]})
	}
	be.Send(&pgproto3.BackendKeyData{ProcessID: 1, SecretKey: 1})
	be.Send(&pgproto3.ReadyForQuery{TxStatus: se.status})
	if be.Flush() != nil {
		return
	}
	var sql string
	var args [][]byte
	skip := false
	refuse := func(code string) {
		be.Send(&pgproto3.ErrorResponse{Severity: "ERROR", Code: code, Message: "refused"})
		if se.status == 'T' {
			se.status = 'E'
		}
	}
	for {
		m, err := be.Receive()
		if err != nil {
			return
		}
		switch u := m.(type) {
		case *pgproto3.Query:
			tag, rows, isSel, code := se.run(u.String, nil)
			if code != "" {
				refuse(code)
			} else {
				pgRows(be, rows, isSel, true)
				be.Send(&pgproto3.CommandComplete{CommandTag: []byte(tag)})
			}
			be.Send(&pgproto3.ReadyForQuery{TxStatus: se.status})
			be.Flush()
		case *pgproto3.Parse:
			if skip {
				continue
			}
			se.prep[u.Name] = u.Query
			be.Send(&pgproto3.ParseComplete{})
		case *pgproto3.Describe:
			if skip {
				continue
			}
			q := sql
			if u.ObjectType == 'S' {
				q = se.prep[u.Name]
				n := 0
				for i := 1; i < 10 && strings.Contains(q, "$"+string(rune('0'+i))); i++ {
					n++
				}
				var oids []uint32
				for i := 0; i < n; i++ {
					oids = append(oids, 17)
				}
				be.Send(&pgproto3.ParameterDescription{ParameterOIDs: oids})
			}
			if pgSelect.MatchString(strings.TrimSpace(q)) {
				be.Send(&pgproto3.RowDescription{Fields: []pgproto3.FieldDescription{pgField}})
			} else {
				be.Send(&pgproto3.NoData{})
			}
		case *pgproto3.Bind:
			if skip {
				continue
			}
			sql, args = se.prep[u.PreparedStatement], nil
			for _, p := range u.Parameters {
				if p != nil {
					p = append([]byte{}, p...)
				}
				args = append(args, p)
			}
			be.Send(&pgproto3.BindComplete{})
		case *pgproto3.Execute:
			if skip {
				continue
			}
			tag, rows, isSel, code := se.run(sql, args)
			if code != "" {
				refuse(code)
				skip = true
				continue
			}
			pgRows(be, rows, isSel, false)
			be.Send(&pgproto3.CommandComplete{CommandTag: []byte(tag)})
		case *pgproto3.Sync:
			skip = false
			be.Send(&pgproto3.ReadyForQuery{TxStatus: se.status})
			be.Flush()
		case *pgproto3.Flush:
			be.Flush()
		case *pgproto3.Close:
			be.Send(&pgproto3.CloseComplete{})
		case *pgproto3.Terminate:
			return
		}
	}
}

var pgField = pgproto3.FieldDescription{Name: []byte("value"), DataTypeOID: 17, DataTypeSize: -1, TypeModifier: -1, Format: 1}

func pgRows(be *pgproto3.Backend, rows [][]byte, isSel, describe bool) {
	if isSel && describe {
		be.Send(&pgproto3.RowDescription{Fields: []pgproto3.FieldDescription{pgField}})
	}
	for _, r := range rows {
		be.Send(&pgproto3.DataRow{Values: [][]byte{r}})
	}
}

func pgRe(s string) *regexp.Regexp {
	s = strings.ReplaceAll(s, "T#", `(?:public\.)?"?(\w+)"?`)
	s = strings.ReplaceAll(s, " ", `\s+`)
	s = strings.ReplaceAll(s, "~", `\s*`)
	return regexp.MustCompile(`(?is)^` + s + `\s*;?$`)
}

var (
	pgSelect = pgRe(`select value from T# where key~=~\$1(?: limit 1)?`)
	pgDelete = pgRe(`delete from T# where key~=~\$1`)
	pgInsert = pgRe(`insert into T#~\(~key~,~value~\)~values~\(~(\$[12])~,~(\$[12])~\)(?: on conflict~(?:\(~key~\)~)?do (nothing|update set value~=~(\$[12]|excluded\.value)))?`)
	pgUpdate = pgRe(`update T# set value~=~(\$[12]) where key~=~(\$[12])`)
	pgCreate = pgRe(`create (?:unlogged )?table if not exists T#~\(~key bytea(?: not null)?(?: primary key)?(?: not null)?~,~value bytea(?: not null)?~\)`)
	pgLock   = pgRe(`lock (?:table )?T#(?: in ([a-z ]+) mode)?`)
	pgBegin  = pgRe(`(?:begin|start transaction)[a-z ,]*`)
	pgEnd    = pgRe(`(commit|rollback|end)`)
)

// finish ends the session's transaction; the lock on s.mu is held.
func (se *pgSession) finish(commit bool) {
	if commit {
		for t := range se.made {
			if se.s.tables[t] == nil {
				se.s.tables[t] = pgTable{}
			}
		}
		for _, w := range se.writes {
			if w.del {
				delete(se.s.tables[w.table], w.key)
			} else {
				se.s.tables[w.table][w.key] = w.val
			}
		}
	}
	for t, o := range se.s.locks {
		if o == se {
			delete(se.s.locks, t)
		}
	}
	se.s.cond.Broadcast()
	se.writes, se.made, se.status = nil, map[string]bool{}, 'I'
}

func (se *pgSession) get(table, key string) ([]byte, bool) {
	for i := len(se.writes) - 1; i >= 0; i-- {
		if w := se.writes[i]; w.table == table && w.key == key {
			return w.val, !w.del
		}
	}
	v, ok := se.s.tables[table][key]
	return v, ok
}

// run executes a statement; code is the SQL state of a refusal.
func (se *pgSession) run(sql string, args [][]byte) (tag string, rows [][]byte, isSel bool, code string) {
	s := se.s
	s.mu.Lock()
	defer s.mu.Unlock()
	sql = strings.TrimSpace(sql)
	auto := se.status == 'I'
	if m := pgEnd.FindStringSubmatch(sql); m != nil {
		ok := strings.ToLower(m[1]) != "rollback" && se.status == 'T'
		if se.status == 'I' { // only a warning
			return strings.ToUpper(m[1]), nil, false, ""
		}
		if ok && s.fault != nil && s.fault(sql) {
			se.finish(false)
			return "", nil, false, "XX000"
		}
		se.finish(ok)
		if ok {
			return "COMMIT", nil, false, ""
		}
		return "ROLLBACK", nil, false, ""
	}
	if se.status == 'E' {
		return "", nil, false, "25P02"
	}
	if s.fault != nil && s.fault(sql) {
		return "", nil, false, "XX000"
	}
	if pgBegin.MatchString(sql) {
		se.status = 'T'
		return "BEGIN", nil, false, ""
	}
	arg := func(p string) []byte {
		i := int(p[1] - '1')
		if i < len(args) {
			return args[i]
		}
		return nil
	}
	exists := func(t string) bool { return s.tables[t] != nil || se.made[t] }
	// another session's lock keeps writers out
	wait := func(t string) {
		for s.locks[t] != nil && s.locks[t] != se {
			s.cond.Wait()
		}
	}
	defer func() {
		if auto && code == "" {
			se.finish(true)
		} else if auto {
			se.finish(false)
		}
	}()
	write := func(w pgWrite) {
		wait(w.table)
		se.writes = append(se.writes, w)
	}
	if m := pgCreate.FindStringSubmatch(sql); m != nil {
		se.made[m[1]] = true
		return "CREATE TABLE", nil, false, ""
	}
	if m := pgLock.FindStringSubmatch(sql); m != nil {
		if !exists(m[1]) {
			return "", nil, false, "42P01"
		}
		switch strings.ToLower(strings.Join(strings.Fields(m[2]), " ")) {
		case "", "access exclusive", "exclusive", "share row exclusive", "share update exclusive":
			wait(m[1])
			s.locks[m[1]] = se
		}
		return "LOCK TABLE", nil, false, ""
	}
	if m := pgSelect.FindStringSubmatch(sql); m != nil {
		if !exists(m[1]) {
			return "", nil, true, "42P01"
		}
		if k := arg("$1"); k != nil {
			if v, ok := se.get(m[1], string(k)); ok {
				return "SELECT 1", [][]byte{v}, true, ""
			}
		}
		return "SELECT 0", nil, true, ""
	}
	if m := pgDelete.FindStringSubmatch(sql); m != nil {
		if !exists(m[1]) {
			return "", nil, false, "42P01"
		}
		if k := arg("$1"); k != nil {
			write(pgWrite{table: m[1], key: string(k), del: true})
		}
		return "DELETE 1", nil, false, ""
	}
	if m := pgInsert.FindStringSubmatch(sql); m != nil {
		k, v := arg(m[2]), arg(m[3])
		if !exists(m[1]) {
			return "", nil, false, "42P01"
		}
		if k == nil {
			return "", nil, false, "23502"
		}
		_, there := se.get(m[1], string(k))
		switch {
		case !there:
		case m[4] == "":
			return "", nil, false, "23505"
		case strings.EqualFold(m[4], "nothing"):
			return "INSERT 0 0", nil, false, ""
		case strings.HasPrefix(m[5], "$"):
			v = arg(m[5])
		}
		write(pgWrite{table: m[1], key: string(k), val: v})
		return "INSERT 0 1", nil, false, ""
	}
	if m := pgUpdate.FindStringSubmatch(sql); m != nil {
		if !exists(m[1]) {
			return "", nil, false, "42P01"
		}
		k := arg(m[3])
		if _, there := se.get(m[1], string(k)); !there || k == nil {
			return "UPDATE 0", nil, false, ""
		}
		write(pgWrite{table: m[1], key: string(k), val: arg(m[2])})
		return "UPDATE 1", nil, false, ""
	}
	s.unknown = sql
	return "", nil, false, "42601"
}
