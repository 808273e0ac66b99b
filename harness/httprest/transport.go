package httprest

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/continusec/verifiabledatastructures/merkle"
	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	vgrpc "github.com/continusec/verifiabledatastructures/server/grpc"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"golang.org/x/net/context"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

// trFake records the request it gets and answers as told.
type trFake struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	mu   sync.Mutex
	op   string
	req  proto.Message
	n    int
	resp proto.Message
	err  error
}

func (f *trFake) got(op string, r proto.Message) (proto.Message, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.op, f.req = op, proto.Clone(r)
	f.n++
	return f.resp, f.err
}

func (f *trFake) reset(resp proto.Message, err error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.op, f.req, f.n, f.resp, f.err = "", nil, 0, resp, err
}

func (f *trFake) LogAddEntry(ctx context.Context, r *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	x, err := f.got("LogAddEntry", r)
	y, _ := x.(*pb.LogAddEntryResponse)
	return y, err
}
func (f *trFake) LogFetchEntries(ctx context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	x, err := f.got("LogFetchEntries", r)
	y, _ := x.(*pb.LogFetchEntriesResponse)
	return y, err
}
func (f *trFake) LogTreeHash(ctx context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	x, err := f.got("LogTreeHash", r)
	y, _ := x.(*pb.LogTreeHashResponse)
	return y, err
}
func (f *trFake) LogInclusionProof(ctx context.Context, r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	x, err := f.got("LogInclusionProof", r)
	y, _ := x.(*pb.LogInclusionProofResponse)
	return y, err
}
func (f *trFake) LogConsistencyProof(ctx context.Context, r *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	x, err := f.got("LogConsistencyProof", r)
	y, _ := x.(*pb.LogConsistencyProofResponse)
	return y, err
}
func (f *trFake) MapSetValue(ctx context.Context, r *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	x, err := f.got("MapSetValue", r)
	y, _ := x.(*pb.MapSetValueResponse)
	return y, err
}
func (f *trFake) MapGetValue(ctx context.Context, r *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	x, err := f.got("MapGetValue", r)
	y, _ := x.(*pb.MapGetValueResponse)
	return y, err
}
func (f *trFake) MapTreeHash(ctx context.Context, r *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	x, err := f.got("MapTreeHash", r)
	y, _ := x.(*pb.MapTreeHashResponse)
	return y, err
}

func trCall(c pb.VerifiableDataStructuresServiceServer, r proto.Message) (string, proto.Message, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	switch q := r.(type) {
	case *pb.LogAddEntryRequest:
		x, err := c.LogAddEntry(ctx, q)
		return "LogAddEntry", x, err
	case *pb.LogFetchEntriesRequest:
		x, err := c.LogFetchEntries(ctx, q)
		return "LogFetchEntries", x, err
	case *pb.LogTreeHashRequest:
		x, err := c.LogTreeHash(ctx, q)
		return "LogTreeHash", x, err
	case *pb.LogInclusionProofRequest:
		x, err := c.LogInclusionProof(ctx, q)
		return "LogInclusionProof", x, err
	case *pb.LogConsistencyProofRequest:
		x, err := c.LogConsistencyProof(ctx, q)
		return "LogConsistencyProof", x, err
	case *pb.MapSetValueRequest:
		x, err := c.MapSetValue(ctx, q)
		return "MapSetValue", x, err
	case *pb.MapGetValueRequest:
		x, err := c.MapGetValue(ctx, q)
		return "MapGetValue", x, err
	case *pb.MapTreeHashRequest:
		x, err := c.MapTreeHash(ctx, q)
		return "MapTreeHash", x, err
	}
	panic("request")
}

func trBytes(h *vh, max int) []byte {
	switch h.rng.Intn(6) {
	case 0:
		return nil
	case 1:
		return []byte{0}
	case 2:
		return []byte("a/b?c%20#&+ \xff\xfe\x00")
	}
	b := make([]byte, 1+h.rng.Intn(max))
	h.rng.Read(b)
	return b
}

func trNum(h *vh) int64 {
	return []int64{0, 1, 2, 7, 8, 100, 1<<31 - 1, 1 << 31, 1<<32 + 5, 1 << 53, 1<<53 + 1, 1<<62 + 3, h.rng.Int63(), h.rng.Int63n(50), h.rng.Int63n(5000)}[h.rng.Intn(15)]
}

func trAcct(h *vh) *pb.AccountRef {
	return &pb.AccountRef{Id: []string{"0", "1", "01", "999", "123456789012345678901234567890"}[h.rng.Intn(5)],
		ApiKey: []string{"", "k", "secret key", "Key", "a b c", "x=y;z,w", "*", "k1:k2"}[h.rng.Intn(8)]}
}

var trNames = []string{"a", "log", "map", "0", "a-b", "a_b", "mutation", "tree", "entry", "head", "key", "log-mutation"}

func trLog(h *vh) *pb.LogRef {
	return &pb.LogRef{Account: trAcct(h), Name: trNames[h.rng.Intn(len(trNames))], LogType: pb.LogType(h.rng.Intn(3))}
}

func trMap(h *vh) *pb.MapRef {
	return &pb.MapRef{Account: trAcct(h), Name: trNames[h.rng.Intn(len(trNames))]}
}

func trLeaf(h *vh) *pb.LeafData {
	if h.rng.Intn(8) == 0 {
		return &pb.LeafData{}
	}
	return &pb.LeafData{LeafInput: trBytes(h, 60), ExtraData: trBytes(h, 60), Format: pb.DataFormat(h.rng.Intn(2))}
}

func trKey(h *vh) []byte {
	for {
		if b := trBytes(h, 40); len(b) > 0 {
			return b
		}
	}
}

func trPath(h *vh, max int) [][]byte {
	var p [][]byte
	for i := h.rng.Intn(max + 1); i > 0; i-- {
		b := make([]byte, 32)
		h.rng.Read(b)
		p = append(p, b)
	}
	return p
}

// trMapPath has 256 entries, most of them absent.
func trMapPath(h *vh) [][]byte {
	p := make([][]byte, 256)
	for _, i := range []int{0, 255, 254, 9, 10, 1} {
		if h.rng.Intn(2) == 0 {
			p[i] = make([]byte, 32)
			h.rng.Read(p[i])
		}
	}
	n := h.rng.Intn(20)
	if h.rng.Intn(10) == 0 {
		n = 256
	}
	for i := 0; i < n; i++ {
		p[i] = make([]byte, 32)
		h.rng.Read(p[i])
	}
	return p
}

// trPair draws a request and an answer to it.
func trPair(h *vh, op int) (proto.Message, proto.Message) {
	hash := func() []byte { b := make([]byte, 32); h.rng.Read(b); return b }
	switch op {
	case 0:
		return &pb.LogAddEntryRequest{Log: trLog(h), Value: trLeaf(h)}, &pb.LogAddEntryResponse{LeafHash: hash()}
	case 1:
		r := &pb.LogFetchEntriesResponse{}
		for i := h.rng.Intn(4); i > 0; i-- {
			r.Values = append(r.Values, trLeaf(h))
		}
		return &pb.LogFetchEntriesRequest{Log: trLog(h), First: trNum(h), Last: trNum(h)}, r
	case 2:
		return &pb.LogTreeHashRequest{Log: trLog(h), TreeSize: trNum(h)}, &pb.LogTreeHashResponse{TreeSize: trNum(h), RootHash: hash()}
	case 3:
		q := &pb.LogInclusionProofRequest{Log: trLog(h), TreeSize: trNum(h)}
		if h.rng.Intn(2) == 0 {
			q.MtlHash = hash()
			if h.rng.Intn(3) == 0 {
				q.MtlHash = trKey(h)
			}
		} else {
			q.LeafIndex = trNum(h)
		}
		return q, &pb.LogInclusionProofResponse{TreeSize: trNum(h), LeafIndex: trNum(h), AuditPath: trPath(h, 5)}
	case 4:
		return &pb.LogConsistencyProofRequest{Log: trLog(h), TreeSize: trNum(h), FromSize: trNum(h)}, &pb.LogConsistencyProofResponse{FromSize: trNum(h), TreeSize: trNum(h), AuditPath: trPath(h, 5)}
	case 5:
		m := &pb.MapMutation{Key: trKey(h), Action: []string{"set", "update", "delete"}[h.rng.Intn(3)]}
		if m.Action != "delete" {
			m.Value = trLeaf(h)
		}
		if m.Action == "update" {
			m.PreviousLeafHash = [][]byte{hash(), trBytes(h, 5), nil}[h.rng.Intn(3)]
		}
		return &pb.MapSetValueRequest{Map: trMap(h), Mutation: m}, &pb.MapSetValueResponse{LeafHash: hash()}
	case 6:
		return &pb.MapGetValueRequest{Map: trMap(h), TreeSize: trNum(h), Key: trKey(h)}, &pb.MapGetValueResponse{TreeSize: trNum(h), AuditPath: trMapPath(h), Value: trLeaf(h)}
	}
	r := &pb.MapTreeHashResponse{RootHash: hash(), MutationLog: &pb.LogTreeHashResponse{TreeSize: trNum(h), RootHash: hash()}}
	return &pb.MapTreeHashRequest{Map: trMap(h), TreeSize: trNum(h)}, r
}

var trCodes = []codes.Code{codes.PermissionDenied, codes.InvalidArgument, codes.NotFound, codes.Internal, codes.Unimplemented, codes.Unknown, codes.Unavailable, codes.DataLoss, codes.Unauthenticated, codes.AlreadyExists, codes.FailedPrecondition, codes.OutOfRange}

func trRound(h *vh, name string, c pb.VerifiableDataStructuresServiceServer, f *trFake, op int) {
	req, resp := trPair(h, op)
	var give error
	plain := false // an error that carries no status: any error will do
	mode := h.rng.Intn(4)
	if mode == 0 {
		switch h.rng.Intn(4) {
		case 0:
			plain = true
			give = []error{verifiable.ErrNotAuthorized, verifiable.ErrInvalidRequest, verifiable.ErrInvalidRange, verifiable.ErrInvalidTreeRange, verifiable.ErrNotFound, verifiable.ErrNotImplemented, verifiable.ErrInternalError}[h.rng.Intn(7)]
		case 1:
			plain = true
			give = fmt.Errorf("some failure")
		default:
			give = status.Error(trCodes[h.rng.Intn(len(trCodes))], "detail")
		}
	}
	f.reset(resp, give)
	sent := proto.Clone(req)
	op2, got, err := trCall(c, req)
	f.mu.Lock()
	fop, freq, fn := f.op, f.req, f.n
	f.mu.Unlock()
	if fn != 1 || fop != op2 {
		h.fail(name, "one call reached the service "+fmt.Sprint(fn)+" times as "+fop, "operation", op2, "request", fmt.Sprint(sent), "client error", fmt.Sprint(err))
		return
	}
	if !proto.Equal(sent, freq) {
		h.fail(name, "the service received another request than the caller made", "operation", op2, "made", trJSON(sent), "received", trJSON(freq))
		return
	}
	if give != nil {
		want := status.Code(give)
		if err == nil {
			h.fail(name, "a failure reaches the caller as success", "operation", op2, "error", give.Error())
			return
		}
		gotc := status.Code(err)
		special := func(c codes.Code) bool {
			return c == codes.PermissionDenied || c == codes.InvalidArgument || c == codes.NotFound
		}
		if !plain && (special(want) || special(gotc)) && want != gotc {
			h.fail(name, "an error changed its meaning on the way", "operation", op2, "service said", want.String(), "caller got", gotc.String())
		}
		return
	}
	if err != nil {
		h.fail(name, "a successful answer reaches the caller as an error: "+err.Error(), "operation", op2, "answer", trJSON(resp))
		return
	}
	a, b := proto.Clone(resp), got
	if !proto.Equal(a, b) {
		h.fail(name, "the caller received another answer than the service gave", "operation", op2, "gave", trJSON(resp), "received", trJSON(got))
		return
	}
	h.nt()
}

func trJSON(m proto.Message) string { b, _ := json.Marshal(m); return string(b) }

// trRaw sends HTTP requests in the other formats the server offers and checks what the service is asked and what comes back.
func trRaw(h *vh, f *trFake, hd http.Handler) {
	lt := h.rng.Intn(3)
	acct, name, api := []string{"0", "12"}[h.rng.Intn(2)], trNames[h.rng.Intn(len(trNames))], []string{"", "k", "a b"}[h.rng.Intn(3)]
	account := &pb.AccountRef{Id: acct, ApiKey: api}
	lr := &pb.LogRef{Account: account, Name: name, LogType: pb.LogType(lt)}
	mr := &pb.MapRef{Account: account, Name: name}
	lp := "/v2/account/" + acct + []string{"/log/" + name, "/map/" + name + "/log/mutation", "/map/" + name + "/log/treehead"}[lt]
	mp := "/v2/account/" + acct + "/map/" + name
	n, m := h.rng.Int63n(1<<40), h.rng.Int63n(1<<40)
	kb := []byte("key_-" + fmt.Sprint(h.rng.Intn(99)))
	kh := trKey(h)
	ks, kx := "s/"+string(kb), "h/"+hex.EncodeToString(kh)
	body := trBytes(h, 50)
	val := &pb.LeafData{LeafInput: trBytes(h, 50), ExtraData: []byte(`{"a":1}`), Format: pb.DataFormat_JSON}
	js := []byte(fmt.Sprintf(`{"x":[%d,"y",null,true,{"z":1.5}]}`, h.rng.Intn(1000)))
	hash := make([]byte, 32)
	h.rng.Read(hash)
	hdr := map[string]string{}
	type want struct {
		method, path string
		body         []byte
		req          proto.Message
		resp         proto.Message
		out          []byte // nil: any
		code         int
	}
	jsLeaf := func() *pb.LeafData {
		l, err := verifiable.CreateJSONLeafData(js)
		if err != nil {
			panic(err)
		}
		return l
	}
	fetch := func(first, last int64) proto.Message {
		return &pb.LogFetchEntriesRequest{Log: lr, First: first, Last: last}
	}
	one := &pb.LogFetchEntriesResponse{Values: []*pb.LeafData{val}}
	anymap := &pb.MapGetValueResponse{TreeSize: n, AuditPath: trMapPath(h), Value: val}
	set := func(action string, k []byte, v *pb.LeafData, prev []byte) proto.Message {
		return &pb.MapSetValueRequest{Map: mr, Mutation: &pb.MapMutation{Action: action, Key: k, Value: v, PreviousLeafHash: prev}}
	}
	sr := &pb.MapSetValueResponse{LeafHash: hash}
	ar := &pb.LogAddEntryResponse{LeafHash: hash}
	th := &pb.LogTreeHashResponse{TreeSize: n, RootHash: hash}
	mh := &pb.MapTreeHashResponse{RootHash: hash, MutationLog: th}
	ip := &pb.LogInclusionProofResponse{TreeSize: n, LeafIndex: m, AuditPath: trPath(h, 3)}
	ns, ms := fmt.Sprint(n), fmt.Sprint(m)
	ws := []want{
		{"GET", lp + "/entry/" + ns, nil, fetch(n, n+1), one, val.LeafInput, 200},
		{"GET", lp + "/entry/" + ns + "/xjson", nil, fetch(n, n+1), one, val.ExtraData, 200},
		{"GET", lp + "/entry/" + ns, nil, fetch(n, n+1), &pb.LogFetchEntriesResponse{}, nil, 404},
		{"GET", lp + "/entries/" + ns + "-" + ms, nil, fetch(n, m), one, nil, 200},
		{"POST", lp + "/entry", body, &pb.LogAddEntryRequest{Log: lr, Value: &pb.LeafData{LeafInput: body}}, ar, nil, 200},
		{"POST", lp + "/entry/xjson", js, &pb.LogAddEntryRequest{Log: lr, Value: jsLeaf()}, ar, nil, 200},
		{"GET", lp + "/tree/head", nil, &pb.LogTreeHashRequest{Log: lr}, th, nil, 200},
		{"GET", lp + "/tree/" + ns, nil, &pb.LogTreeHashRequest{Log: lr, TreeSize: n}, th, nil, 200},
		{"GET", lp + "/tree/" + ns + "/inclusion/s/" + string(kb), nil, &pb.LogInclusionProofRequest{Log: lr, TreeSize: n, MtlHash: merkle.LeafHash(kb)}, ip, nil, 200},
		{"GET", lp + "/tree/" + ns + "/inclusion/h/" + hex.EncodeToString(hash), nil, &pb.LogInclusionProofRequest{Log: lr, TreeSize: n, MtlHash: hash}, ip, nil, 200},
		{"GET", lp + "/tree/" + ns + "/inclusion/" + ms, nil, &pb.LogInclusionProofRequest{Log: lr, TreeSize: n, LeafIndex: m}, ip, nil, 200},
		{"GET", lp + "/tree/" + ns + "/consistency/" + ms, nil, &pb.LogConsistencyProofRequest{Log: lr, TreeSize: n, FromSize: m}, &pb.LogConsistencyProofResponse{FromSize: m, TreeSize: n}, nil, 200},
		{"GET", mp + "/tree/head", nil, &pb.MapTreeHashRequest{Map: mr}, mh, nil, 200},
		{"GET", mp + "/tree/" + ns, nil, &pb.MapTreeHashRequest{Map: mr, TreeSize: n}, mh, nil, 200},
		{"GET", mp + "/tree/head/key/" + ks, nil, &pb.MapGetValueRequest{Map: mr, Key: kb}, anymap, val.LeafInput, 200},
		{"GET", mp + "/tree/" + ns + "/key/" + kx + "/xjson", nil, &pb.MapGetValueRequest{Map: mr, Key: kh, TreeSize: n}, anymap, val.ExtraData, 200},
		{"PUT", mp + "/key/" + ks, body, set("set", kb, &pb.LeafData{LeafInput: body}, nil), sr, nil, 200},
		{"PUT", mp + "/key/" + kx + "/xjson", js, set("set", kh, jsLeaf(), nil), sr, nil, 200},
		{"PUT+", mp + "/key/" + kx, body, set("update", kh, &pb.LeafData{LeafInput: body}, hash), sr, nil, 200},
		{"PUT+", mp + "/key/" + ks + "/xjson", js, set("update", kb, jsLeaf(), hash), sr, nil, 200},
		{"DELETE", mp + "/key/" + ks, nil, set("delete", kb, nil, nil), sr, nil, 200},
		{"DELETE", mp + "/key/" + kx, nil, set("delete", kh, nil, nil), sr, nil, 200},
		{"POST", lp + "/entry/xjson/redactable", js, &pb.LogAddEntryRequest{Log: lr, Value: &pb.LeafData{}}, ar, nil, 200},
		{"PUT", mp + "/key/" + ks + "/xjson/redactable", js, set("set", kb, &pb.LeafData{}, nil), sr, nil, 200},
		{"PUT+", mp + "/key/" + kx + "/xjson/redactable", js, set("update", kh, &pb.LeafData{}, hash), sr, nil, 200},
		{"POST", lp + "/entry/xjson/redactable", []byte("{no json"), nil, ar, nil, 400},
		{"POST", lp + "/entry/xjson", []byte("{no json"), nil, ar, nil, 400},
		{"POST", lp + "/entry/extra", []byte("{no json"), nil, ar, nil, 400},
		{"PUT", mp + "/key/" + ks + "/xjson", []byte(""), nil, sr, nil, 400},
		{"GET", lp + "/tree/99999999999999999999", nil, nil, th, nil, 400},
		{"GET", mp + "/tree/99999999999999999999/key/" + ks, nil, nil, anymap, nil, 400},
		{"GET", mp + "/tree/1/key/h/abc", nil, nil, anymap, nil, 400},
		{"GET", lp + "/entry/99999999999999999999", nil, nil, one, nil, 400},
		{"GET", lp + "/entries/0-99999999999999999999", nil, nil, one, nil, 400},
		{"GET", lp + "/tree/1/inclusion/h/abc", nil, nil, ip, nil, 400},
		{"GET", lp + "/tree/1/consistency/99999999999999999999", nil, nil, ip, nil, 400},
	}
	w := ws[h.rng.Intn(len(ws))]
	method := w.method
	if method == "PUT+" {
		method = "PUT"
		hdr["X-Previous-LeafHash"] = hex.EncodeToString(hash)
	}
	r := httptest.NewRequest(method, w.path, bytes.NewReader(w.body))
	if api != "" {
		r.Header.Set("Authorization", "Key "+api)
	}
	for k, v := range hdr {
		r.Header.Set(k, v)
	}
	f.reset(w.resp, nil)
	rec := httptest.NewRecorder()
	hd.ServeHTTP(rec, r)
	res := rec.Result()
	out, _ := io.ReadAll(res.Body)
	if res.StatusCode != w.code {
		h.fail("http", fmt.Sprintf("status %d, expected %d", res.StatusCode, w.code), "request", method+" "+w.path, "body", string(w.body))
		return
	}
	if w.req == nil {
		if f.n != 0 {
			h.fail("http", "a malformed request reached the service", "request", method+" "+w.path, "received", trJSON(f.req))
		}
		return
	}
	if strings.HasSuffix(w.path, "/redactable") && f.n == 1 {
		if what := trRedactable(f.req, js); what != "" {
			h.fail("http", what, "request", method+" "+w.path, "body", string(w.body), "received", trJSON(f.req))
			return
		}
	}
	if f.n != 1 || !proto.Equal(f.req, w.req) {
		h.fail("http", "the service received another request than the caller made", "request", method+" "+w.path, "body", string(w.body), "headers", hdr, "made", trJSON(w.req), "received", trJSON(f.req))
		return
	}
	if w.out != nil && w.code == 200 && !bytes.Equal(out, w.out) {
		h.fail("http", "the caller received another value than the service gave", "request", method+" "+w.path, "want", fmt.Sprintf("%x", w.out), "got", fmt.Sprintf("%x", out))
		return
	}
	if w.resp == anymap && w.code == 200 {
		if res.Header.Get("X-Verified-TreeSize") != fmt.Sprint(anymap.TreeSize) {
			h.fail("http", "the tree size of a map value changed", "got", res.Header.Get("X-Verified-TreeSize"), "want", anymap.TreeSize)
		}
		p := make([][]byte, 256)
		for _, v := range res.Header.Values("X-Verified-Proof") {
			for _, q := range strings.Split(v, ",") {
				var i int
				var s string
				fmt.Sscanf(strings.Replace(q, "/", " ", 1), "%d %s", &i, &s)
				p[i], _ = hex.DecodeString(s)
			}
		}
		if !proto.Equal(&pb.MapGetValueResponse{AuditPath: p}, &pb.MapGetValueResponse{AuditPath: anymap.AuditPath}) {
			h.fail("http", "the audit path of a map value changed", "request", method+" "+w.path)
		}
	}
	h.nt()
}

// trMalformed throws odd requests at a server over a real service.
func trMalformed(h *vh, hd http.Handler) {
	seg := []string{"v2", "account", "0", "1", "x", "log", "map", "a", "entry", "entries", "0-1", "1-0", "5-", "tree", "head", "0", "9223372036854775807", "9223372036854775808", "18446744073709551616", "-1", "inclusion", "h", "s", "ab", "abc", "zz", "consistency", "key", "xjson", "redactable", "extra", "mutation", "treehead", "%00", "%2e%2e", "..", "", "%ff", "é", "a%2Fb", "4611686018427387904", "1"}
	good := []string{"/v2/account/0/log/a", "/v2/account/0/map/a", "/v2/account/0/map/a/log/mutation", "/v2/account/0/map/a/log/treehead"}
	p := ""
	if h.rng.Intn(3) > 0 {
		p = good[h.rng.Intn(len(good))]
		if h.rng.Intn(2) == 0 {
			tails := []string{"/entry/%s", "/entry/%s/xjson", "/entry/%s/extra", "/entries/%s-%s", "/entries/%s-%s/extra", "/tree/%s", "/tree/%s/inclusion/%s", "/tree/%s/inclusion/h/%s", "/tree/%s/inclusion/s/%s", "/tree/%s/consistency/%s", "/tree/%s/key/h/%s", "/tree/%s/key/s/%s/xjson", "/tree/%s/key/h/%s/extra", "/key/h/%s", "/key/s/%s/xjson", "/key/h/%s/xjson/redactable", "/key/h/%s/extra", "/entry", "/entry/xjson", "/entry/extra", "/entry/xjson/redactable"}
			t := tails[h.rng.Intn(len(tails))]
			for strings.Contains(t, "%s") {
				t = strings.Replace(t, "%s", []string{"0", "1", "2", "3", "head", "abcd", "abc", "9223372036854775807", "9223372036854775808", "4611686018427387905", "2305843009213693952", "99999999999999999999999"}[h.rng.Intn(12)], 1)
			}
			p += t
		}
	}
	for i := h.rng.Intn(4); i > 0 && h.rng.Intn(2) == 0; i-- {
		p += "/" + seg[h.rng.Intn(len(seg))]
	}
	if p == "" {
		p = "/"
	}
	bodies := []string{"", "null", "{}", "[]", "0", "\"x\"", "{", "{\"leaf_input\":\"!!\"}", "{\"leaf_input\":\"AAAA\"}", "{\"LeafInput\":5}", "{\"extra_data\":null,\"format\":77}", "\xff\xfe", "{\"a\":1e400}", "[[[[[[]]]]]]", "{\"*redacted*\":1}", "{\"a\":[\"***REDACTED*** Hash: x\"]}", "\"***REDACTED*** Hash: \"", strings.Repeat("[", 3000), "{\"a\":{\"b\":[1,2,{\"c\":null}]}}"}
	var body io.Reader
	body = strings.NewReader(bodies[h.rng.Intn(len(bodies))])
	if h.rng.Intn(20) == 0 {
		body = trBadReader{}
	}
	method := []string{"GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "PATCH", "FOO"}[h.rng.Intn(8)]
	if h.rng.Intn(2) == 0 && strings.Contains(p, "/key/") && !strings.Contains(p, "/tree/") {
		method = "PUT"
	}
	r, err := http.NewRequest(method, "http://x"+p, body)
	if err != nil {
		return
	}
	for i := h.rng.Intn(3); i > 0; i-- {
		k := []string{"Authorization", "X-Previous-LeafHash", "Origin", "Access-Control-Request-Method", "Content-Type", "X-Verified-Proof"}[h.rng.Intn(6)]
		r.Header[http.CanonicalHeaderKey(k)] = [][]string{{"Key"}, {"Key "}, {" Key  a b"}, {""}, {"zz"}, {"ab"}, {"abc"}, {"GET"}, {"a", "b"}, {}, {"Basic x"}}[h.rng.Intn(11)]
	}
	r.RequestURI = p
	rec := httptest.NewRecorder()
	hd.ServeHTTP(rec, r)
	h.nt()
}

// trRedactable checks (and then empties) the value of a request: the given JSON made redactable, under its hash.
func trRedactable(q proto.Message, js []byte) string {
	var v *pb.LeafData
	switch r := q.(type) {
	case *pb.LogAddEntryRequest:
		v, r.Value = r.Value, &pb.LeafData{}
	case *pb.MapSetValueRequest:
		if r.Mutation != nil {
			v, r.Mutation.Value = r.Mutation.Value, &pb.LeafData{}
		}
	}
	if v == nil {
		return "no value reached the service"
	}
	if err := verifiable.ValidateJSONLeafData(context.Background(), v); err != nil {
		return "the redactable value's leaf input is not the hash of its JSON"
	}
	shed, err := verifiable.ShedRedactedJSONFields(v.ExtraData)
	var a, b interface{}
	if err != nil || json.Unmarshal(shed, &a) != nil || json.Unmarshal(js, &b) != nil || trVal(a) != trVal(b) {
		return "the redactable value is not the JSON the caller sent"
	}
	if trVal(json.RawMessage(v.ExtraData)) == trVal(b) {
		return "the value cannot be redacted"
	}
	return ""
}

func trVal(o interface{}) string { b, _ := json.Marshal(o); return string(b) }

type trBadReader struct{}

func (trBadReader) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

// trHostile answers the client with what no server of ours sends: it gets an error or an answer, never a panic.
func trHostile(h *vh) {
	code, body := 0, ""
	hd := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		for i := h.rng.Intn(4); i > 0; i-- {
			w.Header().Add([]string{"X-Verified-Proof", "X-Verified-TreeSize"}[h.rng.Intn(2)], []string{"", "1/", "/ab", "-1/ab", "256/ab", "255/ab", "3/abc", "x/ab", "1/ab,2/cd", ",,,", "99999999999999999999/ab", "5", "-5", "1/ab/cd", "9223372036854775808"}[h.rng.Intn(15)])
		}
		code = []int{200, 200, 200, 400, 401, 404, 500, 204, 302, 503}[h.rng.Intn(10)]
		w.WriteHeader(code)
		body = []string{"", "null", "{}", "{\"values\":[null]}", "[]", "{\"audit_path\":[null]}", "x", "{\"tree_size\":\"5\"}", "{\"tree_size\":-1}"}[h.rng.Intn(9)]
		w.Write([]byte(body))
	})
	s := httptest.NewServer(hd)
	defer s.Close()
	c, _ := (&Client{BaseURL: s.URL, HTTPClient: s.Client()}).Dial()
	for i := 0; i < 40; i++ {
		code = 0
		req, _ := trPair(h, h.rng.Intn(8))
		_, got, err := trCall(c, req)
		if err == nil && code != 200 {
			h.fail("hostile", "a call whose answer is a failure succeeds", "status", code, "request", trJSON(req), "got", trJSON(got))
		}
		if err == nil && body == "x" {
			h.fail("hostile", "a call whose answer is not readable succeeds", "request", trJSON(req), "got", trJSON(got))
		}
	}
	// no server at all, or an address that is none
	for _, u := range []string{"http://127.0.0.1:1", "://", "http://%zz", "http://a b"} {
		c, _ := (&Client{BaseURL: u, HTTPClient: s.Client()}).Dial()
		for op := 0; op < 8; op++ {
			req, _ := trPair(h, op)
			if _, got, err := trCall(c, req); err == nil {
				h.fail("hostile", "a call that reaches no server succeeds", "url", u, "request", trJSON(req), "got", trJSON(got))
			}
		}
	}
	h.nt()
}

// trRefused: names the server has no path for never reach another object.
func trRefused(h *vh, name string, c pb.VerifiableDataStructuresServiceServer, f *trFake) {
	odd := []string{"", "A", "a/b", "a/../b", "..", "a?b", "a#b", "a%20b", "a b", "é", "a/log/mutation", "x\n", "x/tree/1"}
	req, resp := trPair(h, h.rng.Intn(8))
	n := odd[h.rng.Intn(len(odd))]
	inAcct := h.rng.Intn(2) == 0
	var l *pb.LogRef
	var m *pb.MapRef
	switch q := req.(type) {
	case *pb.LogAddEntryRequest:
		l = q.Log
	case *pb.LogFetchEntriesRequest:
		l = q.Log
	case *pb.LogTreeHashRequest:
		l = q.Log
	case *pb.LogInclusionProofRequest:
		l = q.Log
	case *pb.LogConsistencyProofRequest:
		l = q.Log
	case *pb.MapSetValueRequest:
		m = q.Map
	case *pb.MapGetValueRequest:
		m = q.Map
	case *pb.MapTreeHashRequest:
		m = q.Map
	}
	switch {
	case l != nil && inAcct:
		l.Account.Id = n
	case l != nil:
		l.Name = n
	case inAcct:
		m.Account.Id = n
	default:
		m.Name = n
	}
	f.reset(resp, nil)
	sent := proto.Clone(req)
	_, _, err := trCall(c, req)
	if f.n > 0 && !proto.Equal(f.req, sent) {
		h.fail(name, "the service received another request than the caller made", "made", trJSON(sent), "received", trJSON(f.req))
	}
	if f.n == 0 && err == nil {
		h.fail(name, "a request that never reached the service succeeds", "made", trJSON(sent))
	}
}

func TestVerifTransports(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	log.SetOutput(io.Discard)
	f := &trFake{}
	hd := CreateRESTHandler(f, nil, nil)
	s := httptest.NewServer(hd)
	defer s.Close()
	rest, err := (&Client{BaseURL: s.URL, HTTPClient: s.Client()}).Dial()
	if err != nil {
		t.Fatal(err)
	}
	gf := &trFake{}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := lis.Addr().String()
	lis.Close()
	go vgrpc.StartServer(&pb.ServerConfig{InsecureServerForTesting: true, GrpcListenProtocol: "tcp", GrpcListenBind: addr}, gf)
	gc, err := (&vgrpc.Client{NoGrpcSecurity: true, Address: addr}).Dial()
	if err != nil {
		t.Fatal(err)
	}
	up := false
	for i := 0; i < 200 && !up; i++ {
		gf.reset(&pb.LogTreeHashResponse{}, nil)
		_, _, err := trCall(gc, &pb.LogTreeHashRequest{})
		up = err == nil
		if !up {
			time.Sleep(25 * time.Millisecond)
		}
	}
	if !up {
		h.fail("grpc", "the gRPC server does not answer", "address", addr)
		return
	}
	db := &memory.TransientStorage{}
	svc, err := (&verifiable.Service{Mutator: &instant.Mutator{Writer: db}, AccessPolicy: policy.Open, Reader: db}).Create()
	if err != nil {
		t.Fatal(err)
	}
	real := CreateRESTHandler(svc, nil, log.New(io.Discard, "", 0))
	for _, acc := range []string{"0", "1"} {
		for i := 0; i < 3; i++ {
			svc.LogAddEntry(context.Background(), &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: acc}, Name: "a"}, Value: &pb.LeafData{LeafInput: []byte{byte(i)}}})
			svc.MapSetValue(context.Background(), &pb.MapSetValueRequest{Map: &pb.MapRef{Account: &pb.AccountRef{Id: acc}, Name: "a"}, Mutation: &pb.MapMutation{Action: "set", Key: []byte{byte(i)}, Value: &pb.LeafData{LeafInput: []byte{byte(i)}}}})
		}
	}
	for i := 0; (i < 250 || h.more()) && !h.stop(); i++ {
		for op := 0; op < 8; op++ {
			h.do("rest", []int{i, op}, func() { trRound(h, "rest", rest, f, op) })
			if i%3 == 0 {
				h.do("grpc", []int{i, op}, func() { trRound(h, "grpc", gc, gf, op) })
			}
		}
		h.do("refused", i, func() { trRefused(h, "refused", rest, f) })
		for j := 0; j < 4; j++ {
			h.do("http", []int{i, j}, func() { trRaw(h, f, hd) })
			h.do("malformed", []int{i, j}, func() { trMalformed(h, real) })
		}
		if i%40 == 0 {
			h.do("hostile", i, func() { trHostile(h) })
		}
	}
}
