package policy

import (
	"context"
	"path"
	"strings"
	"testing"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

// plDecide reads the rules in order: the first that grants it gives the filter.
func plDecide(ps []*pb.ResourceAccount, acct, key, name string, perm pb.Permission) (string, bool) {
	for _, a := range ps {
		for _, p := range a.Policy {
			has := false
			for _, x := range p.Permissions {
				has = has || x == perm || x == pb.Permission_PERM_ALL_PERMISSIONS
			}
			mk := p.ApiKey == "*" || (p.ApiKey != "" && p.ApiKey == key)
			mn, err := path.Match(p.NameMatch, name)
			if a.Id == acct && has && mk && mn && err == nil {
				return strings.Join(p.AllowedFields, ","), true
			}
		}
	}
	return "", false
}

func TestVerifStaticPolicy(t *testing.T) {
	h := newVH(t)
	defer h.finish()
	accts := []string{"0", "1", "01", "", "*", "a"}
	keys := []string{"", "*", "k", "kk", "K", "k*", "secret", "k "}
	names := []string{"log", "lo", "logs", "", "map", "x-log", "l*g", "*", "LOG", "a/b", "l[o"}
	pats := []string{"*", "log", "l*", "?og", "[a-m]*", "", "l[o", "map", "*log", "\\*", "lo", "*s", "a/*"}
	fields := [][]string{nil, {"*"}, {"a"}, {"a", "b"}, {"", "*"}, {"a,b"}, {"*", "x"}}
	pick := func(s []string) string {
		if h.rng.Intn(3) == 0 {
			return s[h.rng.Intn(len(s))]
		}
		return s[h.rng.Intn(3)]
	}
	perm := func() pb.Permission {
		switch h.rng.Intn(5) {
		case 0:
			return pb.Permission_PERM_ALL_PERMISSIONS
		case 1:
			return pb.Permission(h.rng.Intn(18))
		}
		return []pb.Permission{8, 9, 12, 15}[h.rng.Intn(4)]
	}
	for i := 0; i < 3000 || h.more(); i++ {
		if h.stop() {
			return
		}
		var ps []*pb.ResourceAccount
		for a := h.rng.Intn(4); a >= 0; a-- {
			acc := &pb.ResourceAccount{Id: pick(accts)}
			for p := h.rng.Intn(4); p > 0; p-- {
				pol := &pb.AccessPolicy{ApiKey: pick(keys), NameMatch: pick(pats), AllowedFields: fields[h.rng.Intn(len(fields))]}
				for q := h.rng.Intn(4); q > 0; q-- {
					pol.Permissions = append(pol.Permissions, perm())
				}
				acc.Policy = append(acc.Policy, pol)
			}
			ps = append(ps, acc)
		}
		o := &Static{Policy: ps}
		for j := 0; j < 12; j++ {
			acct, key, name, pm := pick(accts), pick(keys), pick(names), perm()
			h.do("static policy", []interface{}{i, acct, key, name, pm}, func() {
				m, err := o.VerifyAllowed(context.Background(), acct, key, name, pm)
				f, ok := plDecide(ps, acct, key, name, pm)
				if ok {
					h.nt()
				}
				q := []interface{}{"accounts", ps, "account", acct, "key", key, "object", name, "permission", pm}
				switch {
				case ok && err != nil:
					h.fail("static policy", "a request that a rule grants is refused", q...)
				case !ok && (err == nil || m != nil):
					h.fail("static policy", "a request that no rule grants is allowed", q...)
				case !ok && err != verifiable.ErrNotAuthorized:
					h.fail("static policy", "a refusal is not ErrNotAuthorized", q...)
				case ok && (m == nil || m.FieldFilter != f):
					h.fail("static policy", "the filter is not that of the first rule that grants it", append(q, "got", m, "want", f)...)
				}
			})
			h.do("open policy", []interface{}{i, acct, key, name, pm}, func() {
				m, err := Open.VerifyAllowed(context.Background(), acct, key, name, pm)
				if err != nil || m == nil || m.FieldFilter != "*" {
					h.fail("open policy", "the open policy does not allow everything with all fields", "account", acct, "key", key, "object", name, "permission", pm)
				}
			})
		}
	}
}
