// Package objecthash is a STAND-IN for github.com/continusec/objecthash, which
// is not available in this sandbox. It was written for /verif from the public
// description of the objecthash scheme (type tag, then SHA-256; dictionaries are
// sorted lists of key-hash/value-hash pairs; redacted values are a prefixed
// string holding the hash of the value they replace). The replay harnesses
// link it so that the repository's own code can run; no proof depends on its
// text: in the proofs these functions are uninterpreted, under the assumptions
// listed in /verif/DESIGN.md.
package objecthash

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

const stdPrefix = "***REDACTED*** Hash: "

func tag(t byte, b []byte) []byte {
	h := sha256.New()
	h.Write([]byte{t})
	h.Write(b)
	return h.Sum(nil)
}

func floatNorm(f float64) (string, error) {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return "", errors.New("bad float")
	}
	return strconv.FormatFloat(f, 'b', -1, 64), nil
}

func hash(o interface{}, prefix string) ([]byte, error) {
	switch x := o.(type) {
	case nil:
		return tag('n', nil), nil
	case string:
		if prefix != "" && strings.HasPrefix(x, prefix) {
			b, err := hex.DecodeString(x[len(prefix):])
			if err != nil || len(b) != 32 {
				return nil, errors.New("bad redacted value")
			}
			return b, nil
		}
		return tag('u', []byte(x)), nil
	case bool:
		if x {
			return tag('b', []byte("1")), nil
		}
		return tag('b', []byte("0")), nil
	case float64:
		s, err := floatNorm(x)
		if err != nil {
			return nil, err
		}
		return tag('f', []byte(s)), nil
	case int:
		return tag('i', []byte(strconv.Itoa(x))), nil
	case []interface{}:
		var b bytes.Buffer
		for _, e := range x {
			h, err := hash(e, prefix)
			if err != nil {
				return nil, err
			}
			b.Write(h)
		}
		return tag('l', b.Bytes()), nil
	case map[string]interface{}:
		var es []string
		for k, v := range x {
			kh, err := hash(k, "")
			if err != nil {
				return nil, err
			}
			vh, err := hash(v, prefix)
			if err != nil {
				return nil, err
			}
			es = append(es, string(kh)+string(vh))
		}
		sort.Strings(es)
		return tag('d', []byte(strings.Join(es, ""))), nil
	default:
		return nil, fmt.Errorf("cannot hash %T", o)
	}
}

// ObjectHash hashes an object.
func ObjectHash(o interface{}) ([]byte, error) { return hash(o, "") }

// ObjectHashWithStdRedaction hashes an object some of whose values may be redacted.
func ObjectHashWithStdRedaction(o interface{}) ([]byte, error) { return hash(o, stdPrefix) }

// CommonJSONHash hashes JSON text.
func CommonJSONHash(b []byte) ([]byte, error) {
	var o interface{}
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	return ObjectHash(o)
}

// Redactable replaces each value of each object by a [nonce, value] pair.
func Redactable(o interface{}) (interface{}, error) {
	switch x := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(x))
		for i, e := range x {
			v, err := Redactable(e)
			if err != nil {
				return nil, err
			}
			rv[i] = v
		}
		return rv, nil
	case map[string]interface{}:
		rv := make(map[string]interface{}, len(x))
		for k, e := range x {
			v, err := Redactable(e)
			if err != nil {
				return nil, err
			}
			n := make([]byte, 16)
			if _, err := rand.Read(n); err != nil {
				return nil, err
			}
			rv[k] = []interface{}{hex.EncodeToString(n), v}
		}
		return rv, nil
	default:
		return o, nil
	}
}

// UnredactableWithStdPrefix drops redacted values and strips nonces.
func UnredactableWithStdPrefix(o interface{}) (interface{}, error) {
	switch x := o.(type) {
	case []interface{}:
		rv := make([]interface{}, len(x))
		for i, e := range x {
			v, err := UnredactableWithStdPrefix(e)
			if err != nil {
				return nil, err
			}
			rv[i] = v
		}
		return rv, nil
	case map[string]interface{}:
		rv := make(map[string]interface{}, len(x))
		for k, e := range x {
			if s, ok := e.(string); ok {
				if strings.HasPrefix(s, stdPrefix) {
					continue
				}
				return nil, errors.New("not redactable")
			}
			l, ok := e.([]interface{})
			if !ok || len(l) != 2 {
				return nil, errors.New("not redactable")
			}
			v, err := UnredactableWithStdPrefix(l[1])
			if err != nil {
				return nil, err
			}
			rv[k] = v
		}
		return rv, nil
	default:
		return o, nil
	}
}

// Filtered redacts each top-level field not listed (comma separated).
func Filtered(o interface{}, fields string) (interface{}, error) {
	if fields == "*" {
		return o, nil
	}
	x, ok := o.(map[string]interface{})
	if !ok {
		return nil, errors.New("can only filter objects")
	}
	want := map[string]bool{}
	for _, f := range strings.Split(fields, ",") {
		want[f] = true
	}
	rv := make(map[string]interface{}, len(x))
	for k, v := range x {
		if want[k] {
			rv[k] = v
			continue
		}
		h, err := hash(v, stdPrefix)
		if err != nil {
			return nil, err
		}
		rv[k] = stdPrefix + hex.EncodeToString(h)
	}
	return rv, nil
}
