package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Emitter writes the Verus file of one run and maps diagnostics back to obligations.
type Emitter struct {
	g       *Gen
	specDir string
	file    string
	lines   []lineSpan
	nlines  int
	buf     *bytes.Buffer
	omods   []string
}

// unit is one proof function: an obligation, or several that share their premises.
type unit []*Oblig

type lineSpan struct {
	from, to int
	ob       unit
	spec     string // lemma of the specification library
}

func (e *Emitter) w(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	e.nlines += strings.Count(s, "\n")
	e.buf.WriteString(s)
}

const rustHdr = "#![allow(unused_imports, dead_code, unused_variables, non_snake_case, non_camel_case_types, unused_parens, unused_braces, unused_mut)]\n"

// usesClosure lists the specification libraries needed, in dependency order:
// a library names its own needs in lines "// uses: a, b".
func (e *Emitter) usesClosure() ([]string, error) {
	var order []string
	seen := map[string]bool{}
	var add func(n string) error
	add = func(n string) error {
		if seen[n] {
			return nil
		}
		seen[n] = true
		b, err := os.ReadFile(filepath.Join(e.specDir, n+".rs"))
		if err != nil {
			return err
		}
		for _, ln := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(ln, "// uses:") {
				for _, u := range splitNames(ln[len("// uses:"):]) {
					if err := add(u); err != nil {
						return err
					}
				}
			}
		}
		order = append(order, n)
		return nil
	}
	for _, u := range sortedKeys(e.g.uses) {
		if err := add(u); err != nil {
			return nil, err
		}
	}
	return order, nil
}

var reLit = regexp.MustCompile(`\bgs_[0-9a-f]+\(\)`)
var reSpecLit = regexp.MustCompile(`\blit!\("((?:[^"\\]|\\.)*)"\)`)
var reSpecLitLemma = regexp.MustCompile(`\blit_lemma!\("((?:[^"\\]|\\.)*)"\)`)
var reSpecErr = regexp.MustCompile(`\bnamed_err!\(([^)]*)\)`)
var reNeeds = regexp.MustCompile(`\b(json|pb)_(enc|dec|merge|valid)_(\w+)\b`)

func unquoteLit(s string) string {
	if u, err := strconv.Unquote("\"" + s + "\""); err == nil {
		return u
	}
	return s
}

// specText reads one library, resolving lit!("...") and named_err!(...) and the
// type directives "//@type verifiable.X".
func (e *Emitter) specText(n string) (string, error) {
	b, err := os.ReadFile(filepath.Join(e.specDir, n+".rs"))
	if err != nil {
		return "", err
	}
	s := string(b)
	for _, ln := range strings.Split(s, "\n") {
		if strings.HasPrefix(ln, "//@type ") {
			if err := e.g.forceType(strings.TrimSpace(ln[8:])); err != nil {
				return "", fmt.Errorf("%s: %v", n, err)
			}
		}
		if strings.TrimSpace(ln) == "//@box []byte" {
			e.g.wrapIface(tBytes, "x")
		}
		if strings.HasPrefix(ln, "//@fn ") {
			p := strings.SplitN(strings.TrimSpace(ln[6:]), " ", 2)
			e.g.declFn(p[0], p[1])
		}
	}
	s = reSpecLit.ReplaceAllStringFunc(s, func(m string) string { return e.g.lit(unquoteLit(reSpecLit.FindStringSubmatch(m)[1])) })
	s = reSpecLitLemma.ReplaceAllStringFunc(s, func(m string) string { return "l" + e.g.lit(unquoteLit(reSpecLitLemma.FindStringSubmatch(m)[1])) })
	s = reSpecErr.ReplaceAllStringFunc(s, func(m string) string { return e.g.errTerm(reSpecErr.FindStringSubmatch(m)[1]) })
	return s, nil
}

// forceType makes the model of a repository type available to the specifications.
func (g *Gen) forceType(key string) error {
	i := strings.LastIndex(key, ".")
	p := g.prog.Short[key[:i]]
	if p == nil {
		// an imported package below the module
		for _, q := range g.prog.Pkgs {
			for _, im := range q.Types.Imports() {
				if shortPkg(im) == key[:i] {
					if o := im.Scope().Lookup(key[i+1:]); o != nil {
						g.vtype(o.Type())
						return nil
					}
				}
			}
		}
		return fmt.Errorf("type %s: package not loaded", key)
	}
	o := p.Types.Scope().Lookup(key[i+1:])
	if o == nil {
		return fmt.Errorf("type %s no longer exists", key)
	}
	g.vtype(o.Type())
	return nil
}

// Emit writes the file for the given obligations.
func (e *Emitter) Emit(obs []unit, nmod int) error {
	e.buf = &bytes.Buffer{}
	e.nlines = 1
	e.lines = nil
	libs, err := e.usesClosure()
	if err != nil {
		return err
	}
	texts := map[string]string{}
	for _, l := range libs {
		t, err := e.specText(l)
		if err != nil {
			return err
		}
		texts[l] = t
	}
	pre, err := os.ReadFile(filepath.Join(e.specDir, "prelude.rs"))
	if err != nil {
		return err
	}
	// event and stored-value types, when the program has them
	extra := ""
	if e.g.prog.Short["verifiable"] != nil {
		b, err := os.ReadFile(filepath.Join(e.specDir, "store.rs"))
		if err != nil {
			return err
		}
		for _, ln := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(ln, "//@type ") {
				if err := e.g.forceType(strings.TrimSpace(ln[8:])); err != nil {
					return err
				}
			}
		}
		extra = string(b)
	} else {
		extra = "pub ghost struct Ev { x: int }\npub ghost struct Db { x: int }\n"
	}
	e.w("%s", rustHdr)
	e.w("use vstd::prelude::*;\n")
	e.w("pub mod base {\nuse vstd::prelude::*;\nverus! {\n")
	e.w("%s\n%s\n", pre, extra)
	for _, k := range sortedKeys(e.g.structs) {
		e.w("%s\n", e.g.structs[k])
	}
	for _, k := range sortedKeys(e.g.uninterp) {
		e.w("%s\n", e.g.uninterp[k])
	}
	for _, k := range sortedKeys(e.g.lits) {
		s := e.g.lits[k]
		e.w("#[verifier::opaque]\npub open spec fn %s() -> Seq<u8> { %s }\n", k, bytesLit(s))
		e.w("pub proof fn l%s() ensures %s().len() == %d", k, k, len(s))
		for i := 0; i < len(s); i++ {
			e.w(", %s()[%d] == %du8", k, i, s[i])
		}
		e.w(" { reveal(%s); }\n", k)
	}
	for _, k := range sortedKeys(e.g.errIDs) {
		e.w("pub open spec fn ge_%s() -> int { %d }\n", mangle(k), e.g.errIDs[k])
	}
	e.w("} }\n")
	for _, l := range libs {
		e.w("pub mod s_%s {\nuse vstd::prelude::*;\nuse crate::base::*;\n", l)
		for _, m := range libs {
			if m == l {
				break
			}
			e.w("use crate::s_%s::*;\n", m)
		}
		e.w("verus! {\nbroadcast use crate::base::grp;\n")
		from := e.nlines
		e.w("%s\n", texts[l])
		e.lines = append(e.lines, lineSpan{from: from, to: e.nlines, spec: l})
		e.w("} }\n")
	}
	if nmod < 1 {
		nmod = 1
	}
	mods := make([][]unit, nmod)
	for i, o := range obs {
		mods[i%nmod] = append(mods[i%nmod], o)
	}
	n := 0
	e.omods = nil
	for mi, mo := range mods {
		if len(mo) == 0 {
			continue
		}
		e.omods = append(e.omods, fmt.Sprintf("o%d", mi))
		e.w("pub mod o%d {\nuse vstd::prelude::*;\nuse crate::base::*;\n", mi)
		for _, m := range libs {
			e.w("use crate::s_%s::*;\n", m)
		}
		e.w("verus! {\nbroadcast use crate::base::grp;\n")
		for _, o := range mo {
			n++
			for _, x := range o {
				x.Fn = fmt.Sprintf("o_%s", mangle(o[0].ID))
			}
			from := e.nlines
			e.w("%s", e.obligText(o))
			e.lines = append(e.lines, lineSpan{from: from, to: e.nlines - 1, ob: o})
		}
		e.w("} }\n")
	}
	e.w("fn main() {}\n")
	return os.WriteFile(e.file, e.buf.Bytes(), 0644)
}

// relevant keeps the declarations a formula can mention.
var reVar = regexp.MustCompile(`\bv\d+_\w+`)

func (e *Emitter) obligText(u unit) string {
	var b strings.Builder
	o := u[0]
	goals := ""
	for _, x := range u {
		goals += x.Goal + "\n"
	}
	all := strings.Join(o.Facts, "\n") + "\n" + goals + strings.Join(o.Hints, "\n")
	used := map[string]bool{}
	for _, v := range reVar.FindAllString(all, -1) {
		used[v] = true
	}
	for _, x := range u {
		fmt.Fprintf(&b, "// %s\n// %s  (%s)\n", x.ID, strings.ReplaceAll(oneLine(x.Text), "\n", " "), x.Pos)
	}
	if o.Rlimit != "" {
		fmt.Fprintf(&b, "#[verifier::rlimit(%s)]\n", o.Rlimit)
	} else if o.Cover {
		b.WriteString("#[verifier::rlimit(3)]\n")
	}
	var ps []string
	for _, d := range o.Decls {
		if used[d.N] {
			ps = append(ps, d.N+": "+d.T)
		}
	}
	fmt.Fprintf(&b, "pub proof fn %s(%s)\n", o.Fn, strings.Join(ps, ", "))
	if len(o.Facts) > 0 {
		b.WriteString("  requires\n")
		for _, f := range o.Facts {
			fmt.Fprintf(&b, "    (%s),\n", f)
		}
	}
	b.WriteString("  ensures\n")
	for _, x := range u {
		fmt.Fprintf(&b, "    (%s),\n", x.Goal)
	}
	b.WriteString("{\n")
	seen := map[string]bool{}
	for _, l := range reLit.FindAllString(all, -1) {
		if !seen[l] {
			seen[l] = true
			fmt.Fprintf(&b, "  l%s;\n", l)
		}
	}
	for _, h := range o.Hints {
		h = strings.TrimSpace(h)
		if !strings.HasSuffix(h, "}") && !strings.HasSuffix(h, ";") {
			h += ";"
		}
		fmt.Fprintf(&b, "  %s\n", h)
	}
	b.WriteString("}\n")
	return b.String()
}

// units groups the postconditions of one exit of a function that have the same premises.
func units(obs []*Oblig, group bool) []unit {
	var r []unit
	last := ""
	for _, o := range obs {
		key := ""
		if group && !o.Cover && strings.HasPrefix(o.Kind, "ensures") && o.Goal != "false" {
			key = o.Func + "\x00" + o.Rlimit + "\x00" + strings.Join(o.Facts, "\x01") + "\x00" + strings.Join(o.Hints, "\x01")
		}
		if key != "" && key == last {
			r[len(r)-1] = append(r[len(r)-1], o)
			continue
		}
		last = key
		r = append(r, unit{o})
	}
	return r
}

type verusDiag struct {
	Message  string `json:"message"`
	Level    string `json:"level"`
	Rendered string `json:"rendered"`
	Code     *struct {
		Code string `json:"code"`
	} `json:"code"`
	Spans []struct {
		FileName  string `json:"file_name"`
		LineStart int    `json:"line_start"`
		IsPrimary bool   `json:"is_primary"`
	} `json:"spans"`
}

// RunResult is the outcome of one verifier run.
type RunResult struct {
	Failed   map[*Oblig][]string
	SpecErr  []string
	Other    []string
	TypeErr  bool
	Verified int
	Errors   int
	Raw      string
	Wall     time.Duration
	SMTms    int64
	TimedOut bool
	Times    map[string]int64
}

// Verus runs the verifier on the emitted file.
func (e *Emitter) Verus(timeout time.Duration, rlimit int, threads int, seed int, onlyObligs bool) *RunResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "verus", filepath.Base(e.file), "--crate-type=lib", "--num-threads", strconv.Itoa(threads), "--rlimit", strconv.Itoa(rlimit),
		"--multiple-errors", "3", "--output-json", "--time", "--error-format=json", "--no-auto-recommends-check")
	if onlyObligs {
		for _, m := range e.omods {
			cmd.Args = append(cmd.Args, "--verify-only-module", m)
		}
	}
	if seed > 0 {
		cmd.Args = append(cmd.Args, "--smt-option", fmt.Sprintf("smt.random_seed=%d", seed), "--smt-option", fmt.Sprintf("sat.random_seed=%d", seed))
	}
	cmd.Dir = filepath.Dir(e.file)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	t0 := time.Now()
	err := cmd.Run()
	r := &RunResult{Failed: map[*Oblig][]string{}, Wall: time.Since(t0), Raw: errb.String()}
	if ctx.Err() != nil {
		r.TimedOut = true
	}
	var js struct {
		Results struct {
			Verified int  `json:"verified"`
			Errors   int  `json:"errors"`
			Success  bool `json:"success"`
			VIRError bool `json:"encountered-vir-error"`
		} `json:"verification-results"`
		Times struct {
			SMT struct {
				Total int64 `json:"total"`
				Run   int64 `json:"smt-run"`
			} `json:"smt"`
		} `json:"times-ms"`
	}
	haveJS := false
	if i := strings.Index(out.String(), "{"); i >= 0 {
		if json.NewDecoder(strings.NewReader(out.String()[i:])).Decode(&js) == nil {
			haveJS = true
		}
	}
	r.Verified = js.Results.Verified
	r.Errors = js.Results.Errors
	r.SMTms = js.Times.SMT.Total
	sc := bufio.NewScanner(&errb)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		ln := sc.Text()
		if !strings.HasPrefix(ln, "{") {
			if strings.HasPrefix(ln, "error") || strings.Contains(ln, "panicked") {
				r.Other = append(r.Other, ln)
			}
			continue
		}
		var d verusDiag
		if json.Unmarshal([]byte(ln), &d) != nil || d.Level != "error" {
			continue
		}
		if strings.HasPrefix(d.Message, "aborting due to") {
			continue
		}
		var hit *lineSpan
		for pass := 0; pass < 2 && hit == nil; pass++ {
			for _, s := range d.Spans {
				if filepath.Base(s.FileName) != filepath.Base(e.file) {
					continue
				}
				if sp := e.at(s.LineStart); sp != nil && (sp.ob != nil || pass == 1) {
					hit = sp
					break
				}
			}
		}
		switch {
		case hit != nil && hit.ob != nil:
			for _, o := range hit.ob {
				r.Failed[o] = append(r.Failed[o], d.Rendered)
			}
		case hit != nil:
			r.SpecErr = append(r.SpecErr, d.Rendered)
		default:
			r.Other = append(r.Other, d.Rendered)
		}
	}
	if !haveJS || js.Results.VIRError || (js.Results.Verified == 0 && js.Results.Errors == 0) {
		r.TypeErr = true
	}
	_ = err
	return r
}

func (e *Emitter) at(line int) *lineSpan {
	lo, hi := 0, len(e.lines)
	for lo < hi {
		m := (lo + hi) / 2
		if e.lines[m].to < line {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if lo < len(e.lines) && e.lines[lo].from <= line && line <= e.lines[lo].to {
		return &e.lines[lo]
	}
	return nil
}

// Discharge runs the verifier over the obligations, setting their status. The lemmas of the
// specification library are proved in one run, the obligations, which may use them, in others.
func (e *Emitter) Discharge(deadline time.Time, rlimit int) (wall time.Duration, smt int64, specErr []string) {
	t0 := time.Now()
	defer func() { wall = time.Since(t0) }()
	var run []*Oblig
	count := map[string]int{}
	for _, o := range e.g.obligs {
		if o.Goal == "false" && (o.Kind == "missing" || o.Kind == "nocontract" || o.Kind == "mutual") {
			o.Status = "failed"
			o.Detail = o.Text
			continue
		}
		run = append(run, o)
		count[o.Func]++
	}
	// first the obligations, the postconditions of large functions together
	var us []unit
	for _, u := range units(run, true) {
		if len(u) > 1 && count[u[0].Func] < 150 {
			for _, o := range u {
				us = append(us, unit{o})
			}
			continue
		}
		us = append(us, u)
	}
	n, se := e.pass(us, deadline, rlimit, 0, true)
	smt += n
	specErr = se
	// then one by one what is open: the solver is incomplete, so it is open only if it stays so under other seeds and more effort
	for k := 0; k <= 2; k++ {
		var open []*Oblig
		for _, u := range us {
			for _, o := range u {
				if o.Status == "failed" && !o.Cover && o.Goal != "false" && !o.Final && (k > 0 || len(u) > 1) {
					open = append(open, o)
				}
			}
		}
		if k > 0 && (len(open) > 40 || time.Until(deadline) < 60*time.Second) {
			break
		}
		if len(open) == 0 && (k == 0 || len(specErr) == 0) {
			continue
		}
		rl := rlimit
		if k > 0 {
			rl *= 2
		}
		n, se := e.pass(units(open, false), deadline, rl, k, len(specErr) > 0)
		smt += n
		if len(specErr) > 0 {
			specErr = se
		}
	}
	return wall, smt, specErr
}

// pass runs the verifier on the units, in parallel pieces.
func (e *Emitter) pass(us []unit, deadline time.Time, rlimit, seed int, lemmas bool) (smt int64, specErr []string) {
	for try := 0; try < 6; try++ {
		const per = 90
		ns := (len(us) + per - 1) / per
		if ns > 1 && ns < 7 {
			ns = 7
		}
		jobs := make([]*Emitter, 0, ns+1)
		if lemmas {
			jobs = append(jobs, &Emitter{g: e.g, specDir: e.specDir, file: strings.TrimSuffix(e.file, ".rs") + "_lib.rs"})
			if err := jobs[0].Emit(nil, 1); err != nil {
				return smt, []string{err.Error()}
			}
		}
		parts := make([][]unit, ns)
		for i, u := range us {
			parts[i%ns] = append(parts[i%ns], u)
		}
		for i, p := range parts {
			f := e.file
			if i > 0 {
				f = fmt.Sprintf("%s_%d.rs", strings.TrimSuffix(e.file, ".rs"), i)
			}
			j := &Emitter{g: e.g, specDir: e.specDir, file: f}
			if err := j.Emit(p, 4); err != nil {
				return smt, []string{err.Error()}
			}
			jobs = append(jobs, j)
		}
		threads := 1
		if len(jobs) <= 2 {
			threads = 4
		}
		res := make([]*RunResult, len(jobs))
		sem := make(chan bool, 8/threads)
		var wg sync.WaitGroup
		for i := range jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				left := time.Until(deadline)
				if left < 5*time.Second {
					left = 5 * time.Second
				}
				res[i] = jobs[i].Verus(left, rlimit, threads, seed, !(lemmas && i == 0))
			}(i)
		}
		wg.Wait()
		var next []unit
		specErr = nil
		for i, r := range res {
			smt += r.SMTms
			isLib := lemmas && i == 0
			pi := i
			if lemmas {
				pi = i - 1
			}
			var part []unit
			if !isLib {
				part = parts[pi]
			}
			fail := func(msg string) {
				for _, u := range part {
					for _, o := range u {
						o.Status, o.Detail, o.Final = "failed", msg, true
					}
				}
			}
			switch {
			case r.TimedOut && isLib:
				specErr = append(specErr, "the lemmas were not proved within the time limit")
			case r.TimedOut:
				fail("the verifier did not answer within the time limit")
			case isLib:
				if r.TypeErr && len(r.SpecErr)+len(r.Other) == 0 {
					r.Other = append(r.Other, "verifier gave no result:\n"+r.Raw)
				}
				specErr = append(append(specErr, r.SpecErr...), r.Other...)
			case r.TypeErr && (len(r.SpecErr) > 0 || len(r.Failed) == 0):
				msg := append(r.SpecErr, r.Other...)
				if len(msg) == 0 {
					msg = []string{"verifier gave no result:\n" + r.Raw}
				}
				fail("the specification does not apply to this code: " + strings.Join(msg, "\n"))
				specErr = append(specErr, msg...)
			case r.TypeErr:
				for _, u := range part {
					bad := false
					for _, o := range u {
						if d, b := r.Failed[o]; b {
							bad = true
							o.Status, o.Detail, o.Final = "failed", "the obligation is not well-formed:\n"+strings.Join(d, "\n"), len(u) == 1
						}
					}
					if !bad {
						next = append(next, u)
					}
				}
			default:
				for _, u := range part {
					for _, o := range u {
						if d, bad := r.Failed[o]; bad {
							o.Status, o.Detail = "failed", strings.Join(d, "\n")
						} else {
							o.Status, o.Detail = "discharged", ""
						}
					}
				}
				specErr = append(specErr, r.Other...)
			}
		}
		if len(next) == 0 || len(specErr) > 0 {
			return smt, specErr
		}
		us, lemmas = next, false
	}
	return smt, []string{"too many ill-formed obligations"}
}

func hexOf(s string) string { return hex.EncodeToString([]byte(s)) }
