package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// CheckCfg says how one property is decided.
type CheckCfg struct {
	ID       string       `json:"id"`
	Level    string       `json:"level"`
	Packages []string     `json:"packages"`
	Funcs    []string     `json:"funcs"`
	Uses     []string     `json:"uses"`
	Theorems []string     `json:"theorems"`
	Rlimit   int          `json:"rlimit"`
	Harness  []HarnessCfg `json:"harness"`
	Bounded  []string     `json:"bounded"`
	// Labels narrows every contract to the clauses with these labels and the frame conditions.
	Labels []string `json:"labels"`
	// EntryLabels keeps, of the postconditions of the functions in Funcs, those with these
	// labels; the rest (other properties' theorems) are neither assumed nor checked.
	EntryLabels []string `json:"entry_labels"`
	Assumptions []string `json:"assumptions"`
}

// HarnessCfg is one test run over the real code.
type HarnessCfg struct {
	Pkg   string   `json:"pkg"`   // directory below the repository
	Files []string `json:"files"` // below /verif/harness
	Run   string   `json:"run"`
	Race  bool     `json:"race"`
	// Decides says the harness is a bounded stand-in and not only a search for failing inputs.
	Decides bool `json:"decides"`
}

type harnessOut struct {
	cfg      HarnessCfg
	built    bool
	fails    []string // one JSON text per failing input
	cases    int
	nontriv  int
	samples  []string
	tail     string
	wall     time.Duration
	cmd      string
	timedOut bool
}

var knownLine = regexp.MustCompile(`^known: property=(\S+) (obligation|case)=(\S+) (.*)$`)

type known struct{ prop, kind, id, what string }

func readKnown(root string) []known {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownLine.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			r = append(r, known{m[1], m[2], m[3], m[4]})
		}
	}
	return r
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	id := fs.String("prop", "", "property id")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	repoDir = *repo
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	var cfg CheckCfg
	b, err := os.ReadFile(filepath.Join(*root, "checks", *id+".json"))
	if err == nil {
		err = json.Unmarshal(b, &cfg)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "check configuration:", err)
		return 2
	}
	if cfg.Rlimit == 0 {
		cfg.Rlimit = 20
	}
	if cfg.Level == "" {
		cfg.Level = "proof"
	}
	work, err := os.MkdirTemp("", "govc-"+*id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	mf, err := PrepMod(work, filepath.Join(*root, "standin/objecthash"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	replayDir := filepath.Join(*root, "replay", *id)
	os.RemoveAll(replayDir)
	os.MkdirAll(replayDir, 0755)

	// 1. the search for failing inputs and the bounded stand-ins run alongside the proof
	hch := make(chan []*harnessOut, 1)
	go func() {
		var r []*harnessOut
		for i, h := range cfg.Harness {
			r = append(r, runHarness(*root, work, mf, fmt.Sprintf("%s-%d", *id, i), h, tier, seed, false, 240*time.Second))
		}
		hch <- r
	}()

	// 2. the proof
	var g *Gen
	var done []string
	var specErr []string
	var wall time.Duration
	var smt int64
	var failed, vacuous []*Oblig
	var loadErr string
	nob, ndis, ncov := 0, 0, 0
	e := &Emitter{specDir: filepath.Join(*root, "spec"), file: filepath.Join(work, "obligations.rs")}
	if len(cfg.Funcs) > 0 || len(cfg.Uses) > 0 {
		pr, err := Load(mf, cfg.Packages)
		if err != nil {
			loadErr = err.Error()
			failed = append(failed, &Oblig{ID: "load.1", Kind: "load", Text: "the packages cannot be loaded", Detail: loadErr, Status: "failed"})
			nob = 1
		} else {
			cs, err := ParseContracts(filepath.Join(*root, "contracts"))
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			if len(cfg.Labels) > 0 {
				narrow(cs, cfg.Labels, cfg.Uses)
			}
			if len(cfg.EntryLabels) > 0 {
				for _, f := range cfg.Funcs {
					if c := cs.Funcs[f]; c != nil {
						var r []Clause
						for _, cl := range c.Ensures {
							for _, l := range cfg.EntryLabels {
								if cl.Label == l {
									r = append(r, cl)
									break
								}
							}
						}
						c.Ensures = r
					}
				}
			}
			g = NewGen(pr, cs)
			e.g = g
			for _, u := range cfg.Uses {
				g.uses[u] = true
			}
			func() {
				defer func() {
					if r := recover(); r != nil && os.Getenv("GOVC_PANIC") == "" {
						g.obligs = append(g.obligs, &Oblig{ID: "generator.1", Kind: "missing", Text: fmt.Sprintf("the generator could not process the code: %v", r), Goal: "false"})
					} else if r != nil {
						panic(r)
					}
				}()
				done = g.Run(cfg.Funcs)
			}()
			if len(cfg.Labels) > 0 {
				var os []*Oblig
				for _, o := range g.obligs {
					if narrowKind(o.Kind, cfg.Labels) {
						os = append(os, o)
					}
				}
				g.obligs = os
			}
			limit := 420 * time.Second
			if tier == "thorough" {
				limit = 700 * time.Second
			}
			wall, smt, specErr = e.Discharge(t0.Add(limit), cfg.Rlimit)
			for _, o := range g.obligs {
				if o.Cover {
					ncov++
					if o.Status == "discharged" {
						vacuous = append(vacuous, o)
					}
					continue
				}
				nob++
				if o.Status == "discharged" {
					ndis++
				} else {
					failed = append(failed, o)
				}
			}
			for i, s := range specErr {
				failed = append(failed, &Oblig{ID: fmt.Sprintf("lemma.%d", i+1), Kind: "lemma", Text: "a lemma of the specification library is not proved for this code", Detail: s, Status: "failed"})
				nob++
			}
			if len(done) > 0 && nob == 0 {
				failed = append(failed, &Oblig{ID: "empty.1", Kind: "empty", Text: "no obligation was generated", Status: "failed"})
				nob++
			}
			for _, o := range vacuous {
				failed = append(failed, &Oblig{ID: o.ID, Kind: "cover", Text: "contradictory assumptions: " + o.Text, Status: "failed"})
			}
			if os.Getenv("GOVC_KEEP") != "" {
				b, _ := os.ReadFile(e.file)
				os.WriteFile(os.Getenv("GOVC_KEEP"), b, 0644)
			}
		}
	}
	hs := <-hch

	kn := readKnown(*root)
	var live []*Oblig
	printed := map[string]bool{}
	for _, o := range failed {
		k := matchKnown(kn, *id, "obligation", o.ID)
		if k == nil {
			live = append(live, o)
			continue
		}
		if !printed[k.id] {
			printed[k.id] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, k.what)
		}
	}
	// 3. a failed obligation: search longer for an input that shows it on the real code
	anyFail := func(hs []*harnessOut) (string, *harnessOut) {
		for _, h := range hs {
			for _, f := range h.fails {
				c := struct {
					Case string `json:"case"`
				}{}
				json.Unmarshal([]byte(f), &c)
				if k := matchKnown(kn, *id, "case", c.Case); k != nil {
					if !printed[k.id] {
						printed[k.id] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, k.what)
					}
					continue
				}
				return f, h
			}
		}
		return "", nil
	}
	fin, fh := anyFail(hs)
	if len(live) > 0 && fh == nil {
		for i, h := range cfg.Harness {
			left := 780*time.Second - time.Since(t0)
			if left > 200*time.Second {
				left = 200 * time.Second
			}
			if left < 20*time.Second || !hs[i].built {
				continue
			}
			hs = append(hs, runHarness(*root, work, mf, fmt.Sprintf("%s-deep-%d", *id, i), h, tier, seed+1, true, left))
		}
		fin, fh = anyFail(hs)
	}
	undecided := ""
	for _, h := range hs {
		if h.cfg.Decides && !h.built {
			undecided = "the bounded stand-in " + h.cfg.Run + " does not build against this code:\n" + h.tail
		}
	}

	// evidence
	viol := len(live)
	if fh != nil {
		viol++
	}
	writeEvidence(*root, &cfg, g, e, tier, seed, done, nob, ndis, ncov, failed, wall, smt, hs, time.Since(t0), viol)

	if len(live) == 0 && fh == nil && undecided == "" {
		fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d cases=%d wall=%.1fs\n", *id, nob, ndis, len(done), sumCases(hs), time.Since(t0).Seconds())
		return 0
	}
	rp := filepath.Join(replayDir, "violation.json")
	rep := map[string]interface{}{"property": *id, "repo": repoDir}
	var fo []map[string]string
	for _, o := range live {
		d := o.Detail
		if len(d) > 4000 {
			d = d[:4000]
		}
		fo = append(fo, map[string]string{"obligation": o.ID, "kind": o.Kind, "text": o.Text, "at": o.Pos, "verifier_output": d, "formula": o.Goal})
		fmt.Printf("failed obligation %s at %s: %s\n", o.ID, o.Pos, oneLine(o.Text))
	}
	rep["failed_obligations"] = fo
	if undecided != "" {
		rep["undecided"] = undecided
	}
	suffix := ""
	if fh != nil {
		var in interface{}
		if json.Unmarshal([]byte(fin), &in) != nil {
			in = fin
		}
		rep["failing_input"] = in
		rep["replay_command"] = fh.cmd
		fmt.Printf("failing input: %s\n", fin)
	} else {
		suffix = " no-failing-input-found"
	}
	jb, _ := json.MarshalIndent(rep, "", " ")
	os.WriteFile(rp, jb, 0644)
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", *id, rp, suffix)
	return 1
}

func matchKnown(kn []known, prop, kind, id string) *known {
	for i := range kn {
		if kn[i].prop == prop && kn[i].kind == kind && kn[i].id == id {
			return &kn[i]
		}
	}
	return nil
}

func sumCases(hs []*harnessOut) int {
	n := 0
	for _, h := range hs {
		n += h.cases
	}
	return n
}

// runHarness runs an in-package test over the real code through an overlay.
func runHarness(root, work, mf, name string, h HarnessCfg, tier string, seed int, deep bool, limit time.Duration) *harnessOut {
	r := &harnessOut{cfg: h}
	repl := map[string]string{}
	lib, err := os.ReadFile(filepath.Join(root, "harness", "hlib.go.txt"))
	if err != nil {
		r.tail = err.Error()
		return r
	}
	pkgName := ""
	for _, f := range h.Files {
		b, err := os.ReadFile(filepath.Join(root, "harness", f))
		if err != nil {
			r.tail = err.Error()
			return r
		}
		m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b)
		if m != nil {
			pkgName = string(m[1])
		}
		base := strings.TrimSuffix(filepath.Base(f), ".go")
		base = strings.TrimSuffix(base, "_test")
		repl[filepath.Join(repoDir, h.Pkg, "zz_verif_"+base+"_test.go")] = filepath.Join(root, "harness", f)
	}
	lf := filepath.Join(work, name+"_hlib_test.go")
	os.WriteFile(lf, bytes.Replace(lib, []byte("package hlib"), []byte("package "+pkgName), 1), 0644)
	repl[filepath.Join(repoDir, h.Pkg, "zz_verif_hlib_test.go")] = lf
	// the repository's own tests in that package are left out
	if ms, _ := filepath.Glob(filepath.Join(repoDir, h.Pkg, "*_test.go")); true {
		for _, m := range ms {
			if repl[m] == "" {
				repl[m] = ""
			}
		}
	}
	ov := filepath.Join(work, name+"_overlay.json")
	ob, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(ov, ob, 0644)
	bin := filepath.Join(work, name+".test")
	t0 := time.Now()
	args := []string{"test", "-c", "-vet=off", "-modfile=" + mf, "-overlay", ov, "-o", bin}
	if h.Race {
		args = append(args, "-race")
	}
	args = append(args, "./"+h.Pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	r.cmd = "cd " + repoDir + " && go " + strings.Join(args, " ") + " && VERIF_SEED=" + strconv.Itoa(seed) + " " + bin + " -test.run " + h.Run + "  (scratch files are removed after the check; see /verif/tool/govc/check.go runHarness)"
	if err != nil {
		r.tail = string(out)
		r.wall = time.Since(t0)
		return r
	}
	if _, err := os.Stat(bin); err != nil {
		r.tail = "no test binary"
		return r
	}
	r.built = true
	scratch := filepath.Join(work, name+"_scratch")
	os.MkdirAll(scratch, 0777)
	ctx, cancel := context.WithTimeout(context.Background(), limit+30*time.Second)
	defer cancel()
	budget := int(limit.Seconds() * 0.6)
	if !deep {
		budget = 12
		if tier == "thorough" {
			budget = 120
		}
	}
	run := exec.CommandContext(ctx, bin, "-test.run", "^"+h.Run+"$", "-test.timeout", fmt.Sprintf("%ds", int(limit.Seconds())), "-test.v")
	run.Dir = scratch
	run.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	run.Cancel = func() error { return syscall.Kill(-run.Process.Pid, syscall.SIGKILL) }
	run.Env = append(os.Environ(), "VERIF_TIER="+tier, "VERIF_SEED="+strconv.Itoa(seed), "VERIF_BUDGET="+strconv.Itoa(budget), "VERIF_SCRATCH="+scratch, "GOMEMLIMIT=6GiB")
	if deep {
		run.Env = append(run.Env, "VERIF_DEEP=1")
	}
	ro, err := run.CombinedOutput()
	r.wall = time.Since(t0)
	for _, l := range strings.Split(string(ro), "\n") {
		if i := strings.Index(l, "VERIF-FAIL "); i >= 0 {
			r.fails = append(r.fails, strings.TrimSpace(l[i+11:]))
		}
		if i := strings.Index(l, "VERIF-STAT "); i >= 0 {
			var s struct {
				Cases, Nontrivial int
				Samples           []string
			}
			if json.Unmarshal([]byte(l[i+11:]), &s) == nil {
				r.cases += s.Cases
				r.nontriv += s.Nontrivial
				r.samples = append(r.samples, s.Samples...)
			}
		}
	}
	r.tail = string(ro)
	if len(r.tail) > 6000 {
		r.tail = r.tail[:3000] + "\n...\n" + r.tail[len(r.tail)-3000:]
	}
	if ctx.Err() != nil {
		r.timedOut = true
	}
	if err != nil && len(r.fails) == 0 && !r.timedOut {
		last, _ := os.ReadFile(filepath.Join(scratch, "last-case.json"))
		m, _ := json.Marshal(map[string]string{"case": "crash", "what": "the process under test died", "last_case": string(last), "output": r.tail})
		r.fails = append(r.fails, string(m))
	}
	return r
}

func writeEvidence(root string, cfg *CheckCfg, g *Gen, e *Emitter, tier string, seed int, done []string, nob, ndis, ncov int, failed []*Oblig, wall time.Duration, smt int64, hs []*harnessOut, total time.Duration, viol int) {
	cov := map[string]interface{}{}
	tb := []string{
		"govc (/verif/tool/govc): the translation of Go source to proof obligations, including its models of the Go standard library",
		"Verus, its vstd library and z3",
		"the Go type checker (go/types)",
		"the specification library /verif/spec (definitions; its lemmas are proved on every run)",
	}
	if g != nil {
		cov["obligations"] = nob
		cov["discharged"] = ndis
		cov["reachability_covers"] = ncov
		cov["functions_under_contract"] = done
		cov["inlined_functions"] = sortedKeys(g.inlined)
		cov["unconstrained_externals"] = sortedKeys(g.havocked)
		cov["paths"] = g.paths
		cov["solver_ms"] = smt
		cov["verifier_wall_s"] = wall.Seconds()
		cov["back_end"] = "Verus 0.2026.09.13 with z3"
		for _, a := range sortedKeys(g.assumed) {
			tb = append(tb, "assumed: "+a)
		}
		kinds := map[string]int{}
		for _, o := range g.obligs {
			k := o.Kind
			if i := strings.IndexAny(k, "[."); i > 0 {
				k = k[:i]
			}
			kinds[k]++
		}
		cov["obligations_by_kind"] = kinds
		var sample []string
		for i, o := range g.obligs {
			if i%(len(g.obligs)/12+1) == 0 {
				sample = append(sample, o.ID+": "+oneLine(o.Text))
			}
		}
		cov["samples"] = sample
	}
	cov["checker_cmd"] = "/verif/check.sh " + cfg.ID
	cov["trusted_base"] = tb
	cov["theorems"] = cfg.Theorems
	if len(hs) > 0 {
		var hl []map[string]interface{}
		ev, nt := 0, 0
		var samples []string
		for _, h := range hs {
			role := "search for failing inputs on the real code (not counted as proof)"
			if h.cfg.Decides {
				role = "bounded stand-in (not counted as proof)"
			}
			m := map[string]interface{}{"test": h.cfg.Pkg + "/" + h.cfg.Run, "role": role, "built": h.built, "cases": h.cases, "nontrivial": h.nontriv, "failures": len(h.fails), "wall_s": h.wall.Seconds()}
			if !h.built {
				m["output"] = h.tail
			}
			hl = append(hl, m)
			ev += h.cases
			nt += h.nontriv
			samples = append(samples, h.samples...)
		}
		cov["harness"] = hl
		cov["evaluations"] = ev
		cov["distinct_nontrivial"] = nt
		cov["rule"] = "harness cases on the real code: small inputs enumerated and larger ones drawn from VERIF_SEED; a case is non-trivial when it exercises a non-error path or a rejected near-miss, and cases are distinct by construction or by hashing their description"
		if len(samples) > 12 {
			samples = samples[:12]
		}
		if cov["samples"] == nil {
			cov["samples"] = samples
		} else {
			cov["harness_samples"] = samples
		}
	}
	if len(cfg.Bounded) > 0 {
		cov["bounded_stand_ins"] = cfg.Bounded
	}
	if cfg.Level == "other" {
		cov["explanation"] = strings.Join(cfg.Bounded, "; ")
	}
	var fl []string
	for _, o := range failed {
		fl = append(fl, o.ID)
	}
	if fl != nil {
		cov["failed_obligations"] = fl
	}
	ev := map[string]interface{}{"property": cfg.ID, "tier": tier, "seed": seed, "level": cfg.Level, "coverage": cov, "wall_s": total.Seconds(), "violations": viol}
	if len(cfg.Assumptions) > 0 {
		ev["assumptions"] = cfg.Assumptions
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", cfg.ID+".json"), b, 0644)
}
