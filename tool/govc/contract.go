package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Clause is one labelled specification formula, in Verus syntax over program names.
type Clause struct {
	Label string
	Expr  string
	Src   string // file:line of the contract
}

// LoopSpec is the specification of one loop, by ordinal.
type LoopSpec struct {
	N     int
	Vars  [][2]string // name, go type: declared spec names and their types (rename tolerance)
	Inv   []Clause
	Dec   string
	Hints []Clause
	// Lets name values at the loop's entry: let x = expr
	Lets [][2]string
}

// Contract is the specification of one function of the repository (or an assumed
// specification of an external one).
type Contract struct {
	Key        string
	Params     []string // receiver first
	Results    []string
	Requires   []Clause
	Ensures    []Clause
	Modifies   map[string]bool
	Consumes   map[string]bool
	Fresh      map[string]bool
	Dec        string
	Loops      map[int]*LoopSpec
	Hints      []Clause
	Lets       [][2]string
	Extern     bool // assumed, not checked
	Inline     bool // force inlining even though a contract exists
	Heap       bool
	Uses       []string // spec modules needed
	Ghosts     []string // ghost variables of the file
	Src        string
	Rlimit     string
	Closure    int // contract on the n-th func literal of the function
	Expose     map[string]bool
	Assume     []Clause
	Terminates bool
	Local      map[string]*Contract // assumed descriptions of callees, for this file only
	Exits      []Clause             // what holds when the function ends the process
	Guarded    map[string]bool      // fields used only with the lock held
	ChanInv    string               // what every value on a channel satisfies ($v)
	Views      map[string]*View
	// Shared names the state the lock protects (fields of the receiver, $ghosts); other
	// goroutines change it, within SharedInv and Rely, whenever the lock is free.
	Shared    []string
	SharedInv []Clause
	Rely      []Clause
	// Runs describes a parameter of an external function that it calls at most once.
	Runs     string
	RunsArgs []string
	With     []Clause
	// Given are logical parameters: any values for which the preconditions that name them hold.
	Given [][2]string
	// Before are facts to be shown (and then used) where the named function is called.
	Before map[string][]Clause
	// Assuming are facts assumed (and reported) where the named function is called.
	Assuming map[string][]Clause
	// Records names the ghosts in which calls of values of a function type are recorded.
	Records map[string]string
	// Invokes says when a function parameter is called; Iter is the invariant over the
	// calls the named callee makes of a function given to it.
	Invokes map[string][]Invokes
	Iter    map[string]*LoopSpec
}

// GlobalSpec is the specification of a package-level variable.
type GlobalSpec struct {
	Key     string
	Ensures []Clause
	Value   string // optional: Verus term replacing the variable
	Facts   []string
	Uses    []string
	Src     string
}

// Contracts is everything parsed from the contract files.
type Contracts struct {
	Funcs   map[string]*Contract
	Globals map[string]*GlobalSpec
	Heaps   map[string]string // struct type -> the ghost heap its objects live in
}

var clauseKw = regexp.MustCompile(`^(heap|given|records|assuming|before|invokes|iterates|shared|rely|runs|with|calls|exits|guarded|chan|view|ghost|requires|ensures|invariant|decreases|modifies|consumes|fresh|hint|loop|func|extern|global|value|fact|let|package|uses|inline|end|vars|rlimit|expose|assume)\b`)

// ParseContracts reads every .gvc file of dir.
func ParseContracts(dir string) (*Contracts, error) {
	cs := &Contracts{Funcs: map[string]*Contract{}, Globals: map[string]*GlobalSpec{}, Heaps: map[string]string{}}
	fs, err := filepath.Glob(filepath.Join(dir, "*.gvc"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := cs.parseFile(f); err != nil {
			return nil, err
		}
	}
	return cs, nil
}

func splitNames(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			r = append(r, x)
		}
	}
	return r
}

var funcHdr = regexp.MustCompile(`^(\S+?)\(([^)]*)\)\s*(?:\(([^)]*)\))?$`)

func (cs *Contracts) parseFile(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type item struct {
		kw, text string
		line     int
	}
	var items []item
	for i, ln := range strings.Split(string(b), "\n") {
		if j := strings.Index(ln, "//"); j >= 0 {
			ln = ln[:j]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		if m := clauseKw.FindString(t); m != "" {
			items = append(items, item{m, strings.TrimSpace(t[len(m):]), i + 1})
		} else {
			if len(items) == 0 {
				return fmt.Errorf("%s:%d: stray text", file, i+1)
			}
			items[len(items)-1].text += "\n" + t
		}
	}
	pkg := ""
	var cur *Contract
	var loop *LoopSpec
	var glob *GlobalSpec
	var uses, ghosts []string
	local := map[string]*Contract{}
	views := map[string]*View{}
	chanInv := ""
	var records map[string]string
	label := regexp.MustCompile(`^\[([^\]]+)\]\s*`)
	for _, it := range items {
		src := fmt.Sprintf("%s:%d", filepath.Base(file), it.line)
		mk := func() Clause {
			c := Clause{Expr: it.text, Src: src}
			if m := label.FindStringSubmatch(it.text); m != nil {
				c.Label = m[1]
				c.Expr = it.text[len(m[0]):]
			}
			return c
		}
		switch it.kw {
		case "package":
			pkg = it.text
		case "uses":
			if cur == nil && glob == nil {
				uses = append(uses, splitNames(it.text)...)
			} else if glob != nil {
				glob.Uses = append(glob.Uses, splitNames(it.text)...)
			} else {
				cur.Uses = append(cur.Uses, splitNames(it.text)...)
			}
		case "ghost":
			n := strings.SplitN(it.text, " ", 2)
			if len(n) != 2 || !strings.HasPrefix(n[0], "$") {
				return fmt.Errorf("%s: bad ghost", src)
			}
			ghosts = append(ghosts, n[0])
			ghostTypes[n[0]] = strings.TrimSpace(n[1])
		case "heap":
			n := strings.Fields(it.text)
			if len(n) != 2 || !strings.HasPrefix(n[1], "$") {
				return fmt.Errorf("%s: bad heap", src)
			}
			cs.Heaps[pkg+"."+n[0]] = n[1]
			ghosts = append(ghosts, n[1])
			ghostTypes[n[1]] = "Map<int, " + mangle(lastElem(pkg)) + "_" + n[0] + ">"
		case "given":
			for _, v := range strings.Split(it.text, ";") {
				p := strings.SplitN(v, ":", 2)
				if len(p) != 2 {
					return fmt.Errorf("%s: bad given", src)
				}
				cur.Given = append(cur.Given, [2]string{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
			}
		case "records":
			n := strings.Fields(it.text)
			if len(n) != 2 {
				return fmt.Errorf("%s: bad records", src)
			}
			if records == nil {
				records = map[string]string{}
			}
			records[pkg+"."+n[0]] = n[1]
		case "before", "assuming":
			n := strings.SplitN(it.text, " ", 2)
			if len(n) != 2 {
				return fmt.Errorf("%s: bad %s", src, it.kw)
			}
			c := mk()
			c.Expr = strings.TrimSpace(n[1])
			if it.kw == "assuming" {
				if cur.Assuming == nil {
					cur.Assuming = map[string][]Clause{}
				}
				cur.Assuming[pkg+"."+n[0]] = append(cur.Assuming[pkg+"."+n[0]], c)
				break
			}
			if cur.Before == nil {
				cur.Before = map[string][]Clause{}
			}
			cur.Before[pkg+"."+n[0]] = append(cur.Before[pkg+"."+n[0]], c)
		case "invokes":
			i := strings.Index(it.text, ")")
			m := funcHdr.FindStringSubmatch(it.text[:i+1])
			if m == nil {
				return fmt.Errorf("%s: bad invokes", src)
			}
			c := mk()
			c.Expr = strings.TrimSpace(it.text[i+1:])
			if cur.Invokes == nil {
				cur.Invokes = map[string][]Invokes{}
			}
			cur.Invokes[m[1]] = append(cur.Invokes[m[1]], Invokes{Params: splitNames(m[2]), Cl: c})
		case "iterates":
			loop = &LoopSpec{}
			if cur.Iter == nil {
				cur.Iter = map[string]*LoopSpec{}
			}
			cur.Iter[pkg+"."+strings.TrimSpace(it.text)] = loop
		case "chan":
			chanInv = it.text
		case "view":
			v, err := parseView(it.text)
			if err != nil {
				return fmt.Errorf("%s: %v", src, err)
			}
			views[pkg+"."+v.Type] = v
		case "shared":
			cur.Shared = splitNames(it.text)
		case "rely":
			cur.Rely = append(cur.Rely, mk())
		case "runs":
			m := funcHdr.FindStringSubmatch(it.text)
			if m == nil {
				return fmt.Errorf("%s: bad runs %q", src, it.text)
			}
			cur.Runs, cur.RunsArgs = m[1], splitNames(m[2])
		case "with":
			cur.With = append(cur.With, mk())
		case "exits":
			cur.Exits = append(cur.Exits, mk())
		case "guarded":
			if cur.Guarded == nil {
				cur.Guarded = map[string]bool{}
			}
			for _, n := range splitNames(it.text) {
				cur.Guarded[n] = true
			}
		case "func", "extern", "calls":
			m := funcHdr.FindStringSubmatch(it.text)
			if m == nil {
				return fmt.Errorf("%s: bad func header %q", src, it.text)
			}
			key := m[1]
			if it.kw == "func" {
				key = pkg + "." + key
			}
			cur = &Contract{Key: key, Params: splitNames(m[2]), Results: splitNames(m[3]), Modifies: map[string]bool{}, Consumes: map[string]bool{}, Fresh: map[string]bool{}, Loops: map[int]*LoopSpec{}, Extern: it.kw != "func", Src: src, Local: local, Views: views, ChanInv: chanInv, Expose: map[string]bool{}, Records: records}
			cur.Uses = append(cur.Uses, uses...)
			cur.Ghosts = append(cur.Ghosts, ghosts...)
			if it.kw == "calls" {
				local[key] = cur
			} else if cs.Funcs[key] != nil {
				return fmt.Errorf("%s: duplicate contract %s", src, key)
			} else {
				cs.Funcs[key] = cur
			}
			loop, glob = nil, nil
		case "global":
			glob = &GlobalSpec{Key: pkg + "." + it.text, Src: src}
			glob.Uses = append(glob.Uses, uses...)
			cs.Globals[glob.Key] = glob
			cur, loop = nil, nil
		case "value":
			glob.Value = it.text
		case "fact":
			glob.Facts = append(glob.Facts, it.text)
		case "requires":
			cur.Requires = append(cur.Requires, mk())
		case "assume":
			cur.Assume = append(cur.Assume, mk())
		case "ensures":
			if glob != nil {
				glob.Ensures = append(glob.Ensures, mk())
			} else {
				cur.Ensures = append(cur.Ensures, mk())
			}
		case "modifies":
			for _, n := range splitNames(it.text) {
				cur.Modifies[n] = true
			}
		case "expose":
			for _, n := range splitNames(it.text) {
				cur.Expose[n] = true
			}
		case "consumes":
			for _, n := range splitNames(it.text) {
				cur.Consumes[n] = true
			}
		case "fresh":
			for _, n := range splitNames(it.text) {
				cur.Fresh[n] = true
			}
		case "inline":
			cur.Inline = true
		case "rlimit":
			cur.Rlimit = it.text
		case "decreases":
			if loop != nil {
				loop.Dec = it.text
			} else {
				cur.Dec = it.text
			}
		case "loop":
			var n int
			if _, err := fmt.Sscanf(it.text, "%d", &n); err != nil {
				return fmt.Errorf("%s: bad loop", src)
			}
			loop = &LoopSpec{N: n}
			cur.Loops[n] = loop
		case "vars":
			for _, v := range strings.Split(it.text, ";") {
				p := strings.SplitN(v, ":", 2)
				if len(p) != 2 {
					return fmt.Errorf("%s: bad vars", src)
				}
				for _, n := range splitNames(p[0]) {
					loop.Vars = append(loop.Vars, [2]string{n, strings.TrimSpace(p[1])})
				}
			}
		case "invariant":
			if loop == nil && cur != nil && cur.Shared != nil {
				cur.SharedInv = append(cur.SharedInv, mk())
				break
			}
			if loop == nil {
				return fmt.Errorf("%s: invariant outside a loop", src)
			}
			loop.Inv = append(loop.Inv, mk())
		case "hint":
			if loop != nil {
				loop.Hints = append(loop.Hints, mk())
			} else {
				cur.Hints = append(cur.Hints, mk())
			}
		case "let":
			p := strings.SplitN(it.text, "=", 2)
			if len(p) != 2 {
				return fmt.Errorf("%s: bad let", src)
			}
			l := [2]string{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])}
			if loop != nil {
				loop.Lets = append(loop.Lets, l)
			} else {
				cur.Lets = append(cur.Lets, l)
			}
		case "end":
			loop = nil
		}
	}
	return nil
}

// template substitutes program names in a specification formula. lookup returns
// the Verus term for a name and whether the name is known; special handles
// old(...)/pre(...)/lit("...") forms.
var reNum = regexp.MustCompile(`^(0x[0-9a-fA-F_]+|[0-9][0-9_]*)$`)

func template(expr string, lookup func(string) (string, bool), special func(name, arg string) (string, bool)) string {
	var b strings.Builder
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c == '$' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')
	}
	for i < len(expr) {
		c := expr[i]
		if !isId(c) || (c >= '0' && c <= '9') {
			if c >= '0' && c <= '9' { // number with suffix
				j := i
				for j < len(expr) && isId(expr[j]) {
					j++
				}
				b.WriteString(expr[i:j])
				i = j
				continue
			}
			b.WriteByte(c)
			i++
			continue
		}
		j := i
		for j < len(expr) && isId(expr[j]) {
			j++
		}
		id := expr[i:j]
		prev := byte(0)
		if i > 0 {
			prev = expr[i-1]
		}
		prev2 := byte(0)
		if i > 1 {
			prev2 = expr[i-2]
		}
		next := byte(0)
		if j < len(expr) {
			next = expr[j]
		}
		next2 := byte(0)
		if j+1 < len(expr) {
			next2 = expr[j+1]
		}
		if (prev == '.' && prev2 != '.') || (prev == '>' && prev2 == '-') || (prev == ':' && prev2 == ':') || (next == ':' && next2 == ':') {
			b.WriteString(id)
			i = j
			continue
		}
		if next == '(' && special != nil {
			// find the matching paren
			d := 0
			k := j
			for ; k < len(expr); k++ {
				if expr[k] == '(' {
					d++
				}
				if expr[k] == ')' {
					d--
					if d == 0 {
						break
					}
				}
			}
			if k < len(expr) {
				if s, ok := special(id, expr[j+1:k]); ok {
					b.WriteString(s)
					i = k + 1
					continue
				}
			}
		}
		// struct literal field or typed binder
		kk := j
		for kk < len(expr) && expr[kk] == ' ' {
			kk++
		}
		if next != '(' && !(kk < len(expr) && expr[kk] == ':' && (kk+1 >= len(expr) || expr[kk+1] != ':')) {
			if s, ok := lookup(id); ok {
				if reNum.MatchString(s) { // a bare literal has no type of its own
					s += "int"
				}
				b.WriteString(s)
				i = j
				continue
			}
		}
		b.WriteString(id)
		i = j
	}
	return b.String()
}
