package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc gen|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "gen":
		os.Exit(cmdGen(os.Args[2:]))
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	}
	os.Exit(2)
}

// cmdGen generates and discharges the obligations of some functions: a development aid.
func cmdGen(args []string) int {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	pk := fs.String("pkgs", "", "packages below the module")
	fn := fs.String("funcs", "", "functions")
	keep := fs.String("o", "/tmp/govc.rs", "output file")
	rl := fs.Int("rlimit", 20, "")
	verbose := fs.Bool("v", false, "")
	noRun := fs.Bool("n", false, "only generate")
	only := fs.Bool("only", false, "only the named functions")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	repoDir = *repo
	work, err := os.MkdirTemp("", "govc")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(work)
	mf, err := PrepMod(work, filepath.Join(*root, "standin/objecthash"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	t0 := time.Now()
	pr, err := Load(mf, splitNames(*pk))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	cs, err := ParseContracts(filepath.Join(*root, "contracts"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	t1 := time.Now()
	g := NewGen(pr, cs)
	var entries []string
	for _, f := range splitNames(*fn) {
		if strings.HasSuffix(f, "*") {
			for _, k := range sortedKeys(cs.Funcs) {
				if strings.HasPrefix(k, f[:len(f)-1]) && !cs.Funcs[k].Extern {
					entries = append(entries, k)
				}
			}
			continue
		}
		entries = append(entries, f)
	}
	if *only {
		for _, k := range sortedKeys(cs.Funcs) {
			g.queued[k] = true
		}
		for _, k := range entries {
			delete(g.queued, k)
		}
	}
	done := g.Run(entries)
	fmt.Printf("load %.1fs, %d functions, %d obligations, %d paths\n", t1.Sub(t0).Seconds(), len(done), len(g.obligs), g.paths)
	e := &Emitter{g: g, specDir: filepath.Join(*root, "spec"), file: *keep}
	if *noRun {
		if err := e.Emit(units(g.obligs, false), 8); err != nil {
			fmt.Println(err)
			return 2
		}
		return 0
	}
	wall, smt, se := e.Discharge(time.Now().Add(800*time.Second), *rl)
	bad := 0
	for _, s := range se {
		fmt.Println("SPEC:", s)
		bad++
	}
	nd := 0
	for _, o := range g.obligs {
		if o.Cover {
			if o.Status == "discharged" {
				fmt.Println("VACUOUS:", o.ID)
				bad++
			}
			continue
		}
		if o.Status == "discharged" {
			nd++
			continue
		}
		bad++
		fmt.Printf("FAILED %s (%s): %s\n", o.ID, o.Pos, o.Text)
		if *verbose && !strings.HasPrefix(o.Detail, "the specification does not apply") {
			fmt.Println(o.Detail)
		}
	}
	fmt.Printf("discharged %d, wall %.1fs, smt %dms\n", nd, wall.Seconds(), smt)
	if bad > 0 {
		return 1
	}
	return 0
}
