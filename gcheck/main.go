package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Check struct {
	technique string
	run       func(P *Prog, r *Report)
}

var checks = map[string]Check{}

func main() {
	repo := os.Getenv("GCHECK_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if len(os.Args) > 1 && os.Args[1] == "dump" {
		dumpMain(repo, os.Args[2:])
		return
	}
	exe, _ := os.Executable()
	verif := os.Getenv("GCHECK_VERIF")
	if verif == "" {
		verif = filepath.Dir(filepath.Dir(exe))
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := os.Args[1:]
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	t0 := time.Now()
	resetTerms()
	P, err := load(repo)
	rc := 0
	for _, id := range ids {
		c, ok := checks[id]
		if !ok {
			fmt.Println("no check for", id)
			fmt.Printf("VIOLATION property=%s replay=-\n", id)
			rc = 1
			continue
		}
		start := time.Now()
		resetTerms()
		if len(ids) == 1 {
			start = t0
		}
		var r *Report
		if err != nil {
			r = newReport(&Prog{}, id)
			r.bad("load", "program", "-", "%v", err)
		} else {
			r = newReport(P, id)
			func() {
				defer func() {
					if e := recover(); e != nil {
						r.bad("analysis", "internal", "-", "the analysis failed: %v\n%s", e, debug.Stack())
					}
				}()
				c.run(P, r)
			}()
		}
		if r.finish(verif, tier, seed, start, c.technique) != 0 {
			rc = 1
		}
	}
	os.Exit(rc)
}

func dumpMain(repo string, names []string) {
	P, err := load(repo)
	if err != nil {
		panic(err)
	}
	o := Opts{}
	if len(names) == 0 {
		for _, c := range P.cli(newReport(P, "x")).cmds {
			f, _, e := c.action()
			fmt.Println(c.key, c.use, c.alias, f, e, len(c.fields))
			for _, fl := range c.flags {
				fmt.Println("   ", *fl)
			}
		}
	}
	for _, a := range names {
		if strings.HasPrefix(a, "-o") { // opaque functions
			pats := strings.Split(a[2:], ",")
			o.opaque = opaqueNames(pats...)
			continue
		}
		i := strings.IndexByte(a, '/')
		f := P.fn(a[:i], a[i+1:])
		if f == nil {
			for _, g := range P.Funcs {
				if strings.HasSuffix(fname(g), a[i+1:]) {
					f = g
				}
			}
		}
		if f == nil {
			fmt.Println("no", a)
			continue
		}
		t1 := time.Now()
		outs, in := P.run(f, o)
		fmt.Println("==", a, len(outs), "outcomes", in.steps, "steps over:", in.over, time.Since(t1))
		for _, o := range outs {
			dump(P, o)
		}
	}
}

func dump(P *Prog, o *Outcome) {
	fmt.Println("-- panic:", o.panic, "exit:", o.exit, "rets:", o.rets)
	for _, f := range o.st.f.list {
		fmt.Println("     ?", f)
	}
	dumpEv(P, o.st.ev, "     ")
}
func dumpEv(P *Prog, ev []*Event, ind string) {
	for _, e := range ev {
		fmt.Println(ind+"!", e.kind, e.name, e.args, e.res, "nf", e.nf)
		if e.kind == "loop" {
			fmt.Println(ind+"  seq", e.loop.seq, "iters", len(e.loop.iters), "set", len(e.loop.set))
			for _, p := range e.loop.phis {
				fmt.Println(ind+"   phi", p.sym, "init", p.init)
			}
			for _, it := range e.loop.iters {
				fmt.Println(ind+"   iter", it.phis)
				for _, f := range it.facts {
					fmt.Println(ind+"     ?", f)
				}
				dumpEv(P, it.ev, ind+"     ")
			}
		}
		if e.kind == "loopexit" {
			fmt.Println(ind+"  broke", e.broke)
		}
	}
}
