package main

import (
	_ "embed"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

//go:embed layouts.txt
var layoutsText string

const modPath = "gitee.com/coco/go808"

func loadWorld(dir string) (*World, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedCompiledGoFiles}
	pkgs, err := packages.Load(cfg, ".", "./protocol", "./protocol/extra", "./errors")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{Syntax: pkgs, Prog: prog, Pkgs: map[string]*ssa.Package{}, Repo: map[string]bool{}, loops: map[*ssa.Function]*loopInfo{}}
	for i, p := range ps {
		w.Pkgs[pkgs[i].Name] = p
		w.Repo[pkgs[i].PkgPath] = true
	}
	if w.Stub, err = stubPackage(prog); err != nil {
		return nil, err
	}
	w.Repo[stubPath] = true
	lay, order, err := ParseLayouts(layoutsText)
	if err != nil {
		return nil, err
	}
	w.DB = &specDB{lay: lay, order: order, pkg: w.Pkgs["protocol"].Pkg, xpkg: w.Pkgs["extra"].Pkg}
	return w, nil
}

type job struct {
	root string
	run  func(w *World, e *Engine)
}

func runJobs(w *World, jobs []job, par int) []*Engine {
	out := make([]*Engine, len(jobs))
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for i := range jobs {
		i := i
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			e := NewEngine(w, jobs[i].root)
			t0 := time.Now()
			if !w.Late.IsZero() && t0.After(w.Late) && atomic.LoadInt32(&w.failed) > 0 {
				e.fail(Fail{Label: "exploration", Kind: "unsupported", Detail: "not attempted: other obligations have failed and the time is up"})
			} else {
				jobs[i].run(w, e)
			}
			e.Wall = time.Since(t0)
			if len(e.Fails) > 0 {
				atomic.AddInt32(&w.failed, 1)
			}
			out[i] = e
		}()
	}
	wg.Wait()
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc roots FILTER...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2], len(os.Args) > 3 && os.Args[3] == "thorough"))
	case "replay": // property package driver:case seed
		os.Exit(replayMain(os.Args[2:]))
	case "roots":
		w, err := loadWorld(repoDir())
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		w.Trace = os.Getenv("GOVC_TRACE") != ""
		var js []job
		for _, j := range allJobs(w) {
			for _, f := range os.Args[2:] {
				if strings.Contains(j.root, f) {
					js = append(js, j)
					break
				}
			}
		}
		par := 8
		if w.Trace {
			par = 1
		}
		for _, e := range runJobs(w, js, par) {
			printEngine(e)
		}
	}
}

func printEngine(e *Engine) {
	n := 0
	for _, c := range e.Obl {
		n += c
	}
	st := "ok"
	if len(e.Fails) > 0 {
		st = "FAIL"
	}
	fmt.Printf("%-4s %-34s paths=%d ends=%d live=%v obl=%d queries=%d lin=%d/%.1fs solver=%.1fs wall=%.1fs\n", st, e.Root, e.Paths, e.Ends, e.Live, n, e.s.Queries, e.s.Lin, e.s.LinTime.Seconds(), e.s.Time.Seconds(), e.Wall.Seconds())
	for _, f := range e.Fails {
		d := f.Detail
		if len(d) > 400 {
			d = d[:400]
		}
		fmt.Printf("      %s [%s] %s: %s\n", f.Label, f.Kind, f.Pos, d)
		var ks []string
		for k := range f.Model {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if os.Getenv("GOVC_MODEL") != "" {
			for _, k := range ks {
				fmt.Printf("          %s = %s\n", k, f.Model[k])
			}
		}
	}
	if os.Getenv("GOVC_OBL") != "" {
		var ks []string
		for k, c := range e.Obl {
			ks = append(ks, fmt.Sprintf("%s×%d", k, c))
		}
		sort.Strings(ks)
		fmt.Println("      ", strings.Join(ks, " "))
	}
	if len(e.Havocs) > 0 {
		var ks []string
		for k := range e.Havocs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println("       havoc:", strings.Join(ks, "; "))
	}
}

func repoDir() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}
