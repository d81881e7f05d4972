package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

// The concrete harness: in-tree test packages injected by overlay. It replays the
// verifier's counterexamples and searches for failing inputs near them.

type hints struct {
	Ints   []uint64                       `json:"ints"`
	Strs   []string                       `json:"strs"`
	Bodies map[string][]string            `json:"bodies"`
	Fields map[string][]map[string]string `json:"fields"`
}
type hfail struct {
	Driver string   `json:"driver"`
	Case   int      `json:"case"`
	Seed   int64    `json:"seed"`
	What   []string `json:"what"`
	Input  []string `json:"input"`
}
type hreport struct {
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct"`
	ByDriver    map[string]int `json:"by_driver"`
	Incon       []string       `json:"inconclusive"`
	Samples     []string       `json:"samples"`
	Fails       []hfail        `json:"fails"`
	Wall        float64        `json:"wall_s"`
	Err         string         `json:"err,omitempty"`
	Pkg         string         `json:"pkg"`
}

func verifDir() string {
	if d := os.Getenv("GOVC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// buildHarness compiles the harness of one package ("protocol" or "root") against the repository.
func buildHarness(pkg, tmp string, race bool) (string, error) {
	repo := repoDir()
	rel, clause := "protocol", "protocol_test"
	if pkg == "root" {
		rel, clause = ".", "go808_test"
	}
	files := map[string]string{}
	dir := filepath.Join(verifDir(), "harness")
	srcs, _ := filepath.Glob(filepath.Join(dir, pkg, "*.go"))
	srcs = append(srcs, filepath.Join(dir, "frame.go"))
	srcs = append(srcs, filepath.Join(verifDir(), "govc", "layout.go"))
	put := func(base, text string) error {
		p := filepath.Join(tmp, pkg+"_"+base)
		files[filepath.Join(repo, rel, "zzverif_"+strings.TrimSuffix(base, ".go")+"_test.go")] = p
		return os.WriteFile(p, []byte(text), 0644)
	}
	for _, s := range srcs {
		data, err := os.ReadFile(s)
		if err != nil {
			return "", err
		}
		t := string(data)
		t = strings.Replace(t, "package HARNESS", "package "+clause, 1)
		t = strings.Replace(t, "package main", "package "+clause, 1)
		if err := put(filepath.Base(s), t); err != nil {
			return "", err
		}
	}
	if pkg == "protocol" {
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport \"gitee.com/coco/go808/protocol\"\n\nconst layoutsText = %q\n\nvar vnew = map[string]func() protocol.Entity{\n", clause, layoutsText)
		_, order, err := ParseLayouts(layoutsText)
		if err != nil {
			return "", err
		}
		for _, l := range order {
			if l.MsgID >= 0 {
				fmt.Fprintf(&sb, "\t%q: func() protocol.Entity { return new(protocol.%s) },\n", l.Name, l.Name)
			}
		}
		sb.WriteString("}\n")
		if err := put("gen.go", sb.String()); err != nil {
			return "", err
		}
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": files})
	ovf := filepath.Join(tmp, pkg+"_overlay.json")
	if err := os.WriteFile(ovf, ov, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(tmp, pkg+".test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./"+rel)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v\n%s", err, out)
	}
	return bin, nil
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOSUMDB=off")
}

func runHarness(bin, pkg, tmp, prop string, seed int64, scale, budget float64, h *hints, replay string) *hreport {
	rep := &hreport{Pkg: pkg}
	hf := filepath.Join(tmp, pkg+"_hints.json")
	data, _ := json.Marshal(h)
	os.WriteFile(hf, data, 0644)
	out := filepath.Join(tmp, pkg+"_out.json")
	os.Remove(out)
	cwd := filepath.Join(tmp, pkg+"_cwd")
	os.MkdirAll(cwd, 0755)
	cmd := exec.Command(bin, "-test.run", "^TestVerifHarness$", "-test.timeout", fmt.Sprintf("%ds", int(budget)+60))
	cmd.Dir = cwd
	cmd.Env = append(goEnv(), "VERIF_PROP="+prop, fmt.Sprintf("VERIF_HSEED=%d", seed), fmt.Sprintf("VERIF_SCALE=%g", scale),
		fmt.Sprintf("VERIF_BUDGET=%g", budget), "VERIF_HINTS="+hf, "VERIF_OUT="+out, "VERIF_REPLAY="+replay, "TMPDIR="+cwd)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Start()
	if err == nil {
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case err = <-done:
		case <-time.After(time.Duration(budget+90) * time.Second):
			cmd.Process.Kill()
			err = fmt.Errorf("harness killed after its time")
			<-done
		}
	}
	res, rerr := os.ReadFile(out)
	if rerr == nil {
		if jerr := json.Unmarshal(res, rep); jerr == nil {
			rep.Pkg = pkg
			return rep
		}
	}
	t := buf.String()
	if len(t) > 6000 {
		t = t[len(t)-6000:]
	}
	rep.Err = fmt.Sprintf("harness ended without a report: %v\n%s", err, t)
	// a crash of the whole process (fatal error, unrecovered panic in a goroutine,
	// deadlock) inside the code under test is itself a failure of the case
	if strings.Contains(t, "fatal error:") || strings.Contains(t, "panic:") {
		rep.Fails = append(rep.Fails, hfail{Driver: "process", Seed: seed, What: []string{rep.Err}})
	}
	return rep
}

// mineHints collects the constants that occur in the repository's source.
func mineHints(pkgs []*packages.Package) *hints {
	h := &hints{Bodies: map[string][]string{}, Fields: map[string][]map[string]string{}}
	ints, strs := map[uint64]bool{}, map[string]bool{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			if strings.HasSuffix(name, "register.go") {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if imp, ok := n.(*ast.ImportSpec); ok {
					_ = imp
					return false
				}
				e, ok := n.(ast.Expr)
				if !ok {
					return true
				}
				tv, ok := p.TypesInfo.Types[e]
				if !ok || tv.Value == nil {
					return true
				}
				switch tv.Value.Kind() {
				case constant.Int:
					if u, ok := constant.Uint64Val(constant.ToInt(tv.Value)); ok {
						ints[u] = true
					} else if i, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok {
						ints[uint64(i)] = true
					}
				case constant.String:
					s := constant.StringVal(tv.Value)
					if len(s) > 0 && len(s) <= 24 && !strings.Contains(s, "T808") {
						strs[s] = true
					}
				}
				return true
			})
		}
	}
	for u := range ints {
		h.Ints = append(h.Ints, u)
	}
	sort.Slice(h.Ints, func(i, j int) bool { return h.Ints[i] < h.Ints[j] })
	for s := range strs {
		h.Strs = append(h.Strs, s)
	}
	sort.Strings(h.Strs)
	return h
}

var _ = token.ADD
var _ types.Type
