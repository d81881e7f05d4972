package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Deciding one property: discharge its obligations on the current source, replay and
// search concretely, report.

type propDef struct {
	ID      string
	Roots   func(root string) bool
	Counts  func(root, label string) bool // obligations of those roots that belong to the property
	Harness []string
	Scale   float64 // concrete cases relative to the driver's own number
	Race    bool
	Assume  []string // assumptions beyond the common ones
	Bounded []string // parts decided only by the bounded stand-in
	Level   string
}

var commonTrusted = []string{
	"govc (this verifier: go/ssa lowering by golang.org/x/tools, symbolic semantics, invariant checker, /verif/govc)",
	"z3 and cvc5; the internal linear-arithmetic prover linarith.go (switched off in the thorough tier)",
	"the Go compiler and runtime; sequential consistency of mutex-protected code",
}
var commonAssume = []string{
	"byte strings and lists are shorter than 2^40; int is 64 bits; machine integers are exact bit vectors",
	"append and bytes.Buffer yield memory not aliased by other live slices (callers in /repo do not keep the old slice)",
	"logging (logrus, fmt) has no effect on the result",
	"models of the library calls used: bytes, bytes.Buffer/Reader, encoding/binary, strconv, strings, fmt.Sprintf on digits, time formatting and parsing as functions of the instant in the local zone, shopspring/decimal as exact decimals, GB18030 as an uninterpreted coding with decode(encode(t)) = t on representable text",
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int64                  `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	Wall        float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func checkMain(id string, thorough bool) int {
	t0 := time.Now()
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	tier := "quick"
	if thorough {
		tier = "thorough"
		os.Setenv("GOVC_NOLIN", "1")
	}
	var pd *propDef
	for i := range propDefs {
		if propDefs[i].ID == id {
			pd = &propDefs[i]
		}
	}
	if pd == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	tmp, err := os.MkdirTemp("", "govc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	// the concrete harness is compiled while the proofs run
	type hb struct {
		pkg, bin string
		err      error
	}
	hch := make(chan hb, len(pd.Harness))
	for _, p := range pd.Harness {
		p := p
		go func() {
			bin, err := buildHarness(p, tmp, pd.Race)
			hch <- hb{p, bin, err}
		}()
	}

	w, err := loadWorld(repoDir())
	if err != nil {
		fmt.Fprintln(os.Stderr, "loading /repo:", err)
		return 2
	}
	h := mineHints(w.Syntax)
	var js []job
	for _, j := range allJobs(w) {
		if pd.Roots != nil && pd.Roots(j.root) {
			js = append(js, j)
		}
	}
	if os.Getenv("GOVC_NOPROOF") != "" { // development: how far the harness alone gets (reported as vacuous)
		js = nil
	}
	if !thorough {
		w.Late, w.Stop = time.Now().Add(200*time.Second), time.Now().Add(420*time.Second)
	}
	engines := runJobs(w, js, 8)

	obl, disc := 0, 0
	var fails []Fail
	fns, used, havocs := map[string]bool{}, map[string]bool{}, map[string]bool{}
	byRoot := map[string]interface{}{}
	queries, lin, other := 0, 0, 0
	var stime, ltime time.Duration
	for _, e := range engines {
		n := 0
		for l, k := range e.Obl {
			if pd.Counts == nil || pd.Counts(e.Root, l) {
				n += k
			}
		}
		bad := 0
		seen := map[string]bool{}
		for _, f := range e.Fails {
			if f.Label == "subset" || f.Label == "exploration" || pd.Counts == nil || pd.Counts(e.Root, f.Label) {
				bad++
				if k := f.Label + f.Pos; !seen[k] {
					seen[k] = true
					f.Root = e.Root
					fails = append(fails, f)
				}
			}
		}
		if bad == 0 && (n == 0 || !e.Live) {
			bad++
			fails = append(fails, Fail{Root: e.Root, Label: "vacuity", Kind: "unknown", Detail: fmt.Sprintf("no obligation or no feasible path (obligations %d, live %v)", n, e.Live)})
		}
		obl += n + bad
		disc += n
		byRoot[e.Root] = map[string]interface{}{"obligations": n + bad, "discharged": n, "paths": e.Paths, "solver_s": round(e.s.Time.Seconds())}
		for f := range e.Fns {
			fns[f] = true
		}
		for u := range e.Used {
			used[u] = true
		}
		for u := range e.Havocs {
			havocs[e.Root+": "+u] = true
		}
		queries += e.s.Queries
		lin += e.s.Lin
		other += e.s.Other
		stime += e.s.Time
		ltime += e.s.LinTime
		addHints(h, e)
	}
	if len(js) == 0 && pd.Level == "proof" {
		fails = append(fails, Fail{Root: id, Label: "vacuity", Kind: "unknown", Detail: "no proof root"})
		obl++
	}

	// concrete part
	scale, budget := 1.0, 60.0
	if pd.Scale > 0 {
		scale = pd.Scale
	}
	if thorough {
		scale, budget = scale*25, 600
	}
	if len(fails) > 0 && !thorough {
		scale, budget = scale*6, 200
	}
	var reps []*hreport
	for range pd.Harness {
		b := <-hch
		if b.err != nil {
			reps = append(reps, &hreport{Pkg: b.pkg, Err: "harness does not build against this tree: " + b.err.Error()})
			continue
		}
		reps = append(reps, runHarness(b.bin, b.pkg, tmp, id, seed, scale, budget/float64(len(pd.Harness)), h, ""))
	}
	nfail := 0
	evals, dist := 0, 0
	var samples, notes []string
	drv := map[string]int{}
	for _, r := range reps {
		nfail += len(r.Fails)
		evals += r.Evaluations
		dist += r.Distinct
		samples = append(samples, r.Samples...)
		notes = append(notes, r.Incon...)
		for k, v := range r.ByDriver {
			drv[r.Pkg+"/"+k] += v
		}
		if r.Err != "" {
			notes = append(notes, r.Err)
			fmt.Println("NOTE:", firstLine(r.Err))
		}
	}

	// known findings
	known := loadKnown()
	var open []Fail
	for _, f := range fails {
		if k := known.match(id, f.Root+" "+f.Label); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		open = append(open, f)
	}

	rc := 0
	violations := 0
	if len(open) > 0 || nfail > 0 {
		rc = 1
		violations = len(open) + nfail
		dir := filepath.Join(evidDir(), "replay")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, id+".txt")
		if hj, err := json.Marshal(h); err == nil {
			os.WriteFile(filepath.Join(dir, id+".hints.json"), hj, 0644)
		}
		writeReplay(path, id, open, reps)
		for _, f := range open {
			fmt.Printf("FAILED obligation %s / %s [%s] %s: %s\n", f.Root, f.Label, f.Kind, f.Pos, cutStr(firstLine(f.Detail), 200))
		}
		for _, r := range reps {
			for i, f := range r.Fails {
				if i < 3 {
					fmt.Printf("FAILED concretely %s/%s case %d seed %d: %s\n", r.Pkg, f.Driver, f.Case, f.Seed, cutStr(strings.Join(f.What, "; "), 400))
				}
			}
		}
		tail := ""
		if nfail == 0 {
			tail = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, path, tail)
	}

	lvl := pd.Level
	cov := map[string]interface{}{
		"obligations":              obl,
		"discharged":               disc,
		"checker_cmd":              fmt.Sprintf("bin/govc check %s", id),
		"trusted_base":             commonTrusted,
		"roots":                    byRoot,
		"functions_under_contract": keys(fns),
		"contracts_and_models":     keys(used),
		"loop_components_havocked": keys(havocs),
		"back_ends": map[string]interface{}{
			"z3-new":             map[string]interface{}{"queries": queries, "seconds": round(stime.Seconds())},
			"linarith(internal)": map[string]interface{}{"queries": lin, "seconds": round(ltime.Seconds())},
			"other solver runs":  other,
		},
		"undischarged": failList(open),
		"bounded_audit": map[string]interface{}{
			"note":                "concrete replay and search on the compiled code; not counted as proof",
			"evaluations":         evals,
			"distinct_nontrivial": dist,
			"by_driver":           drv,
			"samples":             samples,
			"notes":               notes,
			"mined_constants":     len(h.Ints),
		},
		"bounded_parts": pd.Bounded,
	}
	if lvl != "proof" {
		cov["evaluations"], cov["distinct_nontrivial"], cov["samples"] = evals, dist, samples
		cov["rule"] = "cases are drawn from the generators of /verif/harness seeded by VERIF_SEED; distinct by driver and rendered case"
	}
	ev := evidence{Property: id, Tier: tier, Seed: seed, Level: lvl, Coverage: cov, Assumptions: append(append([]string{}, commonAssume...), pd.Assume...), Wall: round(time.Since(t0).Seconds()), Violations: violations}
	os.MkdirAll(evidDir(), 0755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evidDir(), id+".json"), data, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d obligations, %d discharged in %d roots (%d solver queries, %.1fs; %d internal); %d concrete cases (%d distinct), %d failing; %.1fs\n",
		id, tier, obl, disc, len(js), queries, stime.Seconds(), lin, evals, dist, nfail, time.Since(t0).Seconds())
	return rc
}

func evidDir() string {
	if d := os.Getenv("GOVC_EVID"); d != "" {
		return d
	}
	return filepath.Join(verifDir(), "evidence")
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }
func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
func cutStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
func failList(fs []Fail) []string {
	out := []string{}
	for _, f := range fs {
		out = append(out, fmt.Sprintf("%s / %s [%s]", f.Root, f.Label, f.Kind))
	}
	return out
}

// addHints turns counterexample models into concrete starting points.
func addHints(h *hints, e *Engine) {
	for _, f := range e.Fails {
		i := strings.IndexByte(e.Root, ':')
		if i < 0 {
			continue
		}
		typ := e.Root[i+1:]
		if len(f.Model) == 0 {
			if strings.HasPrefix(e.Root, "dec:") && len(h.Bodies[typ]) == 0 {
				h.Bodies[typ] = []string{}
			}
			if strings.HasPrefix(e.Root, "enc:") && len(h.Fields[typ]) == 0 {
				h.Fields[typ] = []map[string]string{}
			}
			continue
		}
		switch {
		case strings.HasPrefix(e.Root, "dec:"):
			n, ok := hexVal(f.Model["len(D)"])
			if !ok || n > 1<<16 {
				n = 64
			}
			b := make([]byte, n)
			for i := range b {
				if x, ok := hexVal(f.Model[fmt.Sprintf("D[%d]", i)]); ok {
					b[i] = byte(x)
				}
			}
			if len(h.Bodies[typ]) < 40 {
				h.Bodies[typ] = append(h.Bodies[typ], hex.EncodeToString(b))
			}
		case strings.HasPrefix(e.Root, "enc:"):
			m := map[string]string{}
			for k, v := range f.Model {
				p := "in:" + typ + "."
				if strings.HasPrefix(k, p) && strings.HasPrefix(v, "#") {
					if x, ok := hexVal(v); ok {
						m[strings.TrimPrefix(k, p)] = fmt.Sprintf("%x", x)
					}
				}
			}
			if len(h.Fields[typ]) < 40 {
				h.Fields[typ] = append(h.Fields[typ], m)
			}
		}
	}
}
func hexVal(s string) (uint64, bool) {
	if strings.HasPrefix(s, "#x") {
		x, err := strconv.ParseUint(s[2:], 16, 64)
		return x, err == nil
	}
	if strings.HasPrefix(s, "#b") {
		x, err := strconv.ParseUint(s[2:], 2, 64)
		return x, err == nil
	}
	return 0, false
}

func writeReplay(path, id string, fails []Fail, reps []*hreport) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n", id)
	for _, r := range reps {
		for _, f := range r.Fails {
			fmt.Fprintf(&sb, "\n== concrete failure on the compiled code\nrerun: bin/govc replay %s %s %s:%d %d\n", id, r.Pkg, f.Driver, f.Case, f.Seed)
			for _, l := range f.Input {
				fmt.Fprintf(&sb, "input: %s\n", l)
			}
			for _, l := range f.What {
				fmt.Fprintf(&sb, "fails: %s\n", l)
			}
		}
	}
	for _, f := range fails {
		fmt.Fprintf(&sb, "\n== obligation not discharged: %s / %s\nkind: %s   at: %s\n%s\n", f.Root, f.Label, f.Kind, f.Pos, f.Detail)
		var ks []string
		for k := range f.Model {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&sb, "  model %s = %s\n", k, f.Model[k])
		}
	}
	os.WriteFile(path, []byte(sb.String()), 0644)
}

// known findings: lines "finding: property=<id> obligation=<root> <label> :: text"
type knownList []struct{ id, key, text string }

func loadKnown() knownList {
	var out knownList
	data, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		i, j := strings.Index(l, " obligation="), strings.Index(l, " :: ")
		if i > 0 && j > i {
			out = append(out, struct{ id, key, text string }{l[:i], l[i+12 : j], l[j+4:]})
		}
	}
	return out
}
func (k knownList) match(id, key string) string {
	for _, e := range k {
		if e.id == id && e.key == key {
			return e.text
		}
	}
	return ""
}

func replayMain(args []string) int {
	if len(args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: govc replay PROPERTY PACKAGE DRIVER:CASE SEED")
		return 2
	}
	tmp, err := os.MkdirTemp("", "govc-replay-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(tmp)
	bin, err := buildHarness(args[1], tmp, false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	w, err := loadWorld(repoDir())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	seed, _ := strconv.ParseInt(args[3], 10, 64)
	h := mineHints(w.Syntax)
	// the hints the failing run used, where they were kept
	if data, err := os.ReadFile(filepath.Join(evidDir(), "replay", args[0]+".hints.json")); err == nil {
		json.Unmarshal(data, h)
	}
	r := runHarness(bin, args[1], tmp, args[0], seed, 1, 60, h, args[2])
	data, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(data))
	if len(r.Fails) > 0 {
		return 1
	}
	return 0
}
