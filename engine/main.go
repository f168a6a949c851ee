// Command engine checks a property by symbolic execution of the real code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Harness is one entry of checks.json.
type Harness struct {
	Pkg        string `json:"pkg"`
	Fn         string `json:"fn"`
	Tier       string `json:"tier,omitempty"` // "thorough": only there
	Concurrent bool   `json:"concurrent,omitempty"`
	QuickS     int    `json:"quick_s,omitempty"`
	ThoroughS  int    `json:"thorough_s,omitempty"`
	NoMerge    bool   `json:"no_merge,omitempty"`
	Steps      int64  `json:"steps,omitempty"`
	NoWitness  bool   `json:"no_witness,omitempty"`
	// MayBudget: exceeding the step budget is a reduced bound, not a hang
	MayBudget bool `json:"may_budget,omitempty"`
}

// Check describes how a property is decided.
type Check struct {
	Harnesses   []Harness `json:"harnesses"`
	Bounds      string    `json:"bounds"`
	Assumptions []string  `json:"assumptions"`
}

// Finding is an entry of the known-findings file.
type Finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []Finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "tree under test")
	verif := flag.String("verif", "/verif", "this repository")
	only := flag.String("only", "", "run only this harness")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("dump", "", "directory for queries")
	prof := flag.String("prof", "", "cpu profile")
	workersN := flag.Int("j", runtime.NumCPU(), "workers")
	replayF := flag.String("replay", "", "replay a saved counterexample natively")
	limit := flag.Int("limit", 0, "time limit per harness (s)")
	adhoc := flag.String("adhoc", "", "pkg.Fn: run a harness that is not registered (pkg.Fn! if it is concurrent)")
	noEvidence := flag.Bool("noevidence", false, "do not write the evidence file")
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	os.Exit(run(*prop, *tier, *repo, *verif, *only, *verbose, *dump, *workersN, *replayF, *limit, *adhoc, *noEvidence))
}

func run(prop, tier, repo, verif, only string, verbose bool, dump string, workersN int, replayF string, limit int, adhoc string, noEvidence bool) int {
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "vdisc-verif-")
	if err != nil {
		fmt.Println("error:", err)
		return 3
	}
	d := &Dirs{repo: repo, verif: verif, scratch: scratch}
	cleanup := func() { os.RemoveAll(scratch) }
	defer cleanup()
	sigc := make(chan os.Signal, 1)
	signal.Notify(sigc, syscall.SIGINT, syscall.SIGTERM)
	go func() { <-sigc; cleanup(); os.Exit(3) }()

	var checks map[string]*Check
	if b, err := os.ReadFile(filepath.Join(verif, "checks.json")); err != nil {
		fmt.Println("error:", err)
		return 3
	} else if err := json.Unmarshal(b, &checks); err != nil {
		fmt.Println("error: checks.json:", err)
		return 3
	}
	var known knownFile
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Println("error: known_findings.json:", err)
			return 3
		}
	}
	if replayF != "" {
		return replayOne(d, checks, replayF)
	}
	ck := checks[prop]
	if adhoc != "" {
		i := strings.LastIndex(adhoc, ".")
		fn := strings.TrimSuffix(adhoc[i+1:], "!")
		ck = &Check{Harnesses: []Harness{{Pkg: adhoc[:i], Fn: fn, Concurrent: strings.HasSuffix(adhoc, "!")}}}
		noEvidence = true
	}
	if ck == nil {
		fmt.Println("error: no check for property", prop)
		return 3
	}
	var hs []Harness
	for _, h := range ck.Harnesses {
		if h.Tier == "thorough" && tier != "thorough" || only != "" && h.Fn != only {
			continue
		}
		hs = append(hs, h)
	}
	rep := &Report{prop: prop, tier: tier, ck: ck, t0: t0, seed: envInt("VERIF_SEED", 1)}
	nat := startNative(d, hs)
	pkgs := map[string]bool{}
	var pl []string
	for _, h := range hs {
		if p := harnessImport(h.Pkg); !pkgs[p] {
			pkgs[p] = true
			pl = append(pl, p)
		}
	}
	prog, err := loadProgram(d, pl)
	if err != nil {
		<-nat.done
		fmt.Printf("note: the tree could not be encoded, nothing was decided:\n%v\n", err)
		rep.inconclusive = append(rep.inconclusive, "the tree could not be encoded: "+err.Error())
		if !noEvidence {
			rep.write(verif)
		}
		return 0
	}
	if len(d.dropped) > 0 {
		for _, f := range sortedKeys(d.dropped) {
			note := "a harness does not compile with the tree and is left out: " + filepath.Base(f) + " (" + d.loadErr + ")"
			fmt.Println("note:", note)
			rep.inconclusive = append(rep.inconclusive, note)
		}
		<-nat.done
		var left []Harness
		for _, h := range hs {
			pk := prog.byName[harnessImport(h.Pkg)]
			if pk != nil && pk.Func(h.Fn) != nil {
				left = append(left, h)
			}
		}
		hs = left
		nat = startNative(d, hs)
	}
	loadS := time.Since(t0)
	fmt.Printf("loaded in %.1fs\n", loadS.Seconds())
	exit := 0
	for i, h := range hs {
		hr := runHarness(d, prog, nat, prop, tier, h, workersN, verbose, dump, limit, known, verif)
		rep.harness = append(rep.harness, hr)
		if len(hr.violations) > 0 {
			exit = 1
			if i+1 < len(hs) {
				fmt.Printf("stopping after %s: %d harnesses not run\n", h.Fn, len(hs)-i-1)
			}
			break
		}
	}
	if !noEvidence {
		if err := rep.write(verif); err != nil {
			fmt.Println("error:", err)
			return 3
		}
	}
	for _, hr := range rep.harness {
		for _, k := range sortedKeys(hr.knownHit) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, hr.knownHit[k])
		}
	}
	for _, hr := range rep.harness {
		for _, v := range hr.violations {
			fmt.Printf("violated: %s: %s\n", v.doc.Harness, v.msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.path)
		}
	}
	return exit
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type violation struct {
	doc  *replayDoc
	msg  string
	path string
}

type harnessResult struct {
	h          Harness
	ex         *Explorer
	wall       float64
	violations []violation
	knownHit   map[string]string
	unconf     []string
	witRun     int
	witOK      int
	witBad     []string
	unreached  []string
	crossTotal int
	crossAgree int
	crossUnk   int
	crossBad   int
	natErr     string
}

func runHarness(d *Dirs, prog *Program, nat *Native, prop, tier string, h Harness, workersN int, verbose bool, dump string, limit int, known knownFile, verif string) *harnessResult {
	hr := &harnessResult{h: h, knownHit: map[string]string{}}
	pk := prog.byName[harnessImport(h.Pkg)]
	prog.buildPkg(pk)
	f := pk.Func(h.Fn)
	if f == nil {
		hr.unconf = append(hr.unconf, "no function "+h.Fn)
		fmt.Printf("note: no function %s in %s\n", h.Fn, h.Pkg)
		hr.ex = newExplorer(prog, nil, 1)
		return hr
	}
	ex := newExplorer(prog, prog.fn(f), workersN)
	hr.ex = ex
	ex.tier = tier
	ex.noMerge = h.NoMerge
	ex.races = true
	if verbose {
		ex.forks = map[string]int{}
		ex.costs = map[string]siteCost{}
	}
	ex.dump = dump
	if h.Steps > 0 {
		ex.maxSteps = h.Steps
	}
	budget := h.QuickS
	if budget == 0 {
		budget = 150
	}
	if tier == "thorough" {
		budget = h.ThoroughS
		if budget == 0 {
			budget = 1800
		}
	}
	if limit > 0 {
		budget = limit
	}
	t0 := time.Now()
	ex.deadline = t0.Add(time.Duration(budget) * time.Second)
	cross := newCross(ex, tier)
	// confirm candidates while exploring
	var mu sync.Mutex
	confirmed := map[string]bool{}
	candc := make(chan *Candidate, 4096)
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range candc {
				key := c.Kind + "|" + c.Label
				mu.Lock()
				skip := confirmed[key] || len(hr.violations) > 0
				mu.Unlock()
				if skip {
					continue
				}
				doc := &replayDoc{Property: prop, Harness: h.Fn, Tier: tier, Kind: c.Kind, Label: c.Label, Pos: c.Pos, Inputs: c.Inputs, Gates: c.Gates}
				kind, msg, out, err := nat.confirm(doc, h.Concurrent)
				doc.Output = tail(out, 4000)
				mu.Lock()
				switch {
				case confirmed[key]:
				case err != nil:
					hr.natErr = err.Error()
				case kind == "":
					hr.unconf = append(hr.unconf, fmt.Sprintf("%s %q at %s: native run: %s", c.Kind, c.Label, c.Pos, msg))
					if verbose {
						fmt.Printf("unconfirmed %s %q at %s: %s inputs=%s\n%s\n", c.Kind, c.Label, c.Pos, msg, fmtInputs(c.Inputs), tail(out, 1500))
					}
				default:
					confirmed[key] = true
					full := kind + ": " + msg
					if kf := matchKnown(known, prop, h.Fn, kind, msg, c); kf != nil {
						hr.knownHit[kf.Label] = kf.What
						break
					}
					path := saveReplay(verif, prop, doc)
					hr.violations = append(hr.violations, violation{doc, full + " at " + c.Pos, path})
					ex.halt()
				}
				mu.Unlock()
			}
		}()
	}
	ex.onCand = func(c *Candidate) {
		if c.Kind == "budget" && h.MayBudget {
			return
		}
		candc <- c
	}
	ex.run()
	close(candc)
	wg.Wait()
	hr.wall = time.Since(t0).Seconds()
	cross.finish(hr)
	if !h.NoWitness && len(hr.violations) == 0 {
		hr.witnesses(nat, prop, tier, h, verbose)
	}
	// vacuity
	for _, c := range expectedCovers(f) {
		if ex.covers[c] == 0 {
			hr.unreached = append(hr.unreached, c)
		}
	}
	fmt.Printf("%s: paths=%d infeasible=%d steps=%d queries=%d (cached %d, unknown %d) solver=%.1fs wall=%.1fs asserts=%d/%d vars=%d timedout=%v left=%d covers=%v witnesses=%d/%d cross=%d/%d\n", h.Fn, ex.paths, ex.infeas, ex.steps.Load(), ex.stats.Queries.Load(), ex.stats.CacheHits.Load(), ex.stats.Unknown.Load(), float64(ex.stats.Nanos.Load())/1e9, hr.wall, ex.assertsQ.Load(), ex.asserts.Load(), ex.varsMax, ex.timedOut, ex.leftover, ex.covers, hr.witOK, hr.witRun, hr.crossAgree, hr.crossTotal)
	for _, k := range sortedKeys(ex.cut) {
		fmt.Printf("  cut %d× %s\n", ex.cut[k], k)
	}
	for _, u := range hr.unconf {
		fmt.Printf("  unconfirmed %s\n", u)
	}
	for _, u := range hr.unreached {
		fmt.Printf("  not reached: %s\n", u)
	}
	for i, u := range hr.witBad {
		if i < 5 {
			fmt.Printf("  witness mismatch: %s\n", u)
		}
	}
	if hr.natErr != "" {
		fmt.Printf("  native: %s\n", hr.natErr)
	}
	if verbose {
		sites := sortedKeys(ex.forks)
		sort.SliceStable(sites, func(i, j int) bool { return ex.forks[sites[i]] > ex.forks[sites[j]] })
		for i, s := range sites {
			if i == 8 {
				break
			}
			fmt.Printf("  forks %d: %.400s\n", ex.forks[s], s)
		}
		sites = sortedKeys(ex.costs)
		sort.SliceStable(sites, func(i, j int) bool { return ex.costs[sites[i]].d > ex.costs[sites[j]].d })
		for i, s := range sites {
			if i == 8 {
				break
			}
			fmt.Printf("  queries %d in %.1fs: %.300s\n", ex.costs[s].n, ex.costs[s].d.Seconds(), s)
		}
	}
	if len(ex.kinds) > 0 && verbose {
		fmt.Printf("  path ends: %v; params %v\n", ex.kinds, ex.params)
	}
	return hr
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func fmtInputs(in []input) string {
	var sb strings.Builder
	for i, v := range in {
		if i > 60 {
			sb.WriteString("...")
			break
		}
		fmt.Fprintf(&sb, "%s=%d ", v.Name, v.Val)
	}
	return sb.String()
}

func matchKnown(k knownFile, prop, fn, kind, msg string, c *Candidate) *Finding {
	for i := range k.Findings {
		f := &k.Findings[i]
		if f.Property == prop && f.Harness == fn && (kind == "assert" && f.Label == msg || kind != "assert" && f.Label == c.Label) {
			return f
		}
	}
	return nil
}

func saveReplay(verif, prop string, doc *replayDoc) string {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s.json", prop, doc.Harness))
	b, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

func replayOne(d *Dirs, checks map[string]*Check, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println("error:", err)
		return 3
	}
	var doc replayDoc
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Println("error:", err)
		return 3
	}
	ck := checks[doc.Property]
	if ck == nil {
		fmt.Println("error: unknown property", doc.Property)
		return 3
	}
	var hs []Harness
	for _, h := range ck.Harnesses {
		if h.Fn == doc.Harness {
			hs = append(hs, h)
		}
	}
	nat := startNative(d, hs)
	kind, msg, out, err := nat.confirm(&doc, true)
	fmt.Println(out)
	if err != nil {
		fmt.Println("error:", err)
		return 3
	}
	if kind == "" {
		fmt.Println("not reproduced:", msg)
		return 0
	}
	fmt.Printf("reproduced: %s %s\n", kind, msg)
	return 1
}
