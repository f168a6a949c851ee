package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go/constant"

	"golang.org/x/tools/go/ssa"
)

// expectedCovers collects the constant labels passed to vrt.Cover by the
// harness and the functions of its package that it refers to.
func expectedCovers(f *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if g == nil || seen[g] {
			return
		}
		root := g
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg != f.Pkg {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if sc := c.Common().StaticCallee(); sc != nil && sc.String() == vrtPkg+".Cover" {
						if k, ok := c.Common().Args[0].(*ssa.Const); ok && k.Value != nil {
							labels[constant.StringVal(k.Value)] = true
						}
					}
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if o == nil || *o == nil {
						continue
					}
					switch x := (*o).(type) {
					case *ssa.Function:
						walk(x)
					case *ssa.MakeClosure:
						walk(x.Fn.(*ssa.Function))
					}
				}
			}
		}
		for _, a := range g.AnonFuncs {
			walk(a)
		}
	}
	walk(f)
	var out []string
	for l := range labels {
		out = append(out, l)
	}
	sort.Strings(out)
	return out
}

// cross re-decides a sample of the assertion queries with a second solver.
type cross struct {
	mu   sync.Mutex
	q    []crossQ
	max  int
	seen int
}

type crossQ struct {
	text string
	res  SatResult
}

func newCross(ex *Explorer, tier string) *cross {
	c := &cross{max: 12}
	if tier == "thorough" {
		c.max = 60
	}
	ex.onQuery = func(text string, res SatResult, assertion bool) {
		if res == Unknown || len(text) > 1<<18 {
			return
		}
		c.mu.Lock()
		defer c.mu.Unlock()
		c.seen++
		if len(c.q) < c.max {
			c.q = append(c.q, crossQ{text, res})
			return
		}
		// keep a spread over the run, preferring assertions
		i := (c.seen * 2654435761) % (c.max * 8)
		if assertion {
			i %= c.max * 2
		}
		if i < c.max {
			c.q[i] = crossQ{text, res}
		}
	}
	return c
}

func (c *cross) finish(hr *harnessResult) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var agree, unk, bad int64
	for _, q := range c.q {
		wg.Add(1)
		go func(q crossQ) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, "cvc5", "--lang=smt2", "-")
			cmd.Stdin = strings.NewReader("(set-logic QF_BV)\n" + q.text + "(check-sat)\n")
			out, _ := cmd.CombinedOutput()
			r := strings.TrimSpace(string(out))
			switch {
			case r == q.res.String():
				atomic.AddInt64(&agree, 1)
			case r == "sat" || r == "unsat":
				atomic.AddInt64(&bad, 1)
				if d := os.Getenv("VERIF_CROSSDUMP"); d != "" {
					os.WriteFile(filepath.Join(d, fmt.Sprintf("bad%d.smt2", time.Now().UnixNano())), []byte("(set-logic QF_BV)\n; expect "+q.res.String()+"\n"+q.text+"(check-sat)\n"), 0o644)
				}
			default:
				atomic.AddInt64(&unk, 1)
			}
		}(q)
	}
	wg.Wait()
	hr.crossTotal, hr.crossAgree, hr.crossUnk, hr.crossBad = len(c.q), int(agree), int(unk), int(bad)
}

// witnesses replays explored paths natively and compares what they observed.
func (hr *harnessResult) witnesses(nat *Native, prop, tier string, h Harness, verbose bool) {
	ws := hr.ex.witness
	max := 24
	if tier == "thorough" {
		max = 60
	}
	if len(ws) > max {
		var s []*Witness
		for i := 0; i < max; i++ {
			s = append(s, ws[i*len(ws)/max])
		}
		ws = s
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, w := range ws {
		wg.Add(1)
		go func(w *Witness) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			doc := &replayDoc{Property: prop, Harness: h.Fn, Tier: tier, Inputs: w.Inputs, Gates: w.Gates}
			bad := ""
			tries := 1
			if h.Concurrent {
				tries = 4
			}
			for t := 0; t < tries; t++ {
				bad = ""
				r, err := nat.run(doc, 30*time.Second)
				if err != nil {
					mu.Lock()
					hr.natErr = err.Error()
					mu.Unlock()
					return
				}
				v, m := r.verdict()
				if v != "ok" {
					bad = v + " " + m + " " + tail(r.errOut, 300)
				} else {
					got := r.observations()
					if !sameObs(got, w.Observe, h.Concurrent) {
						bad = fmt.Sprintf("observed %q, encoding says %q", got, w.Observe)
					}
				}
				if bad == "" {
					break
				}
			}
			mu.Lock()
			defer mu.Unlock()
			hr.witRun++
			if bad == "" {
				hr.witOK++
			} else {
				hr.witBad = append(hr.witBad, bad+" inputs="+fmtInputs(w.Inputs))
			}
		}(w)
	}
	wg.Wait()
}

func sameObs(a, b []string, unordered bool) bool {
	if unordered {
		a = append([]string(nil), a...)
		b = append([]string(nil), b...)
		sort.Strings(a)
		sort.Strings(b)
	}
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Report is the evidence of one run.
type Report struct {
	prop, tier   string
	ck           *Check
	t0           time.Time
	seed         int
	harness      []*harnessResult
	inconclusive []string
}

func (r *Report) write(verif string) error {
	round := func(f float64) float64 { return math.Round(f*100) / 100 }
	var paths, steps, queries, unknown, integer, wit, asserts, assertQ, cacheHits int64
	var solverS float64
	funcs := map[string]bool{}
	other := 0
	exhaustive := len(r.inconclusive) == 0
	reduced := append([]string{}, r.inconclusive...)
	var hs []map[string]any
	params := map[string]int{}
	var samples []any
	viol := 0
	agree, ctotal, cunk, cbad := 0, 0, 0, 0
	for _, h := range r.harness {
		ex := h.ex
		paths += ex.paths
		steps += ex.steps.Load()
		queries += ex.stats.Queries.Load()
		unknown += ex.stats.Unknown.Load()
		integer += ex.stats.Integer.Load()
		cacheHits += ex.stats.CacheHits.Load()
		solverS += float64(ex.stats.Nanos.Load()) / 1e9
		wit += int64(h.witOK)
		asserts += ex.asserts.Load()
		assertQ += ex.assertsQ.Load()
		viol += len(h.violations)
		agree += h.crossAgree
		ctotal += h.crossTotal
		cunk += h.crossUnk
		cbad += h.crossBad
		for f := range ex.funcsAll {
			if strings.HasPrefix(f.pkgPath, modPath) && !strings.Contains(f.pkgPath, "/zzverif/") && !strings.Contains(f.name, ".Verif") {
				funcs[shortName(f.name)] = true
			} else {
				other++
			}
		}
		for k, v := range ex.params {
			params[h.h.Fn+"."+k] = v
		}
		note := func(format string, args ...any) {
			exhaustive = false
			reduced = append(reduced, h.h.Fn+": "+fmt.Sprintf(format, args...))
		}
		if ex.timedOut {
			note("the time budget ended with %d prefixes unexplored", ex.leftover)
		}
		for _, k := range sortedKeys(ex.cut) {
			note("%d paths cut: %s", ex.cut[k], k)
		}
		if ex.unknowns > 0 {
			note("%d queries undecided", ex.unknowns)
		}
		for _, u := range h.unconf {
			note("not reproduced natively: %s", u)
		}
		for _, u := range h.unreached {
			note("reachability witness missing: %s", u)
		}
		for _, u := range h.witBad {
			note("native run differs from the encoding: %s", u)
		}
		if h.natErr != "" {
			note("no native replay: %s", h.natErr)
		}
		if h.crossBad > 0 {
			note("%d queries on which the second solver disagrees", h.crossBad)
		}
		if len(h.violations) > 0 {
			note("stopped at a violation")
		}
		hs = append(hs, map[string]any{
			"harness": h.h.Fn, "paths": ex.paths, "assumed_away": ex.infeas, "ssa_steps": ex.steps.Load(), "longest_path_steps": ex.maxPath,
			"symbolic_inputs_max": ex.varsMax, "queries": ex.stats.Queries.Load(), "wall_s": round(h.wall), "reached": ex.covers,
			"complete": !ex.timedOut && len(ex.cut) == 0 && ex.unknowns == 0,
		})
		for i, w := range ex.witness {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": h.h.Fn, "inputs": fmtInputs(w.Inputs), "observed": w.Observe, "gates": w.Gates})
			}
		}
	}
	if samples == nil {
		samples = []any{}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	assume := append([]string{}, r.ck.Assumptions...)
	assume = append(assume,
		"logging, metrics and tracing libraries have empty bodies; fmt, encoding/binary, time, sync and sort.Slice are Go models or intrinsics of the executor",
		"goroutines are switched where they block (and, where a harness says so, at synchronisation operations); concurrent harnesses report unordered conflicting accesses, weaker memory effects are not modelled",
	)
	coverage := map[string]any{
		"states": paths, "transitions": steps, "traces_validated_against_impl": wit, "samples": samples, "exhaustive": exhaustive,
		"bounds": r.ck.Bounds, "bound_parameters": params, "functions_encoded": fl, "library_functions_encoded": other,
		"queries_discharged": queries - unknown, "queries_unknown": unknown, "queries_in_integer_form": integer, "queries_cached": cacheHits, "solver_s": round(solverS),
		"assertions_checked": asserts, "assertions_decided_by_solver": assertQ,
		"second_solver": map[string]any{"solver": "cvc5", "queries": ctotal, "agree": agree, "no_answer": cunk, "disagree": cbad},
		"harnesses":     hs, "reduced_bounds": reduced,
		"explanation": "states are completed execution paths of the harness, transitions are SSA instructions executed symbolically; traces_validated_against_impl are path witnesses replayed on the compiled code with equal observations",
	}
	ev := map[string]any{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "model_checking", "coverage": coverage,
		"wall_s": round(time.Since(r.t0).Seconds()), "assumptions": assume, "violations": viol,
	}
	dir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, r.prop+".json"), append(b, '\n'), 0o644)
}
