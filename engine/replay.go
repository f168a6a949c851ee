package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Native is the harness binary compiled from the tree under test.
type Native struct {
	d    *Dirs
	bin  string
	err  error
	once sync.Once
	done chan struct{}
	n    int
	mu   sync.Mutex
	race sync.Once
	rerr error
	ov   string
}

type replayDoc struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Tier     string   `json:"tier"`
	Kind     string   `json:"kind,omitempty"`
	Label    string   `json:"label,omitempty"`
	Pos      string   `json:"where,omitempty"`
	Inputs   []input  `json:"inputs"`
	Gates    []string `json:"gates,omitempty"`
	Output   string   `json:"output,omitempty"`
}

func harnessImport(pkg string) string {
	if strings.HasPrefix(pkg, "inpkg/") {
		return modPath + "/pkg/" + strings.TrimPrefix(pkg, "inpkg/")
	}
	return modPath + "/pkg/zzverif/" + pkg
}

// startNative compiles the replay binary in the background.
func startNative(d *Dirs, hs []Harness) *Native {
	n := &Native{d: d, done: make(chan struct{}), bin: filepath.Join(d.scratch, "replay.bin")}
	go func() {
		defer close(n.done)
		var sb strings.Builder
		sb.WriteString("package main\n\nimport (\n\t\"" + vrtPkg + "\"\n")
		alias := map[string]string{}
		for _, h := range hs {
			if alias[h.Pkg] == "" {
				alias[h.Pkg] = fmt.Sprintf("h%d", len(alias))
				fmt.Fprintf(&sb, "\t%s %q\n", alias[h.Pkg], harnessImport(h.Pkg))
			}
		}
		sb.WriteString(")\n\nfunc main() {\n")
		for _, h := range hs {
			fmt.Fprintf(&sb, "\tvrt.Register(%q, %s.%s)\n", h.Fn, alias[h.Pkg], h.Fn)
		}
		sb.WriteString("\tvrt.Main()\n}\n")
		mf := filepath.Join(d.scratch, "replay_main.go")
		if n.err = os.WriteFile(mf, []byte(sb.String()), 0o644); n.err != nil {
			return
		}
		ov, _, err := d.writeOverlay("overlay-native.json", map[string]string{
			filepath.Join(d.repo, "cmd", "zzverifrun", "main.go"): mf,
		})
		if err != nil {
			n.err = err
			return
		}
		n.ov = ov
		cmd := exec.Command("go", "build", "-overlay", ov, "-o", n.bin, modPath+"/cmd/zzverifrun")
		cmd.Dir = d.repo
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	}()
	return n
}

type runResult struct {
	out      string
	errOut   string
	code     int
	timedOut bool
	wall     time.Duration
}

func (n *Native) run(doc *replayDoc, timeout time.Duration, env ...string) (runResult, error) {
	<-n.done
	if n.err != nil {
		return runResult{}, n.err
	}
	n.mu.Lock()
	n.n++
	id := n.n
	n.mu.Unlock()
	dir := filepath.Join(n.d.scratch, fmt.Sprintf("run%d", id))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return runResult{}, err
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "replay.json")
	b, _ := json.Marshal(doc)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return runResult{}, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/bash", "-c", "ulimit -v 16000000; exec \"$0\"", n.bin)
	if doc.Kind == "race" {
		// the race detector reserves address space beyond any limit
		cmd = exec.CommandContext(ctx, n.bin+".race")
	}
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f, "TMPDIR="+dir, "HOME="+dir, "VERIF_SCRATCH="+dir)
	cmd.Env = append(cmd.Env, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &limited{b: &so}, &limited{b: &se}
	t0 := time.Now()
	err := cmd.Run()
	r := runResult{out: so.String(), errOut: se.String(), wall: time.Since(t0)}
	if ctx.Err() != nil {
		r.timedOut = true
	}
	if err != nil {
		r.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		}
	}
	return r, nil
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// verdict classifies a native run: "assert <label>", "panic", "deadlock",
// "timeout", "assume", "diverged", "ok" or "error".
func (r runResult) verdict() (string, string) {
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "VERIF-ASSERT-FAILED ") {
			return "assert", strings.TrimPrefix(l, "VERIF-ASSERT-FAILED ")
		}
		if strings.HasPrefix(l, "VERIF-ASSUME-FAILED") {
			return "assume", ""
		}
		if strings.HasPrefix(l, "VERIF-DIVERGED") {
			return "diverged", l
		}
		if strings.HasPrefix(l, "VERIF-ERROR") {
			return "error", l
		}
	}
	if strings.Contains(r.errOut, "all goroutines are asleep") {
		return "deadlock", ""
	}
	if r.timedOut {
		return "timeout", ""
	}
	if r.code == 2 || strings.Contains(r.errOut, "panic:") || strings.Contains(r.errOut, "fatal error:") {
		msg := ""
		for _, l := range strings.Split(r.errOut, "\n") {
			if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
				msg = l
				break
			}
		}
		return "panic", msg
	}
	if r.code != 0 {
		return "error", fmt.Sprintf("exit %d", r.code)
	}
	if strings.Contains(r.out, "VERIF-DONE") {
		return "ok", ""
	}
	return "error", "no end marker"
}

func (r runResult) observations() []string {
	var out []string
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "VERIF-OBS ") {
			out = append(out, strings.TrimPrefix(l, "VERIF-OBS "))
		}
	}
	return out
}

// confirm replays a candidate natively, repeatedly when schedules are
// involved. It returns the confirmed kind and message, or "".
func (n *Native) confirm(doc *replayDoc, concurrent bool) (kind, msg string, out string, err error) {
	if doc.Kind == "race" {
		return n.confirmRace(doc)
	}
	tries := 1
	if concurrent {
		tries = 6
		if len(doc.Gates) == 0 {
			tries = 9
		}
	}
	timeout := 20 * time.Second
	for i := 0; i < tries; i++ {
		var env []string
		if i >= 6 {
			env = []string{"VERIF_STRESS=100000", "GOMAXPROCS=" + []string{"2", "8", "4"}[i-6]}
		}
		r, e := n.run(doc, timeout, env...)
		if e != nil {
			return "", "", "", e
		}
		v, m := r.verdict()
		out = r.out + "\n--stderr--\n" + r.errOut
		switch v {
		case "assert", "panic":
			return v, m, out, nil
		case "deadlock", "timeout":
			if doc.Kind == "deadlock" || doc.Kind == "budget" {
				return v, m, out, nil
			}
			return "", v, out, nil
		case "assume", "diverged", "error":
			if !concurrent {
				return "", v + " " + m, out, nil
			}
		}
	}
	return "", "did not reproduce", out, nil
}

// confirmRace runs the inputs of a candidate under the Go race detector.
func (n *Native) confirmRace(doc *replayDoc) (kind, msg string, out string, err error) {
	<-n.done
	if n.err != nil {
		return "", "", "", n.err
	}
	n.race.Do(func() {
		cmd := exec.Command("go", "build", "-race", "-overlay", n.ov, "-o", n.bin+".race", modPath+"/cmd/zzverifrun")
		cmd.Dir = n.d.repo
		if b, err := cmd.CombinedOutput(); err != nil {
			n.rerr = fmt.Errorf("native build with the race detector: %v\n%s", err, b)
		}
	})
	if n.rerr != nil {
		return "", n.rerr.Error(), "", nil
	}
	for _, env := range [][]string{{}, {"VERIF_STRESS=100000"}, {"VERIF_STRESS=100000", "GOMAXPROCS=2"}} {
		env = append(env, "VERIF_RACE=1", "GORACE=exitcode=0")
		r, e := n.run(doc, 20*time.Second, env...)
		if e != nil {
			return "", "", "", e
		}
		if rep := raceReport(r.errOut, n.d.repo); rep != "" {
			return "race", doc.Label, rep, nil
		}
		out = r.out + "\n--stderr--\n" + r.errOut
	}
	return "", "did not reproduce", out, nil
}

// raceReport is the first report in which both accesses are made by the tree
// under test, or by library code that it calls.
func raceReport(text, repo string) string {
	reps := strings.Split(text, "WARNING: DATA RACE")
	for _, rep := range reps[1:] {
		if i := strings.Index(rep, "=================="); i >= 0 {
			rep = rep[:i]
		}
		good := 0
		for _, sec := range strings.Split(rep, "\n\n") {
			sec = strings.TrimLeft(sec, "\n")
			head := sec
			if i := strings.IndexByte(sec, '\n'); i >= 0 {
				head = sec[:i]
			}
			if !strings.Contains(head, " at 0x") || strings.HasPrefix(head, "Goroutine") {
				continue
			}
			first, mine := true, false
			for _, l := range strings.Split(sec, "\n")[1:] {
				l = strings.TrimSpace(l)
				if !strings.HasPrefix(l, "/") {
					continue
				}
				verif := strings.Contains(l, "/zzverif") || strings.Contains(l, "/zz_verif_")
				if first && verif {
					mine = false
					break
				}
				first = false
				if verif {
					// the rest of the stack belongs to the harness
					break
				}
				mine = mine || strings.HasPrefix(l, repo+"/")
			}
			if mine {
				good++
			}
		}
		if good == 2 {
			return "DATA RACE" + rep
		}
	}
	return ""
}
