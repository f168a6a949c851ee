package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"go/token"
	"go/types"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Layout of a run.
type Dirs struct {
	repo    string // the tree under test
	verif   string // this repository
	scratch string // removed at the end
	// harness sources that do not compile with the tree under test
	dropped map[string]bool
	noSubst map[string]bool // the tree does not compile with these stand-ins
	loadErr string
}

// overlayFiles maps paths in the tree under test to harness sources.
func (d *Dirs) overlayFiles() (map[string]string, error) {
	out := map[string]string{}
	h := filepath.Join(d.verif, "harness")
	err := filepath.Walk(h, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		if d.dropped[p] {
			return nil
		}
		rel, _ := filepath.Rel(h, p)
		parts := strings.Split(filepath.ToSlash(rel), "/")
		switch parts[0] {
		case "inpkg":
			dir := strings.Join(parts[1:len(parts)-1], "/")
			out[filepath.Join(d.repo, "pkg", dir, "zz_verif_"+parts[len(parts)-1])] = p
		default:
			out[filepath.Join(d.repo, "pkg", "zzverif", rel)] = p
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return out, d.substitute(out)
}

// standIns replace packages in the listed directories of the tree: those
// that reach the file system, and those that reach the network or compute
// digests and encodings of what is sent.
var standIns = []struct {
	pkg  string
	dirs []string
	with map[string]string
}{
	{"vcli", []string{"pkg/vdisc/cli"}, map[string]string{
		"os":        "vos",
		"io/ioutil": "vos/ioutil",
	}},
	{"vos", []string{"pkg/storage/file", "pkg/caching", "pkg/vdisc"}, map[string]string{
		"os":                    "vos",
		"io/ioutil":             "vos/ioutil",
		"syscall":               "vos/syscall",
		"golang.org/x/sys/unix": "vos/unix",
	}},
	{"vaws", []string{"pkg/s3util"}, map[string]string{
		"crypto/sha256": "vaws/sha256",
		"encoding/xml":  "vaws/xml",
		"github.com/aws/aws-sdk-go/aws/signer/v4":        "vaws/v4",
		"github.com/aws/aws-sdk-go/service/s3/s3manager": "vaws/s3manager",
	}},
	{"vcloud", []string{"pkg/storage/s3", "pkg/storage/swift"}, map[string]string{
		"os":                                     "vcloud/os",
		"encoding/xml":                           "vcloud/xml",
		"github.com/aws/aws-sdk-go/aws/defaults": "vcloud/defaults",
		"github.com/aws/aws-sdk-go/aws/ec2metadata": "vcloud/ec2metadata",
		"github.com/aws/aws-sdk-go/aws/session":     "vcloud/session",
		"github.com/aws/aws-sdk-go/service/s3":      "vcloud/s3",
	}},
	{"vfuse", []string{"pkg/isofuse"}, map[string]string{
		"github.com/dgraph-io/ristretto": "vfuse/ristretto",
	}},
}

// substitute adds copies of sources whose imports are redirected to the
// stand-ins.
func (d *Dirs) substitute(out map[string]string) error {
	for _, group := range standIns {
		if d.noSubst[group.pkg] {
			continue
		}
		for _, dir := range group.dirs {
			if err := d.substituteDir(out, dir, group.with); err != nil {
				return err
			}
		}
	}
	return nil
}

func (d *Dirs) substituteDir(out map[string]string, dir string, with map[string]string) error {
	{
		names, _ := filepath.Glob(filepath.Join(d.repo, dir, "*.go"))
		for _, name := range names {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				return err
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, name, src, parser.ImportsOnly)
			if err != nil {
				continue
			}
			text, changed := string(src), false
			for i := len(f.Imports) - 1; i >= 0; i-- {
				imp := f.Imports[i]
				path, _ := strconv.Unquote(imp.Path.Value)
				to, ok := with[path]
				if !ok {
					continue
				}
				from := fset.Position(imp.Path.Pos()).Offset
				repl := strconv.Quote(modPath + "/pkg/zzverif/" + to)
				if imp.Name == nil {
					repl = filepath.Base(path) + " " + repl
				}
				text = text[:from] + repl + text[from+len(imp.Path.Value):]
				changed = true
			}
			if !changed {
				continue
			}
			rel, _ := filepath.Rel(d.repo, name)
			to := filepath.Join(d.scratch, "subst", rel)
			if err := os.MkdirAll(filepath.Dir(to), 0o755); err != nil {
				return err
			}
			if err := os.WriteFile(to, []byte(text), 0o644); err != nil {
				return err
			}
			out[name] = to
		}
	}
	return nil
}

// groupOf names the stand-ins of a substituted source.
func (d *Dirs) groupOf(src string) string {
	for _, group := range standIns {
		for _, dir := range group.dirs {
			if strings.HasPrefix(src, filepath.Join(d.scratch, "subst", dir)+"/") {
				return group.pkg
			}
		}
	}
	return ""
}

// writeOverlay writes the overlay for the go command, with extra generated
// files.
func (d *Dirs) writeOverlay(name string, extra map[string]string) (string, map[string][]byte, error) {
	files, err := d.overlayFiles()
	if err != nil {
		return "", nil, err
	}
	for k, v := range extra {
		files[k] = v
	}
	content := map[string][]byte{}
	for k, v := range files {
		b, err := os.ReadFile(v)
		if err != nil {
			return "", nil, err
		}
		content[k] = b
	}
	b, _ := json.Marshal(map[string]any{"Replace": files})
	out := filepath.Join(d.scratch, name)
	return out, content, os.WriteFile(out, b, 0o644)
}

// loadProgram type-checks the tree under test with the harnesses. A harness
// source that does not compile is left out.
func loadProgram(d *Dirs, pkgs []string) (*Program, error) {
	var init []*packages.Package
	var fset *token.FileSet
	d.noSubst = map[string]bool{}
	for try := 0; ; try++ {
		_, content, err := d.writeOverlay("overlay-load.json", nil)
		if err != nil {
			return nil, err
		}
		fset = token.NewFileSet()
		cfg := &packages.Config{
			Mode:       packages.LoadAllSyntax,
			Dir:        d.repo,
			Fset:       fset,
			Overlay:    content,
			BuildFlags: []string{"-tags=purego,safe"},
			Env:        append(os.Environ(), "CGO_ENABLED=0"),
		}
		pats := append([]string{modelPkg, vrtPkg}, pkgs...)
		init, err = packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		files, err := d.overlayFiles()
		if err != nil {
			return nil, err
		}
		var errs []string
		drop := map[string]bool{}
		packages.Visit(init, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
				pos := strings.SplitN(e.Pos, ":", 2)[0]
				if src, ok := files[pos]; ok && strings.Contains(src, "/subst/") {
					// without the stand-ins, nothing that relies on them may run
					group := d.groupOf(src)
					d.noSubst[group] = true
					for _, src := range files {
						b, _ := os.ReadFile(src)
						if (strings.Contains(src, "/harness/h/") || strings.Contains(src, "/harness/inpkg/")) && strings.Contains(string(b), "zzverif/"+group) {
							drop[src] = true
						}
					}
				} else if ok && strings.Contains(src, "/harness/h/") || strings.Contains(src, "/harness/inpkg/") {
					drop[src] = true
				}
			}
		})
		if len(errs) == 0 {
			break
		}
		if try == 0 {
			// the go command may fail for a reason that is not the tree
			d.noSubst = map[string]bool{}
			continue
		}
		if d.loadErr == "" {
			d.loadErr = errs[0]
		}
		if len(drop) == 0 {
			sort.Strings(errs)
			if len(errs) > 12 {
				errs = errs[:12]
			}
			return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
		}
		if d.dropped == nil {
			d.dropped = map[string]bool{}
		}
		for f := range drop {
			d.dropped[f] = true
		}
	}
	prog, _ := ssautil.AllPackages(init, ssa.InstantiateGenerics)
	p := &Program{prog: prog, fset: fset, funcs: map[*ssa.Function]*Func{}, gidx: map[*ssa.Global]int{}, methods: map[methodKey]*Func{}, impl: map[implKey]bool{}, built: map[*ssa.Package]bool{}, byName: map[string]*ssa.Package{}}
	for _, pk := range prog.AllPackages() {
		p.byName[pk.Pkg.Path()] = pk
	}
	return p, nil
}

// repoPkgs lists the packages of the tree under test that root depends on,
// dependencies first.
func (p *Program) repoPkgs(root *ssa.Package) []*ssa.Package {
	var out []*ssa.Package
	seen := map[*types.Package]bool{}
	var walk func(t *types.Package)
	walk = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		imps := append([]*types.Package(nil), t.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			walk(i)
		}
		if strings.HasPrefix(t.Path(), modPath) && t.Path() != modelPkg && t.Path() != vrtPkg {
			if sp := p.byName[t.Path()]; sp != nil {
				out = append(out, sp)
			}
		}
	}
	walk(root.Pkg)
	return out
}

// runtimeError builds the value of a run-time panic.
func (vm *VM) runtimeError(msg string) Value {
	pkg := vm.p.byName[modelPkg]
	t := pkg.Pkg.Scope().Lookup("RuntimeError").Type()
	return Value{P: &Iface{typeInfo(t), Value{P: &Agg{[]Value{strVal(msg)}}}}}
}
