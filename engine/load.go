package main

// Loading the code under test from /repo's working tree together with the harness files of one
// check, through an overlay; nothing is written into /repo.

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = envOr("VERIF_REPO", "/repo")
var verifDir = envOr("VERIF_DIR", "/verif")

const modPath = "github.com/stampzilla/gozwave"
const symPath = modPath + "/zzverif/sym"

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Goal is one harness function with its bounds.
type Goal struct {
	Prop   string
	Fn     string
	File   string // harness file
	PkgDir string // relative to the repository, "" for the root
	Opts   map[string]string
	Doc    string
	Uses   []string
}

func (g *Goal) opt(tier, k string, d int) int {
	if tier == "thorough" {
		if v, ok := g.Opts["thorough."+k]; ok {
			n, _ := strconv.Atoi(v)
			return n
		}
	}
	if v, ok := g.Opts[k]; ok {
		n, _ := strconv.Atoi(v)
		return n
	}
	return d
}

// scanGoals reads the //verif:goal directives of all harness files.
func scanGoals() ([]*Goal, error) {
	var goals []*Goal
	root := filepath.Join(verifDir, "harness")
	err := filepath.Walk(root, func(fn string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(fn, ".go") {
			return err
		}
		f, err := os.Open(fn)
		if err != nil {
			return err
		}
		defer f.Close()
		rel, _ := filepath.Rel(root, filepath.Dir(fn))
		if rel == "root" {
			rel = ""
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		var pend *Goal
		var uses []string
		first := len(goals)
		for sc.Scan() {
			l := sc.Text()
			if strings.HasPrefix(l, "//verif:uses ") {
				uses = append(uses, strings.Fields(l)[1:]...)
			}
			if strings.HasPrefix(l, "//verif:goal ") {
				pend = &Goal{File: fn, PkgDir: rel, Opts: map[string]string{}}
				for _, kv := range strings.Fields(l)[1:] {
					k, v, _ := strings.Cut(kv, "=")
					if k == "property" {
						pend.Prop = v
					} else {
						pend.Opts[k] = v
					}
				}
				continue
			}
			if pend != nil && strings.HasPrefix(l, "//verif:doc ") {
				if pend.Doc != "" {
					pend.Doc += " "
				}
				pend.Doc += strings.TrimPrefix(l, "//verif:doc ")
				continue
			}
			if pend != nil && strings.HasPrefix(l, "func ") {
				n := strings.TrimPrefix(l, "func ")
				pend.Fn = n[:strings.Index(n, "(")]
				goals = append(goals, pend)
				pend = nil
			}
		}
		for _, g := range goals[first:] {
			g.Uses = uses // of the whole file
		}
		return sc.Err()
	})
	sort.Slice(goals, func(i, j int) bool { return goals[i].Fn < goals[j].Fn })
	return goals, err
}

// overlayFiles maps virtual paths in /repo to harness files: the given goals' files, the files they
// use and the sym package.
func overlayFiles(goals []*Goal) map[string]string {
	m := map[string]string{}
	symDir := filepath.Join(verifDir, "harness", "sym")
	ents, _ := os.ReadDir(symDir)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			m[filepath.Join(repoDir, "zzverif", "sym", e.Name())] = filepath.Join(symDir, e.Name())
		}
	}
	add := func(fn, pkg string) {
		m[filepath.Join(repoDir, pkg, "zz_verif_"+filepath.Base(fn))] = fn
	}
	for _, g := range goals {
		add(g.File, g.PkgDir)
		for _, u := range g.Uses {
			add(filepath.Join(filepath.Dir(g.File), u), g.PkgDir)
		}
	}
	return m
}

func ensureMod() error {
	for _, f := range []string{"go.mod", "go.sum"} {
		dst := filepath.Join(repoDir, f)
		if _, err := os.Stat(dst); err == nil {
			continue
		}
		src := "/opt/vp/" + f
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		if err := os.WriteFile(dst, b, 0644); err != nil {
			return err
		}
	}
	return nil
}

func modfile() (string, error) {
	// go may want to rewrite go.mod; it gets a copy
	dir := filepath.Join(verifDir, "out", "mod")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repoDir, f))
		if err != nil {
			return "", err
		}
		old, _ := os.ReadFile(filepath.Join(dir, f))
		if string(old) != string(b) {
			tmp := filepath.Join(dir, fmt.Sprintf("%s.%d", f, os.Getpid()))
			if err := os.WriteFile(tmp, b, 0644); err != nil {
				return "", err
			}
			if err := os.Rename(tmp, filepath.Join(dir, f)); err != nil {
				return "", err
			}
		}
	}
	return filepath.Join(dir, "go.mod"), nil
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	if os.Getenv("HOME") == "" {
		set("HOME", "/root")
	}
	set("PATH", "/opt/veriftools/go1.27.3/bin:"+os.Getenv("PATH"))
	set("GOFLAGS", "-mod=mod")
	set("GOPROXY", "off")
	set("GOTOOLCHAIN", "local")
	set("GOWORK", "off")
	set("GO111MODULE", "on")
	if os.Getenv("GOPATH") == "" {
		set("GOPATH", "/root/go")
	}
	if os.Getenv("GOMODCACHE") == "" {
		set("GOMODCACHE", "/root/go/pkg/mod")
	}
	return env
}

func loadRepo(goals []*Goal, extra map[string][]byte) (*ssa.Program, map[string]*ssa.Package, error) {
	if err := ensureMod(); err != nil {
		return nil, nil, err
	}
	mf, err := modfile()
	if err != nil {
		return nil, nil, err
	}
	ov := map[string][]byte{}
	for v, f := range overlayFiles(goals) {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		ov[v] = b
	}
	for k, b := range extra {
		ov[k] = b
	}
	env := goEnv()
	for _, e := range env {
		if strings.HasPrefix(e, "PATH=") {
			os.Setenv("PATH", e[5:])
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: ov, Env: env, BuildFlags: []string{"-modfile=" + mf}}
	pats := map[string]bool{"./zzverif/sym": true}
	for _, g := range goals {
		pats["./"+g.PkgDir] = true
	}
	pats["errors"] = true
	pats["io"] = true
	pats["time"] = true
	ps, err := packages.Load(cfg, sortedKeys(pats)...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return nil, nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	byDir := map[string]*ssa.Package{}
	for i, p := range ps {
		if pkgs[i] == nil {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
		if strings.HasPrefix(p.PkgPath, modPath) {
			byDir[rel] = pkgs[i]
		}
	}
	return prog, byDir, nil
}
