package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	repoMod = "github.com/danielleontiev/neojhat"
	zzPath  = repoMod + "/internal/zzverif/"
)

var (
	repoDir = envOr("VERIF_REPO", "/repo")
	verDir  = envOr("VERIF_DIR", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func goEnv() []string {
	return append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

// overlay returns the files laid over /repo: every harness package, and copies of the
// command packages whose file-system calls go to an in-memory file system.
func overlay(pkgs []string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	fsys := false
	base := filepath.Join(repoDir, "internal", "zzverif")
	dirs, err := os.ReadDir(filepath.Join(verDir, "harness"))
	if err != nil {
		return nil, err
	}
	for _, d := range dirs {
		if !d.IsDir() {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(verDir, "harness", d.Name(), "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			ov[filepath.Join(base, d.Name(), filepath.Base(f))] = b
			for _, p := range pkgs {
				if p == d.Name() && strings.Contains(string(b), "zzverif/mos\"") {
					fsys = true
				}
			}
		}
	}
	if fsys {
		if err := addRewrites(ov, base); err != nil {
			return nil, err
		}
	}
	return ov, nil
}

type loaded struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	errs  map[string]string
	names map[string][]string // harness functions per package
	took  time.Duration
}

func load(ov map[string][]byte, pkgs []string) (*loaded, error) {
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedEmbedFiles, Dir: repoDir, Env: goEnv(), Overlay: ov}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, "./internal/zzverif/"+p)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	l := &loaded{pkgs: map[string]*ssa.Package{}, errs: map[string]string{}, names: map[string][]string{}}
	var good []*packages.Package
	for _, p := range ps {
		bad := ""
		packages.Visit([]*packages.Package{p}, nil, func(q *packages.Package) {
			for _, e := range q.Errors {
				if bad == "" {
					bad = e.Error()
				}
			}
		})
		n := strings.TrimPrefix(p.PkgPath, zzPath)
		if bad != "" {
			l.errs[n] = bad
			continue
		}
		good = append(good, p)
	}
	if len(good) == 0 {
		l.took = time.Since(t0)
		return l, nil
	}
	prog, sp := ssautil.AllPackages(good, ssa.InstantiateGenerics)
	prog.Build()
	l.prog = prog
	for i, p := range good {
		n := strings.TrimPrefix(p.PkgPath, zzPath)
		l.pkgs[n] = sp[i]
		for m := range sp[i].Members {
			if strings.HasPrefix(m, "H_") {
				l.names[n] = append(l.names[n], m)
			}
		}
		sort.Strings(l.names[n])
	}
	loadEmbedFiles(good)
	l.took = time.Since(t0)
	return l, nil
}

// loadEmbedFiles records the contents behind //go:embed variables.
func loadEmbedFiles(good []*packages.Package) {
	packages.Visit(good, nil, func(q *packages.Package) {
		if !strings.HasPrefix(q.PkgPath, repoMod) {
			return
		}
		for _, f := range q.Syntax {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, s := range g.Specs {
					vs := s.(*ast.ValueSpec)
					doc := vs.Doc
					if doc == nil {
						doc = g.Doc
					}
					if doc == nil || len(vs.Names) != 1 {
						continue
					}
					for _, c := range doc.List {
						if rest, ok := strings.CutPrefix(c.Text, "//go:embed "); ok {
							pat := strings.Trim(strings.TrimSpace(rest), "\"`")
							fn := filepath.Join(filepath.Dir(q.GoFiles[0]), pat)
							if b, err := os.ReadFile(fn); err == nil {
								embeds[q.PkgPath+"."+vs.Names[0].Name] = b
							}
						}
					}
				}
			}
		}
	})
}

// buildReplay builds the concrete driver for one harness package from the same sources.
func buildReplay(ov map[string][]byte, pkg string, names []string, tmp string) (string, error) {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"bufio\"\n\t\"encoding/json\"\n\t\"os\"\n\t\"runtime/debug\"\n\n\th \"" + zzPath + pkg + "\"\n\t\"" + zzPath + "sym\"\n)\n\n")
	sb.WriteString("var hs = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("}\n\nfunc main() {\n\tdebug.SetMaxStack(256 << 20)\n\tdebug.SetMemoryLimit(6 << 30)\n\tvar cs []sym.Case\n\tif err := json.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&cs); err != nil {\n\t\tpanic(err)\n\t}\n\tout := os.Stdout\n\tif n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {\n\t\tos.Stdout = n\n\t}\n\tfor _, c := range cs {\n\t\tr := sym.Run(c, hs[c.Harness])\n\t\tb, _ := json.Marshal(r)\n\t\tout.Write(append(b, '\\n'))\n\t}\n}\n")
	dir := filepath.Join(tmp, "src-"+pkg)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	rep := map[string]string{}
	i := 0
	put := func(path string, b []byte) error {
		i++
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		rep[path] = f
		return os.WriteFile(f, b, 0o644)
	}
	for p, b := range ov {
		if err := put(p, b); err != nil {
			return "", err
		}
	}
	if err := put(filepath.Join(repoDir, "internal/zzverif/zmain_"+pkg, "main.go"), []byte(sb.String())); err != nil {
		return "", err
	}
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, js, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(tmp, "replay-"+pkg)
	cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, "./internal/zzverif/zmain_"+pkg)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}
