package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// addRewrites lays copies of the module's own packages over the originals in which package os
// is the in-memory file system of the harnesses (and package flag a copy of the standard one
// that uses it), and makes the command's main package importable.
func addRewrites(ov map[string][]byte, base string) error {
	var files []string
	err := filepath.WalkDir(repoDir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if n := d.Name(); p != repoDir && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || n == "zzverif") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		return err
	}
	sort.Strings(files)
	mains := filepath.Join(repoDir, "cmd", "neojhat")
	for _, p := range files {
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		nb, err := redirect(p, b)
		if err != nil {
			return err
		}
		if filepath.Dir(p) == mains {
			s := string(nb)
			i := strings.Index(s, "package main")
			if i < 0 {
				continue
			}
			ov[filepath.Join(base, "mmain", filepath.Base(p))] = []byte(s[:i] + "package mmain" + s[i+len("package main"):])
			continue
		}
		if string(nb) != string(b) {
			ov[p] = nb
		}
	}
	ov[filepath.Join(base, "mmain", "zz_export.go")] = []byte("package mmain\n\n// Main is the command.\nfunc Main() { main() }\n")
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	fp := filepath.Join(strings.TrimSpace(string(out)), "src", "flag", "flag.go")
	b, err := os.ReadFile(fp)
	if err != nil {
		return err
	}
	b, err = redirect(fp, b)
	if err != nil {
		return err
	}
	ov[filepath.Join(base, "mflag", "flag.go")] = b
	return nil
}

// redirect replaces the imports of os and flag.
func redirect(name string, b []byte) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, b, parser.ImportsOnly)
	if err != nil {
		return nil, err
	}
	s := string(b)
	for i := len(f.Imports) - 1; i >= 0; i-- {
		im := f.Imports[i]
		p, _ := strconv.Unquote(im.Path.Value)
		if p != "os" && p != "flag" {
			continue
		}
		n := p
		if im.Name != nil {
			n = ""
		}
		o, e := fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset
		s = s[:o] + strings.TrimSpace(fmt.Sprintf("%s %q", n, zzPath+"m"+p)) + s[e:]
	}
	return []byte(s), nil
}
