package main

// selftest runs the repository's own tests inside the interpreter: a check of the encoder.

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type testFatal struct{}

func init() {
	logf := func(fail, fatal, format bool) intrinsic {
		return func(w *Worker, fn *ssa.Function, a []Value) Value {
			msg := ""
			func() {
				defer func() { recover() }()
				if format {
					msg = w.evalBytes(w.rawBytes(w.sprintf(a[1], w.varargs(a[2]), nil)))
				} else if len(a) > 1 {
					msg = w.evalBytes(w.rawBytes(w.sprintln(w.varargs(a[1]))))
				}
			}()
			if fail {
				w.side["fail"] = msg
			}
			if fatal {
				panic(testFatal{})
			}
			return nil
		}
	}
	for n, f := range map[string]intrinsic{
		"Errorf": logf(true, false, true), "Error": logf(true, false, false), "Fatalf": logf(true, true, true), "Fatal": logf(true, true, false),
		"Logf": logf(false, false, true), "Log": logf(false, false, false), "Helper": nop, "FailNow": logf(true, true, false), "Fail": logf(true, false, false),
		"Cleanup": nop,
	} {
		intrinsics["(*testing.common)."+n] = f
	}
	intrinsics["(*testing.T).Parallel"] = nop
	intrinsics["(*testing.T).Run"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(testFatal); !ok {
						panic(r)
					}
				}
			}()
			w.callClosure(a[2].(*Closure), []Value{a[0]})
		}()
		n, _ := w.side["subtests"].(int)
		w.side["subtests"] = n + 1
		return w.tt.T
	}
}

func cmdSelftest(args []string) int {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedEmbedFiles, Dir: repoDir, Env: goEnv(), Tests: true}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	loadEmbedFiles(ps)
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	pass, bad := 0, 0
	for i, p := range ps {
		if sp[i] == nil || !strings.HasSuffix(p.ID, ".test]") {
			continue
		}
		for _, n := range sortedKeys(sp[i].Members) {
			f, ok := sp[i].Members[n].(*ssa.Function)
			if !ok || !strings.HasPrefix(n, "Test") || f.Signature.Params().Len() != 1 {
				continue
			}
			if len(args) > 0 && !strings.Contains(n, args[0]) {
				continue
			}
			ex := NewExplorer(prog, f, n, &Config{Workers: 1, MaxSteps: 200_000_000, MaxDepth: 400, Timeout: 60 * time.Second, QTimeout: time.Second, RepoPrefix: repoMod})
			w := newWorker(ex)
			w.runTest(f)
			msg, failed := w.side["fail"]
			sub, _ := w.side["subtests"].(int)
			if failed || len(ex.unsup) > 0 || len(ex.viol) > 0 {
				bad++
				fmt.Printf("FAIL %s.%s: %v %v %v\n", p.PkgPath, n, msg, ex.unsup, ex.viol)
			} else {
				pass += 1 + sub
			}
			for k, v := range ex.limits {
				if !strings.HasPrefix(k, "stub") {
					fmt.Println("  limit", n, k, v)
				}
			}
			w.sol.Close()
		}
	}
	fmt.Printf("selftest: %d tests and subtests pass in the interpreter, %d functions fail\n", pass, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

func (w *Worker) runTest(f *ssa.Function) {
	t := w.newZero(f.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem())
	w.ex.args = []Value{Ptr{t, 0}}
	w.ex.cfg.Verbose = false
	w.ex.deadline = time.Now().Add(time.Minute)
	w.runPath(WorkItem{nil, Model{}})
}
