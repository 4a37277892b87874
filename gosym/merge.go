package main

// Joining of paths: where a symbolic condition guards side-effect free code that meets again
// (a type switch yielding a size, a short-circuit condition), all sides are evaluated and
// the results combined by if-then-else terms, so that one path covers every side.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type region struct {
	ok    bool
	order []int // blocks between the branch and the join, topologically
	join  int   // -1: the function returns
}

type mergeBail struct{}

func (w *Worker) mergeable(fn *ssa.Function) bool {
	return fn.Pkg != nil && w.isRepoPkg(fn.Pkg) && !w.ex.cfg.NoMerge && !isHarness(fn)
}

// postDoms computes for each block the set of blocks that post-dominate it; blocks that
// end in a panic are ignored. Index n is the exit.
func postDoms(fn *ssa.Function) [][]bool {
	n := len(fn.Blocks)
	pd := make([][]bool, n+1)
	for i := range pd {
		pd[i] = make([]bool, n+1)
		for j := range pd[i] {
			pd[i][j] = i != n || j == n
		}
	}
	dead := deadBlocks(fn)
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			if dead[i] {
				continue
			}
			b := fn.Blocks[i]
			acc := make([]bool, n+1)
			first := true
			meet := func(s []bool) {
				for j := range acc {
					if first {
						acc[j] = s[j]
					} else {
						acc[j] = acc[j] && s[j]
					}
				}
				first = false
			}
			for _, s := range b.Succs {
				if !dead[s.Index] {
					meet(pd[s.Index])
				}
			}
			if len(b.Succs) == 0 {
				meet(pd[n])
			}
			acc[i] = true
			for j := range acc {
				if acc[j] != pd[i][j] {
					pd[i] = acc
					changed = true
					break
				}
			}
		}
	}
	return pd
}

func deadBlocks(fn *ssa.Function) []bool {
	d := make([]bool, len(fn.Blocks))
	for i, b := range fn.Blocks {
		if k := len(b.Instrs); k > 0 {
			_, d[i] = b.Instrs[k-1].(*ssa.Panic)
		}
	}
	return d
}

func (w *Worker) region(c *cfunc, blk int) *region {
	if c.regions == nil {
		c.regions = make([]*region, len(c.blocks))
	}
	if r := c.regions[blk]; r != nil {
		return r
	}
	r := &region{join: -2}
	c.regions[blk] = r
	fn := c.fn
	n := len(fn.Blocks)
	if n > 400 {
		return r
	}
	pd := postDoms(fn)
	dead := deadBlocks(fn)
	// the nearest strict post-dominator: the one post-dominated by all others
	cand := -1
	for j := 0; j <= n; j++ {
		if j == blk || !pd[blk][j] {
			continue
		}
		near := true
		for k := 0; k <= n; k++ {
			if k != blk && k != j && pd[blk][k] && !(pd[j][k]) {
				near = false
				break
			}
		}
		if near {
			cand = j
			break
		}
	}
	if cand < 0 {
		return r
	}
	state := make([]int, n)
	ok := true
	var order []int
	var dfs func(i int)
	dfs = func(i int) {
		if !ok || i == cand || dead[i] {
			return
		}
		if i == blk || state[i] == 1 {
			ok = false
			return
		}
		if state[i] == 2 {
			return
		}
		state[i] = 1
		if len(order) > 60 || !w.pureBlock(fn.Blocks[i], nil) {
			ok = false
			return
		}
		for _, s := range fn.Blocks[i].Succs {
			dfs(s.Index)
		}
		state[i] = 2
		order = append(order, i)
	}
	for _, s := range fn.Blocks[blk].Succs {
		if !dead[s.Index] {
			dfs(s.Index)
		}
	}
	if !ok || len(order) == 0 {
		return r
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	r.order, r.join, r.ok = order, cand, true
	if cand == n {
		r.join = -1
	}
	return r
}

func (w *Worker) pureBlock(b *ssa.BasicBlock, seen map[*ssa.Function]bool) bool {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr,
			*ssa.Extract, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert, *ssa.BinOp, *ssa.Lookup:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				if n := bi.Name(); n == "len" || n == "cap" {
					continue
				}
				return false
			}
			f := x.Call.StaticCallee()
			if f == nil || !w.pureFn(f, seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (w *Worker) pureFn(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if v, ok := w.pure[f]; ok {
		return v
	}
	if f.Blocks == nil || !w.mergeable(f) || f.Recover != nil || seen[f] || lookupIntrinsic(f) != nil {
		return false
	}
	s := map[*ssa.Function]bool{f: true}
	for k := range seen {
		s[k] = true
	}
	dead := deadBlocks(f)
	ok := true
	for i, b := range f.Blocks {
		if !dead[i] && !w.pureBlock(b, s) {
			ok = false
			break
		}
	}
	w.pure[f] = ok
	return ok
}

type edge struct {
	from, to int
	g        *Term
}

func isHarness(fn *ssa.Function) bool { return strings.Contains(fn.Pkg.Pkg.Path(), "zzverif") }

// mergeAt is tryMerge where it is wanted.
func (w *Worker) mergeAt(fr *frame, blk int, cnd *Term) (int, bool) {
	if !w.join || !fr.cf.merge || w.initing > 0 {
		return 0, false
	}
	return w.tryMerge(fr, blk, cnd)
}

// tryMerge evaluates the region behind block blk ending in a symbolic condition. It
// reports the join to go on at (-1: the function has returned), or false.
func (w *Worker) tryMerge(fr *frame, blk int, cnd *Term) (next int, done bool) {
	c := fr.cf
	r := w.region(c, blk)
	if !r.ok {
		return 0, false
	}
	fn := c.fn
	dead := deadBlocks(fn)
	var into []edge
	var panics *Term = w.tt.F
	var rets []struct {
		g *Term
		v Value
	}
	ok := func() (ok bool) {
		w.noFork++
		depth, nf := w.depth, len(w.frameFn)
		steps := w.steps
		defer func() {
			w.noFork--
			if x := recover(); x != nil {
				if pa, isPA := x.(pathAbort); isPA {
					panic(pa)
				}
				w.depth = depth
				w.frameFn = w.frameFn[:nf]
				w.steps = steps
				ok = false
			}
		}()
		guard := map[int]*Term{}
		var edges []edge
		flow := func(from, to int, g *Term) {
			if g == w.tt.F {
				return
			}
			if dead[to] {
				panics = w.tt.Or(panics, g)
				return
			}
			e := edge{from, to, g}
			if to == r.join {
				into = append(into, e)
				return
			}
			edges = append(edges, e)
			if o := guard[to]; o != nil {
				g = w.tt.Or(o, g)
			}
			guard[to] = g
		}
		b := fn.Blocks[blk]
		flow(blk, b.Succs[0].Index, cnd)
		flow(blk, b.Succs[1].Index, w.tt.Not(cnd))
		for _, i := range r.order {
			g := guard[i]
			if g == nil {
				continue
			}
			cb := c.blocks[i]
			if len(cb.phis) > 0 {
				var in []edge
				for _, e := range edges {
					if e.to == i {
						in = append(in, e)
					}
				}
				if !w.mergePhis(fr, cb, in) {
					return false
				}
			}
			w.steps += int64(len(cb.ins))
			for k := range cb.ins {
				ci := &cb.ins[k]
				switch ci.in.(type) {
				case *ssa.If:
					cc := fr.get(ci.ops[0]).(*Term)
					flow(i, cb.b.Succs[0].Index, w.tt.And(g, cc))
					flow(i, cb.b.Succs[1].Index, w.tt.And(g, w.tt.Not(cc)))
				case *ssa.Jump:
					flow(i, cb.b.Succs[0].Index, g)
				case *ssa.Return:
					var v Value
					switch len(ci.ops) {
					case 0:
					case 1:
						v = fr.get(ci.ops[0])
					default:
						t := make(Tuple, len(ci.ops))
						for i, o := range ci.ops {
							t[i] = fr.get(o)
						}
						v = t
					}
					rets = append(rets, struct {
						g *Term
						v Value
					}{g, v})
				default:
					w.pureInstr(fr, ci)
				}
			}
		}
		return true
	}()
	if !ok {
		return 0, false
	}
	if r.join >= 0 {
		if len(into) == 0 {
			return 0, false
		}
		jb := c.blocks[r.join]
		save := make([]Value, len(jb.phis))
		for i := range jb.phis {
			save[i] = fr.regs[jb.phis[i].dst]
		}
		if !w.mergePhis(fr, jb, into) {
			for i := range jb.phis {
				fr.regs[jb.phis[i].dst] = save[i]
			}
			return 0, false
		}
		if panics != w.tt.F && w.branch(panics) {
			for i := range jb.phis {
				fr.regs[jb.phis[i].dst] = save[i]
			}
			return 0, false
		}
		return r.join, true
	}
	if len(rets) == 0 {
		return 0, false
	}
	v := rets[len(rets)-1].v
	for i := len(rets) - 2; i >= 0; i-- {
		m, ok := w.mergeV(rets[i].g, rets[i].v, v)
		if !ok {
			return 0, false
		}
		v = m
	}
	if panics != w.tt.F && w.branch(panics) {
		return 0, false
	}
	fr.result = v
	return -1, true
}

func (w *Worker) mergePhis(fr *frame, cb *cblock, in []edge) bool {
	tmp := make([]Value, len(cb.phis))
	for i := range cb.phis {
		for k := len(in) - 1; k >= 0; k-- {
			ei := -1
			for j, p := range cb.b.Preds {
				if p.Index == in[k].from {
					ei = j
				}
			}
			v := fr.get(cb.phis[i].ops[ei])
			if k == len(in)-1 {
				tmp[i] = v
				continue
			}
			m, ok := w.mergeV(in[k].g, v, tmp[i])
			if !ok {
				return false
			}
			tmp[i] = m
		}
	}
	for i := range cb.phis {
		fr.regs[cb.phis[i].dst] = tmp[i]
	}
	return true
}

func (w *Worker) mergeV(g *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w || x.isAtom() || y.isAtom() {
			return nil, false
		}
		return w.tt.Ite(g, x, y), true
	case string, *SymStr, *LazyStr:
		switch b.(type) {
		case string, *SymStr, *LazyStr:
		default:
			return nil, false
		}
		p, q := w.rawBytes(a), w.rawBytes(b)
		if len(p) != len(q) {
			return nil, false
		}
		r := make([]*Term, len(p))
		for i := range p {
			if p[i] == q[i] {
				r[i] = p[i]
				continue
			}
			if p[i].isAtom() || q[i].isAtom() {
				return nil, false
			}
			r[i] = w.tt.Ite(g, p[i], q[i])
		}
		return w.mkStr(r), true
	case Ptr:
		y, ok := b.(Ptr)
		return a, ok && x == y
	case *MapObj:
		y, ok := b.(*MapObj)
		return a, ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok || x.t != y.t {
			return nil, false
		}
		if x.t == nil {
			return a, true
		}
		v, ok := w.mergeV(g, x.v, y.v)
		return Iface{x.t, v}, ok
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			if r[i], ok = w.mergeV(g, x[i], y[i]); !ok {
				return nil, false
			}
		}
		return r, true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Agg, len(x))
		for i := range x {
			if r[i], ok = w.mergeV(g, x[i], y[i]); !ok {
				return nil, false
			}
		}
		return r, true
	}
	return nil, false
}

// pureInstr executes one instruction of a region.
func (w *Worker) pureInstr(fr *frame, ci *cinstr) {
	switch x := ci.in.(type) {
	case *ssa.UnOp:
		fr.regs[ci.dst] = w.unop(fr, x, ci)
	case *ssa.BinOp:
		fr.regs[ci.dst] = w.binop(x.Op, ci.t, ci.sgn, x.Y.Type(), fr.get(ci.ops[0]), fr.get(ci.ops[1]))
	case *ssa.FieldAddr:
		p, ok := fr.get(ci.ops[0]).(Ptr)
		if !ok || p.o == nil {
			panic(mergeBail{})
		}
		fr.regs[ci.dst] = Ptr{p.o, p.off + ci.n}
	case *ssa.Field:
		a := fr.get(ci.ops[0]).(Agg)
		if ci.sgn {
			fr.regs[ci.dst] = a[ci.n : ci.n+ci.n2 : ci.n+ci.n2]
		} else {
			fr.regs[ci.dst] = a[ci.n]
		}
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = w.indexAddr(x, fr.get(ci.ops[0]), fr.get(ci.ops[1]).(*Term))
	case *ssa.Index:
		fr.regs[ci.dst] = w.index(x, fr.get(ci.ops[0]), fr.get(ci.ops[1]).(*Term))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && x.CommaOk {
			panic(mergeBail{})
		}
		fr.regs[ci.dst] = w.lookup(x, fr.get(ci.ops[0]), fr.get(ci.ops[1]))
	case *ssa.Call:
		fr.regs[ci.dst] = w.doCall(fr, ci.call)
	case *ssa.Extract:
		fr.regs[ci.dst] = fr.get(ci.ops[0]).(Tuple)[x.Index]
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{w.rtype(x.X.Type()), fr.get(ci.ops[0])}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = w.convert(x.X.Type(), x.Type(), fr.get(ci.ops[0]))
	default:
		panic(mergeBail{})
	}
}
