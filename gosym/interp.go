package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	reg int32
	c   Value
}

type cinstr struct {
	in   ssa.Instruction
	dst  int32
	ops  []opnd
	t    types.Type // operand/result type, instruction specific
	lay  *Layout
	n    int
	n2   int
	str  string
	sgn  bool
	call *ccall
}

type ccall struct {
	invoke  bool
	method  string
	mfn     *types.Func
	static  *ssa.Function
	builtin string
	fnOp    opnd
	args    []opnd
	sig     *types.Signature
	argT    []types.Type
	resT    types.Type
	nres    int
}

type cblock struct {
	ins  []cinstr
	phis []cinstr
	b    *ssa.BasicBlock
}

type intrinsic func(w *Worker, fn *ssa.Function, args []Value) Value

type cfunc struct {
	fn       *ssa.Function
	nregs    int
	blocks   []*cblock
	intr     intrinsic
	hasDefer bool
	built    bool
	name     string
	regions  []*region
	merge    bool
}

type deferred struct {
	call func()
}

type frame struct {
	cf        *cfunc
	regs      []Value
	defers    []func()
	panicking *goPanic
	recovered bool
	result    Value
	inDefer   bool
	caller    *frame
	recSlot   *goPanic // panic visible to recover() in functions deferred by this frame
}

type goPanic struct {
	v       Value // Iface
	runtime bool
	text    string
	goexit  bool
}

func (w *Worker) panicText(p *goPanic) string {
	if p.text != "" {
		return p.text
	}
	i, ok := p.v.(Iface)
	if !ok {
		return "?"
	}
	if i.t == nil {
		return "nil"
	}
	if s, ok := w.force(i.v).(string); ok {
		return s
	}
	if s, ok := i.v.(*SymStr); ok {
		var sb strings.Builder
		for _, t := range s.b {
			if t.isConst() {
				sb.WriteByte(byte(t.k))
			} else {
				sb.WriteByte('?')
			}
		}
		return sb.String()
	}
	return "value of type " + i.t.name
}

// goPanicErr raises a Go run-time error.
func (w *Worker) goPanicErr(msg string) {
	panic(&goPanic{v: Iface{w.rtype(types.Typ[types.String]), "runtime error: " + msg}, runtime: true, text: "runtime error: " + msg})
}

func (w *Worker) nilDeref() { w.goPanicErr("invalid memory address or nil pointer dereference") }

var errorType = types.Universe.Lookup("error").Type()

// ---- package initialisation ----

func (w *Worker) ensureRepoInit(p *ssa.Package) {
	w.ensureInit(p)
}

func (w *Worker) isRepoPkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), w.ex.cfg.RepoPrefix)
}

// ensureInit runs p's initialisers once per worker, outside any path.
func (w *Worker) ensureInit(p *ssa.Package) {
	if p == nil || w.pkgInit[p] != 0 {
		return
	}
	w.pkgInit[p] = 1
	if skipInit[p.Pkg.Path()] {
		w.pkgInit[p] = 2
		w.specialInit(p)
		return
	}
	saved := w.epoch
	w.epoch = 0
	w.initing++
	sd := w.depth
	sf := len(w.frameFn)
	func() {
		defer func() {
			w.depth = sd
			w.frameFn = w.frameFn[:sf]
			if r := recover(); r != nil {
				var msg string
				switch x := r.(type) {
				case unsupported:
					msg = x.msg
				case *goPanic:
					msg = w.panicText(x)
				default:
					panic(r)
				}
				w.pkgInit[p] = 3
				w.ex.limit("init:"+p.Pkg.Path(), "package initialiser not fully modelled: "+msg)
			}
		}()
		if w.isRepoPkg(p) {
			for _, imp := range p.Pkg.Imports() {
				if q := w.ex.prog.Package(imp); q != nil && w.isRepoPkg(q) {
					w.ensureInit(q)
				}
			}
		}
		if f := p.Func("init"); f != nil && f.Blocks != nil {
			w.rawInit = f
			w.callFn(f, nil, nil)
		}
		w.pkgInit[p] = 2
	}()
	w.initing--
	w.epoch = saved
	if w.isRepoPkg(p) {
		w.loadEmbeds(p)
	}
}

func (w *Worker) global(g *ssa.Global) *Obj {
	if o, ok := w.globals[g]; ok {
		w.ensureInit(g.Pkg)
		return o
	}
	saved := w.epoch
	w.epoch = 0
	o := w.newZero(g.Type().Underlying().(*types.Pointer).Elem())
	o.what = g.String()
	w.epoch = saved
	w.globals[g] = o
	w.presetGlobal(g, o)
	if b, ok := embeds[g.String()]; ok {
		w.setEmbed(g, o, b)
	}
	w.ensureInit(g.Pkg)
	return o
}

// ---- compilation ----

func (w *Worker) cf(fn *ssa.Function) *cfunc {
	if c, ok := w.cfuncs[fn]; ok {
		return c
	}
	c := &cfunc{fn: fn, name: fn.String()}
	w.cfuncs[fn] = c
	c.intr = lookupIntrinsic(fn)
	return c
}

func (w *Worker) build(c *cfunc) {
	c.built = true
	fn := c.fn
	c.merge = w.mergeable(fn)
	if fn.Pkg != nil && w.isRepoPkg(fn.Pkg) && !strings.Contains(fn.Pkg.Pkg.Path(), "zzverif") {
		w.funcs[c.name] = true
	}
	regs := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) int32 {
		if r, ok := regs[v]; ok {
			return r
		}
		regs[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	c.nregs = int(n)
	mk := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{reg: -1}
		case *ssa.Const:
			return opnd{reg: -1, c: w.constVal(x)}
		case *ssa.Global:
			return opnd{reg: -1, c: Ptr{w.global(x), 0}}
		case *ssa.Function:
			return opnd{reg: -1, c: w.funcVal(x)}
		case *ssa.Builtin:
			return opnd{reg: -1, c: nil}
		}
		r, ok := regs[v]
		if !ok {
			panic(unsupported{fmt.Sprintf("operand %T %v", v, v)})
		}
		return opnd{reg: r}
	}
	for _, b := range fn.Blocks {
		cb := &cblock{b: b}
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range x.Edges {
					ci.ops = append(ci.ops, mk(e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			case *ssa.Call:
				ci.call = w.mkCall(&x.Call, mk)
			case *ssa.Defer:
				ci.call = w.mkCall(&x.Call, mk)
				c.hasDefer = true
			case *ssa.Go:
				ci.call = w.mkCall(&x.Call, mk)
			case *ssa.Alloc:
				ci.t = x.Type().Underlying().(*types.Pointer).Elem()
				ci.lay = w.layout(ci.t)
			case *ssa.FieldAddr:
				ci.ops = []opnd{mk(x.X)}
				st := x.X.Type().Underlying().(*types.Pointer).Elem()
				ci.n = w.layout(st).foff[x.Field]
			case *ssa.Field:
				ci.ops = []opnd{mk(x.X)}
				l := w.layout(x.X.Type())
				ci.n, ci.n2 = l.foff[x.Field], l.fn[x.Field]
				ci.t = x.Type()
				ci.sgn = isAggT(x.Type())
			case *ssa.UnOp:
				ci.ops = []opnd{mk(x.X)}
				ci.t = x.Type()
				if x.Op == token.MUL {
					ci.lay = w.layout(x.Type())
					ci.sgn = isAggT(x.Type())
				}
			case *ssa.BinOp:
				ci.ops = []opnd{mk(x.X), mk(x.Y)}
				ci.t = x.X.Type()
				ci.sgn = isSigned(x.X.Type())
			default:
				for _, p := range in.Operands(nil) {
					ci.ops = append(ci.ops, mk(*p))
				}
			}
			cb.ins = append(cb.ins, ci)
		}
		c.blocks = append(c.blocks, cb)
	}
	if fn.Recover != nil {
		c.hasDefer = true
	}
}

func (w *Worker) mkCall(cc *ssa.CallCommon, mk func(ssa.Value) opnd) *ccall {
	r := &ccall{}
	r.sig = cc.Signature()
	r.nres = r.sig.Results().Len()
	if cc.IsInvoke() {
		r.invoke = true
		r.method = cc.Method.Name()
		r.mfn = cc.Method
		r.fnOp = mk(cc.Value)
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		r.builtin = b.Name()
	} else if f, ok := cc.Value.(*ssa.Function); ok {
		r.static = f
	} else {
		r.fnOp = mk(cc.Value)
	}
	for _, a := range cc.Args {
		r.args = append(r.args, mk(a))
		r.argT = append(r.argT, a.Type())
	}
	if r.nres == 1 {
		r.resT = r.sig.Results().At(0).Type()
	}
	return r
}

func (w *Worker) funcVal(f *ssa.Function) *Closure {
	if c, ok := w.methVal[f]; ok {
		return c
	}
	c := &Closure{fn: f}
	w.methVal[f] = c
	return c
}

func (w *Worker) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return w.zeroV(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.Int {
				i, _ := constant.Int64Val(c.Value)
				return string(rune(i))
			}
			return constant.StringVal(c.Value)
		case b.Info()&types.IsBoolean != 0:
			return w.tt.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return w.tt.FC(basicWidth(b), f)
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if u, ok := constant.Uint64Val(v); ok {
				return w.tt.C(basicWidth(b), u)
			}
			i, _ := constant.Int64Val(v)
			return w.tt.C(basicWidth(b), uint64(i))
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		panic(unsupported{"interface constant"})
	}
	return nil
}

// ---- calls ----

func (w *Worker) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		w.nilDeref()
	}
	if c.nat != nil {
		return c.nat(w, args)
	}
	return w.callFn(c.fn, args, c.bind)
}

func (w *Worker) callFn(fn *ssa.Function, args []Value, bind []Value) Value {
	c := w.cf(fn)
	if c.intr != nil {
		return c.intr(w, fn, args)
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && w.initing > 0 && fn != w.rawInit && len(w.frameFn) > 0 && w.frameFn[len(w.frameFn)-1].Pkg != fn.Pkg {
		// imports initialise lazily
		return nil
	}
	if !c.built {
		if fn.Blocks == nil {
			panic(unsupported{"no body: " + c.name})
		}
		w.build(c)
	}
	w.depth++
	if w.depth > w.ex.cfg.MaxDepth {
		panic(&goPanic{v: Iface{w.rtype(types.Typ[types.String]), "stack overflow"}, runtime: true, text: "stack overflow (call depth limit)"})
	}
	w.frameFn = append(w.frameFn, fn)
	fr := &frame{cf: c, regs: make([]Value, c.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], bind)
	if c.hasDefer {
		w.runDeferring(fr)
	} else {
		w.run(fr, 0)
	}
	w.depth--
	w.frameFn = w.frameFn[:len(w.frameFn)-1]
	return fr.result
}

// runDeferring executes a frame that may defer and recover.
func (w *Worker) runDeferring(fr *frame) {
	depth, nf := w.depth, len(w.frameFn)
	func() {
		defer func() {
			if r := recover(); r != nil {
				p, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				w.depth = depth
				w.frameFn = w.frameFn[:nf]
				fr.panicking = p
			}
		}()
		w.run(fr, 0)
	}()
	if fr.panicking != nil {
		w.runDefers(fr)
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		// recovered: results come from the recover block
		if fr.cf.fn.Recover != nil {
			w.run(fr, fr.cf.fn.Recover.Index)
		} else {
			// named results absent: zero values
			res := fr.cf.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = w.zeroV(res.At(0).Type())
			default:
				t := make(Tuple, res.Len())
				for i := range t {
					t[i] = w.zeroV(res.At(i).Type())
				}
				fr.result = t
			}
		}
	}
}

func (w *Worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, nf := w.depth, len(w.frameFn)
		prev := w.recover
		w.recover = fr
		func() {
			defer func() {
				w.recover = prev
				if r := recover(); r != nil {
					p, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					w.depth = depth
					w.frameFn = w.frameFn[:nf]
					fr.panicking = p
				}
			}()
			d()
		}()
	}
}

func (w *Worker) findMethod(t *RType, m *types.Func) *ssa.Function {
	key := m.Name()
	if !m.Exported() {
		key = m.Id()
	}
	if f, ok := t.meths[key]; ok {
		return f
	}
	sel := w.ex.prog.MethodSets.MethodSet(t.t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		panic(unsupported{"method " + m.Name() + " of " + t.name})
	}
	f := w.ex.prog.MethodValue(sel)
	t.meths[key] = f
	return f
}

// methodByName finds an exported method, nil if t has none.
func (w *Worker) methodByName(t *RType, name string) *ssa.Function {
	if f, ok := t.meths[name]; ok {
		return f
	}
	sel := w.ex.prog.MethodSets.MethodSet(t.t).Lookup(nil, name)
	var f *ssa.Function
	if sel != nil {
		f = w.ex.prog.MethodValue(sel)
	}
	t.meths[name] = f
	return f
}

// invoke calls a method on an interface value by name.
func (w *Worker) invokeByName(i Iface, name string, args ...Value) Value {
	if i.t == nil {
		w.nilDeref()
	}
	f := w.methodByName(i.t, name)
	if f == nil {
		panic(unsupported{"no method " + name + " on " + i.t.name})
	}
	return w.callFn(f, append([]Value{i.v}, args...), nil)
}

func (w *Worker) prepareCall(fr *frame, c *ccall) func() Value {
	args := make([]Value, len(c.args))
	for i, a := range c.args {
		args[i] = fr.get(a)
	}
	switch {
	case c.builtin != "":
		return func() Value { return w.builtin(fr, c, args) }
	case c.invoke:
		iv := fr.get(c.fnOp).(Iface)
		if iv.t == nil {
			w.nilDeref()
		}
		f := w.findMethod(iv.t, c.mfn)
		full := append([]Value{iv.v}, args...)
		return func() Value { return w.callFn(f, full, nil) }
	case c.static != nil:
		return func() Value { return w.callFn(c.static, args, nil) }
	default:
		cl, ok := fr.get(c.fnOp).(*Closure)
		if !ok {
			panic(unsupported{"call of non-closure"})
		}
		return func() Value { return w.callClosure(cl, args) }
	}
}

func (w *Worker) doCall(fr *frame, c *ccall) Value {
	args := make([]Value, len(c.args))
	for i, a := range c.args {
		args[i] = fr.get(a)
	}
	switch {
	case c.builtin != "":
		return w.builtin(fr, c, args)
	case c.invoke:
		iv, ok := fr.get(c.fnOp).(Iface)
		if !ok {
			panic(unsupported{"invoke on non-interface"})
		}
		if iv.t == nil {
			w.nilDeref()
		}
		f := w.findMethod(iv.t, c.mfn)
		return w.callFn(f, append([]Value{iv.v}, args...), nil)
	case c.static != nil:
		return w.callFn(c.static, args, nil)
	default:
		cl, ok := fr.get(c.fnOp).(*Closure)
		if !ok {
			panic(unsupported{"call of non-closure"})
		}
		return w.callClosure(cl, args)
	}
}

func (fr *frame) get(o opnd) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.c
}

// ---- the main loop ----

// joined is the previous block after a merge, which has set the phis already.
const joined = -7

func (w *Worker) run(fr *frame, blk int) {
	c := fr.cf
	prev := -1
	for {
		b := c.blocks[blk]
		if len(b.phis) > 0 && prev != joined {
			// find edge
			ei := -1
			for i, p := range b.b.Preds {
				if p.Index == prev {
					ei = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = fr.get(b.phis[0].ops[ei])
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(b.phis[i].ops[ei])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		next := -1
		w.steps += int64(len(b.ins))
		if w.steps > w.ex.cfg.MaxSteps {
			panic(pathAbort{"steps"})
		}
		if w.steps&0xfff < int64(len(b.ins)) && w.ex.stop.Load() {
			panic(pathAbort{"deadline"})
		}
		for i := range b.ins {
			ci := &b.ins[i]
			switch x := ci.in.(type) {
			case *ssa.Alloc:
				o := w.newObj(ci.lay.n, "")
				copy(o.slots, ci.lay.zero)
				fr.regs[ci.dst] = Ptr{o, 0}
			case *ssa.UnOp:
				fr.regs[ci.dst] = w.unop(fr, x, ci)
			case *ssa.BinOp:
				fr.regs[ci.dst] = w.binop(x.Op, ci.t, ci.sgn, x.Y.Type(), fr.get(ci.ops[0]), fr.get(ci.ops[1]))
			case *ssa.Store:
				w.store(fr.get(ci.ops[0]), fr.get(ci.ops[1]))
			case *ssa.FieldAddr:
				switch p := fr.get(ci.ops[0]).(type) {
				case Ptr:
					if p.o == nil {
						w.nilDeref()
					}
					fr.regs[ci.dst] = Ptr{p.o, p.off + ci.n}
				case SymPtr:
					p.fld += ci.n
					fr.regs[ci.dst] = p
				default:
					panic(unsupported{"field of odd pointer"})
				}
			case *ssa.Field:
				a := fr.get(ci.ops[0]).(Agg)
				if ci.sgn {
					fr.regs[ci.dst] = a[ci.n : ci.n+ci.n2 : ci.n+ci.n2]
				} else {
					fr.regs[ci.dst] = a[ci.n]
				}
			case *ssa.IndexAddr:
				fr.regs[ci.dst] = w.indexAddr(x, fr.get(ci.ops[0]), fr.get(ci.ops[1]).(*Term))
			case *ssa.Index:
				fr.regs[ci.dst] = w.index(x, fr.get(ci.ops[0]), fr.get(ci.ops[1]).(*Term))
			case *ssa.Lookup:
				fr.regs[ci.dst] = w.lookup(x, fr.get(ci.ops[0]), fr.get(ci.ops[1]))
			case *ssa.Call:
				v := w.doCall(fr, ci.call)
				fr.regs[ci.dst] = v
			case *ssa.Extract:
				tup, ok := fr.get(ci.ops[0]).(Tuple)
				if !ok {
					panic(unsupported{fmt.Sprintf("extract from %T (%v)", fr.get(ci.ops[0]), x.Tuple)})
				}
				fr.regs[ci.dst] = tup[x.Index]
			case *ssa.If:
				cnd := fr.get(ci.ops[0]).(*Term)
				if cnd.isConst() {
					if cnd.k != 0 {
						next = b.b.Succs[0].Index
					} else {
						next = b.b.Succs[1].Index
					}
				} else if j, ok := w.mergeAt(fr, blk, cnd); ok {
					if j < 0 {
						return
					}
					next = j
					blk = joined
				} else if w.branch(cnd) {
					next = b.b.Succs[0].Index
				} else {
					next = b.b.Succs[1].Index
				}
			case *ssa.Jump:
				next = b.b.Succs[0].Index
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for i, o := range ci.ops {
						t[i] = fr.get(o)
					}
					fr.result = t
				}
				return
			case *ssa.MakeInterface:
				fr.regs[ci.dst] = Iface{w.rtype(x.X.Type()), fr.get(ci.ops[0])}
			case *ssa.ChangeInterface:
				fr.regs[ci.dst] = fr.get(ci.ops[0])
			case *ssa.ChangeType:
				fr.regs[ci.dst] = fr.get(ci.ops[0])
			case *ssa.Convert:
				fr.regs[ci.dst] = w.convert(x.X.Type(), x.Type(), fr.get(ci.ops[0]))
			case *ssa.MultiConvert:
				fr.regs[ci.dst] = w.convert(x.X.Type(), x.Type(), fr.get(ci.ops[0]))
			case *ssa.TypeAssert:
				fr.regs[ci.dst] = w.typeAssert(x, fr.get(ci.ops[0]).(Iface))
			case *ssa.MakeClosure:
				bind := make([]Value, len(ci.ops)-1)
				for i := range bind {
					bind[i] = fr.get(ci.ops[i+1])
				}
				fr.regs[ci.dst] = &Closure{fn: x.Fn.(*ssa.Function), bind: bind}
			case *ssa.MakeMap:
				m := x.Type().Underlying().(*types.Map)
				fr.regs[ci.dst] = w.newMap(m.Key(), m.Elem())
			case *ssa.MakeSlice:
				fr.regs[ci.dst] = w.makeSlice(x.Type(), x.Len.Type(), x.Cap.Type(), fr.get(ci.ops[0]).(*Term), fr.get(ci.ops[1]).(*Term))
			case *ssa.MakeChan:
				n := int(w.concretize(fr.get(ci.ops[0]).(*Term)))
				fr.regs[ci.dst] = &Chan{cap: n}
			case *ssa.MapUpdate:
				m, _ := fr.get(ci.ops[0]).(*MapObj)
				if m == nil {
					panic(&goPanic{v: Iface{w.rtype(types.Typ[types.String]), "assignment to entry in nil map"}, runtime: true, text: "assignment to entry in nil map"})
				}
				w.mapSet(m, fr.get(ci.ops[1]), fr.get(ci.ops[2]))
			case *ssa.Slice:
				fr.regs[ci.dst] = w.slice(fr, x, ci)
			case *ssa.SliceToArrayPointer:
				s := fr.get(ci.ops[0]).(Slice)
				at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
				if w.sliceLen(s) < int(at.Len()) {
					w.goPanicErr("cannot convert slice to array pointer: length too short")
				}
				fr.regs[ci.dst] = Ptr{s.o, s.off}
			case *ssa.Range:
				fr.regs[ci.dst] = w.mkRange(x.X.Type(), fr.get(ci.ops[0]))
			case *ssa.Next:
				fr.regs[ci.dst] = w.next(x, fr.get(ci.ops[0]))
			case *ssa.Panic:
				v := fr.get(ci.ops[0])
				iv, ok := v.(Iface)
				if ok && iv.t == nil {
					w.goPanicErr("panic called with nil argument")
				}
				panic(&goPanic{v: v})
			case *ssa.Defer:
				call := w.prepareCall(fr, ci.call)
				fr.defers = append(fr.defers, func() { call() })
			case *ssa.RunDefers:
				w.runDefers(fr)
				if fr.panicking != nil {
					p := fr.panicking
					fr.panicking = nil
					panic(p)
				}
			case *ssa.Go:
				w.goStmt(w.prepareCall(fr, ci.call))
			case *ssa.Send:
				w.chanSend(fr.get(ci.ops[0]).(*Chan), fr.get(ci.ops[1]))
			case *ssa.Select:
				var chans []*Chan
				var sends []Value
				k := 0
				for _, st := range x.States {
					chans = append(chans, fr.get(ci.ops[k]).(*Chan))
					// a receive has an operand for its missing value, too
					if st.Send != nil {
						sends = append(sends, fr.get(ci.ops[k+1]))
					} else {
						sends = append(sends, nil)
					}
					k += 2
				}
				fr.regs[ci.dst] = w.selectStmt(x, chans, sends)
			default:
				panic(unsupported{fmt.Sprintf("instruction %T", x)})
			}
		}
		if next < 0 {
			panic(unsupported{"fell off block"})
		}
		prev = blk
		blk = next
	}
}

func (w *Worker) unop(fr *frame, x *ssa.UnOp, ci *cinstr) Value {
	v := fr.get(ci.ops[0])
	switch x.Op {
	case token.MUL:
		if p, ok := v.(Ptr); ok {
			if p.o == nil {
				w.nilDeref()
			}
			if !ci.sgn {
				if p.off < len(p.o.slots) {
					return p.o.slots[p.off]
				}
				return w.slotAt(p.o, p.off)
			}
			a := make(Agg, ci.lay.n)
			w.readSlots(p.o, p.off, a)
			return a
		}
		return w.load(v, ci.t)
	case token.NOT:
		return w.tt.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if isFloat(x.Type()) {
			return w.tt.Bin(OBXor, t, w.tt.C(t.w, uint64(1)<<(t.w-1)))
		}
		return w.tt.Neg(t)
	case token.XOR:
		return w.tt.BNot(v.(*Term))
	case token.ARROW:
		r, ok := w.chanRecv(v.(*Chan), x.X.Type().Underlying().(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{r, w.tt.Bool(ok)}
		}
		return r
	}
	panic(unsupported{"unop " + x.Op.String()})
}

func (w *Worker) binop(op token.Token, t types.Type, signed bool, yt types.Type, a, b Value) Value {
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if ok1 && ok2 {
		tt := w.tt
		if x.w != 0 && isFloat(t) {
			switch op {
			case token.ADD:
				return tt.FBin(OFAdd, x, y)
			case token.SUB:
				return tt.FBin(OFSub, x, y)
			case token.MUL:
				return tt.FBin(OFMul, x, y)
			case token.QUO:
				return tt.FBin(OFDiv, x, y)
			case token.EQL:
				return tt.FCmp(OFEq, x, y)
			case token.NEQ:
				return tt.Not(tt.FCmp(OFEq, x, y))
			case token.LSS:
				return tt.FCmp(OFLt, x, y)
			case token.LEQ:
				return tt.FCmp(OFLe, x, y)
			case token.GTR:
				return tt.FCmp(OFLt, y, x)
			case token.GEQ:
				return tt.FCmp(OFLe, y, x)
			}
			panic(unsupported{"float op " + op.String()})
		}
		switch op {
		case token.ADD:
			return tt.Bin(OAdd, x, y)
		case token.SUB:
			return tt.Bin(OSub, x, y)
		case token.MUL:
			return tt.Bin(OMul, x, y)
		case token.QUO, token.REM:
			if w.branch(tt.Eq(y, tt.C(y.w, 0))) {
				w.goPanicErr("integer divide by zero")
			}
			if signed {
				if op == token.QUO {
					return tt.Div(OSDiv, x, y)
				}
				return tt.Div(OSRem, x, y)
			}
			if op == token.QUO {
				return tt.Div(OUDiv, x, y)
			}
			return tt.Div(OURem, x, y)
		case token.AND:
			if x.w == 0 {
				return tt.And(x, y)
			}
			return tt.Bin(OBAnd, x, y)
		case token.OR:
			if x.w == 0 {
				return tt.Or(x, y)
			}
			return tt.Bin(OBOr, x, y)
		case token.XOR:
			return tt.Bin(OBXor, x, y)
		case token.AND_NOT:
			return tt.Bin(OBAnd, x, tt.BNot(y))
		case token.SHL, token.SHR:
			if isSigned(yt) && w.branch(tt.Slt(y, tt.C(y.w, 0))) {
				w.goPanicErr("negative shift amount")
			}
			o := OShl
			if op == token.SHR {
				o = OLshr
				if signed {
					o = OAshr
				}
			}
			// bring the count to x's width, saturating
			if y.w < x.w {
				y = tt.Zext(y, x.w)
			} else if y.w > x.w {
				big := tt.Ule(tt.C(y.w, uint64(x.w)), y)
				y = tt.Ite(big, tt.C(x.w, uint64(x.w)), tt.Extract(y, 0, x.w))
			}
			return tt.Bin(o, x, y)
		case token.EQL:
			return tt.Eq(x, y)
		case token.NEQ:
			return tt.Not(tt.Eq(x, y))
		case token.LSS:
			return tt.Cmp("<", x, y, signed)
		case token.LEQ:
			return tt.Cmp("<=", x, y, signed)
		case token.GTR:
			return tt.Cmp(">", x, y, signed)
		case token.GEQ:
			return tt.Cmp(">=", x, y, signed)
		}
		panic(unsupported{"int op " + op.String()})
	}
	switch op {
	case token.EQL:
		return w.eqMixed(t, yt, a, b)
	case token.NEQ:
		return w.tt.Not(w.eqMixed(t, yt, a, b))
	case token.ADD:
		return w.concat(a, b)
	case token.LSS:
		return w.strLess(a, b)
	case token.GTR:
		return w.strLess(b, a)
	case token.LEQ:
		return w.tt.Not(w.strLess(b, a))
	case token.GEQ:
		return w.tt.Not(w.strLess(a, b))
	}
	panic(unsupported{fmt.Sprintf("binop %v on %T", op, a)})
}

// eqMixed handles comparisons where one side is an interface and the other is not.
func (w *Worker) eqMixed(xt, yt types.Type, a, b Value) *Term {
	_, xi := a.(Iface)
	_, yi := b.(Iface)
	if xi && !yi {
		return w.ifaceEq(a.(Iface), Iface{w.rtype(yt), b})
	}
	if yi && !xi {
		return w.ifaceEq(Iface{w.rtype(xt), a}, b.(Iface))
	}
	return w.eqV(xt, a, b)
}

// idx64 widens an index term to 64 bits according to its type.
func (w *Worker) idx64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(ty) {
		return w.tt.Sext(t, 64)
	}
	return w.tt.Zext(t, 64)
}

func (w *Worker) boundsFail(i *Term, n string) {
	s := "?"
	if i.isConst() {
		s = fmt.Sprint(int64(i.k))
	}
	w.goPanicErr(fmt.Sprintf("index out of range [%s] with length %s", s, n))
}

func (w *Worker) indexAddr(x *ssa.IndexAddr, base Value, i *Term) Value {
	i = w.idx64(i, x.Index.Type())
	switch p := base.(type) {
	case Slice:
		et := x.X.Type().Underlying().(*types.Slice).Elem()
		esz := w.layout(et).n
		ln := w.tt.C(64, uint64(p.ln))
		if p.sl != nil {
			ln = p.sl
		}
		if !w.branch(w.tt.Ult(i, ln)) {
			w.boundsFail(i, fmt.Sprint(p.ln))
		}
		return w.elemAddr(p.o, p.off, i, esz, p.ln, p.sl != nil)
	case Ptr:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if p.o == nil {
			w.nilDeref()
		}
		if !w.branch(w.tt.Ult(i, w.tt.C(64, uint64(at.Len())))) {
			w.boundsFail(i, fmt.Sprint(at.Len()))
		}
		return w.elemAddr(p.o, p.off, i, w.layout(at.Elem()).n, int(at.Len()), false)
	case SymPtr:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		k := int(w.concretize(p.idx))
		q := Ptr{p.o, p.base + k*p.esz + p.fld}
		if !w.branch(w.tt.Ult(i, w.tt.C(64, uint64(at.Len())))) {
			w.boundsFail(i, fmt.Sprint(at.Len()))
		}
		return w.elemAddr(q.o, q.off, i, w.layout(at.Elem()).n, int(at.Len()), false)
	}
	panic(unsupported{fmt.Sprintf("index of %T", base)})
}

func (w *Worker) elemAddr(o *Obj, off int, i *Term, esz, n int, sym bool) Value {
	if i.isConst() {
		return Ptr{o, off + int(i.k)*esz}
	}
	if sym || n > 4096 {
		return Ptr{o, off + int(w.concretize(i))*esz}
	}
	return SymPtr{o: o, base: off, idx: i, n: n, esz: esz}
}

func (w *Worker) index(x *ssa.Index, base Value, i *Term) Value {
	i = w.idx64(i, x.Index.Type())
	switch b := base.(type) {
	case Agg:
		at := x.X.Type().Underlying().(*types.Array)
		if !w.branch(w.tt.Ult(i, w.tt.C(64, uint64(at.Len())))) {
			w.boundsFail(i, fmt.Sprint(at.Len()))
		}
		o := &Obj{slots: b}
		return w.load(w.elemAddr(o, 0, i, w.layout(at.Elem()).n, int(at.Len()), false), at.Elem())
	default:
		return w.strIndex(base, i)
	}
}

func (w *Worker) strIndex(s Value, i *Term) Value {
	s = w.expand(s)
	if str, ok := s.(string); ok {
		if i.isConst() && i.k < uint64(len(str)) {
			return w.tt.C(8, uint64(str[i.k]))
		}
	}
	b := w.bytesOf(s)
	if !w.branch(w.tt.Ult(i, w.tt.C(64, uint64(len(b))))) {
		w.boundsFail(i, fmt.Sprint(len(b)))
	}
	if i.isConst() {
		return b[i.k]
	}
	o := &Obj{slots: make([]Value, len(b))}
	for k, t := range b {
		o.slots[k] = t
	}
	return w.loadSym(SymPtr{o: o, idx: i, n: len(b), esz: 1}, types.Typ[types.Uint8])
}

func (w *Worker) lookup(x *ssa.Lookup, m Value, k Value) Value {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		return w.strIndex(m, w.idx64(k.(*Term), x.Index.Type()))
	}
	mo := m.(*MapObj)
	var v Value
	found := w.tt.F
	if mo != nil {
		if v, ok, done := w.lookupMerged(mo, w.force(k), mt.Elem(), x); done {
			if x.CommaOk {
				return Tuple{v, ok}
			}
			return v
		}
	}
	if e := w.mapFind(mo, k); e != nil {
		v = e.v
		found = w.tt.T
	} else {
		v = w.zeroV(mt.Elem())
	}
	if x.CommaOk {
		return Tuple{v, found}
	}
	return v
}

// lookupMerged looks a symbolic key up without splitting the path, if the value is a scalar
// or unused.
func (w *Worker) lookupMerged(m *MapObj, k Value, et types.Type, x *ssa.Lookup) (v Value, ok *Term, done bool) {
	if _, conc := w.concKey(m.kt.t, k); conc {
		return nil, nil, false
	}
	unused := false
	if x.CommaOk {
		unused = true
		for _, r := range *x.Referrers() {
			if e, is := r.(*ssa.Extract); !is || e.Index == 0 && len(*e.Referrers()) > 0 {
				unused = false
			}
		}
	}
	zero := w.zeroV(et)
	acc, scalar := zero.(*Term)
	if !unused && !scalar {
		return nil, nil, false
	}
	for _, e := range m.ents {
		if _, is := e.v.(*Term); !e.deleted && !unused && !is {
			return nil, nil, false
		}
	}
	ok = w.tt.F
	for i := len(m.ents) - 1; i >= 0; i-- {
		e := m.ents[i]
		if e.deleted {
			continue
		}
		eq := w.eqV(m.kt.t, e.k, k)
		if !unused {
			acc = w.tt.Ite(eq, e.v.(*Term), acc)
		}
		ok = w.tt.Or(ok, eq)
	}
	if unused {
		return zero, ok, true
	}
	return acc, ok, true
}

func (w *Worker) makeSlice(t types.Type, lt, ct types.Type, ln, cp *Term) Value {
	et := t.Underlying().(*types.Slice).Elem()
	el := w.layout(et)
	if ln.w < 64 {
		ln = w.idx64(ln, lt)
	}
	if cp.w < 64 {
		cp = w.idx64(cp, ct)
	}
	esz := uint64(1)
	if el.n > 0 {
		esz = uint64(el.n)
	}
	_ = esz
	maxN := uint64(1) << 47 / uint64(max(1, int(sizeofGo(et))))
	if w.branch(w.tt.Ult(w.tt.C(64, maxN), ln)) {
		w.goPanicErr("makeslice: len out of range")
	}
	if lim, ok := w.side["alloc"].(uint64); ok && w.initing == 0 {
		w.assert(w.tt.Ule(cp, w.tt.C(64, lim/uint64(max(1, int(sizeofGo(et)))))), "memory")
	}
	if !ln.isConst() {
		if ln != cp && w.branch(w.tt.Ult(cp, ln)) {
			w.goPanicErr("makeslice: cap out of range")
		}
		o := w.newObj(0, "symbolic make")
		o.zero = el.zero
		return Slice{o: o, sl: ln}
	}
	c := ln.k
	if !cp.isConst() {
		if w.branch(w.tt.Or(w.tt.Ult(cp, ln), w.tt.Ult(w.tt.C(64, maxN), cp))) {
			w.goPanicErr("makeslice: cap out of range")
		}
		o := w.newObj(0, "make of symbolic capacity")
		o.zero = el.zero
		if len(o.zero) == 0 {
			return Slice{o: o, ln: int(c), cp: int(c)}
		}
		w.growTo(o, int(c)*el.n)
		return Slice{o: o, ln: int(c), cp: int(c), sc: cp}
	}
	c = cp.k
	if c < ln.k || c > maxN {
		w.goPanicErr("makeslice: cap out of range")
	}
	n := int(ln.k)
	if c*uint64(el.n) > 1<<21 {
		o := w.newObj(0, "big make")
		o.zero = el.zero
		if c != ln.k {
			return Slice{o: o, ln: n, cp: int(c)}
		}
		return Slice{o: o, ln: n, cp: int(c)}
	}
	o := w.newObj(int(c)*el.n, "make")
	for i := 0; i < int(c); i++ {
		copy(o.slots[i*el.n:], el.zero)
	}
	return Slice{o: o, ln: n, cp: int(c)}
}

var goSizes = types.SizesFor("gc", "amd64")

func sizeofGo(t types.Type) int64 {
	defer func() { recover() }()
	return goSizes.Sizeof(t)
}

func (w *Worker) slice(fr *frame, x *ssa.Slice, ci *cinstr) Value {
	// operands: X, Low, High, Max (nil ones are listed as nil by Operands)
	base := fr.get(ci.ops[0])
	get := func(v ssa.Value, k int) *Term {
		if v == nil {
			return nil
		}
		return w.idx64(fr.get(ci.ops[k]).(*Term), v.Type())
	}
	k := 1
	var lo, hi, mx *Term
	if x.Low != nil {
		lo = get(x.Low, k)
	}
	k++
	if x.High != nil {
		hi = get(x.High, k)
	}
	k++
	if x.Max != nil {
		mx = get(x.Max, k)
	}
	return w.sliceOp(base, x.X.Type(), lo, hi, mx)
}

func (w *Worker) sliceOp(base Value, xt types.Type, lo, hi, mx *Term) Value {
	tt := w.tt
	c64 := func(n int) *Term { return tt.C(64, uint64(n)) }
	if lo == nil {
		lo = c64(0)
	}
	switch b := base.(type) {
	case Slice, Ptr, SymPtr:
		var o *Obj
		var off, ln, cp, esz int
		var symL *Term
		switch s := b.(type) {
		case Slice:
			o, off, ln, cp, symL = s.o, s.off, s.ln, s.cp, s.sl
			esz = w.layout(xt.Underlying().(*types.Slice).Elem()).n
		case Ptr:
			if s.o == nil {
				w.nilDeref()
			}
			at := xt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			o, off, ln, cp = s.o, s.off, int(at.Len()), int(at.Len())
			esz = w.layout(at.Elem()).n
		default:
			panic(unsupported{"slice of symbolic pointer"})
		}
		capT, lenT := c64(cp), c64(ln)
		if symL != nil {
			capT, lenT = symL, symL
		}
		var symC *Term
		if s, ok := b.(Slice); ok && s.sc != nil {
			symC, capT = s.sc, s.sc
		}
		if hi == nil {
			hi = lenT
		}
		limit := capT
		if mx != nil {
			if !w.branch(tt.Ule(mx, capT)) {
				w.goPanicErr("slice bounds out of range [::max]")
			}
			limit = mx
		}
		if !w.branch(tt.Ule(hi, limit)) {
			w.goPanicErr("slice bounds out of range [:high]")
		}
		if !w.branch(tt.Ule(lo, hi)) {
			w.goPanicErr("slice bounds out of range [low:high]")
		}
		if symL != nil {
			l := int(w.concretize(lo))
			if hi == symL && mx == nil {
				return Slice{o: o, off: off + l*esz, sl: tt.Bin(OSub, symL, c64(l))}
			}
			h := int(w.concretize(hi))
			return Slice{o: o, off: off + l*esz, ln: h - l, cp: h - l}
		}
		if symC != nil && mx == nil {
			l := int(w.concretize(lo))
			if !hi.isConst() {
				return Slice{o: o, off: off + l*esz, sl: tt.Bin(OSub, hi, c64(l))}
			}
			h := int(hi.k)
			w.growTo(o, off+h*esz)
			return Slice{o: o, off: off + l*esz, ln: h - l, cp: h - l, sc: tt.Bin(OSub, symC, c64(l))}
		}
		l, h := int(w.concretize(lo)), int(w.concretize(hi))
		c := cp
		if mx != nil {
			c = int(w.concretize(mx))
		}
		if o == nil {
			return Slice{}
		}
		return Slice{o: o, off: off + l*esz, ln: h - l, cp: c - l}
	}
	// strings
	n := w.strLen(base)
	if hi == nil {
		hi = c64(n)
	}
	if !w.branch(tt.Ule(hi, c64(n))) {
		w.goPanicErr("slice bounds out of range [:high] with string length")
	}
	if !w.branch(tt.Ule(lo, hi)) {
		w.goPanicErr("slice bounds out of range [low:high]")
	}
	return w.substr(base, int(w.concretize(lo)), int(w.concretize(hi)))
}

// ---- conversions ----

func (w *Worker) convert(from, to types.Type, v Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	tt := w.tt
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		switch {
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
			return v
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
			return w.runeToStr(v.(*Term), isSigned(from))
		case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
			if _, ok := v.(Ptr); ok {
				return v
			}
			panic(unsupported{"unsafe pointer arithmetic"})
		case fb.Info()&types.IsBoolean != 0:
			return v
		}
		x := v.(*Term)
		ff, tf := fb.Info()&types.IsFloat != 0, tb.Info()&types.IsFloat != 0
		wd := basicWidth(tb)
		switch {
		case ff && tf:
			return tt.FToF(x, wd)
		case ff:
			if tb.Info()&types.IsUnsigned != 0 && !x.isConst() {
				panic(unsupported{"float to unsigned"})
			}
			if x.isConst() && tb.Info()&types.IsUnsigned != 0 {
				f := fval(x)
				if f >= 0 && f < 1.8e19 {
					return tt.C(wd, uint64(f))
				}
			}
			if x.w == 32 {
				x = tt.FToF(x, 64)
			}
			return tt.FToSI(x, wd)
		case tf:
			return tt.IToF(x, wd, isSigned(from))
		}
		if wd <= x.w {
			return tt.Extract(x, 0, wd)
		}
		if isSigned(from) {
			return tt.Sext(x, wd)
		}
		return tt.Zext(x, wd)
	}
	if tok && tb.Info()&types.IsString != 0 {
		s := v.(Slice)
		et := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
		n := w.sliceLen(s)
		if et.Kind() == types.Uint8 {
			b := make([]*Term, n)
			for i := 0; i < n; i++ {
				b[i] = w.slotAt(s.o, s.off+i).(*Term)
			}
			return w.mkStr(b)
		}
		var r Value = ""
		for i := 0; i < n; i++ {
			r = w.concat(r, w.runeToStr(w.slotAt(s.o, s.off+i).(*Term), true))
		}
		return r
	}
	if sl, ok := tu.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		if sl.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
			return w.bytesSlice(w.bytesOf(v))
		}
		it := w.mkRange(from, v).(*strIter)
		var rs []*Term
		for {
			_, r, ok := w.strNext(it)
			if !ok {
				break
			}
			rs = append(rs, r)
		}
		o := w.newObj(len(rs), "runes")
		for i, t := range rs {
			o.slots[i] = t
		}
		return Slice{o: o, ln: len(rs), cp: len(rs)}
	}
	switch v.(type) {
	case Ptr, SymPtr, *Closure, *MapObj, Slice, Iface, Agg, *Chan:
		return v
	}
	panic(unsupported{fmt.Sprintf("convert %v to %v", from, to)})
}

// runeToStr is string(r).
func (w *Worker) runeToStr(r *Term, signed bool) Value {
	if r.isConst() {
		v := sx(r.k, r.w)
		if !signed {
			v = int64(r.k)
		}
		if v < 0 || v > 0x10ffff {
			return "\uFFFD"
		}
		return string(rune(v))
	}
	tt := w.tt
	if r.w < 32 {
		r = w.idx64ext(r, signed, 32)
	}
	if w.branch(tt.Ult(r, tt.C(r.w, 0x80))) {
		return w.mkStr([]*Term{tt.Extract(r, 0, 8)})
	}
	if w.branch(tt.Ult(r, tt.C(r.w, 0x800))) {
		return w.mkStr([]*Term{
			tt.Concat(tt.C(3, 6), tt.Extract(r, 6, 5)),
			tt.Concat(tt.C(2, 2), tt.Extract(r, 0, 6)),
		})
	}
	bad := tt.Or(tt.Ult(tt.C(r.w, 0x10ffff), r), tt.And(tt.Ule(tt.C(r.w, 0xd800), r), tt.Ule(r, tt.C(r.w, 0xdfff))))
	if w.branch(bad) {
		return "\uFFFD"
	}
	if w.branch(tt.Ult(r, tt.C(r.w, 0x10000))) {
		return w.mkStr([]*Term{
			tt.Concat(tt.C(4, 14), tt.Extract(r, 12, 4)),
			tt.Concat(tt.C(2, 2), tt.Extract(r, 6, 6)),
			tt.Concat(tt.C(2, 2), tt.Extract(r, 0, 6)),
		})
	}
	return w.mkStr([]*Term{
		tt.Concat(tt.C(5, 30), tt.Extract(r, 18, 3)),
		tt.Concat(tt.C(2, 2), tt.Extract(r, 12, 6)),
		tt.Concat(tt.C(2, 2), tt.Extract(r, 6, 6)),
		tt.Concat(tt.C(2, 2), tt.Extract(r, 0, 6)),
	})
}

func (w *Worker) idx64ext(t *Term, signed bool, wd uint8) *Term {
	if signed {
		return w.tt.Sext(t, wd)
	}
	return w.tt.Zext(t, wd)
}

func (w *Worker) implements(t *RType, it *types.Interface) bool {
	return types.Implements(t.t, it)
}

func (w *Worker) typeAssert(x *ssa.TypeAssert, v Iface) Value {
	var ok bool
	var res Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		ok = v.t != nil && w.implCached(v.t, x.AssertedType, it)
		res = v
		if !ok {
			res = nilIface
		}
	} else {
		ok = v.t != nil && v.t == w.rtype(x.AssertedType)
		if ok {
			res = v.v
		} else {
			res = w.zeroV(x.AssertedType)
		}
	}
	if x.CommaOk {
		return Tuple{res, w.tt.Bool(ok)}
	}
	if !ok {
		n := "nil"
		if v.t != nil {
			n = v.t.name
		}
		w.goPanicErr(fmt.Sprintf("interface conversion: interface is %s, not %s", n, typeName(x.AssertedType)))
	}
	return res
}

type implKey struct {
	t *RType
	i *RType
}

func (w *Worker) implCached(t *RType, at types.Type, it *types.Interface) bool {
	k := implKey{t, w.rtype(at)}
	if w.impl == nil {
		w.impl = map[implKey]bool{}
	}
	if r, ok := w.impl[k]; ok {
		return r
	}
	r := types.Implements(t.t, it)
	w.impl[k] = r
	return r
}

// ---- iteration ----

type strIter struct {
	b   []*Term
	pos int
}

type mapIter struct {
	m    *MapObj
	keys []*MapEnt
	pos  int
}

func (w *Worker) mkRange(t types.Type, v Value) Value {
	if _, ok := t.Underlying().(*types.Map); ok {
		m := v.(*MapObj)
		it := &mapIter{m: m}
		if m != nil {
			for _, e := range m.ents {
				if !e.deleted {
					it.keys = append(it.keys, e)
				}
			}
			if w.permMaps && len(it.keys) > 1 {
				it.keys = w.permute(it.keys)
			}
		}
		return it
	}
	return &strIter{b: w.bytesOf(v)}
}

// permute picks an iteration order: every order up to three entries, else a rotation or reversal.
func (w *Worker) permute(ks []*MapEnt) []*MapEnt {
	n := len(ks)
	var r []*MapEnt
	if n <= 3 {
		rest := append([]*MapEnt{}, ks...)
		for len(rest) > 1 {
			i := w.choose(len(rest))
			r = append(r, rest[i])
			rest = append(append([]*MapEnt{}, rest[:i]...), rest[i+1:]...)
		}
		return append(r, rest...)
	}
	c := w.choose(3)
	switch c {
	case 1:
		for i := n - 1; i >= 0; i-- {
			r = append(r, ks[i])
		}
		return r
	case 2:
		k := n / 2
		return append(append(r, ks[k:]...), ks[:k]...)
	}
	return ks
}

func (w *Worker) strNext(it *strIter) (int, *Term, bool) {
	tt := w.tt
	if it.pos >= len(it.b) {
		return 0, nil, false
	}
	p := it.pos
	b0 := it.b[p]
	if w.branch(tt.Ult(b0, tt.C(8, 0x80))) {
		it.pos++
		return p, tt.Zext(b0, 32), true
	}
	end := p + 4
	if end > len(it.b) {
		end = len(it.b)
	}
	r, n := w.decodeRune(it.b[p:end])
	it.pos += n
	return p, r, true
}

// decodeRune decodes the UTF-8 sequence at the start of b (non-ASCII first byte).
func (w *Worker) decodeRune(b []*Term) (*Term, int) {
	tt := w.tt
	bad := tt.C(32, 0xfffd)
	in := func(t *Term, lo, hi uint64) *Term { return tt.And(tt.Ule(tt.C(8, lo), t), tt.Ule(t, tt.C(8, hi))) }
	b0 := b[0]
	if w.branch(tt.Not(in(b0, 0xc2, 0xf4))) {
		return bad, 1
	}
	if len(b) < 2 {
		return bad, 1
	}
	if w.branch(tt.Ult(b0, tt.C(8, 0xe0))) {
		if !w.branch(in(b[1], 0x80, 0xbf)) {
			return bad, 1
		}
		return tt.Zext(tt.Concat(tt.Extract(b0, 0, 5), tt.Extract(b[1], 0, 6)), 32), 2
	}
	if w.branch(tt.Ult(b0, tt.C(8, 0xf0))) {
		lo := tt.Ite(tt.Eq(b0, tt.C(8, 0xe0)), tt.C(8, 0xa0), tt.C(8, 0x80))
		hi := tt.Ite(tt.Eq(b0, tt.C(8, 0xed)), tt.C(8, 0x9f), tt.C(8, 0xbf))
		if !w.branch(tt.And(tt.Ule(lo, b[1]), tt.Ule(b[1], hi))) {
			return bad, 1
		}
		if len(b) < 3 || !w.branch(in(b[2], 0x80, 0xbf)) {
			return bad, 1
		}
		return tt.Zext(tt.Concat(tt.Extract(b0, 0, 4), tt.Concat(tt.Extract(b[1], 0, 6), tt.Extract(b[2], 0, 6))), 32), 3
	}
	lo := tt.Ite(tt.Eq(b0, tt.C(8, 0xf0)), tt.C(8, 0x90), tt.C(8, 0x80))
	hi := tt.Ite(tt.Eq(b0, tt.C(8, 0xf4)), tt.C(8, 0x8f), tt.C(8, 0xbf))
	if !w.branch(tt.And(tt.Ule(lo, b[1]), tt.Ule(b[1], hi))) {
		return bad, 1
	}
	if len(b) < 4 || !w.branch(tt.And(in(b[2], 0x80, 0xbf), in(b[3], 0x80, 0xbf))) {
		return bad, 1
	}
	return tt.Zext(tt.Concat(tt.Extract(b0, 0, 3), tt.Concat(tt.Extract(b[1], 0, 6), tt.Concat(tt.Extract(b[2], 0, 6), tt.Extract(b[3], 0, 6)))), 32), 4
}

func (w *Worker) next(x *ssa.Next, itv Value) Value {
	switch it := itv.(type) {
	case *strIter:
		i, r, ok := w.strNext(it)
		if !ok {
			return Tuple{w.tt.F, w.tt.C(64, 0), w.tt.C(32, 0)}
		}
		return Tuple{w.tt.T, w.tt.C(64, uint64(i)), r}
	case *mapIter:
		for it.pos < len(it.keys) {
			e := it.keys[it.pos]
			it.pos++
			if e.deleted {
				continue
			}
			return Tuple{w.tt.T, e.k, e.v}
		}
		return Tuple{w.tt.F, nil, nil}
	}
	panic(unsupported{"next"})
}

// ---- builtins ----

func (w *Worker) builtin(fr *frame, c *ccall, args []Value) Value {
	tt := w.tt
	switch c.builtin {
	case "len", "cap":
		switch v := args[0].(type) {
		case Slice:
			if v.sl != nil {
				return v.sl
			}
			if c.builtin == "cap" {
				if v.sc != nil {
					return v.sc
				}
				return tt.C(64, uint64(v.cp))
			}
			return tt.C(64, uint64(v.ln))
		case *MapObj:
			if v == nil {
				return tt.C(64, 0)
			}
			return tt.C(64, uint64(v.n))
		case *Chan:
			return tt.C(64, uint64(len(v.buf)))
		case Agg:
			return tt.C(64, uint64(c.argT[0].Underlying().(*types.Array).Len()))
		case Ptr:
			return tt.C(64, uint64(c.argT[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		}
		return tt.C(64, uint64(w.strLen(args[0])))
	case "append":
		return w.appendB(c, args)
	case "copy":
		return w.copyB(c, args)
	case "delete":
		m, _ := args[0].(*MapObj)
		w.mapDelete(m, args[1])
		return nil
	case "panic":
		panic(&goPanic{v: args[0]})
	case "recover":
		if w.recover != nil && w.recover.panicking != nil {
			// recover() takes effect only directly inside a deferred function
			p := w.recover.panicking
			w.recover.panicking = nil
			if p.runtime {
				return w.runtimeErrorValue(p)
			}
			return p.v
		}
		return nilIface
	case "print", "println":
		return nil
	case "min", "max":
		acc := args[0]
		t := c.argT[0]
		for _, b := range args[1:] {
			if x, ok := acc.(*Term); ok {
				y := b.(*Term)
				if isFloat(t) {
					panic(unsupported{"float min/max"})
				}
				var lt *Term
				if isSigned(t) {
					lt = tt.Slt(x, y)
				} else {
					lt = tt.Ult(x, y)
				}
				if c.builtin == "min" {
					acc = tt.Ite(lt, x, y)
				} else {
					acc = tt.Ite(lt, y, x)
				}
				continue
			}
			lt := w.branch(w.strLess(acc, b))
			if lt == (c.builtin == "max") {
				acc = b
			}
		}
		return acc
	case "clear":
		switch v := args[0].(type) {
		case *MapObj:
			if v != nil {
				w.touchMap(v)
				v.ents, v.idx, v.n, v.symK = nil, map[any]*MapEnt{}, 0, 0
			}
		case Slice:
			el := w.layout(c.argT[0].Underlying().(*types.Slice).Elem())
			for i := 0; i < v.ln; i++ {
				for k := 0; k < el.n; k++ {
					w.setSlot(v.o, v.off+i*el.n+k, el.zero[k])
				}
			}
		}
		return nil
	case "close":
		ch := args[0].(*Chan)
		if ch == nil {
			w.goPanicErr("close of nil channel")
		}
		if ch.closed {
			w.goPanicErr("close of closed channel")
		}
		ch.closed = true
		return nil
	case "ssa:wrapnilchk":
		p := args[0]
		if q, ok := p.(Ptr); ok && q.o == nil {
			w.goPanicErr("value method called using nil pointer")
		}
		return p
	case "String": // unsafe.String
		n := int(w.concretize(args[1].(*Term)))
		p := args[0].(Ptr)
		b := make([]*Term, n)
		for i := range b {
			b[i] = w.slotAt(p.o, p.off+i).(*Term)
		}
		return w.mkStr(b)
	case "StringData":
		b := w.bytesOf(args[0])
		s := w.bytesSlice(b)
		return Ptr{s.o, 0}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.o, s.off}
	case "Slice": // unsafe.Slice
		n := int(w.concretize(args[1].(*Term)))
		p := args[0].(Ptr)
		return Slice{o: p.o, off: p.off, ln: n, cp: n}
	}
	panic(unsupported{"builtin " + c.builtin})
}

func (w *Worker) runtimeErrorValue(p *goPanic) Value {
	// recovered runtime errors are handed back as a plain error value
	return w.mkError(p.text)
}

func (w *Worker) appendB(c *ccall, args []Value) Value {
	st := c.argT[0].Underlying().(*types.Slice)
	esz := w.layout(st.Elem()).n
	s := args[0].(Slice)
	if s.sl != nil {
		n := w.sliceLen(s)
		s = Slice{o: s.o, off: s.off, ln: n, cp: n}
	}
	var add []Value
	n2 := 0
	switch y := args[1].(type) {
	case Slice:
		n2 = w.sliceLen(y)
		add = make([]Value, n2*esz)
		if n2 > 0 {
			w.readSlots(y.o, y.off, add)
		}
	default:
		b := w.bytesOf(args[1])
		n2 = len(b)
		add = make([]Value, n2)
		for i, t := range b {
			add[i] = t
		}
	}
	if n2 == 0 {
		return s
	}
	if s.sc != nil && w.branch(w.tt.Ule(w.tt.C(64, uint64(s.ln+n2)), s.sc)) {
		s.cp = s.ln + n2
	} else {
		s.sc = nil
	}
	if s.ln+n2 <= s.cp {
		w.growTo(s.o, s.off+(s.ln+n2)*esz)
		for i, v := range add {
			w.setSlot(s.o, s.off+s.ln*esz+i, v)
		}
		s.ln += n2
		return s
	}
	nc := s.cp * 2
	if nc < s.ln+n2 {
		nc = s.ln + n2
	}
	if nc < 4 && s.cp > 0 {
		nc = 4
	}
	o := w.newObj(nc*esz, "append")
	if s.ln > 0 {
		w.readSlots(s.o, s.off, o.slots[:s.ln*esz])
	}
	copy(o.slots[s.ln*esz:], add)
	zl := w.layout(st.Elem()).zero
	for i := s.ln + n2; i < nc; i++ {
		copy(o.slots[i*esz:], zl)
	}
	return Slice{o: o, ln: s.ln + n2, cp: nc}
}

func (w *Worker) copyB(c *ccall, args []Value) Value {
	d := args[0].(Slice)
	esz := w.layout(c.argT[0].Underlying().(*types.Slice).Elem()).n
	var src []Value
	var n int
	switch y := args[1].(type) {
	case Slice:
		if y.sl != nil {
			// symbolic source length: does it cover the destination?
			if d.sl == nil && w.branch(w.tt.Ule(w.tt.C(64, uint64(d.ln)), y.sl)) {
				n = d.ln
			} else {
				n = w.sliceLen(y)
			}
		} else {
			n = y.ln
		}
		if d.sl == nil && n > d.ln {
			n = d.ln
		}
		src = make([]Value, n*esz)
		if n > 0 {
			w.readSlots(y.o, y.off, src)
		}
	default:
		b := w.bytesOf(args[1])
		n = len(b)
		src = make([]Value, n)
		for i, t := range b {
			src[i] = t
		}
	}
	if d.sl != nil {
		if !w.branch(w.tt.Ule(w.tt.C(64, uint64(n)), d.sl)) {
			n = w.sliceLen(d)
		}
	} else if n > d.ln {
		n = d.ln
	}
	if n > 0 {
		w.growTo(d.o, d.off+n*esz)
		for i := 0; i < n*esz; i++ {
			w.setSlot(d.o, d.off+i, src[i])
		}
	}
	return w.tt.C(64, uint64(n))
}

func (w *Worker) mkError(text Value) Value {
	// *errors.errorString
	p := w.ex.prog.ImportedPackage("errors")
	tn := p.Pkg.Scope().Lookup("errorString")
	o := w.newObj(1, "error")
	o.slots[0] = text
	return Iface{w.rtype(types.NewPointer(tn.Type())), Ptr{o, 0}}
}

var _ = math.Pi
var _ = atomic.AddInt64
