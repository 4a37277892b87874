package main

// Templates: html/template and text/template are executed by walking the parse tree that the
// native packages produce from the template text (for html/template after its contextual
// escaping pass), with the engine's values as data. The contextual escapers are the real
// functions of html/template, except that the HTML replacement is done bytewise here.

import (
	"errors"
	"fmt"
	htmpl "html/template"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	ttmpl "text/template"
	"text/template/parse"
	"unsafe"

	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type tmplOp struct {
	kind string // new, parse, funcs, delims, option, exec
	name string
	args []string
}

// tmplNS is the immutable state of a set of associated templates.
type tmplNS struct {
	ops   []tmplOp
	funcs map[string]Value // Iface of a function
}

// tmplRef is what a Template pointer's object holds.
type tmplRef struct {
	ns   *Obj // slot 0: *tmplNS
	name string
	html bool
}

type natTmpl struct {
	set map[string]*parse.Tree
	err map[string]error // per-template error of escaping
	op  []error          // result of each op
}

var (
	natMu    sync.Mutex
	natCache = map[string]*natTmpl{}
)

func (ns *tmplNS) with(op tmplOp) *tmplNS {
	return &tmplNS{ops: append(append([]tmplOp{}, ns.ops...), op), funcs: ns.funcs}
}

func (ns *tmplNS) native(html bool) *natTmpl {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v|", html)
	for _, o := range ns.ops {
		fmt.Fprintf(&sb, "%q %q %q|", o.kind, o.name, o.args)
	}
	k := sb.String()
	natMu.Lock()
	defer natMu.Unlock()
	if n := natCache[k]; n != nil {
		return n
	}
	n := buildNative(ns.ops, html)
	natCache[k] = n
	return n
}

func dummyFuncs(names []string) map[string]any {
	m := map[string]any{}
	for _, n := range names {
		m[n] = func(...any) any { return "" }
	}
	return m
}

func buildNative(ops []tmplOp, html bool) *natTmpl {
	n := &natTmpl{set: map[string]*parse.Tree{}, err: map[string]error{}}
	var text *ttmpl.Template
	if html {
		cur := map[string]*htmpl.Template{}
		var any *htmpl.Template
		get := func(name string) *htmpl.Template {
			if t := cur[name]; t != nil {
				return t
			}
			if any != nil {
				if t := any.Lookup(name); t != nil {
					return t
				}
			}
			return htmpl.New(name)
		}
		for _, o := range ops {
			var err error
			switch o.kind {
			case "new":
				if any == nil {
					any = htmpl.New(o.name)
					cur[o.name] = any
				} else {
					cur[o.name] = any.New(o.name)
				}
			case "parse":
				_, err = get(o.name).Parse(o.args[0])
			case "funcs":
				get(o.name).Funcs(htmpl.FuncMap(dummyFuncs(o.args)))
			case "delims":
				get(o.name).Delims(o.args[0], o.args[1])
			case "option":
				get(o.name).Option(o.args...)
			case "exec":
				err = get(o.name).Execute(io.Discard, nil)
				var he *htmpl.Error
				if !errors.As(err, &he) && !(err != nil && strings.Contains(err.Error(), "incomplete or empty template")) {
					err = nil
				}
				n.err[o.name] = err
			}
			n.op = append(n.op, err)
		}
		if any == nil {
			return n
		}
		f := reflect.ValueOf(any).Elem().FieldByName("text")
		text = *(**ttmpl.Template)(unsafe.Pointer(f.UnsafeAddr()))
	} else {
		cur := map[string]*ttmpl.Template{}
		get := func(name string) *ttmpl.Template {
			if t := cur[name]; t != nil {
				return t
			}
			if text != nil {
				if t := text.Lookup(name); t != nil {
					return t
				}
			}
			return ttmpl.New(name)
		}
		for _, o := range ops {
			var err error
			switch o.kind {
			case "new":
				if text == nil {
					text = ttmpl.New(o.name)
					cur[o.name] = text
				} else {
					cur[o.name] = text.New(o.name)
				}
			case "parse":
				_, err = get(o.name).Parse(o.args[0])
			case "funcs":
				get(o.name).Funcs(ttmpl.FuncMap(dummyFuncs(o.args)))
			case "delims":
				get(o.name).Delims(o.args[0], o.args[1])
			case "option":
				get(o.name).Option(o.args...)
			case "exec":
				if t := get(o.name); t.Tree == nil || t.Root == nil {
					err = fmt.Errorf("template: %q is an incomplete or empty template", o.name)
				}
				n.err[o.name] = err
			}
			n.op = append(n.op, err)
		}
		if text == nil {
			return n
		}
	}
	for _, t := range text.Templates() {
		if t.Tree != nil {
			n.set[t.Name()] = t.Tree
		}
	}
	if text.Tree != nil {
		n.set[text.Name()] = text.Tree
	}
	return n
}

func (w *Worker) concStr(v Value) string {
	s, ok := w.force(v).(string)
	if !ok {
		s, ok = w.force(w.mkStr(w.bytesOf(v))).(string)
		if !ok {
			panic(unsupported{"template text or name that is symbolic"})
		}
	}
	return s
}

func tmplOf(w *Worker, v Value) *tmplRef {
	p, ok := v.(Ptr)
	if !ok || p.o == nil {
		w.nilDeref()
	}
	r, ok := w.slotAt(p.o, p.off).(*tmplRef)
	if !ok {
		panic(unsupported{"template that was not made by New"})
	}
	return r
}

func (w *Worker) newTmpl(ns *Obj, name string, html bool) Value {
	o := w.newObj(1, "template")
	o.slots[0] = &tmplRef{ns, name, html}
	return Ptr{o, 0}
}

func addTemplateIntrinsics() {
	for _, pk := range []string{"html/template", "text/template"} {
		pk := pk
		html := pk == "html/template"
		m := "(*" + pk + ".Template)."
		intrinsics[pk+".New"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			name := w.concStr(a[0])
			ns := w.newObj(1, "template set")
			ns.slots[0] = (&tmplNS{}).with(tmplOp{kind: "new", name: name})
			return w.newTmpl(ns, name, html)
		}
		intrinsics[pk+".Must"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			if e := a[1].(Iface); e.t != nil {
				panic(&goPanic{v: e, text: "template.Must"})
			}
			return a[0]
		}
		upd := func(w *Worker, v Value, op tmplOp) error {
			r := tmplOf(w, v)
			op.name = r.name
			ns := w.slotAt(r.ns, 0).(*tmplNS).with(op)
			w.setSlot(r.ns, 0, ns)
			res := ns.native(html).op
			return res[len(res)-1]
		}
		intrinsics[m+"Parse"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			if err := upd(w, a[0], tmplOp{kind: "parse", args: []string{w.concStr(a[1])}}); err != nil {
				return Tuple{Ptr{}, w.mkError(err.Error())}
			}
			return Tuple{a[0], nilIface}
		}
		intrinsics[m+"New"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			r := tmplOf(w, a[0])
			name := w.concStr(a[1])
			w.setSlot(r.ns, 0, w.slotAt(r.ns, 0).(*tmplNS).with(tmplOp{kind: "new", name: name}))
			return w.newTmpl(r.ns, name, html)
		}
		intrinsics[m+"Name"] = func(w *Worker, fn *ssa.Function, a []Value) Value { return tmplOf(w, a[0]).name }
		intrinsics[m+"Delims"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			upd(w, a[0], tmplOp{kind: "delims", args: []string{w.concStr(a[1]), w.concStr(a[2])}})
			return a[0]
		}
		intrinsics[m+"Option"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			panic(unsupported{"template Option"})
		}
		intrinsics[m+"Funcs"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			mo, _ := a[1].(*MapObj)
			fs := map[string]Value{}
			var names []string
			r := tmplOf(w, a[0])
			ns := w.slotAt(r.ns, 0).(*tmplNS)
			for k, v := range ns.funcs {
				fs[k] = v
			}
			if mo != nil {
				for _, e := range mo.ents {
					if !e.deleted {
						k := w.concStr(e.k)
						names = append(names, k)
						fs[k] = e.v
					}
				}
			}
			sort.Strings(names)
			w.setSlot(r.ns, 0, &tmplNS{ops: append(append([]tmplOp{}, ns.ops...), tmplOp{kind: "funcs", name: r.name, args: names}), funcs: fs})
			return a[0]
		}
		intrinsics[m+"Clone"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			r := tmplOf(w, a[0])
			ns := w.slotAt(r.ns, 0).(*tmplNS)
			for _, o := range ns.ops {
				if html && o.kind == "exec" {
					return Tuple{Ptr{}, w.mkError(fmt.Sprintf("html/template: cannot Clone %q after it has executed", r.name))}
				}
			}
			o := w.newObj(1, "template set")
			o.slots[0] = ns
			return Tuple{w.newTmpl(o, r.name, html), nilIface}
		}
		intrinsics[m+"Lookup"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			r := tmplOf(w, a[0])
			name := w.concStr(a[1])
			if w.slotAt(r.ns, 0).(*tmplNS).native(html).set[name] == nil {
				return Ptr{}
			}
			return w.newTmpl(r.ns, name, html)
		}
		intrinsics[m+"Execute"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			r := tmplOf(w, a[0])
			return w.tmplExec(r, r.name, a[1], a[2].(Iface))
		}
		intrinsics[m+"ExecuteTemplate"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
			r := tmplOf(w, a[0])
			name := w.concStr(a[2])
			if w.slotAt(r.ns, 0).(*tmplNS).native(html).set[name] == nil {
				return w.mkError(fmt.Sprintf("html/template: %q is undefined", name))
			}
			return w.tmplExec(r, name, a[1], a[3].(Iface))
		}
		for _, f := range []string{"ParseFiles", "ParseGlob", "ParseFS"} {
			intrinsics[pk+"."+f] = unsup("template " + f)
			intrinsics[m+f] = unsup("template " + f)
		}
		esc := func(f func(w *Worker, v Value) Value) intrinsic {
			return func(w *Worker, fn *ssa.Function, a []Value) Value { return f(w, a[0]) }
		}
		intrinsics[pk+".HTMLEscapeString"] = esc(func(w *Worker, v Value) Value { return w.htmlEscape(v, "html") })
	}
	intrinsics["html.EscapeString"] = func(w *Worker, fn *ssa.Function, a []Value) Value { return w.htmlEscape(a[0], "html.Escape") }
	intrinsics["html/template.stringify"] = func(w *Worker, fn *ssa.Function, a []Value) Value {
		s, k := w.tmplStringify(w.varargs(a[0]))
		return Tuple{s, w.tt.C(8, uint64(k))}
	}
}

// tmplStringify is html/template's stringify; the kind is its contentType.
func (w *Worker) tmplStringify(args []Iface) (Value, int) {
	if len(args) == 1 {
		i := w.tmplIndirect(args[0])
		if i.t != nil {
			if b, ok := i.t.t.(*types.Basic); ok && b.Kind() == types.String {
				return i.v, 0
			}
			for k, n := range []string{"CSS", "HTML", "HTMLAttr", "JS", "JSStr", "URL", "Srcset"} {
				if i.t.name == "html/template."+n || i.t.name == "template."+n {
					return i.v, k + 1
				}
			}
		}
	}
	var out []Iface
	for _, a := range args {
		if a.t != nil {
			out = append(out, w.tmplToStringer(a))
		}
	}
	return w.sprint(out), 0
}

func (w *Worker) isStringer(t *RType) bool {
	for _, n := range []string{"Error", "String"} {
		if m := w.methodByName(t, n); m != nil && sigIs(m, 0, 1) {
			return true
		}
	}
	return false
}

func (w *Worker) tmplToStringer(a Iface) Iface {
	for a.t != nil && !w.isStringer(a.t) {
		p, ok := a.t.t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		if q, ok := a.v.(Ptr); !ok || q.o == nil {
			break
		}
		a = w.box(p.Elem(), w.load(a.v, p.Elem()))
	}
	return a
}

// box makes an interface holding v of static type t.
func (w *Worker) box(t types.Type, v Value) Iface {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(Iface)
	}
	return Iface{w.rtype(t), v}
}

func (w *Worker) tmplIndirect(a Iface) Iface {
	for a.t != nil {
		p, ok := a.t.t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		if q, ok := a.v.(Ptr); !ok || q.o == nil {
			break
		}
		a = w.box(p.Elem(), w.load(a.v, p.Elem()))
	}
	return a
}

var htmlTabs = map[string]map[byte]string{
	"html":        {0: "\uFFFD", '"': "&#34;", '&': "&amp;", '\'': "&#39;", '+': "&#43;", '<': "&lt;", '>': "&gt;"},
	"norm":        {0: "\uFFFD", '"': "&#34;", '\'': "&#39;", '+': "&#43;", '<': "&lt;", '>': "&gt;"},
	"html.Escape": {'"': "&#34;", '&': "&amp;", '\'': "&#39;", '<': "&lt;", '>': "&gt;"},
	"nospace": {0: "&#xfffd;", '\t': "&#9;", '\n': "&#10;", '\v': "&#11;", '\f': "&#12;", '\r': "&#13;", ' ': "&#32;",
		'"': "&#34;", '&': "&amp;", '\'': "&#39;", '+': "&#43;", '<': "&lt;", '=': "&#61;", '>': "&gt;", '`': "&#96;"},
}

func (w *Worker) htmlEscape(v Value, tab string) Value {
	m := htmlTabs[tab]
	var ks []int
	for k := range m {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	var out []*Term
	for _, t := range w.rawBytes(v) {
		if t.isAtom() {
			out = append(out, t)
			continue
		}
		if t.isConst() {
			if r, ok := m[byte(t.k)]; ok {
				out = append(out, w.rawBytes(r)...)
			} else {
				out = append(out, t)
			}
			continue
		}
		sp := w.tt.F
		for _, k := range ks {
			sp = w.tt.Or(sp, w.tt.Eq(t, w.tt.C(8, uint64(k))))
		}
		if !w.branch(sp) {
			out = append(out, t)
			continue
		}
		for i, k := range ks {
			if i == len(ks)-1 || w.branch(w.tt.Eq(t, w.tt.C(8, uint64(k)))) {
				out = append(out, w.rawBytes(m[byte(k)])...)
				break
			}
		}
	}
	return w.mkStr(out)
}

type tmplErr struct{ err Value }
type tmplCtl int // 1 break, 2 continue

type tmplVar struct {
	name string
	v    Iface
}

type tmplState struct {
	w     *Worker
	ns    *tmplNS
	nat   *natTmpl
	html  bool
	name  string
	dst   Value
	vars  []tmplVar
	depth int
}

var missingI = Iface{t: &RType{name: "missing"}}

func (w *Worker) tmplExec(r *tmplRef, name string, dst Value, data Iface) (res Value) {
	ns := w.slotAt(r.ns, 0).(*tmplNS).with(tmplOp{kind: "exec", name: name})
	nat := ns.native(r.html)
	if r.html {
		w.setSlot(r.ns, 0, ns)
	}
	if err := nat.err[name]; err != nil {
		return w.mkError(err.Error())
	}
	tree := nat.set[name]
	if tree == nil || tree.Root == nil {
		return w.mkError(fmt.Sprintf("template: %q is an incomplete or empty template", name))
	}
	s := &tmplState{w: w, ns: ns, nat: nat, html: r.html, name: name, dst: dst, vars: []tmplVar{{"$", data}}}
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(*tmplErr); ok {
				res = e.err
				return
			}
			panic(x)
		}
	}()
	s.walk(data, tree.Root)
	return nilIface
}

func (s *tmplState) fail(f string, args ...any) {
	panic(&tmplErr{s.w.mkError(fmt.Sprintf("template: %s: %s", s.name, fmt.Sprintf(f, args...)))})
}

func (s *tmplState) write(v Value) {
	if b, ok := s.w.force(v).(string); ok && b == "" {
		return
	}
	r := s.w.writeTo(s.dst, v).(Tuple)
	if e := r[1].(Iface); e.t != nil {
		panic(&tmplErr{e})
	}
}

func (s *tmplState) walk(dot Iface, n parse.Node) {
	w := s.w
	switch n := n.(type) {
	case *parse.ActionNode:
		v := s.pipe(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			s.print(v)
		}
	case *parse.BreakNode:
		panic(tmplCtl(1))
	case *parse.ContinueNode:
		panic(tmplCtl(2))
	case *parse.CommentNode:
	case *parse.IfNode:
		s.cond(false, dot, n.Pipe, n.List, n.ElseList)
	case *parse.WithNode:
		s.cond(true, dot, n.Pipe, n.List, n.ElseList)
	case *parse.ListNode:
		for _, x := range n.Nodes {
			s.walk(dot, x)
		}
	case *parse.RangeNode:
		s.rangeN(dot, n)
	case *parse.TemplateNode:
		t := s.nat.set[n.Name]
		if t == nil {
			s.fail("template %q not defined", n.Name)
		}
		if s.depth > 200 {
			s.fail("exceeded maximum template depth")
		}
		d := Iface{}
		if n.Pipe != nil {
			d = s.pipe(dot, n.Pipe)
		}
		ns := *s
		ns.depth++
		ns.vars = []tmplVar{{"$", d}}
		ns.walk(d, t.Root)
	case *parse.TextNode:
		s.write(string(n.Text))
	default:
		panic(unsupported{fmt.Sprintf("template node %T", n)})
	}
	_ = w
}

func (s *tmplState) cond(with bool, dot Iface, p *parse.PipeNode, list, els *parse.ListNode) {
	mark := len(s.vars)
	defer func() { s.vars = s.vars[:mark] }()
	v := s.pipe(dot, p)
	if s.truth(v) {
		if with {
			dot = v
		}
		s.walk(dot, list)
	} else if els != nil {
		s.walk(dot, els)
	}
}

func (s *tmplState) truth(v Iface) bool {
	w := s.w
	if v.t == nil {
		return false
	}
	switch u := v.t.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return w.strLen(v.v) > 0
		case u.Info()&types.IsBoolean != 0:
			return w.branch(v.v.(*Term))
		case u.Info()&types.IsInteger != 0:
			t := v.v.(*Term)
			return !w.branch(w.tt.Eq(t, w.tt.C(t.w, 0)))
		}
		panic(unsupported{"template truth of " + v.t.name})
	case *types.Slice:
		return w.sliceLen(v.v.(Slice)) > 0
	case *types.Array:
		return u.Len() > 0
	case *types.Map:
		m := v.v.(*MapObj)
		return m != nil && m.n > 0
	case *types.Pointer:
		p, ok := v.v.(Ptr)
		return !ok || p.o != nil
	case *types.Struct:
		return true
	case *types.Signature:
		c, _ := v.v.(*Closure)
		return c != nil
	}
	panic(unsupported{"template truth of " + v.t.name})
}

func (s *tmplState) rangeN(dot Iface, n *parse.RangeNode) {
	w := s.w
	mark0 := len(s.vars)
	defer func() { s.vars = s.vars[:mark0] }()
	defer func() {
		if x := recover(); x != nil && x != tmplCtl(1) {
			panic(x)
		}
	}()
	val := w.tmplIndirect(s.pipe(dot, n.Pipe))
	mark := len(s.vars)
	one := func(idx, el Iface) {
		d := n.Pipe.Decl
		switch {
		case len(d) == 0:
		case n.Pipe.IsAssign && len(d) == 1:
			s.setVar(d[0].Ident[0], el)
		case n.Pipe.IsAssign:
			s.setVar(d[0].Ident[0], idx)
			s.setVar(d[1].Ident[0], el)
		default:
			s.vars[len(s.vars)-1].v = el
			if len(d) > 1 {
				s.vars[len(s.vars)-2].v = idx
			}
		}
		defer func() { s.vars = s.vars[:mark] }()
		defer func() {
			if x := recover(); x != nil && x != tmplCtl(2) {
				panic(x)
			}
		}()
		s.walk(el, n.List)
	}
	run := 0
	if val.t != nil {
		switch u := val.t.t.Underlying().(type) {
		case *types.Slice:
			sl := val.v.(Slice)
			ln := w.sliceLen(sl)
			esz := w.layout(u.Elem()).n
			for ; run < ln; run++ {
				one(Iface{w.rtype(types.Typ[types.Int]), w.i64(run)}, w.box(u.Elem(), w.loadN(Ptr{sl.o, sl.off + run*esz}, u.Elem())))
			}
		case *types.Array:
			a := val.v.(Agg)
			esz := w.layout(u.Elem()).n
			for ; run < int(u.Len()); run++ {
				one(Iface{w.rtype(types.Typ[types.Int]), w.i64(run)}, w.box(u.Elem(), packV(u.Elem(), a[run*esz:(run+1)*esz])))
			}
		case *types.Map:
			m := val.v.(*MapObj)
			var es []*MapEnt
			if m != nil {
				for _, e := range m.ents {
					if !e.deleted {
						es = append(es, e)
					}
				}
			}
			kt := u.Key()
			less := func(a, b Value) bool {
				if b0, ok := kt.Underlying().(*types.Basic); ok && b0.Info()&types.IsString != 0 {
					return w.branch(w.strLess(a, b))
				}
				x, ok := a.(*Term)
				y, ok2 := b.(*Term)
				if !ok || !ok2 {
					panic(unsupported{"template range over a map with such keys"})
				}
				if isSigned(kt) {
					return w.branch(w.tt.Slt(x, y))
				}
				return w.branch(w.tt.Ult(x, y))
			}
			for i := 1; i < len(es); i++ {
				for j := i; j > 0 && less(es[j].k, es[j-1].k); j-- {
					es[j], es[j-1] = es[j-1], es[j]
				}
			}
			for _, e := range es {
				run++
				one(w.box(kt, e.k), w.box(u.Elem(), e.v))
			}
		case *types.Basic:
			if u.Info()&types.IsInteger == 0 {
				s.fail("range can't iterate over %s", val.t.name)
			}
			k := int(int64(w.concretize(val.v.(*Term))))
			for ; run < k; run++ {
				one(missingI, Iface{val.t, w.tt.C(val.v.(*Term).w, uint64(run))})
			}
		default:
			panic(unsupported{"template range over " + val.t.name})
		}
	}
	if run == 0 && n.ElseList != nil {
		s.walk(dot, n.ElseList)
	}
}

func (s *tmplState) setVar(name string, v Iface) {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == name {
			s.vars[i].v = v
			return
		}
	}
	s.fail("undefined variable: %s", name)
}

func (s *tmplState) print(v Iface) {
	if v == missingI || v.t == nil {
		if v.t == nil || !s.html {
			s.write("<no value>")
			return
		}
	}
	s.write(s.w.sprint([]Iface{s.w.tmplToStringer(v)}))
}

func (s *tmplState) pipe(dot Iface, p *parse.PipeNode) Iface {
	v := missingI
	for _, c := range p.Cmds {
		v = s.command(dot, c, v)
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			s.setVar(d.Ident[0], v)
		} else {
			s.vars = append(s.vars, tmplVar{d.Ident[0], v})
		}
	}
	return v
}

func (s *tmplState) basic(k types.BasicKind, v Value) Iface {
	return Iface{s.w.rtype(types.Typ[k]), v}
}

func (s *tmplState) command(dot Iface, c *parse.CommandNode, final Iface) Iface {
	switch n := c.Args[0].(type) {
	case *parse.FieldNode:
		return s.chain(dot, dot, n.Ident, c.Args, final)
	case *parse.ChainNode:
		return s.chain(dot, s.arg(dot, n.Node), n.Field, c.Args, final)
	case *parse.IdentifierNode:
		return s.function(dot, n.Ident, c.Args[1:], final)
	case *parse.VariableNode:
		v := s.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			if len(c.Args) > 1 || final != missingI {
				s.fail("can't give argument to non-function %s", n)
			}
			return v
		}
		return s.chain(dot, v, n.Ident[1:], c.Args, final)
	default:
		if len(c.Args) > 1 || final != missingI {
			s.fail("can't give argument to non-function %s", n)
		}
		return s.arg(dot, n)
	}
}

func (s *tmplState) variable(name string) Iface {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == name {
			return s.vars[i].v
		}
	}
	s.fail("undefined variable: %s", name)
	return Iface{}
}

// arg evaluates an operand node.
func (s *tmplState) arg(dot Iface, n parse.Node) Iface {
	w := s.w
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return Iface{}
	case *parse.BoolNode:
		return s.basic(types.Bool, w.tt.Bool(n.True))
	case *parse.StringNode:
		return s.basic(types.String, n.Text)
	case *parse.NumberNode:
		if n.IsInt {
			return s.basic(types.Int, w.tt.C(64, uint64(n.Int64)))
		}
		panic(unsupported{"template constant " + n.Text})
	case *parse.FieldNode:
		return s.chain(dot, dot, n.Ident, nil, missingI)
	case *parse.VariableNode:
		v := s.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return s.chain(dot, v, n.Ident[1:], nil, missingI)
	case *parse.ChainNode:
		return s.chain(dot, s.arg(dot, n.Node), n.Field, nil, missingI)
	case *parse.PipeNode:
		return s.pipe(dot, n)
	case *parse.IdentifierNode:
		return s.function(dot, n.Ident, nil, missingI)
	}
	panic(unsupported{fmt.Sprintf("template operand %T", n)})
}

func (s *tmplState) chain(dot, recv Iface, ident []string, args []parse.Node, final Iface) Iface {
	for i, f := range ident {
		if i < len(ident)-1 {
			recv = s.field(dot, recv, f, nil, missingI)
		} else {
			recv = s.field(dot, recv, f, args, final)
		}
	}
	return recv
}

func (s *tmplState) field(dot, recv Iface, name string, args []parse.Node, final Iface) Iface {
	w := s.w
	if recv == missingI || recv.t == nil {
		return missingI
	}
	if !token.IsExported(name) {
		// unexported names are only ever map keys
		if _, ok := recv.t.t.Underlying().(*types.Map); !ok {
			s.fail("%s is an unexported field of %s", name, recv.t.name)
		}
	}
	if len(args) > 0 {
		args = args[1:]
	}
	if m := w.methodByName(recv.t, name); m != nil {
		return s.call(dot, name, func(a []Value) Value { return w.callFn(m, append([]Value{recv.v}, a...), nil) }, m.Signature, args, final)
	}
	if _, isP := recv.t.t.Underlying().(*types.Pointer); !isP {
		pt := w.rtype(types.NewPointer(recv.t.t))
		if m := w.methodByName(pt, name); m != nil {
			o := w.newObj(w.layout(recv.t.t).n, "template receiver")
			w.storeN(Ptr{o, 0}, recv.v)
			return s.call(dot, name, func(a []Value) Value { return w.callFn(m, append([]Value{Ptr{o, 0}}, a...), nil) }, m.Signature, args, final)
		}
	}
	v := w.tmplIndirect(recv)
	if v.t == nil {
		return missingI
	}
	hasArgs := len(args) > 0 || final != missingI
	switch u := v.t.t.Underlying().(type) {
	case *types.Struct:
		obj, path, _ := types.LookupFieldOrMethod(v.t.t, true, nil, name)
		if _, ok := obj.(*types.Var); ok {
			if hasArgs {
				s.fail("%s has arguments but cannot be invoked as function", name)
			}
			cur := v
			for _, i := range path {
				cur = w.tmplIndirect(cur)
				st, ok := cur.t.t.Underlying().(*types.Struct)
				if !ok {
					s.fail("nil pointer evaluating %s", name)
				}
				l := w.layout(cur.t.t)
				ft := st.Field(i).Type()
				a, ok := cur.v.(Agg)
				if !ok {
					a = Agg{cur.v}
				}
				cur = w.box(ft, packV(ft, a[l.foff[i]:l.foff[i]+l.fn[i]]))
			}
			return cur
		}
	case *types.Map:
		if hasArgs {
			s.fail("%s is not a method but has arguments", name)
		}
		m := v.v.(*MapObj)
		if m != nil {
			if e := w.mapFind(m, Value(name)); e != nil {
				return w.box(u.Elem(), e.v)
			}
		}
		return missingI
	}
	s.fail("can't evaluate field %s in type %s", name, recv.t.name)
	return Iface{}
}

func (s *tmplState) operands(dot Iface, args []parse.Node, final Iface) []Iface {
	var r []Iface
	for _, a := range args {
		r = append(r, s.arg(dot, a))
	}
	if final != missingI {
		r = append(r, final)
	}
	return r
}

// call calls a Go function or method.
func (s *tmplState) call(dot Iface, name string, f func([]Value) Value, sig *types.Signature, args []parse.Node, final Iface) Iface {
	w := s.w
	ops := s.operands(dot, args, final)
	ps := sig.Params()
	fixed := ps.Len()
	if sig.Variadic() {
		fixed--
	}
	if len(ops) < fixed || len(ops) > fixed && !sig.Variadic() {
		s.fail("wrong number of args for %s: want %d got %d", name, ps.Len(), len(ops))
	}
	conv := func(t types.Type, v Iface) Value {
		if v == missingI {
			v = Iface{}
		}
		if it, ok := t.Underlying().(*types.Interface); ok {
			if v.t != nil && !w.implCached(v.t, t, it) {
				s.fail("wrong type for value; expected %s; got %s", t, v.t.name)
			}
			return v
		}
		if v.t == nil {
			return w.zeroV(t)
		}
		if v.t == w.rtype(t) {
			return v.v
		}
		if types.Identical(v.t.t.Underlying(), t.Underlying()) || types.AssignableTo(v.t.t, t) {
			return v.v
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if x, ok := v.v.(*Term); ok && x.isConst() {
				return w.tt.C(basicWidth(b), x.k)
			}
		}
		if p, ok := v.t.t.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), t) {
			return w.load(v.v, p.Elem())
		}
		s.fail("wrong type for value; expected %s; got %s", t, v.t.name)
		return nil
	}
	var av []Value
	for i := 0; i < fixed; i++ {
		av = append(av, conv(ps.At(i).Type(), ops[i]))
	}
	if sig.Variadic() {
		et := ps.At(fixed).Type().(*types.Slice).Elem()
		n := w.layout(et).n
		o := w.newObj(0, "template arguments")
		k := 0
		for _, x := range ops[fixed:] {
			w.storeN(Ptr{o, k * n}, conv(et, x))
			k++
		}
		av = append(av, Slice{o: o, ln: k, cp: k})
	}
	r := f(av)
	res := sig.Results()
	if res.Len() == 0 {
		s.fail("can't call method/function %q with 0 results", name)
	}
	if res.Len() == 2 {
		t := r.(Tuple)
		if e := t[1].(Iface); e.t != nil {
			msg := w.concat("template: "+s.name+": error calling "+name+": ", w.invokeByName(e, "Error"))
			panic(&tmplErr{w.mkError(msg)})
		}
		r = t[0]
	}
	return w.box(res.At(0).Type(), r)
}

func (s *tmplState) function(dot Iface, name string, args []parse.Node, final Iface) Iface {
	w := s.w
	if f, ok := s.ns.funcs[name]; ok {
		fi := f.(Iface)
		c, _ := fi.v.(*Closure)
		if c == nil {
			s.fail("%s is nil", name)
		}
		return s.call(dot, name, func(a []Value) Value { return w.callClosure(c, a) }, fi.t.t.Underlying().(*types.Signature), args, final)
	}
	str := func(v Value) Iface { return s.basic(types.String, v) }
	bl := func(t *Term) Iface { return s.basic(types.Bool, t) }
	if name == "and" || name == "or" {
		var v Iface
		for _, a := range args {
			v = s.arg(dot, a)
			if s.truth(v) == (name == "or") {
				return v
			}
		}
		if final != missingI {
			v = final
		}
		return v
	}
	ops := s.operands(dot, args, final)
	for i, o := range ops {
		if o == missingI {
			ops[i] = Iface{}
		}
	}
	need := func(n int) {
		if len(ops) < n {
			s.fail("wrong number of args for %s", name)
		}
	}
	esc := func(tab string) Iface {
		v, k := w.tmplStringify(ops)
		switch {
		case tab == "html" && k == 2:
			return str(v)
		case k == 2 && tab == "rcdata":
			return str(w.htmlEscape(v, "norm"))
		case k == 2:
			panic(unsupported{"template.HTML inside an attribute"})
		case tab == "nospace":
			if w.strLen(v) == 0 {
				return str("ZgotmplZ")
			}
			return str(w.htmlEscape(v, "nospace"))
		}
		return str(w.htmlEscape(v, "html"))
	}
	switch name {
	case "_html_template_htmlescaper":
		return esc("html")
	case "_html_template_attrescaper":
		return esc("attr")
	case "_html_template_rcdataescaper":
		return esc("rcdata")
	case "_html_template_nospaceescaper":
		return esc("nospace")
	case "_html_template_commentescaper":
		return str("")
	case "_eval_args_":
		for i := range ops {
			ops[i] = w.tmplToStringer(ops[i])
		}
		return str(w.sprint(ops))
	case "html":
		for i := range ops {
			ops[i] = w.tmplToStringer(ops[i])
		}
		return str(w.htmlEscape(w.sprint(ops), "html"))
	case "print":
		return str(w.sprint(ops))
	case "println":
		return str(w.sprintln(ops))
	case "printf":
		need(1)
		return str(w.sprintf(ops[0].v, ops[1:], nil))
	case "not":
		need(1)
		return bl(w.tt.Bool(!s.truth(ops[0])))
	case "len":
		need(1)
		v := w.tmplIndirect(ops[0])
		if v.t == nil {
			s.fail("error calling len: len of nil")
		}
		switch u := v.t.t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return s.basic(types.Int, w.i64(w.strLen(v.v)))
			}
		case *types.Slice:
			return s.basic(types.Int, w.i64(w.sliceLen(v.v.(Slice))))
		case *types.Array:
			return s.basic(types.Int, w.i64(int(u.Len())))
		case *types.Map:
			n := 0
			if m := v.v.(*MapObj); m != nil {
				n = m.n
			}
			return s.basic(types.Int, w.i64(n))
		}
		s.fail("error calling len: len of type %s", v.t.name)
	case "index":
		need(1)
		v := ops[0]
		for _, ix := range ops[1:] {
			v = w.tmplIndirect(v)
			if v.t == nil {
				s.fail("error calling index: index of untyped nil")
			}
			switch u := v.t.t.Underlying().(type) {
			case *types.Slice:
				sl := v.v.(Slice)
				i := int(int64(w.concretize(w.tt.Sext(ix.v.(*Term), 64))))
				if i < 0 || i >= w.sliceLen(sl) {
					s.fail("error calling index: index out of range: %d", i)
				}
				v = w.box(u.Elem(), w.loadN(Ptr{sl.o, sl.off + i*w.layout(u.Elem()).n}, u.Elem()))
			case *types.Map:
				m := v.v.(*MapObj)
				var e *MapEnt
				if m != nil {
					e = w.mapFind(m, ix.v)
				}
				if e == nil {
					v = w.box(u.Elem(), w.zeroV(u.Elem()))
				} else {
					v = w.box(u.Elem(), e.v)
				}
			default:
				panic(unsupported{"template index of " + v.t.name})
			}
		}
		return v
	case "eq", "ne", "lt", "le", "gt", "ge":
		need(2)
		cmp := func(a, b Iface) (lt, eq *Term) {
			if a.t == nil || b.t == nil {
				return w.tt.F, w.tt.Bool(a.t == b.t)
			}
			ba, ok1 := a.t.t.Underlying().(*types.Basic)
			bb, ok2 := b.t.t.Underlying().(*types.Basic)
			if !ok1 || !ok2 {
				if a.t == b.t {
					return nil, w.eqV(a.t.t, a.v, b.v)
				}
				s.fail("error calling %s: incompatible types for comparison", name)
			}
			switch {
			case ba.Info()&types.IsString != 0 && bb.Info()&types.IsString != 0:
				return w.strLess(a.v, b.v), w.strEq(a.v, b.v)
			case ba.Info()&types.IsBoolean != 0 && bb.Info()&types.IsBoolean != 0:
				return nil, w.tt.Eq(a.v.(*Term), b.v.(*Term))
			case ba.Info()&types.IsInteger != 0 && bb.Info()&types.IsInteger != 0 && ba.Info()&types.IsUnsigned == bb.Info()&types.IsUnsigned:
				x := w.idx64ext(a.v.(*Term), ba.Info()&types.IsUnsigned == 0, 64)
				y := w.idx64ext(b.v.(*Term), ba.Info()&types.IsUnsigned == 0, 64)
				if ba.Info()&types.IsUnsigned != 0 {
					return w.tt.Ult(x, y), w.tt.Eq(x, y)
				}
				return w.tt.Slt(x, y), w.tt.Eq(x, y)
			}
			panic(unsupported{"template comparison of " + a.t.name + " and " + b.t.name})
		}
		if name == "eq" {
			r := w.tt.F
			for _, o := range ops[1:] {
				_, e := cmp(ops[0], o)
				r = w.tt.Or(r, e)
			}
			return bl(r)
		}
		lt, eq := cmp(ops[0], ops[1])
		if name == "ne" {
			return bl(w.tt.Not(eq))
		}
		if lt == nil {
			s.fail("error calling %s: invalid type for comparison", name)
		}
		switch name {
		case "lt":
			return bl(lt)
		case "le":
			return bl(w.tt.Or(lt, eq))
		case "gt":
			return bl(w.tt.Not(w.tt.Or(lt, eq)))
		}
		return bl(w.tt.Not(lt))
	}
	// the other contextual escapers of html/template: the real functions
	real := map[string]string{"_html_template_cssescaper": "cssEscaper", "_html_template_cssvaluefilter": "cssValueFilter",
		"_html_template_htmlnamefilter": "htmlNameFilter", "_html_template_jsregexpescaper": "jsRegexpEscaper",
		"_html_template_jsstrescaper": "jsStrEscaper", "_html_template_jstmpllitescaper": "jsTmplLitEscaper",
		"_html_template_jsvalescaper": "jsValEscaper", "_html_template_srcsetescaper": "srcsetFilterAndEscaper",
		"_html_template_urlescaper": "urlEscaper", "_html_template_urlfilter": "urlFilter", "_html_template_urlnormalizer": "urlNormalizer"}
	if rn, ok := real[name]; ok {
		var a []Value
		for _, o := range ops {
			a = append(a, o)
		}
		if name == "_html_template_urlfilter" {
			if v, k := w.tmplStringify(ops); k == 0 {
				if u, ok := w.force(v).(string); ok {
					return str(concEscape(name, u))
				}
			}
		}
		if f := w.ex.prog.ImportedPackage("html/template"); f != nil && f.Func(rn) != nil {
			return str(w.callFn(f.Func(rn), []Value{w.strSlice(a)}, nil))
		}
	}
	panic(unsupported{"template function " + name})
}

// concEscape applies a contextual escaper to a concrete string natively.
func concEscape(name, v string) string {
	text := map[string]string{"_html_template_urlfilter": `<a href="{{.}}">`}[name]
	if text == "" {
		panic(unsupported{"template function " + name})
	}
	var sb strings.Builder
	htmpl.Must(htmpl.New("x").Parse(text)).Execute(&sb, v)
	s := sb.String()
	// undo the normaliser and attribute escaper for plain URLs: only the filter's verdict matters
	if strings.Contains(s, "ZgotmplZ") && !strings.Contains(v, "ZgotmplZ") {
		return "#ZgotmplZ"
	}
	return v
}

var _ = strconv.Itoa
