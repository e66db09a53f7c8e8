package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type FnInfo struct {
	fn       *ssa.Function
	slots    map[ssa.Value]int
	n        int
	hasDefer bool
	intr     Intrinsic
	model    *ssa.Function
	executed bool
	isInit   bool
	lookup   bool
}

type Intrinsic func(g *G, fn *ssa.Function, args []Value) Value

type deferred struct {
	f    *Closure
	args []Value
}

type Frame struct {
	g         *G
	fi        *FnInfo
	fn        *ssa.Function
	caller    *Frame
	regs      []Value
	free      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	result    Value
	defers    []deferred
	panicking bool
	panic     targetPanic
	depth     int
}

func fnName(fn *ssa.Function) string { return fn.String() }

func (w *Worker) info(fn *ssa.Function) *FnInfo {
	if fi, ok := w.finfo[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, slots: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.slots[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		fi.hasDefer = true
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	fi.intr, fi.model = w.eng.lookup(fn, name)
	fi.isInit = fn.Pkg != nil && fn.Pkg.Func("init") == fn
	w.finfo[fn] = fi
	return fi
}

func (g *G) where(max int) string {
	var sb strings.Builder
	n := 0
	for f := g.fr; f != nil && n < max; f = f.caller {
		pos := token.NoPos
		if f.block != nil && f.pc < len(f.block.Instrs) {
			for i := f.pc; i >= 0 && pos == token.NoPos; i-- {
				pos = f.block.Instrs[i].Pos()
			}
		}
		ps := g.p.w.eng.prog.Fset.Position(pos)
		file := ps.Filename
		if i := strings.LastIndex(file, "/"); i >= 0 {
			if j := strings.LastIndex(file[:i], "/"); j >= 0 {
				file = file[j+1:]
			}
		}
		fmt.Fprintf(&sb, "%s (%s:%d) < ", f.fn.String(), file, ps.Line)
		n++
	}
	return strings.TrimSuffix(sb.String(), " < ")
}

// call invokes an SSA function.
func (g *G) call(fn *ssa.Function, args []Value, free []Value) Value {
	w := g.p.w
	fi := w.info(fn)
	if fi.model != nil {
		g.p.useNative(fn)
		fn = fi.model
		fi = w.info(fn)
	}
	if fi.intr != nil {
		r := fi.intr(g, fn, args)
		if _, no := r.(notHandled); !no {
			g.p.useNative(fn)
			return r
		}
	}
	if len(fn.Blocks) == 0 {
		panic(abortf("no body for %s, called from %s", fn, g.where(8)))
	}
	fi.executed = true
	fr := &Frame{g: g, fi: fi, fn: fn, caller: g.fr, regs: make([]Value, fi.n), free: free, block: fn.Blocks[0]}
	if g.fr != nil {
		fr.depth = g.fr.depth + 1
		if fr.depth > 400 {
			panic(abortf("call depth limit in %s", fn))
		}
	}
	copy(fr.regs, args)
	for i, v := range free {
		fr.regs[len(fn.Params)+i] = v
	}
	if len(args) != len(fn.Params) {
		panic(abortf("internal: %s called with %d args", fn, len(args)))
	}
	old := g.fr
	g.fr = fr
	if fi.hasDefer {
		for fr.block != nil {
			fr.runProtected()
		}
	} else {
		fr.exec()
	}
	g.fr = old
	return fr.result
}

func (fr *Frame) runProtected() {
	g := fr.g
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		g.fr = fr
		fr.panicking = true
		fr.panic = tp
		fr.runDefers()
		fr.block = fr.fn.Recover
		if fr.block == nil {
			fr.result = fr.g.p.w.zeroResult(fr.fn)
		}
		fr.prev = nil
		fr.pc = 0
	}()
	fr.exec()
}

func (w *Worker) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(r.At(0).Type())
	}
	return w.zero(r)
}

func (fr *Frame) runDefers() {
	g := fr.g
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					g.fr = fr
					fr.panicking = true
					fr.panic = tp
				}
			}()
			g.callV(d.f, d.args)
		}()
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

// callV calls a function value.
func (g *G) callV(f *Closure, args []Value) Value {
	if f == nil {
		g.rtPanic("invalid memory address or nil pointer dereference")
	}
	if f.nat != nil {
		return f.nat(g, args)
	}
	return g.call(f.fn, args, f.free)
}

// rtPanic raises a Go run-time panic in the program under test.
func (g *G) rtPanic(msg string) {
	e := g.p.w.eng
	if e.rtErr != nil {
		panic(targetPanic{Iface{e.rtErr, msg}})
	}
	panic(targetPanic{Iface{types.Typ[types.String], "runtime error: " + msg}})
}

func (g *G) panicStr(v Value) string {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "nil"
		}
		if s, ok := i.v.(string); ok {
			return s
		}
		r := "value of type " + i.t.String()
		func() {
			defer func() { recover() }()
			if s, ok := g.formatV(i, 'v', 0).(string); ok {
				r = s
			}
		}()
		return r
	}
	return fmt.Sprintf("%T", v)
}

func (g *G) constVal(c *ssa.Const) Value {
	w := g.p.w
	if v, ok := w.consts[c]; ok {
		return copyVal(v)
	}
	v := w.mkConst(c)
	w.consts[c] = v
	return v
}

func (w *Worker) mkConst(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Interface); ok {
		_ = tp
		panic(abortf("const of interface type"))
	}
	if wd, _, ok := intInfo(t); ok {
		if wd == 0 {
			return w.tc.Bool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return w.tc.Const(wd, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return w.tc.Const(wd, u)
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(c.Value)
		return f
	}
	return Poison{"constant of type " + t.String()}
}

func (fr *Frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.g.constVal(v)
	case *ssa.Global:
		return fr.g.p.global(fr.g, v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return &Closure{name: v.Name()}
	}
	i, ok := fr.fi.slots[v]
	if !ok {
		panic(abortf("internal: no slot for %s in %s", v.Name(), fr.fn))
	}
	r := fr.regs[i]
	if p, ok := r.(Poison); ok {
		panic(abortf("use of unsupported value: %s", p.why))
	}
	return r
}

func (fr *Frame) set(v ssa.Value, x Value) { fr.regs[fr.fi.slots[v]] = x }

func (fr *Frame) jump(b *ssa.BasicBlock) {
	fr.prev = fr.block
	fr.block = b
	fr.pc = 0
}

// global returns the address of a package-level variable, initialising its package on first use.
func (p *Path) global(g *G, gl *ssa.Global) Value {
	if a, ok := p.globals[gl]; ok {
		return a
	}
	pkg := gl.Pkg
	if m, ok := p.w.persist[pkg]; ok {
		if a, ok := m[gl]; ok {
			return a
		}
	}
	if p.inited[pkg] == 0 {
		p.initPkg(g, pkg)
		if m, ok := p.w.persist[pkg]; ok {
			if a, ok := m[gl]; ok {
				return a
			}
		}
		if a, ok := p.globals[gl]; ok {
			return a
		}
	}
	var v Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				v = Poison{fmt.Sprint(r)}
			}
		}()
		v = p.w.zero(gl.Type().Underlying().(*types.Pointer).Elem())
	}()
	a := &v
	p.globals[gl] = a
	return a
}

func persistPkg(path string) bool {
	switch path {
	case "unicode", "unicode/utf8", "strconv", "math", "math/bits", "strings", "bytes", "errors", "encoding/hex", "encoding/base64", "encoding/binary",
		"sort", "slices", "io", "net/textproto", "golang.org/x/crypto/cryptobyte", "golang.org/x/crypto/cryptobyte/asn1", "golang.org/x/mod/sumdb/tlog", "golang.org/x/mod/sumdb/note",
		"net/http", "net/http/internal", "net/url", "golang.org/x/net/http/httpguts", "os", "io/fs", "internal/oserror", "syscall", "path/filepath", "path", "crypto/elliptic", "math/big", "encoding/asn1", "crypto/x509":
		return true
	}
	return false
}

func (p *Path) initPkg(g *G, pkg *ssa.Package) {
	p.inited[pkg] = 1
	init := pkg.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	for _, m := range pkg.Members {
		gl, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		if _, ok := p.globals[gl]; ok {
			continue
		}
		var v Value
		func() {
			defer func() {
				if r := recover(); r != nil {
					v = Poison{fmt.Sprint(r)}
				}
			}()
			v = p.w.zero(gl.Type().Underlying().(*types.Pointer).Elem())
		}()
		p.globals[gl] = &v
	}
	p.initDepth++
	g.quiet++
	st := p.steps
	g.call(init, nil, nil)
	p.steps = st
	g.quiet--
	p.initDepth--
	if persistPkg(pkg.Pkg.Path()) {
		m := map[*ssa.Global]*Value{}
		for _, mb := range pkg.Members {
			if gl, ok := mb.(*ssa.Global); ok {
				m[gl] = p.globals[gl]
			}
		}
		p.w.persist[pkg] = m
	}
}

func (fr *Frame) exec() {
	g := fr.g
	p := g.p
	for {
		instrs := fr.block.Instrs
		if fr.pc >= len(instrs) {
			panic(abortf("internal: fell off block in %s", fr.fn))
		}
		in := instrs[fr.pc]
		p.steps++
		if stepProf != nil && p.steps%997 == 0 {
			stepProf.sample(g)
		}
		if p.steps > p.job.limits.MaxSteps {
			panic(abortf("step limit reached in %s (unwinding bound)", fr.fn))
		}
		if fr.fi.isInit {
			if fr.execInit(in) {
				return
			}
			continue
		}
		if fr.step(in) {
			return
		}
	}
}

// execInit executes one instruction of a package initialiser; unsupported work poisons its result.
func (fr *Frame) execInit(in ssa.Instruction) (done bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		pa, ok := r.(pathAbort)
		why := ""
		switch {
		case ok && pa.kind == abInconclusive:
			why = pa.why
		case ok:
			panic(r)
		default:
			if tp, ok := r.(targetPanic); ok {
				why = "panic in init: " + fr.g.panicStr(tp.v)
			} else {
				why = fmt.Sprint("engine panic in init: ", r)
			}
		}
		fr.g.fr = fr
		if v, ok := in.(ssa.Value); ok {
			fr.set(v, Poison{why})
		}
		if s, ok := in.(*ssa.Store); ok {
			func() {
				defer func() { recover() }()
				if a, ok := fr.get(s.Addr).(*Value); ok && a != nil {
					*a = Poison{why}
				}
			}()
		}
		switch in.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return:
			panic(r)
		}
		fr.pc++
		done = false
	}()
	if c, ok := in.(*ssa.Call); ok {
		if f, ok := c.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != nil && f.Pkg != fr.fn.Pkg && len(c.Call.Args) == 0 {
			fr.pc++ // other packages are initialised on first use
			return false
		}
	}
	return fr.step(in)
}

func (fr *Frame) step(in ssa.Instruction) bool {
	g := fr.g
	w := g.p.w
	tc := w.tc
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		v := w.zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.set(in, &v)
	case *ssa.UnOp:
		fr.set(in, fr.unop(in))
	case *ssa.BinOp:
		fr.set(in, g.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
	case *ssa.Phi:
		// evaluate all phis of the block simultaneously
		idx := -1
		for i, pr := range fr.block.Preds {
			if pr == fr.prev {
				idx = i
				break
			}
		}
		var vals []Value
		var phis []*ssa.Phi
		for _, x := range fr.block.Instrs[fr.pc:] {
			ph, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			i, ok := fr.fi.slots[ph.Edges[idx]]
			if ok {
				vals = append(vals, fr.regs[i])
			} else {
				vals = append(vals, fr.get(ph.Edges[idx]))
			}
			phis = append(phis, ph)
		}
		for i, ph := range phis {
			fr.set(ph, vals[i])
		}
		fr.pc += len(phis)
		return false
	case *ssa.If:
		c := fr.get(in.Cond).(*Term)
		if g.p.branch(c, nil) {
			fr.jump(fr.block.Succs[0])
		} else {
			fr.jump(fr.block.Succs[1])
		}
		return false
	case *ssa.Jump:
		fr.jump(fr.block.Succs[0])
		return false
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = fr.get(in.Results[0])
		default:
			r := make(TupleV, len(in.Results))
			for i, x := range in.Results {
				r[i] = fr.get(x)
			}
			fr.result = r
		}
		fr.block = nil
		return true
	case *ssa.Call:
		f, args := fr.prepCall(&in.Call)
		fr.set(in, fr.doCall(f, args, &in.Call))
	case *ssa.Defer:
		f, args := fr.prepCall(&in.Call)
		if f.fn == nil && f.nat == nil {
			b := f
			call := &in.Call
			f = &Closure{nat: func(g *G, a []Value) Value { return fr.builtin(b.name, a, call) }}
		}
		if in.DeferStack != nil {
			panic(abortf("defer stack (range over func)"))
		}
		fr.defers = append(fr.defers, deferred{f, args})
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Go:
		f, args := fr.prepCall(&in.Call)
		if f.fn == nil && f.nat == nil {
			panic(abortf("go of builtin"))
		}
		nm := "goroutine"
		if f.fn != nil {
			nm = f.fn.String()
		}
		g.p.spawn(func(g *G) { g.callV(f, args) }, nm)
		if g.quiet == 0 {
			fr.pc++
			g.yield()
			return false
		}
	case *ssa.Panic:
		v := fr.get(in.X)
		if i, ok := v.(Iface); ok && i.t == nil {
			g.rtPanic("panic called with nil argument")
		}
		panic(targetPanic{v})
	case *ssa.MakeInterface:
		fr.set(in, Iface{in.X.Type(), copyVal(fr.get(in.X))})
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, g.convert(in.X.Type(), in.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, g.convert(in.X.Type(), in.Type(), fr.get(in.X)))
	case *ssa.MakeClosure:
		free := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			free[i] = fr.get(b)
		}
		fr.set(in, &Closure{fn: in.Fn.(*ssa.Function), free: free})
	case *ssa.Extract:
		t, ok := fr.get(in.Tuple).(TupleV)
		if !ok {
			panic(abortf("extract from %T", fr.get(in.Tuple)))
		}
		v := t[in.Index]
		if p, ok := v.(Poison); ok {
			_ = p
		}
		fr.set(in, v)
	case *ssa.Field:
		fr.set(in, copyVal(fr.get(in.X).(StructV)[in.Field]))
	case *ssa.FieldAddr:
		x := fr.get(in.X)
		pv := g.deref(x)
		s, ok := (*pv).(StructV)
		if !ok {
			if ps, ok := (*pv).(Poison); ok {
				panic(abortf("field of unsupported value: %s", ps.why))
			}
			panic(abortf("FieldAddr on %T at %s", *pv, fr.fn))
		}
		fr.set(in, &s[in.Field])
	case *ssa.Index:
		fr.set(in, fr.index(fr.get(in.X), fr.get(in.Index).(*Term), in.Index.Type()))
	case *ssa.IndexAddr:
		fr.set(in, fr.indexAddr(fr.get(in.X), fr.get(in.Index).(*Term), in.Index.Type()))
	case *ssa.Store:
		v := fr.get(in.Val)
		g.store(fr.get(in.Addr), v)
	case *ssa.Lookup:
		x := fr.get(in.X)
		if isString(in.X.Type()) {
			fr.set(in, fr.index(x, fr.get(in.Index).(*Term), in.Index.Type()))
			break
		}
		m := x.(*MapV)
		mt := in.X.Type().Underlying().(*types.Map)
		v, ok := g.mapGet(m, fr.get(in.Index), mt.Key())
		if !ok {
			v = w.zero(mt.Elem())
		} else {
			v = copyVal(v)
		}
		if in.CommaOk {
			fr.set(in, TupleV{v, tc.Bool(ok)})
		} else {
			fr.set(in, v)
		}
	case *ssa.MapUpdate:
		m := fr.get(in.Map).(*MapV)
		if m == nil {
			g.rtPanic("assignment to entry in nil map")
		}
		g.mapSet(m, fr.get(in.Key), copyVal(fr.get(in.Value)), in.Map.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeMap:
		fr.set(in, newMap())
	case *ssa.MakeChan:
		n := g.p.concretize(fr.get(in.Size).(*Term))
		fr.set(in, g.p.newChan(int(n)))
	case *ssa.MakeSlice:
		ln := g.concInt(fr.get(in.Len).(*Term), in.Len.Type())
		cp := ln
		if in.Cap != in.Len {
			ct := fr.get(in.Cap).(*Term)
			if !ct.isConst() {
				if _, sg, _ := intInfo(in.Cap.Type()); sg {
					ct = tc.SExt(ct, 64)
				} else {
					ct = tc.ZExt(ct, 64)
				}
				// the capacity itself is not observable through the operations modelled: keep it minimal
				if g.p.branch(tc.BOr(tc.Slt(ct, tc.Const(64, uint64(ln))), tc.Slt(tc.Const(64, 1<<40), ct)), nil) {
					g.rtPanic("makeslice: cap out of range")
				}
			} else {
				cp = g.concInt(ct, in.Cap.Type())
			}
		}
		if ln < 0 || ln > 1<<32 {
			g.rtPanic("makeslice: len out of range")
		}
		if cp < ln {
			g.rtPanic("makeslice: cap out of range")
		}
		if cp > 1<<22 {
			panic(abortf("make of %d elements", cp))
		}
		s := make(SliceV, cp)
		w.fillZero(s, in.Type().Underlying().(*types.Slice).Elem())
		fr.set(in, s[:ln])
	case *ssa.Slice:
		fr.set(in, fr.slice(in))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.X).(SliceV)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			g.rtPanic("cannot convert slice with length to array or pointer to array")
		}
		// share the cells
		if s == nil && n == 0 {
			fr.set(in, (*Value)(nil))
			break
		}
		var v Value = ArrayV(s[:n:n])
		fr.set(in, &v)
	case *ssa.TypeAssert:
		fr.set(in, fr.typeAssert(in))
	case *ssa.Range:
		x := fr.get(in.X)
		switch x := x.(type) {
		case *MapV:
			fr.set(in, &RangeIter{m: x})
		case string, *SymStr:
			fr.set(in, &RangeIter{str: x})
		default:
			panic(abortf("range over %T", x))
		}
	case *ssa.Next:
		fr.set(in, fr.next(in))
	case *ssa.Send:
		c := fr.get(in.Chan).(*ChanV)
		v := copyVal(fr.get(in.X))
		g.yield()
		g.send(c, v)
	case *ssa.Select:
		fr.set(in, fr.selectI(in))
	default:
		panic(abortf("unsupported instruction %T", in))
	}
	fr.pc++
	return false
}

func (w *Worker) fillZero(s SliceV, elem types.Type) {
	if len(s) == 0 {
		return
	}
	z := w.zero(elem)
	for i := range s {
		s[i] = z
	}
	switch z.(type) {
	case StructV, ArrayV:
		for i := range s {
			s[i] = copyVal(z)
		}
	}
}

func (g *G) concInt(t *Term, ty types.Type) int64 {
	if t.w < 64 {
		if _, sg, _ := intInfo(ty); sg {
			t = g.p.w.tc.SExt(t, 64)
		} else {
			t = g.p.w.tc.ZExt(t, 64)
		}
	}
	return int64(g.p.concretize(t))
}

func (g *G) deref(x Value) *Value {
	switch x := x.(type) {
	case *Value:
		if x == nil {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		return x
	case *SymPtr:
		i := g.p.concretize(x.idx)
		return &x.base[i]
	}
	panic(abortf("dereference of %T", x))
}

func (g *G) load(x Value) Value {
	if sp, ok := x.(*SymPtr); ok {
		return g.symLoad(sp.base, sp.idx)
	}
	return copyVal(*g.deref(x))
}

func (g *G) symLoad(base []Value, idx *Term) Value {
	tc := g.p.w.tc
	var w int32 = -1
	for _, e := range base {
		t, ok := e.(*Term)
		if !ok || (w >= 0 && t.w != w) {
			i := g.p.concretize(idx)
			return copyVal(base[i])
		}
		w = t.w
	}
	// hexadecimal / base64 alphabets
	if len(base) == 16 && w == 8 {
		m := true
		for i, e := range base {
			t := e.(*Term)
			m = m && t.isConst() && byte(t.v) == hexAlpha[i]
		}
		if m {
			return tc.HexC(tc.Extract(idx, 3, 0))
		}
	}
	if len(base) == 64 && w == 8 {
		m := true
		for i, e := range base {
			t := e.(*Term)
			m = m && t.isConst() && byte(t.v) == b64Alpha[i]
		}
		if m {
			return tc.B64C(tc.Extract(idx, 5, 0))
		}
	}
	r := base[len(base)-1].(*Term)
	for i := len(base) - 2; i >= 0; i-- {
		r = tc.Ite(tc.Eq(idx, tc.Const(idx.w, uint64(i))), base[i].(*Term), r)
	}
	return r
}

func (g *G) store(x Value, v Value) {
	if sp, ok := x.(*SymPtr); ok {
		tc := g.p.w.tc
		nv, ok := v.(*Term)
		if ok {
			for _, e := range sp.base {
				t, ok2 := e.(*Term)
				if !ok2 || t.w != nv.w {
					ok = false
				}
			}
		}
		if ok {
			for i, e := range sp.base {
				sp.base[i] = tc.Ite(tc.Eq(sp.idx, tc.Const(sp.idx.w, uint64(i))), nv, e.(*Term))
			}
			return
		}
	}
	a := g.deref(x)
	// storing a struct or array must keep interior addresses valid
	switch nv := v.(type) {
	case StructV:
		if old, ok := (*a).(StructV); ok && len(old) == len(nv) {
			g.assignInto(old, nv)
			return
		}
	case ArrayV:
		if old, ok := (*a).(ArrayV); ok && len(old) == len(nv) {
			g.assignInto(old, nv)
			return
		}
	}
	*a = copyVal(v)
}

func (g *G) assignInto(old, nv []Value) {
	// nv may alias old (self assignment)
	tmp := make([]Value, len(nv))
	copy(tmp, nv)
	for i, e := range tmp {
		switch e := e.(type) {
		case StructV:
			if o, ok := old[i].(StructV); ok && len(o) == len(e) {
				g.assignInto(o, e)
				continue
			}
			old[i] = copyVal(e)
		case ArrayV:
			if o, ok := old[i].(ArrayV); ok && len(o) == len(e) {
				g.assignInto(o, e)
				continue
			}
			old[i] = copyVal(e)
		default:
			old[i] = e
		}
	}
}

// boundsCheck returns the index as a 64-bit term, raising a panic path if it can be out of range.
func (fr *Frame) boundsCheck(idx *Term, it types.Type, n int) *Term {
	g := fr.g
	tc := g.p.w.tc
	_, signed, _ := intInfo(it)
	if idx.w < 64 {
		if signed {
			idx = tc.SExt(idx, 64)
		} else {
			idx = tc.ZExt(idx, 64)
		}
	}
	if !g.p.branch(tc.Ult(idx, tc.Const(64, uint64(n))), nil) {
		s := "?"
		if idx.isConst() {
			s = fmt.Sprint(int64(idx.v))
		}
		g.rtPanic(fmt.Sprintf("index out of range [%s] with length %d", s, n))
	}
	return idx
}

func (fr *Frame) index(x Value, idx *Term, it types.Type) Value {
	g := fr.g
	switch x := x.(type) {
	case ArrayV:
		i := fr.boundsCheck(idx, it, len(x))
		if i.isConst() {
			return copyVal(x[i.v])
		}
		return g.symLoad(x, i)
	case string:
		i := fr.boundsCheck(idx, it, len(x))
		if i.isConst() {
			return g.p.w.tc.Const(8, uint64(x[i.v]))
		}
		return g.symLoad(termsToSlice(g.strBytes(x)), i)
	case *SymStr:
		b := g.strBytes(x)
		i := fr.boundsCheck(idx, it, len(b))
		if i.isConst() {
			return b[i.v]
		}
		return g.symLoad(termsToSlice(b), i)
	}
	panic(abortf("index of %T", x))
}

func (fr *Frame) indexAddr(x Value, idx *Term, it types.Type) Value {
	g := fr.g
	var cells []Value
	switch x := x.(type) {
	case SliceV:
		cells = x
	case *Value, *SymPtr:
		a := g.deref(x)
		arr, ok := (*a).(ArrayV)
		if !ok {
			if ps, ok := (*a).(Poison); ok {
				panic(abortf("index of unsupported value: %s", ps.why))
			}
			panic(abortf("IndexAddr on pointer to %T", *a))
		}
		cells = arr
	default:
		panic(abortf("IndexAddr on %T", x))
	}
	i := fr.boundsCheck(idx, it, len(cells))
	if i.isConst() {
		return &cells[i.v]
	}
	return &SymPtr{cells, i}
}

func (fr *Frame) slice(in *ssa.Slice) Value {
	g := fr.g
	x := fr.get(in.X)
	var lim int
	switch y := x.(type) {
	case string, *SymStr:
		lim = strLen(g, y)
	case SliceV:
		lim = cap(y)
	case *Value:
		if a, ok := (*g.deref(y)).(ArrayV); ok {
			lim = len(a)
		}
	}
	bound := func(v ssa.Value, def int64) int64 {
		if v == nil {
			return def
		}
		t := fr.get(v).(*Term)
		_, signed, _ := intInfo(v.Type())
		if t.w < 64 {
			if signed {
				t = g.p.w.tc.SExt(t, 64)
			} else {
				t = g.p.w.tc.ZExt(t, 64)
			}
		}
		if t.isConst() {
			return int64(t.v)
		}
		// values above the capacity all lead to the same panic and are merged
		return int64(g.p.concretizeSmall(t, uint64(lim)+1))
	}
	switch x := x.(type) {
	case string, *SymStr:
		n := int64(strLen(g, x))
		hi := bound(in.High, n)
		if hi < 0 || hi > n {
			g.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		lo := bound(in.Low, 0)
		if lo < 0 || lo > hi {
			g.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		if s, ok := x.(string); ok {
			return s[lo:hi]
		}
		return g.p.w.mkStr(g.strBytes(x)[lo:hi])
	case SliceV:
		return fr.sliceCells(x, int64(len(x)), int64(cap(x)), in, bound, false)
	case *Value:
		a := g.deref(x)
		arr, ok := (*a).(ArrayV)
		if !ok {
			panic(abortf("slice of pointer to %T", *a))
		}
		return fr.sliceCells(SliceV(arr), int64(len(arr)), int64(len(arr)), in, bound, true)
	}
	panic(abortf("slice of %T", x))
}

// concretizeSmall enumerates t but treats all values >= lim (unsigned) as one representative.
func (p *Path) concretizeSmall(t *Term, lim uint64) uint64 {
	tc := p.w.tc
	if !p.branch(tc.Ult(t, tc.Const(t.w, lim)), nil) {
		// any such value is out of range for every object in the bounded model
		return 1 << 62
	}
	return p.concretize(t)
}

func (fr *Frame) sliceCells(x SliceV, ln, cp int64, in *ssa.Slice, bound func(ssa.Value, int64) int64, isArr bool) Value {
	g := fr.g
	full := x[:cp:cp]
	hi := bound(in.High, ln)
	max := cp
	if in.Max != nil {
		max = bound(in.Max, cp)
		if max < 0 || max > cp {
			g.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", max, cp))
		}
		if hi < 0 || hi > max {
			g.rtPanic(fmt.Sprintf("slice bounds out of range [:%d:%d]", hi, max))
		}
	} else if hi < 0 || hi > cp {
		g.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, cp))
	}
	lo := bound(in.Low, 0)
	if lo < 0 || lo > hi {
		g.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	if x == nil && !isArr {
		return SliceV(nil)
	}
	return full[lo:hi:max]
}

func (fr *Frame) typeAssert(in *ssa.TypeAssert) Value {
	g := fr.g
	w := g.p.w
	x, ok := fr.get(in.X).(Iface)
	if !ok {
		panic(abortf("type assertion on %T", fr.get(in.X)))
	}
	good := false
	var v Value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			good = w.implements(x.t, it)
			v = x
		} else {
			good = types.Identical(x.t, in.AssertedType)
			v = copyVal(x.v)
		}
	}
	if good {
		if in.CommaOk {
			return TupleV{v, w.tc.T}
		}
		return v
	}
	if in.CommaOk {
		return TupleV{w.zero(in.AssertedType), w.tc.F}
	}
	tn := "nil"
	if x.t != nil {
		tn = x.t.String()
	}
	g.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", tn, in.AssertedType))
	return nil
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	ms := w.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil {
			return false
		}
		if !types.Identical(sel.Type(), m.Type()) {
			return false
		}
	}
	return true
}

func (w *Worker) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name}
	if !token.IsExported(name) && pkg != nil {
		k.id = pkg.Path() + "." + name
	}
	if f, ok := w.methods[k]; ok {
		return f
	}
	w.eng.mu.Lock()
	defer w.eng.mu.Unlock()
	sel := w.eng.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	var f *ssa.Function
	if sel != nil {
		f = w.eng.prog.MethodValue(sel)
	}
	w.methods[k] = f
	return f
}

func (fr *Frame) prepCall(c *ssa.CallCommon) (*Closure, []Value) {
	g := fr.g
	if c.IsInvoke() {
		recv, ok := fr.get(c.Value).(Iface)
		if !ok {
			panic(abortf("invoke on %T", fr.get(c.Value)))
		}
		if recv.t == nil {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := g.p.w.method(recv.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			panic(abortf("no method %s on %s", c.Method.Name(), recv.t))
		}
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, copyVal(recv.v))
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		return &Closure{fn: fn}, args
	}
	var f *Closure
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		f = &Closure{name: v.Name()}
	case *ssa.Function:
		f = &Closure{fn: v}
	default:
		f, _ = fr.get(v).(*Closure)
	}
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = fr.get(a)
	}
	if f == nil {
		g.rtPanic("invalid memory address or nil pointer dereference")
	}
	return f, args
}

func (fr *Frame) doCall(f *Closure, args []Value, c *ssa.CallCommon) Value {
	if f.fn == nil && f.nat == nil {
		return fr.builtin(f.name, args, c)
	}
	for i, a := range args {
		switch a.(type) {
		case StructV, ArrayV:
			args[i] = copyVal(a)
		}
	}
	return fr.g.callV(f, args)
}

func (fr *Frame) unop(in *ssa.UnOp) Value {
	g := fr.g
	tc := g.p.w.tc
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		v := g.load(x)
		if ps, ok := v.(Poison); ok && !fr.fi.isInit {
			panic(abortf("load of unsupported value: %s", ps.why))
		}
		return v
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		return tc.Neg(x.(*Term))
	case token.NOT:
		return tc.BNot(x.(*Term))
	case token.XOR:
		return tc.Not(x.(*Term))
	case token.ARROW:
		c, _ := x.(*ChanV)
		g.yield()
		v, ok := g.recv(c)
		if !ok {
			v = g.p.w.zero(in.X.Type().Underlying().(*types.Chan).Elem())
		}
		if in.CommaOk {
			return TupleV{v, tc.Bool(ok)}
		}
		return v
	}
	panic(abortf("unop %s", in.Op))
}

func (g *G) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	tc := g.p.w.tc
	switch op {
	case token.EQL:
		return g.equals(t, x, y)
	case token.NEQ:
		return tc.BNot(g.equals(t, x, y))
	}
	if wd, signed, ok := intInfo(t); ok && wd > 0 {
		a, ok1 := x.(*Term)
		b, ok2 := y.(*Term)
		if !ok1 || !ok2 {
			panic(abortf("integer operation on %T, %T", x, y))
		}
		switch op {
		case token.ADD:
			return tc.Add(a, b)
		case token.SUB:
			return tc.Sub(a, b)
		case token.MUL:
			return tc.Mul(a, b)
		case token.QUO, token.REM:
			if g.p.branch(tc.Eq(b, tc.Const(b.w, 0)), nil) {
				g.rtPanic("integer divide by zero")
			}
			if signed {
				if op == token.QUO {
					return tc.SDiv(a, b)
				}
				return tc.SRem(a, b)
			}
			if op == token.QUO {
				return tc.UDiv(a, b)
			}
			return tc.URem(a, b)
		case token.AND:
			return tc.And(a, b)
		case token.OR:
			return tc.Or(a, b)
		case token.XOR:
			return tc.Xor(a, b)
		case token.AND_NOT:
			return tc.And(a, tc.Not(b))
		case token.SHL, token.SHR:
			_, ys, _ := intInfo(yt)
			if ys {
				if g.p.branch(tc.Slt(b, tc.Const(b.w, 0)), nil) {
					g.rtPanic("negative shift amount")
				}
			}
			var sh *Term
			if b.w > a.w {
				// clamp large amounts
				if b.isConst() {
					v := b.v
					if v > uint64(a.w) {
						v = uint64(a.w)
					}
					sh = tc.Const(a.w, v)
				} else {
					big := tc.Ult(tc.Const(b.w, uint64(a.w)), b)
					sh = tc.Ite(big, tc.Const(a.w, uint64(a.w)), tc.Extract(b, a.w-1, 0))
				}
			} else {
				sh = tc.ZExt(b, a.w)
			}
			if op == token.SHL {
				return tc.Shl(a, sh)
			}
			if signed {
				return tc.AShr(a, sh)
			}
			return tc.LShr(a, sh)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
			}
			strict := op == token.LSS || op == token.GTR
			switch {
			case signed && strict:
				return tc.Slt(a, b)
			case signed:
				return tc.Sle(a, b)
			case strict:
				return tc.Ult(a, b)
			default:
				return tc.Ule(a, b)
			}
		}
	}
	if wd, _, ok := intInfo(t); ok && wd == 0 {
		a, b := x.(*Term), y.(*Term)
		switch op {
		case token.AND, token.LAND:
			return tc.BAnd(a, b)
		case token.OR, token.LOR:
			return tc.BOr(a, b)
		}
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return g.concat(x, y)
		case token.LSS:
			return g.bytesLess(g.strBytes(x), g.strBytes(y))
		case token.GTR:
			return g.bytesLess(g.strBytes(y), g.strBytes(x))
		case token.LEQ:
			return tc.BNot(g.bytesLess(g.strBytes(y), g.strBytes(x)))
		case token.GEQ:
			return tc.BNot(g.bytesLess(g.strBytes(x), g.strBytes(y)))
		}
	}
	if isFloat(t) {
		a, ok1 := x.(float64)
		b, ok2 := y.(float64)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			case token.LSS:
				return tc.Bool(a < b)
			case token.LEQ:
				return tc.Bool(a <= b)
			case token.GTR:
				return tc.Bool(a > b)
			case token.GEQ:
				return tc.Bool(a >= b)
			}
		}
	}
	panic(abortf("binop %s on %s (%T,%T)", op, t, x, y))
}

func (g *G) concat(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if a == "" {
			return y
		}
	}
	if b, ok := y.(string); ok && b == "" {
		return x
	}
	xb, yb := g.strBytes(x), g.strBytes(y)
	out := make([]*Term, 0, len(xb)+len(yb))
	out = append(append(out, xb...), yb...)
	return g.p.w.mkStr(out)
}

// bytesLess is the lexicographic order as a term.
func (g *G) bytesLess(a, b []*Term) *Term {
	tc := g.p.w.tc
	if len(a) == len(b) && len(a) > 0 {
		return tc.Ult(tc.Concat(a...), tc.Concat(b...))
	}
	n := min(len(a), len(b))
	if n == 0 {
		return tc.Bool(len(a) < len(b))
	}
	x, y := tc.Concat(a[:n]...), tc.Concat(b[:n]...)
	lt := tc.Ult(x, y)
	if len(a) < len(b) {
		return tc.BOr(lt, tc.Eq(x, y))
	}
	return lt
}

func (g *G) bytesEq(a, b []*Term) *Term {
	tc := g.p.w.tc
	if len(a) != len(b) {
		return tc.F
	}
	if len(a) == 0 {
		return tc.T
	}
	return tc.Eq(tc.Concat(a...), tc.Concat(b...))
}

func (g *G) equals(t types.Type, x, y Value) *Term {
	tc := g.p.w.tc
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			panic(abortf("compare %T with %T", x, y))
		}
		return tc.Eq(a, b)
	case string:
		if b, ok := y.(string); ok {
			return tc.Bool(a == b)
		}
		return g.equals(t, y, x)
	case *SymStr:
		if a.lazy != nil {
			if b, ok := y.(*SymStr); ok && b.lazy != nil && a.lazy.signed == b.lazy.signed {
				return tc.Eq(a.lazy.t, b.lazy.t)
			}
			if b, ok := y.(string); ok {
				// a decimal rendering equals b iff b is the canonical rendering of the value
				v, ok := parseCanonical(b, a.lazy.signed)
				if !ok {
					return tc.F
				}
				return tc.Eq(a.lazy.t, tc.Const(64, v))
			}
			if b, ok := y.(*SymStr); ok && b.lazy == nil {
				if v := g.decimal(b.b, a.lazy.signed); v != nil {
					return tc.Eq(a.lazy.t, v)
				}
			}
		}
		if b, ok := y.(*SymStr); ok && b.lazy != nil {
			return g.equals(t, y, x)
		}
		return g.bytesEq(g.strBytes(x), g.strBytes(y))
	case float64:
		return tc.Bool(a == y.(float64))
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			if _, ok := y.(*SymPtr); ok {
				return tc.F
			}
			panic(abortf("compare %T with %T", x, y))
		}
		return tc.Bool(a == b)
	case *ChanV:
		return tc.Bool(a == y.(*ChanV))
	case *MapV:
		return tc.Bool(a == y.(*MapV))
	case SliceV:
		b := y.(SliceV)
		if a != nil && b != nil {
			panic(abortf("comparison of slices"))
		}
		return tc.Bool((a == nil) == (b == nil))
	case *Closure:
		b := y.(*Closure)
		return tc.Bool(a == b)
	case StructV:
		b := y.(StructV)
		st := t.Underlying().(*types.Struct)
		var cs []*Term
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, g.equals(st.Field(i).Type(), a[i], b[i]))
		}
		return tc.BAndN(cs...)
	case ArrayV:
		b := y.(ArrayV)
		et := t.Underlying().(*types.Array).Elem()
		if len(a) == 0 {
			return tc.T
		}
		if _, ok := a[0].(*Term); ok {
			return g.bytesEqT(a, b)
		}
		var cs []*Term
		for i := range a {
			cs = append(cs, g.equals(et, a[i], b[i]))
		}
		return tc.BAndN(cs...)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			// comparison of interface with concrete value
			return g.equals(t, a, Iface{t, y})
		}
		if a.t == nil || b.t == nil {
			return tc.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return tc.F
		}
		if !types.Comparable(a.t) {
			g.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return g.equals(a.t, a.v, b.v)
	case nil:
		return tc.Bool(y == nil)
	}
	panic(abortf("comparison of %T", x))
}

func (g *G) bytesEqT(a, b []Value) *Term {
	tc := g.p.w.tc
	x, y := make([]*Term, len(a)), make([]*Term, len(a))
	for i := range a {
		x[i], y[i] = a[i].(*Term), b[i].(*Term)
	}
	if x[0].w == 0 {
		var cs []*Term
		for i := range x {
			cs = append(cs, tc.Eq(x[i], y[i]))
		}
		return tc.BAndN(cs...)
	}
	return tc.Eq(tc.Concat(x...), tc.Concat(y...))
}

func parseCanonical(s string, signed bool) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	neg := false
	d := s
	if s[0] == '-' {
		if !signed {
			return 0, false
		}
		neg = true
		d = s[1:]
	}
	if d == "" || (len(d) > 1 && d[0] == '0') || (neg && d == "0") {
		return 0, false
	}
	var v uint64
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return 0, false
		}
		x := uint64(d[i] - '0')
		if v > (math.MaxUint64-x)/10 {
			return 0, false
		}
		v = v*10 + x
	}
	if signed {
		if neg {
			if v > 1<<63 {
				return 0, false
			}
			return -v, true
		}
		if v > math.MaxInt64 {
			return 0, false
		}
	}
	return v, true
}

func (g *G) convert(from, to types.Type, x Value) Value {
	w := g.p.w
	tc := w.tc
	fu, tu := from.Underlying(), to.Underlying()
	fw, fs, fi := intInfo(fu)
	tw, ts, ti := intInfo(tu)
	switch {
	case fi && ti:
		t, ok := x.(*Term)
		if !ok {
			panic(abortf("conversion of %T to integer (unsafe?)", x))
		}
		_ = fw
		if tw <= t.w {
			return tc.Extract(t, tw-1, 0)
		}
		if fs {
			return tc.SExt(t, tw)
		}
		return tc.ZExt(t, tw)
	case fi && isFloat(tu):
		t := x.(*Term)
		if !t.isConst() {
			return Poison{"symbolic float"}
		}
		if fs {
			return roundF(tu, float64(signed(t)))
		}
		return roundF(tu, float64(t.v))
	case isFloat(fu) && ti:
		f := x.(float64)
		if ts {
			return tc.Const(tw, uint64(int64(f)))
		}
		return tc.Const(tw, uint64(f))
	case isFloat(fu) && isFloat(tu):
		return roundF(tu, x.(float64))
	case isString(tu):
		switch f := fu.(type) {
		case *types.Slice:
			s := x.(SliceV)
			if b, ok := f.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return w.mkStr(bytesToTerms(s))
			}
			var rs []rune
			for _, e := range s {
				t := e.(*Term)
				if !t.isConst() {
					panic(abortf("symbolic rune to string"))
				}
				rs = append(rs, rune(int32(t.v)))
			}
			return string(rs)
		case *types.Basic:
			if f.Info()&types.IsString != 0 {
				return x
			}
			if fi {
				t := x.(*Term)
				if !t.isConst() {
					if g.p.branch(tc.Ult(t, tc.Const(t.w, 0x80)), nil) {
						return w.mkStr([]*Term{tc.Extract(t, 7, 0)})
					}
					panic(abortf("symbolic non-ASCII rune to string"))
				}
				return string(rune(int64(signed(t))))
			}
		}
	case isString(fu):
		if sl, ok := tu.(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				s := termsToSlice(g.strBytes(x))
				if s == nil {
					s = SliceV{}
				}
				return s
			}
			s, ok := x.(string)
			if !ok {
				panic(abortf("symbolic string to runes"))
			}
			out := SliceV{}
			for _, r := range s {
				out = append(out, tc.Const(32, uint64(r)))
			}
			return out
		}
	}
	// pointers / unsafe.Pointer and other representation-preserving conversions
	switch x.(type) {
	case *Value, *SymPtr, *MapV, *ChanV, *Closure, Iface, SliceV, StructV, ArrayV:
		if _, isInt := x.(*Term); !isInt && ti {
			panic(abortf("pointer to integer conversion"))
		}
		return x
	}
	panic(abortf("conversion from %s to %s of %T", from, to, x))
}

func roundF(t types.Type, f float64) Value {
	if t.Underlying().(*types.Basic).Kind() == types.Float32 {
		return float64(float32(f))
	}
	return f
}

// ---- maps

func (g *G) mapFind(m *MapV, k Value, kt types.Type) int {
	if m == nil {
		return -1
	}
	if i, ok := k.(Iface); ok && i.t != nil {
		if !types.Comparable(i.t) {
			g.rtPanic("hash of unhashable type " + i.t.String())
		}
	}
	if ks, ok := concKey(k); ok {
		if i, ok := m.conc[ks]; ok {
			return i
		}
		for _, i := range m.sym {
			if !m.dead[i] && g.p.branch(g.equals(kt, m.keys[i], k), nil) {
				return i
			}
		}
		return -1
	}
	for i := range m.keys {
		if !m.dead[i] && g.p.branch(g.equals(kt, m.keys[i], k), nil) {
			return i
		}
	}
	return -1
}

func (g *G) mapGet(m *MapV, k Value, kt types.Type) (Value, bool) {
	i := g.mapFind(m, k, kt)
	if i < 0 {
		return nil, false
	}
	return m.vals[i], true
}

func (g *G) mapSet(m *MapV, k, v Value, kt types.Type) {
	i := g.mapFind(m, k, kt)
	if i >= 0 {
		m.vals[i] = v
		return
	}
	i = len(m.keys)
	m.keys = append(m.keys, copyVal(k))
	m.vals = append(m.vals, v)
	m.dead = append(m.dead, false)
	m.n++
	if ks, ok := concKey(k); ok {
		m.conc[ks] = i
	} else {
		m.sym = append(m.sym, i)
	}
}

func (g *G) mapDelete(m *MapV, k Value, kt types.Type) {
	i := g.mapFind(m, k, kt)
	if i < 0 {
		return
	}
	m.dead[i] = true
	m.n--
	if ks, ok := concKey(m.keys[i]); ok {
		delete(m.conc, ks)
	}
}

func (fr *Frame) next(in *ssa.Next) Value {
	g := fr.g
	tc := g.p.w.tc
	it := fr.get(in.Iter).(*RangeIter)
	if in.IsString {
		n := strLen(g, it.str)
		if it.spos >= n {
			return TupleV{tc.F, tc.Const(64, 0), tc.Const(32, 0)}
		}
		pos := it.spos
		if s, ok := it.str.(string); ok {
			var r rune
			sz := 0
			for i, x := range s[pos:] {
				if i > 0 {
					sz = i
					break
				}
				r = x
			}
			if sz == 0 {
				sz = len(s) - pos
			}
			it.spos += sz
			return TupleV{tc.T, tc.Const(64, uint64(pos)), tc.Const(32, uint64(r))}
		}
		b := g.strBytes(it.str)
		if !g.p.branch(tc.Ult(b[pos], tc.Const(8, 0x80)), nil) {
			pk := g.p.w.eng.prog.ImportedPackage("unicode/utf8")
			if pk == nil {
				panic(abortf("range over symbolic non-ASCII string"))
			}
			r := g.call(pk.Func("DecodeRuneInString"), []Value{g.p.w.mkStr(b[pos:])}, nil).(TupleV)
			it.spos += int(g.cint(r[1]))
			return TupleV{tc.T, tc.Const(64, uint64(pos)), r[0]}
		}
		it.spos++
		return TupleV{tc.T, tc.Const(64, uint64(pos)), tc.ZExt(b[pos], 32)}
	}
	m := it.m
	for m != nil && it.pos < len(m.keys) {
		i := it.pos
		it.pos++
		if !m.dead[i] {
			return TupleV{tc.T, copyVal(m.keys[i]), copyVal(m.vals[i])}
		}
	}
	return TupleV{tc.F, nil, nil}
}

// ---- builtins

func (fr *Frame) builtin(name string, args []Value, c *ssa.CallCommon) Value {
	g := fr.g
	w := g.p.w
	tc := w.tc
	switch name {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return tc.Const(64, uint64(strLen(g, x)))
		case SliceV:
			return tc.Const(64, uint64(len(x)))
		case ArrayV:
			return tc.Const(64, uint64(len(x)))
		case *MapV:
			if x == nil {
				return tc.Const(64, 0)
			}
			return tc.Const(64, uint64(x.n))
		case *ChanV:
			if x == nil {
				return tc.Const(64, 0)
			}
			return tc.Const(64, uint64(len(x.buf)))
		case *Value:
			return tc.Const(64, uint64(len((*x).(ArrayV))))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return tc.Const(64, uint64(cap(x)))
		case ArrayV:
			return tc.Const(64, uint64(len(x)))
		case *ChanV:
			if x == nil {
				return tc.Const(64, 0)
			}
			return tc.Const(64, uint64(x.cap))
		}
	case "append":
		s, _ := args[0].(SliceV)
		var add SliceV
		if len(args) < 2 {
			return s
		}
		switch y := args[1].(type) {
		case SliceV:
			add = y
		case string, *SymStr:
			add = termsToSlice(g.strBytes(y))
		default:
			panic(abortf("append of %T", y))
		}
		if len(add) == 0 {
			return s
		}
		need := len(s) + len(add)
		if need <= cap(s) {
			r := s[:need]
			// copy may overlap
			tmp := add
			if need > 0 {
				tmp = append(SliceV(nil), add...)
			}
			for i, e := range tmp {
				r[len(s)+i] = copyVal(e)
			}
			return r
		}
		nc := 2 * cap(s)
		if nc < need {
			nc = need
		}
		if nc < 8 && len(add) == 1 {
			nc = 4
			if nc < need {
				nc = need
			}
		}
		r := make(SliceV, nc)
		copy(r, s)
		for i, e := range add {
			r[len(s)+i] = copyVal(e)
		}
		if nc > need {
			w.fillZero(r[need:], c.Args[0].Type().Underlying().(*types.Slice).Elem())
		}
		return r[:need]
	case "copy":
		d := args[0].(SliceV)
		var s SliceV
		switch y := args[1].(type) {
		case SliceV:
			s = y
		case string, *SymStr:
			s = termsToSlice(g.strBytes(y))
		}
		n := min(len(d), len(s))
		if n > 0 {
			switch s[0].(type) {
			case StructV, ArrayV:
				tmp := make([]Value, n)
				for i := 0; i < n; i++ {
					tmp[i] = copyVal(s[i])
				}
				copy(d, tmp)
			default:
				copy(d[:n], s[:n])
			}
		}
		return tc.Const(64, uint64(n))
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			g.mapDelete(m, args[1], c.Args[0].Type().Underlying().(*types.Map).Key())
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				*x = *newMap()
			}
		case SliceV:
			w.fillZero(x, c.Args[0].Type().Underlying().(*types.Slice).Elem())
		}
		return nil
	case "close":
		ch := args[0].(*ChanV)
		if ch == nil {
			g.rtPanic("close of nil channel")
		}
		if ch.closed {
			panic(targetPanic{Iface{types.Typ[types.String], "close of closed channel"}})
		}
		ch.closed = true
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// the frame calling recover is a deferred call of a panicking frame
		if c := fr.caller; c != nil && c.panicking && len(fr.defers) == len(fr.defers) {
			c.panicking = false
			v := c.panic.v
			if _, ok := v.(Iface); !ok {
				v = Iface{types.Typ[types.String], fmt.Sprint(v)}
			}
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			switch a := r.(type) {
			case *Term:
				_, signed, _ := intInfo(c.Args[0].Type())
				b := y.(*Term)
				var lt *Term
				if signed {
					lt = tc.Slt(a, b)
				} else {
					lt = tc.Ult(a, b)
				}
				if name == "min" {
					r = tc.Ite(lt, a, b)
				} else {
					r = tc.Ite(lt, b, a)
				}
			case float64:
				if name == "min" {
					r = math.Min(a, y.(float64))
				} else {
					r = math.Max(a, y.(float64))
				}
			default:
				panic(abortf("min/max of %T", r))
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			g.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "Data", "SliceData":
		// unsafe.SliceData
		if s, ok := args[0].(SliceV); ok && name == "SliceData" {
			if len(s) == 0 {
				return (*Value)(nil)
			}
			return &s[0]
		}
	case "String", "Slice", "StringData", "Add":
		panic(abortf("unsafe.%s in %s", name, fr.fn))
	}
	panic(abortf("builtin %s(%T...) in %s", name, args[0], fr.fn))
}

// stepProfile samples where steps are spent (GOSYM_STEPS).
type stepProfile struct {
	mu         sync.Mutex
	incl, self map[string]int
}

var stepProf *stepProfile

func (s *stepProfile) sample(g *G) {
	s.mu.Lock()
	defer s.mu.Unlock()
	seen := map[string]bool{}
	for f := g.fr; f != nil; f = f.caller {
		n := fnName(f.fn)
		if f == g.fr {
			s.self[n]++
		}
		if !seen[n] {
			seen[n] = true
			s.incl[n]++
		}
	}
}
