package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// JSON texts are real texts: sequences of byte terms.  Two kinds of symbolic bytes occur in texts produced by
// the model: base64/hex characters of symbolic data, and one pseudo byte "H!jsonnum"(t) standing for the decimal
// rendering of the symbolic integer t.

const jsonNum = "H!jsonnum"

type JNode struct {
	kind     byte // n b i s a o
	b        bool
	num      *Term  // symbolic number
	lit      string // literal number
	str      []*Term
	arr      []*JNode
	keys     []string
	raw      []*Term
}

type jenc struct {
	g   *G
	out []*Term
}

func (e *jenc) s(s string) {
	sm := e.g.p.w.tc.small[8]
	for i := 0; i < len(s); i++ {
		e.out = append(e.out, sm[s[i]])
	}
}

func (g *G) b64Terms(ts []*Term) []*Term {
	tc := g.p.w.tc
	if allConst(ts) {
		s := base64.StdEncoding.EncodeToString(concBytes(ts))
		return g.strBytes(s)
	}
	var out []*Term
	for i := 0; i < len(ts); i += 3 {
		n := min(3, len(ts)-i)
		q := make([]*Term, 3)
		for k := range q {
			if k < n {
				q[k] = ts[i+k]
			} else {
				q[k] = tc.Const(8, 0)
			}
		}
		v := tc.Concat(q...)
		for k := 0; k < 4; k++ {
			if k > n {
				out = append(out, tc.Const(8, '='))
				continue
			}
			hi := int32(23 - 6*k)
			six := tc.Extract(v, hi, hi-5)
			if t := g.p.b64src[six]; t != nil {
				out = append(out, t)
				continue
			}
			out = append(out, tc.B64C(six))
		}
	}
	return out
}

// b64Decode inverts base64; ok=false if the text is not valid, unk if it cannot be decided.
func (g *G) b64Decode(b []*Term) (out []*Term, ok bool, unk bool) {
	tc := g.p.w.tc
	if allConst(b) {
		d, err := base64.StdEncoding.DecodeString(string(concBytes(b)))
		if err != nil {
			return nil, false, false
		}
		return bytesToTerms(g.p.w.constBytes(d)), true, false
	}
	if len(b)%4 != 0 {
		return nil, false, true
	}
	for i := 0; i < len(b); i += 4 {
		var six []*Term
		pad := 0
		for k := 0; k < 4; k++ {
			t := b[i+k]
			switch {
			case t.op == OB64:
				if pad > 0 {
					return nil, false, false
				}
				six = append(six, t.a[0])
			case t.isConst():
				if t.v == '=' {
					if i+4 != len(b) || k < 2 {
						return nil, false, false
					}
					pad++
					six = append(six, tc.Const(6, 0))
					continue
				}
				x := strings.IndexByte(b64Alpha, byte(t.v))
				if x < 0 || pad > 0 {
					return nil, false, t.v == '\n' || t.v == '\r'
				}
				six = append(six, tc.Const(6, uint64(x)))
			default:
				return nil, false, true
			}
		}
		v := tc.Concat(six...)
		bs := []*Term{tc.Extract(v, 23, 16), tc.Extract(v, 15, 8), tc.Extract(v, 7, 0)}
		out = append(out, bs[:3-pad]...)
	}
	return out, true, false
}

func (g *G) hasMethod(t types.Type, name string) *ssa.Function {
	return g.p.w.method(t, nil, name)
}

func (e *jenc) encode(t types.Type, v Value, addr *Value) Iface {
	g := e.g
	none := Iface{}
	// custom marshalers
	if f := g.hasMethod(t, "MarshalJSON"); f != nil {
		if p, ok := v.(*Value); ok && p == nil {
			e.s("null")
			return none
		}
		return e.custom(f, v)
	}
	if addr != nil {
		if f := g.hasMethod(types.NewPointer(t), "MarshalJSON"); f != nil {
			return e.custom(f, addr)
		}
	}
	if f := g.hasMethod(t, "MarshalText"); f != nil {
		panic(abortf("json: MarshalText of %s", t))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w, sgn, ok := intInfo(u)
		if ok {
			x := v.(*Term)
			if w == 0 {
				if !x.isConst() {
					if g.p.branch(x, nil) {
						e.s("true")
					} else {
						e.s("false")
					}
					return none
				}
				e.s(strconv.FormatBool(x.v == 1))
				return none
			}
			if x.isConst() {
				if sgn {
					e.s(strconv.FormatInt(signed(x), 10))
				} else {
					e.s(strconv.FormatUint(x.v, 10))
				}
				return none
			}
			tc := g.p.w.tc
			if sgn {
				x = tc.SExt(x, 64)
				if !g.p.branch(tc.Sle(tc.Const(64, 0), x), nil) {
					panic(abortf("json: symbolic negative number"))
				}
			} else {
				x = tc.ZExt(x, 64)
			}
			e.out = append(e.out, tc.UF(8, jsonNum, x))
			return none
		}
		if isString(u) {
			if s, ok := concStr(v); ok {
				b, _ := json.Marshal(s)
				e.s(string(b))
				return none
			}
			e.s(`"`)
			for _, c := range g.strBytes(v) {
				if !safeChar(c) {
					if !c.isConst() && !g.p.branch(g.safeCond(c), nil) {
						panic(abortf("json: string with symbolic special character"))
					}
					if c.isConst() && (c.v == '"' || c.v == '\\' || c.v < 32 || c.v > 126 || c.v == '<' || c.v == '>' || c.v == '&') {
						panic(abortf("json: special character in symbolic string"))
					}
				}
				e.out = append(e.out, c)
			}
			e.s(`"`)
			return none
		}
		if f, ok := v.(float64); ok {
			b, err := json.Marshal(f)
			if err != nil {
				return g.mkErr("json: unsupported value").(Iface)
			}
			e.s(string(b))
			return none
		}
	case *types.Slice:
		s := v.(SliceV)
		if s == nil {
			e.s("null")
			return none
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && g.hasMethod(types.NewPointer(u.Elem()), "MarshalJSON") == nil {
			e.s(`"`)
			e.out = append(e.out, g.b64Terms(bytesToTerms(s))...)
			e.s(`"`)
			return none
		}
		e.s("[")
		for i := range s {
			if i > 0 {
				e.s(",")
			}
			if err := e.encode(u.Elem(), s[i], &s[i]); err.t != nil {
				return err
			}
		}
		e.s("]")
		return none
	case *types.Array:
		s := v.(ArrayV)
		e.s("[")
		for i := range s {
			if i > 0 {
				e.s(",")
			}
			if err := e.encode(u.Elem(), s[i], nil); err.t != nil {
				return err
			}
		}
		e.s("]")
		return none
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			e.s("null")
			return none
		}
		return e.encode(u.Elem(), *p, p)
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			e.s("null")
			return none
		}
		return e.encode(i.t, i.v, nil)
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			e.s("null")
			return none
		}
		type kv struct {
			k string
			i int
		}
		var ks []kv
		for i := range m.keys {
			if m.dead[i] {
				continue
			}
			ks = append(ks, kv{g.str(m.keys[i]), i})
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].k < ks[j].k })
		e.s("{")
		for n, k := range ks {
			if n > 0 {
				e.s(",")
			}
			b, _ := json.Marshal(k.k)
			e.s(string(b) + ":")
			if err := e.encode(u.Elem(), m.vals[k.i], nil); err.t != nil {
				return err
			}
		}
		e.s("}")
		return none
	case *types.Struct:
		st := v.(StructV)
		e.s("{")
		first := true
		for _, f := range jsonFields(u) {
			fv := st[f.idx]
			if f.omit && g.jsonEmpty(fv) {
				continue
			}
			if !first {
				e.s(",")
			}
			first = false
			b, _ := json.Marshal(f.name)
			e.s(string(b) + ":")
			if f.quoted {
				panic(abortf("json: string option"))
			}
			var a *Value
			if addr != nil {
				a = &st[f.idx]
			}
			if err := e.encode(f.t, fv, a); err.t != nil {
				return err
			}
		}
		e.s("}")
		return none
	case *types.Chan, *types.Signature:
		return g.mkErr("json: unsupported type: " + t.String()).(Iface)
	}
	panic(abortf("json: encoding %s", t))
}

func (g *G) jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case *Term:
		return g.p.branch(g.p.w.tc.Eq(x, g.p.w.tc.Const(x.w, 0)), nil)
	case string, *SymStr:
		return strLen(g, x) == 0
	case SliceV:
		return len(x) == 0
	case *MapV:
		return x == nil || x.n == 0
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	case ArrayV:
		return len(x) == 0
	case float64:
		return x == 0
	}
	return false
}

func (e *jenc) custom(f *ssa.Function, recv Value) Iface {
	r := e.g.call(f, []Value{copyVal(recv)}, nil).(TupleV)
	if err := r[1].(Iface); err.t != nil {
		return err
	}
	b := bytesToTerms(r[0].(SliceV))
	if allConst(b) && !json.Valid(concBytes(b)) {
		return e.g.mkErr("json: error calling MarshalJSON").(Iface)
	}
	e.out = append(e.out, b...)
	return Iface{}
}

type jfield struct {
	name   string
	idx    int
	t      types.Type
	omit   bool
	quoted bool
}

func jsonFields(st *types.Struct) []jfield {
	var out []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		if f.Embedded() && tag == "" {
			panic(abortf("json: embedded field %s", f.Name()))
		}
		if !f.Exported() {
			continue
		}
		parts := strings.Split(tag, ",")
		jf := jfield{name: parts[0], idx: i, t: f.Type()}
		if jf.name == "" {
			jf.name = f.Name()
		}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				jf.omit = true
			case "string":
				jf.quoted = true
			}
		}
		out = append(out, jf)
	}
	return out
}

// safeChar: provably not special inside a JSON string.
func safeChar(c *Term) bool { return c.op == OB64 || c.op == OHex }

func (g *G) safeCond(c *Term) *Term {
	tc := g.p.w.tc
	k := func(x byte) *Term { return tc.BNot(tc.Eq(c, tc.Const(8, uint64(x)))) }
	return tc.BAndN(tc.Ule(tc.Const(8, 32), c), tc.Ult(c, tc.Const(8, 127)), k('"'), k('\\'), k('<'), k('>'), k('&'))
}

// ---- parsing

type jparse struct {
	g   *G
	b   []*Term
	pos int
}

type jsonErr struct{ msg string }

func (p *jparse) fail(f string, a ...any) { panic(jsonErr{fmt.Sprintf(f, a...)}) }

func (p *jparse) peek() int {
	if p.pos >= len(p.b) {
		p.fail("unexpected end of JSON input")
	}
	t := p.b[p.pos]
	if !t.isConst() {
		if t.op == OUF && t.name == jsonNum {
			return -2
		}
		if safeChar(t) {
			// outside strings, a hexadecimal or base64 character could be a digit
			panic(abortf("json: symbolic character outside a string"))
		}
		panic(abortf("json: symbolic text"))
	}
	return int(t.v)
}

func (p *jparse) ws() {
	for p.pos < len(p.b) && p.b[p.pos].isConst() && strings.IndexByte(" \t\r\n", byte(p.b[p.pos].v)) >= 0 {
		p.pos++
	}
}

func (p *jparse) value() *JNode {
	p.ws()
	st := p.pos
	n := &JNode{}
	c := p.peek()
	switch {
	case c == -2:
		n.kind = 'i'
		n.num = p.b[p.pos].a[0]
		p.pos++
	case c == '{':
		n.kind = 'o'
		p.pos++
		p.ws()
		if p.peek() == '}' {
			p.pos++
			break
		}
		for {
			p.ws()
			if p.peek() != '"' {
				p.fail("invalid character looking for object key")
			}
			k := p.str()
			if !allConst(k) {
				panic(abortf("json: symbolic object key"))
			}
			p.ws()
			if p.peek() != ':' {
				p.fail("invalid character after object key")
			}
			p.pos++
			n.keys = append(n.keys, string(concBytes(k)))
			n.arr = append(n.arr, p.value())
			p.ws()
			x := p.peek()
			p.pos++
			if x == '}' {
				break
			}
			if x != ',' {
				p.fail("invalid character after object key:value pair")
			}
		}
	case c == '[':
		n.kind = 'a'
		p.pos++
		p.ws()
		if p.peek() == ']' {
			p.pos++
			break
		}
		for {
			n.arr = append(n.arr, p.value())
			p.ws()
			x := p.peek()
			p.pos++
			if x == ']' {
				break
			}
			if x != ',' {
				p.fail("invalid character after array element")
			}
		}
	case c == '"':
		n.kind = 's'
		n.str = p.str()
	default:
		e := p.pos
		for e < len(p.b) && p.b[e].isConst() && strings.IndexByte("+-.0123456789abcdefghijklmnopqrstuvwxyzE", byte(p.b[e].v)) >= 0 {
			e++
		}
		lit := string(concBytes(p.b[p.pos:e]))
		if lit == "" || !json.Valid([]byte(lit)) {
			p.fail("invalid character looking for beginning of value")
		}
		p.pos = e
		switch lit {
		case "null":
			n.kind = 'n'
		case "true", "false":
			n.kind = 'b'
			n.b = lit == "true"
		default:
			n.kind = 'i'
			n.lit = lit
		}
	}
	n.raw = p.b[st:p.pos]
	return n
}

func (p *jparse) str() []*Term {
	p.pos++
	st := p.pos
	esc := false
	for {
		if p.pos >= len(p.b) {
			p.fail("unexpected end of JSON input")
		}
		t := p.b[p.pos]
		if !t.isConst() {
			if !safeChar(t) && !p.g.p.branch(p.g.safeCond(t), nil) {
				panic(abortf("json: symbolic special character in string"))
			}
			p.pos++
			continue
		}
		if t.v == '"' {
			break
		}
		if t.v < 32 {
			p.fail("invalid character in string literal")
		}
		if t.v == '\\' {
			esc = true
			p.pos++
		}
		if t.v >= 0x80 {
			esc = true
		}
		p.pos++
	}
	s := p.b[st:p.pos]
	p.pos++
	if esc {
		if !allConst(s) {
			panic(abortf("json: escapes in symbolic string"))
		}
		var out string
		if json.Unmarshal([]byte("\""+string(concBytes(s))+"\""), &out) != nil {
			p.fail("invalid string literal")
		}
		return p.g.strBytes(out)
	}
	return s
}

// jsonNext parses the first JSON value of b: end is where it ends, short tells that b ends within it.
func (g *G) jsonNext(b []*Term) (n *JNode, end int, short bool, errMsg string) {
	p := &jparse{g: g, b: b}
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				n, short, errMsg = nil, p.pos >= len(b), je.msg
				return
			}
			panic(r)
		}
	}()
	n = p.value()
	if allConst(n.raw) {
		var x any
		if err := json.Unmarshal(concBytes(n.raw), &x); err != nil {
			if _, ok := err.(*json.SyntaxError); ok {
				return nil, 0, false, err.Error()
			}
		}
	}
	return n, p.pos, false, ""
}

func (g *G) jsonParse(b []*Term) (n *JNode, errMsg string) {
	if allConst(b) {
		var x any
		if err := json.Unmarshal(concBytes(b), &x); err != nil {
			if _, ok := err.(*json.SyntaxError); ok {
				return nil, err.Error()
			}
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				n, errMsg = nil, je.msg
				return
			}
			panic(r)
		}
	}()
	p := &jparse{g: g, b: b}
	n = p.value()
	p.ws()
	if p.pos != len(b) {
		p.fail("invalid character after top-level value")
	}
	return n, ""
}

type jdec struct {
	g      *G
	err    Iface
	strict bool // unknown fields are errors
}

func (d *jdec) mismatch(n *JNode, t types.Type) {
	if d.err.t == nil {
		k := map[byte]string{'s': "string", 'i': "number", 'b': "bool", 'a': "array", 'o': "object"}[n.kind]
		d.err = d.g.mkErr("json: cannot unmarshal " + k + " into Go value of type " + t.String()).(Iface)
	}
}

// decode assigns node n to the variable at addr; it reports a hard error from an UnmarshalJSON method.
func (d *jdec) decode(n *JNode, t types.Type, addr *Value) {
	g := d.g
	w := g.p.w
	if _, isPtr := t.Underlying().(*types.Pointer); !isPtr || n.kind != 'n' {
		if f := g.hasMethod(types.NewPointer(t), "UnmarshalJSON"); f != nil {
			if _, isI := t.Underlying().(*types.Interface); !isI {
				r := g.call(f, []Value{addr, termsToSlice(n.raw)}, nil).(Iface)
				if r.t != nil && d.err.t == nil {
					d.err = r
				}
				return
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n.kind == 'n' {
			*addr = (*Value)(nil)
			return
		}
		p := (*addr).(*Value)
		if p == nil {
			v := w.zero(u.Elem())
			p = &v
			*addr = p
		}
		d.decode(n, u.Elem(), p)
		return
	case *types.Interface:
		if n.kind == 'n' {
			*addr = Iface{}
			return
		}
		panic(abortf("json: decoding into interface"))
	case *types.Slice:
		switch n.kind {
		case 'n':
			*addr = SliceV(nil)
		case 's':
			if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
				d.mismatch(n, t)
				return
			}
			out, ok, unk := g.b64Decode(n.str)
			if unk {
				panic(abortf("json: base64 of symbolic text"))
			}
			if !ok {
				if d.err.t == nil {
					d.err = g.mkErr("illegal base64 data").(Iface)
				}
				return
			}
			s := termsToSlice(out)
			if s == nil {
				s = SliceV{}
			}
			*addr = s
		case 'a':
			s := make(SliceV, len(n.arr))
			old, _ := (*addr).(SliceV)
			for i := range s {
				s[i] = w.zero(u.Elem())
				if i < len(old) {
					s[i] = copyVal(old[i])
				}
				d.decode(n.arr[i], u.Elem(), &s[i])
			}
			*addr = s
		default:
			d.mismatch(n, t)
		}
		return
	case *types.Array:
		switch n.kind {
		case 'n':
		case 'a':
			a := (*addr).(ArrayV)
			for i := range a {
				if i < len(n.arr) {
					d.decode(n.arr[i], u.Elem(), &a[i])
				} else {
					a[i] = w.zero(u.Elem())
				}
			}
		default:
			d.mismatch(n, t)
		}
		return
	case *types.Map:
		switch n.kind {
		case 'n':
			*addr = (*MapV)(nil)
		case 'o':
			m := (*addr).(*MapV)
			if m == nil {
				m = newMap()
				*addr = m
			}
			for i, k := range n.keys {
				v := w.zero(u.Elem())
				d.decode(n.arr[i], u.Elem(), &v)
				g.mapSet(m, k, v, u.Key())
			}
		default:
			d.mismatch(n, t)
		}
		return
	case *types.Struct:
		switch n.kind {
		case 'n':
		case 'o':
			st := (*addr).(StructV)
			fs := jsonFields(u)
			for i, k := range n.keys {
				best := -1
				for j, f := range fs {
					if f.name == k {
						best = j
						break
					}
					if best < 0 && strings.EqualFold(f.name, k) {
						best = j
					}
				}
				if best < 0 {
					if d.strict && d.err.t == nil {
						d.err = g.mkErr("json: unknown field " + k).(Iface)
					}
					continue
				}
				if fs[best].quoted {
					panic(abortf("json: string option"))
				}
				d.decode(n.arr[i], fs[best].t, &st[fs[best].idx])
			}
		default:
			d.mismatch(n, t)
		}
		return
	case *types.Basic:
		if n.kind == 'n' {
			return
		}
		wd, sgn, ok := intInfo(u)
		switch {
		case ok && wd == 0:
			if n.kind != 'b' {
				d.mismatch(n, t)
				return
			}
			*addr = w.tc.Bool(n.b)
		case ok:
			if n.kind != 'i' {
				d.mismatch(n, t)
				return
			}
			if n.num != nil {
				lim := uint64(1)<<63 - 1
				if !sgn {
					lim = ^uint64(0)
				}
				if wd < 64 {
					lim = 1<<uint(wd) - 1
					if sgn {
						lim >>= 1
					}
				}
				if !g.p.branch(w.tc.Ule(n.num, w.tc.Const(64, lim)), nil) {
					d.mismatch(n, t)
					return
				}
				*addr = w.tc.Extract(n.num, wd-1, 0)
				return
			}
			if sgn {
				x, err := strconv.ParseInt(n.lit, 10, int(wd))
				if err != nil {
					d.mismatch(n, t)
					return
				}
				*addr = w.tc.Const(wd, uint64(x))
			} else {
				x, err := strconv.ParseUint(n.lit, 10, int(wd))
				if err != nil {
					d.mismatch(n, t)
					return
				}
				*addr = w.tc.Const(wd, x)
			}
		case isString(u):
			if n.kind != 's' {
				d.mismatch(n, t)
				return
			}
			*addr = w.mkStr(n.str)
		case isFloat(u):
			if n.kind != 'i' {
				d.mismatch(n, t)
				return
			}
			if n.num != nil {
				panic(abortf("json: symbolic float"))
			}
			f, _ := strconv.ParseFloat(n.lit, 64)
			*addr = f
		default:
			panic(abortf("json: decoding into %s", t))
		}
		return
	}
	panic(abortf("json: decoding into %s", t))
}

func regJSON(reg func(f Intrinsic, names ...string)) {
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		e := &jenc{g: g}
		if i.t == nil {
			e.s("null")
		} else if err := e.encode(i.t, i.v, nil); err.t != nil {
			return TupleV{SliceV(nil), err}
		}
		return TupleV{termsToSlice(e.out), Iface{}}
	}, "encoding/json.Marshal")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		n, msg := g.jsonParse(bytesToTerms(a[0].(SliceV)))
		if n == nil {
			return g.mkErr(msg)
		}
		i := a[1].(Iface)
		pt, ok := i.t.(*types.Pointer)
		if !ok {
			return g.mkErr("json: Unmarshal(non-pointer)")
		}
		d := &jdec{g: g}
		d.decode(n, pt.Elem(), ptr(i.v))
		return d.err
	}, "encoding/json.Unmarshal")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		n, _ := g.jsonParse(bytesToTerms(a[0].(SliceV)))
		return g.p.w.tc.Bool(n != nil)
	}, "encoding/json.Valid")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		dt := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		dec := (*ptr(a[0])).(StructV)
		if e := dec[fieldIx(dt, "err")].(Iface); e.t != nil {
			return e
		}
		if g.cint(dec[fieldIx(dt, "tokenState")]) != 0 {
			panic(abortf("json: Decode after Token"))
		}
		dst := dt.Field(fieldIx(dt, "d")).Type().Underlying().(*types.Struct)
		ds := dec[fieldIx(dt, "d")].(StructV)
		if t := ds[fieldIx(dst, "useNumber")].(*Term); !t.isConst() || t.v != 0 {
			panic(abortf("json: UseNumber"))
		}
		strict := ds[fieldIx(dst, "disallowUnknownFields")].(*Term)
		buf, scanp := fieldIx(dt, "buf"), fieldIx(dt, "scanp")
		// the real decoder stops reading at the end of the value, which nothing but the reader can tell
		io := g.p.w.eng.prog.ImportedPackage("io")
		r := g.call(io.Func("ReadAll"), []Value{copyVal(dec[fieldIx(dt, "r")])}, nil).(TupleV)
		rerr := r[1].(Iface)
		old, _ := dec[buf].(SliceV)
		b := bytesToTerms(old)
		b = append(append([]*Term(nil), b[g.cint(dec[scanp]):]...), bytesToTerms(r[0].(SliceV))...)
		n, end, short, msg := g.jsonNext(b)
		if n == nil {
			var e Value
			switch {
			case short && rerr.t != nil:
				e = rerr
			case short:
				blank := true
				for _, t := range b {
					blank = blank && t.isConst() && strings.IndexByte(" \t\r\n", byte(t.v)) >= 0
				}
				nm := "ErrUnexpectedEOF"
				if blank {
					nm = "EOF"
				}
				e = copyVal(*ptr(g.p.global(g, io.Var(nm))))
			default:
				e = g.mkErr(msg)
			}
			dec[fieldIx(dt, "err")] = e
			return e
		}
		dec[buf] = termsToSlice(b)
		dec[scanp] = g.p.w.tc.Const(64, uint64(end))
		i := a[1].(Iface)
		pt, ok := i.t.(*types.Pointer)
		if !ok {
			return g.mkErr("json: Unmarshal(non-pointer)")
		}
		d := &jdec{g: g, strict: !strict.isConst() || strict.v != 0}
		d.decode(n, pt.Elem(), ptr(i.v))
		return d.err
	}, "(*encoding/json.Decoder).Decode")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		et := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		enc := (*ptr(a[0])).(StructV)
		errIx := fieldIx(et, "err")
		if e := enc[errIx].(Iface); e.t != nil {
			return e
		}
		if g.str(enc[fieldIx(et, "indentPrefix")]) != "" || g.str(enc[fieldIx(et, "indentValue")]) != "" {
			panic(abortf("json: SetIndent"))
		}
		if t := enc[fieldIx(et, "escapeHTML")].(*Term); !t.isConst() || t.v == 0 {
			panic(abortf("json: SetEscapeHTML"))
		}
		i := a[1].(Iface)
		e := &jenc{g: g}
		if i.t == nil {
			e.s("null")
		} else if err := e.encode(i.t, i.v, nil); err.t != nil {
			return err
		}
		e.s("\n")
		w := enc[fieldIx(et, "w")].(Iface)
		if w.t == nil {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		r := g.call(g.p.w.method(w.t, nil, "Write"), []Value{copyVal(w.v), termsToSlice(e.out)}, nil).(TupleV)
		if err := r[1].(Iface); err.t != nil {
			enc[errIx] = err
		}
		return r[1]
	}, "(*encoding/json.Encoder).Encode")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		st := (*ptr(a[0])).(StructV)
		if !isStdB64(st) {
			return notHandled{}
		}
		return g.p.w.mkStr(g.b64Terms(bytesToTerms(a[1].(SliceV))))
	}, "(*encoding/base64.Encoding).EncodeToString")
	reg(func(g *G, fn *ssa.Function, a []Value) Value {
		st := (*ptr(a[0])).(StructV)
		if !isStdB64(st) {
			return notHandled{}
		}
		b := g.strBytes(a[1])
		if allConst(b) {
			if d, err := base64.StdEncoding.DecodeString(string(concBytes(b))); err == nil {
				return TupleV{g.p.w.constBytes(d), Iface{}}
			}
			return notHandled{}
		}
		if out, ok, unk := g.b64Decode(b); ok && !unk {
			return TupleV{termsToSlice(out), Iface{}}
		}
		// decide what kind of character each arbitrary byte is
		tc := g.p.w.tc
		in := func(t *Term, lo, hi byte) *Term {
			return tc.BAnd(tc.Ule(tc.Const(8, uint64(lo)), t), tc.Ule(t, tc.Const(8, uint64(hi))))
		}
		bad := TupleV{SliceV(nil), g.mkErr("illegal base64 data")}
		var text []*Term
		for _, t := range b {
			if t.op == OB64 {
				text = append(text, t)
				continue
			}
			is := func(c byte) *Term { return tc.Eq(t, tc.Const(8, uint64(c))) }
			up, low, dig := in(t, 'A', 'Z'), in(t, 'a', 'z'), in(t, '0', '9')
			alpha := tc.BOr(tc.BOr(tc.BOr(up, low), tc.BOr(dig, is('+'))), is('/'))
			switch {
			case g.p.branch(alpha, nil):
				if !t.isConst() {
					v := tc.Ite(up, tc.Sub(t, tc.Const(8, 'A')), tc.Ite(low, tc.Sub(t, tc.Const(8, 'a'-26)), tc.Ite(dig, tc.Add(t, tc.Const(8, 4)), tc.Ite(is('+'), tc.Const(8, 62), tc.Const(8, 63)))))
					six := tc.Extract(v, 5, 0)
					if g.p.b64src == nil {
						g.p.b64src = map[*Term]*Term{}
					}
					g.p.b64src[six] = t
					t = tc.B64C(six)
				}
				text = append(text, t)
			case g.p.branch(tc.BOr(is('\n'), is('\r')), nil):
			case g.p.branch(is('='), nil):
				text = append(text, tc.Const(8, '='))
			default:
				return bad
			}
		}
		if len(text)%4 != 0 {
			return bad
		}
		out, ok, unk := g.b64Decode(text)
		if unk {
			panic(abortf("base64 of symbolic text"))
		}
		if !ok {
			return bad
		}
		return TupleV{termsToSlice(out), Iface{}}
	}, "(*encoding/base64.Encoding).DecodeString")
}

func fieldIx(t *types.Struct, name string) int {
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			return i
		}
	}
	panic(abortf("json: no field %s", name))
}

func isStdB64(st StructV) bool {
	a, ok := st[0].(ArrayV)
	if !ok || len(a) != 64 {
		return false
	}
	for i, e := range a {
		t, ok := e.(*Term)
		if !ok || !t.isConst() || byte(t.v) != b64Alpha[i] {
			return false
		}
	}
	// padding character
	for _, f := range st[1:] {
		if t, ok := f.(*Term); ok && t.w == 32 {
			return t.isConst() && t.v == '='
		}
	}
	return false
}
