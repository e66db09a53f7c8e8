package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The reflection based encoder github.com/google/certificate-transparency-go/tls, driven by the static types.

const ctTLS = "github.com/google/certificate-transparency-go/tls"

type tlsInfo struct {
	count    int
	countSet bool
	min, max uint64
	selector string
	val      uint64
	name     string
}

func tlsTag(tag, name string) *tlsInfo {
	in := &tlsInfo{name: name}
	for _, part := range strings.Split(tag, ",") {
		switch {
		case strings.HasPrefix(part, "maxval:"):
			v, _ := strconv.ParseUint(part[7:], 10, 64)
			in.count, in.countSet = byteCount(v), true
		case strings.HasPrefix(part, "size:"):
			v, _ := strconv.ParseUint(part[5:], 10, 32)
			in.count, in.countSet = int(v), true
		case strings.HasPrefix(part, "maxlen:"):
			v, _ := strconv.ParseUint(part[7:], 10, 64)
			in.max = v
			in.count, in.countSet = byteCount(v), true
		case strings.HasPrefix(part, "minlen:"):
			v, _ := strconv.ParseUint(part[7:], 10, 64)
			in.min = v
		case strings.HasPrefix(part, "selector:"):
			in.selector = part[9:]
		case strings.HasPrefix(part, "val:"):
			v, _ := strconv.ParseUint(part[4:], 10, 64)
			in.val = v
		}
	}
	return in
}

func byteCount(x uint64) int {
	n := 1
	for x >= 256 {
		x >>= 8
		n++
	}
	return n
}

type tlsErr struct{ msg string }

func isTLSType(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == ctTLS
}

func (g *G) be(t *Term, n int) []*Term {
	tc := g.p.w.tc
	out := make([]*Term, n)
	for i := range out {
		k := int32(n - 1 - i)
		if k*8 >= t.w {
			out[i] = tc.Const(8, 0)
		} else {
			out[i] = tc.Extract(t, k*8+7, k*8)
		}
	}
	return out
}

func (g *G) tlsMarshal(t types.Type, v Value, in *tlsInfo) []*Term {
	tc := g.p.w.tc
	u := t.Underlying()
	if b, ok := u.(*types.Basic); ok {
		x, isT := v.(*Term)
		if !isT {
			panic(tlsErr{"unsupported type"})
		}
		_, named := types.Unalias(t).(*types.Named)
		switch {
		case isTLSType(t, "Uint24"):
			if !g.p.branch(tc.Ule(x, tc.Const(x.w, 0xffffff)), nil) {
				panic(tlsErr{"uint24 overflow"})
			}
			return g.be(x, 3)
		case !named && (b.Kind() == types.Uint8 || b.Kind() == types.Uint16 || b.Kind() == types.Uint32 || b.Kind() == types.Uint64):
			return g.be(x, int(x.w/8))
		case named && b.Kind() == types.Uint64:
			if in == nil {
				panic(tlsErr{"enum field tag missing"})
			}
			if !in.countSet {
				panic(tlsErr{"tag missing count"})
			}
			if in.max > 0 {
				panic(abortf("tls: enum with length bounds"))
			}
			if in.count < 8 && !g.p.branch(tc.Ult(x, tc.Const(64, 1<<uint(8*in.count))), nil) {
				panic(tlsErr{"value too large"})
			}
			return g.be(x, in.count)
		}
		panic(tlsErr{"unsupported type " + t.String()})
	}
	switch u := u.(type) {
	case *types.Struct:
		st := v.(StructV)
		var out []*Term
		enums := map[string]*Term{}
		seen := map[string]bool{}
		for i := range st {
			f := u.Field(i)
			fi := tlsTag(reflect.StructTag(u.Tag(i)).Get("tls"), f.Name())
			src, ft := st[i], f.Type()
			if fi.selector != "" {
				c, ok := enums[fi.selector]
				if !ok {
					panic(tlsErr{"selector not seen"})
				}
				p, ok := src.(*Value)
				if !ok {
					panic(tlsErr{"choice field not a pointer type"})
				}
				if _, ok := seen[fi.selector]; !ok {
					seen[fi.selector] = false
				}
				if !g.p.branch(tc.Eq(c, tc.Const(c.w, fi.val)), nil) {
					if p != nil {
						panic(tlsErr{"unchosen field is non-nil"})
					}
					continue
				}
				if seen[fi.selector] {
					panic(tlsErr{"duplicate selector value"})
				}
				seen[fi.selector] = true
				if p == nil {
					panic(tlsErr{"chosen field is nil"})
				}
				src, ft = *p, ft.Underlying().(*types.Pointer).Elem()
			}
			out = append(out, g.tlsMarshal(ft, src, fi)...)
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
				enums[f.Name()] = st[i].(*Term)
			}
		}
		for _, s := range seen {
			if !s {
				panic(tlsErr{"unhandled value for selector"})
			}
		}
		return out
	case *types.Array:
		if b, ok := u.Elem().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
				panic(tlsErr{"unsupported array type"})
			}
		}
		return bytesToTerms(SliceV(v.(ArrayV)))
	case *types.Slice:
		if in == nil {
			panic(tlsErr{"slice field tag missing"})
		}
		s := v.(SliceV)
		var body []*Term
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			body = bytesToTerms(s)
		} else {
			for _, e := range s {
				body = append(body, g.tlsMarshal(u.Elem(), e, nil)...)
			}
		}
		n := uint64(len(body))
		if !in.countSet {
			panic(tlsErr{"tag missing count"})
		}
		if n < in.min || (in.max > 0 && n > in.max) || (in.count < 8 && n >= 1<<uint(8*in.count)) {
			panic(tlsErr{"length out of range"})
		}
		return append(g.be(tc.Const(64, n), in.count), body...)
	}
	panic(tlsErr{"unsupported type " + t.String()})
}

type tlsDec struct {
	g *G
	b []*Term
}

func (d *tlsDec) take(n int) []*Term {
	if n > len(d.b) {
		panic(tlsErr{"truncated"})
	}
	r := d.b[:n]
	d.b = d.b[n:]
	return r
}

func (d *tlsDec) parse(t types.Type, addr *Value, in *tlsInfo) {
	g := d.g
	tc := g.p.w.tc
	u := t.Underlying()
	if b, ok := u.(*types.Basic); ok {
		_, named := types.Unalias(t).(*types.Named)
		w, _, _ := intInfo(b)
		switch {
		case isTLSType(t, "Uint24"):
			*addr = tc.ZExt(tc.Concat(d.take(3)...), 32)
			return
		case !named && (b.Kind() == types.Uint8 || b.Kind() == types.Uint16 || b.Kind() == types.Uint32 || b.Kind() == types.Uint64):
			*addr = tc.Concat(d.take(int(w / 8))...)
			return
		case named && b.Kind() == types.Uint64:
			if in == nil || !in.countSet {
				panic(tlsErr{"enum field tag missing"})
			}
			*addr = tc.ZExt(tc.Concat(d.take(in.count)...), 64)
			return
		}
		panic(tlsErr{"unsupported type"})
	}
	switch u := u.(type) {
	case *types.Struct:
		st := (*addr).(StructV)
		enums := map[string]*Term{}
		seen := map[string]bool{}
		for i := range st {
			f := u.Field(i)
			fi := tlsTag(reflect.StructTag(u.Tag(i)).Get("tls"), f.Name())
			if fi.selector != "" {
				c, ok := enums[fi.selector]
				if !ok {
					panic(tlsErr{"selector not seen"})
				}
				if _, ok := seen[fi.selector]; !ok {
					seen[fi.selector] = false
				}
				if !g.p.branch(tc.Eq(c, tc.Const(c.w, fi.val)), nil) {
					st[i] = (*Value)(nil)
					continue
				}
				seen[fi.selector] = true
				el := f.Type().Underlying().(*types.Pointer).Elem()
				v := g.p.w.zero(el)
				d.parse(el, &v, fi)
				st[i] = &v
				continue
			}
			d.parse(f.Type(), &st[i], fi)
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
				enums[f.Name()] = st[i].(*Term)
			}
		}
		for _, s := range seen {
			if !s {
				panic(tlsErr{"unhandled value for selector"})
			}
		}
	case *types.Array:
		a := (*addr).(ArrayV)
		for i, x := range d.take(len(a)) {
			a[i] = x
		}
	case *types.Slice:
		if in == nil || !in.countSet {
			panic(tlsErr{"slice field tag missing"})
		}
		n := int(g.p.concretize(tc.ZExt(tc.Concat(d.take(in.count)...), 64)))
		if uint64(n) < in.min || (in.max > 0 && uint64(n) > in.max) {
			panic(tlsErr{"length out of range"})
		}
		body := d.take(n)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			s := termsToSlice(body)
			*addr = s
			return
		}
		sub := &tlsDec{g, body}
		s := SliceV{}
		for len(sub.b) > 0 {
			v := g.p.w.zero(u.Elem())
			sub.parse(u.Elem(), &v, nil)
			s = append(s, v)
		}
		*addr = s
	default:
		panic(tlsErr{"unsupported type"})
	}
}

func regTLS(reg func(f Intrinsic, names ...string)) {
	reg(func(g *G, fn *ssa.Function, a []Value) (r Value) {
		defer func() {
			if x := recover(); x != nil {
				te, ok := x.(tlsErr)
				if !ok {
					panic(x)
				}
				r = TupleV{SliceV(nil), g.mkErr("tls: " + te.msg)}
			}
		}()
		i := a[0].(Iface)
		return TupleV{termsToSlice(g.tlsMarshal(i.t, i.v, &tlsInfo{})), Iface{}}
	}, ctTLS+".Marshal")
	reg(func(g *G, fn *ssa.Function, a []Value) (r Value) {
		defer func() {
			if x := recover(); x != nil {
				te, ok := x.(tlsErr)
				if !ok {
					panic(x)
				}
				r = TupleV{SliceV(nil), g.mkErr("tls: " + te.msg)}
			}
		}()
		i := a[1].(Iface)
		d := &tlsDec{g, bytesToTerms(a[0].(SliceV))}
		d.parse(i.t.(*types.Pointer).Elem(), ptr(i.v), &tlsInfo{})
		return TupleV{termsToSlice(d.b), Iface{}}
	}, ctTLS+".Unmarshal")
}
