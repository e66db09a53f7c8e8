package main

import (
	"math/big"
	"math/rand"
	"testing"
)

// rawNode builds the same operation without simplification, for differential testing.
func TestSimplifier(t *testing.T) {
	for seed := int64(0); seed < 1500; seed++ {
		r := rand.New(rand.NewSource(seed))
		c := NewTC()
		raw := NewTC()
		env := map[string]*big.Int{}
		type pr struct{ s, u *Term }
		var pool []pr
		ws := []int32{8, 16, 64, 4, 1}
		w0 := ws[r.Intn(3)]
		for i, w := range []int32{w0, w0, w0, 8, 16, 64, 4} {
			n := string(rune('a' + i))
			pool = append(pool, pr{c.Var(w, n), raw.Var(w, n)})
			v := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(w)))
			if r.Intn(4) == 0 {
				v.SetInt64(int64(r.Intn(3)))
			}
			env[n] = v
		}
		k := func(w int32) pr {
			v := uint64(r.Intn(5))
			switch r.Intn(4) {
			case 0:
				v = r.Uint64()
			case 1:
				v = 1 << uint(r.Intn(int(w)))
			case 2:
				v = (1 << uint(r.Intn(int(w)))) - 1
			}
			return pr{c.Const(w, v), raw.Const(w, v)}
		}
		var bools []pr
		pick := func(w int32) pr {
			for i := 0; i < 20; i++ {
				p := pool[r.Intn(len(pool))]
				if p.s.w == w {
					return p
				}
			}
			return k(w)
		}
		for i := 0; i < 30; i++ {
			a := pool[r.Intn(len(pool))]
			w := a.s.w
			b := pick(w)
			if r.Intn(3) == 0 && w <= 64 {
				b = k(w)
			}
			if r.Intn(6) == 0 {
				a, b = b, a
			}
			bin := func(op Op, f func(x, y *Term) *Term) { pool = append(pool, pr{f(a.s, b.s), raw.mk(op, w, 0, a.u, b.u)}) }
			cmp := func(op Op, f func(x, y *Term) *Term) { bools = append(bools, pr{f(a.s, b.s), raw.mk(op, 0, 0, a.u, b.u)}) }
			switch r.Intn(24) {
			case 0:
				bin(OAdd, c.Add)
			case 1:
				bin(OSub, c.Sub)
			case 2:
				bin(OMul, c.Mul)
			case 3:
				bin(OUDiv, c.UDiv)
			case 4:
				bin(OURem, c.URem)
			case 5:
				if b.u.isConst() && b.u.bigVal().Sign() == 0 {
					continue
				}
				bin(OSDiv, c.SDiv)
			case 6:
				if b.u.isConst() && b.u.bigVal().Sign() == 0 {
					continue
				}
				bin(OSRem, c.SRem)
			case 7:
				bin(OAnd, c.And)
			case 8:
				bin(OOr, c.Or)
			case 9:
				bin(OXor, c.Xor)
			case 10:
				pool = append(pool, pr{c.Not(a.s), raw.mk(ONot, w, 0, a.u)})
			case 11:
				pool = append(pool, pr{c.Neg(a.s), raw.mk(ONeg, w, 0, a.u)})
			case 12:
				bin(OShl, c.Shl)
			case 13:
				bin(OLShr, c.LShr)
			case 14:
				bin(OAShr, c.AShr)
			case 15:
				if w+b.s.w > 200 {
					continue
				}
				pool = append(pool, pr{c.Concat(a.s, b.s), raw.mk(OConcat, w+b.s.w, 0, a.u, b.u)})
			case 16:
				lo := int32(r.Intn(int(w)))
				hi := lo + int32(r.Intn(int(w-lo)))
				pool = append(pool, pr{c.Extract(a.s, hi, lo), raw.mk(OExtract, hi-lo+1, uint64(lo), a.u)})
			case 17:
				if w < 64 {
					nw := w + 1 + int32(r.Intn(int(64-w)))
					pool = append(pool, pr{c.SExt(a.s, nw), raw.mk(OSExt, nw, 0, a.u)})
				}
			case 18:
				if w < 64 {
					nw := w + 1 + int32(r.Intn(int(64-w)))
					pool = append(pool, pr{c.ZExt(a.s, nw), raw.mk(OConcat, nw, 0, raw.Const(nw-w, 0), a.u)})
				}
			case 19:
				if len(bools) > 0 {
					p := bools[r.Intn(len(bools))]
					pool = append(pool, pr{c.Ite(p.s, a.s, b.s), raw.mk(OIte, w, 0, p.u, a.u, b.u)})
				}
			case 20:
				cmp(OEq, c.Eq)
			case 21:
				cmp(OUlt, c.Ult)
			case 22:
				cmp(OSlt, c.Slt)
			case 23:
				if len(bools) > 1 {
					p, q := bools[r.Intn(len(bools))], bools[r.Intn(len(bools))]
					switch r.Intn(4) {
					case 0:
						bools = append(bools, pr{c.BAnd(p.s, q.s), raw.mk(OBAnd, 0, 0, p.u, q.u)})
					case 1:
						bools = append(bools, pr{c.BOr(p.s, q.s), raw.mk(OBOr, 0, 0, p.u, q.u)})
					case 2:
						bools = append(bools, pr{c.BNot(p.s), raw.mk(OBNot, 0, 0, p.u)})
					case 3:
						bools = append(bools, pr{c.Eq(p.s, q.s), raw.mk(OEq, 0, 0, p.u, q.u)})
					}
				}
			}
			m1, m2 := map[uint32]*big.Int{}, map[uint32]*big.Int{}
			for _, p := range append(append([]pr{}, pool...), bools...) {
				x, y := c.Eval(p.s, env, nil, m1), raw.Eval(p.u, env, nil, m2)
				if x.Cmp(y) != 0 || p.s.w != p.u.w {
					t.Fatalf("seed %d: %s = %v but %s = %v (env %v)", seed, p.s, x, p.u, y, env)
				}
			}
		}
	}
}
