package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type sendItem struct {
	v    Value
	done bool
	g    *G
}

type ChanV struct {
	id      int
	cap     int
	buf     []Value
	closed  bool
	sendq   []*sendItem
	recvers int // goroutines blocked in receive on this channel
	timer   bool
	fired   bool
	tval    Value
	onFire  func()
	deadline int64
	stopped  bool
	async    bool
	period   int64
}

type mutexState struct {
	locked  bool
	readers int
}

type wgState struct{ n int }

func (p *Path) newChan(n int) *ChanV {
	p.nobj++
	return &ChanV{id: p.nobj, cap: n}
}

func (p *Path) fire(c *ChanV) {
	if c.fired {
		return
	}
	c.fired = true
	if c.onFire != nil {
		c.onFire()
	}
	if !c.async && len(c.buf) == 0 {
		c.buf = append(c.buf, c.tval)
	}
	if c.period > 0 {
		c.fired = false
		c.deadline += c.period
	}
}

func (c *ChanV) recvReady() bool {
	return c != nil && (len(c.buf) > 0 || c.closed || len(c.sendq) > 0)
}

func (c *ChanV) sendReady() bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || c.recvers > len(c.sendq))
}

func (g *G) doRecv(c *ChanV) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if len(c.sendq) > 0 {
			it := c.sendq[0]
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, it.v)
			it.done = true
		}
		return v, true
	}
	if len(c.sendq) > 0 {
		it := c.sendq[0]
		c.sendq = c.sendq[1:]
		it.done = true
		return it.v, true
	}
	return nil, false // closed
}

func (g *G) recv(c *ChanV) (Value, bool) {
	if c == nil {
		g.block(func() bool { return false }, "receive on nil channel")
	}
	if !c.recvReady() {
		if c.timer {
			g.waitT = []*ChanV{c}
		}
		c.recvers++
		g.block(c.recvReady, "receive")
		c.recvers--
		g.waitT = nil
	}
	return g.doRecv(c)
}

func (g *G) send(c *ChanV, v Value) {
	if c == nil {
		g.block(func() bool { return false }, "send on nil channel")
	}
	if c.closed {
		panic(targetPanic{Iface{types.Typ[types.String], "send on closed channel"}})
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return
	}
	it := &sendItem{v: v, g: g}
	c.sendq = append(c.sendq, it)
	g.block(func() bool { return it.done || c.closed }, "send")
	if !it.done {
		panic(targetPanic{Iface{types.Typ[types.String], "send on closed channel"}})
	}
}

func (fr *Frame) selectI(in *ssa.Select) Value {
	g := fr.g
	p := g.p
	tc := p.w.tc
	n := len(in.States)
	chans := make([]*ChanV, n)
	vals := make([]Value, n)
	for i, st := range in.States {
		chans[i], _ = fr.get(st.Chan).(*ChanV)
		if st.Dir == types.SendOnly {
			vals[i] = copyVal(fr.get(st.Send))
		}
	}
	g.yield()
	ready := func() []int {
		var r []int
		for i, st := range in.States {
			if chans[i] == nil {
				continue
			}
			if st.Dir == types.SendOnly && chans[i].sendReady() || st.Dir == types.RecvOnly && chans[i].recvReady() {
				r = append(r, i)
			}
		}
		return r
	}
	pick := -1
	for {
		rs := ready()
		var timers []int
		if p.timerBud > 0 && g.quiet == 0 && !p.virtual {
			for i, st := range in.States {
				if st.Dir == types.RecvOnly && chans[i] != nil && chans[i].timer && !chans[i].fired && !chans[i].stopped {
					timers = append(timers, i)
				}
			}
		}
		if len(rs) == 0 && !in.Blocking {
			break
		}
		opts := len(rs) + len(timers)
		if len(rs) == 0 {
			opts++ // keep waiting
		}
		if len(rs) > 0 && len(timers) == 0 && p.explore < 0 {
			pick = rs[0]
			if len(rs) > 1 {
				pick = rs[p.choose(len(rs))]
			}
			break
		}
		c := p.choose(opts)
		if c < len(rs) {
			pick = rs[c]
			break
		}
		c -= len(rs)
		if len(rs) == 0 {
			if c == 0 {
				for i, st := range in.States {
					if chans[i] == nil {
						continue
					}
					if st.Dir == types.RecvOnly {
						chans[i].recvers++
						if chans[i].timer {
							g.waitT = append(g.waitT, chans[i])
						}
					}
				}
				g.block(func() bool { return len(ready()) > 0 }, "select")
				for i, st := range in.States {
					if chans[i] != nil && st.Dir == types.RecvOnly {
						chans[i].recvers--
					}
				}
				g.waitT = nil
				rs := ready()
				if len(rs) > 0 {
					pick = rs[p.choose(len(rs))]
					break
				}
				continue
			}
			c--
		}
		p.timerBud--
		pick = timers[c]
		p.fire(chans[pick])
		break
	}
	out := TupleV{tc.Const(64, uint64(int64(pick))), tc.F}
	if pick >= 0 {
		st := in.States[pick]
		c := chans[pick]
		if st.Dir == types.SendOnly {
			g.send(c, vals[pick])
		}
		for i, s := range in.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == pick {
				v, ok := g.doRecv(c)
				if !ok {
					v = p.w.zero(et)
				}
				out[1] = tc.Bool(ok)
				out = append(out, v)
			} else {
				out = append(out, p.w.zero(et))
			}
		}
		return out
	}
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			out = append(out, p.w.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	return out
}

// ---- mutexes and wait groups (keyed by address)

func (p *Path) mutex(a *Value) *mutexState {
	m, ok := p.mutexes[a]
	if !ok {
		m = &mutexState{}
		p.mutexes[a] = m
	}
	return m
}

func (p *Path) wgroup(a *Value) *wgState {
	m, ok := p.wgs[a]
	if !ok {
		m = &wgState{}
		p.wgs[a] = m
	}
	return m
}
