package main

import (
	"math/rand"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded non-deterministic step of a path.
type Decision struct {
	Kind byte   // 'b' branch, 'c' choice, 'v' concretisation (V is the value, B tells equal / different)
	B    bool   // branch direction
	V    uint64 // choice index or concretisation value
	Site uint32
}

type Outcome struct {
	Kind   string // ok, end, exit, violation, inconclusive
	Msg    string
	Stack  string
	Prefix []Decision
}

type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Assign  map[string]string `json:"assign"`
	Stack   string            `json:"stack,omitempty"`
	Prefix  []Decision        `json:"-"`
}

type Witness struct {
	Assign map[string]string `json:"assign"`
	Obs    []ObsV            `json:"obs,omitempty"`
	Reach  []string          `json:"reach,omitempty"`
	Kind   string            `json:"kind"`
}

type ObsV struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

// Job is the exploration of one harness.
// maxPerMsg is the number of violations of one assertion that are kept.
const maxPerMsg = 24

type Job struct {
	deadline time.Time
	eng     *Engine
	fn      *ssa.Function
	name    string
	params  map[string]int64
	limits  Limits
	mu      sync.Mutex
	cond    *sync.Cond
	work    [][]Decision
	active  int
	stop    bool
	trunc   string
	paths   int64
	steps   int64
	decs    int64
	asserts int64
	discharged int64
	ok, ended int64
	inconc  map[string]int
	inconcPrefix map[string]*Violation
	viol    []*Violation
	nviol   int
	perMsg  map[string]int
	rng     *rand.Rand
	violKey map[string]bool
	reach   map[string]int64
	wit     []*Witness
	funcs   map[string]bool
	native  map[string]bool // functions taken as primitives / models
	start   time.Time
}

type Limits struct {
	MaxPaths   int64
	MaxSteps   int64
	MaxTime    time.Duration
	MaxViol    int
	Witnesses  int
	MaxConcret int
	Workers    int
	SolverTO   time.Duration
}

type Worker struct {
	job     *Job
	eng     *Engine
	tc      *TC
	sol     *Solver
	stack   []*Term
	consts  map[*ssa.Const]Value
	finfo   map[*ssa.Function]*FnInfo
	persist map[*ssa.Package]map[*ssa.Global]*Value
	methods map[methKey]*ssa.Function
	typeIDs map[string]int
}

type methKey struct {
	t  types.Type
	id string
}

type symVar struct {
	name string
	t    *Term
}

type Path struct {
	w        *Worker
	job      *Job
	prefix   []Decision
	pos      int
	trace    []Decision
	cons     []*Term
	consSet  map[*Term]bool
	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]int
	vars     []symVar
	varCnt   map[string]int
	env      map[string]*big.Int
	envMemo  map[uint32]*big.Int
	steps    int64
	gs       []*G
	gidx     int
	main     *G
	done     chan struct{}
	out      *Outcome
	dead     bool
	explore  int // schedule exploration: remaining preemptions, -1 = off
	timers   []*ChanV
	timerBud int
	timerDl  int
	mutexes  map[*Value]*mutexState
	wgs      map[*Value]*wgState
	side     map[string]any
	obs      []struct {
		name string
		t    Value
	}
	reached  map[string]bool
	atEnd    []*Closure
	allowPanic bool
	allowDeadlock bool
	clock    *Term
	nclock   int
	blobs    map[string]*JNode
	nobj     int
	initDepth int
	nowait   sync.WaitGroup
	lastG    *G
	forkSites map[string]int
	virtual   bool
	vnow      int64
	noFork    int
	lastName  string
	nativeFns map[*ssa.Function]bool
	tags      map[string]bool
	b64src    map[*Term]*Term // 6-bit values of characters known to be of the base64 alphabet
	digits    map[string]*LazyDec
}

func (p *Path) useNative(fn *ssa.Function) {
	if p.nativeFns == nil {
		p.nativeFns = map[*ssa.Function]bool{}
	}
	p.nativeFns[fn] = true
}

var statePaths int64

func (j *Job) push(p []Decision) {
	j.mu.Lock()
	j.work = append(j.work, p)
	j.cond.Signal()
	j.mu.Unlock()
}

// Run explores all paths of the harness.
func (j *Job) Run() {
	j.cond = sync.NewCond(&j.mu)
	j.start = time.Now()
	j.inconc = map[string]int{}
	j.inconcPrefix = map[string]*Violation{}
	j.violKey = map[string]bool{}
	j.reach = map[string]int64{}
	j.perMsg, j.rng = map[string]int{}, rand.New(rand.NewSource(1))
	j.funcs = map[string]bool{}
	j.native = map[string]bool{}
	j.work = [][]Decision{nil}
	j.deadline = time.Now().Add(j.limits.MaxTime)
	var wg sync.WaitGroup
	timer := time.AfterFunc(j.limits.MaxTime, func() {
		j.mu.Lock()
		if !j.stop {
			j.stop = true
			j.trunc = "time"
		}
		j.cond.Broadcast()
		j.mu.Unlock()
	})
	defer timer.Stop()
	for i := 0; i < j.limits.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(j)
			defer func() { w.sol.Close() }()
			for {
				j.mu.Lock()
				for len(j.work) == 0 && j.active > 0 && !j.stop {
					j.cond.Wait()
				}
				if j.stop || len(j.work) == 0 {
					j.cond.Broadcast()
					j.mu.Unlock()
					return
				}
				pre := j.work[len(j.work)-1]
				j.work = j.work[:len(j.work)-1]
				j.active++
				j.paths++
				if j.paths > j.limits.MaxPaths {
					j.stop = true
					j.trunc = "paths"
				}
				j.mu.Unlock()
				w.runPath(pre)
				j.mu.Lock()
				j.active--
				if j.active == 0 && len(j.work) == 0 {
					j.cond.Broadcast()
				}
				if j.nviol >= j.limits.MaxViol {
					j.stop = true
					j.cond.Broadcast()
				}
				j.mu.Unlock()
				if w.tc.nextID > 4_000_000 {
					w.sol.Close()
					w.reset()
				}
			}
		}()
	}
	wg.Wait()
}

// timedOut reports that the time limit has passed (a path under way is given up).
func (j *Job) timedOut() bool { return time.Now().After(j.deadline) }

func newWorker(j *Job) *Worker {
	w := &Worker{job: j, eng: j.eng}
	w.reset()
	return w
}

func (w *Worker) reset() {
	w.tc = NewTC()
	w.sol = NewSolver(w.tc, w.job.limits.SolverTO)
	w.stack = nil
	w.consts = map[*ssa.Const]Value{}
	w.finfo = map[*ssa.Function]*FnInfo{}
	w.persist = map[*ssa.Package]map[*ssa.Global]*Value{}
	w.methods = map[methKey]*ssa.Function{}
}

func (w *Worker) runPath(prefix []Decision) {
	p := &Path{w: w, job: w.job, prefix: prefix, consSet: map[*Term]bool{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{},
		varCnt: map[string]int{}, done: make(chan struct{}), explore: -1, mutexes: map[*Value]*mutexState{}, wgs: map[*Value]*wgState{},
		side: map[string]any{}, reached: map[string]bool{}, blobs: map[string]*JNode{}}
	p.lastG = nil
	p.main = p.spawn(func(g *G) {
		g.call(w.job.fn, nil, nil)
	}, "main")
	p.main.wake <- struct{}{}
	<-p.done
	// release remaining goroutines
	p.dead = true
	for _, g := range p.gs {
		select {
		case g.wake <- struct{}{}:
		default:
		}
	}
	p.nowait.Wait()
	j := w.job
	out := p.out
	var wit *Witness
	j.mu.Lock()
	want := len(j.wit) < j.limits.Witnesses && (out.Kind == "ok" || out.Kind == "exit")
	if !want && (out.Kind == "ok" || out.Kind == "exit") {
		for r := range p.reached {
			if j.reach[r] == 0 {
				want = true
			}
		}
	}
	j.mu.Unlock()
	if want {
		wit = p.witness()
	}
	var inc *Violation
	if out.Kind == "inconclusive" {
		j.mu.Lock()
		_, have := j.inconcPrefix[out.Msg]
		n := len(j.inconcPrefix)
		j.mu.Unlock()
		if !have && n < 20 && !j.timedOut() {
			if m := p.model(nil); m != nil {
				inc = &Violation{Harness: j.name, Msg: out.Msg, Assign: m}
			}
		}
	}
	j.mu.Lock()
	defer j.mu.Unlock()
	if wit != nil {
		j.wit = append(j.wit, wit)
	}
	j.steps += p.steps
	j.decs += int64(len(p.trace))
	for r := range p.reached {
		j.reach[r]++
	}
	switch out.Kind {
	case "ok", "exit":
		j.ok++
	case "end":
		j.ended++
	case "inconclusive":
		j.inconc[out.Msg]++
		if inc != nil {
			j.inconcPrefix[out.Msg] = inc
		}
		if os.Getenv("GOSYM_DEBUG") != "" && j.inconc[out.Msg] == 1 {
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE %s\n%s\n", out.Msg, out.Stack)
		}
	}
	if os.Getenv("GOSYM_FORKS") != "" {
		for k, v := range p.forkSites {
			forkProf[k] += v
		}
	}
	for fn := range p.nativeFns {
		j.native[fnName(fn)] = true
	}
	for fn := range w.finfo {
		if w.finfo[fn].executed {
			j.funcs[fnName(fn)] = true
		}
	}
}

var forkProf = map[string]int{}

func (p *Path) finish(o *Outcome) {
	if p.out == nil {
		p.out = o
		close(p.done)
	}
}

// ---- decisions

func (p *Path) addCons(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OBAnd {
		for _, x := range t.a {
			p.addCons(x)
		}
		return
	}
	if p.consSet[t] {
		return
	}
	p.consSet[t] = true
	p.cons = append(p.cons, t)
	if p.env != nil {
		if r := p.w.tc.Eval(t, p.env, nil, p.envMemo); r == nil || r.Sign() == 0 {
			p.env = nil
		}
	}
}

func (p *Path) implied(t *Term) (bool, bool) {
	if t.isConst() {
		return t.v == 1, true
	}
	if p.consSet[t] {
		return true, true
	}
	if p.consSet[p.w.tc.BNot(t)] {
		return false, true
	}
	if t.op == OBAnd {
		all := true
		for _, x := range t.a {
			v, k := p.implied(x)
			if k && !v {
				return false, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if t.op == OBNot && t.a[0].op == OBAnd {
		v, k := p.implied(t.a[0])
		return !v, k
	}
	return false, false
}

// sync makes the solver's assertion stack equal to the path condition.
func (p *Path) sync() {
	w := p.w
	if w.sol.dead {
		w.sol.Restart()
		w.stack = nil
	}
	n := 0
	for n < len(w.stack) && n < len(p.cons) && w.stack[n] == p.cons[n] {
		n++
	}
	if k := len(w.stack) - n; k > 0 {
		w.sol.send(fmt.Sprintf("(pop %d)\n", k))
		w.stack = w.stack[:n]
	}
	for _, c := range p.cons[n:] {
		w.sol.Define(c)
		w.sol.Push()
		w.sol.Assert(c)
		w.stack = append(w.stack, c)
	}
}

// check decides satisfiability of the path condition together with extra.
func (p *Path) check(extra *Term) SatRes {
	if extra != nil && extra.isFalse() {
		return Unsat
	}
	if p.job.timedOut() {
		panic(abortf("time limit"))
	}
	p.sync()
	w := p.w
	if extra == nil || extra.isTrue() {
		r := w.sol.CheckSat()
		if r == Sat {
			p.fetchEnv()
		}
		return p.fallback(r, nil)
	}
	w.sol.Define(extra)
	w.sol.Push()
	w.sol.Assert(extra)
	r := w.sol.CheckSat()
	if r == Sat {
		p.fetchEnv()
	}
	if !w.sol.dead {
		w.sol.Pop()
	}
	return p.fallback(r, extra)
}

func (p *Path) fallback(r SatRes, extra *Term) SatRes {
	if r != Unknown {
		return r
	}
	if p.w.sol.dead {
		p.w.sol.Restart()
		p.w.stack = nil
	}
	cs := append([]*Term{}, p.cons...)
	if extra != nil {
		cs = append(cs, extra)
	}
	for _, s := range [][]string{{"z3-new", "-in"}, {"cvc5", "--lang=smt2"}} {
		to := min(p.job.limits.SolverTO*2, time.Until(p.job.deadline)+time.Second)
		if r != Unknown || to <= 0 {
			break
		}
		r = OneShot(s, cs, to)
	}
	return r
}

func (p *Path) fetchEnv() {
	var ts []*Term
	var vs []symVar
	for _, v := range p.vars {
		if p.w.sol.emitted[v.t.id] {
			ts = append(ts, v.t)
			vs = append(vs, v)
		}
	}
	vals, err := p.w.sol.Values(ts)
	if err != nil {
		p.env = nil
		return
	}
	p.env = map[string]*big.Int{}
	p.envMemo = map[uint32]*big.Int{}
	for _, v := range p.vars {
		if v.t.op == OVar {
			p.env[v.t.name] = new(big.Int)
		}
	}
	for i, v := range vs {
		p.env[v.t.name] = vals[i]
	}
}

func (p *Path) next(kind byte, site uint32) *Decision {
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.Kind != kind || d.Site != site {
			panic(abortf("internal: replay divergence (kind %c/%c)", d.Kind, kind))
		}
		p.pos++
		p.trace = append(p.trace, d)
		return &d
	}
	return nil
}

func (p *Path) fork(alt Decision) {
	n := make([]Decision, len(p.trace)+1)
	copy(n, p.trace)
	n[len(p.trace)] = alt
	if p.initDepth > 0 {
		panic(abortf("symbolic decision during package initialisation"))
	}
	if os.Getenv("GOSYM_FORKS") != "" {
		if p.forkSites == nil {
			p.forkSites = map[string]int{}
		}
		p.forkSites[p.where()]++
	}
	p.job.push(n)
}

func (p *Path) where() string {
	if p.lastG != nil {
		return p.lastG.where(4)
	}
	return ""
}

// branch decides a boolean condition, forking if both values are possible.
func (p *Path) branch(cond *Term, site any) bool {
	if cond.isConst() {
		return cond.v == 1
	}
	tc := p.w.tc
	if p.noFork > 0 {
		if v, k := p.implied(cond); k {
			return v
		}
		panic(abortf("decision in no-fork context"))
	}
	if d := p.next('b', 0); d != nil {
		if d.B {
			p.addCons(cond)
		} else {
			p.addCons(tc.BNot(cond))
		}
		return d.B
	}
	take := func(b bool, forked bool) bool {
		if forked {
			p.fork(Decision{Kind: 'b', B: !b})
		}
		p.trace = append(p.trace, Decision{Kind: 'b', B: b})
		if b {
			p.addCons(cond)
		} else {
			p.addCons(tc.BNot(cond))
		}
		return b
	}
	if v, k := p.implied(cond); k {
		return take(v, false)
	}
	nc := tc.BNot(cond)
	if p.env != nil {
		if r := tc.Eval(cond, p.env, nil, p.envMemo); r != nil {
			v := r.Sign() != 0
			env, memo := p.env, p.envMemo
			other := cond
			if v {
				other = nc
			}
			res := p.check(other)
			if res == Unsat {
				p.env, p.envMemo = env, memo
				return take(v, false)
			}
			// both possible: continue with the direction we have a model for
			p.env, p.envMemo = env, memo
			return take(v, true)
		}
	}
	r1 := p.check(cond)
	if r1 == Unsat {
		return take(false, false)
	}
	env, memo := p.env, p.envMemo
	r2 := p.check(nc)
	p.env, p.envMemo = env, memo
	if r2 == Unsat {
		return take(true, false)
	}
	if r1 == Unknown {
		p.env = nil
	}
	return take(true, true)
}

// choose picks one of n alternatives.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.noFork > 0 {
		panic(abortf("decision in no-fork context"))
	}
	if d := p.next('c', uint32(n)); d != nil {
		return int(d.V)
	}
	for i := n - 1; i >= 1; i-- {
		p.fork(Decision{Kind: 'c', V: uint64(i), Site: uint32(n)})
	}
	p.trace = append(p.trace, Decision{Kind: 'c', V: 0, Site: uint32(n)})
	return 0
}

// concretize enumerates the feasible values of t.
func (p *Path) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.v
	}
	if p.noFork > 0 {
		panic(abortf("decision in no-fork context"))
	}
	tc := p.w.tc
	for n := 0; ; n++ {
		if n > p.job.limits.MaxConcret {
			panic(abortf("concretisation of %s has more than %d values", t, p.job.limits.MaxConcret))
		}
		if d := p.next('v', 0); d != nil {
			e := tc.Eq(t, tc.Const(t.w, d.V))
			if d.B {
				p.addCons(e)
				return d.V
			}
			p.addCons(tc.BNot(e))
			continue
		}
		// at the frontier
		var v uint64
		got := false
		if p.env != nil {
			if r := tc.Eval(t, p.env, nil, p.envMemo); r != nil {
				v = r.Uint64()
				got = true
			}
		}
		if !got {
			p.sync()
			w := p.w
			w.sol.Define(t)
			if r := w.sol.CheckSat(); r != Sat {
				if r == Unsat {
					panic(pathAbort{abEnd, "infeasible"})
				}
				panic(abortf("solver unknown in concretisation"))
			}
			vs, err := w.sol.Values([]*Term{t})
			if err != nil {
				panic(abortf("solver: %v", err))
			}
			v = vs[0].Uint64()
			p.fetchEnv()
		}
		e := tc.Eq(t, tc.Const(t.w, v))
		env, memo := p.env, p.envMemo
		r := p.check(tc.BNot(e))
		p.env, p.envMemo = env, memo
		if r != Unsat {
			p.fork(Decision{Kind: 'v', V: v, B: false})
		}
		p.trace = append(p.trace, Decision{Kind: 'v', V: v, B: true})
		p.addCons(e)
		return v
	}
}

func (p *Path) inPrefix() bool { return p.pos < len(p.prefix) }

// assume restricts the path; ends it if the condition cannot hold.
func (p *Path) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathAbort{abEnd, "assume"})
	}
	if p.inPrefix() {
		p.addCons(c)
		return
	}
	if v, k := p.implied(c); k {
		if v {
			return
		}
		panic(pathAbort{abEnd, "assume"})
	}
	p.addCons(c)
	if p.env != nil {
		return // the current model satisfies the new constraint
	}
	if p.check(nil) == Unsat {
		panic(pathAbort{abEnd, "assume"})
	}
}

// assertT checks that c holds for every value on this path.
func (p *Path) assertT(g *G, c *Term, msg string) {
	if !p.inPrefix() {
		atomic.AddInt64(&p.job.asserts, 1)
	}
	if c.isTrue() {
		return
	}
	tc := p.w.tc
	if p.inPrefix() {
		if c.isFalse() {
			panic(pathAbort{abEnd, "assertion already reported"})
		}
		p.addCons(c)
		return
	}
	if v, k := p.implied(c); k && v {
		return
	}
	nc := tc.BNot(c)
	r := p.check(nc)
	switch r {
	case Sat:
		p.violate(g, nc, msg)
		if c.isFalse() {
			panic(pathAbort{abEnd, "violated"})
		}
		p.env = nil
		if p.check(c) == Unsat {
			panic(pathAbort{abEnd, "violated"})
		}
		p.addCons(c)
	case Unknown:
		panic(abortf("solver gave no answer for assertion %q", msg))
	default:
		atomic.AddInt64(&p.job.discharged, 1)
		p.addCons(c)
	}
}

// model returns an assignment satisfying the path condition and extra.
func (p *Path) model(extra *Term) map[string]string {
	p.sync()
	w := p.w
	w.sol.Push()
	if extra != nil {
		w.sol.Assert(extra)
	}
	defer func() {
		if !w.sol.dead {
			w.sol.Pop()
		}
	}()
	if w.sol.CheckSat() != Sat {
		return nil
	}
	var ts []*Term
	for _, v := range p.vars {
		ts = append(ts, v.t)
	}
	vals, err := w.sol.Values(ts)
	if err != nil {
		return nil
	}
	m := map[string]string{}
	for i, v := range p.vars {
		m[v.name] = vals[i].Text(10)
	}
	return m
}

func (p *Path) violate(g *G, extra *Term, msg string) {
	j := p.job
	m := p.model(extra)
	st := ""
	if g != nil {
		st = g.where(12)
	}
	j.mu.Lock()
	defer j.mu.Unlock()
	if m == nil {
		j.inconc["violation without model: "+msg]++
		return
	}
	n := 0
	for _, v := range j.viol {
		if v.Msg == msg {
			n++
		}
	}
	v := &Violation{Harness: j.name, Msg: msg, Assign: m, Stack: st, Prefix: append([]Decision{}, p.trace...)}
	j.nviol++
	if n >= maxPerMsg {
		// keep an even sample of them
		j.perMsg[msg]++
		if k := j.rng.Intn(n + j.perMsg[msg]); k >= 3 && k < n {
			for _, o := range j.viol {
				if o.Msg == msg {
					if k == 0 {
						*o = *v
						break
					}
					k--
				}
			}
		}
		return
	}
	j.viol = append(j.viol, v)
}

func (p *Path) witness() *Witness {
	p.sync()
	w := p.w
	if w.sol.CheckSat() != Sat {
		return nil
	}
	var ts []*Term
	for _, v := range p.vars {
		ts = append(ts, v.t)
	}
	nv := len(ts)
	type ob struct {
		name string
		n    int
		str  string
	}
	var obs []ob
	for _, o := range p.obs {
		switch v := o.t.(type) {
		case *Term:
			if v.hasU {
				obs = append(obs, ob{o.name, 0, ""})
				continue
			}
			obs = append(obs, ob{o.name, 1, ""})
			ts = append(ts, v)
		default:
			obs = append(obs, ob{o.name, 0, ""})
		}
	}
	var extra []*Term
	for _, t := range ts[nv:] {
		w.sol.Define(t)
		extra = append(extra, t)
	}
	_ = extra
	if len(ts) > nv {
		if w.sol.CheckSat() != Sat {
			return nil
		}
	}
	vals, err := w.sol.Values(ts)
	if err != nil {
		return nil
	}
	wt := &Witness{Assign: map[string]string{}, Kind: p.out.Kind}
	for i, v := range p.vars {
		wt.Assign[v.name] = vals[i].Text(10)
	}
	k := nv
	for _, o := range obs {
		if o.n == 1 {
			wt.Obs = append(wt.Obs, ObsV{o.name, vals[k].Text(10)})
			k++
		}
	}
	for r := range p.reached {
		wt.Reach = append(wt.Reach, r)
	}
	sort.Strings(wt.Reach)
	return wt
}

// newVar creates a fresh symbolic input with a stable name.
func (p *Path) newVar(w int32, name string) *Term {
	p.varCnt[name]++
	if n := p.varCnt[name]; n > 1 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	p.lastName = name
	t := p.w.tc.Var(w, fmt.Sprintf("%s:%d", name, w))
	p.vars = append(p.vars, symVar{name, t})
	if p.env != nil {
		p.env[t.name] = new(big.Int)
		p.envMemo = map[uint32]*big.Int{}
	}
	return t
}

// uniq returns the stable name (with occurrence suffix) without creating a variable.
func (p *Path) uniq(name string) string {
	p.varCnt[name]++
	if n := p.varCnt[name]; n > 1 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

// ---- goroutines

type G struct {
	id    int
	p     *Path
	wake  chan struct{}
	state int // 0 runnable, 1 blocked, 2 done
	ready func() bool
	what  string
	waitT []*ChanV // timer channels this goroutine waits on
	fr    *Frame
	name  string
	quiet int
	low   bool // in Delay
}

func (p *Path) spawn(f func(g *G), name string) *G {
	p.gidx++
	g := &G{id: p.gidx, p: p, wake: make(chan struct{}, 1), name: name}
	p.gs = append(p.gs, g)
	p.nowait.Add(1)
	go func() {
		defer p.nowait.Done()
		<-g.wake
		if p.dead {
			return
		}
		defer func() {
			r := recover()
			if p.dead {
				return
			}
			if r == nil {
				return
			}
			if pa, ok := r.(pathAbort); ok {
				switch pa.kind {
				case abKilled:
					return
				case abInconclusive:
					p.finish(&Outcome{Kind: "inconclusive", Msg: pa.why, Stack: g.where(20)})
				case abExit:
					p.runAtEnd(g, "exit")
				default:
					p.finish(&Outcome{Kind: "end", Msg: pa.why})
				}
				return
			}
			p.finish(&Outcome{Kind: "inconclusive", Msg: fmt.Sprintf("engine: %v", r), Stack: g.where(20) + "\n" + string(debug.Stack())})
		}()
		p.lastG = g
		g.runTop(f)
		g.state = 2
		if g == p.main {
			p.runAtEnd(g, "ok")
			return
		}
		// pick somebody else
		n := p.pick(g)
		if n == nil {
			p.deadlock(g)
			return
		}
		n.state = 0
		p.lastG = n
		n.wake <- struct{}{}
	}()
	return g
}

// runTop runs f, turning an uncaught target panic into a violation.
func (g *G) runTop(f func(g *G)) {
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			if g.p.allowPanic {
				panic(pathAbort{abEnd, "panic allowed"})
			}
			g.p.violate(g, nil, "panic: "+g.panicStr(tp.v))
			panic(pathAbort{abEnd, "panic"})
		}
	}()
	f(g)
}

func (p *Path) runAtEnd(g *G, kind string) {
	defer func() {
		if r := recover(); r != nil {
			if pa, ok := r.(pathAbort); ok && pa.kind == abInconclusive {
				p.finish(&Outcome{Kind: "inconclusive", Msg: pa.why, Stack: g.where(20)})
				return
			} else if !ok {
				p.finish(&Outcome{Kind: "inconclusive", Msg: fmt.Sprintf("engine: %v", r), Stack: g.where(20) + "\n" + string(debug.Stack())})
				return
			}
		}
		p.finish(&Outcome{Kind: kind})
	}()
	fs := p.atEnd
	p.atEnd = nil
	g.quiet++
	for _, f := range fs {
		g.runTop(func(g *G) { g.callV(f, nil) })
	}
}

func (g *G) runnable() bool {
	return g.state == 0 || (g.state == 1 && g.ready != nil && g.ready())
}

// pick selects the next goroutine to run (nil: none can run).
func (p *Path) pick(from *G) *G {
	for {
		var rs []*G
		// round robin starting after from
		start := 0
		for i, g := range p.gs {
			if g == from {
				start = i + 1
			}
		}
		for i := range p.gs {
			g := p.gs[(start+i)%len(p.gs)]
			if g.state != 2 && g.runnable() {
				rs = append(rs, g)
			}
		}
		if len(rs) > 0 {
			if p.explore >= 0 && len(rs) > 1 {
				return rs[p.choose(len(rs))]
			}
			return rs[0]
		}
		// nothing can run: a timer may fire
		if p.virtual {
			var best *ChanV
			for _, c := range p.timers {
				if !c.fired && !c.stopped && (best == nil || c.deadline < best.deadline) {
					best = c
				}
			}
			if best == nil || p.timerDl <= 0 {
				return nil
			}
			p.timerDl--
			if best.deadline > p.vnow {
				p.vnow = best.deadline
			}
			p.fireDue()
			continue
		}
		var ts []*ChanV
		for _, g := range p.gs {
			if g.state == 1 {
				for _, c := range g.waitT {
					if !c.fired && !c.stopped {
						ts = append(ts, c)
					}
				}
			}
		}
		if len(ts) == 0 || p.timerDl <= 0 {
			return nil
		}
		p.timerDl--
		c := ts[p.choose(len(ts))]
		p.fire(c)
	}
}

func (p *Path) deadlock(g *G) {
	if p.allowDeadlock {
		p.runAtEnd(g, "ok")
		return
	}
	var s []string
	for _, x := range p.gs {
		if x.state == 1 {
			s = append(s, x.name+": "+x.what)
		}
	}
	p.violate(p.main, nil, "deadlock: every goroutine is blocked ("+strings.Join(s, "; ")+")")
	p.finish(&Outcome{Kind: "end", Msg: "deadlock"})
}

// block parks g until ready() holds.
func (g *G) block(ready func() bool, what string) {
	p := g.p
	if ready() {
		return
	}
	if p.initDepth > 0 {
		panic(abortf("blocking operation during package initialisation"))
	}
	g.state = 1
	g.ready = ready
	g.what = what + " at " + g.where(3)
	n := p.pick(g)
	if n == nil {
		p.deadlock(g)
		panic(pathAbort{abKilled, ""})
	}
	if n != g {
		g.handoff(n)
	}
	g.state = 0
	g.ready = nil
}

func (g *G) handoff(n *G) {
	p := g.p
	n.state = 0
	p.lastG = n
	n.wake <- struct{}{}
	<-g.wake
	if p.dead {
		panic(pathAbort{abKilled, ""})
	}
	p.lastG = g
}

// yield is a scheduling point at a visible operation.
func (g *G) yield() {
	p := g.p
	if p.explore <= 0 || g.quiet > 0 {
		return
	}
	var rs []*G
	for _, x := range p.gs {
		if x != g && x.state != 2 && x.runnable() {
			rs = append(rs, x)
		}
	}
	if len(rs) == 0 {
		return
	}
	c := p.choose(len(rs) + 1)
	if c == 0 {
		return
	}
	p.explore--
	n := rs[c-1]
	if n.state == 1 {
		n.state = 0
	}
	g.handoff(n)
}

// newVarB is newVar with a known inclusive upper bound (which the caller also assumes).
func (p *Path) newVarB(w int32, name string, ub uint64) *Term {
	t := p.newVar(w, fmt.Sprintf("%s", name))
	if ub == 0 {
		return t
	}
	// a separate variable per bound, so that the bound is part of the term's identity
	p.vars = p.vars[:len(p.vars)-1]
	nm := p.lastName
	b := p.w.tc.Var(w, fmt.Sprintf("%s:%d<=%d", nm, w, ub))
	b.ub = ub
	p.vars = append(p.vars, symVar{nm, b})
	if p.env != nil {
		p.env[b.name] = new(big.Int)
	}
	return b
}
