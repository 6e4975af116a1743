package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/alexander-yu/stream"
const zPath = modPath + "/zverif"

func classifyPkg(path string) (repo, harness bool) {
	if path == zPath || strings.HasPrefix(path, zPath+"/") {
		return false, true
	}
	return path == modPath || strings.HasPrefix(path, modPath+"/"), false
}

type Engine struct {
	prog     *ssa.Program
	perPath  map[*ssa.Package]bool
	errType  types.Type
	thorough bool
	seed     int64
	harness  []*Harness
	hpkg     *ssa.Package
	spkg     *ssa.Package
	repoPkgs []*ssa.Package
	methods  sync.Map
	impls    sync.Map
	loadNS   int64
}

type Harness struct {
	name    string
	prop    string
	fn      *ssa.Function
	flags   map[string]string
	bounds  []string
	assumes []string
	labels  []string
	doc     string
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (e *Engine) isPerPath(pkg *ssa.Package) bool {
	r, h := classifyPkg(pkg.Pkg.Path())
	return r || h || e.perPath[pkg]
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if f, ok := e.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.methods.Store(k, f)
	return f
}

type ikey struct{ t, i types.Type }

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := ikey{t, it}
	if b, ok := e.impls.Load(k); ok {
		return b.(bool)
	}
	b := types.Implements(t, it)
	e.impls.Store(k, b)
	return b
}

var repoDir = "/repo"

func goEnv() []string {
	env := append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	return env
}

// overlayFiles maps virtual paths under /repo/zverif to the harness sources.
func overlayFiles(verif string) (map[string]string, error) {
	out := map[string]string{}
	for _, d := range []string{"harness", "sym", "vtick"} {
		fs, err := filepath.Glob(filepath.Join(verif, "zverif", d, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			out[filepath.Join(repoDir, "zverif", d, filepath.Base(f))] = f
		}
	}
	return out, nil
}

func loadEngine(verif string) (*Engine, error) {
	t0 := time.Now()
	ov, err := overlayFiles(verif)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for v, r := range ov {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		overlay[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: overlay, Env: goEnv()}
	pkgs, err := packages.Load(cfg, zPath+"/harness", "./...")
	if err != nil {
		return nil, err
	}
	bad := ""
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if r, h := classifyPkg(p.PkgPath); r || h {
			for _, e := range p.Errors {
				bad += e.Error() + "\n"
			}
		}
	})
	if bad != "" {
		return nil, fmt.Errorf("the tree does not compile:\n%s", bad)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, perPath: map[*ssa.Package]bool{}}
	seen := map[string]bool{}
	for i, sp := range spkgs {
		if sp == nil || seen[sp.Pkg.Path()] {
			continue
		}
		seen[sp.Pkg.Path()] = true
		r, _ := classifyPkg(sp.Pkg.Path())
		if r {
			e.repoPkgs = append(e.repoPkgs, sp)
		}
		if sp.Pkg.Path() == zPath+"/harness" {
			e.hpkg = sp
			if err := e.findHarness(sp, pkgs[i].Syntax); err != nil {
				return nil, err
			}
		}
	}
	e.spkg = prog.ImportedPackage(symPkg)
	if ep := prog.ImportedPackage("errors"); ep != nil {
		e.errType = types.NewPointer(ep.Type("errorString").Type())
	}
	if e.hpkg == nil {
		return nil, fmt.Errorf("no harness package")
	}
	e.loadNS = time.Since(t0).Nanoseconds()
	return e, nil
}

func (e *Engine) findHarness(sp *ssa.Package, files []*ast.File) error {
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || len(fd.Name.Name) < 4 || fd.Name.Name[0] != 'P' || fd.Name.Name[1] < '0' || fd.Name.Name[1] > '9' {
				continue
			}
			h := &Harness{name: fd.Name.Name, prop: fd.Name.Name[:3], fn: sp.Func(fd.Name.Name), flags: map[string]string{}}
			for _, l := range strings.Split(fd.Doc.Text(), "\n") {
				l = strings.TrimSpace(l)
				switch {
				case strings.HasPrefix(l, "flags:"):
					for _, kv := range strings.Fields(l[6:]) {
						k, v, _ := strings.Cut(kv, "=")
						h.flags[k] = v
					}
				case strings.HasPrefix(l, "bound:"):
					h.bounds = append(h.bounds, strings.TrimSpace(l[6:]))
				case strings.HasPrefix(l, "assume:"):
					h.assumes = append(h.assumes, strings.TrimSpace(l[7:]))
				case l != "":
					h.doc += l + " "
				}
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Reach" && len(c.Args) == 1 {
						if l, ok := c.Args[0].(*ast.BasicLit); ok {
							x, _ := strconv.Unquote(l.Value)
							h.labels = append(h.labels, x)
						}
					}
				}
				return true
			})
			e.harness = append(e.harness, h)
		}
	}
	sort.Slice(e.harness, func(i, j int) bool { return e.harness[i].name < e.harness[j].name })
	return nil
}

type Task struct {
	prefix []int64
	cp     int // checkpoints passed
	skip   int // checkpoints covered by the prefix of a parked path
	model  Model
	ok     bool
	maybe  bool
}

// Sample is a finished path with concrete inputs and the values the encoding predicts.
type Sample struct {
	Inputs []NInput
	Obs    []NObs
	weight uint64
}

type HarnessRun struct {
	eng       *Engine
	h         *Harness
	redirects map[string]*ssa.Function
	mu        sync.Mutex
	cond      *sync.Cond
	queue     map[int][]*Task // by checkpoints passed, each a stack
	qlen      int
	qmin      int
	active    int
	stop      int32
	deadline  time.Time
	maxStep   int64

	paths, infeasible, mergedN, limits, unsupported int
	transitions, steps                              int64
	asserts, solvedAsserts                          int64
	limitMsgs                                       map[string]int
	reached                                         map[string]bool
	notes                                           map[string]int
	viols                                           []*Violation
	hangs                                           []*Violation
	violKeys                                        map[string]int
	samples                                         []*Sample
	visited                                         map[[20]byte]struct{}
	tallies                                         map[string]*tallySum
	tallyBad                                        bool
	maxDepth                                        int
	wall                                            time.Duration
	approx                                          bool
	complete                                        bool
	maxQueue                                        int
}

func (r *HarnessRun) push(t *Task) {
	r.mu.Lock()
	r.queue[t.cp] = append(r.queue[t.cp], t)
	if t.cp < r.qmin {
		r.qmin = t.cp
	}
	r.qlen++
	if r.qlen > r.maxQueue {
		r.maxQueue = r.qlen
	}
	r.cond.Signal()
	r.mu.Unlock()
}

func (r *HarnessRun) checkDeadline() {
	if atomic.LoadInt32(&r.stop) != 0 {
		panic(pathAbort{"limit", "stopped"})
	}
	if time.Now().After(r.deadline) {
		panic(pathAbort{"limit", "time budget"})
	}
}

func (r *HarnessRun) countAssert(solver bool) {
	atomic.AddInt64(&r.asserts, 1)
	if solver {
		atomic.AddInt64(&r.solvedAsserts, 1)
	}
}

func (r *HarnessRun) next() *Task {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if atomic.LoadInt32(&r.stop) != 0 {
			return nil
		}
		if r.qlen > 0 {
			for len(r.queue[r.qmin]) == 0 {
				delete(r.queue, r.qmin)
				r.qmin++
			}
			q := r.queue[r.qmin]
			t := q[len(q)-1]
			q[len(q)-1] = nil
			r.queue[r.qmin] = q[:len(q)-1]
			r.qlen--
			r.active++
			return t
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *HarnessRun) done() {
	r.mu.Lock()
	r.active--
	if r.active == 0 && r.qlen == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func (h *Harness) flagInt(k string, d int) int {
	if v, ok := h.flags[k]; ok {
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	}
	return d
}

var nWorkers = 8

// explore runs one harness to completion or to its deadline.
func (e *Engine) explore(h *Harness, workers []*Worker, budget time.Duration) *HarnessRun {
	r := &HarnessRun{eng: e, h: h, limitMsgs: map[string]int{}, reached: map[string]bool{}, notes: map[string]int{}, violKeys: map[string]int{}, visited: map[[20]byte]struct{}{}, tallies: map[string]*tallySum{}}
	r.cond = sync.NewCond(&r.mu)
	r.maxStep = int64(h.flagInt("maxsteps", 4000000))
	if e.thorough {
		r.maxStep *= 4
	}
	if h.flags["ring"] == "fifo" {
		r.redirects = e.ringRedirects()
	}
	t0 := time.Now()
	r.deadline = t0.Add(budget)
	r.queue = map[int][]*Task{}
	r.push(&Task{model: Model{}, ok: true})
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.begin(r)
			for {
				t := r.next()
				if t == nil {
					return
				}
				w.runTask(r, t)
				r.done()
			}
		}(w)
	}
	wg.Wait()
	r.wall = time.Since(t0)
	r.complete = r.qlen == 0 && r.limits == 0 && r.unsupported == 0 && atomic.LoadInt32(&r.stop) == 0
	return r
}

func newWorker(e *Engine, id int) *Worker {
	w := &Worker{id: id, eng: e}
	w.reset()
	return w
}

func (w *Worker) reset() {
	var st Stats
	if w.s != nil {
		st = w.s.stats
		w.s.Close()
	}
	w.t = NewTerms()
	w.s = NewSolver(w.t)
	w.s.stats = st
	w.consts = nil
	w.stdGlob = map[*ssa.Global]*Value{}
	w.stdInit = map[*ssa.Package]bool{}
}

func (w *Worker) begin(r *HarnessRun) {
	w.spec = r
	fp := r.h.flags["mode"] == "fp"
	if fp != w.fp || w.t.n > 0 {
		w.fp = fp
		w.reset()
	}
	w.s.timeoutMS = r.h.flagInt("qtimeout", 20000)
	if w.eng.thorough {
		w.s.timeoutMS *= 3
	}
}

func (w *Worker) runTask(r *HarnessRun, t *Task) {
	if w.t.n > 1500000 {
		w.reset()
	}
	p := &Path{w: w, t: w.t, prefix: t.prefix, skipCP: t.skip, pcset: map[*Term]bool{}, ord: newOrd(w.t), ec: evalCache{}, sqrts: map[*Term]*Term{}, maxStep: r.maxStep,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, reached: map[string]bool{}, notes: map[string]int{}}
	p.setModel(t.model, t.ok)
	p.mapPerm = r.h.flags["mapperm"] == "1"
	pre := r.h.flagInt("preempt", 2)
	if w.eng.thorough {
		pre = r.h.flagInt("tpreempt", pre+1)
	}
	p.sch = newSched(p, pre)
	p.sch.delays = -1
	if r.h.flags["delay"] != "" {
		n := r.h.flagInt("delay", 0)
		if w.eng.thorough {
			n = r.h.flagInt("tdelay", n+1)
		}
		p.sch.maxPre, p.sch.delays = n, n
	}
	p.sch.one = r.h.flags["sched"] == "one"
	p.sch.maxSync = r.h.flagInt("syncs", 5000)
	p.sch.races = r.h.flags["races"] != "off"
	var ab pathAbort
	func() {
		defer func() {
			x := recover()
			switch x := x.(type) {
			case nil:
				ab.kind = "done"
			case pathAbort:
				ab = x
			case targetPanic:
				func() {
					defer func() {
						y := recover()
						if a, ok := y.(pathAbort); ok {
							ab = a
						} else if y != nil {
							ab = pathAbort{"unsupported", fmt.Sprint("engine: ", y)}
						}
					}()
					p.reportPanic(x, nil)
				}()
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					panic(x)
				}
				ab = pathAbort{"unsupported", fmt.Sprintf("engine error: %v", x)}
			}
		}()
		p.call(nil, p.sch.gs[0], &Closure{fn: r.h.fn}, nil)
	}()
	if ab.kind == "done" || ab.kind == "merged" || ab.kind == "parked" {
		func() {
			defer func() {
				if x := recover(); x != nil {
					if a, ok := x.(pathAbort); ok {
						ab = a
						return
					}
					panic(x)
				}
			}()
			p.confirm()
		}()
	}
	p.sch.finish()
	r.record(p, t, ab)
}

func (r *HarnessRun) record(p *Path, t *Task, ab pathAbort) {
	var smp *Sample
	if ab.kind == "done" || ab.kind == "merged" || ab.kind == "parked" {
		if p.modelOK {
			smp = r.makeSample(p)
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.transitions += int64(p.transitions)
	r.steps += p.steps
	if len(p.dec) > r.maxDepth {
		r.maxDepth = len(p.dec)
	}
	if p.approx {
		r.approx = true
	}
	for k, v := range p.notes {
		r.notes[k] += v
	}
	switch ab.kind {
	case "done", "merged", "violation":
		r.paths++
		if ab.kind == "merged" {
			r.mergedN++
		}
		for k := range p.reached {
			r.reached[k] = true
		}
		if smp != nil {
			r.keepSample(smp)
		}
		if ab.kind == "done" {
			r.addTallies(p)
		}
		if ab.kind == "violation" {
			v := p.viol
			if r.violKeys[v.Msg] < 3 {
				r.viols = append(r.viols, v)
			}
			r.violKeys[v.Msg]++
			if len(r.viols) == 1 {
				d := time.Now().Add(4 * time.Second)
				if d.Before(r.deadline) {
					r.deadline = d
				}
			}
			if len(r.viols) >= 8 {
				atomic.StoreInt32(&r.stop, 1)
				r.cond.Broadcast()
			}
		}
	case "parked":
		for k := range p.reached {
			r.reached[k] = true
		}
		if smp != nil && len(r.samples) == 0 {
			r.keepSample(smp)
		}
	case "infeasible":
		r.infeasible++
	case "limit":
		r.limits++
		r.limitMsgs[ab.msg]++
		if strings.HasPrefix(ab.msg, "step limit") || strings.HasPrefix(ab.msg, "call depth") || strings.HasPrefix(ab.msg, "allocation") {
			if len(r.hangs) < 3 && p.modelOK {
				r.hangs = append(r.hangs, &Violation{Kind: "hang", Msg: "does not terminate or overflows the stack: " + ab.msg, Harness: r.h.name, Dec: p.dec, Inputs: p.inputs, Model: p.model, Exact: true, Sched: append([]int{}, p.sch.trace...)})
			}
		}
		if ab.msg == "time budget" && atomic.LoadInt32(&r.stop) == 0 {
			atomic.StoreInt32(&r.stop, 1)
			r.cond.Broadcast()
		}
	default:
		r.unsupported++
		r.limitMsgs[ab.kind+": "+ab.msg]++
	}
}

// ringRedirects replaces the third-party RingBuffer by a FIFO model in the sym package.
func (e *Engine) ringRedirects() map[string]*ssa.Function {
	const q = "github.com/workiva/go-datastructures/queue"
	m := map[string]*ssa.Function{}
	for from, to := range map[string]string{"NewRingBuffer": "RingNew", "Put": "RingPut", "Offer": "RingOffer", "Get": "RingGet", "Poll": "RingPoll", "Len": "RingLen", "Cap": "RingCap", "Dispose": "RingDispose", "IsDisposed": "RingIsDisposed"} {
		f := e.spkg.Func(to)
		if f == nil {
			continue
		}
		n := "(*" + q + ".RingBuffer)." + from
		if from == "NewRingBuffer" {
			n = q + "." + from
		}
		m[n] = f
	}
	return m
}
