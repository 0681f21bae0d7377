package main

import (
	"fmt"
	"strings"

	"SIMROOT/simrt"
)

// Prop is one property with its workload generator and oracle.
type Prop struct {
	ID       string
	Gen      func(g Gen) *Plan
	Exec     func(p *Plan, st *Stats) *Violation
	Race     bool
	Age      bool // clock jumps among the faults
	Quick    int
	Thorough int
	Rule     string
	Assume   []string
}

// run decides one plan. Only C16 judges a run that was ended because goroutines
// of the library had accumulated.
func (pr *Prop) run(p *Plan, st *Stats) *Violation {
	before := simrt.Piles
	v := pr.Exec(p, st)
	if v != nil && simrt.Piles > before && pr.ID != "C16" {
		st.Inconclusive++
		return nil
	}
	return v
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// stdMods are custom modifiers with fixed meaning used by most workloads.
func stdMods(p *Plan) []string {
	p.Mods = []Mod{{Kind: "tag", Name: "tag"}, {Kind: "upper", Name: "up"}, {Kind: "null", Name: "nul"}, {Kind: "wrap", Name: "wrap"}, {Kind: "elems", Name: "elems"}}
	for i := range p.Mods {
		p.Pre = append(p.Pre, Op{K: "reg", N: p.Mods[i].Name, M: i})
	}
	return []string{"tag", "up", "nul", "wrap", "elems", "sort", "reverse", "first"}
}

func number(p *Plan) {
	id := 1
	each := func(l []Op) {
		for i := range l {
			l[i].ID = id
			id++
		}
	}
	each(p.Pre)
	for _, t := range p.Threads {
		each(t)
	}
	each(p.Post)
}

type docset struct {
	g     Gen
	p     *Plan
	roots [][]*node
	paths []string
}

// docs adds n documents and a family of related paths to the plan.
func (g Gen) docset(p *Plan, n int, wild bool, mods []string) *docset {
	d := &docset{g: g, p: p}
	for i := 0; i < n; i++ {
		var s string
		var r []*node
		if g.p(1, 150) {
			s, r = g.bigDoc()
		} else {
			s, r = g.doc(wild)
		}
		if g.p(1, 14) { // a torn document
			s = s[:g.Intn(len(s))]
		}
		p.Docs = append(p.Docs, S(s))
		d.roots = append(d.roots, r)
	}
	k := g.n(1, 4)
	for i := 0; i < k; i++ {
		base := g.path(pick(g, d.roots), mods)
		d.paths = append(d.paths, base)
		for j := g.n(0, 3); j > 0; j-- {
			d.paths = append(d.paths, g.variant(base))
		}
	}
	return d
}

func (d *docset) query(mods []string) Op {
	i := d.g.Intn(len(d.roots))
	return d.g.queryOp(i, d.roots[i], d.paths, mods)
}

func (d *docset) write() Op {
	i := d.g.Intn(len(d.roots))
	return d.g.writeOp(i, d.roots[i], nil)
}

func (g Gen) noise(i int) Op {
	n := S(fmt.Sprintf("noise%d", g.Intn(3)))
	switch g.Intn(5) {
	case 0, 1:
		return Op{K: "reg", N: n, M: 0}
	case 2, 3:
		return Op{K: "unreg", N: n}
	}
	return Op{K: "getmod", N: n}
}

// genHeavy lets a few expensive queries overlap.
func genHeavy(g Gen, prop string) *Plan {
	p := &Plan{Prop: prop, Mode: "heavy"}
	stdMods(p)
	doc, paths := g.heavyDoc()
	p.Docs = append(p.Docs, S(doc))
	for t := g.n(2, 4); t > 0; t-- {
		op := Op{K: pick(g, []string{"get", "getbytes", "getopt", "getstr"}), P: S(pick(g, paths))}
		if op.K == "getopt" {
			op.O = pick(g, []int{0, 2, 5})
		}
		p.Threads = append(p.Threads, []Op{op})
	}
	number(p)
	p.Sched = simrt.Sched{Seed: g.Next(), Kind: simrt.Uniform, Num: 1, Den: pick(g, []uint32{500, 5000, 50000})}
	if g.p(1, 2) {
		p.Sched = simrt.Sched{Seed: g.Next(), Kind: simrt.PCT, Depth: g.n(1, 4)}
	}
	return p
}

// genFocus lets all threads do the same kind of thing to documents that differ
// little, so that every switch inside a call meets a call in the same place.
func genFocus(g Gen, prop string, write bool) *Plan {
	p := &Plan{Prop: prop, Mode: "focus"}
	mods := stdMods(p)
	st := g.style(true)
	st.fold = g.p(1, 6)
	doc, roots := g.styledDoc(st)
	p.Docs = append(p.Docs, S(doc))
	rs := [][]*node{roots}
	for i := g.n(1, 3); i > 0; i-- {
		for k := g.n(1, 5); k > 0; k-- {
			doc = g.docVariant(doc)
		}
		p.Docs = append(p.Docs, S(doc))
		rs = append(rs, roots)
	}
	if g.p(1, 2) {
		doc, roots := g.styledDoc(st)
		p.Docs = append(p.Docs, S(doc))
		rs = append(rs, roots)
	}
	kinds := []int{g.Intn(writeKinds), g.Intn(writeKinds)}
	class := g.Intn(setClasses)
	mark := pick(g, []string{"", "", "#(", "#(", "#(", "@", ".#.", "**", "|@"})
	var paths []string
	for _, r := range rs {
		gen := func() string { return g.setPathOf(r, class) }
		if !write {
			gen = func() string {
				q := g.path(r, mods)
				for i := 0; i < 25 && !strings.Contains(q, mark); i++ {
					q = g.path(r, mods)
				}
				return q
			}
		}
		first := gen()
		if len(paths) > 0 && !write {
			first = paths[0]
		}
		paths = append(paths, g.alike(first, 2, gen)...)
	}
	if !write {
		kinds = []int{g.Intn(queryKinds), g.Intn(queryKinds)}
	}
	opts := []int{g.Intn(nOpts), g.Intn(nOpts)}
	path := func() S { return S(pick(g, paths)) }
	if st.fold {
		opts = []int{2, 4, 8}
		if kinds = []int{4, 5, 6}; write {
			kinds = []int{5, 6, 11}
		}
		path = func() S {
			q := pick(g, paths)
			if g.p(1, 2) {
				q = g.flipCase(q)
			}
			return S(q)
		}
	}
	for t := g.n(2, 4); t > 0; t-- {
		var ops []Op
		for i := g.n(1, 4); i > 0; i-- {
			di := g.Intn(len(rs))
			var o Op
			if write {
				o = g.writeOf(pick(g, kinds), di, path)
			} else {
				o = g.queryOf(pick(g, kinds), di, rs[di], mods, path)
			}
			if o.O != 0 || st.fold {
				o.O = pick(g, opts)
			}
			ops = append(ops, o)
		}
		p.Threads = append(p.Threads, ops)
	}
	number(p)
	p.Sched = g.sched(0)
	if g.p(1, 2) {
		p.Pool = g.Next() | 1
	}
	return p
}

func genConc(g Gen, prop string, writeNum int) *Plan {
	if prop == "C01" && g.p(1, 100) {
		return genHeavy(g, prop)
	}
	if g.p(2, 5) {
		return genFocus(g, prop, g.Intn(10) < writeNum)
	}
	p := &Plan{Prop: prop}
	mods := stdMods(p)
	d := g.docset(p, g.n(1, 3), true, mods)
	nt := g.n(2, 4)
	if g.p(1, 10) {
		nt = 5
	}
	burst := g.p(1, 6)
	noise := g.p(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := g.n(2, 7); i > 0; i-- {
			switch {
			case noise && g.p(1, 4):
				ops = append(ops, g.noise(t))
			case burst && g.p(1, 5):
				ops = append(ops, Op{K: "burst", D: 0, P: S(fmt.Sprintf("a%d", g.Intn(3))), X: pick(g, []int{3, 20, 150, 300})})
			case g.Intn(10) < writeNum:
				ops = append(ops, d.write())
			default:
				ops = append(ops, d.query(mods))
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	number(p)
	p.Sched = g.sched(0)
	if g.p(1, 2) {
		p.Pool = g.Next() | 1
	}
	return p
}

func comparable_(op *Op) bool {
	switch op.K {
	case "reg", "unreg", "getmod", "burst", "storm", "restart", "stall", "nop", "probemod", "age":
		return false
	}
	return true
}

// execDiff runs the plan's threads and compares each call with the same call alone.
func execDiff(p *Plan, st *Stats) *Violation {
	ref := newRef(p)
	for _, t := range p.Threads {
		for i := range t {
			if comparable_(&t[i]) {
				ref.out(&t[i])
			}
		}
	}
	e, _ := boot(p)
	s := p.Sched
	if s.Kind == simrt.PCT && s.Steps == 0 {
		s.Steps = ref.steps
	}
	rep := e.conc(s)
	st.add(p, e, rep)
	if v := stuck(rep); v != nil {
		return v
	}
	return diffs(e, ref)
}

func diffs(e *Env, ref *Ref) *Violation {
	for _, d := range e.outcomes() {
		if d.Lost || !comparable_(&d.Op) {
			continue
		}
		want := ref.out(&d.Op)
		if want.Enc != d.Out.Enc {
			op := d.Op
			return &Violation{Kind: "differs-from-alone:" + d.Op.K, Detail: fmt.Sprintf("call %d on thread %d returned something else than it returns alone", d.Op.ID, d.Thread), Op: &op, Expected: want.Enc, Got: d.Out.Enc}
		}
	}
	return nil
}

// conc runs the plan's threads under the schedule.
func (e *Env) conc(s simrt.Sched) simrt.Report {
	var fns []func()
	for _, t := range e.p.Threads {
		fns = append(fns, e.body(t))
	}
	return simrt.Run(simCfg(e.p, s), fns)
}

func init() {
	register(&Prop{ID: "C01", Age: true, Quick: 30000, Thorough: 400000,
		Gen:  func(g Gen) *Plan { return genConc(g, "C01", 2) },
		Exec: execDiff,
		Rule: "seeded plan (documents, related paths, ops per thread) and schedule; non-trivial: at least 2 threads finished a compared query and at least one preemption happened inside the library"})
	register(&Prop{ID: "C02", Age: true, Quick: 22000, Thorough: 300000,
		Gen:  func(g Gen) *Plan { return genConc(g, "C02", 8) },
		Exec: execDiff,
		Rule: "seeded plan dominated by writes on shared inputs and schedule; non-trivial: at least 2 threads finished a compared call and at least one preemption happened inside the library"})
	register(&Prop{ID: "C03", Age: true, Quick: 12000, Thorough: 200000, Gen: genC03, Exec: execC03,
		Rule: "seeded history of calls by one client with bursts, buffer reuse, crashes and restarts; non-trivial: at least 20 compared calls of which at least 2 share a path with an earlier call on another document or option"})
	register(&Prop{ID: "C04", Age: true, Quick: 14000, Thorough: 180000, Race: true, Gen: genC04, Exec: execC04,
		Rule:   "seeded plan over the whole API with shared inputs and schedule, with the happens-before monitor on; non-trivial: at least 2 threads and at least one preemption inside the library",
		Assume: []string{"the Go race detector reports a conflicting pair when both accesses happen in a run and are not ordered by the library's own synchronisation; simulated locks declare exactly the ordering real ones give"}})
}

func genC03(g Gen) *Plan {
	p := &Plan{Prop: "C03"}
	mods := stdMods(p)
	p.Mods = append(p.Mods, Mod{Kind: "tag", Name: "boom", Crash: "panic"})
	p.Pre = append(p.Pre, Op{K: "reg", N: "boom", M: len(p.Mods) - 1})
	d := g.docset(p, g.n(1, 3), true, mods)
	// near-identical documents
	for i := g.n(0, 3); i > 0; i-- {
		k := g.Intn(len(d.roots))
		if g.p(1, 4) {
			p.Docs = append(p.Docs, S(g.broken(string(p.Docs[k]))))
		} else {
			p.Docs = append(p.Docs, S(g.docVariant(string(p.Docs[k]))))
		}
		d.roots = append(d.roots, d.roots[k])
	}
	if g.p(1, 3) { // long common prefixes
		pre := strings.Repeat(pick(g, []string{"aa.", "item.", "x"}), g.n(8, 25))
		for i := 0; i < 4; i++ {
			d.paths = append(d.paths, pre+pick(g, namePool))
		}
		r := d.roots[0]
		long := g.path(r, nil)
		d.paths = append(d.paths, long+strings.Repeat("|@first", g.n(2, 12)), long+strings.Repeat("|@first", g.n(2, 12))+"|@last")
	}
	n := g.n(20, 60)
	if g.p(1, 10) {
		n = g.n(100, 300)
	}
	wr := g.n(0, 4)
	faults := g.Intn(8)
	var ops []Op
	for len(ops) < n {
		switch {
		case faults&1 != 0 && g.p(1, 25):
			ops = append(ops, Op{K: "burst", D: g.Intn(len(p.Docs)), P: S(pick(g, []string{"a", "item", "x"})), X: pick(g, []int{5, 60, 255, 256, 257, 300})})
		case faults&2 != 0 && g.p(1, 25):
			ops = append(ops, Op{K: "restart"})
		case faults&4 != 0 && g.p(1, 20):
			i := g.Intn(len(d.roots))
			ops = append(ops, Op{K: "get", D: i, P: S(g.path(d.roots[i], nil) + "|@boom")})
		case g.p(1, 12):
			ops = append(ops, Op{K: pick(g, []string{"valid", "validbytes", "validbytes"}), D: g.Intn(len(p.Docs))})
		case g.Intn(10) < wr:
			o := d.write()
			if len(ops) > 0 && g.p(1, 2) && o.P != "" {
				o.P = S(pick(g, d.paths))
			}
			ops = append(ops, o)
		case len(ops) > 0 && g.p(1, 6):
			// repeat an earlier call on another document or with other options
			o := ops[g.Intn(len(ops))]
			o.D = g.Intn(len(d.roots))
			if o.K == "getopt" || o.K == "setopt" {
				o.O = g.Intn(nOpts)
			}
			ops = append(ops, o)
		default:
			o := d.query(mods)
			if g.p(1, 3) {
				o.P = S(g.variant(string(o.P)))
			}
			ops = append(ops, o)
		}
		if k := &ops[len(ops)-1]; strings.Contains(k.K, "bytes") && g.p(1, 2) {
			k.X = 1
		}
		if k := &ops[len(ops)-1]; k.K == "get" && g.p(1, 5) { // conversions keep no history either
			k.K = "chain"
			if g.p(1, 3) {
				k.C = append(k.C, Step{M: "elem", N: g.Intn(3)})
			}
			k.C = append(k.C, Step{M: "conv"})
		}
	}
	p.Threads = [][]Op{ops}
	number(p)
	p.Sched = quietSched
	if g.p(1, 2) {
		p.Pool = g.Next() | 1
	}
	return p
}

func execC03(p *Plan, st *Stats) *Violation {
	ref := newRef(p)
	if len(p.Threads) == 0 {
		return nil
	}
	for i := range p.Threads[0] {
		if comparable_(&p.Threads[0][i]) {
			ref.out(&p.Threads[0][i])
		}
	}
	e, _ := boot(p)
	rep := e.conc(p.Sched)
	st.add(p, e, rep)
	if v := stuck(rep); v != nil {
		return v
	}
	return diffs(e, ref)
}

func genC04(g Gen) *Plan {
	p := &Plan{Prop: "C04"}
	mods := stdMods(p)
	d := g.docset(p, g.n(1, 2), false, mods)
	for i := g.n(1, 3); i > 0; i-- {
		k := g.Intn(len(d.roots))
		p.Shared = append(p.Shared, Op{K: "get", D: k, P: S(g.path(d.roots[k], mods))})
	}
	nt := g.n(2, 4)
	focus := g.Intn(4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := g.n(2, 6); i > 0; i-- {
			w := []int{5, 4, 3, 3, 1, 1}
			w[focus] += 8
			switch g.wpick(w...) {
			case 5:
				k := g.Intn(len(d.roots))
				if g.p(1, 2) {
					torn := p.Docs[k][:g.Intn(len(p.Docs[k])+1)]
					p.Docs = append(p.Docs, torn)
					k = len(p.Docs) - 1
				}
				ops = append(ops, Op{K: pick(g, []string{"valid", "validbytes"}), D: k})
			case 0:
				o := d.query(mods)
				if (o.K == "getopt" || o.K == "getbytesopt" || o.K == "getstropt") && g.p(1, 3) {
					o.O = 8 + g.Intn(2)
				}
				ops = append(ops, o)
			case 1:
				o := d.write()
				if (o.K == "setopt" || o.K == "setbytesopt" || o.K == "delbytesopt") && g.p(1, 3) {
					o.O = 8 + g.Intn(2)
				}
				ops = append(ops, o)
			case 2:
				ops = append(ops, g.regOp(mods))
			case 3:
				k := g.Intn(len(d.roots))
				ops = append(ops, Op{K: "res", R: g.Intn(len(p.Shared)), C: g.steps(d.roots[k], mods)})
			case 4:
				ops = append(ops, Op{K: "burst", P: S(fmt.Sprintf("a%d", g.Intn(3))), X: pick(g, []int{3, 20, 200})})
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	number(p)
	p.Sched = g.sched(4000)
	if g.p(1, 2) {
		p.Pool = g.Next() | 1
	}
	return p
}

func (g Gen) regOp(mods []string) Op {
	names := []string{"c1", "c2", "c3", "sort", "tag"}
	n := S(pick(g, names))
	switch g.wpick(4, 3, 2, 2, 3) {
	case 0:
		return Op{K: "reg", N: n, M: g.Intn(5)}
	case 1:
		if n == "tag" {
			n = "c1"
		}
		return Op{K: "unreg", N: n}
	case 2:
		return Op{K: "getmod", N: n}
	case 3:
		return Op{K: "probemod", N: n}
	}
	return Op{K: "get", D: 0, P: "*|@" + n}
}

func execC04(p *Plan, st *Stats) *Violation {
	before := simrt.RaceErrors()
	e, _ := boot(p)
	rep := e.conc(p.Sched)
	st.add(p, e, rep)
	if n := simrt.RaceErrors() - before; n > 0 {
		texts, known := raceTexts(n)
		if !known {
			return &Violation{Kind: "data-race", Detail: fmt.Sprintf("%d conflicting unsynchronised accesses", n)}
		}
		if len(texts) > 0 {
			return &Violation{Kind: "data-race", Detail: fmt.Sprintf("%d conflicting unsynchronised accesses: %s", len(texts), texts[0])}
		}
		st.Inconclusive++
	}
	if rep.Deadlock || rep.Overrun {
		st.Inconclusive++
	}
	return nil
}
