package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"runtime"
	"strings"

	xmldot "MODROOT"
	"SIMROOT/simrt"
)

// ---- C11 ----

func genC11(g Gen) *Plan {
	p := &Plan{Prop: "C11"}
	mods := stdMods(p)
	d := g.docset(p, g.n(1, 3), true, mods)
	nt := g.n(1, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := g.n(2, 7); i > 0; i-- {
			var o Op
			switch g.wpick(4, 6, 2) {
			case 0:
				o = d.query(mods)
			case 1:
				o = d.write()
			case 2:
				o = Op{K: "watch"}
			}
			if o.K != "watch" && o.K != "chain" && g.p(2, 3) {
				o.X = 2
			}
			ops = append(ops, o)
		}
		p.Threads = append(p.Threads, ops)
	}
	if nt > 1 {
		w := len(p.Threads) - 1
		p.Threads[w] = nil
		for i := g.n(2, 8); i > 0; i-- {
			p.Threads[w] = append(p.Threads[w], Op{K: "watch"})
		}
	}
	for i := 0; i < 3; i++ {
		p.Post = append(p.Post, d.query(mods))
	}
	number(p)
	p.Sched = g.sched(0)
	if g.p(1, 2) {
		p.Pool = g.Next() | 1
	}
	return p
}

func execC11(p *Plan, st *Stats) *Violation {
	ref := newRef(p)
	all := func(f func(o *Op)) {
		for _, t := range p.Threads {
			for i := range t {
				f(&t[i])
			}
		}
		for i := range p.Post {
			f(&p.Post[i])
		}
	}
	all(func(o *Op) {
		if comparable_(o) && o.K != "watch" {
			ref.out(o)
		}
	})
	e, _ := boot(p)
	s := p.Sched
	if s.Kind == simrt.PCT && s.Steps == 0 {
		s.Steps = ref.steps
	}
	rep := e.conc(s)
	st.add(p, e, rep)
	if v := stuck(rep); v != nil {
		return v
	}
	if v := stuck(e.runPost()); v != nil {
		return v
	}
	if e.bad != nil {
		return e.bad
	}
	for _, d := range e.outcomes() {
		if d.Op.K == "watch" && !d.Lost && d.Out.Enc != "intact" {
			return &Violation{Kind: "shared-input-modified", Detail: "while calls were in progress: " + d.Out.Enc, Expected: "intact", Got: d.Out.Enc}
		}
	}
	for i := range e.bufs {
		if string(e.bufs[i]) != string(p.Docs[i]) {
			return &Violation{Kind: "shared-input-modified", Detail: fmt.Sprintf("input buffer %d changed", i), Expected: short(string(p.Docs[i])), Got: short(string(e.bufs[i]))}
		}
	}
	return diffs(e, ref)
}

// ---- C12 ----

func genC12(g Gen) *Plan {
	p := &Plan{Prop: "C12"}
	mods := stdMods(p)
	d := g.docset(p, g.n(1, 2), true, mods)
	nt := 1
	if g.p(1, 4) {
		nt = g.n(2, 3)
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := g.n(3, 10); i > 0; i-- {
			if g.p(3, 5) {
				ops = append(ops, d.query(mods))
			} else {
				ops = append(ops, d.write())
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	for i := g.n(2, 5); i > 0; i-- {
		p.Seeds = append(p.Seeds, g.Next()|1)
	}
	number(p)
	p.Sched = quietSched
	if nt > 1 {
		p.Sched = g.sched(20000)
	}
	return p
}

func execC12(p *Plan, st *Stats) *Violation {
	var first []*Done
	seeds := append([]uint64{0}, p.Seeds...)
	for k, s := range seeds {
		q := *p
		q.MapSeed, q.Pool = s, s
		if s != 0 {
			q.Pool = s | 1
		}
		if k == 0 {
			q.Sched = quietSched
		}
		e, _ := boot(&q)
		rep := e.conc(q.Sched)
		st.add(&q, e, rep)
		if v := stuck(rep); v != nil {
			return v
		}
		if k > 0 {
			st.Faults["map-order-and-pool-reseeded"]++
			st.Faults["restart"]++
		}
		now := e.outcomes()
		if k == 0 {
			first = now
			continue
		}
		if len(now) != len(first) {
			return &Violation{Kind: "differs-between-runs", Detail: "different number of finished calls"}
		}
		for i := range now {
			if now[i].Out.Enc != first[i].Out.Enc {
				op := now[i].Op
				return &Violation{Kind: "differs-between-runs", Detail: fmt.Sprintf("call %d gives different output under another map order, object reuse or schedule", op.ID), Op: &op, Expected: first[i].Out.Enc, Got: now[i].Out.Enc}
			}
		}
	}
	return nil
}

// ---- C14 ----

func genC14(g Gen) *Plan {
	p := &Plan{Prop: "C14", Ints: map[string]int{}}
	mods := stdMods(p)
	d := g.docset(p, g.n(1, 2), true, mods)
	nt := g.n(1, 3)
	heavy := g.p(1, 400)
	if heavy {
		p.Docs = []S{"<r><a>1</a></r>"}
		d.roots = [][]*node{{{name: "r", kids: []*node{{name: "a"}}}}}
		nt = 1
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := g.n(1, 3); i > 0; i-- {
			k := g.Intn(len(d.roots))
			if heavy {
				o := Op{K: pick(g, []string{"setmany", "setmanybytes"}), F: "grow"}
				for j := 0; j < 4; j++ {
					o.Ps = append(o.Ps, S(fmt.Sprintf("r.b%d", j)))
					o.Vs = append(o.Vs, Val{T: "string", S: "x", N: 4900000})
				}
				ops = append(ops, o)
				break
			}
			ops = append(ops, g.batchOp(k, d.roots[k]))
		}
		if g.p(1, 3) && !heavy {
			ops = append(ops, d.query(mods))
		}
		p.Threads = append(p.Threads, ops)
	}
	number(p)
	p.Sched = g.sched(20000)
	if heavy {
		p.Sched = quietSched
		p.Ints["oplimit"] = 2000000000
	}
	return p
}

func (g Gen) batchOp(di int, roots []*node) Op {
	o := Op{D: di}
	n := g.n(0, 6)
	if g.p(1, 12) {
		n = g.n(10, 40)
	}
	if g.p(3, 10) {
		o.K = pick(g, []string{"delmany", "delmanybytes"})
		for i := 0; i < n; i++ {
			q := S(g.setPath(roots))
			if len(o.Ps) > 0 && g.p(1, 5) {
				q = o.Ps[g.Intn(len(o.Ps))]
				if g.p(1, 2) {
					q += ".x"
				}
			}
			o.Ps = append(o.Ps, q)
		}
		if n > 0 && g.p(1, 2) {
			o.F = "bad-delete-path"
			at := g.Intn(n + 1)
			o.Ps = append(o.Ps[:at:at], append([]S{S(pick(g, []string{"", "a.-1", "a.-2", strings.Repeat("q.", 130) + "z"}))}, o.Ps[at:]...)...)
		}
		return o
	}
	o.K = pick(g, []string{"setmany", "setmanybytes"})
	for i := 0; i < n; i++ {
		q := S(g.setPath(roots))
		if len(o.Ps) > 0 && g.p(1, 3) { // a step on top of an earlier one
			q = o.Ps[g.Intn(len(o.Ps))]
			if g.p(1, 2) {
				q += S(pick(g, []string{".x", ".@id", ".-1", ".y.z"}))
			}
		}
		o.Ps = append(o.Ps, q)
		v := g.value()
		if v.T == "bad" {
			v = Val{T: "nil"}
		}
		o.Vs = append(o.Vs, v)
	}
	if g.p(1, 2) {
		return o
	}
	at := g.Intn(n + 1)
	bp, bv := S(roots[0].name+".zz"), Val{T: "int", I: 1}
	switch g.Intn(8) {
	case 0:
		o.F, bp = "empty-path", ""
	case 1:
		o.F, bp = "bad-index", S(roots[0].name+".a.-2")
	case 2:
		o.F, bp = "append-nested", S(roots[0].name+".a.-1.b")
	case 3, 4:
		o.F, bv = "bad-value", Val{T: "bad"}
	case 5:
		o.F, bv = "broken-raw", Val{T: "bytes", S: S(pick(g, []string{"<x>", "</y>", "<", "<a><b></a></b>"}))}
	case 6:
		o.F = "length-mismatch"
		if g.p(1, 2) || len(o.Vs) == 0 {
			o.Vs = append(o.Vs, bv)
		} else {
			o.Vs = o.Vs[:len(o.Vs)-1]
		}
		return o
	case 7:
		if g.p(1, 6) {
			o.F, bv = "oversized-value", Val{T: "string", S: "y", N: 5*1024*1024 + 1}
		} else {
			o.F, bp = "deep-path", S(strings.Repeat(roots[0].name+".", 105)+"q")
		}
	}
	o.Ps = append(o.Ps[:at:at], append([]S{bp}, o.Ps[at:]...)...)
	o.Vs = append(o.Vs[:at:at], append([]Val{bv}, o.Vs[at:]...)...)
	return o
}

// fold executes the steps of a batch one after another in a fresh process.
func fold(p *Plan, op *Op) (doc string, failed bool, bad string) {
	e, _ := boot(p)
	orig := string(p.Docs[op.D])
	doc = orig
	set := strings.HasPrefix(op.K, "setmany")
	if set && len(op.Ps) != len(op.Vs) {
		return orig, true, ""
	}
	rep := simrt.Run(simCfg(p, quietSched), []func(){func() {
		seen := map[S]bool{}
		for i := range op.Ps {
			simrt.OpBegin(i + 1)
			if !set {
				if seen[op.Ps[i]] {
					continue
				}
				seen[op.Ps[i]] = true
			}
			e.docs[op.D] = doc
			o := Op{K: "del", D: op.D, P: op.Ps[i]}
			if set {
				o.K, o.V = "set", &op.Vs[i]
			}
			r := e.eval(&o)
			if r.Panic {
				bad = r.Enc
				return
			}
			if r.Err != nil {
				failed = true
				doc = orig
				return
			}
			doc = string(r.Doc)
		}
	}})
	if rep.Deadlock || rep.Overrun {
		bad = "stuck"
	}
	return doc, failed, bad
}

func execC14(p *Plan, st *Stats) *Violation {
	type exp struct {
		doc    string
		failed bool
		bad    string
	}
	ref := newRef(p)
	want := map[int]exp{}
	for _, t := range p.Threads {
		for i := range t {
			o := &t[i]
			if strings.Contains(o.K, "many") && o.K != "getmany" {
				d, f, b := fold(p, o)
				want[o.ID] = exp{d, f, b}
			} else {
				ref.out(o)
			}
		}
	}
	e, _ := boot(p)
	rep := e.conc(p.Sched)
	st.add(p, e, rep)
	if v := stuck(rep); v != nil {
		return v
	}
	for _, d := range e.outcomes() {
		if d.Lost {
			continue
		}
		op := d.Op
		w, ok := want[d.Op.ID]
		if !ok || !(strings.HasPrefix(op.K, "setmany") || strings.HasPrefix(op.K, "delmany")) {
			continue
		}
		if w.bad != "" {
			continue
		}
		if op.F != "" {
			st.Faults["batch-"+op.F]++
		}
		got := string(d.Out.Doc)
		mk := func(kind, f string) *Violation {
			c := op
			if len(c.Vs) > 0 {
				c.Vs = append([]Val{}, c.Vs...)
			}
			return &Violation{Kind: kind, Detail: f, Op: &c, Expected: short(w.doc), Got: short(d.Out.Enc)}
		}
		switch {
		case d.Out.Panic:
			return mk("batch-panic", "the batch panicked but its steps do not")
		case w.failed && d.Out.Err == nil:
			return mk("batch-hides-failure", "a step fails on its own but the batch reports success")
		case w.failed && got != string(p.Docs[op.D]):
			return mk("batch-partial", "a step fails and the returned document is not the original")
		case !w.failed && d.Out.Err != nil:
			return mk("batch-invents-failure", "every step succeeds on its own but the batch reports an error: "+d.Out.Err.Error())
		case !w.failed && got != w.doc:
			return mk("batch-differs", "the batch gives another document than its steps one after another")
		}
		if w.failed {
			st.Probes["batch-refused"]++
		} else {
			st.Probes["batch-applied"]++
		}
	}
	for _, d := range e.outcomes() {
		if _, ok := want[d.Op.ID]; ok || d.Lost || !comparable_(&d.Op) {
			continue
		}
		if w := ref.out(&d.Op); w.Enc != d.Out.Enc {
			op := d.Op
			return &Violation{Kind: "differs-from-alone:" + op.K, Detail: "a query next to the batches differs from the same query alone", Op: &op, Expected: w.Enc, Got: d.Out.Enc}
		}
	}
	return nil
}

// ---- C15 ----

var validForms = []string{"valid", "validbytes"}
var editForms = []string{"set", "setbytes", "setraw", "setmany", "setmanybytes", "setopt", "setbytesopt", "del", "delbytes", "delmany", "delmanybytes", "delbytesopt", "setnil"}

func (g Gen) editForm(di int, roots []*node) Op {
	o := Op{D: di, K: pick(g, editForms), P: S(g.setPath(roots))}
	v := g.value()
	switch o.K {
	case "setnil":
		o.K = "set"
		v = Val{T: "nil"}
		o.V = &v
	case "set", "setbytes":
		o.V = &v
	case "setraw":
		o.V = &Val{T: "bytes", S: "<x>1</x>"}
	case "setmany", "setmanybytes":
		o.Ps, o.P = []S{o.P}, ""
		o.Vs = []Val{v}
		if g.p(1, 2) {
			o.Ps, o.Vs = append(o.Ps, S(g.setPath(roots))), append(o.Vs, g.value())
		}
	case "setopt", "setbytesopt":
		o.V = &v
		o.O = g.Intn(nOpts)
	case "delmany", "delmanybytes":
		o.Ps, o.P = []S{o.P}, ""
	case "delbytesopt":
		o.O = g.Intn(nOpts)
	}
	return o
}

// damage applies storage faults to s.
func (g Gen) damage(s string, o string) (string, string) {
	if s == "" {
		return "<", "insert"
	}
	b := []byte(s)
	i := g.Intn(len(b))
	n := pick(g, []int{1, 2, 3, 8, 16, 64})
	if i+n > len(b) {
		n = len(b) - i
	}
	switch g.Intn(8) {
	case 0:
		b[i] ^= 1 << uint(g.Intn(8))
		return string(b), "flip"
	case 1:
		b[i] = pick(g, []byte{'<', '>', '/', '"', '\'', '&', 0, 0xff, ']', '!', '?', '-', '=', ' ', '.', '|', '#', '(', ')', '@', '\\', '*', '%'})
		return string(b), "byte"
	case 2:
		return string(b[:i]) + string(b[i+n:]), "lost-block"
	case 3:
		return string(b[:i+n]) + string(b[i:]), "duplicated-block"
	case 4:
		for k := i; k < i+n; k++ {
			b[k] = 0
		}
		return string(b), "zeroed-block"
	case 5:
		if o != "" {
			j := g.Intn(len(o))
			return string(b[:i]) + o[j:], "spliced"
		}
		return string(b[:i]), "torn"
	case 6:
		return string(b[:i]), "torn"
	}
	j := g.Intn(len(b))
	b[i], b[j] = b[j], b[i]
	return string(b), "swapped"
}

// rootEnd is the offset behind the closing tag of the root, found without the library.
func rootEnd(doc string) int {
	d := xml.NewDecoder(strings.NewReader(doc))
	for depth := 0; ; {
		t, err := d.RawToken()
		if err != nil {
			return -1
		}
		switch t.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			if depth--; depth == 0 {
				return int(d.InputOffset())
			}
		}
	}
}

// whole tells whether a document has a complete root.
func whole(doc string) bool {
	t, err := parseTree(doc)
	return err == nil && rootOf(t) != nil
}

func genC15(g Gen) *Plan {
	p := &Plan{Prop: "C15", Ints: map[string]int{}}
	mods := stdMods(p)
	if g.p(1, 2) {
		p.Mode = "torn"
		var doc string
		var roots []*node
		for {
			doc, roots = g.doc(true)
			if len(roots) == 1 && rootEnd(doc) > 1 {
				break
			}
		}
		end := rootEnd(doc) // cuts behind it lose nothing but comments
		p.Docs = []S{S(doc)}
		var ops []Op
		offs := map[int]bool{}
		if end <= 120 {
			for i := 1; i < end; i++ {
				offs[i] = true
			}
		} else {
			for len(offs) < 50 {
				i := 1 + g.Intn(end-1)
				if g.p(1, 4) {
					i = max(1, end-1-g.Intn(40))
				}
				offs[i] = true
			}
		}
		for i := 1; i < end; i++ {
			if !offs[i] {
				continue
			}
			di := len(p.Docs)
			p.Docs = append(p.Docs, S(doc[:i]))
			ops = append(ops, Op{K: pick(g, validForms), D: di, F: "torn"})
			for k := g.n(1, 2); k > 0; k-- {
				o := g.editForm(di, roots)
				o.F = "torn"
				ops = append(ops, o)
			}
		}
		p.Threads = [][]Op{ops}
		number(p)
		p.Sched = quietSched
		return p
	}
	p.Mode = "damage"
	d := g.docset(p, 2, true, mods)
	d1, d2 := string(p.Docs[0]), string(p.Docs[1])
	nt := g.n(1, 3)
	var ops []Op
	for i := g.n(6, 20); i > 0; i-- {
		s := d1
		kind := ""
		for k := g.n(1, 3); k > 0; k-- {
			s, kind = g.damage(s, d2)
		}
		di := 0
		if g.p(3, 4) {
			di = len(p.Docs)
			p.Docs = append(p.Docs, S(s))
		} else {
			kind = ""
		}
		var o Op
		if g.p(1, 2) {
			o = g.queryOp(di, d.roots[0], d.paths, mods)
		} else {
			o = g.editForm(di, d.roots[0])
		}
		if g.p(1, 3) || kind == "" {
			q, _ := g.damage(string(o.P), d.paths[0])
			o.P = S(q)
			kind = "path"
			for k := range o.Ps {
				q, _ := g.damage(string(o.Ps[k]), d.paths[0])
				o.Ps[k] = S(q)
			}
		}
		if o.V != nil && (o.V.T == "string" || o.V.T == "bytes") && g.p(1, 2) {
			v, _ := g.damage(string(o.V.S)+"<x>1</x>", d1)
			o.V.S = S(v)
		}
		o.F = "damage-" + kind
		ops = append(ops, o)
	}
	p.Threads = [][]Op{ops}
	for t := 1; t < nt; t++ {
		var ops []Op
		for i := g.n(1, 4); i > 0; i-- {
			if g.p(1, 2) {
				ops = append(ops, d.query(mods))
			} else {
				ops = append(ops, d.write())
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	number(p)
	p.Sched = quietSched
	if nt > 1 {
		p.Sched = g.sched(20000)
	}
	return p
}

func validNow(p *Plan, doc string) (ok bool) {
	simrt.Run(simCfg(p, quietSched), []func(){func() { ok = xmldot.Valid(doc) }})
	return ok
}

func isEdit(op *Op) bool {
	if strings.HasSuffix(op.K, "many") || strings.HasSuffix(op.K, "manybytes") {
		return op.K != "getmany" && len(op.Ps) > 0
	}
	return strings.HasPrefix(op.K, "set") || strings.HasPrefix(op.K, "del")
}

func execC15(p *Plan, st *Stats) *Violation {
	ref := newRef(p)
	for t := 1; t < len(p.Threads); t++ {
		for i := range p.Threads[t] {
			ref.out(&p.Threads[t][i])
		}
	}
	e, _ := boot(p)
	rep := e.conc(p.Sched)
	st.add(p, e, rep)
	if v := stuck(rep); v != nil {
		return v
	}
	for _, d := range e.outcomes() {
		if d.Lost {
			continue
		}
		op := d.Op
		bad := func(kind, f string) *Violation {
			return &Violation{Kind: kind, Detail: f, Op: &op, Expected: short(fmt.Sprintf("input %q", p.Docs[op.D])), Got: d.Out.Enc}
		}
		if d.Out.Panic {
			return bad("panic", "the call panicked")
		}
		if op.F != "" {
			st.Faults[op.F]++
		}
		in := string(p.Docs[op.D])
		if op.F == "torn" && in != "" && !whole(in) {
			if op.K == "valid" || op.K == "validbytes" {
				if !strings.HasPrefix(d.Out.Enc, "false ") || strings.HasSuffix(d.Out.Enc, " valid") {
					return bad("torn-accepted", "validation accepts a torn document")
				}
			} else if isEdit(&op) {
				if d.Out.Err == nil {
					return bad("torn-edited", "an edit of a torn document reports success")
				}
				if string(d.Out.Doc) != in {
					return bad("torn-changed", "a refused edit did not return the document unchanged")
				}
			}
		}
		if isEdit(&op) && in != "" {
			if d.Out.Err == nil && !validNow(p, in) {
				return bad("invalid-edited", "an edit reports success on a document that validation refuses")
			}
			if d.Out.Err != nil && string(d.Out.Doc) != in {
				return bad("error-changed", "an edit that reports an error did not return the document unchanged")
			}
		}
		if d.Thread > 0 && comparable_(&op) {
			if w := ref.out(&op); w.Enc != d.Out.Enc {
				return &Violation{Kind: "disturbed:" + op.K, Detail: "a call next to damaged input differs from the same call alone", Op: &op, Expected: w.Enc, Got: d.Out.Enc}
			}
		}
	}
	return nil
}

// ---- C16 ----

var growKinds = []string{"path", "longpath", "filter", "wild", "modname", "options", "doc", "validate", "set", "delete", "failset", "failreg", "regcycle", "panic", "many", "result", "foldedpath", "nsdoc", "validateerr", "bytes", "resultopts", "iterpanic", "names", "values", "foldset"}

func genC16(g Gen) *Plan {
	p := &Plan{Prop: "C16", Ints: map[string]int{"n": 16000, "salt": g.Intn(1000000)}}
	p.Mode = pick(g, growKinds)
	for i := g.n(0, 2); i > 0; i-- {
		p.Mode += "+" + pick(g, growKinds)
	}
	p.Mods = []Mod{{Kind: "tag", Name: "boom", Crash: "panic"}, {Kind: "tag", Name: "tag"}}
	p.Pre = []Op{{ID: 1, K: "reg", N: "boom", M: 0}, {ID: 2, K: "reg", N: "tag", M: 1}}
	p.Threads = [][]Op{{{ID: 3, K: "nop"}}}
	p.Docs = []S{"<r><a>1</a></r>"}
	p.Ints["pad"] = pick(g, []int{60, 150, 400})
	if g.p(1, 4) {
		p.Ints["age"] = 1
	}
	p.Sched = quietSched
	return p
}

// grow makes one call of the given kind with a fresh argument.
func (e *Env) grow(kind string, i, pad int) {
	defer func() { _ = recover() }()
	u := fmt.Sprintf("u%dx%s", i, strings.Repeat("z", pad))
	switch kind {
	case "path":
		xmldot.Get("<r/>", "r."+u)
	case "longpath":
		xmldot.Get("<r/>", strings.Repeat("a.", 40)+u)
	case "filter":
		xmldot.Get("<r><a>1</a></r>", "r.a.#(b=="+u[:min(len(u), 200)]+")#")
	case "wild":
		xmldot.Get("<r><a>1</a></r>", "r."+u+"*")
		xmldot.Get("<r><a>1</a></r>", `r.a.#(%%"`+u[:min(len(u), 200)]+`*")`)
	case "modname":
		xmldot.Get("<r/>", "r|@"+u)
	case "options":
		xmldot.GetWithOptions("<r><a>1</a></r>", "r.a", &xmldot.Options{CaseSensitive: i%2 == 0, Indent: u, Namespaces: map[string]string{u: u}})
	case "doc":
		xmldot.Get("<r><a>"+u+"</a></r>", "r.a")
	case "validate":
		xmldot.Valid("<r><" + u + "/></r>")
		xmldot.Valid("<r><" + u + "></r>")
	case "set":
		_, _ = xmldot.Set("<r/>", "r."+u, u)
	case "delete":
		_, _ = xmldot.Delete("<r><"+u+"/></r>", "r."+u)
	case "failset":
		_, _ = xmldot.Set("<r>"+u, "r."+u, u)
		_, _ = xmldot.Set("<r/>", "r."+u, struct{}{})
		_, _ = xmldot.SetRaw("<r/>", "r.a", "<"+u+">")
	case "failreg":
		_ = xmldot.RegisterModifier("sort", xmldot.NewModifierFunc(u, func(r xmldot.Result) xmldot.Result { return r }))
		_ = xmldot.UnregisterModifier(u)
		_ = xmldot.GetModifier(u)
	case "regcycle":
		_ = xmldot.RegisterModifier(u, xmldot.NewModifierFunc(u, func(r xmldot.Result) xmldot.Result { return r }))
		xmldot.Get("<r>1</r>", "r|@"+u)
		_ = xmldot.UnregisterModifier(u)
	case "panic":
		xmldot.Get("<r>1</r>", "r."+u+"|@boom")
		xmldot.Get("<r>"+u+"</r>", "r|@boom")
	case "many":
		xmldot.GetMany("<r/>", "r."+u, "q."+u)
		_, _ = xmldot.SetMany("<r/>", []string{"r." + u}, []interface{}{u})
		_, _ = xmldot.DeleteMany("<r/>", "r."+u, "r.b"+u)
	case "result":
		r := xmldot.Get("<r><a><b>"+u+"</b></a></r>", "r.a")
		r.Get("b." + u)
		r.Map()
		r.Get("b|@pretty")
	case "foldedpath":
		xmldot.GetWithOptions("<R/>", "r."+u, &xmldot.Options{CaseSensitive: false})
	case "validateerr":
		xmldot.ValidateWithError("<r><" + u + "></r>")
		xmldot.ValidateBytesWithError([]byte("<r " + u + "='1'>" + u))
		xmldot.ValidateWithError("<r><" + u + "/></r>")
	case "bytes":
		xmldot.GetBytes([]byte("<r><b>"+u+"</b></r>"), "r.b."+u)
		xmldot.ValidBytes([]byte("<r><a>" + u + "</r>"))
		_, _ = xmldot.SetBytes([]byte("<r><b>"+u+"</b></r>"), "r.b", u)
		_, _ = xmldot.DeleteBytes([]byte("<r><b>"+u+"</b></r>"), "r."+u)
	case "resultopts":
		o := &xmldot.Options{CaseSensitive: false, Indent: u}
		r := xmldot.GetWithOptions("<R><A k='"+u+"'><B>"+u+"</B><B/></A></R>", "r.a", o)
		r.GetWithOptions("b."+u, o)
		r.MapWithOptions(o)
		r.GetMany("B", u)
		_, _, _, _ = r.Int(), r.Float(), r.Bool(), r.Value()
	case "iterpanic":
		xmldot.Get("<r>"+strings.Repeat("<a>"+u+"</a><b/>", 3)+"</r>", "r.*").ForEach(func(i int, _ xmldot.Result) bool {
			if i == 2 {
				panic(u)
			}
			return true
		})
	case "names":
		xmldot.Get("<"+u+" "+u+"='1'><"+u+"/></"+u+">", u+"."+u+".@"+u)
		_, _ = xmldot.Set("<"+u+" "+u+"='1'/>", u+".@"+u, u)
	case "values":
		_, _ = xmldot.Set("<r/>", "r.a", []byte("<k>"+u+"</k>"))
		_, _ = xmldot.SetRaw("<r/>", "r.a.-1", "<k>"+u+"</k>")
		_, _ = xmldot.Set("<r><a/></r>", "r.a.@k", u+"<&")
	case "foldset":
		o := &xmldot.Options{CaseSensitive: false, Indent: "  "}
		_, _ = xmldot.SetWithOptions("<R/>", "r."+u, u, o)
		_, _ = xmldot.DeleteBytesWithOptions([]byte("<R><"+u+"/></R>"), "r."+strings.ToUpper(u), o)
	case "nsdoc":
		xmldot.GetWithOptions(`<n:r xmlns:n="`+u+`"><n:a>1</n:a></n:r>`, "n:r.n:a", &xmldot.Options{Namespaces: map[string]string{"n": u}})
		xmldot.Get("<"+u+":r><"+u+":a>1</"+u+":a></"+u+":r>", "n:r.n:a")
	}
}

func liveHeap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func execC16(p *Plan, st *Stats) *Violation {
	e, _ := boot(p)
	n, pad := p.Ints["n"], p.Ints["pad"]
	kinds := strings.Split(p.Mode, "+")
	at := p.Ints["salt"]
	var steps int64
	piled := false
	phase := func(k int) int64 {
		rep := simrt.Run(simCfg(p, quietSched), []func(){func() {
			for i := 0; i < k; i++ {
				simrt.OpBegin(1)
				at++
				if p.Ints["age"] == 1 && i%1000 == 999 {
					st.Faults["clock-jump"]++
					simrt.Jump(int64(600+i) * 1e9)
				}
				e.grow(kinds[i%len(kinds)], at, pad)
			}
		}})
		steps += rep.Steps
		piled = piled || rep.Piled
		if rep.Deadlock || rep.Overrun || rep.Crashed != "" {
			return -1
		}
		return liveHeap()
	}
	st.add(p, e, e.conc(p.Sched))
	a := phase(n)
	b := phase(n)
	c := phase(2 * n)
	st.Steps += steps
	st.Ops += 4 * n
	for _, k := range kinds {
		st.Faults["history-"+k] += 4 * n / len(kinds)
	}
	if piled {
		return &Violation{Kind: "goroutines-pile-up", Detail: "goroutines started by " + p.Mode + " calls never end"}
	}
	if a < 0 || b < 0 || c < 0 {
		return &Violation{Kind: "stuck", Detail: "a call did not finish"}
	}
	st.Probes["max-retained-kb"] = max(st.Probes["max-retained-kb"], int(c>>10))
	// keeping one argument per call would cost at least pad bytes each
	budget := int64(2*n) * int64(pad) / int64(4*len(kinds))
	if c-b > budget && c-a > budget {
		// A store that is emptied from time to time does not keep growing:
		// sample at uneven distances and compare the lowest and the highest
		// values of one stretch with those of the next.
		steps = 0
		var low, high int64
		for w := 0; w < 6; w++ {
			calls := 0
			var lo, hi int64
			for i := 0; i < 16; i++ {
				k := n/32 + (w*16+i)*613%(n/32)
				calls += k
				h := phase(k)
				if i == 0 || h < lo {
					lo = h
				}
				hi = max(hi, h)
			}
			more := int64(calls) * int64(pad) / int64(8*len(kinds))
			if w > 0 && (lo-low <= more || hi-high <= more) {
				return nil
			}
			low, high = lo, hi
		}
		st.Steps += steps
		return &Violation{Kind: "memory-grows", Detail: fmt.Sprintf("live memory after %d, %d and %d %s calls differs by more than %d bytes per call and keeps growing", n, 2*n, 4*n, p.Mode, pad/(4*len(kinds)))}
	}
	return nil
}

var _ = bytes.Equal

func init() {
	register(&Prop{ID: "C11", Age: true, Quick: 30000, Thorough: 400000, Gen: genC11, Exec: execC11,
		Rule: "seeded calls on 1..4 threads whose arguments are watched and overwritten after return; non-trivial: two threads finished calls with a preemption inside the library, or a single-thread history"})
	register(&Prop{ID: "C12", Quick: 20000, Thorough: 250000, Gen: genC12, Exec: execC12,
		Rule: "seeded call list executed under 3..6 map orders, pool choices, restarts and schedules; non-trivial: at least one call finished (single thread) or two threads with a preemption inside the library"})
	register(&Prop{ID: "C14", Quick: 10000, Thorough: 200000, Gen: genC14, Exec: execC14,
		Rule: "seeded batches with a failing step at a seeded position on 1..3 threads; non-trivial: at least one batch finished (single thread) or two threads with a preemption inside the library"})
	register(&Prop{ID: "C15", Quick: 30000, Thorough: 400000, Gen: genC15, Exec: execC15,
		Rule: "seeded documents torn at many offsets, and damaged documents, paths and values next to healthy calls; non-trivial: at least one damaged call finished (single thread) or two threads with a preemption inside the library"})
	register(&Prop{ID: "C16", Quick: 96, Thorough: 960, Gen: genC16, Exec: execC16,
		Rule: "seeded kind(s) of history, 64000 calls with fresh arguments each, live heap measured after 16000, 32000 and 64000; non-trivial: all phases completed"})
}
