package main

import (
	"fmt"
	"strings"

	"SIMROOT/simrt"
)

// runPost executes the plan's final ops alone, after the threads.
func (e *Env) runPost() simrt.Report {
	return simrt.Run(simCfg(e.p, quietSched), []func(){e.bodyAt(e.p.Post, 1<<40)})
}

// bodyAt is body for a later run: event numbers continue after the earlier ones.
func (e *Env) bodyAt(ops []Op, base int64) func() {
	return func() {
		t := e.th()
		for i := range ops {
			from := len(t.done)
			alive := e.perform(&ops[i])
			for k := from; k < len(t.done); k++ {
				t.done[k].Call += base
				t.done[k].Ret += base
				t.done[k].Post = true
			}
			if !alive {
				return
			}
		}
	}
}

// ---- C05 ----

var nearNames = []string{"N0", "n0 ", " n0", "n00", "n", "@n0", "n0.x", "n1\x00", "n0é", "noSuch", "m0", "sorted", "Reverse", "list", "salt", "soft", "fault", "pretzy", "utly", "revolse", "sor", "ast"}

func genC05(g Gen) *Plan {
	p := &Plan{Prop: "C05", Docs: []S{"<r>v</r>", "<a><r>w</r><r>x</r></a>"}}
	nm := g.n(2, 5)
	for i := 0; i < nm; i++ {
		p.Mods = append(p.Mods, Mod{Kind: "tag", Name: S(pick(g, []string{"n0", "n1", "x", "", "sort"}))})
	}
	names := []string{"n0", "n1", "n2"}[:g.n(1, 3)]
	near := g.p(1, 3)
	if near {
		names = append(names, pick(g, nearNames), pick(g, nearNames))
	}
	for i := range names {
		if g.p(1, 3) {
			p.Pre = append(p.Pre, Op{K: "reg", N: S(names[i]), M: g.Intn(nm)})
		}
	}
	crowd := 0
	if g.p(1, 300) { // far more names than any test registers
		crowd = pick(g, []int{20, 70, 150, 300, 300, 1100})
		for i := 0; i < crowd; i++ {
			p.Pre = append(p.Pre, Op{K: "reg", N: S(fmt.Sprintf("crowd%d", i)), M: g.Intn(nm)})
		}
		names = append(names, fmt.Sprintf("crowd%d", g.Intn(crowd)), fmt.Sprintf("crowd%d", crowd))
	}
	w := []int{g.n(1, 6), g.n(0, 5), g.n(1, 4), g.n(0, 4)}
	nt := g.n(2, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := g.n(2, 5); i > 0; i-- {
			n := S(pick(g, names))
			switch g.wpick(w...) {
			case 0:
				if g.p(1, 30) {
					n = ""
				}
				ops = append(ops, Op{K: "reg", N: n, M: g.Intn(nm)})
			case 1:
				ops = append(ops, Op{K: "unreg", N: n})
			case 2:
				ops = append(ops, Op{K: "getmod", N: n})
			case 3:
				q := S(pick(g, names[:1]))
				o := Op{K: "get", N: q, P: "r|@" + q}
				if g.p(1, 3) {
					o.K = "getbytes"
				}
				ops = append(ops, o)
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	for i := 0; i < crowd; i++ {
		p.Post = append(p.Post, Op{K: "getmod", N: S(fmt.Sprintf("crowd%d", i))})
	}
	for _, n := range names {
		p.Post = append(p.Post, Op{K: "getmod", N: S(n)}, Op{K: "reg", N: S(n), M: 0}, Op{K: "unreg", N: S(n)}, Op{K: "getmod", N: S(n)}, Op{K: "reg", N: S(n), M: 1}, Op{K: "getmod", N: S(n)})
	}
	number(p)
	p.Sched = g.sched(300)
	if p.Sched.Kind == simrt.PCT {
		p.Sched.Steps = int64(g.n(50, 800))
	}
	return p
}

func execC05(p *Plan, st *Stats) *Violation {
	e, _ := boot(p)
	rep := e.conc(p.Sched)
	st.add(p, e, rep)
	if v := stuck(rep); v != nil {
		return v
	}
	rp := e.runPost()
	if v := stuck(rp); v != nil {
		return v
	}
	h := map[string][]rop{}
	if v := regHistory(e, h); v != nil {
		return v
	}
	for _, d := range e.outcomes() {
		if (d.Op.K != "get" && d.Op.K != "getbytes") || d.Lost {
			continue
		}
		r := rop{kind: "read", mod: -1, call: d.Call, ret: d.Ret, text: fmt.Sprintf("t%d query(%q) [%d,%d] %s", d.Thread, d.Op.P, d.Call, d.Ret, d.Out.Enc)}
		if len(d.Out.Res) == 1 && d.Out.Res[0].Exists() {
			if _, err := fmt.Sscanf(d.Out.Res[0].Str, "v.m%d", &r.mod); err != nil {
				op := d.Op
				return &Violation{Kind: "foreign-modifier", Detail: "a query was answered by something never registered", Op: &op, Got: d.Out.Enc}
			}
		} else if d.Out.Panic {
			op := d.Op
			return &Violation{Kind: "panic", Detail: "a query panicked", Op: &op, Got: d.Out.Enc}
		}
		h[string(d.Op.N)] = append(h[string(d.Op.N)], r)
	}
	return judge(p, h, st)
}

// ---- C06 ----

var hostile = []string{"Sort", "SORT", " sort", "sort ", "@sort", "sort|x", "first.", "re", "reverse2", "ugl", "pretty\x00", "\tlast", "flatten\n", "firs", "x", "custom"}

func genC06(g Gen) *Plan {
	p := &Plan{Prop: "C06", Docs: []S{"<r><i>3</i><i>1</i><i>2</i></r>", `<r><s><i>b</i><i>a</i></s><s><i>c</i></s></r>`}}
	for i := 0; i < 5; i++ {
		m := Mod{Kind: pick(g, []string{"tag", "null", "upper"}), Name: S(pick(g, append(append([]string{}, builtins...), "x", "")))}
		if g.p(1, 4) {
			m.Crash = pick(g, []string{"panic", "goexit"})
		}
		if g.p(1, 3) {
			for k := g.n(1, 3); k > 0; k-- {
				m.Script = append(m.Script, g.hostileOp())
			}
		}
		if g.p(1, 6) {
			m.NameOps = append(m.NameOps, g.hostileOp())
		}
		p.Mods = append(p.Mods, m)
	}
	nt := g.n(1, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := g.n(3, 10); i > 0; i-- {
			ops = append(ops, g.hostileOp())
		}
		p.Threads = append(p.Threads, ops)
	}
	if nt == 1 && g.p(1, 2) {
		p.Threads[0] = append([]Op{{K: "restart"}}, p.Threads[0]...)
	}
	for _, b := range builtins {
		p.Post = append(p.Post, Op{K: "getmod", N: S(b)}, Op{K: "probemod", N: S(b)}, Op{K: "get", P: S("r.i|@" + b)}, Op{K: "get", D: 1, P: S("r.s.#.i|@" + b)}, Op{K: "unreg", N: S(b)}, Op{K: "reg", N: S(b), M: 0}, Op{K: "getmod", N: S(b)})
	}
	number(p)
	p.Sched = g.sched(2000)
	return p
}

func (g Gen) hostileOp() Op {
	b := pick(g, builtins)
	switch g.wpick(4, 4, 4, 3, 4, 2, 2, 3) {
	case 0:
		return Op{K: "reg", N: S(b), M: g.n(-1, 4)}
	case 1:
		return Op{K: "unreg", N: S(b)}
	case 2:
		return Op{K: "reg", N: S(pick(g, hostile)), M: g.n(0, 4)}
	case 3:
		return Op{K: "unreg", N: S(pick(g, hostile))}
	case 4:
		return Op{K: "get", D: g.Intn(2), P: S("r." + pick(g, []string{"i", "#.i", "s.#.i", "*", "s.0.i", "i.#(%>1)#"}) + "|@" + b + pick(g, []string{"", "|@" + pick(g, builtins)}))}
	case 5:
		return Op{K: "getmod", N: S(b)}
	case 6:
		return Op{K: "probemod", N: S(b)}
	}
	return Op{K: "get", F: "custom", P: S("r.i|@" + pick(g, []string{"x", "custom", "Sort", "firs"}))}
}

func execC06(p *Plan, st *Stats) *Violation {
	ref := newRef(p)
	want := func(o *Op) (string, bool) {
		switch o.K {
		case "reg", "unreg":
			if isBuiltin(string(o.N)) {
				return "refused", true
			}
			return "", false
		case "getmod":
			return "builtin " + string(o.N), true
		case "probemod":
			return ref.out(o).Enc, true
		case "get":
			if o.F == "custom" {
				return "", false
			}
			return ref.out(o).Enc, true
		}
		return "", false
	}
	each := func(l []Op) {
		for i := range l {
			want(&l[i])
		}
	}
	for _, t := range p.Threads {
		each(t)
	}
	each(p.Post)
	for i := range p.Mods {
		each(p.Mods[i].Script)
		each(p.Mods[i].NameOps)
	}
	e, _ := boot(p)
	e.track = true
	rep := e.conc(p.Sched)
	st.add(p, e, rep)
	if v := stuck(rep); v != nil {
		return v
	}
	if v := stuck(e.runPost()); v != nil {
		return v
	}
	for _, d := range e.outcomes() {
		if d.Lost {
			continue
		}
		if w, ok := want(&d.Op); ok && w != d.Out.Enc {
			op := d.Op
			return &Violation{Kind: "builtin-" + d.Op.K, Detail: fmt.Sprintf("thread %d: a built-in modifier was lost, replaced or altered, or an attempt was not refused", d.Thread), Op: &op, Expected: w, Got: d.Out.Enc}
		}
	}
	return nil
}

func isBuiltin(n string) bool {
	for _, b := range builtins {
		if b == n {
			return true
		}
	}
	return false
}

// ---- C07 ----

var chainBases = []string{"r.v", "r.v.0", "r.@k", "r.w.u", "r.w.@k", "r.v.%", "r.w.#", "r"}

func genC07(g Gen) *Plan {
	p := &Plan{Prop: "C07", Docs: []S{`<r k="1"><v>T</v><w k="2"><u>U</u></w></r>`, `<r k="9"><v>Other</v><w k="7"><u>W</u></w></r>`}}
	names := []string{"n0", "n1", "n2", "n3"}[:g.n(1, 4)]
	nm := g.n(3, 6)
	for i := 0; i < nm; i++ {
		m := Mod{Kind: pick(g, []string{"tag", "tag", "tag", "upper", "wrap", "null", "self"}), Name: S(pick(g, names))}
		if g.p(1, 4) {
			for k := g.n(1, 3); k > 0; k-- {
				m.Script = append(m.Script, g.churn(names, nm))
			}
		}
		if g.p(1, 8) {
			m.Stall = g.n(1, 2)
		}
		p.Mods = append(p.Mods, m)
	}
	for i := range names {
		if g.p(3, 4) {
			p.Pre = append(p.Pre, Op{K: "reg", N: S(names[i]), M: g.Intn(nm)})
		}
	}
	nt := g.n(2, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		qs := g.n(0, 3)
		for i := g.n(2, 5); i > 0; i-- {
			if qs > 0 && g.p(2, 3) || t == 0 {
				qs--
				ops = append(ops, g.chainOp(names))
			} else {
				ops = append(ops, g.churn(names, nm))
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	for i := 0; i < 2; i++ {
		p.Post = append(p.Post, g.chainOp(names))
	}
	number(p)
	p.Sched = g.sched(3000)
	if p.Sched.Kind == simrt.PCT {
		p.Sched.Steps = int64(g.n(500, 8000))
	}
	return p
}

func (g Gen) chainOp(names []string) Op {
	b := pick(g, chainBases)
	o := Op{K: pick(g, []string{"get", "get", "get", "getbytes", "getstr", "getmany"}), D: g.Intn(2), F: b, P: S(b)}
	k := g.n(1, 5)
	if g.p(1, 6) {
		k = g.n(6, 20)
	}
	for ; k > 0; k-- {
		if g.p(1, 8) {
			o.P += "|@" + S(pick(g, []string{"first", "last"}))
		} else {
			o.P += "|@" + S(pick(g, names))
		}
	}
	if o.K == "getmany" {
		o.Ps = []S{o.P}
	}
	return o
}

func (g Gen) churn(names []string, nm int) Op {
	n := S(pick(g, names))
	switch g.wpick(4, 4, 2) {
	case 0:
		return Op{K: "reg", N: n, M: g.Intn(nm)}
	case 1:
		return Op{K: "unreg", N: n}
	}
	return Op{K: "getmod", N: n}
}

func execC07(p *Plan, st *Stats) *Violation {
	ref := newRef(p)
	base := func(o *Op) string {
		return ref.out(&Op{K: "get", D: o.D, P: S(o.F)}).Enc
	}
	pre := func(l []Op) {
		for i := range l {
			if l[i].F != "" {
				base(&l[i])
			}
		}
	}
	for _, t := range p.Threads {
		pre(t)
	}
	pre(p.Post)
	e, _ := boot(p)
	e.track = true
	rep := e.conc(p.Sched)
	st.add(p, e, rep)
	if rep.Deadlock || rep.Overrun || rep.Starved || rep.Crashed != "" {
		return stuck(rep)
	}
	nev := 0
	for _, t := range e.ths {
		nev += len(t.ev)
	}
	marks := map[int]int{}
	for i, t := range e.ths {
		marks[i] = len(t.ev)
	}
	if v := stuck(e.runPost()); v != nil {
		return v
	}
	for i, t := range e.ths {
		for k := marks[i]; k < len(t.ev); k++ {
			t.ev[k].Seq += 1 << 40
		}
	}
	h := map[string][]rop{}
	if v := regHistory(e, h); v != nil {
		return v
	}
	for _, d := range e.outcomes() {
		if d.Op.F == "" || d.Lost {
			continue
		}
		op := d.Op
		bad := func(kind, f string, a ...any) *Violation {
			return &Violation{Kind: kind, Detail: fmt.Sprintf("query %d on thread %d: ", d.Op.ID, d.Thread) + fmt.Sprintf(f, a...), Op: &op, Got: d.Out.Enc}
		}
		if d.Out.Panic {
			return bad("panic", "panicked")
		}
		names := strings.Split(string(d.Op.P), "|@")[1:]
		var ev []Event
		t := e.ths[d.Thread]
		for _, x := range t.ev {
			if x.Op == d.Op.ID {
				ev = append(ev, x)
			}
		}
		cur := base(&d.Op)
		curNull := len(ref.out(&Op{K: "get", D: d.Op.D, P: S(d.Op.F)}).Res) == 0 || !ref.out(&Op{K: "get", D: d.Op.D, P: S(d.Op.F)}).Res[0].Exists()
		if curNull {
			continue
		}
		k := 0
		ended := false
		stages := 0
		skipped := 0
		for i := 0; i < len(names); i++ {
			n := names[i]
			if isBuiltin(n) {
				// transparent on a single value
				if strings.HasPrefix(cur, "{7 ") || strings.Contains(cur, " [{") {
					skipped = len(names) // an array reached first/last: stop judging values
					break
				}
				continue
			}
			if k >= len(ev) {
				// chain ended here: the name must have been free at some moment
				if len(d.Out.Res) > 0 && d.Out.Res[0].Exists() {
					return bad("stage-skipped", "stage %d (%s) did not run but the result is not null", i+1, n)
				}
				h[n] = append(h[n], rop{kind: "read", mod: -1, call: d.Call, ret: d.Ret, text: fmt.Sprintf("t%d query %d found no %q [%d,%d]", d.Thread, d.Op.ID, n, d.Call, d.Ret)})
				ended = true
				break
			}
			a := ev[k]
			if a.Kind != "apply" || k+1 >= len(ev) || ev[k+1].Kind != "applied" || ev[k+1].Mod != a.Mod {
				return bad("stage-order", "stages overlap or did not finish")
			}
			if a.In != cur {
				v := bad("handover", "stage %d (%s) received something else than the previous stage returned", i+1, n)
				v.Expected, v.Got = cur, a.In
				return v
			}
			h[n] = append(h[n], rop{kind: "read", mod: a.Mod, call: d.Call, ret: a.Seq, text: fmt.Sprintf("t%d query %d stage %d ran m%d as %q [%d,%d]", d.Thread, d.Op.ID, i+1, a.Mod, n, d.Call, a.Seq)})
			cur = ev[k+1].Out
			k += 2
			stages++
			if ev[k-1].Null {
				ended = true
				if len(d.Out.Res) > 0 && d.Out.Res[0].Exists() {
					return bad("null-lost", "stage %d returned null but the result is not null", i+1)
				}
				break
			}
		}
		if stages > 1 {
			st.Probes["chain-of-several-stages"]++
		}
		if skipped > 0 {
			continue
		}
		if k < len(ev) {
			return bad("stage-after-end", "a modifier ran after the chain had ended or more often than named")
		}
		if !ended {
			got := ""
			if len(d.Out.Res) > 0 {
				got = enc(d.Out.Res[0])
			}
			if got != cur {
				v := bad("final-value", "the result is not what the last stage returned")
				v.Expected, v.Got = cur, got
				return v
			}
		} else {
			st.Probes["chain-ended-early"]++
		}
	}
	return judge(p, h, st)
}

// ---- C08 ----

func genC08(g Gen) *Plan {
	p := &Plan{Prop: "C08", Docs: []S{`<r><v>T</v><i>1</i><i>2</i><w k="1"><u>U</u></w></r>`, `<a><b>1</b></a>`}}
	nm := g.n(2, 5)
	name := func(i int) S { return S(fmt.Sprintf("n%d", i)) }
	for i := 0; i < nm; i++ {
		m := Mod{Kind: pick(g, []string{"tag", "upper", "wrap", "self"}), Name: name(i)}
		if g.p(1, 2) {
			m.Stall = g.n(1, 2)
		}
		if g.p(3, 5) {
			for k := g.n(1, 4); k > 0; k-- {
				m.Script = append(m.Script, g.reenter(i, nm))
			}
		}
		if g.p(1, 5) {
			m.NameOps = append(m.NameOps, g.reenter(nm, nm))
		}
		p.Mods = append(p.Mods, m)
		p.Pre = append(p.Pre, Op{K: "reg", N: name(i), M: i})
	}
	nt := g.n(2, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := g.n(2, 6); i > 0; i-- {
			ops = append(ops, g.reenter(-1, nm))
		}
		p.Threads = append(p.Threads, ops)
	}
	number(p)
	p.Sched = g.sched(4000)
	return p
}

// reenter generates a call a callback of modifier i may make.
func (g Gen) reenter(i, nm int) Op {
	higher := func() (S, bool) {
		if i+1 >= nm {
			return "", false
		}
		return S(fmt.Sprintf("n%d", g.n(i+1, nm-1))), true
	}
	switch g.wpick(8, 4, 3, 3, 3, 3, 2, 3, 3) {
	case 0:
		if n, ok := higher(); ok {
			q := S(pick(g, []string{"r.v", "r.i.#", "r.i", "r.w.u", "r.*", "r.**.u", "r.i.#(%>1)#"})) + "|@" + n
			if n2, ok := higher(); ok && g.p(1, 3) {
				q += "|@" + n2
			}
			switch g.Intn(8) {
			case 3:
				return Op{K: "chain", P: "r", C: []Step{{M: "getmany", Ps: []S{q[2:], "v", "w.u"}}}}
			case 4:
				return Op{K: "chain", P: "r", C: []Step{{M: "get", P: q[2:]}}}
			case 5:
				return Op{K: "chain", P: "r", C: []Step{{M: "getopt", P: q[2:], O: g.Intn(nOpts)}}}
			case 0:
				return Op{K: "getbytes", P: q}
			case 1:
				return Op{K: "getmany", Ps: []S{q, "r.v", q}}
			case 2:
				return Op{K: "getopt", P: q, O: g.Intn(nOpts)}
			}
			return Op{K: "get", P: q}
		}
		return Op{K: "get", P: "r.i|@sort|@first"}
	case 1:
		return Op{K: "reg", N: S(fmt.Sprintf("x%d", g.Intn(3))), M: g.Intn(nm)}
	case 2:
		return Op{K: "unreg", N: S(fmt.Sprintf("x%d", g.Intn(3)))}
	case 3:
		return Op{K: "getmod", N: S(pick(g, []string{"n0", "n1", "x0", "sort"}))}
	case 4:
		return Op{K: "set", P: S(pick(g, []string{"r.v", "r.new", "r.w.@k", "r.i.-1"})), V: &Val{T: "int", I: 5}}
	case 5:
		return Op{K: "chain", P: "r", C: []Step{{M: "map"}, {M: "array"}, {M: "conv"}}}
	case 6:
		return Op{K: "valid"}
	case 7:
		k := g.n(i+1, nm)
		return Op{K: "chain", P: S(pick(g, []string{"r.i", "r.v", "r.*"})), C: []Step{{M: "iter", N: k}}}
	}
	return Op{K: "burst", P: "q", X: pick(g, []int{2, 10, 260})}
}

func execC08(p *Plan, st *Stats) *Violation {
	e, _ := boot(p)
	rep := e.conc(p.Sched)
	st.add(p, e, rep)
	if v := stuck(rep); v != nil {
		return v
	}
	for _, d := range e.outcomes() {
		if d.Lost {
			op := d.Op
			return &Violation{Kind: "lost-call", Detail: "a call never returned", Op: &op}
		}
	}
	// the library is still usable
	q := []Op{{ID: 1, K: "reg", N: "after", M: 0}, {ID: 2, K: "unreg", N: "after"}, {ID: 3, K: "get", P: "r.v|@first"}}
	return stuck(e.seqRun(q))
}

// ---- C09 ----

func genC09(g Gen) *Plan {
	p := &Plan{Prop: "C09"}
	mods := stdMods(p)
	nb := len(p.Mods)
	nc := g.n(1, 3)
	for i := 0; i < nc; i++ {
		m := Mod{Kind: "tag", Name: S(fmt.Sprintf("boom%d", i)), Crash: pick(g, []string{"panic", "panic", "goexit"})}
		if g.p(1, 3) {
			m.CrashAt = g.n(1, 2)
		}
		if g.p(1, 4) {
			m.Script = []Op{pick(g, []Op{{K: "get", P: "*"}, {K: "reg", N: "priv-x", M: 0}, {K: "unreg", N: "priv-x"}, {K: "getmod", N: "tag"}})}
		}
		p.Mods = append(p.Mods, m)
		p.Pre = append(p.Pre, Op{K: "reg", N: m.Name, M: nb + i})
	}
	storms := 0
	if g.p(1, 6) {
		storms = 2
		p.Mods = append(p.Mods, Mod{Kind: "tag", Name: "storm", Crash: "panic"})
		p.Pre = append(p.Pre, Op{K: "reg", N: "storm", M: len(p.Mods) - 1})
	}
	d := g.docset(p, g.n(1, 2), true, mods)
	crashOp := func() Op {
		i := g.Intn(len(d.roots))
		c := g.Intn(nc)
		if g.p(1, 4) {
			return Op{K: "chain", D: i, P: S(g.path(d.roots[i], nil)), F: "x", C: []Step{{M: "iter", N: nb + c}}}
		}
		if g.p(1, 5) { // through a method of a result
			boom := S(pick(g, []string{"*", "%", "#"}) + "|@boom" + fmt.Sprint(c))
			s := Step{M: pick(g, []string{"get", "getmany", "getopt"}), P: boom, O: g.Intn(nOpts)}
			s.Ps = []S{boom, "*"}
			return Op{K: "chain", D: i, P: S(pick(g, d.roots[i]).name), F: "x", C: []Step{s}}
		}
		q := S(g.path(d.roots[i], nil))
		if k := strings.IndexByte(string(q), '|'); k > 0 {
			q = q[:k]
		}
		for k := g.n(0, 2); k > 0; k-- {
			q += "|@" + S(pick(g, mods))
		}
		q += "|@boom" + S(fmt.Sprint(c))
		if g.p(1, 3) {
			q += "|@" + S(pick(g, mods))
		}
		o := Op{K: pick(g, []string{"get", "get", "getbytes", "getmany", "getopt", "getstr"}), D: i, P: q, F: "x"}
		if o.K == "getmany" {
			o.Ps = []S{S(pick(g, d.paths)), q, S(pick(g, d.paths))}
		}
		if o.K == "getopt" {
			o.O = g.Intn(nOpts)
		}
		return o
	}
	nt := g.n(1, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		priv := S(fmt.Sprintf("priv%d", t))
		for i := g.n(2, 7); i > 0; i-- {
			switch g.wpick(3, 4, 2, 2, storms) {
			case 4:
				ops = append(ops, Op{K: "storm", P: S(pick(g, []string{"r.a|@storm", "r.*|@storm", "r.a|@first|@storm", "**.a|@storm"})), X: pick(g, []int{5, 70, 1100, 2500}), F: "x"})
			case 0:
				ops = append(ops, crashOp())
			case 1:
				ops = append(ops, d.query(mods))
			case 2:
				ops = append(ops, d.write())
			case 3:
				ops = append(ops, Op{K: "reg", N: priv, M: 0}, Op{K: "getmod", N: priv}, Op{K: "unreg", N: priv}, Op{K: "getmod", N: priv})
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	for i := 0; i < nc; i++ {
		n := S(fmt.Sprintf("boom%d", i))
		p.Post = append(p.Post, Op{K: "getmod", N: n}, Op{K: "reg", N: n, M: 0}, Op{K: "unreg", N: n}, Op{K: "getmod", N: n}, Op{K: "reg", N: n, M: 0}, Op{K: "get", P: "*|@" + n}, Op{K: "unreg", N: n})
	}
	p.Post = append(p.Post, Op{K: "reg", N: "later", M: 1}, Op{K: "get", P: "*|@later|@up"}, Op{K: "unreg", N: "later"}, Op{K: "unreg", N: "sort"}, Op{K: "reg", N: "sort", M: 1})
	for i := 0; i < 4; i++ {
		p.Post = append(p.Post, d.query(mods))
	}
	p.Post = append(p.Post, d.write(), d.write(), Op{K: "chain", P: "*", C: []Step{{M: "getmany", Ps: []S{"*", "%"}}}})
	if g.p(1, 10) {
		p.Mods = append(p.Mods, Mod{Kind: "tag", Name: "quit", Crash: "goexit"})
		p.Pre = append(p.Pre, Op{K: "reg", N: "quit", M: len(p.Mods) - 1})
		p.Ints = map[string]int{"quits": pick(g, []int{3, 30, 110, 300})}
		if g.p(1, 8) {
			p.Ints["quits"] = 1500
		}
		p.Post = append(p.Post, Op{K: "heal"}, Op{K: "get", P: "*|@quit"}, Op{K: "unreg", N: "quit"}, Op{K: "reg", N: "quit", M: 1}, Op{K: "get", P: "*|@quit"})
	}
	number(p)
	p.Sched = g.sched(4000)
	if g.p(1, 2) {
		p.Pool = g.Next() | 1
	}
	return p
}

func execC09(p *Plan, st *Stats) *Violation {
	ref := newRef(p)
	for _, t := range p.Threads {
		for i := range t {
			if comparable_(&t[i]) && t[i].F != "x" {
				ref.out(&t[i])
			}
		}
	}
	// final ops in a process in which nothing failed
	e0, _ := boot(p)
	e0.seqRun(p.Post)
	want := e0.outcomes()

	e, _ := boot(p)
	rep := e.conc(p.Sched)
	st.add(p, e, rep)
	if v := stuck(rep); v != nil {
		return v
	}
	for _, d := range e.outcomes() {
		if d.Lost || d.Op.F == "x" {
			continue
		}
		w := ""
		switch {
		case strings.HasPrefix(string(d.Op.N), "priv"):
			switch d.Op.K {
			case "reg", "unreg":
				w = "ok"
			default:
				continue
			}
		case comparable_(&d.Op):
			w = ref.out(&d.Op).Enc
		default:
			continue
		}
		if w != d.Out.Enc {
			op := d.Op
			return &Violation{Kind: "disturbed:" + d.Op.K, Detail: fmt.Sprintf("call %d on thread %d was disturbed by a failing callback", d.Op.ID, d.Thread), Op: &op, Expected: w, Got: d.Out.Enc}
		}
	}
	// clients that end inside a callback, one after another
	quit := Op{K: "get", P: "*|@quit", F: "x"}
	for i := 0; i < p.Ints["quits"]; i++ {
		e.quiet = true
		if v := stuck(e.seqRun([]Op{quit})); v != nil {
			v.Detail = "after clients ended in callbacks: " + v.Detail
			return v
		}
	}
	e.quiet = false
	if n := p.Ints["quits"]; n > 0 {
		st.Faults["goexit-storm"]++
		st.Faults["goexit-callback"] += n
	}
	rp := e.seqRun(p.Post)
	if v := stuck(rp); v != nil {
		v.Detail = "after the failures: " + v.Detail
		return v
	}
	t := e.ths[0]
	post := t.done[len(t.done)-min(len(t.done), len(p.Post)):]
	if len(post) != len(want) {
		return &Violation{Kind: "lost-final-call", Detail: "final calls did not all return"}
	}
	for i := range post {
		if post[i].Out.Enc != want[i].Out.Enc {
			op := post[i].Op
			return &Violation{Kind: "disturbed-later:" + op.K, Detail: "a call made after the failures differs from the same call in a process without them", Op: &op, Expected: want[i].Out.Enc, Got: post[i].Out.Enc}
		}
	}
	return nil
}

// ---- C10 ----

func genC10(g Gen) *Plan {
	p := &Plan{Prop: "C10"}
	mods := stdMods(p)
	p.Mods = append(p.Mods, Mod{Kind: "retain", Name: "keep"}, Mod{Kind: "retain", Name: "keep2"})
	p.Pre = append(p.Pre, Op{K: "reg", N: "keep", M: 5}, Op{K: "reg", N: "keep2", M: 6})
	for i := 0; i < 2; i++ {
		n := S(fmt.Sprintf("build%d", i))
		p.Mods = append(p.Mods, Mod{Kind: "build", Name: n, Var: g.Intn(100000)})
		p.Pre = append(p.Pre, Op{K: "reg", N: n, M: 7 + i})
	}
	mods = append(mods, "keep", "keep", "keep2", "build0", "build1", "sort", "reverse", "flatten", "last", "pretty", "ugly")
	d := g.docset(p, g.n(1, 2), true, mods)
	for i := g.n(1, 3); i > 0; i-- {
		k := g.Intn(len(d.roots))
		q := g.path(d.roots[k], mods)
		if g.p(1, 2) {
			q = pick(g, []string{d.roots[k][0].name + ".*", "**." + pick(g, namePool), "*.*.*"}) + pick(g, []string{"", "|@keep", "|@wrap|@keep"})
		}
		p.Shared = append(p.Shared, Op{K: "get", D: k, P: S(q)})
		if g.p(1, 3) {
			p.Shared = append(p.Shared, Op{K: "mk", Y: g.Intn(100000)})
		}
	}
	nt := g.n(2, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := g.n(2, 6); i > 0; i-- {
			k := g.Intn(len(d.roots))
			switch g.wpick(6, 3, 4, 2, 1) {
			case 0:
				c := g.steps(d.roots[k], mods)
				if g.p(1, 3) {
					c = append([]Step{{M: "mod", P: S(pick(g, builtins))}}, c...)
				}
				ops = append(ops, Op{K: "res", R: g.Intn(len(p.Shared)), C: c})
			case 1:
				o := Op{K: "scribget", Y: g.Intn(3), D: k, P: S(pick(g, d.paths))}
				if g.p(1, 2) {
					o.P = p.Shared[g.Intn(len(p.Shared))].P
				}
				own := func(q S) S { // no callback sees the caller's own results
					q = S(strings.Split(string(q), "|")[0])
					if g.p(1, 3) {
						q += "|@" + S(pick(g, builtins))
					}
					return q
				}
				o.P = own(o.P)
				for j := g.n(2, 3); j > 0; j-- {
					o.Ps = append(o.Ps, own(o.P))
				}
				if g.p(1, 2) {
					o.Ps = append(o.Ps, own(S(pick(g, d.paths))))
				}
				ops = append(ops, o)
			case 2:
				q := g.path(d.roots[k], nil)
				if j := strings.IndexByte(q, '|'); j >= 0 {
					q = q[:j]
				}
				if g.p(1, 2) {
					q = pick(g, []string{d.roots[k][0].name + ".*", "*.*.*", "**." + pick(g, namePool)})
				}
				for j := g.n(1, 4); j > 0; j-- {
					q += "|@" + pick(g, mods)
				}
				ops = append(ops, Op{K: "get", D: k, P: S(q)})
			case 3:
				ops = append(ops, d.query(mods))
			case 4:
				ops = append(ops, d.write())
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	number(p)
	p.Sched = g.sched(0)
	if g.p(1, 2) {
		p.Pool = g.Next() | 1
	}
	return p
}

func execC10(p *Plan, st *Stats) *Violation {
	ref := newRef(p)
	for _, t := range p.Threads {
		for i := range t {
			if comparable_(&t[i]) {
				ref.out(&t[i])
			}
		}
	}
	simEnv := newTracked(p)
	e := simEnv
	var snaps []string
	for i := range e.shared {
		snaps = append(snaps, enc(e.shared[i]))
	}
	s := p.Sched
	if s.Kind == simrt.PCT && s.Steps == 0 {
		s.Steps = ref.steps
	}
	rep := e.conc(s)
	st.add(p, e, rep)
	if v := stuck(rep); v != nil {
		return v
	}
	for i := range snaps {
		if now := enc(e.shared[i]); now != snaps[i] {
			op := p.Shared[i]
			return &Violation{Kind: "shared-result-changed", Detail: fmt.Sprintf("shared result %d changed", i), Op: &op, Expected: short(snaps[i]), Got: short(now)}
		}
	}
	kept := 0
	for _, t := range e.ths {
		for i := range t.ev {
			x := &t.ev[i]
			want := x.In
			if x.Kind == "applied" {
				want = x.Out
			}
			kept++
			if now := enc(x.R); now != want {
				return &Violation{Kind: "retained-result-changed", Detail: fmt.Sprintf("a result seen by modifier %d in call %d (%s) changed afterwards", x.Mod, x.Op, x.Kind), Expected: short(want), Got: short(now)}
			}
		}
		for i := range t.done {
			o := &t.done[i].Out
			now := ""
			switch t.done[i].Op.K {
			case "get", "getstr", "getbytes", "getopt", "getstropt", "getbytesopt":
				if len(o.Res) != 1 {
					continue
				}
				now = short(enc(o.Res[0]))
			case "getmany":
				now = short(encAll(o.Res))
			default:
				continue
			}
			if !o.Panic && !t.done[i].Lost && now != o.Enc {
				op := t.done[i].Op
				return &Violation{Kind: "returned-result-changed", Detail: "a returned result changed afterwards", Op: &op, Expected: o.Enc, Got: now}
			}
		}
	}
	if kept > 0 {
		st.Probes["results-retained-by-callbacks"] += kept
	}
	return diffs(e, ref)
}

// newTracked boots with callback events recorded from the start.
func newTracked(p *Plan) *Env {
	e, _ := boot(p)
	e.track = true
	return e
}

func init() {
	register(&Prop{ID: "C05", Age: true, Quick: 500000, Thorough: 5000000, Gen: genC05, Exec: execC05,
		Rule: "seeded registry history on 2..4 threads and schedule; non-trivial: at least 2 threads finished a call and a preemption happened inside the library"})
	register(&Prop{ID: "C06", Age: true, Quick: 120000, Thorough: 1200000, Gen: genC06, Exec: execC06,
		Rule: "seeded hostile registry history on 1..4 threads with scripted callbacks; non-trivial: two threads finished calls with a preemption inside the library, or a single-thread history"})
	register(&Prop{ID: "C07", Age: true, Quick: 200000, Thorough: 2000000, Gen: genC07, Exec: execC07,
		Rule:   "seeded modifier chains and registry churn on 2..4 threads; non-trivial: at least 2 threads finished a call and a preemption happened inside the library",
		Assume: []string{"paths address a single value; paths with wildcards apply chains per element and again to the list, which this check leaves out"}})
	register(&Prop{ID: "C08", Age: true, Quick: 100000, Thorough: 1000000, Gen: genC08, Exec: execC08,
		Rule: "seeded stalled and re-entrant callbacks on 2..4 threads; non-trivial: at least 2 threads finished a call and a preemption happened inside the library"})
	register(&Prop{ID: "C09", Age: true, Quick: 25000, Thorough: 300000, Gen: genC09, Exec: execC09,
		Rule: "seeded callback failures (panic, goroutine exit) on 1..4 threads; non-trivial: two threads finished calls with a preemption inside the library, or a single-thread history"})
	register(&Prop{ID: "C10", Age: true, Quick: 20000, Thorough: 300000, Gen: genC10, Exec: execC10,
		Rule: "seeded sharing, retaining and overwriting of results on 2..4 threads; non-trivial: at least 2 threads finished a call and a preemption happened inside the library"})
}
