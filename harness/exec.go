package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	xmldot "MODROOT"
	"SIMROOT/simreset"
	"SIMROOT/simrt"
)

// maxClients is the largest number of clients in a run.
const maxClients = 16

const opLimit = 30_000_000

var nSites int

// Event is something recorded while a run proceeds.
type Event struct {
	Seq  int64
	Kind string
	Op   int
	Mod  int
	Name string
	In   string
	Out  string
	Null bool
	R    xmldot.Result
}

// Done is a finished op.
type Done struct {
	Op        Op
	Thread    int
	Call, Ret int64
	Out       Out
	Lost      bool // the client did not survive the call
	Nested    bool // made from inside a callback
	Post      bool // made after the threads had ended
}

// Out is what a call returned.
type Out struct {
	Enc   string
	Res   []xmldot.Result
	Doc   []byte
	Err   error
	Panic bool
}

// th is the private record of one simulated thread.
type th struct {
	ev     []Event
	done   []Done
	counts map[string]int
	op     int
	depth  int
	nest   int
}

// Env is one simulated deployment: documents, buffers, options, modifiers.
type Env struct {
	p       *Plan
	docs    []string
	bufs    [][]byte
	opts    []*xmldot.Options
	shared  []xmldot.Result
	mods    []*simMod
	ths     [maxClients + 1]*th
	scratch []byte
	quiet   bool // do not record ops
	noCrash bool
	track   bool // record callback events
	bad     *Violation
}

func newOpts() []*xmldot.Options {
	return []*xmldot.Options{
		nil,
		xmldot.DefaultOptions(),
		{CaseSensitive: false},
		{CaseSensitive: true, Indent: "  "},
		{CaseSensitive: false, Indent: "\t"},
		{CaseSensitive: true, PreserveWhitespace: true},
		{CaseSensitive: true, Namespaces: map[string]string{"ns": "urn:x", "p": "urn:y"}},
		{},
	}
}

func newEnv(p *Plan) *Env {
	e := &Env{p: p, opts: newOpts()}
	for _, d := range p.Docs {
		e.docs = append(e.docs, string([]byte(d)))
		e.bufs = append(e.bufs, []byte(d))
	}
	for i := range e.ths {
		e.ths[i] = &th{counts: map[string]int{}}
	}
	for i := range p.Mods {
		e.mods = append(e.mods, &simMod{e: e, id: i, spec: &p.Mods[i]})
	}
	return e
}

func (e *Env) th() *th {
	id := simrt.RootID()
	if id < 0 {
		id = maxClients
	}
	return e.ths[id]
}

func (e *Env) count(k string) { e.th().counts[k]++ }

// simMod is a scripted custom modifier.
type simMod struct {
	e    *Env
	id   int
	spec *Mod
	n    [maxClients + 1]int
}

func (m *simMod) Name() string {
	if len(m.spec.NameOps) > 0 && simrt.Running() {
		t := m.e.th()
		if t.depth < 3 {
			t.depth++
			t.counts["reentrant-name"]++
			for i := range m.spec.NameOps {
				m.e.eval(&m.spec.NameOps[i])
			}
			t.depth--
		}
	}
	return string(m.spec.Name)
}

type crash struct{ mod int }

func (m *simMod) Apply(r xmldot.Result) xmldot.Result {
	e := m.e
	t := e.th()
	tid := simrt.RootID()
	if tid < 0 {
		tid = maxClients
	}
	if e.track {
		t.ev = append(t.ev, Event{Seq: simrt.Seq(), Kind: "apply", Op: t.op, Mod: m.id, In: enc(r), R: r})
	}
	if m.spec.Stall == 1 {
		t.counts["stalled-callback"]++
		simrt.Stall()
	}
	if len(m.spec.Script) > 0 && t.depth < 4 {
		t.depth++
		t.counts["reentrant-callback"]++
		for i := range m.spec.Script {
			e.nested(&m.spec.Script[i])
			if simrt.Aborting() {
				panic(simrt.AbortPanic{Why: "abort"})
			}
		}
		t.depth--
	}
	if m.spec.Stall == 2 {
		t.counts["stalled-callback"]++
		simrt.Stall()
	}
	if m.spec.Crash != "" && !e.noCrash {
		m.n[tid]++
		if m.n[tid] > m.spec.CrashAt {
			if m.spec.Crash == "goexit" {
				t.counts["goexit-callback"]++
				runtime.Goexit()
			}
			t.counts["panic-callback"]++
			panic(crash{m.id})
		}
	}
	out := m.mean(r)
	if e.track {
		t.ev = append(t.ev, Event{Seq: simrt.Seq(), Kind: "applied", Op: t.op, Mod: m.id, Out: enc(out), Null: !out.Exists(), R: out})
	}
	return out
}

// nested makes a call from inside a callback.
func (e *Env) nested(op *Op) {
	if !e.track {
		e.eval(op)
		return
	}
	t := e.th()
	outer := t.op
	t.nest++
	q := *op
	q.ID = 1000000*(simrt.RootID()+1) + t.nest
	t.op = q.ID
	t.done = append(t.done, Done{Op: q, Thread: simrt.RootID(), Call: simrt.Seq(), Lost: true, Nested: true})
	i := len(t.done) - 1
	o := e.eval(&q)
	d := &t.done[i]
	d.Ret, d.Lost, d.Out = simrt.Seq(), false, o
	t.op = outer
}

func (m *simMod) mean(r xmldot.Result) xmldot.Result {
	switch m.spec.Kind {
	case "upper":
		r.Str = strings.ToUpper(r.Str)
		return r
	case "null":
		return xmldot.Result{}
	case "wrap":
		return xmldot.Result{Type: xmldot.Array, Results: []xmldot.Result{r, {Type: xmldot.String, Str: "w" + strconv.Itoa(m.id)}}}
	case "self", "retain":
		return r
	case "build":
		x := build(m.spec.Var)
		if len(x.Results) > 0 && len(x.Results)%2 == 0 {
			x.Results[0] = r
		}
		return x
	case "elems":
		return xmldot.Result{Type: xmldot.Element, Raw: "<i>2</i><i>1</i>", Str: "<i>2</i><i>1</i>"}
	}
	s := r.Str + ".m" + strconv.Itoa(m.id)
	return xmldot.Result{Type: xmldot.String, Str: s, Raw: s}
}

// build makes a result as a custom modifier might: arrays in arrays, empty
// arrays, mixed kinds, spare room behind the elements.
func build(n int) xmldot.Result {
	g := Gen{simrt.NewRng(uint64(n) + 1)}
	leaf := func() xmldot.Result {
		s := pick(g, textPool)
		switch g.Intn(6) {
		case 0:
			f := float64(g.n(-9, 99))
			return xmldot.Result{Type: xmldot.Number, Num: f, Str: fmt.Sprint(f), Raw: fmt.Sprint(f)}
		case 1:
			return xmldot.Result{Type: xmldot.Element, Str: s, Raw: "<b>" + s + "</b><a/>"}
		case 2:
			return xmldot.Result{}
		}
		return xmldot.Result{Type: xmldot.String, Str: s, Raw: s}
	}
	hollow := g.p(1, 3) // inner arrays are empty
	var array func(d int) xmldot.Result
	array = func(d int) xmldot.Result {
		k := g.n(0, 6)
		l := make([]xmldot.Result, 0, k+g.n(0, 3))
		for i := 0; i < k; i++ {
			switch {
			case hollow && g.p(1, 3):
				l = append(l, xmldot.Result{Type: xmldot.Array, Results: []xmldot.Result{}})
			case !hollow && d > 0 && g.p(1, 3):
				l = append(l, array(d-1))
			default:
				l = append(l, leaf())
			}
		}
		return xmldot.Result{Type: xmldot.Array, Results: l}
	}
	return array(2)
}

func encTo(b *strings.Builder, r xmldot.Result, depth int) {
	fmt.Fprintf(b, "{%d %d %x r=%q s=%q", int(r.Type), r.Index, math.Float64bits(r.Num), r.Raw, r.Str)
	if len(r.Results) > 0 && depth < 12 {
		b.WriteString(" [")
		for _, x := range r.Results {
			encTo(b, x, depth+1)
		}
		b.WriteByte(']')
	}
	b.WriteByte('}')
}

// enc is a deep encoding of a result.
func enc(r xmldot.Result) string {
	var b strings.Builder
	encTo(&b, r, 0)
	return b.String()
}

func encAll(rs []xmldot.Result) string {
	var b strings.Builder
	for i, r := range rs {
		fmt.Fprintf(&b, "#%d", i)
		encTo(&b, r, 0)
	}
	return b.String()
}

// short keeps violations and memory readable while still comparing everything.
func short(s string) string {
	if len(s) < 2000 {
		return s
	}
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return s[:600] + fmt.Sprintf("...#%d#%x", len(s), h.Sum64())
}

func encErr(err error) string {
	if err == nil {
		return "nil"
	}
	c := ""
	if errors.Is(err, xmldot.ErrMalformedXML) {
		c += "M"
	}
	if errors.Is(err, xmldot.ErrInvalidPath) {
		c += "P"
	}
	if errors.Is(err, xmldot.ErrInvalidValue) {
		c += "V"
	}
	return "err[" + c + "] " + err.Error()
}

func (v *Val) value() any {
	if v == nil {
		return nil
	}
	s := string(v.S)
	if v.N > 1 {
		s = strings.Repeat(s, v.N)
	}
	switch v.T {
	case "string":
		return s
	case "int":
		return int(v.I)
	case "int64":
		return v.I
	case "float":
		return v.F
	case "float32":
		return float32(v.F)
	case "bool":
		return v.I != 0
	case "bytes":
		return []byte(s)
	case "bad":
		return struct{ X []int }{[]int{1}}
	}
	return nil
}

func strs(l []S) []string {
	var o []string
	for _, s := range l {
		o = append(o, string(s))
	}
	return o
}

func vals(l []Val) []any {
	o := make([]any, 0, len(l))
	for i := range l {
		o = append(o, l[i].value())
	}
	return o
}

// opt returns option object i; 8 is a fresh default object customised by the caller.
func (e *Env) opt(i int) *xmldot.Options {
	if i == 8 {
		o := xmldot.DefaultOptions()
		o.CaseSensitive = false
		return o
	}
	if i == 9 {
		o := xmldot.DefaultOptions()
		o.Indent = "  "
		return o
	}
	if i < 0 || i >= len(e.opts) {
		return nil
	}
	return e.opts[i]
}

// buf returns the bytes of document d: shared ones, or the scratch buffer
// refilled, when the op says so.
func (e *Env) buf(op *Op) []byte {
	if op.X == 1 {
		e.count("buffer-reuse")
		if e.scratch == nil {
			e.scratch = []byte{} // an empty document is not a nil slice
		}
		e.scratch = append(e.scratch[:0], e.docs[op.D]...)
		return e.scratch
	}
	return e.bufs[op.D]
}

// eval makes the call op describes.
func (e *Env) eval(op *Op) (o Out) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(simrt.AbortPanic); ok {
				panic(a)
			}
			if c, ok := r.(crash); ok {
				o = Out{Enc: fmt.Sprintf("CRASH mod %d", c.mod), Panic: true}
				return
			}
			o = Out{Enc: "PANIC " + fmt.Sprint(r), Panic: true}
		}
	}()
	a := e.args(op)
	var again func() string // encodes what was returned once more
	one := func(r xmldot.Result) {
		o.Res = []xmldot.Result{r}
		o.Enc = enc(r)
		again = func() string { return enc(r) }
	}
	docS := func(s string, err error) {
		o.Doc, o.Err = []byte(s), err
		o.Enc = encErr(err) + " " + s
		again = func() string { return encErr(err) + " " + s }
	}
	docB := func(b []byte, err error) {
		o.Doc, o.Err = b, err
		text := func() string {
			t := encErr(err) + " " + string(b)
			if b == nil {
				t += " <nil>"
			}
			return t
		}
		o.Enc = text()
		if err != nil || batch(op.K) && len(a.ps) == 0 {
			return // nothing was edited: the original itself is handed back
		}
		again = text
		if a.guard && overlap(b, a.buf) {
			e.fail(op, "aliases-input", "the edited document shares memory with the input buffer")
		}
	}
	p := string(op.P)
	var sb strings.Builder
	switch op.K {
	case "get":
		one(xmldot.Get(e.docs[op.D], p))
	case "getstr":
		one(xmldot.GetString(e.docs[op.D], p))
	case "getbytes":
		one(xmldot.GetBytes(a.buf, p))
	case "getmany":
		o.Res = xmldot.GetMany(e.docs[op.D], a.ps...)
		o.Enc = encAll(o.Res)
		rs := o.Res
		again = func() string { return encAll(rs) }
	case "getopt":
		one(xmldot.GetWithOptions(e.docs[op.D], p, a.opt))
	case "getstropt":
		one(xmldot.GetStringWithOptions(e.docs[op.D], p, a.opt))
	case "getbytesopt":
		one(xmldot.GetBytesWithOptions(a.buf, p, a.opt))
	case "valid":
		o.Enc = fmt.Sprint(xmldot.Valid(e.docs[op.D])) + " " + encVal(xmldot.ValidateWithError(e.docs[op.D]))
	case "validbytes":
		b := a.buf
		o.Enc = fmt.Sprint(xmldot.ValidBytes(b)) + " " + encVal(xmldot.ValidateBytesWithError(b))
	case "chain":
		r := xmldot.Get(e.docs[op.D], p)
		o.Enc = e.chain(r, op.C)
	case "res":
		if op.R < len(e.shared) {
			o.Enc = e.chain(e.shared[op.R], op.C)
		}
	case "set":
		docS(xmldot.Set(e.docs[op.D], p, a.v))
	case "setbytes":
		docB(xmldot.SetBytes(a.buf, p, a.v))
	case "setraw":
		docS(xmldot.SetRaw(e.docs[op.D], p, string(op.V.S)))
	case "setmany":
		docS(xmldot.SetMany(e.docs[op.D], a.ps, a.vs))
	case "setmanybytes":
		docB(xmldot.SetManyBytes(a.buf, a.ps, a.vs))
	case "setopt":
		docS(xmldot.SetWithOptions(e.docs[op.D], p, a.v, a.opt))
	case "setbytesopt":
		docB(xmldot.SetBytesWithOptions(a.buf, p, a.v, a.opt))
	case "del":
		docS(xmldot.Delete(e.docs[op.D], p))
	case "delbytes":
		docB(xmldot.DeleteBytes(a.buf, p))
	case "delmany":
		docS(xmldot.DeleteMany(e.docs[op.D], a.ps...))
	case "delmanybytes":
		docB(xmldot.DeleteManyBytes(a.buf, a.ps...))
	case "delbytesopt":
		docB(xmldot.DeleteBytesWithOptions(a.buf, p, a.opt))
	case "reg":
		var m xmldot.Modifier
		if op.M >= 0 {
			m = e.mods[op.M]
		}
		err := xmldot.RegisterModifier(string(op.N), m)
		o.Err = err
		o.Enc = "ok"
		if err != nil {
			o.Enc = "refused"
		}
	case "unreg":
		err := xmldot.UnregisterModifier(string(op.N))
		o.Err = err
		o.Enc = "ok"
		if err != nil {
			o.Enc = "refused"
		}
	case "getmod":
		m := xmldot.GetModifier(string(op.N))
		if m == nil {
			o.Enc = "none"
		} else if s, ok := m.(*simMod); ok {
			o.Enc = "m" + strconv.Itoa(s.id)
		} else {
			o.Enc = "builtin " + m.Name()
		}
	case "probemod":
		// use a looked-up modifier directly
		m := xmldot.GetModifier(string(op.N))
		if m == nil {
			o.Enc = "none"
		} else {
			in := xmldot.Result{Type: xmldot.Array, Results: []xmldot.Result{{Type: xmldot.String, Str: "b"}, {Type: xmldot.String, Str: "a"}, {Type: xmldot.String, Str: "c"}}}
			r := m.Apply(in)
			o.Res = []xmldot.Result{r}
			o.Enc = m.Name() + " " + enc(r) + " in=" + enc(in)
		}
	case "burst":
		for i := 0; i < op.X; i++ {
			xmldot.Get("<r/>", fmt.Sprintf("%s.q%d", p, i))
			if simrt.Aborting() {
				break
			}
		}
		e.count("cache-overflow-burst")
		o.Enc = "burst"
	case "storm":
		for i := 0; i < op.X && !simrt.Aborting(); i++ {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(crash); !ok {
							panic(r)
						}
					}
				}()
				if i%3 == 2 {
					xmldot.Get("<r>"+strings.Repeat("<a>1</a><b>2</b>", 1+i%5)+"</r>", "r.*").ForEach(func(int, xmldot.Result) bool { panic(crash{}) })
				}
				if i%3 == 1 {
					xmldot.Get("<r><a>1</a><b>2</b></r>", "r").GetMany("a|@storm", "b")
				}
				xmldot.Get("<r><a>1</a><b>2</b></r>", p)
			}()
		}
		e.count("panic-storm")
		o.Enc = "storm"
	case "restart":
		e.count("restart")
		simreset.Restart()
		for i := range e.p.Pre {
			e.eval(&e.p.Pre[i])
		}
		o.Enc = "restarted"
	case "age":
		e.count("clock-jump")
		simrt.Jump(int64(op.X) * 1e9)
		o.Enc = "aged"
	case "stall":
		e.count("stall")
		simrt.Stall()
		o.Enc = "stalled"
	case "scribget":
		// a caller that overwrites the results it received
		switch op.Y {
		case 0:
			r := xmldot.Get(e.docs[op.D], p)
			o.Enc = enc(r)
			scribbleResult(&r, 0)
		case 1:
			rs := xmldot.GetMany(e.docs[op.D], a.ps...)
			o.Enc = encAll(rs)
			if len(rs) > 0 {
				scribbleResult(&rs[0], 0)
				for i := 1; i < len(rs); i++ {
					fmt.Fprintf(&sb, "%s", enc(rs[i]))
				}
				o.Enc += " after:" + sb.String()
				for i := range rs {
					scribbleResult(&rs[i], 0)
				}
			}
		case 2:
			m := xmldot.Get(e.docs[op.D], p).Map()
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				x := m[k]
				fmt.Fprintf(&sb, "%q=%s;", k, enc(x))
			}
			for _, k := range ks {
				x := m[k]
				scribbleResult(&x, 0)
				m[k] = x
				m[k+"scribbled"] = x
			}
			o.Enc = sb.String()
		}
		e.count("result-overwritten-by-its-owner")
	case "watch":
		// nobody may have changed the shared inputs
		o.Enc = "intact"
		for i := range e.bufs {
			if string(e.bufs[i]) != e.docs[i] || string(e.bufs[i]) != string(e.p.Docs[i]) {
				o.Enc = fmt.Sprintf("buffer %d changed to %q", i, e.bufs[i])
			}
		}
		if !reflect.DeepEqual(e.opts, newOpts()) {
			o.Enc = "options changed"
		}
	case "heal":
		// callbacks stop failing from here on
		e.noCrash = true
		o.Enc = "healed"
	case "mk":
		r := build(op.Y)
		o.Res = []xmldot.Result{r}
		o.Enc = enc(r)
	case "nop":
		o.Enc = "nop"
	default:
		panic("harness: unknown op " + op.K)
	}
	if a.guard {
		if what := a.changed(); what != "" {
			e.fail(op, "argument-modified", "the call changed "+what)
		}
		full := o.Enc
		a.scribble()
		e.count("argument-overwritten-after-return")
		if again != nil {
			if now := again(); now != full {
				e.fail(op, "argument-kept", "what the call returned changed when the caller overwrote the arguments")
				if e.bad != nil && e.bad.Kind == "argument-kept" {
					e.bad.Expected, e.bad.Got = short(full), short(now)
				}
			}
		}
	}
	o.Enc = short(o.Enc)
	return o
}

// fail records the first violation an op notices itself.
func (e *Env) fail(op *Op, kind, detail string) {
	if e.bad == nil {
		c := *op
		e.bad = &Violation{Kind: kind, Detail: fmt.Sprintf("call %d (%s): %s", op.ID, op.K, detail), Op: &c}
	}
}

// args are the arguments of one call. Guarded ones belong to this call alone
// and are watched and overwritten.
type args struct {
	guard bool
	buf   []byte
	ps    []string
	vs    []any
	v     any
	opt   *xmldot.Options

	buf0  []byte
	ps0   []string
	vs0   []any
	v0    any
	opt0  *xmldot.Options
	spare int
}

func (e *Env) args(op *Op) *args {
	a := &args{guard: op.X == 2 && len(e.docs) > 0}
	if !a.guard {
		switch op.K {
		case "getbytes", "getbytesopt", "validbytes", "setbytes", "setmanybytes", "setbytesopt", "delbytes", "delmanybytes", "delbytesopt":
			a.buf = e.buf(op)
		}
		a.ps, a.vs, a.v, a.opt = strs(op.Ps), vals(op.Vs), op.V.value(), e.opt(op.O)
		return a
	}
	a.spare = 3 + op.ID%60
	d := e.docs[op.D]
	a.buf = make([]byte, len(d), len(d)+a.spare)
	copy(a.buf, d)
	full := a.buf[:cap(a.buf)]
	for i := len(d); i < len(full); i++ {
		full[i] = 0xA5
	}
	a.buf0 = append([]byte(nil), full...)
	mk := func() ([]string, []any, any, *xmldot.Options) {
		ps := append(make([]string, 0, len(op.Ps)+2), strs(op.Ps)...)
		vs := append(make([]any, 0, len(op.Vs)+2), vals(op.Vs)...)
		var o *xmldot.Options
		if op.O >= 0 && op.O < nOpts {
			o = newOpts()[op.O]
		} else {
			o = e.opt(op.O)
		}
		ps[:len(ps)+2][len(ps)] = "spare"
		vs[:len(vs)+2][len(vs)] = "spare"
		return ps, vs, op.V.value(), o
	}
	a.ps, a.vs, a.v, a.opt = mk()
	a.ps0, a.vs0, a.v0, a.opt0 = mk()
	return a
}

// changed tells which argument is not what it was.
func (a *args) changed() string {
	switch {
	case !bytes.Equal(a.buf[:cap(a.buf)], a.buf0):
		return "the input bytes"
	case !reflect.DeepEqual(a.ps[:len(a.ps)+2], a.ps0[:len(a.ps0)+2]):
		return "the path list"
	case !reflect.DeepEqual(a.vs[:len(a.vs)+2], a.vs0[:len(a.vs0)+2]):
		return "the value list"
	case !reflect.DeepEqual(a.v, a.v0):
		return "the value"
	case !reflect.DeepEqual(a.opt, a.opt0):
		return "the options"
	}
	return ""
}

func (a *args) scribble() {
	full := a.buf[:cap(a.buf)]
	for i := range full {
		full[i] = '#'
	}
	for i := range a.ps {
		a.ps[i] = "scribbled"
	}
	for i := range a.vs {
		if b, ok := a.vs[i].([]byte); ok {
			for k := range b {
				b[k] = '#'
			}
		}
		a.vs[i] = "scribbled"
	}
	if b, ok := a.v.([]byte); ok {
		for k := range b {
			b[k] = '#'
		}
	}
	if a.opt != nil {
		a.opt.CaseSensitive = !a.opt.CaseSensitive
		a.opt.Indent += "##"
		a.opt.PreserveWhitespace = !a.opt.PreserveWhitespace
		for k := range a.opt.Namespaces {
			a.opt.Namespaces[k] = "urn:scribbled"
		}
		if a.opt.Namespaces != nil {
			a.opt.Namespaces["scribbled"] = "urn:z"
		}
	}
}

func batch(kind string) bool {
	switch kind {
	case "setmany", "setmanybytes", "delmany", "delmanybytes":
		return true
	}
	return false
}

func overlap(x, y []byte) bool {
	x, y = x[:cap(x)], y[:cap(y)]
	if len(x) == 0 || len(y) == 0 {
		return false
	}
	x0, y0 := uintptr(unsafe.Pointer(&x[0])), uintptr(unsafe.Pointer(&y[0]))
	return x0 < y0+uintptr(len(y)) && y0 < x0+uintptr(len(x))
}

// scribbleResult overwrites everything a caller can reach from its own result.
func scribbleResult(r *xmldot.Result, depth int) {
	if depth > 8 {
		return
	}
	_ = append(r.Results, xmldot.Result{Type: xmldot.String, Str: "appended"}, xmldot.Result{Type: xmldot.String, Str: "appended"})
	for i := range r.Results {
		scribbleResult(&r.Results[i], depth+1)
		r.Results[i].Str = "scribbled"
		r.Results[i].Raw = "scribbled"
		r.Results[i].Type = xmldot.True
		r.Results[i].Num = 666
	}
	r.Str, r.Raw, r.Type = "scribbled", "scribbled", xmldot.False
}

func encVal(v *xmldot.ValidateError) string {
	if v == nil {
		return "valid"
	}
	return fmt.Sprintf("%d:%d %s", v.Line, v.Column, v.Message)
}

// chain applies result methods and encodes everything seen.
func (e *Env) chain(r xmldot.Result, c []Step) string {
	var b strings.Builder
	b.WriteString(enc(r))
	for i := range c {
		s := &c[i]
		b.WriteString(" >" + s.M + " ")
		switch s.M {
		case "get":
			r = r.Get(string(s.P))
			b.WriteString(enc(r))
		case "getmany":
			rs := r.GetMany(strs(s.Ps)...)
			b.WriteString(encAll(rs))
			if len(rs) > 0 {
				r = rs[0]
			}
		case "getopt":
			r = r.GetWithOptions(string(s.P), e.opt(s.O))
			b.WriteString(enc(r))
		case "map", "mapopt":
			var m map[string]xmldot.Result
			if s.M == "map" {
				m = r.Map()
			} else {
				m = r.MapWithOptions(e.opt(s.O))
			}
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Fprintf(&b, "%q=%s;", k, enc(m[k]))
			}
			if len(ks) > 0 {
				r = m[ks[0]]
			}
		case "array":
			a := r.Array()
			b.WriteString(encAll(a))
			fmt.Fprintf(&b, " isarr=%v", r.IsArray())
		case "foreach":
			n := 0
			r.ForEach(func(i int, v xmldot.Result) bool {
				fmt.Fprintf(&b, "(%d %s)", i, enc(v))
				n++
				return n < s.N
			})
		case "iter":
			// the callback behaves as modifier N does
			k := 0
			r.ForEach(func(i int, v xmldot.Result) bool {
				x := v
				if s.N < len(e.mods) {
					x = e.mods[s.N].Apply(v)
				}
				fmt.Fprintf(&b, "(%d %s)", i, enc(x))
				k++
				return k < 4
			})
		case "mod":
			if m := xmldot.GetModifier(string(s.P)); m != nil {
				r = m.Apply(r)
			}
			b.WriteString(enc(r))
		case "conv":
			fmt.Fprintf(&b, "%q %d %x %v %v %T:%v", r.String(), r.Int(), math.Float64bits(r.Float()), r.Bool(), r.Exists(), r.Value(), r.Value())
		case "elem":
			a := r.Array()
			if s.N < len(a) {
				r = a[s.N]
				b.WriteString(enc(r))
			}
		}
		if simrt.Aborting() {
			break
		}
	}
	return b.String()
}

// perform runs op as a client call on the running thread and records it.
func (e *Env) perform(op *Op) (alive bool) {
	t := e.th()
	simrt.OpBegin(op.ID)
	t.op = op.ID
	t.depth = 0
	idx := -1
	if !e.quiet {
		t.done = append(t.done, Done{Op: *op, Thread: simrt.RootID(), Call: simrt.Seq(), Lost: true})
		idx = len(t.done) - 1
	}
	o := e.eval(op)
	if simrt.Aborting() {
		return false
	}
	if idx >= 0 {
		d := &t.done[idx]
		d.Ret = simrt.Seq()
		d.Lost = false
		d.Out = o
	}
	return true
}

// body is a client executing ops in order.
func (e *Env) body(ops []Op) func() {
	return func() {
		for i := range ops {
			if !e.perform(&ops[i]) {
				return
			}
		}
	}
}

func simCfg(p *Plan, s simrt.Sched) simrt.Config {
	l := int64(opLimit)
	if n := p.Ints["oplimit"]; n > 0 {
		l = int64(n)
	}
	return simrt.Config{Sched: s, MapSeed: p.MapSeed, PoolSeed: p.Pool, OpLimit: l, NSites: nSites}
}

var quietSched = simrt.Sched{Kind: simrt.None}

// seqRun executes ops alone, in order, on one simulated thread.
func (e *Env) seqRun(ops []Op) simrt.Report {
	return simrt.Run(simCfg(e.p, quietSched), []func(){e.body(ops)})
}

// boot restarts the process and performs the plan's setup.
func boot(p *Plan) (*Env, simrt.Report) {
	simrt.NextBoot(p.MapSeed)
	simreset.Restart()
	e := newEnv(p)
	e.quiet = true
	r := simrt.Run(simCfg(p, quietSched), []func(){func() {
		for i := range p.Pre {
			if !e.perform(&p.Pre[i]) {
				return
			}
		}
		for i := range p.Shared {
			o := e.eval(&p.Shared[i])
			if len(o.Res) > 0 {
				e.shared = append(e.shared, o.Res[0])
			} else {
				e.shared = append(e.shared, xmldot.Result{})
			}
		}
	}})
	e.quiet = false
	return e, r
}

// Ref answers what an op returns when it is the only call in a fresh process.
type Ref struct {
	p     *Plan
	memo  map[string]Out
	steps int64
	bad   *Violation
}

func newRef(p *Plan) *Ref { return &Ref{p: p, memo: map[string]Out{}} }

func (f *Ref) out(op *Op) Out {
	k := *op
	k.ID = 0
	k.X = 0
	b, _ := json.Marshal(&k)
	if o, ok := f.memo[string(b)]; ok {
		return o
	}
	e, _ := boot(f.p)
	var o Out
	q := k
	rep := simrt.Run(simCfg(f.p, quietSched), []func(){func() {
		if e.perform(&q) {
			o = e.ths[0].done[len(e.ths[0].done)-1].Out
		}
	}})
	f.steps += rep.Steps
	if rep.Deadlock || rep.Overrun || rep.Crashed != "" {
		o.Enc = "STUCK alone"
		o.Panic = true
	}
	f.memo[string(b)] = o
	return o
}

// outcomes collects finished ops of all threads in thread order.
func (e *Env) outcomes() []*Done {
	var l []*Done
	for _, t := range e.ths {
		for i := range t.done {
			l = append(l, &t.done[i])
		}
	}
	return l
}

// stuck turns a run report into a violation if somebody could not finish.
func stuck(rep simrt.Report) *Violation {
	switch {
	case rep.Crashed != "":
		return &Violation{Kind: "process-crash", Detail: "a goroutine of the library ended the process: " + rep.Crashed}
	case rep.Deadlock:
		return &Violation{Kind: "deadlock", Detail: "no thread can run; waiting: " + strings.Join(rep.Blocked, ", ")}
	case rep.Overrun:
		return &Violation{Kind: "no-progress", Detail: fmt.Sprintf("one call took more than %d steps", opLimit)}
	case rep.Starved:
		return &Violation{Kind: "blocked-by-callback", Detail: "a call waits for a stalled callback; waiting: " + strings.Join(rep.Blocked, ", ")}
	}
	return nil
}
