package main

import (
	"encoding/xml"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"

	xmldot "MODROOT"
	"SIMROOT/simreset"
	"SIMROOT/simrt"
	simsync "SIMROOT/simsync"
)

// ---- C13 ----

// elem is the reference model of a document part: an element with attributes and
// children, a text, a comment or a processing instruction.
type elem struct {
	kind  byte // e t c p
	name  string
	attrs map[string]string
	text  string
	kids  []*elem
	up    *elem
}

// parseTree builds the model of a document. It shares no code with the library.
func parseTree(doc string) (*elem, error) {
	d := xml.NewDecoder(strings.NewReader(doc))
	d.CharsetReader = func(_ string, r io.Reader) (io.Reader, error) { return r, nil }
	top := &elem{kind: 'e'}
	cur := top
	full := func(n xml.Name) string {
		if n.Space != "" {
			return n.Space + ":" + n.Local
		}
		return n.Local
	}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			e := &elem{kind: 'e', name: full(t.Name), attrs: map[string]string{}, up: cur}
			for _, a := range t.Attr {
				if _, twice := e.attrs[full(a.Name)]; twice {
					return nil, fmt.Errorf("attribute %s twice in %s", full(a.Name), e.name)
				}
				e.attrs[full(a.Name)] = a.Value
			}
			cur.kids = append(cur.kids, e)
			cur = e
		case xml.EndElement:
			if cur == top || cur.name != full(t.Name) {
				return nil, fmt.Errorf("unexpected end tag %s", full(t.Name))
			}
			cur = cur.up
		case xml.CharData:
			cur.addText(string(t))
		case xml.Comment:
			cur.kids = append(cur.kids, &elem{kind: 'c', text: string(t), up: cur})
		case xml.ProcInst:
			cur.kids = append(cur.kids, &elem{kind: 'p', name: t.Target, text: string(t.Inst), up: cur})
		case xml.Directive:
			cur.kids = append(cur.kids, &elem{kind: 'd', text: string(t), up: cur})
		}
	}
	if cur != top {
		return nil, fmt.Errorf("element %s not closed", cur.name)
	}
	return top, nil
}

func (e *elem) addText(s string) {
	if s == "" {
		return
	}
	if n := len(e.kids); n > 0 && e.kids[n-1].kind == 't' {
		e.kids[n-1].text += s
		return
	}
	e.kids = append(e.kids, &elem{kind: 't', text: s, up: e})
}

func (e *elem) write(b *strings.Builder, skip *elem) {
	switch e.kind {
	case 'e':
		fmt.Fprintf(b, "(%s", e.name)
		var ks []string
		for k := range e.attrs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(b, " @%s=%q", k, e.attrs[k])
		}
		text := ""
		flush := func() {
			if text != "" {
				fmt.Fprintf(b, " %q", text)
			}
			text = ""
		}
		for _, k := range e.kids {
			if k == skip {
				continue
			}
			if k.kind == 't' {
				text += k.text
				continue
			}
			flush()
			b.WriteByte(' ')
			k.write(b, skip)
		}
		flush()
		b.WriteByte(')')
	default:
		fmt.Fprintf(b, "%c[%s %q]", e.kind, e.name, e.text)
	}
}

func (e *elem) canon(skip *elem) string {
	var b strings.Builder
	e.write(&b, skip)
	return b.String()
}

func (e *elem) elems() []*elem {
	var l []*elem
	for _, k := range e.kids {
		if k.kind == 'e' {
			l = append(l, k)
		}
	}
	return l
}

func (e *elem) all(f func(*elem)) {
	for _, k := range e.elems() {
		f(k)
		k.all(f)
	}
}

func (e *elem) same(name string) []*elem {
	var l []*elem
	for _, k := range e.elems() {
		if k.name == name || strings.HasSuffix(k.name, ":"+name) { // a name without prefix selects any prefix
			l = append(l, k)
		}
	}
	return l
}

func (e *elem) textOnly() (string, bool) {
	if len(e.kids) == 0 {
		return "", true
	}
	if len(e.kids) == 1 && e.kids[0].kind == 't' {
		return e.kids[0].text, true
	}
	return "", false
}

func (e *elem) drop(x *elem) {
	old := e.kids
	e.kids = nil
	for _, k := range old {
		if k == x {
			continue
		}
		if k.kind == 't' {
			e.addText(k.text)
		} else {
			e.kids = append(e.kids, k)
		}
	}
}

// pathTo spells the path of an element; the model decides where an index is needed.
func (g Gen) pathTo(x *elem) string {
	var segs []string
	for ; x.up != nil; x = x.up {
		l := x.up.same(x.name)
		i := 0
		for k := range l {
			if l[k] == x {
				i = k
			}
		}
		s := esc(x.name)
		if i > 0 || (len(l) > 1 && g.p(1, 2)) || (x.up.up != nil && g.p(1, 12)) {
			s += fmt.Sprintf(".%d", i)
		}
		segs = append([]string{s}, segs...)
	}
	return strings.Join(segs, ".")
}

// edit is one change of the shared document, as text for the library and as a
// change of the model.
type edit struct {
	kind   string
	path   string
	val    any
	raw    string
	back   string // what reading the path gives afterwards
	check  bool   // whether to read it back
	apply  func() // on the tree it was chosen from
	where  []int  // ordinals of the parent of a new element
	fresh  string // canonical form of the new element
	last   bool   // the new element comes after its namesakes
	mayErr bool
}

var c13Texts = []string{"v", "42", "a < b & c > d", `say "hi"`, "it's", "é日本", "two words", "]]>", "&amp;", "0", "x;y", "-", "<b>not markup</b>", "true"}
var c13Raw = []string{"<k>1</k>", "<k a=\"1\"/><k>2</k>", "plain", "<m><n x='y'>t</n></m>", "<ns:k>z</ns:k>tail"}

func (g Gen) c13Value() (any, string) {
	switch g.wpick(12, 4, 2, 1, 1, 1, 1) {
	case 1:
		n := g.n(-5, 5000)
		return n, fmt.Sprint(n)
	case 2:
		b := g.p(1, 2)
		return b, fmt.Sprint(b)
	case 3:
		f := float64(g.n(-4000, 4000)) / 8
		return f, fmt.Sprint(f)
	case 4:
		n := uint64(g.Next())
		return n, fmt.Sprint(n)
	case 5:
		n := int64(g.Next())
		return n, fmt.Sprint(n)
	case 6:
		s := strings.Repeat(pick(g, []string{"long ", "<&", "é"}), g.n(50, 800)) + "."
		return s, s
	}
	s := pick(g, c13Texts)
	return s, s
}

func rootOf(top *elem) *elem {
	if l := top.elems(); len(l) > 0 {
		return l[0]
	}
	return nil
}

// choose picks an edit that fits the document. token is unique per edit.
func (g Gen) choose(top *elem, token string, plain bool) *edit {
	root := rootOf(top)
	var els []*elem
	root.all(func(x *elem) {
		for y := x; y != nil; y = y.up {
			if y.name == "ev" {
				return
			}
		}
		els = append(els, x)
	})
	ord := func(x *elem) []int {
		var l []int
		for ; x.up != nil; x = x.up {
			for i, k := range x.up.elems() {
				if k == x {
					l = append([]int{i}, l...)
				}
			}
		}
		return l
	}
	w := []int{5, 4, 3, 4, 2, 3, 3, 4, 2}
	if plain {
		w = []int{5, 4, 3, 4, 0, 0, 0, 0, 2}
	}
	if len(els) == 0 {
		w[0], w[3], w[8] = 0, 0, 0
	}
	parent := func() *elem {
		if len(els) == 0 || g.p(1, 3) {
			return root
		}
		return pick(g, els)
	}
	switch g.wpick(w...) {
	case 0: // replace the content of an element by text
		x := pick(g, els)
		v, s := g.c13Value()
		check := true
		if t, ok := x.textOnly(); ok && g.p(1, 6) {
			s = g.nearly(t)
			v, check = s, strings.TrimSpace(s) == s // reads trim
		}
		return &edit{kind: "set", path: g.pathTo(x), val: v, back: s, check: check, apply: func() { x.kids = nil; x.addText(s) }}
	case 1: // attribute of an existing element
		x := parent()
		k := pick(g, attrPool)
		if len(x.attrs) > 0 && g.p(1, 2) {
			k = pickKey(g, x.attrs)
		}
		v, s := g.c13Value()
		check := true
		if t, ok := x.attrs[k]; ok && g.p(1, 6) {
			s = g.nearly(t)
			v, check = s, strings.TrimSpace(s) == s
		}
		return &edit{kind: "setattr", path: g.pathTo(x) + ".@" + k, val: v, back: s, check: check, apply: func() { x.attrs[k] = s }}
	case 2:
		x := parent()
		k := pick(g, attrPool)
		if len(x.attrs) > 0 && g.p(4, 5) {
			k = pickKey(g, x.attrs)
		}
		return &edit{kind: "delattr", path: g.pathTo(x) + ".@" + k, apply: func() { delete(x.attrs, k) }}
	case 3:
		x := pick(g, els)
		return &edit{kind: "del", path: g.pathTo(x), apply: func() { x.up.drop(x) }}
	case 4: // attribute on a new element
		x := parent()
		n := "n" + token
		v, s := g.c13Value()
		return &edit{kind: "create", path: g.pathTo(x) + "." + n + ".@k", val: v, back: s, check: true, where: ord(x), fresh: (&elem{kind: 'e', name: n, attrs: map[string]string{"k": s}}).canon(nil)}
	case 5: // new chain of elements
		x := parent()
		n := "n" + token
		v, s := g.c13Value()
		e := &elem{kind: 'e', name: n}
		path := g.pathTo(x) + "." + n
		at := e
		for i := g.n(0, 2); i > 0; i-- {
			c := &elem{kind: 'e', name: pick(g, []string{"c1", "c2", n})}
			at.kids = append(at.kids, c)
			at = c
			path += "." + c.name
		}
		at.addText(s)
		return &edit{kind: "create", path: path, val: v, back: s, check: true, where: ord(x), fresh: e.canon(nil)}
	case 6: // append to namesakes, or the first of its name
		x := parent()
		n := "n" + token
		if l := x.elems(); len(l) > 0 && g.p(3, 4) {
			if n = pick(g, l).name; n == "ev" {
				n = "n" + token
			}
		}
		v, s := g.c13Value()
		e := &elem{kind: 'e', name: n}
		e.addText(s)
		return &edit{kind: "append", path: g.pathTo(x) + "." + esc(n) + ".-1", val: v, back: s, check: true, where: ord(x), fresh: e.canon(nil), last: true}
	case 7: // an entry of the log every client appends to
		e := &elem{kind: 'e', name: "ev"}
		e.addText(token)
		return &edit{kind: "append", path: esc(root.name) + ".ev.-1", val: token, back: token, check: true, where: ord(root), fresh: e.canon(nil), last: true}
	}
	x := pick(g, els)
	raw := pick(g, c13Raw)
	part, err := parseTree(raw)
	if err != nil {
		panic(err)
	}
	return &edit{kind: "raw", path: g.pathTo(x), raw: raw, apply: func() {
		x.kids = part.kids
		for _, k := range x.kids {
			k.up = x
		}
	}}
}

// nearly returns a value close to the present one, or the same.
func (g Gen) nearly(t string) string {
	switch g.Intn(6) {
	case 0:
		return t
	case 1:
		return " " + t
	case 2:
		return t + "  "
	case 3:
		return g.flipCase(t)
	case 4:
		return t + t
	}
	return t + "1"
}

func pickKey(g Gen, m map[string]string) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return pick(g, l)
}

// call makes the edit through one of the equivalent forms of the API.
func (g Gen) call(doc string, eds []*edit, fold bool) (out string, err error) {
	dead := []byte(doc)
	var opts *xmldot.Options
	switch g.Intn(4) {
	case 0:
		opts = xmldot.DefaultOptions()
	case 1:
		opts = &xmldot.Options{CaseSensitive: true, PreserveWhitespace: true}
	case 2:
		if all := doc + eds[0].path; fold && strings.ToLower(all) == all { // new names are written in lower case
			opts = &xmldot.Options{CaseSensitive: false}
		}
	}
	if len(eds) > 1 {
		var ps []string
		var vs []any
		for _, e := range eds {
			ps = append(ps, e.path)
			switch e.kind {
			case "del", "delattr":
				vs = append(vs, nil)
			case "raw":
				vs = append(vs, []byte(e.raw))
			default:
				vs = append(vs, e.val)
			}
		}
		if g.p(1, 2) {
			return xmldot.SetMany(doc, ps, vs)
		}
		b, err := xmldot.SetManyBytes(dead, ps, vs)
		return string(b), err
	}
	e := eds[0]
	v := e.val
	switch e.kind {
	case "del", "delattr":
		switch g.Intn(6) {
		case 0:
			return xmldot.Delete(doc, e.path)
		case 1:
			b, err := xmldot.DeleteBytes(dead, e.path)
			return string(b), err
		case 2:
			return xmldot.DeleteMany(doc, e.path)
		case 3:
			b, err := xmldot.DeleteManyBytes(dead, e.path)
			return string(b), err
		case 4:
			b, err := xmldot.DeleteBytesWithOptions(dead, e.path, xmldot.DefaultOptions())
			return string(b), err
		}
		return xmldot.Set(doc, e.path, nil)
	case "raw":
		if g.p(1, 2) {
			return xmldot.SetRaw(doc, e.path, e.raw)
		}
		v = []byte(e.raw)
	}
	switch g.Intn(5) {
	case 0:
		b, err := xmldot.SetBytes(dead, e.path, v)
		return string(b), err
	case 1:
		return xmldot.SetWithOptions(doc, e.path, v, opts)
	case 2:
		b, err := xmldot.SetBytesWithOptions(dead, e.path, v, opts)
		return string(b), err
	case 3:
		return xmldot.SetMany(doc, []string{e.path}, []any{v})
	}
	return xmldot.Set(doc, e.path, v)
}

// shared is the document the clients edit.
type sharedDoc struct {
	mu     simsync.Mutex
	rw     simsync.RWMutex
	cond   *simsync.Cond
	queue  []*request
	closed int
	doc    string
	ver    int
	log    []string // tokens of acknowledged log entries, in commit order
	bad    *Violation
	fold   bool
	noText bool
}

type request struct {
	op   *Op
	done bool
}

func (s *sharedDoc) fail(op *Op, kind, detail, want, got string) {
	if s.bad == nil {
		o := *op
		s.bad = &Violation{Kind: kind, Detail: detail, Op: &o, Expected: short(want), Got: short(got)}
	}
}

// step derives the next document from doc. It reports the new document and the
// log token it contains, or ok=false when the edit was refused.
func (s *sharedDoc) step(e *Env, op *Op, doc string) (next, token string, ok bool) {
	g := Gen{simrt.NewRng(uint64(op.X))}
	before, err := parseTree(doc)
	if err != nil || rootOf(before) == nil {
		return doc, "", false
	}
	was := before.canon(nil)
	tok := fmt.Sprintf("%d", op.ID)
	var eds []*edit
	if op.K == "badedit" {
		root := rootOf(before)
		p := esc(root.name) + "." + pick(g, namePool)
		bad := pick(g, []*edit{
			{path: p, val: struct{ X []int }{[]int{1}}},
			{path: "", val: "v"},
			{path: p + ".-2", val: "v"},
			{path: p + ".-1.x", val: "v"},
			{path: p, val: make(chan int)},
			{path: esc(root.name) + ".@id.-1", val: "v"},
			{path: p, kind: "raw", raw: "<open>"},
			{path: p, kind: "raw", raw: "</x>"},
		})
		eds = []*edit{bad}
		if g.p(1, 3) {
			eds = []*edit{g.choose(before, tok, true), bad}
			if bad.kind == "raw" {
				eds = eds[1:]
			}
		}
		var out string
		if len(eds) == 1 && bad.kind == "raw" {
			out, err = xmldot.SetRaw(doc, bad.path, bad.raw)
		} else {
			out, err = g.call(doc, eds, false)
		}
		if err == nil {
			return doc, "", false // accepted: what it then means is not the subject here
		}
		e.count("failing-edit")
		if out != doc {
			s.fail(op, "failed-edit-changed", "an edit reported an error and returned another document ("+bad.path+")", doc, out)
		}
		return doc, "", false
	}
	n := 1
	if op.Y&4 != 0 {
		n = g.n(2, 3)
	}
	for i := 0; i < n; i++ {
		ed := g.choose(before, fmt.Sprintf("%s%s", tok, strings.Repeat("b", i)), n > 1)
		eds = append(eds, ed)
		if ed.apply != nil {
			ed.apply()
		}
	}
	out, err := g.call(doc, eds, s.fold)
	var what []string
	for _, ed := range eds {
		what = append(what, fmt.Sprintf("%s %s = %v%s", ed.kind, ed.path, ed.val, ed.raw))
	}
	desc := strings.Join(what, "; ")
	if err != nil {
		e.count("refused-edit")
		if out != doc {
			s.fail(op, "failed-edit-changed", "an edit reported an error and returned another document ("+desc+")", doc, out)
		}
		return doc, "", false
	}
	after, perr := parseTree(out)
	if perr != nil {
		s.fail(op, "document-damaged", "after an acknowledged edit ("+desc+") the document is not well-formed: "+perr.Error(), doc, out)
		return doc, "", false
	}
	ed := eds[0]
	if ed.fresh == "" {
		if want, got := before.canon(nil), after.canon(nil); want != got {
			s.fail(op, "edit-lost-or-spread", "the document after an acknowledged edit ("+desc+") is not the edited document; before: "+short(doc), want, got)
			return doc, "", false
		}
	} else if why := placed(after, ed, was); why != "" {
		s.fail(op, "edit-lost-or-spread", "after an acknowledged edit ("+desc+") "+why, short(doc), short(out))
		return doc, "", false
	}
	if len(eds) == 1 && ed.check {
		p := ed.path
		if ed.last {
			x := after
			for _, i := range ed.where {
				x = x.elems()[i]
			}
			name := strings.TrimSuffix(p[strings.LastIndexByte(strings.TrimSuffix(p, ".-1"), '.')+1:], ".-1")
			p = fmt.Sprintf("%s.%d", strings.TrimSuffix(p, ".-1"), len(x.same(name))-1)
		}
		if got := xmldot.Get(out, p); got.String() != ed.back || !got.Exists() {
			s.fail(op, "ack-not-visible", "reading "+p+" after the edit ("+desc+") was acknowledged gives something else; document: "+short(out), ed.back, got.String())
			return doc, "", false
		}
	}
	if ed.kind == "append" && strings.HasSuffix(ed.path, ".ev.-1") {
		token = tok
	}
	return out, token, true
}

// placed tells whether after is before plus one new element in the right place.
func placed(after *elem, ed *edit, was string) string {
	x := after
	for _, i := range ed.where {
		l := x.elems()
		if i >= len(l) {
			return "the parent of the new element is gone"
		}
		x = l[i]
	}
	for _, k := range x.elems() {
		if k.canon(nil) != ed.fresh {
			continue
		}
		if ed.last {
			if l := x.same(k.name); l[len(l)-1] != k {
				continue
			}
		}
		if after.canon(k) == was {
			return ""
		}
	}
	return "the document is not the old one plus the new element in its place"
}

// look reads the document through the library and compares with the model.
func (s *sharedDoc) look(e *Env, op *Op, doc string) {
	g := Gen{simrt.NewRng(uint64(op.X))}
	top, err := parseTree(doc)
	if err != nil || rootOf(top) == nil {
		return
	}
	var els []*elem
	top.all(func(x *elem) { els = append(els, x) })
	x := pick(g, els)
	p := g.pathTo(x)
	expect := func(path, want string) {
		var got xmldot.Result
		switch g.Intn(5) {
		case 0:
			got = xmldot.GetBytes([]byte(doc), path)
		case 1:
			got = xmldot.GetWithOptions(doc, path, xmldot.DefaultOptions())
		case 2:
			got = xmldot.GetMany(doc, path)[0]
		case 3:
			got = xmldot.GetString(doc, path)
		default:
			got = xmldot.Get(doc, path)
		}
		if got.String() != want {
			s.fail(op, "stale-or-wrong-read", "reading "+path+" differs from the model; document: "+short(doc), want, got.String())
		}
	}
	switch g.Intn(4) {
	case 0:
		if len(x.attrs) > 0 && !strings.Contains(doc, "&#") { // numeric references are not resolved by queries
			k := pickKey(g, x.attrs)
			expect(p+".@"+k, x.attrs[k])
		}
	case 1:
		if t, ok := x.textOnly(); ok && strings.TrimSpace(t) == t && !s.noText {
			expect(p, t)
		}
	case 2:
		if x.up.up != nil {
			expect(g.pathTo(x.up)+"."+esc(x.name)+".#", fmt.Sprint(len(x.up.same(x.name))))
		}
	case 3:
		xmldot.Get(doc, g.pathTo(x.up)+"."+esc(x.name)+".#.%").ForEach(func(int, xmldot.Result) bool {
			if op.Y&8 != 0 {
				e.count("panic-callback")
				panic(crash{})
			}
			return true
		})
	}
}

// client performs one op of the plan on the shared document.
func (s *sharedDoc) client(e *Env, mode string, op *Op) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(simrt.AbortPanic); ok {
				panic(a)
			}
			if _, ok := r.(crash); !ok {
				s.fail(op, "panic", "a call of the library panicked: "+fmt.Sprint(r), "", short(s.doc))
			}
		}
	}()
	mid := func() {
		if op.Y&1 != 0 {
			e.count("stalled-client")
			simrt.Yield(simrt.SiteLock)
			simrt.Yield(simrt.SiteLock)
		}
		if op.Y&2 != 0 {
			e.count("client-died-before-commit")
			runtime.Goexit()
		}
	}
	commit := func(next, token string) {
		s.doc = next
		s.ver++
		if token != "" {
			s.log = append(s.log, token)
		}
	}
	update := func() {
		next, token, ok := s.step(e, op, s.doc)
		mid()
		if ok {
			commit(next, token)
		}
	}
	if op.K == "read" {
		doc := ""
		switch mode {
		case "rwmutex":
			s.rw.RLock()
			defer s.rw.RUnlock()
			s.look(e, op, s.doc)
			return
		case "mutex":
			s.mu.Lock()
			doc = s.doc
			s.mu.Unlock()
		default:
			doc = s.doc
		}
		s.look(e, op, doc)
		return
	}
	switch mode {
	case "mutex":
		s.mu.Lock()
		defer s.mu.Unlock()
		update()
	case "rwmutex":
		s.rw.Lock()
		defer s.rw.Unlock()
		update()
	case "cas":
		for try := 0; try < 60; try++ {
			doc, ver := s.doc, s.ver
			next, token, ok := s.step(e, op, doc)
			mid()
			if !ok {
				return
			}
			if s.ver == ver {
				commit(next, token)
				return
			}
			e.count("lost-swap")
			if s.bad != nil {
				return
			}
		}
	case "queue":
		r := &request{op: op}
		s.mu.Lock()
		s.queue = append(s.queue, r)
		s.cond.Broadcast()
		for !r.done && op.Y&2 == 0 {
			s.cond.Wait()
		}
		s.mu.Unlock()
		if op.Y&2 != 0 {
			e.count("client-died-before-commit")
			runtime.Goexit()
		}
	}
}

func (s *sharedDoc) safeStep(e *Env, op *Op) (next, token string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(simrt.AbortPanic); ok {
				panic(a)
			}
			s.fail(op, "panic", "a call of the library panicked: "+fmt.Sprint(r), "", short(s.doc))
		}
	}()
	return s.step(e, op, s.doc)
}

// writer serves the queue until all clients have left.
func (s *sharedDoc) writer(e *Env, clients int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		for len(s.queue) == 0 {
			if s.closed == clients {
				return
			}
			s.cond.Wait()
		}
		r := s.queue[0]
		s.queue = s.queue[1:]
		s.mu.Unlock()
		simrt.OpBegin(r.op.ID)
		next, token, ok := s.safeStep(e, r.op)
		if ok {
			s.doc = next
			s.ver++
			if token != "" {
				s.log = append(s.log, token)
			}
		}
		s.mu.Lock()
		r.done = true
		s.cond.Broadcast()
	}
}

func deep(l []*node) int {
	d := 0
	for _, n := range l {
		d = max(d, 1+deep(n.kids))
	}
	return d
}

func genC13(g Gen) *Plan {
	p := &Plan{Prop: "C13", Ints: map[string]int{"oplimit": 200000000}} // a lost swap repeats the call
	p.Mode = pick(g, []string{"mutex", "rwmutex", "queue", "cas", "cas"})
	var doc string
	for {
		var roots []*node
		style := g.style(true)
		style.long = g.p(1, 40)
		doc, roots = g.styledDoc(style)
		if len(roots) != 1 || (len(doc) > 4000 && !g.p(1, 3)) || len(doc)*deep(roots)*deep(roots) > 600000 {
			continue
		}
		if t, err := parseTree(doc); err == nil && rootOf(t) != nil {
			break
		}
	}
	if strings.ToLower(doc) == doc {
		p.Ints["fold"] = 1
	}
	p.Docs = []S{S(doc)}
	nt := g.n(1, 4)
	mk := func() Op {
		o := Op{K: "edit", X: int(g.Next() >> 12)}
		switch g.wpick(8, 3, 1) {
		case 1:
			o.K = "read"
			if g.p(1, 4) {
				o.Y |= 8
			}
		case 2:
			o.K = "badedit"
		}
		if g.p(1, 6) {
			o.Y |= 1
		}
		if g.p(1, 25) {
			o.Y |= 2
		}
		if g.p(1, 6) {
			o.Y |= 4
		}
		return o
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for i := g.n(2, 9); i > 0; i-- {
			ops = append(ops, mk())
		}
		p.Threads = append(p.Threads, ops)
	}
	for i := g.n(0, 4); i > 0; i-- {
		o := mk()
		o.Y &^= 2
		p.Post = append(p.Post, o)
	}
	if g.p(1, 2) {
		p.Ints["restart"] = 1
	}
	if g.p(1, 20) {
		p.Ints["wipe"] = g.n(1, 4)
	}
	number(p)
	p.Sched = g.sched(20000)
	if g.p(1, 2) {
		p.Pool = g.Next() | 1
	}
	return p
}

func execC13(p *Plan, st *Stats) *Violation {
	e, _ := boot(p)
	if len(p.Docs) == 0 {
		return nil
	}
	s := &sharedDoc{doc: string(p.Docs[0]), fold: p.Ints["fold"] == 1}
	s.noText = strings.Contains(s.doc, "<![CDATA[")
	s.cond = simsync.NewCond(&s.mu)
	if top, err := parseTree(s.doc); err != nil || rootOf(top) == nil {
		return nil // a shortened document need not be one
	}
	if !xmldot.Valid(s.doc) {
		st.Probes["document-refused"]++
		return nil
	}
	var fns []func()
	for t := range p.Threads {
		ops := p.Threads[t]
		fns = append(fns, func() {
			defer func() {
				if p.Mode == "queue" && !simrt.Aborting() {
					s.mu.Lock()
					s.closed++
					s.cond.Broadcast()
					s.mu.Unlock()
				}
			}()
			for i := range ops {
				s.record(e, p.Mode, &ops[i])
				if s.bad != nil {
					return
				}
			}
		})
	}
	if p.Mode == "queue" {
		n := len(fns)
		fns = append(fns, func() { s.writer(e, n) })
	}
	rep := simrt.Run(simCfg(p, p.Sched), fns)
	st.add(p, e, rep)
	st.Probes["commits"] += s.ver
	st.Probes["log-entries"] += len(s.log)
	if s.bad != nil {
		return s.bad
	}
	if v := stuck(rep); v != nil {
		return v
	}
	if len(p.Post) > 0 {
		if p.Ints["restart"] == 1 { // only the stored document survives
			simreset.Restart()
			st.Faults["restart"]++
		}
		s.mu, s.rw = simsync.Mutex{}, simsync.RWMutex{}
		rep := simrt.Run(simCfg(p, quietSched), []func(){func() {
			for i := range p.Post {
				s.record(e, "mutex", &p.Post[i])
				if s.bad != nil {
					return
				}
			}
		}})
		if s.bad != nil {
			return s.bad
		}
		if v := stuck(rep); v != nil {
			return v
		}
	}
	top, err := parseTree(s.doc)
	if err != nil {
		return &Violation{Kind: "document-damaged", Detail: err.Error(), Got: short(s.doc)}
	}
	var have []string
	for _, x := range rootOf(top).same("ev") {
		t, _ := x.textOnly()
		have = append(have, t)
	}
	if want, got := strings.Join(s.log, " "), strings.Join(have, " "); want != got {
		return &Violation{Kind: "log-lost", Detail: "log entries in the final document are not the acknowledged ones in commit order", Expected: want, Got: got}
	}
	if p.Ints["wipe"] == 0 {
		return nil
	}
	// the last edit of all removes the root
	root := rootOf(top)
	path := esc(root.name)
	var out string
	switch p.Ints["wipe"] {
	case 1:
		out, err = xmldot.Delete(s.doc, path)
	case 2:
		var b []byte
		b, err = xmldot.DeleteBytes([]byte(s.doc), path)
		out = string(b)
	case 3:
		out, err = xmldot.Set(s.doc, path, nil)
	case 4:
		out, err = xmldot.DeleteMany(s.doc, path)
	}
	st.Probes["root-deleted"]++
	if err != nil {
		return nil
	}
	want := top.canon(root)
	if after, err := parseTree(out); err != nil || after.canon(nil) != want {
		return &Violation{Kind: "edit-lost-or-spread", Detail: "the document after an acknowledged deletion of its root is not the rest of the document", Expected: short(want), Got: short(out)}
	}
	return nil
}

// record keeps a history entry around a client's op.
func (s *sharedDoc) record(e *Env, mode string, op *Op) {
	t := e.th()
	simrt.OpBegin(op.ID)
	t.done = append(t.done, Done{Op: *op, Thread: simrt.RootID(), Call: simrt.Seq(), Lost: true})
	i := len(t.done) - 1
	s.client(e, mode, op)
	d := &t.done[i]
	d.Ret, d.Lost = simrt.Seq(), false
	d.Out.Enc = fmt.Sprint(s.ver)
}

func init() {
	register(&Prop{ID: "C13", Quick: 40000, Thorough: 600000, Gen: genC13, Exec: execC13,
		Rule: "seeded edits, appends, deletes and reads of one document by 1..4 clients under a mutex, a read-write lock, a single writer or compare-and-swap; non-trivial: at least 2 clients finished an op and a preemption happened inside the library, or a single-client history"})
}
