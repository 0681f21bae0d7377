package main

import (
	"fmt"
	"strings"

	"SIMROOT/simrt"
)

// Gen wraps the run's generator with helpers.
type Gen struct{ *simrt.Rng }

func (g Gen) n(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + g.Intn(hi-lo+1)
}
func (g Gen) p(num, den int) bool { return g.Intn(den) < num }

func pick[T any](g Gen, l []T) T { return l[g.Intn(len(l))] }

// wpick picks an index by weight.
func (g Gen) wpick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := g.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

type node struct {
	name  string
	attrs [][2]string
	kids  []*node
	text  string
}

var foldPool = []string{"longerElementName", "LongElementOfItem", "AnotherElementName", "anotherelementname", "itemDescriptionText", "Item", "item", "ns:LongElementName"}

var namePool = []string{"a", "b", "c", "item", "items", "user", "name", "id", "title", "price", "value", "Item", "NAME", "ns:item", "ns:a", "x-y", "x_1", "list", "e", "data", "user-name", "longerElementName"}
var attrPool = []string{"id", "ID", "x", "y", "z", "class", "type", "ns:k", "key", "Key", "lang", "n", "v", "w", "q"}
var textPool = []string{"1", "2", "10", "3.5", "-7", "true", "false", "hello", "world", "Alice", "bob", "x", "", "a b", "zeta", "beta", "alpha", "0", "99", "1e3", "naïve", "日本", "yes", "no", "Zed", "&amp;", "a&lt;b", "  pad  ", "007", "7", "1.0", "01", "10.0", "1000", "+1"}

// attrTextPool holds attribute values that are hard on a scanner; {q} stands for
// the quote that does not end the value.
var attrTextPool = []string{"a>b", "{q}", "x{q}y{q}", "/", "a/>b", "k=v", "&quot;q&quot;", "&apos;", "&#65;", "&#x42;c", "&gt;", "http://h/?a=1&amp;b=2", "--", "]]>", " ", "]", "a.b", "#(x)", "@id"}

var numPool = []string{"1", "1.0", "01", "+1", "1e0", "10", "10.0", "2", "2.00", "-7", "0", "-0", "0.0", "3.5", "1234567.25", "1234567.75", "123456789012", "123456789013", "-1234567.25"}

// docStyle is a per-document formatting swarm.
type docStyle struct {
	pretty, single, selfClose, cdata, comment, prolog, pi, spacedAttr, spacedClose, mixed, empty, numeric, hardAttr, hardNote, around, long, declare bool
	attrMax                                                                                                                                          int
	fold                                                                                                                                             bool // long names in mixed letter case
}

func (g Gen) style(wild bool) docStyle {
	s := docStyle{pretty: g.p(1, 3), selfClose: g.p(1, 2), comment: g.p(1, 5), prolog: g.p(1, 6), attrMax: g.n(0, 4), mixed: g.p(1, 6), empty: g.p(1, 4), numeric: g.p(1, 6)}
	s.selfClose = s.selfClose || s.empty
	if g.p(1, 12) {
		s.attrMax = g.n(8, 14)
	}
	if wild {
		s.single, s.cdata, s.pi = g.p(1, 4), g.p(1, 6), g.p(1, 8)
		s.spacedAttr, s.spacedClose = g.p(1, 5), g.p(1, 8)
		s.hardAttr, s.hardNote, s.around, s.declare = g.p(1, 5), g.p(1, 6), g.p(1, 8), g.p(1, 8)
	}
	return s
}

func (g Gen) tree(budget *int, depth, width int, names []string, st docStyle) *node {
	*budget--
	n := &node{name: pick(g, names)}
	used := map[string]bool{}
	for i := g.n(0, st.attrMax); i > 0; i-- {
		a := pick(g, attrPool)
		if !used[a] {
			used[a] = true
			v := pick(g, textPool)
			if st.hardAttr && g.p(1, 2) {
				v = pick(g, attrTextPool)
			}
			n.attrs = append(n.attrs, [2]string{a, v})
		}
	}
	if st.declare && g.p(1, 3) {
		for _, a := range []string{"xmlns:ns", "xmlns:p", "xmlns:q", "xmlns", "xml:lang", "p:k", "q:k"}[g.Intn(3):g.n(3, 7)] {
			n.attrs = append(n.attrs, [2]string{a, pick(g, []string{"urn:1", "urn:2", "http://h/x"})})
		}
	}
	if depth > 0 && *budget > 0 && g.p(4, 5) {
		k := g.n(1, width)
		same := g.p(1, 3)
		nm := pick(g, names)
		for i := 0; i < k && *budget > 0; i++ {
			c := g.tree(budget, depth-1, width, names, st)
			if same {
				c.name = nm
			}
			n.kids = append(n.kids, c)
		}
	}
	if len(n.kids) == 0 || g.p(1, 8) {
		n.text = pick(g, textPool)
		if st.numeric {
			n.text = pick(g, numPool)
		}
		if st.empty && g.p(1, 2) {
			n.text = ""
		}
	}
	return n
}

func (g Gen) render(b *strings.Builder, n *node, st docStyle, ind int) {
	nl := func(d int) {
		if st.pretty {
			b.WriteByte('\n')
			for i := 0; i < d; i++ {
				b.WriteString("  ")
			}
		}
	}
	b.WriteByte('<')
	b.WriteString(n.name)
	for _, a := range n.attrs {
		sp, eq := " ", "="
		if st.spacedAttr && g.p(1, 2) {
			sp = pick(g, []string{"  ", "\n", "\t "})
			if g.p(1, 3) {
				eq = " = "
			}
		}
		q := `"`
		if st.single && g.p(1, 2) {
			q = "'"
		}
		v := a[1]
		if st.hardAttr {
			v = strings.ReplaceAll(v, "{q}", string(rune('"'+'\''-q[0])))
		}
		b.WriteString(sp + a[0] + eq + q + v + q)
	}
	if len(n.kids) == 0 && n.text == "" && st.selfClose {
		if st.spacedAttr && g.p(1, 2) {
			b.WriteByte(' ')
		}
		b.WriteString("/>")
		return
	}
	b.WriteByte('>')
	if n.text != "" {
		if st.cdata && g.p(1, 3) {
			b.WriteString("<![CDATA[" + pick(g, []string{"cd", "a & b", "x<y", "]]", "<t>", "</a>", "-->", "<!--", "&amp;", "</" + n.name + ">"}) + "]]>")
		} else {
			b.WriteString(n.text)
			if st.long && g.p(1, 4) {
				b.WriteString(strings.Repeat(pick(g, []string{"lorem ", "x", "é", "12 "}), g.n(100, 12000)))
			}
		}
	}
	for _, c := range n.kids {
		nl(ind + 1)
		if st.comment && g.p(1, 5) {
			b.WriteString("<!-- " + g.note(st, n.name) + " -->")
		}
		if st.pi && g.p(1, 5) {
			if st.hardNote {
				b.WriteString("<?pi " + g.note(st, n.name) + "?>")
			} else {
				b.WriteString("<?pi data?>")
			}
		}
		g.render(b, c, st, ind+1)
		if st.mixed && g.p(1, 2) {
			b.WriteString(pick(g, []string{" and ", "tail", " x", "1 ", "\tt", " &lt;", "\n", "  "}))
		}
	}
	if len(n.kids) > 0 {
		nl(ind)
	}
	b.WriteString("</" + n.name)
	if st.spacedClose && g.p(1, 2) {
		b.WriteByte(' ')
	}
	b.WriteByte('>')
}

// note is the text of a comment or processing instruction.
func (g Gen) note(st docStyle, name string) string {
	if st.hardNote {
		return pick(g, []string{"</" + name + ">", "<" + name + ">", "it's", `"`, "<![CDATA[", "]]>", "a > b", "<a b='", "/>", "&", "<item/>"})
	}
	return pick(g, []string{"note", "a-b", "x", "<b>", "item"})
}

// doc generates a document and its tree (roots).
func (g Gen) doc(wild bool) (string, []*node) {
	return g.styledDoc(g.style(wild))
}

func (g Gen) styledDoc(st docStyle) (string, []*node) {
	names := namePool
	if st.fold {
		names = foldPool
	} else if g.p(1, 2) {
		k := g.n(2, 5)
		names = nil
		for i := 0; i < k; i++ {
			names = append(names, pick(g, namePool))
		}
	}
	budget, depth, width := 6, 3, 3
	switch g.wpick(40, 35, 15, 4, 3) {
	case 1:
		budget, depth, width = 20, 4, 4
	case 2:
		budget, depth, width = 70, 5, 8
	case 3:
		budget, depth, width = g.n(100, 400), 2, 400
	case 4:
		budget, depth, width = g.n(20, 45), 45, 1
	}
	roots := 1
	if g.p(1, 8) {
		roots = g.n(2, 3)
	}
	var b strings.Builder
	if st.prolog {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>`)
		if st.pretty {
			b.WriteByte('\n')
		}
	}
	if st.around {
		b.WriteString(pick(g, []string{"\n", "<!-- top -->", "<!DOCTYPE r>", "<?style x?>\n", "<!DOCTYPE r>\n<!-- <r> -->"}))
	}
	var rs []*node
	for i := 0; i < roots; i++ {
		bd := budget
		r := g.tree(&bd, depth, width, names, st)
		rs = append(rs, r)
		g.render(&b, r, st, 0)
	}
	if st.around {
		b.WriteString(pick(g, []string{"\n", "<!-- end -->", " <!-- </r> -->\n", "<?end?>", "\n\n"}))
	}
	return b.String(), rs
}

// bigDoc has more siblings than any internal result limit suggests.
func (g Gen) bigDoc() (string, []*node) {
	r := &node{name: "list"}
	n := g.n(990, 1030)
	var b strings.Builder
	b.WriteString("<list>")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "<item id=\"%d\">%d</item>", i%97, i)
		r.kids = append(r.kids, &node{name: "item", attrs: [][2]string{{"id", fmt.Sprint(i % 97)}}, text: fmt.Sprint(i)})
	}
	b.WriteString("</list>")
	return b.String(), []*node{r}
}

// heavyDoc comes close to one of the limits on the work of a single query, so
// that a limit shared between queries is noticed. It returns paths that work hard.
func (g Gen) heavyDoc() (string, []string) {
	var b strings.Builder
	switch g.Intn(3) {
	case 0: // operations of a recursive search
		groups := g.n(300, 700)
		kids := g.n(3, 11)
		b.WriteString("<r>")
		for i := 0; i < groups; i++ {
			b.WriteString("<g>")
			for k := 0; k < kids; k++ {
				b.WriteString("<h>1</h>")
			}
			b.WriteString("<i>2</i></g>")
		}
		b.WriteString("</r>")
		return b.String(), []string{"r.**.i", "**.i", "r.**.i|@last", "r.**.g.i"}
	case 1: // nesting
		d := g.n(30, 97)
		for i := 0; i < d; i++ {
			b.WriteString("<n>")
		}
		b.WriteString("<leaf>x</leaf>")
		for i := 0; i < d; i++ {
			b.WriteString("</n>")
		}
		return b.String(), []string{"**.leaf", strings.Repeat("n.", min(d, 90)) + "n", "n.**.leaf|@first", "n.n.n.%"}
	}
	// pattern matching
	b.WriteString("<r>")
	for i := g.n(2, 5); i > 0; i-- {
		b.WriteString("<t><v>" + strings.Repeat("a", g.n(40, 2500)) + pick(g, []string{"", "b"}) + "</v></t>")
	}
	b.WriteString("</r>")
	return b.String(), []string{`r.t.#(v%"*a*b")#.v|@last`, `r.t.#(v%"*b")#`, `r.t.#(v!%"*a*a*b").v`}
}

var builtins = []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"}

func (g Gen) flipCase(s string) string {
	b := []byte(s)
	for i := range b {
		if g.p(1, 2) {
			if b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			} else if b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 32
			}
		}
	}
	return string(b)
}

func esc(s string) string { return strings.ReplaceAll(s, ".", `\.`) }

// path generates a query path that usually hits the document.
func (g Gen) path(roots []*node, mods []string) string {
	if g.p(1, 40) {
		return pick(g, []string{"", ".", "a..b", "#", "%", "*", "**", "@id", "a.#(", "a.#()", "a.#(b=='", "a.#(b=='')", "a.#(@id==)#", "|@sort", "a|@", "a|@nosuch", "a.\\", "a.b\\.c", "a.99", "a.-1", "a.-2", "a.#.", "a.#.b.c", strings.Repeat("a.", 120) + "a", strings.Repeat("x", 300), "a.#." + strings.Repeat("y", 300), "a b", "a.*.*", "**.b", "a.**.b", "a\x00b", "é.ü"})
	}
	if g.p(1, 8) {
		return g.arrayPath(roots, mods)
	}
	n := pick(g, roots)
	segs := []string{n.name}
	if g.p(1, 12) {
		segs[0] = "*"
	}
	var parent *node
	for len(n.kids) > 0 && g.p(4, 5) {
		parent = n
		n = pick(g, n.kids)
		same := 0
		idx := 0
		for _, k := range parent.kids {
			if k == n {
				idx = same
			}
			if k.name == n.name {
				same++
			}
		}
		switch g.wpick(50, 12, 6, 4, 10, 6) {
		case 0:
			segs = append(segs, n.name)
		case 1:
			segs = append(segs, n.name, fmt.Sprint(idx))
		case 2:
			segs = append(segs, "*")
		case 3:
			segs = append(segs, "**", n.name)
		case 4:
			segs = append(segs, n.name, g.filter(n))
		case 5:
			if len(n.name) > 2 {
				segs = append(segs, n.name[:1]+"*")
			} else {
				segs = append(segs, n.name)
			}
		}
	}
	switch g.wpick(55, 12, 6, 8, 8, 4, 3) {
	case 1:
		if len(n.attrs) > 0 {
			segs = append(segs, "@"+pick(g, n.attrs)[0])
		} else {
			segs = append(segs, "@"+pick(g, attrPool))
		}
	case 2:
		segs = append(segs, "%")
	case 3:
		segs = append(segs, "#")
	case 4:
		f := pick(g, namePool)
		if len(n.kids) > 0 {
			f = pick(g, n.kids).name
		}
		if g.p(1, 3) && len(n.attrs) > 0 {
			f = "@" + pick(g, n.attrs)[0]
		}
		if g.p(1, 6) {
			f = "%"
		}
		segs = append(segs, "#", f)
	case 5:
		segs = append(segs, pick(g, namePool))
	case 6:
		segs = append(segs, fmt.Sprint(g.n(0, 4)))
	}
	p := strings.Join(segs, ".")
	if g.p(1, 4) {
		k := g.n(1, 3)
		if g.p(1, 40) {
			k = g.n(18, 22)
		}
		all := builtins
		if len(mods) > 0 && g.p(1, 2) {
			all = mods
		}
		for i := 0; i < k; i++ {
			p += "|@" + pick(g, all)
		}
	}
	if g.p(1, 15) {
		p = g.flipCase(p)
	}
	return p
}

// arrayPath generates a path to several elements at once, mostly with modifiers.
func (g Gen) arrayPath(roots []*node, mods []string) string {
	n := pick(g, roots)
	p := n.name
	for len(n.kids) > 0 {
		k := pick(g, n.kids)
		if len(k.kids) == 0 || g.p(1, 3) {
			break
		}
		n = k
		p += "." + n.name
	}
	k := n
	if len(n.kids) > 0 {
		k = pick(g, n.kids)
	}
	switch g.Intn(6) {
	case 0, 1:
		p += ".*"
	case 2:
		p += "." + k.name + "." + g.filter(k)
		if !strings.HasSuffix(p, "#") {
			p += "#"
		}
	case 3:
		p = "**." + k.name
	case 4:
		p += "." + k.name + ".#.%"
		if len(k.kids) > 0 && g.p(1, 2) {
			p = p[:len(p)-1] + pick(g, k.kids).name
		} else if len(k.attrs) > 0 && g.p(1, 2) {
			p = p[:len(p)-1] + "@" + pick(g, k.attrs)[0]
		}
	case 5:
		p += ".*." + pick(g, namePool)
	}
	for i := g.n(0, 3); i > 0; i-- {
		m := "sort"
		if g.p(2, 3) {
			m = pick(g, builtins)
		}
		if len(mods) > 0 && g.p(1, 4) {
			m = pick(g, mods)
		}
		p += "|@" + m
	}
	return p
}

func (g Gen) filter(n *node) string {
	lhs := pick(g, namePool)
	rhs := pick(g, textPool)
	if len(n.kids) > 0 && g.p(2, 3) {
		k := pick(g, n.kids)
		lhs, rhs = k.name, k.text
	} else if len(n.attrs) > 0 && g.p(2, 3) {
		a := pick(g, n.attrs)
		lhs, rhs = "@"+a[0], a[1]
	} else if g.p(1, 3) {
		lhs, rhs = "%", n.text
	}
	op := pick(g, []string{"==", "==", "!=", ">", "<", ">=", "<=", "%", "!%", ""})
	if op == "" {
		rhs = ""
	} else if g.p(1, 3) {
		rhs = `"` + rhs + `"`
	} else if g.p(1, 6) {
		rhs = "'" + rhs + "'"
	}
	if (op == "%" || op == "!%") && g.p(1, 2) {
		rhs = pick(g, []string{`"*"`, `"a*"`, `"?"`, `"*b*"`, `"1?"`})
	}
	s := "#(" + lhs + op + rhs + ")"
	if g.p(1, 2) {
		s += "#"
	}
	return s
}

// variant returns a path that looks like p but is a different one.
func (g Gen) variant(p string) string {
	if p == "" {
		return "a"
	}
	switch g.Intn(11) {
	case 0:
		return g.flipCase(p)
	case 1:
		return p + pick(g, []string{".a", ".%", ".#", ".0", ".@id", ".b"})
	case 2:
		return p + "|@" + pick(g, builtins)
	case 3:
		i := g.Intn(len(p))
		return p[:i] + string(rune('a'+g.Intn(26))) + p[i+1:]
	case 4:
		return p + " "
	case 5:
		return " " + p
	case 6:
		if i := strings.LastIndexByte(p, '.'); i > 0 {
			return p[:i]
		}
		return p + ".x"
	case 7:
		if i := strings.IndexByte(p, '.'); i > 0 {
			return p[:i] + `\` + p[i:]
		}
		return p + "x"
	case 8:
		return strings.Replace(p, "==", "!=", 1)
	case 9:
		b := []byte(p)
		if len(b) > 3 {
			i := g.Intn(len(b) - 1)
			b[i], b[i+1] = b[i+1], b[i]
		}
		return string(b)
	}
	return strings.Replace(p, ")#", ")", 1)
}

// docVariant returns a document of the same length with one text byte changed,
// or the same one with a small edit.
func (g Gen) docVariant(d string) string {
	var idx []int
	in := false
	for i := 0; i < len(d); i++ {
		switch {
		case d[i] == '<':
			in = true
		case d[i] == '>':
			in = false
		case !in && (d[i] >= '0' && d[i] <= '9' || d[i] >= 'a' && d[i] <= 'y') && !inEntity(d, i):
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 || g.p(1, 5) {
		return d + " "
	}
	i := pick(g, idx)
	c := d[i] + 1
	if d[i] == '9' {
		c = '1'
	}
	return d[:i] + string(rune(c)) + d[i+1:]
}

// odd sometimes makes a path of a list look unusual.
func (g Gen) odd(ps []S) {
	if len(ps) == 0 || !g.p(1, 8) {
		return
	}
	i := g.Intn(len(ps))
	switch g.Intn(4) {
	case 0:
		ps[i] = " " + ps[i] + " "
	case 1:
		ps[i] += "."
	case 2:
		ps[i] = S(g.flipCase(string(ps[i])))
	case 3:
		ps[i] = S(g.variant(string(ps[i])))
	}
}

// broken returns a document of the same length with one byte of a tag changed.
func (g Gen) broken(d string) string {
	var idx []int
	for i := 1; i < len(d); i++ {
		if d[i] == '>' || d[i-1] == '/' || d[i-1] == '<' {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return d
	}
	i := pick(g, idx)
	return d[:i] + pick(g, []string{"z", ">", "<", "/", "\""}) + d[i+1:]
}

func inEntity(d string, i int) bool {
	for j := i; j >= 0 && j > i-8; j-- {
		if d[j] == '&' {
			return true
		}
		if d[j] == ';' {
			return false
		}
	}
	return false
}

func (g Gen) value() Val {
	switch g.wpick(40, 12, 8, 4, 3, 6, 10, 6, 4, 4) {
	case 1:
		return Val{T: "int", I: int64(g.n(-5, 1000))}
	case 2:
		return Val{T: "float", F: float64(g.n(-100, 100)) / 8}
	case 3:
		return Val{T: "int64", I: int64(g.Next())}
	case 4:
		return Val{T: "float32", F: 0.5}
	case 5:
		return Val{T: "bool", I: int64(g.Intn(2))}
	case 6:
		return Val{T: "bytes", S: S(pick(g, []string{"<x>1</x>", "raw", "<y/>", "<p q=\"1\">t</p><r/>", "", "a &amp; b"}))}
	case 7:
		return Val{T: "nil"}
	case 8:
		return Val{T: "bad"}
	case 9:
		return Val{T: "string", S: "ab<c&", N: pick(g, []int{10, 50, 200, 1000})}
	}
	if g.p(1, 4) {
		return Val{T: "string", S: S(pick(g, []string{"<script>", "a & b", `q"u'o`, "]]>", "é日本", "line\nbreak", "", "\x01", "<!--x-->", " spaced "}))}
	}
	return Val{T: "string", S: S(fmt.Sprintf("v%d", g.Intn(100000)))}
}

// setPath generates a target for a write.
func (g Gen) setPath(roots []*node) string { return g.setPathOf(roots, -1) }

const setClasses = 6

// setPathOf generates a target of one class: existing element, new element,
// attribute, append, attribute of a new element, other root.
func (g Gen) setPathOf(roots []*node, class int) string {
	if class < 0 && g.p(1, 25) {
		return pick(g, []string{"", ".", "a..b", "@id", "a.-2", "a.b.-1.c", "a.#(b=='", "#", "a|@sort", "a.#(b==1).c", "**", "0", "a.%", strings.Repeat("a.", 120) + "a"})
	}
	if class < 0 {
		class = g.wpick(40, 20, 20, 10, 5, 5)
	}
	n := pick(g, roots)
	segs := []string{n.name}
	for class != 5 && len(n.kids) > 0 && g.p(3, 4) {
		par := n
		n = pick(g, n.kids)
		idx, same := 0, 0
		for _, k := range par.kids {
			if k == n {
				idx = same
			}
			if k.name == n.name {
				same++
			}
		}
		segs = append(segs, n.name)
		if same > 1 || g.p(1, 8) {
			segs = append(segs, fmt.Sprint(idx))
		}
	}
	switch class {
	case 1:
		segs = append(segs, pick(g, namePool))
		switch g.Intn(6) {
		case 0, 1:
			segs = append(segs, pick(g, namePool))
		case 2, 3:
			segs = append(segs, "-1")
		}
	case 2:
		a := pick(g, attrPool)
		if len(n.attrs) > 0 && g.p(1, 2) {
			a = pick(g, n.attrs)[0]
		}
		segs = append(segs, "@"+a)
	case 3:
		if _, err := fmt.Sscan(segs[len(segs)-1], new(int)); err == nil {
			segs = segs[:len(segs)-1]
		}
		if len(segs) > 1 {
			segs = append(segs, "-1")
		}
	case 4:
		segs = append(segs, pick(g, namePool), "@"+pick(g, attrPool))
	case 5:
		if g.p(4, 5) {
			segs[0] = pick(g, namePool)
		}
		switch g.Intn(6) {
		case 0, 1:
			segs = append(segs, pick(g, namePool))
		case 2, 3:
			segs = append(segs, "-1")
		case 4:
			segs = append(segs, "@"+pick(g, attrPool))
		}
	}
	p := strings.Join(segs, ".")
	if g.p(1, 20) {
		p = g.flipCase(p)
	}
	return p
}

const nOpts = 8 // option objects every environment has; 0 is nil

// queryOp generates a query call.
func (g Gen) queryOp(di int, roots []*node, paths []string, mods []string) Op {
	path := func() S {
		if len(paths) > 0 && g.p(2, 3) {
			return S(pick(g, paths))
		}
		return S(g.path(roots, mods))
	}
	return g.queryOf(g.wpick(30, 8, 14, 12, 14, 5, 5, 4, 4, 10), di, roots, mods, path)
}

const queryKinds = 10

func (g Gen) queryOf(kind, di int, roots []*node, mods []string, path func() S) Op {
	op := Op{D: di}
	switch kind {
	case 0:
		op.K, op.P = "get", path()
	case 1:
		op.K, op.P = "getstr", path()
	case 2:
		op.K, op.P = "getbytes", path()
	case 3:
		op.K = "getmany"
		k := g.n(1, 5)
		if g.p(1, 5) {
			k = g.n(6, 40)
		}
		for i := k; i > 0; i-- {
			op.Ps = append(op.Ps, path())
		}
	case 4:
		op.K, op.P, op.O = "getopt", path(), g.Intn(nOpts)
	case 5:
		op.K, op.P, op.O = "getstropt", path(), g.Intn(nOpts)
	case 6:
		op.K, op.P, op.O = "getbytesopt", path(), g.Intn(nOpts)
	case 7:
		op.K = "valid"
	case 8:
		op.K = "validbytes"
	case 9:
		op.K, op.P = "chain", path()
		op.C = g.steps(roots, mods)
	}
	return op
}

func (g Gen) steps(roots []*node, mods []string) []Step {
	var c []Step
	for i := g.n(1, 4); i > 0; i-- {
		switch g.wpick(25, 10, 8, 14, 8, 12, 12, 8, 8) {
		case 0:
			c = append(c, Step{M: "get", P: S(g.relPath(roots, mods))})
		case 1:
			s := Step{M: "getmany"}
			k := g.n(1, 3)
			if g.p(1, 8) {
				k = g.n(4, 20)
			}
			for ; k > 0; k-- {
				s.Ps = append(s.Ps, S(g.relPath(roots, mods)))
			}
			c = append(c, s)
		case 2:
			c = append(c, Step{M: "getopt", P: S(g.relPath(roots, mods)), O: g.Intn(nOpts)})
		case 3:
			c = append(c, Step{M: "map"})
		case 4:
			c = append(c, Step{M: "mapopt", O: g.Intn(nOpts)})
		case 5:
			c = append(c, Step{M: "array"})
		case 6:
			c = append(c, Step{M: "foreach", N: g.n(1, 5)})
		case 7:
			c = append(c, Step{M: "conv"})
		case 8:
			c = append(c, Step{M: "elem", N: g.Intn(3)})
		}
	}
	return c
}

// relPath is a path below some element.
func (g Gen) relPath(roots []*node, mods []string) string {
	p := g.path(roots, mods)
	if i := strings.IndexByte(p, '.'); i > 0 && g.p(4, 5) {
		return p[i+1:]
	}
	return p
}

// writeOp generates a write call.
func (g Gen) writeOp(di int, roots []*node, paths []string) Op {
	path := func() S {
		if len(paths) > 0 && g.p(1, 2) {
			return S(pick(g, paths))
		}
		return S(g.setPath(roots))
	}
	return g.writeOf(g.wpick(24, 14, 8, 10, 8, 6, 6, 10, 8, 6, 6, 4), di, path)
}

const writeKinds = 12

func (g Gen) writeOf(kind, di int, path func() S) Op {
	op := Op{D: di}
	v := g.value()
	switch kind {
	case 0:
		op.K, op.P, op.V = "set", path(), &v
	case 1:
		op.K, op.P, op.V = "setbytes", path(), &v
	case 2:
		op.K, op.P = "setraw", path()
		op.V = &Val{T: "bytes", S: S(pick(g, []string{"<x>1</x>", "<x><y>2</y></x>", "text", "<x>", "</x>", "<x></y>", "<a b=\"c\"/>", "<!-- c -->", "<![CDATA[x]]>", ""}))}
	case 3, 4:
		op.K = "setmany"
		if g.p(1, 2) {
			op.K = "setmanybytes"
		}
		k := g.n(0, 5)
		if g.p(1, 12) {
			k = g.n(6, 30)
		}
		for i := k; i > 0; i-- {
			op.Ps = append(op.Ps, path())
			op.Vs = append(op.Vs, g.value())
		}
		g.odd(op.Ps)
	case 5:
		op.K, op.P, op.V, op.O = "setopt", path(), &v, g.Intn(nOpts)
	case 6:
		op.K, op.P, op.V, op.O = "setbytesopt", path(), &v, g.Intn(nOpts)
	case 7:
		op.K, op.P = "del", path()
	case 8:
		op.K, op.P = "delbytes", path()
	case 9, 10:
		op.K = "delmany"
		if g.p(1, 2) {
			op.K = "delmanybytes"
		}
		k := g.n(0, 4)
		if g.p(1, 12) {
			k = g.n(5, 30)
		}
		for i := k; i > 0; i-- {
			op.Ps = append(op.Ps, path())
		}
		g.odd(op.Ps)
	case 11:
		op.K, op.P, op.O = "delbytesopt", path(), g.Intn(nOpts)
	}
	return op
}

// sched picks a scheduling strategy.
func (g Gen) sched(estSteps int64) simrt.Sched {
	s := simrt.Sched{Seed: g.Next()}
	switch g.wpick(25, 25, 30, 15, 5) {
	case 0:
		s.Kind, s.Num = simrt.Uniform, 1
		s.Den = pick(g, []uint32{2, 5, 20, 100, 400, 2000})
	case 1:
		s.Kind, s.Num, s.Den = simrt.Globals, uint32(g.n(1, 3)), 4
	case 2:
		s.Kind, s.Num, s.Den = simrt.Sites, uint32(pick(g, []int{2, 10, 40, 100})), 100
	case 3:
		s.Kind, s.Depth, s.Steps = simrt.PCT, g.n(1, 4), estSteps
	case 4:
		s.Kind = simrt.None
	}
	return s
}

// shape is what two paths of one kind have in common.
func shape(p string) string {
	var b strings.Builder
	for _, m := range []string{"**", "*", "#(", ")#", ".#.", "|@", "@", "%", "-1", "|@pretty", "|@ugly", "|@sort", "|@flatten"} {
		if strings.Contains(p, m) {
			b.WriteString(m)
		}
		b.WriteByte(' ')
	}
	return b.String()
}

// alike returns up to n further paths of the shape of p.
func (g Gen) alike(p string, n int, gen func() string) []string {
	l := []string{p}
	for i := 0; i < 60 && len(l) <= n; i++ {
		if q := gen(); shape(q) == shape(p) && q != p {
			l = append(l, q)
		}
	}
	return l
}
