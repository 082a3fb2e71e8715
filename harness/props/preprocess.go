package props

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/conv"
	"verif/engine"
	"verif/gen"
)

// rich is the profile of documents with everything.
func rich() profile {
	return profile{inline: gen.Inl(), blocks: gen.Bl(), perSec: 3, sects: 3, levels: 3, depth: 2, attrs: someAttrs}
}

func setConf(c *engine.Case, k, v string) {
	if c.Conf.Attrs == nil {
		c.Conf.Attrs = map[string]string{}
	}
	c.Conf.Attrs[k] = v
}

// ---------------------------------------------------------------------------
// P13: conditionals
// ---------------------------------------------------------------------------

// env is the attributes while a document is read.
type env struct {
	vals  map[string]string
	fixed map[string]bool // set in the configuration
}

func (e *env) set(k, v string) {
	if !e.fixed[k] {
		e.vals[k] = v
	}
}

func (e *env) unset(k string) {
	if !e.fixed[k] {
		delete(e.vals, k)
	}
}

func (e *env) has(k string) bool { _, found := e.vals[k]; return found }

var condNames = []string{"one", "two", "x3", "four-4", "FIVE", "6six"}

type condGen struct {
	t        *engine.T
	c        *engine.Case
	e        *env
	n        int
	src      []string
	out      []string // expected paragraphs
	yes, no  int
	depth    int
	listing  bool
	verbatim []string
}

// names draws the names of an ifdef or ifndef, and whether what it asks is so.
func (g *condGen) names(directive string) (string, bool) {
	t := g.t
	pick := func() string {
		if t.Chance(1, 8) {
			return "never"
		}
		if t.Chance(1, 12) { // the back-ends are all for HTML
			return "basebackend-html"
		}
		return condNames[t.Intn(len(condNames))]
	}
	n := t.Weighted(6, 2, 1) + 1
	var names []string
	for i := 0; i < n; i++ {
		names = append(names, pick())
	}
	sep := t.Pick(",", "+")
	found := sep == "+"
	if n == 1 {
		found = g.e.has(names[0])
	} else {
		for _, x := range names {
			if sep == "+" {
				found = found && g.e.has(x)
			} else {
				found = found || g.e.has(x)
			}
		}
	}
	return strings.Join(names, sep), found == (directive == "ifdef")
}

type member struct {
	src string
	val interface{} // string, float64 or nil
}

func (g *condGen) member() member {
	t := g.t
	num := func(s string) interface{} {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return f
		}
		return s
	}
	quote := t.Pick(`"`, `'`)
	switch t.Weighted(4, 4, 3, 2, 2) {
	case 0: // reference between quotes
		n := condNames[t.Intn(len(condNames))]
		return member{quote + "{" + n + "}" + quote, g.e.vals[n]}
	case 1: // reference
		n := condNames[t.Intn(len(condNames))]
		if !g.e.has(n) {
			return member{"{" + n + "}", nil}
		}
		if g.e.vals[n] == "" { // nothing to compare with
			return member{quote + "{" + n + "}" + quote, ""}
		}
		return member{"{" + n + "}", num(g.e.vals[n])}
	case 2: // number
		s := t.Pick("0", "1", "2", "3", "10", "-1", "1.5", "2.0", "12")
		return member{s, num(s)}
	case 3: // text
		s := t.Pick("foo", "bar", "foo bar", "1", "10", "2", "", "1.5", "é", "Foo", "a,b", "x.y")
		return member{quote + s + quote, s}
	default: // text and references
		n := condNames[t.Intn(len(condNames))]
		a, b := t.Pick("", "foo", "v"), t.Pick("", " bar", "1")
		return member{quote + a + "{" + n + "}" + b + quote, a + g.e.vals[n] + b}
	}
}

func (g *condGen) eval() (string, bool) {
	t := g.t
	l, r := g.member(), g.member()
	for l.val == nil && r.val == nil {
		r = g.member()
	}
	if t.Chance(1, 3) { // values which are close
		if s, ok := l.val.(string); ok {
			if s2, err := strconv.ParseFloat(s, 64); err == nil && t.Chance(1, 2) {
				r = member{strconv.FormatFloat(s2, 'f', -1, 64), s2}
			} else if !strings.ContainsAny(s, `"'{`) {
				r = member{`"` + s + `"`, s}
			}
		} else if f, ok := l.val.(float64); ok {
			f += float64(t.Range(-1, 1))
			r = member{strconv.FormatFloat(f, 'f', -1, 64), f}
		}
	}
	op := t.Pick("==", "!=", "<", "<=", ">", ">=")
	cmp, same := 0, false
	switch a := l.val.(type) {
	case string:
		if b, ok := r.val.(string); ok {
			cmp, same = strings.Compare(a, b), true
		}
	case float64:
		if b, ok := r.val.(float64); ok {
			same = true
			switch {
			case a < b:
				cmp = -1
			case a > b:
				cmp = 1
			}
		}
	}
	result := false
	switch {
	case !same:
		result = op == "!="
	case op == "==":
		result = cmp == 0
	case op == "!=":
		result = cmp != 0
	case op == "<":
		result = cmp < 0
	case op == "<=":
		result = cmp <= 0
	case op == ">":
		result = cmp > 0
	default:
		result = cmp >= 0
	}
	g.c.Label("ifeval")
	sp := t.Pick(" ", " ", "  ", "")
	return "ifeval::[" + l.src + sp + op + sp + r.src + "]", result
}

// value is the source and the value of an attribute.
func (g *condGen) value() (string, string) {
	t := g.t
	switch t.Weighted(3, 3, 1, 2, 1) {
	case 0:
		v := t.Pick("foo", "bar", "foo bar", "x", "é", "Foo")
		return v, v
	case 1:
		v := t.Pick("0", "1", "2", "3", "10", "-1", "1.5", "2.0")
		return v, v
	case 2:
		return "", ""
	case 3:
		n := condNames[t.Intn(len(condNames))]
		if !g.e.has(n) {
			return "y", "y"
		}
		return "{" + n + "}1", g.e.vals[n] + "1"
	default:
		return "foo \\\n  bar", "foo bar"
	}
}

func (g *condGen) text() (string, string) {
	g.n++
	s := fmt.Sprintf("w%d", g.n)
	h := s
	if g.t.Chance(1, 3) {
		n := condNames[g.t.Intn(len(condNames))]
		s += " {" + n + "} end"
		if g.e.has(n) {
			h += " " + g.e.vals[n] + " end"
		} else {
			h += " {" + n + "} end"
		}
	}
	return s, h
}

// declare draws the declaration or the reset of an attribute.
func (g *condGen) declare(on, single bool) string {
	n := condNames[g.t.Intn(len(condNames))]
	if g.t.Chance(1, 3) {
		if on {
			g.e.unset(n)
		}
		return g.t.Pick(":!"+n+":", ":"+n+"!:")
	}
	s, v := g.value()
	for single && strings.Contains(s, "\n") {
		s, v = g.value()
	}
	if on {
		g.e.set(n, v)
	}
	return strings.TrimSuffix(":"+n+": "+s, " ")
}

// inFile moves lines to a file, sometimes.
func (g *condGen) inFile(lines string) string {
	if !g.t.Chance(1, 5) {
		return lines
	}
	if g.c.Files == nil {
		g.c.Files = map[string]string{}
	}
	name := fmt.Sprintf("f%d%s", len(g.c.Files), g.t.Pick(".adoc", ".txt", ".asc"))
	g.c.Files[name] = lines + "\n"
	g.c.Label("file")
	return "include::" + name + "[]"
}

// nodes draws what is in the document, in an active region or not.
func (g *condGen) nodes(count int, on bool) {
	t := g.t
	for ; count > 0; count-- {
		switch w := t.Weighted(5, 4, 6, 3, 1, 1); {
		case w == 0: // paragraph
			s, h := g.text()
			g.src = append(g.src, s, "")
			if on {
				g.out = append(g.out, h)
			}
		case w == 1:
			g.src = append(g.src, g.inFile(g.declare(on, false)), "")
		case w == 2 && g.depth < 4: // block
			g.depth++
			d, yes := "", false
			name := ""
			if t.Chance(1, 3) {
				d, yes = g.eval()
			} else {
				k := t.Pick("ifdef", "ifndef")
				name, yes = g.names(k)
				d = k + "::" + name + "[]"
			}
			if on {
				g.count(yes)
			}
			g.src = append(g.src, d+t.Pick("", "", " "))
			if t.Chance(1, 2) {
				g.src = append(g.src, "")
			}
			g.nodes(t.Range(0, 3), on && yes)
			if t.Chance(2, 3) {
				name = ""
			}
			g.src = append(g.src, "endif::"+name+"[]", "")
			g.depth--
		case w == 3 || w == 2: // line
			k := t.Pick("ifdef", "ifndef")
			name, yes := g.names(k)
			if on {
				g.count(yes)
			}
			content, h := "", ""
			switch t.Weighted(4, 2, 1) {
			case 0:
				content, h = g.text()
			case 1:
				content = g.declare(on && yes, true)
			default:
				g.n++
				content, h = fmt.Sprintf("[.r]#w%d#", g.n), fmt.Sprintf("w%d", g.n)
			}
			g.src = append(g.src, k+"::"+name+"["+content+"]", "")
			if on && yes && h != "" {
				g.out = append(g.out, h)
			}
		case w == 4: // not a directive
			k := t.Pick("ifdef", "ifndef", "include")
			n := condNames[t.Intn(len(condNames))]
			g.n++
			if k == "include" {
				n = "some.adoc"
			}
			s := k + "::" + n + "[]"
			if k != "include" {
				s = fmt.Sprintf("%s::%s[w%d]", k, n, g.n)
			}
			g.src = append(g.src, `\`+s, "")
			if on {
				g.out = append(g.out, s)
			}
		default: // lines of a listing, which declare nothing
			g.n++
			n := condNames[t.Intn(len(condNames))]
			delim := t.Pick("----", "....", "-----", "++++", "////", "FENCE", "FENCEgo", "====")
			delim = strings.Replace(delim, "FENCE", "\x60\x60\x60", 1)
			end := strings.TrimSuffix(delim, "go")
			if delim == "====" { // the declarations apply
				d := g.declare(on, false)
				s, h := g.text()
				g.src = append(g.src, delim, d, "", s, delim, "")
				if on {
					g.out = append(g.out, "PRE="+h)
				}
				continue
			}
			want := []string{g.t.Pick(":"+n+": listing", ":"+n+": listing", ":!"+n+":", ":"+n+": listing \\\n  and more")}
			g.src = append(g.src, delim, g.inFile(want[0]))
			k := t.Pick("ifdef", "ifndef")
			name, yes := g.names(k)
			if on {
				g.count(yes)
			}
			g.src = append(g.src, k+"::"+name+"[]", "====", fmt.Sprintf("w%d", g.n), "endif::[]", "last", end, "")
			g.c.Label("verbatim" + delim[:1])
			if yes {
				want = append(want, "====", fmt.Sprintf("w%d", g.n))
			}
			if on {
				g.out = append(g.out, "PRE"+strings.TrimLeft(delim[:1]+delim[len(end):], "/")+strings.Join(append(want, "last"), "\n"))
			}
		}
	}
}

func (g *condGen) count(yes bool) {
	if yes {
		g.yes++
	} else {
		g.no++
	}
}

func conditionals(t *engine.T) *engine.Case {
	c := &engine.Case{Sub: "model"}
	g := &condGen{t: t, c: c, e: &env{vals: map[string]string{"basebackend-html": "true"}, fixed: map[string]bool{"basebackend-html": true}}}
	for i := t.Intn(3); i > 0; i-- {
		n := condNames[t.Intn(len(condNames))]
		v := t.Pick("", "1", "2", "foo", "1.5", "foo bar")
		g.e.vals[n], g.e.fixed[n] = v, true
		setConf(c, n, v)
	}
	g.nodes(t.Range(2, 9), true)
	c.Doc = strings.Join(g.src, "\n")
	b := &strings.Builder{}
	for _, o := range g.out {
		switch {
		case strings.HasPrefix(o, "PRE-"):
			b.WriteString("<div class=\"listingblock\"><div class=\"content\"><pre>" + o[4:] + "</pre></div></div>")
		case strings.HasPrefix(o, "PRE\x60go"):
			b.WriteString("<div class=\"listingblock\"><div class=\"content\"><pre class=\"highlight\"><code class=\"language-go\" data-lang=\"go\">" + o[6:] + "</code></pre></div></div>")
		case strings.HasPrefix(o, "PRE\x60"):
			b.WriteString("<div class=\"listingblock\"><div class=\"content\"><pre class=\"highlight\"><code>" + o[4:] + "</code></pre></div></div>")
		case strings.HasPrefix(o, "PRE+"):
			b.WriteString(o[4:] + "\n")
		case strings.HasPrefix(o, "PRE="):
			b.WriteString("<div class=\"exampleblock\"><div class=\"content\"><div class=\"paragraph\"><p>" + o[4:] + "</p></div></div></div>")
		case strings.HasPrefix(o, "PRE."):
			b.WriteString("<div class=\"literalblock\"><div class=\"content\"><pre>" + o[4:] + "</pre></div></div>")
		case strings.HasPrefix(o, "w") || strings.Contains(o, "::"):
			b.WriteString("<div class=\"paragraph\"><p>" + o + "</p></div>")
		}
	}
	c.Want = b.String()
	// the formatted contents of conditionals
	c.Want = formatted(c.Want, g.src)
	c.Trivial = g.yes == 0 || g.no == 0
	return c
}

var roleText = regexp.MustCompile(`\[\.r\]#(w[0-9]+)#`)

func formatted(want string, src []string) string {
	for _, l := range src {
		if m := roleText.FindStringSubmatch(l); m != nil {
			want = strings.Replace(want, "<p>"+m[1]+"</p>", `<p><span class="r">`+m[1]+`</span></p>`, 1)
		}
	}
	return want
}

// neutral wraps some lines of a document in true conditions, and adds false conditions with anything in them.
func neutral(t *engine.T) *engine.Case {
	c := rich().model(t)
	c.Sub = "neutral"
	setConf(c, "on", t.Pick("1", "yes", ""))
	v := c.Conf.Attrs["on"]
	yes := []string{"ifdef::on[]", "ifndef::off[]", "ifdef::off,on[]", "ifndef::off+on[]", `ifeval::["{on}" == "` + v + `"]`, `ifeval::["{off}" == ""]`, "ifeval::[1 < 2]", `ifeval::["b" > "a"]`, "ifeval::[2.5 >= 2]"}
	no := []string{"ifdef::off[]", "ifndef::on[]", "ifdef::off+on[]", "ifndef::off,on[]", `ifeval::["{on}" != "` + v + `"]`, `ifeval::["{on}" == "no"]`, "ifeval::[10 <= 9]", `ifeval::["{off}" > "a"]`}
	var skipped func(depth int) []string
	skipped = func(depth int) []string {
		r := []string{t.Pick(no...)}
		for i := t.Range(0, 4); i > 0; i-- {
			switch t.Weighted(6, 2, 1) {
			case 0:
				r = append(r, t.Pick("----", "====", "....", "////", "|===", "== Section", "= Title", ":on!:", ":off: 1", "include::missing.adoc[]", "text", "", "* item", "+", "++++", "[quote]", "ifdef::on[text]", "ifndef::off[:off: 1]", "\\endif::[]", "++", "<<", "*", ":m: x \\"))
			case 1:
				if depth < 3 {
					r = append(r, skipped(depth+1)...)
				}
			default:
				r = append(r, t.Pick(yes...), t.Pick("text", "----", ":off: 1"), "endif::[]")
			}
		}
		return append(r, "endif::"+t.Pick("", "off", "on")+"[]")
	}
	lines := strings.Split(strings.TrimSuffix(c.Doc, "\n"), "\n")
	before, after := make([][]string, len(lines)+1), make([][]string, len(lines)+1)
	// nested or separate ranges
	var wrap func(from, to, depth int)
	wrap = func(from, to, depth int) {
		for from < to && depth < 4 {
			a := t.Range(from, to-1)
			b := t.Range(a, to-1)
			before[a] = append(before[a], t.Pick(yes...))
			after[b+1] = append([]string{"endif::" + t.Pick("", "on") + "[]"}, after[b+1]...)
			if t.Chance(1, 2) {
				wrap(a, b+1, depth+1)
			}
			if t.Chance(1, 2) {
				return
			}
			from = b + 1
		}
	}
	if t.Chance(3, 4) {
		wrap(0, len(lines), 0)
	}
	for n := t.Range(1, 3); n > 0; n-- {
		i := t.Intn(len(lines) + 1)
		before[i] = append(before[i], skipped(0)...)
	}
	var out []string
	for i := 0; i <= len(lines); i++ {
		out = append(append(out, after[i]...), before[i]...)
		if i < len(lines) {
			out = append(out, lines[i])
		}
	}
	c.Doc = strings.Join(out, "\n") + "\n"
	c.Trivial = false
	c.Label("neutral")
	return c
}

// ---------------------------------------------------------------------------
// P14: included files
// ---------------------------------------------------------------------------

type splitter struct {
	t     *engine.T
	c     *engine.Case
	n     int
	count int
	heads bool // lines are sections, whose levels can be shifted
}

var heading = regexp.MustCompile(`^(=+) `)

// headings is the levels of the sections which begin in lines, by line.
func headings(lines []string) map[int]int {
	r := map[int]int{}
	in := inBlocks(lines)
	for i, l := range lines {
		if m := heading.FindStringSubmatch(l); m != nil && !in[i] {
			r[i] = len(m[1]) - 1
		}
	}
	return r
}

// levels is the levels of the sections in lines: first, lowest and highest.
func levels(lines []string) (first, min, max int) {
	first, min, max = -1, 9, -1
	heads := headings(lines)
	for i := range lines {
		if n, found := heads[i]; found {
			if first < 0 {
				first = n
			}
			if n < min {
				min = n
			}
			if n > max {
				max = n
			}
		}
	}
	return
}

var delimiter = regexp.MustCompile("^(-{4,}|={4,}|\\.{4,}|_{4,}|\\*{4,}|/{4,}|\\+{4,}|\\|===|--|```.*)$")

// inBlocks tells which lines follow the opening delimiter of a block which is not closed yet.
func inBlocks(lines []string) []bool {
	in := make([]bool, len(lines))
	var open []string
	for i, l := range lines {
		in[i] = len(open) > 0
		l = strings.TrimRight(l, " ")
		if !delimiter.MatchString(l) {
			continue
		}
		verbatim := len(open) > 0 && strings.ContainsAny(open[len(open)-1][:1], "-./+`") && open[len(open)-1] != "--"
		switch {
		case len(open) > 0 && (open[len(open)-1] == l || l == "```" && strings.HasPrefix(open[len(open)-1], l)):
			open = open[:len(open)-1]
		case !verbatim && !has(open, l):
			open = append(open, l)
		}
	}
	return in
}

// split moves ranges of the lines into files which are included, with paths relative to dir.
// The levels of their sections are theirs plus by in the whole document, unless fixed:
// then the offset depends on the first one, and the files do not have their own offset.
func (s *splitter) split(lines []string, dir string, depth, by int, fixed bool) []string {
	t := s.t
	if depth > 3 || len(lines) == 0 {
		return lines
	}
	var out []string
	at := 0
	for k := t.Range(1, 2); k > 0 && at < len(lines); k-- {
		a := t.Range(at, len(lines)-1)
		b := t.Range(a+1, len(lines))
		if s.heads { // the levels of the sections depend on the blocks which are open
			in := inBlocks(lines)
			for a > at && in[a] {
				a--
			}
			if in[a] {
				break
			}
			for b < len(lines) && in[b] {
				b++
			}
		}
		if t.Chance(1, 12) {
			b = a // an empty file
		}
		part := append([]string{}, lines[a:b]...)
		out = append(out, lines[at:a]...)
		at = b
		s.n++
		id := s.n
		raw := t.Chance(1, 5)
		if first, _, _ := levels(part); s.heads && first >= 0 {
			raw = false // the levels of the sections in these files are not shifted
		}
		sub := t.Pick("", "", "", "sub/", "a/b/", "../", "x-y_z/")
		if sub == "../" && !strings.Contains(dir, "/") {
			sub = ""
		}
		ext := t.Pick(".adoc", ".adoc", ".asciidoc", ".txt", ".ad", ".asc")
		if raw {
			ext = t.Pick(".go", ".md", ".html", ".xml", "")
		}
		name := path.Join(dir, sub, fmt.Sprintf("f%d%s", id, ext))
		attrs := ""
		below, own := by, fixed
		if s.heads && !raw {
			if first, min, max := levels(part); first >= 0 && !fixed && t.Chance(2, 3) {
				shift := t.Range(max-5, min) // level in the file = level - shift
				if shift != 0 {
					for i, n := range headings(part) {
						part[i] = strings.Repeat("=", n+1-shift) + part[i][n+1:]
					}
				}
				attrs = fmt.Sprintf("leveloffset=%+d", shift)
				below += shift
				if t.Chance(1, 3) {
					attrs = fmt.Sprintf("leveloffset=%d", first+by)
					own = true
					s.c.Label("absolute-offset")
				}
				s.c.Label("offset")
				if depth > 0 {
					s.c.Label("nested-offset")
				}
			}
		}
		content := part
		if !raw && t.Chance(2, 3) {
			content = s.split(part, path.Dir(name), depth+1, below, own)
		}
		if t.Chance(1, 8) && len(content) > 0 { // lines which are not part of the content
			tag := t.Pick("x", "some-tag")
			i := t.Intn(len(content) + 1)
			mark := t.Pick("// ", "", "# ")
			content = append(append(append([]string{}, content[:i]...), mark+"tag::"+tag+"[]"), content[i:]...)
			content = append(content, mark+"end::"+tag+"[]")
		}
		text := strings.Join(content, "\n") + "\n"
		if len(content) == 0 {
			text = ""
		} else if content[len(content)-1] != "" && t.Chance(1, 4) {
			text = strings.TrimSuffix(text, "\n")
		}
		s.c.Files[name] = text
		rel := sub + path.Base(name)
		if t.Chance(1, 6) {
			k := fmt.Sprintf("path%d", id)
			setConf(s.c, k, strings.TrimSuffix(sub, "/"))
			if sub == "" {
				s.c.Conf.Attrs[k] = "."
			}
			rel = "{" + k + "}/" + path.Base(name)
			s.c.Label("path-attribute")
		} else if t.Chance(1, 8) {
			rel = "./" + rel
		}
		out = append(out, "include::"+rel+"["+attrs+"]"+t.Pick("", "", " "))
		s.count++
	}
	return append(out, lines[at:]...)
}

func included(t *engine.T) *engine.Case {
	p := rich()
	heads := t.Chance(1, 2)
	if heads {
		p.sects, p.levels, p.always, p.perSec = 8, 5, true, 1
		p.blocks = map[string]int{"para": 8, "ulist": 1, "example": 1, "listing": 1, "comment": 1}
		p.inline = gen.Only(gen.Inl(), "word", "bold", "italic", "mono", "punct")
	}
	c := p.model(t)
	if heads && t.Chance(1, 8) {
		return shifted(t, c)
	}
	c.Files = map[string]string{}
	s := &splitter{t: t, c: c, heads: heads}
	lines := strings.Split(strings.TrimSuffix(c.Doc, "\n"), "\n")
	from := 0
	if strings.HasPrefix(lines[0], "= ") { // the header stays in the document
		for from < len(lines) && lines[from] != "" {
			from++
		}
	}
	head := append([]string{}, lines[:from]...)
	c.Doc = strings.Join(append(head, s.split(lines[from:], "", 0, 0, false)...), "\n") + "\n"
	if t.Chance(1, 12) { // somewhere, a file is missing
		c.Sub = "missing"
		names := keys(c.Files)
		if len(names) > 0 {
			name := names[t.Intn(len(names))]
			delete(c.Files, name)
			c.Args = []string{path.Base(name)}
		}
	}
	c.Trivial = s.count == 0
	return c
}

// shifted is a document which includes another one with any offset of the levels of its sections.
func shifted(t *engine.T, c *engine.Case) *engine.Case {
	lines := strings.Split(strings.TrimSuffix(c.Doc, "\n"), "\n")
	for len(lines) > 0 && lines[0] != "" { // without its header
		lines = lines[1:]
	}
	_, min, max := levels(lines)
	if max < 0 {
		c.Trivial = true
		return c
	}
	n := t.Range(-max-2, 5-max)
	if min+n < 0 {
		c.Label("lowest level")
	}
	c.Label("any offset")
	c.Sub = "shifted"
	c.Files = map[string]string{"sub/f.adoc": strings.Join(lines, "\n") + "\n"}
	c.Doc = "first\n\ninclude::sub/f.adoc[leveloffset=" + fmt.Sprintf("%+d", n) + "]\n"
	flat := append([]string{}, lines...)
	for i, l := range headings(lines) {
		k := l + n
		if k < 0 {
			k = 0
		}
		flat[i] = strings.Repeat("=", k+1) + flat[i][l+1:]
	}
	c.Docs = []string{"first\n\n" + strings.Join(flat, "\n") + "\n"}
	return c
}

func keys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func checkIncluded(c *engine.Case) *engine.Fail {
	return conv.InDir(c.Files, func(string) *engine.Fail {
		if c.Sub == "missing" && len(c.Args) == 1 {
			out, _, err := conv.Convert(c.Doc, c.Conf)
			if err == nil {
				return engine.Failf("no-error", "no error about %s\n--- output:\n%s", c.Args[0], out)
			}
			if !strings.Contains(err.Error(), c.Args[0]) || out != "" {
				return engine.Failf("error", "error %q about %s, output %q", err, c.Args[0], out)
			}
			return nil
		}
		if c.Sub == "shifted" {
			want, _, err := conv.Convert(c.Docs[0], c.Conf)
			if err != nil {
				return engine.Failf("error", "the conversion of the same text in a single file failed: %v", err)
			}
			return conv.Same(c.Doc, c.Conf, want)
		}
		return checkWant(c)
	})
}

// ---------------------------------------------------------------------------
// P15: lines and tags of included files
// ---------------------------------------------------------------------------

func partial(t *engine.T) *engine.Case {
	c := &engine.Case{Files: map[string]string{}}
	name := t.Pick("f.go", "f.adoc", "f.txt", "d/f.md")
	var lines []string // lines of the file
	var stacks [][]string
	var isTag []bool
	var open, all []string
	tagNames := []string{"a", "b", "main", "my-tag", "c_1", "v1.2", "B"}
	mark := t.Pick("// ", "# ", "", "<!-- ", "/* ")
	tail := map[string]string{"<!-- ": " -->", "/* ": " */"}[mark]
	tag := func(kind, n string) {
		lines = append(lines, strings.Repeat(" ", t.Intn(3))+mark+kind+"::"+n+"[]"+tail)
		isTag = append(isTag, true)
		stacks = append(stacks, append([]string{}, open...))
	}
	for n := t.Range(1, 22); n > 0; n-- {
		switch t.Weighted(8, 3, 2) {
		case 0:
			l := fmt.Sprintf("%sl%d", strings.Repeat(" ", t.Weighted(6, 1, 1)), len(lines)+1)
			if t.Chance(1, 10) {
				l = ""
			}
			lines = append(lines, l)
			isTag = append(isTag, false)
			stacks = append(stacks, append([]string{}, open...))
		case 1:
			x := t.Pick(tagNames...)
			if len(open) < 4 && !has(open, x) {
				open = append(open, x)
				if !has(all, x) {
					all = append(all, x)
				}
				tag("tag", x)
			}
		default:
			if x := t.Pick(tagNames...); !has(open, x) && t.Chance(1, 6) { // not started, or already ended
				tag("end", x)
				c.Label("extra-end")
				break
			}
			if len(open) > 0 {
				x := open[len(open)-1]
				open = open[:len(open)-1]
				tag("end", x)
			}
		}
	}
	for len(open) > 0 && !t.Chance(1, 10) {
		x := open[len(open)-1]
		open = open[:len(open)-1]
		tag("end", x)
	}
	attrs := ""
	selected := func(i int) bool { return true }
	switch k := t.Weighted(1, 5, 6); {
	case k == 0:
		c.Label("all")
	case k == 1:
		c.Label("lines")
		type rng struct{ a, b int }
		var rs []rng
		var parts []string
		for n := t.Weighted(3, 3, 2, 1) + 1; n > 0; n-- {
			a := t.Range(1, len(lines)+2)
			switch t.Weighted(3, 5, 2) {
			case 0:
				rs = append(rs, rng{a, a})
				parts = append(parts, fmt.Sprint(a))
			case 1:
				b := t.Range(a, len(lines)+3)
				if t.Chance(1, 10) {
					b = t.Range(1, a)
				}
				rs = append(rs, rng{a, b})
				parts = append(parts, fmt.Sprintf("%d..%d", a, b))
			default:
				rs = append(rs, rng{a, 1 << 30})
				parts = append(parts, fmt.Sprintf("%d..-1", a))
			}
		}
		switch t.Intn(3) {
		case 0:
			attrs = "lines=" + strings.Join(parts, ";")
		case 1:
			attrs = `lines="` + strings.Join(parts, ",") + `"`
		default:
			attrs = `lines="` + strings.Join(parts, ";") + `"`
		}
		selected = func(i int) bool {
			for _, r := range rs {
				if r.a <= i+1 && i+1 <= r.b {
					return true
				}
			}
			return false
		}
	default:
		c.Label("tags")
		want := map[string]bool{}
		var parts []string
		some, everything := false, false
		add := func(n string, in bool) {
			if _, found := want[n]; found {
				return
			}
			want[n] = in
			if in {
				parts = append(parts, n)
				some = true
			} else {
				parts = append(parts, "!"+n)
			}
		}
		if t.Chance(1, 4) {
			add("**", true)
			everything = true
		}
		if t.Chance(1, 4) {
			add("*", t.Chance(2, 3))
		}
		if _, wild := want["*"]; wild && !want["*"] && !everything {
			everything = true // only exclusions
		} else {
			for n := t.Range(0, 3); n > 0 && len(all) > 0; n-- {
				add(all[t.Intn(len(all))], t.Chance(2, 3))
			}
		}
		if len(parts) == 0 {
			if len(all) > 0 {
				add(all[0], true)
			} else {
				add("**", true)
				everything = true
			}
		}
		if !some {
			everything = true
		}
		sep := t.Pick(";", ",")
		attrs = t.Pick("tag", "tags") + "=" + strings.Join(parts, sep)
		if sep == "," || t.Chance(1, 3) {
			attrs = t.Pick("tag", "tags") + `="` + strings.Join(parts, sep) + `"`
		}
		selected = func(i int) bool {
			for j := len(stacks[i]) - 1; j >= 0; j-- {
				if in, found := want[stacks[i][j]]; found {
					return in
				}
				if in, found := want["*"]; found {
					return in
				}
			}
			return everything
		}
	}
	if t.Chance(1, 10) {
		attrs += t.Pick(",opts=x", ",foo=bar")
		attrs = strings.TrimPrefix(attrs, ",")
	}
	c.Files[name] = strings.Join(lines, "\n") + "\n"
	if len(lines) > 0 && lines[len(lines)-1] != "" && t.Chance(1, 3) {
		c.Files[name] = strings.Join(lines, "\n")
	}
	want := []string{"start"}
	n := 0
	for i, l := range lines {
		if !isTag[i] && selected(i) {
			want = append(want, l)
			n++
		}
	}
	if strings.Trim(strings.Join(lines, ""), " ") == "" {
		c.Files[name] = "l1\n"
		lines, want = []string{"l1"}, []string{"start"}
		attrs = ""
		want = append(want, "l1")
	}
	want = append(want, "end")
	delim := t.Pick("----", "....")
	c.Doc = delim + "\nstart\ninclude::" + name + "[" + attrs + "]\nend\n" + delim + "\n"
	class := map[string]string{"----": "listingblock", "....": "literalblock"}[delim]
	c.Want = `<div class="` + class + `"><div class="content"><pre>` + strings.Join(want, "\n") + `</pre></div></div>`
	c.Trivial = n == 0 || n == len(lines)
	return c
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func init() {
	engine.Register(&engine.Prop{ID: "P13", Rule: "conditions are true and false in the document, or conditions were added to a document",
		Quick: 16000, Thorough: 500000, Check: func(c *engine.Case) *engine.Fail {
			if len(c.Files) == 0 {
				return checkWant(c)
			}
			return conv.InDir(c.Files, func(string) *engine.Fail { return checkWant(c) })
		},
		Gen: func(t *engine.T) *engine.Case {
			if t.Chance(3, 5) {
				return conditionals(t)
			}
			return neutral(t)
		},
		Assume: []string{"the expected HTML is that of the generator's own evaluation of the conditions"}})
	engine.Register(&engine.Prop{ID: "P14", Rule: "at least one file is included",
		Quick: 10000, Thorough: 400000, Check: checkIncluded, Gen: included,
		Assume: []string{"the expected HTML is that of the document before it was split into files"}})
	engine.Register(&engine.Prop{ID: "P15", Rule: "some lines of the file are included, and some are not",
		Quick: 16000, Thorough: 500000, Check: checkIncluded, Gen: partial,
		Assume: []string{"the expected lines are those of the generator's own selection"}})
}
