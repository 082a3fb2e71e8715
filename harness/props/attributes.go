package props

import (
	"fmt"
	"strconv"
	"strings"

	"verif/conv"
	"verif/engine"
	"verif/gen"
)

// ---------------------------------------------------------------------------
// P12: references to attributes are replaced by their value at that point
// ---------------------------------------------------------------------------

// value is the value of an attribute: what it is in a text, and whether it can be anywhere.
type value struct {
	html  string
	plain bool
}

// environment is the model of the attributes of a document.
type environment struct {
	*engine.T
	g         *gen.G
	names     []string
	values    map[string]value
	over      map[string]bool // set in the configuration
	counters  map[string]string
	footnotes []string
	c         *engine.Case
}

var predefined = []struct{ name, html string }{
	{"sp", " "}, {"blank", ""}, {"empty", ""}, {"nbsp", "&#160;"}, {"zwsp", "&#8203;"}, {"wj", "&#8288;"}, {"apos", "&#39;"}, {"quot", "&#34;"}, {"lsquo", "&#8216;"}, {"rsquo", "&#8217;"}, {"ldquo", "&#8220;"}, {"rdquo", "&#8221;"}, {"deg", "&#176;"}, {"plus", "&#43;"}, {"brvbar", "&#166;"}, {"vbar", "|"}, {"startsb", "["}, {"endsb", "]"}, {"caret", "^"}, {"asterisk", "*"}, {"tilde", "~"}, {"backslash", `\`}, {"backtick", "`"}, {"two-colons", "::"}, {"cpp", "C++"},
}

// ref returns a reference and what it gives in a text.
func (e *environment) ref() (string, string) {
	switch e.Intn(12) {
	case 1, 2:
		return e.counter()
	case 0:
		p := predefined[e.Intn(len(predefined))]
		if _, found := e.values[p.name]; !found {
			e.c.Label("predefined")
			return "{" + p.name + "}", p.html
		}
	}
	n := e.name()
	v, found := e.values[n]
	if !found {
		e.c.Label("unset")
		return "{" + n + "}", "{" + n + "}"
	}
	e.c.Label("set")
	return "{" + n + "}", v.html
}

// counter returns a reference to a counter, which counts, or to its current value.
func (e *environment) counter() (string, string) {
	n := e.Pick("cnt", "step_1", "my-idx")
	v, found := e.counters[n]
	switch e.Intn(5) {
	case 0:
		e.c.Label("current counter")
		if !found {
			return "{" + n + "}", "{" + n + "}"
		}
		return "{" + n + "}", v
	}
	e.c.Label("counter")
	start := ""
	switch {
	case e.Chance(1, 5): // from a given value
		v = e.Pick("0", "1", "7", "41", "999", "a", "c", "k", "A", "P")
		start = ":" + v
	case !found:
		v = "1"
	case v[0] >= '0' && v[0] <= '9':
		i, _ := strconv.Atoi(v)
		v = strconv.Itoa(i + 1)
	case v == "z" || v == "Z":
		return "{" + n + "}", v
	default:
		v = string(v[0] + 1)
	}
	e.counters[n] = v
	if e.Chance(1, 4) { // hidden
		return "{counter2:" + n + start + "}", ""
	}
	return "{counter:" + n + start + "}", v
}

func (e *environment) name() string { return e.names[e.Intn(len(e.names))] }

// plainRef returns a reference which can be anywhere, and its value.
func (e *environment) plainRef() (string, string) {
	for i := 0; i < 5; i++ {
		n := e.name()
		if v, found := e.values[n]; found && v.plain && v.html != "" {
			return "{" + n + "}", v.html
		}
	}
	w := e.g.Word()
	return w, w
}

// text returns some words and references.
func (e *environment) text() (string, string) {
	s, h := e.g.Word(), ""
	h = s
	for n := e.Range(1, 4); n > 0; n-- {
		sep := e.Pick(" ", " ", ", ", "(", "-", "/", "")
		if sep == "-" && strings.HasSuffix(h, "-") { // not a dash
			sep = "/"
		}
		src, html := "", ""
		if e.Chance(1, 4) {
			src = e.g.Word()
			html = src
			if sep == "" {
				sep = " "
			}
		} else {
			src, html = e.ref()
			if src == "" {
				src, html = e.g.Word(), ""
				html = src
			}
			if strings.HasPrefix(html, "<") || strings.Contains(html, "://") {
				sep = " "
			}
		}
		s += sep + src
		h += sep + html
		if e.Chance(1, 3) || strings.HasPrefix(html, "<") {
			w := e.Pick(" ", " ", ". ") + e.g.Word()
			s += w
			h += w
		}
	}
	return s, h
}

// declare returns a declaration.
func (e *environment) declare() string {
	n := e.name()
	set := func(v value) {
		if !e.over[n] {
			e.values[n] = v
		}
	}
	switch e.Intn(9) {
	case 0:
		set(value{"", true})
		return ":" + n + ":"
	case 1:
		if !e.over[n] {
			delete(e.values, n)
		}
		e.c.Label("reset")
		return e.Pick(":!"+n+":", ":"+n+"!:")
	case 2, 3: // made of others
		r, h := e.plainRef()
		w := e.g.Word()
		set(value{w + "-" + h, true})
		e.c.Label("nested")
		return ":" + n + ": " + w + "-" + r
	case 4: // on many lines
		a, b := e.g.Word(), e.g.Word()
		set(value{a + " " + b, true})
		e.c.Label("lines")
		return ":" + n + ": " + a + ` \` + "\n" + e.Pick("", "  ", "\t") + b
	case 5:
		w := e.g.Word()
		v := []value{{"<strong>" + w + "</strong>", false}, {"<em>" + w + "</em>", false}, {"<code>" + w + "</code>", false}}
		i := e.Intn(3)
		set(v[i])
		e.c.Label("formatted")
		return ":" + n + ": " + []string{"*" + w + "*", "_" + w + "_", "`" + w + "`"}[i]
	case 6:
		w, x := e.g.Word(), e.g.Word()
		if e.Chance(1, 3) { // macros which have to be enabled
			e.c.Label("macro")
			switch e.Intn(3) {
			case 0:
				set(value{`<b class="button">` + w + `</b>`, false})
				return ":" + n + ": btn:[" + w + "]"
			case 1:
				set(value{`<b class="menuref">` + w + `</b>`, false})
				return ":" + n + ": menu:" + w + "[]"
			default:
				e.c.Conf.Macros = map[string]string{"my-macro": "<i>{{.Name}} {{.Value}}</i>"}
				set(value{`<i>my-macro ` + w + `</i>`, false})
				return ":" + n + ": my-macro:" + w + "[]"
			}
		}
		set(value{`<a href="https://` + w + `.org">` + x + "</a>", false})
		e.c.Label("link")
		return ":" + n + ": https://" + w + ".org[" + x + "]"
	}
	w := e.g.Words(e.Range(1, 3))
	set(value{w, true})
	return ":" + n + ": " + e.Pick("", " ") + w + e.Pick("", " ")
}

// block returns a block with references.
func (e *environment) block() (string, string) {
	before := map[string]string{}
	for k, v := range e.counters {
		before[k] = v
	}
	s, h := e.text()
	if e.Chance(1, 12) {
		if s, h := e.nothing(); s != "" {
			e.counters = before
			return s, h
		}
	}
	kind := e.Intn(22)
	switch {
	case kind == 2, kind >= 6 && kind <= 9, kind == 11, kind >= 14 && kind <= 20: // without this text
		e.counters = before
	}
	switch kind {
	case 0:
		return "* " + s, "<div class=\"ulist\">\n<ul>\n<li>\n<p>" + h + "</p>\n</li>\n</ul>\n</div>\n"
	case 1:
		w := e.g.Word()
		return "." + s + "\n" + w, "<div class=\"paragraph\">\n<div class=\"title\">" + h + "</div>\n<p>" + w + "</p>\n</div>\n"
	case 2:
		return "----\n" + s + "\n----", listing(gen.Esc(s))
	case 3:
		if strings.Contains(s+h, "|") {
			break
		}
		return "|===\n|" + s + "\n|===", "<table class=\"tableblock frame-all grid-all stretch\">\n<colgroup>\n<col style=\"width: 100%;\">\n</colgroup>\n<tbody>\n<tr>\n<td class=\"tableblock halign-left valign-top\"><p class=\"tableblock\">" + h + "</p></td>\n</tr>\n</tbody>\n</table>\n"
	case 4:
		return "====\n" + s + "\n====", "<div class=\"exampleblock\">\n<div class=\"content\">\n<div class=\"paragraph\">\n<p>" + h + "</p>\n</div>\n</div>\n</div>\n"
	case 5:
		w := e.g.Word()
		e.footnotes = append(e.footnotes, w+" "+h)
		if strings.ContainsAny(s+h, "[]") {
			e.footnotes = e.footnotes[:len(e.footnotes)-1]
			break
		}
		n := len(e.footnotes)
		return w + " footnote:[" + w + " " + s + "]", fmt.Sprintf("<div class=\"paragraph\">\n<p>%s <sup class=\"footnote\">[<a id=\"_footnoteref_%d\" class=\"footnote\" href=\"#_footnotedef_%d\" title=\"View footnote.\">%d</a>]</sup></p>\n</div>\n", w, n, n, n)
	case 6:
		r, v := e.plainRef()
		q, u := e.plainRef()
		return "link:" + r + "[" + q + "]", "<div class=\"paragraph\">\n<p><a href=\"" + v + "\">" + u + "</a></p>\n</div>\n"
	case 7:
		r, v := e.plainRef()
		q, u := e.plainRef()
		if strings.Contains(v, " ") {
			r, v = "pic", "pic"
		}
		return "image::" + r + ".png[" + q + "]", "<div class=\"imageblock\">\n<div class=\"content\">\n<img src=\"" + v + ".png\" alt=\"" + u + "\">\n</div>\n</div>\n"
	case 8:
		r, v := e.plainRef()
		w := e.g.Word()
		return "[role=\"" + r + "\"]\n" + w, "<div class=\"paragraph " + v + "\">\n<p>" + w + "</p>\n</div>\n"
	case 9:
		r, v := e.plainRef()
		w := e.g.Word()
		return "[quote," + r + "]\n" + w, "<div class=\"quoteblock\">\n<blockquote>\n" + w + "\n</blockquote>\n<div class=\"attribution\">\n&#8212; " + v + "\n</div>\n</div>\n"
	case 10:
		return "NOTE: " + s, "<div class=\"admonitionblock note\">\n<table>\n<tr>\n<td class=\"icon\">\n<div class=\"title\">Note</div>\n</td>\n<td class=\"content\">\n" + h + "\n</td>\n</tr>\n</table>\n</div>\n"
	case 11:
		n := e.name()
		w := e.g.Word()
		return w + ` \{` + n + "} " + w, "<div class=\"paragraph\">\n<p>" + w + " {" + n + "} " + w + "</p>\n</div>\n"
	case 12:
		t := e.g.Word()
		return t + ":: " + s, "<div class=\"dlist\">\n<dl>\n<dt class=\"hdlist1\">" + t + "</dt>\n<dd>\n<p>" + h + "</p>\n</dd>\n</dl>\n</div>\n"
	case 14, 15, 16, 17, 18, 19, 20:
		return e.inAttribute(kind - 14)
	}
	return s, "<div class=\"paragraph\">\n<p>" + h + "</p>\n</div>\n"
}

// inAttribute is a block with a reference in an attribute.
func (e *environment) inAttribute(kind int) (string, string) {
	r, v := e.plainRef()
	if e.Chance(1, 3) {
		before := map[string]string{}
		for k, c := range e.counters {
			before[k] = c
		}
		if s, h := e.counter(); h != "" && h != s {
			r, v = s, h
		} else {
			e.counters = before
		}
	}
	a, b := e.g.Word(), e.g.Word()
	para := func(h string) string { return "<div class=\"paragraph\">\n<p>" + a + " " + h + "</p>\n</div>\n" }
	e.c.Label("in attribute")
	switch kind {
	case 0:
		return a + " icon:" + b + "[role=" + r + "]", para(`<span class="icon ` + v + `">[` + b + `]</span>`)
	case 1:
		return a + " image:" + b + ".png[role=" + r + ",alt=" + a + "]", para(`<span class="image ` + v + `"><img src="` + b + `.png" alt="` + a + `"></span>`)
	case 2:
		return a + " [." + r + "]*" + b + "*", para(`<strong class="` + v + `">` + b + `</strong>`)
	case 3:
		return a + " [#" + r + "]_" + b + "_", para(`<em id="` + v + `">` + b + `</em>`)
	case 4:
		return "[source," + r + "]\n----\n" + a + "\n----", "<div class=\"listingblock\">\n<div class=\"content\">\n<pre class=\"highlight\"><code class=\"language-" + v + "\" data-lang=\"" + v + "\">" + a + "</code></pre>\n</div>\n</div>\n"
	case 5:
		return "[[" + r + "]]\n" + a + " " + b, strings.Replace(para(b), "class", `id="`+v+`" class`, 1)
	}
	return a + " <<" + b + "," + r + ">>", para(`<a href="#` + b + `">` + v + `</a>`)
}

// emptyRef is a reference to an attribute without value, if there is one.
func (e *environment) emptyRef() string {
	for _, n := range e.names {
		if v, found := e.values[n]; found && v.html == "" {
			return "{" + n + "}"
		}
	}
	return ""
}

// nothing is a block, part of which is only a reference to an attribute without value.
func (e *environment) nothing() (string, string) {
	r := e.emptyRef()
	if r == "" {
		return "", ""
	}
	e.c.Label("nothing")
	w := e.g.Word()
	para := "<div class=\"paragraph\">\n<p>" + w + "</p>\n</div>\n"
	switch e.Intn(10) {
	case 0:
		return "." + r + "\n" + w, para
	case 1:
		return "[role=\"" + r + "\"]\n" + w, para
	case 2:
		return "[quote," + r + "]\n" + w, "<div class=\"quoteblock\">\n<blockquote>\n" + w + "\n</blockquote>\n</div>\n"
	case 3:
		return "image::" + r + w + ".png[" + r + "]", "<div class=\"imageblock\">\n<div class=\"content\">\n<img src=\"" + w + ".png\" alt=\"\">\n</div>\n</div>\n"
	case 4:
		return "[subs=\"" + r + "\"]\n----\n" + w + " *x*\n----", listing(w + " *x*")
	case 5:
		return r + " " + w, "<div class=\"paragraph\">\n<p> " + w + "</p>\n</div>\n"
	case 6:
		return "====\n" + r + "\n====", "<div class=\"exampleblock\">\n<div class=\"content\">\n<div class=\"paragraph\">\n<p></p>\n</div>\n</div>\n</div>\n"
	case 7:
		return w + " *" + r + "* " + w, "<div class=\"paragraph\">\n<p>" + w + " <strong></strong> " + w + "</p>\n</div>\n"
	case 8:
		return "|===\n|" + r + "\n|===", "<table class=\"tableblock frame-all grid-all stretch\">\n<colgroup>\n<col style=\"width: 100%;\">\n</colgroup>\n<tbody>\n<tr>\n<td class=\"tableblock halign-left valign-top\"><p class=\"tableblock\"></p></td>\n</tr>\n</tbody>\n</table>\n"
	}
	return r, "<div class=\"paragraph\">\n<p></p>\n</div>\n"
}

func listing(content string) string {
	return "<div class=\"listingblock\">\n<div class=\"content\">\n<pre>" + content + "</pre>\n</div>\n</div>\n"
}

func attributes(t *engine.T) *engine.Case {
	c := &engine.Case{}
	e := &environment{T: t, g: gen.New(t), values: map[string]value{}, counters: map[string]string{}, over: map[string]bool{}, c: c,
		names: []string{"one", "two", "my-name", "v2", "a_b", "product"}}
	if t.Chance(1, 3) {
		c.Conf.Attrs = map[string]string{}
		for n := t.Range(1, 3); n > 0; n-- {
			k := e.name()
			w := e.g.Words(t.Range(1, 2))
			if t.Chance(1, 5) {
				w = ""
			}
			c.Conf.Attrs[k] = w
			e.values[k], e.over[k] = value{w, true}, true
		}
		c.Label("configured")
	}
	var src []string
	html := &strings.Builder{}
	setConf(c, "experimental", "")
	if t.Chance(1, 2) { // header
		h := "= " + e.g.Word()
		for n := t.Intn(4); n > 0; n-- {
			h += "\n" + e.declare()
		}
		src = append(src, h)
		c.Label("header")
	}
	sect := 0
	for n := t.Range(2, 7); n > 0; n-- {
		switch t.Intn(8) {
		case 0, 1, 2:
			d := e.declare()
			for t.Chance(1, 3) {
				d += "\n" + e.declare()
			}
			src = append(src, d)
		case 3: // within a block
			d := e.declare()
			s, h := e.text()
			src = append(src, "====\n"+d+"\n\n"+s+"\n====")
			html.WriteString("<div class=\"exampleblock\">\n<div class=\"content\">\n<div class=\"paragraph\">\n<p>" + h + "</p>\n</div>\n</div>\n</div>\n")
			c.Label("in block")
		case 4:
			if sect > 0 {
				html.WriteString("</div>\n</div>\n")
			}
			sect++
			s, h := e.emptyRef(), ""
			if s == "" || t.Chance(2, 3) {
				s, h = e.text()
			}
			src = append(src, fmt.Sprintf("[#sect-%d]\n== %s", sect, s))
			html.WriteString(fmt.Sprintf("<div class=\"sect1\">\n<h2 id=\"sect-%d\">%s</h2>\n<div class=\"sectionbody\">\n", sect, h))
			c.Label("section")
		default:
			s, h := e.block()
			if (strings.HasPrefix(s, "* ") || strings.Contains(s, ":: ")) && len(src) > 0 {
				src = append(src, e.g.Word())
				html.WriteString("<div class=\"paragraph\">\n<p>" + src[len(src)-1] + "</p>\n</div>\n")
			}
			src = append(src, s)
			html.WriteString(h)
		}
	}
	if sect > 0 {
		html.WriteString("</div>\n</div>\n")
	}
	c.Doc = strings.Join(src, "\n\n") + "\n"
	c.Want = html.String()
	e.g.Footnotes = e.footnotes
	c.Want += e.g.FootnotesHTML()
	if sect > 0 && strings.HasPrefix(c.Doc, "= ") && !strings.HasPrefix(c.Want, `<div class="sect1">`) {
		i := strings.Index(c.Want, `<div class="sect1">`)
		c.Want = "<div id=\"preamble\">\n<div class=\"sectionbody\">\n" + c.Want[:i] + "</div>\n</div>\n" + c.Want[i:]
	}
	c.Trivial = !strings.Contains(c.Doc, "{")
	return c
}

func init() {
	engine.Register(&engine.Prop{ID: "P12", Rule: "the document refers to at least one attribute", Quick: 15000, Thorough: 600000,
		Gen: attributes, Check: func(c *engine.Case) *engine.Fail { return conv.Same(c.Doc, c.Conf, c.Want) }})
}
