package props

import (
	"fmt"
	"strings"

	"verif/conv"
	"verif/engine"
	"verif/gen"
	"verif/htm"
)

// ---------------------------------------------------------------------------
// P24: the header of the document gives the title, authors, revision and page
// ---------------------------------------------------------------------------

type author struct{ first, middle, last, email string }

func (a author) full() string {
	s := a.first
	for _, p := range []string{a.middle, a.last} {
		if p != "" {
			s += " " + p
		}
	}
	return s
}

func (a author) initials() string {
	s := ""
	for _, p := range []string{a.first, a.middle, a.last} {
		for _, r := range p {
			s += string(r)
			break
		}
	}
	return s
}

// headers is the model of the header of a document.
type headers struct {
	*engine.T
	g       *gen.G
	c       *engine.Case
	attrs   map[string]string // value of the attributes as HTML
	conf    map[string]bool
	authors []author
	split   bool // the name of the author is in an attribute, which is not split
}

func (h *headers) namePart() (string, string) {
	w := h.g.Word()
	w = strings.ToUpper(w[:1]) + w[1:]
	switch h.Intn(8) {
	case 0:
		return "É" + w, "É" + w
	case 1:
		x := h.g.Word()
		return w + "_" + x, w + " " + x
	case 2:
		return w[:1] + ".", w[:1] + "."
	case 3:
		return w + "-日" + w, w + "-日" + w
	}
	return w, w
}

// authorLine generates the line of the authors.
func (h *headers) authorLine() string {
	s := ""
	n := h.Weighted(0, 6, 3, 2)
	for i := 0; i < n; i++ {
		if i > 0 {
			s += h.Pick("; ", ";", " ; ")
		}
		a := author{}
		form := h.Weighted(2, 4, 4, 2, 1)
		if i == 0 && form == 4 {
			form = 1
		}
		src := ""
		part := func(p *string) {
			x, v := h.namePart()
			if src != "" {
				src += " "
			}
			src += x
			*p = v
		}
		switch form {
		case 0:
			part(&a.first)
		case 1:
			part(&a.first)
			part(&a.last)
		case 2:
			part(&a.first)
			part(&a.middle)
			part(&a.last)
		case 3:
			var more string
			part(&a.first)
			part(&a.middle)
			part(&a.last)
			part(&more)
			a.last += " " + more
			h.c.Label("long name")
		}
		if form == 4 || h.Chance(1, 2) {
			a.email = h.g.Word() + h.Pick("", ".x", "+y", "-z") + "@" + h.g.Word() + ".org"
			if src != "" {
				src += " "
			}
			src += "<" + a.email + ">"
		}
		s += src
		h.authors = append(h.authors, a)
	}
	var names []string
	for i, a := range h.authors {
		k := ""
		if i > 0 {
			k = fmt.Sprintf("_%d", i+1)
		}
		h.attrs["author"+k] = a.full()
		h.attrs["authorinitials"+k] = a.initials()
		if a.full() != "" {
			names = append(names, a.full())
			h.attrs["firstname"+k] = a.first
		}
		if a.middle != "" {
			h.attrs["middlename"+k] = a.middle
		}
		if a.last != "" {
			h.attrs["lastname"+k] = a.last
		}
		if a.email != "" {
			h.attrs["email"+k] = `<a href="mailto:` + a.email + `">` + a.email + "</a>"
		}
	}
	h.attrs["authors"] = strings.Join(names, ", ")
	h.c.Label(fmt.Sprintf("%d authors", n))
	return s
}

// set is an attribute of the header, which the configuration can override.
func (h *headers) set(k, v string) {
	if !h.conf[k] {
		h.attrs[k] = v
	}
}

func (h *headers) revisionLine() string {
	num, date, rem := h.Pick("1", "1.0", "2.10.3", "0.1-beta", "3", "1.0rev2", "2v3"), h.Pick("2020-01-02", "January 1, 2020", "today", "é 2"), h.g.Words(h.Range(1, 3))+h.Pick("", ": x", ", y", " v2")
	v := h.Pick("v", "v", "V")
	h.c.Label("revision")
	switch h.Intn(6) {
	case 0:
		h.set("revnumber", num)
		return v + num
	case 1:
		h.set("revnumber", num)
		h.set("revdate", date)
		return h.Pick(v, "") + num + h.Pick(", ", ",") + date
	case 2:
		h.set("revnumber", num)
		h.set("revdate", date)
		h.set("revremark", rem)
		return h.Pick(v, "") + num + ", " + date + h.Pick(": ", ":", " : ") + rem
	case 3:
		h.set("revnumber", num)
		h.set("revremark", rem)
		return v + num + h.Pick(": ", ":") + rem
	case 4:
		h.set("revdate", date)
		h.set("revremark", rem)
		return date + ": " + rem
	}
	h.set("revdate", date)
	return date
}

func (h *headers) text() (string, string) {
	w := h.g.Words(h.Range(1, 3))
	return w, w
}

func headerDocument(t *engine.T) *engine.Case {
	c := &engine.Case{Conf: engine.Conf{Backend: t.Pick("html5", "html5", "xhtml5", "html", "xhtml"), Wrap: t.Chance(4, 5), Attrs: map[string]string{}}}
	g := gen.New(t)
	h := &headers{T: t, g: g, c: c, attrs: map[string]string{}, conf: map[string]bool{}}
	x := strings.HasPrefix(c.Conf.Backend, "xhtml")
	for n := t.Weighted(3, 1, 1); n > 0; n-- {
		c.Conf.CSS = append(c.Conf.CSS, t.Pick("a.css", "path/to/b.css?x=1", "https://x.org/c.css", "d e.css"))
	}
	h.attrs["version-label"] = "version"
	conf := func(k, v string) {
		c.Conf.Attrs[k] = v
		h.attrs[k], h.conf[k] = v, true
		c.Label("configured")
	}
	if t.Chance(1, 4) {
		switch t.Intn(5) {
		case 0:
			conf("noheader", "")
		case 1:
			conf("nofooter", "")
		case 2:
			conf("description", g.Words(2))
		case 3:
			conf("doctype", t.Pick("article", "book"))
		default:
			conf("x", g.Word())
		}
	}
	doc := ""
	if t.Chance(1, 5) { // front matter
		doc = "---\n"
		for n := t.Range(1, 3); n > 0; n-- {
			k := t.Pick("x", "y", "description", "fm")
			if strings.Contains(doc, "\n"+k+": ") {
				continue
			}
			v := t.Pick(g.Words(2), "12", "true", "1.5", "'a b'")
			doc += k + ": " + v + "\n"
			h.set(k, strings.Trim(v, "'"))
		}
		doc += "---\n" + t.Pick("", "\n", "\n\n")
		c.Label("front matter")
	}
	// references to the attributes of the header, in the title and the text
	var title, titleHTML string
	id, roles := "", ""
	var lines []string
	titled := t.Chance(5, 6)
	ref := "r" + g.Word()
	if titled {
		for t.Chance(1, 5) { // declarations before the title
			k := t.Pick("x", "y", "description", "fm")
			if t.Chance(1, 4) {
				doc += ":" + k + "!:\n"
				if !h.conf[k] {
					delete(h.attrs, k)
				}
			} else {
				v := g.Words(2)
				doc += ":" + k + ": " + v + "\n"
				h.set(k, v)
			}
			doc += t.Pick("", "\n")
			c.Label("declaration before")
		}
		for t.Chance(1, 5) {
			doc += t.Pick("// "+g.Word(), "////\n"+g.Word()+"\n////", "//") + "\n"
			c.Label("comment before")
		}
		if t.Chance(1, 5) {
			id = g.Word()
			roles = t.Pick("", " "+g.Word(), " "+g.Word()+" "+g.Word())
			doc += "[#" + id + strings.ReplaceAll(roles, " ", ".") + "]\n"
			c.Label("id")
		}
		g.W = gen.Only(gen.Inl(), "word", "bold", "italic", "mono", "mark", "special", "punct", "apos")
		if t.Chance(1, 3) { // not only text
			g.W = gen.Boost(gen.Only(gen.Inl(), "word", "bold", "italic", "mono", "symbol", "dquote", "squote", "sub", "sup", "link", "url", "footnote"), 2, "footnote", "link")
			c.Label("rich title")
		}
		in := g.Text(1, 4)
		if strings.ContainsAny(in.S[:1], " =") {
			in.S, in.H = "x"+in.S, "x"+in.H
		}
		title, titleHTML = in.S, in.H
		if t.Chance(1, 6) {
			p := predefined[t.Intn(len(predefined))]
			title += " {" + p.name + "}" + g.Word()
			titleHTML += " " + p.html + title[strings.LastIndex(title, "}")+1:]
			c.Label("predefined")
		}
		if t.Chance(1, 4) {
			v := g.Words(t.Range(1, 2))
			title += " {" + ref + "}"
			titleHTML += " " + v
			lines = append(lines, ":"+ref+": "+v)
			h.attrs[ref] = v
		}
		doc += "= " + title + "\n"
		comment := func() {
			if t.Chance(1, 6) {
				doc += t.Pick("// "+g.Word(), "////\n"+g.Word()+"\n////") + "\n"
				c.Label("comment")
			}
		}
		comment()
		switch t.Intn(4) {
		case 0:
		case 1:
			a := author{}
			if t.Chance(4, 5) {
				a.first = g.Words(t.Range(1, 3))
				lines = append(lines, ":author: "+a.first)
				h.attrs["author"] = a.first
			}
			if a.first == "" || t.Chance(1, 2) {
				a.email = g.Word() + "@" + g.Word() + ".org"
				lines = append(lines, ":email: "+a.email)
				h.attrs["email"] = `<a href="mailto:` + a.email + `">` + a.email + "</a>"
			}
			h.authors = []author{a}
			h.split = true
			c.Label("author attributes")
			if t.Chance(1, 2) {
				r := map[string]string{"revnumber": t.Pick("1.0", "2"), "revdate": "2021-12-31", "revremark": g.Words(2)}
				for _, k := range keys(r) {
					if t.Chance(2, 3) {
						lines = append(lines, ":"+k+": "+r[k])
						h.set(k, r[k])
					}
				}
			}
		default:
			doc += t.Pick("", "", " ") + h.authorLine() + "\n"
			comment()
			if t.Chance(2, 3) {
				doc += h.revisionLine() + "\n"
			}
		}
		if t.Chance(1, 3) {
			v := g.Words(t.Range(1, 3))
			lines = append(lines, ":description: "+v)
			h.set("description", v)
		}
		if t.Chance(1, 5) {
			v := g.Word()
			if t.Chance(1, 3) {
				lines = append(lines, ":version-label!:")
				delete(h.attrs, "version-label")
			} else {
				lines = append(lines, ":version-label: "+v)
				h.set("version-label", v)
			}
		}
		for _, k := range []string{"noheader", "nofooter"} {
			if t.Chance(1, 6) {
				lines = append(lines, ":"+k+":")
				h.set(k, "")
			}
		}
		if t.Chance(1, 6) {
			lines = append(lines, ":doctype: book")
			h.set("doctype", "book")
		}
		for i, j := range t.Perm(len(lines)) {
			if i > 0 {
				comment()
			}
			doc += lines[j] + "\n"
		}
		doc += "\n"
	}
	// the body: references, preamble and sections
	var html string
	para := func() {
		s, p := g.Word(), ""
		p = s
		names := []string{"author", "author_2", "author_3", "authorinitials", "authorinitials_2", "firstname", "firstname_2", "middlename", "lastname", "lastname_2", "lastname_3", "email", "email_2", "authors", "revnumber", "revdate", "revremark", "description", "x", "y", "fm"}
		for n := t.Intn(5); n > 0; n-- {
			k := names[t.Intn(len(names))]
			if h.split && (strings.HasPrefix(k, "a") || strings.HasPrefix(k, "first")) && (k != "author" || h.authors[0].first == "") {
				k = "x"
			}
			s += " {" + k + "}"
			if v, found := h.attrs[k]; found {
				p += " " + v
				c.Label("reference")
			} else {
				p += " {" + k + "}"
			}
		}
		s += " " + g.Word()
		doc += s + "\n\n"
		html += "<div class=\"paragraph\">\n<p>" + p + " " + s[strings.LastIndex(s, " ")+1:] + "</p>\n</div>\n"
	}
	for n := t.Range(1, 2); n > 0; n-- {
		para()
	}
	if t.Chance(1, 6) { // not a front matter
		k, v := t.Pick("x", "y", "description", "fm"), g.Word()
		doc += "---\n" + k + ": " + v + "\n---\n\n"
		html += "<div class=\"paragraph\">\n<p>---\n" + k + ": " + v + "\n---</p>\n</div>\n"
		if t.Chance(1, 2) {
			para()
		}
	}
	if t.Chance(1, 2) {
		if titled {
			html = "<div id=\"preamble\">\n<div class=\"sectionbody\">\n" + html + "</div>\n</div>\n"
		}
		w := g.Word()
		doc += "== " + w + "\n\n"
		html += "<div class=\"sect1\">\n<h2 id=\"_" + strings.ToLower(w) + "\">" + w + "</h2>\n<div class=\"sectionbody\">\n"
		para()
		html += "</div>\n</div>\n"
		c.Label("section")
	}
	html += g.FootnotesHTML()
	c.Doc = doc
	c.Wants = []string{""}
	if titled {
		c.Wants[0] = strings.TrimSpace(titleText(titleHTML))
	}
	c.Trivial = !titled
	if !c.Conf.Wrap {
		c.Want = html
		return c
	}
	c.Want = h.page(html, titleHTML, c.Wants[0], titled, id, roles, x)
	return c
}

// titleText is the text of some HTML.
func titleText(html string) string {
	n, err := htm.Parse(html, htm.HTML)
	if err != nil {
		panic(err)
	}
	return n.TextContent()
}

// page is the whole page which is expected.
func (h *headers) page(body, titleHTML, title string, titled bool, id, roles string, x bool) string {
	b := &strings.Builder{}
	slash := ""
	if x {
		slash = "/"
	}
	void := func(s string) { b.WriteString("<" + s + slash + ">\n") }
	b.WriteString("<!DOCTYPE html>\n<html ")
	if x {
		b.WriteString(`xmlns="https://www.w3.org/1999/xhtml" `)
	}
	b.WriteString("lang=\"en\">\n<head>\n")
	void(`meta charset="UTF-8"`)
	void(`meta http-equiv="X-UA-Compatible" content="IE=edge"`)
	void(`meta name="viewport" content="width=device-width, initial-scale=1.0"`)
	void(`meta name="generator" content="libasciidoc"`)
	if d := h.attrs["description"]; d != "" {
		void(`meta name="description" content="` + d + `"`)
	}
	var names []string
	for _, a := range h.authors {
		if a.full() != "" {
			names = append(names, a.full())
		}
	}
	if len(names) > 0 {
		void(`meta name="author" content="` + strings.Join(names, "; ") + `"`)
	}
	for _, css := range h.c.Conf.CSS {
		void(`link type="text/css" rel="stylesheet" href="` + css + `"`)
	}
	if !titled {
		title = "Untitled"
	}
	b.WriteString("<title>" + gen.Esc(title) + "</title>\n</head>\n<body")
	if id != "" {
		b.WriteString(` id="` + id + `"`)
	}
	doctype := "article"
	if d, found := h.attrs["doctype"]; found {
		doctype = d
	}
	b.WriteString(` class="` + doctype + roles + "\">\n")
	if _, found := h.attrs["noheader"]; !found && titled {
		b.WriteString("<div id=\"header\">\n<h1>" + titleHTML + "</h1>\n")
		if len(h.authors) > 0 {
			b.WriteString("<div class=\"details\">\n")
			for i, a := range h.authors {
				k := ""
				if i > 0 {
					k = fmt.Sprint(i + 1)
				}
				if a.full() != "" {
					b.WriteString(`<span id="author` + k + `" class="author">` + a.full() + "</span><br" + slash + ">\n")
				}
				if a.email != "" {
					b.WriteString(`<span id="email` + k + `" class="email"><a href="mailto:` + a.email + `">` + a.email + "</a></span><br" + slash + ">\n")
				}
			}
			if v := h.attrs["revnumber"]; v != "" {
				b.WriteString(`<span id="revnumber">`)
				if l := h.attrs["version-label"]; l != "" {
					b.WriteString(l + " ")
				}
				b.WriteString(v)
				if h.attrs["revdate"] != "" {
					b.WriteString(",")
				}
				b.WriteString("</span>\n")
			}
			if v := h.attrs["revdate"]; v != "" {
				b.WriteString(`<span id="revdate">` + v + "</span>\n")
			}
			if v := h.attrs["revremark"]; v != "" {
				b.WriteString("<br" + slash + `><span id="revremark">` + v + "</span>\n")
			}
			b.WriteString("</div>\n")
		}
		b.WriteString("</div>\n")
	}
	b.WriteString("<div id=\"content\">\n" + body + "</div>\n")
	if _, found := h.attrs["nofooter"]; !found {
		b.WriteString("<div id=\"footer\">\n<div id=\"footer-text\">\n")
		if v := h.attrs["revnumber"]; v != "" {
			b.WriteString("Version " + v + "<br" + slash + ">\n")
		}
		b.WriteString("Last updated " + conv.Updated.Format("2006-01-02 15:04:05 -0700") + "\n</div>\n</div>\n")
	}
	b.WriteString("</body>\n</html>\n")
	return b.String()
}

func checkHeader(c *engine.Case) *engine.Fail {
	out, md, err := conv.Convert(c.Doc, c.Conf)
	if err != nil {
		return engine.Failf("error", "the conversion failed: %v", err)
	}
	if f := conv.SameHTML(out, c.Want, conv.Mode(c.Conf)); f != nil {
		return f
	}
	if got := titleText(md.Title); got != c.Wants[0] {
		return engine.Failf("metadata", "the title is %q instead of %q", got, c.Wants[0])
	}
	if want := conv.Updated.Format("2006-01-02 15:04:05 -0700"); md.LastUpdated != want {
		return engine.Failf("metadata", "the last update is %q instead of %q", md.LastUpdated, want)
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{ID: "P24", Rule: "the document has a title", Quick: 15000, Thorough: 600000,
		Gen: headerDocument, Check: checkHeader})
}
