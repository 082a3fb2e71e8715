package props

import (
	"strings"

	"verif/engine"
	"verif/gen"
)

// ---------------------------------------------------------------------------
// P31: manual pages
// ---------------------------------------------------------------------------

func manpage(t *engine.T) *engine.Case {
	c := &engine.Case{}
	g := gen.New(t)
	g.W, g.B = gen.Inl(), gen.Bl()
	if t.Chance(1, 4) {
		c.Conf.Backend = t.Pick("xhtml5", "xhtml", "html")
		g.XML = c.Conf.Backend != "html"
	}
	c.Conf.Wrap = t.Chance(1, 2)
	h := &headers{T: t, g: g, c: c, attrs: map[string]string{}}
	d := &gen.Doc{TOCDepth: 2, TOCTitle: "Table of Contents"}

	// whether the document is asked to be a manual page
	asked, header := true, ""
	late := false
	switch t.Weighted(6, 3, 1, 1, 1, 1, 1, 1) {
	case 0:
		header = ":doctype: manpage"
	case 1:
		setConf(c, "doctype", "manpage")
	case 2:
		header, asked = ":doctype: manpage", false
		setConf(c, "doctype", "article")
	case 3:
		header = ":doctype: article"
		setConf(c, "doctype", "manpage")
	case 4:
		asked = false
	case 5:
		header, asked = ":doctype: manpage\n:doctype!:", false
	case 6:
		header = ":doctype: book\n:doctype: manpage"
	case 7:
		asked, late = false, true
	}
	doctype := "article"
	if asked {
		c.Label("asked")
	}

	// what the document misses
	broken := ""
	if t.Chance(1, 2) {
		broken = t.Pick("header", "name", "name level", "name empty", "name blocks", "name list", "synopsis", "synopsis level", "preamble", "order", "alone", "rich name")
	}
	c.Label("broken: " + broken)
	title := g.Word() + t.Pick("(1)", "(8)", "")
	titled := broken != "header"

	sec := func(level int, titles ...string) gen.Sec {
		s := gen.Sec{Level: level, Parent: -1}
		w := t.Pick(titles...)
		s.Title = gen.In{S: w, H: w, T: w}
		s.ID = gen.SectionID(w, "_", "_")
		if t.Chance(1, 4) {
			s.Explicit = g.ID()
			s.ID = strings.ToLower(s.Explicit)
			s.Form = t.Intn(2)
			c.Label("explicit id")
		}
		return s
	}
	name, synopsis := sec(1, "Name", "NAME", "name"), sec(1, "Synopsis", "SYNOPSIS", "synopsis")
	switch broken {
	case "name":
		name = sec(1, "Names", "The name", "N", "Synopsis")
	case "rich name":
		name = sec(1, "Name")
		name.Title = gen.In{S: "*Name*", H: "<strong>Name</strong>", T: "Name"}
		if name.Explicit == "" {
			name.ID = "_name"
		}
	case "name level":
		name.Level = 2
	case "synopsis":
		synopsis = sec(1, "Options", "Synopsis of it", "Name of it")
	case "synopsis level":
		synopsis.Level, synopsis.Parent = 2, 0
	}
	if synopsis.ID == name.ID {
		synopsis.ID += "_2"
	}
	if titled {
		d.Title = gen.In{S: title, H: title, T: title}
	}
	if header != "" {
		d.Header = append(d.Header, header)
	}
	if t.Chance(1, 4) && broken != "preamble" {
		d.Header = append(d.Header, ":toc:")
		d.TOCAt = "top"
		c.Label("toc")
	}
	ctx := gen.Top()
	if broken == "preamble" {
		w := g.Words(2)
		d.Pre = gen.Part{S: w, H: "<div class=\"paragraph\">\n<p>" + w + "</p>\n</div>\n"}
	}
	// the sections, in order, since the footnotes are numbered
	text := g.Text(1, 5)
	namePart := gen.Part{S: text.S, H: "<div class=\"paragraph\">\n<p>" + text.H + "</p>\n</div>\n"}
	switch broken {
	case "name empty":
		namePart, text = gen.Part{}, gen.In{}
		if g.FootnotesHTML() != "" { // the footnotes of this text are lost
			return manpage(t)
		}
	case "name blocks":
		w := g.Words(2)
		namePart.S += "\n\n" + w
		namePart.H += "<div class=\"paragraph\">\n<p>" + w + "</p>\n</div>\n"
	case "name list":
		namePart = gen.Part{S: "* " + text.S, H: "<div class=\"ulist\">\n<ul>\n<li>\n<p>" + text.H + "</p>\n</li>\n</ul>\n</div>\n"}
	}
	if late {
		namePart.S = ":doctype: manpage\n\n" + namePart.S
	}
	block := func(lo int) gen.Part {
		b := g.Blocks(ctx, lo, 2)
		return gen.Part{S: b.S, H: b.H}
	}
	synopsisPart := block(0)
	d.Secs, d.Parts = []gen.Sec{name, synopsis}, []gen.Part{namePart, synopsisPart}
	switch broken {
	case "order":
		if g.FootnotesHTML() != "" {
			return manpage(t)
		}
		d.Secs[0], d.Secs[1] = d.Secs[1], d.Secs[0]
		d.Parts[0], d.Parts[1] = d.Parts[1], d.Parts[0]
	case "alone":
		if synopsisPart.S != "" && strings.Contains(g.FootnotesHTML(), "def_") {
			return manpage(t)
		}
		d.Secs, d.Parts = d.Secs[:1], d.Parts[:1]
	default:
		for _, s := range g.Plan(0, 3, 3) {
			if s.Parent >= 0 {
				s.Parent += 2
			}
			d.Secs = append(d.Secs, s)
			d.Parts = append(d.Parts, block(0))
		}
	}
	c.Doc = d.Source(g)
	valid := asked && broken == ""
	if valid {
		doctype = "manpage"
		c.Label("manual page")
	}
	c.Trivial = !asked
	h.attrs["doctype"] = doctype
	if !valid {
		c.Want = d.HTML(g)
		if c.Conf.Wrap {
			c.Want = h.page(c.Want, title, title, titled, "", "", g.XML)
		}
	} else {
		toc := ""
		if d.TOCAt != "" {
			toc = gen.TOC(d.Secs, d.TOCDepth, d.TOCTitle)
		}
		head := "<h2 id=\"" + d.Secs[0].ID + "\">" + d.Secs[0].Title.H + "</h2>\n<div class=\"sectionbody\">\n<p>" + text.H + "</p>\n</div>\n"
		d.Secs[0].Parent = -2 // not with the others
		body := gen.SectionsHTML(d.Secs, d.Parts) + g.FootnotesHTML()
		if c.Conf.Wrap {
			c.Want = h.page(toc+body, title, title, titled, "", "", g.XML)
			c.Want = strings.Replace(c.Want, "<h1>"+title+"</h1>\n", "<h1>"+title+" Manual Page</h1>\n"+head, 1)
		} else {
			c.Want = head + toc + body
		}
	}
	c.Want = g.Resolve(c.Want)
	return c
}

func init() {
	engine.Register(&engine.Prop{ID: "P31", Rule: "the document is asked to be a manual page", Quick: 12000, Thorough: 400000,
		Gen: manpage, Check: checkWant})
}
