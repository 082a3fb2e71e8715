package props

import (
	"strings"
	"unicode/utf8"

	"verif/conv"
	"verif/engine"
	"verif/gen"
	"verif/htm"
)

// paragraph is a soup which is nothing but one paragraph of text.
func soupParagraph(t *engine.T, lines int, ban func(string) bool) string {
	s := gen.NewSoup(t)
	s.Ban = ban
	var l []string
	for n := t.Range(1, lines); n > 0; n-- {
		x := s.Inline()
		l = append(l, s.Pick("foo", "bar", "Word", "x1", "été")+s.Pick(" ", " ", ", ", "")+x)
	}
	return strings.Join(l, "\n")
}

func init() {
	engine.Register(&engine.Prop{ID: "P08", Rule: "the output has at least 20 bytes",
		Quick: 10000, Thorough: 500000,
		Gen: func(t *engine.T) *engine.Case {
			c := &engine.Case{Conf: anyConf(t)}
			if c.Conf.Attrs["a"] == "<i>" {
				c.Conf.Attrs["a"] = "w"
			}
			c.Conf.Backend = ""
			c.Args = []string{t.Pick("xhtml5", "xhtml"), t.Pick("html5", "html")}
			var class string
			c.Doc, class = quiet(t, 20)
			c.Label(class)
			c.Trivial = specialRole(c.Doc) || len(c.Doc) < 20
			return c
		},
		Check: func(c *engine.Case) *engine.Fail {
			if specialRole(c.Doc) || !utf8.ValidString(c.Doc) {
				return nil
			}
			x, h := c.Conf, c.Conf
			x.Backend, h.Backend = c.Args[0], c.Args[1]
			xo, xmd, xerr := conv.Convert(c.Doc, x)
			ho, hmd, herr := conv.Convert(c.Doc, h)
			if (xerr == nil) != (herr == nil) {
				return engine.Failf("error", "%s: %v\n--- %s: %v", x.Backend, xerr, h.Backend, herr)
			}
			if xerr != nil {
				return nil
			}
			// the titles of the table of contents are in the syntax of the back-end
			// (and, known finding, the ampersands in the sources of images are escaped by one of them only)
			void := strings.NewReplacer(`/\u003e`, `\u003e`, `\u0026amp;`, `\u0026`)
			if a, b := void.Replace(jsonOf(xmd)), void.Replace(jsonOf(hmd)); a != b {
				return engine.Failf("metadata", "%s\n--- %s", a, b)
			}
			xo = strings.ReplaceAll(xo, " reversed>", ` reversed="reversed">`) // known finding
			xt, err := htm.Parse(xo, htm.XHTML)
			if err != nil {
				return engine.Failf("malformed", "%s: %v\n--- output:\n%s", x.Backend, err, xo)
			}
			ht, err := htm.Parse(ho, htm.HTML)
			if err != nil {
				return engine.Failf("malformed", "%s: %v\n--- output:\n%s", h.Backend, err, ho)
			}
			for _, n := range xt.ByTag("html") {
				delete(n.Attrs, "xmlns")
			}
			if d := htm.Diff(xt.Canon(), ht.Canon()); d != "" {
				return engine.Failf("differs", "%s against %s: %s\n--- output:\n%s\n--- want:\n%s", x.Backend, h.Backend, d, xo, ho)
			}
			return nil
		},
	})

	engine.Register(&engine.Prop{ID: "P26", Rule: "the text has at least one mark, macro or special character",
		Quick: 12000, Thorough: 600000,
		Gen: func(t *engine.T) *engine.Case {
			c := &engine.Case{}
			if t.Chance(1, 4) {
				c.Conf.Backend = "xhtml5"
			}
			for n := t.Intn(3); n > 0; n-- {
				if c.Conf.Attrs == nil {
					c.Conf.Attrs = map[string]string{}
				}
				c.Conf.Attrs[t.Pick("a", "b-c", "experimental", "icons")] = t.Pick("", "x y", "1")
			}
			c.Sub = containers[t.Intn(len(containers))].name
			if t.Chance(1, 2) {
				c.Doc = soupParagraph(t, 3, inlineOnly)
				c.Label("soup")
			} else {
				g := gen.New(t)
				g.W = gen.Without(gen.Inl(), "xref")
				c.Doc = g.Lines(2, 12).S
				if strings.ContainsAny(c.Doc, "|") {
					c.Doc = strings.ReplaceAll(c.Doc, "|", "")
				}
				c.Label("well-formed")
			}
			for strings.Contains(c.Doc, "::") || strings.Contains(c.Doc, ";;") {
				c.Doc = strings.NewReplacer("::", ":", ";;", ";").Replace(c.Doc)
			}
			lines := strings.Split(c.Doc, "\n")
			for i := range lines {
				lines[i] = strings.TrimSpace(lines[i]) // with U+00A0, which list items trim
			}
			c.Doc = strings.Join(lines, "\n")
			c.Label(c.Sub)
			c.Trivial = !strings.ContainsAny(c.Doc, "*_`#^~[<&{(-=.:")
			return c
		},
		Check: checkContainer,
	})
}

// inlineOnly bans what means something else in one of the containers than in a paragraph.
func inlineOnly(x string) bool {
	return strings.ContainsAny(x, "|") || x == "::" || x == ":::" || x == ";;" || strings.Contains(x, "counter") || x == "<1>" || x == "<.>" || x == "<!--2-->"
}

type container struct {
	name        string
	before      string // document before the text
	after       string
	htmlBefore  string
	htmlAfter   string
	strip       string // what is around the text in the reference
	line        bool   // the text must be on a single line
	noTrailing  bool
	description string
}

const pBefore, pAfter = "<div class=\"paragraph\">\n<p>", "</p>\n</div>\n"

var containers = []container{
	{name: "list item", before: "* ", htmlBefore: "<div class=\"ulist\">\n<ul>\n<li>\n<p>", htmlAfter: "</p>\n</li>\n</ul>\n</div>\n"},
	{name: "nested ordered item", before: "* x\n. ", htmlBefore: "<div class=\"ulist\">\n<ul>\n<li>\n<p>x</p>\n<div class=\"olist arabic\">\n<ol class=\"arabic\">\n<li>\n<p>", htmlAfter: "</p>\n</li>\n</ol>\n</div>\n</li>\n</ul>\n</div>\n"},
	{name: "description", before: "term::\n", htmlBefore: "<div class=\"dlist\">\n<dl>\n<dt class=\"hdlist1\">term</dt>\n<dd>\n<p>", htmlAfter: "</p>\n</dd>\n</dl>\n</div>\n"},
	{name: "attached paragraph", before: "* x\n+\n", htmlBefore: "<div class=\"ulist\">\n<ul>\n<li>\n<p>x</p>\n" + pBefore, htmlAfter: pAfter + "</li>\n</ul>\n</div>\n"},
	{name: "example", before: "====\n", after: "\n====", htmlBefore: "<div class=\"exampleblock\">\n<div class=\"content\">\n" + pBefore, htmlAfter: pAfter + "</div>\n</div>\n"},
	{name: "sidebar", before: "****\n", after: "\n****", htmlBefore: "<div class=\"sidebarblock\">\n<div class=\"content\">\n" + pBefore, htmlAfter: pAfter + "</div>\n</div>\n"},
	{name: "open", before: "--\n", after: "\n--", htmlBefore: "<div class=\"openblock\">\n<div class=\"content\">\n" + pBefore, htmlAfter: pAfter + "</div>\n</div>\n"},
	{name: "quote", before: "____\n", after: "\n____", htmlBefore: "<div class=\"quoteblock\">\n<blockquote>\n" + pBefore, htmlAfter: pAfter + "</blockquote>\n</div>\n"},
	{name: "admonition block", before: "[NOTE]\n====\n", after: "\n====", htmlBefore: admBefore + pBefore, htmlAfter: pAfter + admAfter},
	{name: "admonition paragraph", before: "NOTE: ", htmlBefore: admBefore, htmlAfter: "\n" + admAfter},
	{name: "styled admonition", before: "[NOTE]\n", htmlBefore: admBefore, htmlAfter: "\n" + admAfter},
	{name: "quote paragraph", before: "[quote]\n", htmlBefore: "<div class=\"quoteblock\">\n<blockquote>\n", htmlAfter: "\n</blockquote>\n</div>\n"},
	{name: "example paragraph", before: "[example]\n", htmlBefore: "<div class=\"exampleblock\">\n<div class=\"content\">\n", htmlAfter: "\n</div>\n</div>\n"},
	{name: "table cell", before: "|===\n|", after: "\n|===", line: true, htmlBefore: "<table class=\"tableblock frame-all grid-all stretch\">\n<colgroup>\n<col style=\"width: 100%;\">\n</colgroup>\n<tbody>\n<tr>\n<td class=\"tableblock halign-left valign-top\"><p class=\"tableblock\">", htmlAfter: "</p></td>\n</tr>\n</tbody>\n</table>\n"},
	{name: "between paragraphs", before: "one *two*\n\n", after: "\n\nthree _four_", htmlBefore: pBefore + "one <strong>two</strong>" + pAfter + pBefore, htmlAfter: pAfter + pBefore + "three <em>four</em>" + pAfter},
	{name: "section", before: "== one\n\n", after: "", htmlBefore: "<div class=\"sect1\">\n<h2 id=\"_one\">one</h2>\n<div class=\"sectionbody\">\n" + pBefore, htmlAfter: pAfter + "</div>\n</div>\n"},
}

const admBefore = "<div class=\"admonitionblock note\">\n<table>\n<tr>\n<td class=\"icon\">\n<div class=\"title\">Note</div>\n</td>\n<td class=\"content\">\n"
const admAfter = "</td>\n</tr>\n</table>\n</div>\n"

func checkContainer(c *engine.Case) *engine.Fail {
	var k *container
	for i := range containers {
		if containers[i].name == c.Sub {
			k = &containers[i]
		}
	}
	text := c.Doc
	if k.line {
		text = strings.ReplaceAll(text, "\n", " ")
	}
	ref, _, err := conv.Convert(text, c.Conf)
	if err != nil {
		return nil
	}
	if !strings.HasPrefix(ref, pBefore) || strings.Count(ref, "<p>") != 1 {
		return nil // not a paragraph
	}
	foot := ""
	if i := strings.Index(ref, "<div id=\"footnotes\">"); i > 0 {
		ref, foot = ref[:i], ref[i:]
	}
	if !strings.HasSuffix(ref, pAfter) {
		return nil
	}
	inner := strings.TrimSuffix(strings.TrimPrefix(ref, pBefore), pAfter)
	before, after := k.htmlBefore, k.htmlAfter
	if _, icons := c.Conf.Attrs["icons"]; icons && strings.HasPrefix(k.htmlBefore, admBefore) {
		return nil
	}
	out, _, err := conv.Convert(k.before+text+k.after, c.Conf)
	if err != nil {
		return engine.Failf("error", "the conversion failed: %v", err)
	}
	if c.Conf.Backend == "xhtml5" {
		before = strings.ReplaceAll(before, "%;\">", "%;\"/>")
	}
	want := before + inner + after + foot
	if out == want || strings.TrimSpace(squash(out)) == strings.TrimSpace(squash(want)) {
		return nil
	}
	return engine.Failf("differs", "in %s: %s\n--- output:\n%s\n--- want:\n%s", k.name, firstDiff(squash(out), squash(want)), out, want)
}

// squash leaves one space where there is white space.
func squash(s string) string {
	return strings.NewReplacer("> ", ">", " <", "<").Replace(strings.Join(htm.Words(s), " "))
}
