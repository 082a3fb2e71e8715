package props

import (
	"fmt"
	"html"
	"regexp"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/types"

	"verif/conv"
	"verif/engine"
	"verif/gen"
	"verif/htm"
)

// sectionOptions draws how the sections of a document are.
func sectionOptions(g *gen.G, c *engine.Case) {
	o := gen.SecOptions{Roles: true, Legacy: true, Skip: g.Chance(1, 3), Toggle: true, InConf: map[string]string{}}
	if g.Chance(1, 3) {
		o.PrefixSet = true
		o.Prefix, o.Sep = g.Pick("_", "", "id-", "sec_", "X"), g.Pick("_", "-", "", ".")
		for _, kv := range [][2]string{{"idprefix", o.Prefix}, {"idseparator", o.Sep}} {
			k, v := kv[0], kv[1]
			if c.Args == nil && g.Chance(1, 4) {
				o.InConf[k] = v
				if c.Conf.Attrs == nil {
					c.Conf.Attrs = map[string]string{}
				}
				c.Conf.Attrs[k] = v
			}
		}
		g.Kinds["idprefix"] = true
	}
	o.Title = map[string]int{"punct": 1}
	g.Sections = o
}

// titleNote is a footnote in the title of a block.
var titleNote = regexp.MustCompile(`(?m)^\.[^ .\n].*footnote:`)

func init() {
	inl, bl := gen.Inl(), gen.Bl()
	engine.Register(&engine.Prop{ID: "P11", Rule: "the table of contents has at least two entries",
		Quick: 10000, Thorough: 400000, Check: checkTOC,
		Gen: profile{
			inline: gen.Only(inl, "word", "bold", "italic", "mono", "punct"), blocks: map[string]int{"para": 8, "ulist": 1, "comment": 1},
			sects: 12, levels: 5, perSec: 1, always: true,
			prepare: func(g *gen.G, c *engine.Case) {
				sectionOptions(g, c)
				o := &g.Sections
				o.TOC = true
				o.Rich = gen.Only(inl, "word", "bold", "url", "link", "sub", "sup", "symbol", "apos", "dquote", "squote", "icon", "anchor", "role", "special")
				for _, kv := range [][2]string{{"toc", g.Pick("", "preamble")}, {"toclevels", g.Pick("1", "2", "3", "5")}, {"toc-title", g.Pick("Contents", "In this document")}, {"sectnums", ""}, {"numbered", ""}} {
					if g.Chance(1, 6) {
						o.InConf[kv[0]] = kv[1]
						if c.Conf.Attrs == nil {
							c.Conf.Attrs = map[string]string{}
						}
						c.Conf.Attrs[kv[0]] = kv[1]
					}
				}
			},
			finish: func(g *gen.G, c *engine.Case) {
				c.Wants = g.TOC
				c.Trivial = len(g.TOC) < 2
			},
		}.model,
		Assume: []string{"the expected HTML and entries are built by the generator from the plan of the sections"}})
	simple := map[string]int{"para": 8, "ulist": 1, "example": 1, "listing": 1, "comment": 1}
	outline := profile{
		inline: gen.Only(inl, "word", "bold", "italic", "mono", "punct"), blocks: simple,
		sects: 12, levels: 5, perSec: 2, always: true, prepare: sectionOptions,
		need: []string{"section-level-1", "section-level-2", "section-level-3"},
	}
	engine.Register(&engine.Prop{ID: "P10", Rule: "the document has at least two sections",
		Quick: 16000, Thorough: 500000,
		Gen: func(t *engine.T) *engine.Case {
			if t.Chance(3, 4) {
				return outline.model(t)
			}
			return titleSoup(t)
		},
		Check: func(c *engine.Case) *engine.Fail {
			if c.Sub != "soup" {
				return checkWant(c)
			}
			return checkTitleSoup(c)
		},
		Assume: []string{"the expected HTML is built by the generator, side by side with the document, from the same choices; output and expectation are compared as trees, up to white space without meaning in HTML"}})
	refs := profile{
		inline: gen.Boost(gen.Only(inl, "word", "bold", "italic", "mono", "xref", "footnote", "anchor", "image"), 3, "xref"),
		blocks: gen.Without(bl, "mdquote"), sects: 6, levels: 4, perSec: 3, always: true,
		prepare: func(g *gen.G, c *engine.Case) {
			sectionOptions(g, c)
			if g.Chance(1, 4) {
				setConf(c, "imagesdir", "img")
				g.ImagesDir = "img/"
			}
			for i, n := 0, g.Range(0, 5); i < n; i++ {
				g.Reserve = append(g.Reserve, fmt.Sprintf("ref%d", i))
			}
		},
		need: []string{"xref"},
	}
	engine.Register(&engine.Prop{ID: "P09", Rule: "the document has at least one cross reference, or (soups) the output has at least two identifiers",
		Quick: 14000, Thorough: 500000,
		Gen: func(t *engine.T) *engine.Case {
			if t.Chance(2, 3) {
				return refs.model(t)
			}
			c := &engine.Case{Sub: "soup", Conf: anyConf(t)}
			delete(c.Conf.Attrs, "toc") // known finding: footnotes in titles of sections
			s := gen.NewSoup(t)
			s.Ban = func(x string) bool {
				return gen.Raw(x) || strings.Contains(x, "[[") || strings.Contains(x, "[#") || strings.Contains(x, "id=") || strings.Contains(x, "anchor:") || strings.Contains(x, ":toc:") || strings.Contains(x, "#")
			}
			c.Doc = s.Doc(25)
			for n := t.Intn(4); n > 0; n-- {
				c.Doc += "\n\n" + t.Pick("== ", "=== ", "==== ") + t.Pick("foo", "Foo", "foo bar", "foo-bar", "_foo_ bar", "foo 2", "*foo*") + "\n\n" + s.Inline()
			}
			c.Label("soup")
			c.Trivial = false
			return c
		},
		Check:  checkReferences,
		Assume: []string{"the expected HTML is built by the generator, side by side with the document, from the same choices", "the identifiers of the soups are those which the converter makes"},
	})
}

// titleSoup is a document of titles and paragraphs with any markup on their lines.
func titleSoup(t *engine.T) *engine.Case {
	c := &engine.Case{Sub: "soup"}
	s := gen.NewSoup(t)
	s.Ban = func(x string) bool {
		return !textToken(x) || strings.Contains(x, "\n") || strings.Contains(x, "[[") || strings.Contains(x, "::")
	}
	b := &strings.Builder{}
	n := t.Range(1, 5)
	for i := 1; i <= n; i++ {
		l := t.Pick("== ", "=== ", "==== ", "===== ", "====== ")
		if i == 1 && t.Chance(1, 4) {
			l = "= "
		}
		fmt.Fprintf(b, "%st%dz %s\n", l, i, s.Inline())
		if l == "= " || t.Chance(1, 2) {
			b.WriteString("\n")
		}
		fmt.Fprintf(b, "p%dz %s\n", i, s.Inline())
		if t.Chance(1, 3) {
			fmt.Fprintf(b, "q%dz %s\n", i, s.Inline())
		}
		b.WriteString("\n")
	}
	c.Doc = b.String()
	for strings.Contains(c.Doc, "::") { // labeled lists
		c.Doc = strings.ReplaceAll(c.Doc, "::", ":")
	}
	c.Label("soup")
	c.Trivial = n < 2
	return c
}

// the second line of a paragraph may be in a footnote, but not in a title.
var titleWord, paraWord = regexp.MustCompile(`\b[tpq][0-9]z\b`), regexp.MustCompile(`\b[tp][0-9]z\b`)

// checkTitleSoup checks that the titles are the lines of the titles, and what follows are the paragraphs.
func checkTitleSoup(c *engine.Case) *engine.Fail {
	c2 := c.Conf
	c2.Wrap = true
	out, _, err := conv.Convert(c.Doc, c2)
	if err != nil {
		return engine.Failf("error", "the conversion failed: %v", err)
	}
	n, err := htm.Parse(out, conv.Mode(c.Conf))
	if err != nil {
		return nil // see P07
	}
	var got []string
	n.Walk(func(e *htm.Node) {
		switch {
		case len(e.Tag) == 2 && e.Tag[0] == 'h' && e.Tag[1] >= '1' && e.Tag[1] <= '6':
			got = append(got, "title: "+strings.Join(titleWord.FindAllString(e.TextContent(), -1), " "))
		case e.Tag == "p":
			if w := paraWord.FindAllString(e.TextContent(), -1); len(w) > 0 {
				got = append(got, strings.Join(w, " "))
			}
		}
	})
	var want []string
	for _, l := range strings.Split(c.Doc, "\n") {
		if w := paraWord.FindAllString(l, -1); len(w) > 0 {
			if w[0][0] == 't' {
				w[0] = "title: " + w[0]
			}
			want = append(want, strings.Join(w, " "))
		}
	}
	if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); g != w {
		return engine.Failf("titles", "%s\n--- output:\n%s", firstDiff(g, w), out)
	}
	return nil
}

// checkTOC checks the document, and the table of contents in the metadata.
func checkTOC(c *engine.Case) *engine.Fail {
	out, md, err := conv.Convert(c.Doc, c.Conf)
	if err != nil {
		return engine.Failf("error", "the conversion failed: %v", err)
	}
	if f := conv.SameHTML(out, c.Want, conv.Mode(c.Conf)); f != nil {
		return f
	}
	var got []string
	var walk func(s []*types.ToCSection)
	walk = func(s []*types.ToCSection) {
		for _, e := range s {
			got = append(got, fmt.Sprintf("%d #%s %s %s", e.Level, strings.ToLower(e.ID), e.Number, e.Title))
			walk(e.Children)
		}
	}
	if md.TableOfContents != nil {
		walk(md.TableOfContents.Sections)
	}
	for i := range got {
		got[i] = strings.ReplaceAll(got[i], "/>", ">")
	}
	g, w := squash(html.UnescapeString(strings.Join(got, "\n"))), squash(html.UnescapeString(strings.Join(c.Wants, "\n")))
	if g != w {
		return engine.Failf("metadata", "%s\n--- got:\n%s\n--- want:\n%s", firstDiff(g, w), strings.Join(got, "\n"), strings.Join(c.Wants, "\n"))
	}
	return nil
}

// checkReferences checks the document against the model, or that identifiers are unique and resolve.
func checkReferences(c *engine.Case) *engine.Fail {
	if c.Sub != "soup" {
		return checkWant(c)
	}
	out, _, err := conv.Convert(c.Doc, c.Conf)
	if err != nil || specialRole(c.Doc) {
		return nil
	}
	n, err := htm.Parse(out, conv.Mode(c.Conf))
	if err != nil {
		return nil // see P07
	}
	ids := map[string]bool{}
	dup := ""
	n.Walk(func(e *htm.Node) {
		id, found := e.Attrs["id"]
		if !found {
			return
		}
		if ids[id] {
			dup = id
		}
		ids[id] = true
	})
	if dup != "" {
		return engine.Failf("duplicate", "the identifier %q is repeated\n--- output:\n%s", dup, out)
	}
	if titleNote.MatchString(c.Doc) { // it is not rendered where an element has no title
		return nil
	}
	bad := ""
	n.Walk(func(e *htm.Node) {
		h := e.Attrs["href"]
		if strings.HasPrefix(h, "#_footnote") && !ids[h[1:]] {
			bad = h
		}
	})
	if bad != "" {
		return engine.Failf("dangling", "the reference %q has no target\n--- output:\n%s", bad, out)
	}
	return nil
}
