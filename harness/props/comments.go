package props

import (
	"strings"

	"verif/conv"
	"verif/engine"
	"verif/gen"
)

// ---------------------------------------------------------------------------
// P17: comments have no effect
// ---------------------------------------------------------------------------

// comments generates a document, and the same with comments.
func comments(t *engine.T) *engine.Case {
	g := gen.New(t)
	g.W, g.B = gen.Inl(), gen.Without(gen.Bl(), "verse", "versepara")
	g.Marks, g.XML = true, true
	c := &engine.Case{Conf: anyConf(t)}
	if t.Chance(1, 2) {
		c.Doc = g.Document(gen.Top(), 3, 3, 3).Source(g)
		g.Kinds["document"] = true
	} else {
		c.Doc = "\x03\n" + g.Blocks(gen.Top(), 1, 4).S + "\n"
	}
	n := 0
	var plain, with []string
	for _, l := range strings.Split(c.Doc, "\n") {
		if l != "\x02" && l != "\x03" && l != "\x04" {
			plain, with = append(plain, l), append(with, l)
			continue
		}
		if !t.Chance(1, 3) {
			continue
		}
		n++
		if l == "\x02" {
			for i := t.Range(1, 2); i > 0; i-- {
				with = append(with, commentLine(t))
			}
			c.Label("within")
			continue
		}
		if l == "\x04" {
			with = append(with, "+")
			if t.Chance(1, 3) {
				with = append(with, commentLine(t))
			} else {
				with = append(with, commentBlock(t)...)
			}
			c.Label("attached")
			continue
		}
		for i := t.Range(1, 2); i > 0; i-- {
			if t.Chance(1, 2) {
				with = append(with, commentLine(t))
				c.Label("line")
			} else {
				with = append(with, commentBlock(t)...)
				c.Label("block")
			}
			if t.Chance(1, 3) {
				with = append(with, "")
			}
		}
	}
	c.Doc, c.Docs = strings.Join(plain, "\n"), []string{strings.Join(with, "\n")}
	c.Trivial = n == 0
	return c
}

// junk is any text on a line.
func junk(t *engine.T) string {
	s := gen.NewSoup(t)
	l := s.Pick("", "", "", "* ", "= ", "== ", ". ", "|", "x:: ", ":a: ", ".", "[", "----", "|===", "+", "> ", "NOTE: ") + s.Inline()
	return strings.Trim(strings.NewReplacer("\n", " ", "\r", " ", "////", "//").Replace(l), " \t")
}

func commentLine(t *engine.T) string {
	if t.Chance(1, 10) {
		return "//"
	}
	if t.Chance(1, 5) {
		return "//" + t.Pick("x", "-", "*", ".", "[", "!") + junk(t)
	}
	return "// " + junk(t)
}

func commentBlock(t *engine.T) []string {
	d := strings.Repeat("/", t.Range(4, 5))
	r := []string{d}
	for n := t.Intn(5); n > 0; n-- {
		l := junk(t)
		switch t.Intn(6) {
		case 0:
			l = ""
		case 1:
			l = t.Pick("----", "|===", "....", "++++", "* x", ":toc:", ":a: b", ":sectnums:", "= T", "== S", "[[id-1]]", ".Title", "'''", "```", "// c")
		}
		if strings.HasPrefix(l, "//") {
			l = " " + l
		}
		r = append(r, l)
	}
	return append(r, d)
}

func checkComments(c *engine.Case) *engine.Fail {
	a, _, aerr := conv.Convert(c.Doc, c.Conf)
	b, _, berr := conv.Convert(c.Docs[0], c.Conf)
	if (aerr == nil) != (berr == nil) {
		return engine.Failf("error", "%v\n--- with comments: %v\n--- altered:\n%s", aerr, berr, c.Docs[0])
	}
	if a != b {
		if f := conv.SameHTML(b, a, conv.Mode(c.Conf)); f != nil {
			f.Msg += "\n--- altered:\n" + c.Docs[0]
			return f
		}
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{ID: "P17", Rule: "at least one comment was put in the document", Quick: 12000, Thorough: 500000,
		Gen: comments, Check: checkComments})
}
