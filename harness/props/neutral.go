package props

import (
	"regexp"
	"strings"

	"verif/conv"
	"verif/engine"
)

// ---------------------------------------------------------------------------
// P25: white space without meaning
// ---------------------------------------------------------------------------

// blank is a line which is empty, or only white space.
func blank(l string) bool { return strings.Trim(l, " \t\r") == "" }

func whitespace(t *engine.T) *engine.Case {
	c := &engine.Case{Conf: anyConf(t)}
	var class string
	if t.Chance(1, 3) {
		c.Doc, class = anyDoc(t, 20)
	} else {
		_, c.Doc = anyModel(t)
		class = "well-formed"
	}
	c.Doc = strings.ReplaceAll(c.Doc, "\r", "")
	c.Label(class)
	lines := strings.Split(c.Doc, "\n")
	c.Sub = t.Pick("crlf", "end", "trailing", "blank", "start")
	if class != "well-formed" && (c.Sub == "trailing" || c.Sub == "blank") {
		c.Sub = t.Pick("crlf", "end", "start")
	}
	if c.Sub == "start" && strings.HasPrefix(c.Doc, "---") { // the front matter is at the very beginning
		c.Sub = "crlf"
	}
	if c.Sub == "end" && strings.HasSuffix(strings.TrimRight(c.Doc, " \t\n"), "\n+") || c.Sub == "end" && class != "well-formed" && strings.Contains(c.Doc, "|===") { // a list continuation with nothing, a table without an end
		c.Sub = "crlf"
	}
	d := c.Doc
	switch c.Sub {
	case "crlf":
		d = strings.ReplaceAll(d, "\n", "\r\n")
	case "end":
		d = strings.TrimRight(d, "\n")
		if t.Chance(2, 3) {
			for n := t.Range(1, 4); n > 0; n-- {
				d += t.Pick("\n", "\n", "\n  ", "\n\t")
			}
			d += "\n"
		}
	case "start":
		for n := t.Range(1, 3); n > 0; n-- {
			d = "\n" + d
		}
	case "trailing":
		for i := range lines {
			if t.Chance(1, 3) {
				lines[i] += t.Pick(" ", "  ", "\t", " \t ")
			}
		}
		d = strings.Join(lines, "\n")
	case "blank":
		in := inBlocks(lines)
		var out []string
		for i, l := range lines {
			out = append(out, l)
			next := ""
			for j := i + 1; j < len(lines) && blank(next); j++ {
				next = lines[j]
			}
			// the number of blank lines before a '+' says which list it continues
			if blank(l) && !in[i] && i > 0 && i < len(lines)-1 && t.Chance(1, 2) && next != "+" {
				for n := t.Range(1, 3); n > 0; n-- {
					out = append(out, t.Pick("", "", " ", "\t"))
				}
			}
		}
		d = strings.Join(out, "\n")
	}
	c.Docs = []string{d}
	c.Label(c.Sub)
	c.Trivial = d == c.Doc || len(c.Doc) < 10
	return c
}

var trailing = regexp.MustCompile(`[ \t]+(\n|<|"|$)`)

func checkWhitespace(c *engine.Case) *engine.Fail {
	a, _, aerr := conv.Convert(c.Doc, c.Conf)
	b, _, berr := conv.Convert(c.Docs[0], c.Conf)
	if (aerr == nil) != (berr == nil) {
		return engine.Failf("error", "%v\n--- with %s: %v", aerr, c.Sub, berr)
	}
	a, b = strings.TrimRight(a, "\n"), strings.TrimRight(b, "\n")
	if c.Sub == "trailing" && a != b {
		a, b = trailing.ReplaceAllString(a, "$1"), trailing.ReplaceAllString(b, "$1")
	}
	if a != b {
		return engine.Failf("differs", "with %s: %s\n--- output:\n%s\n--- want:\n%s\n--- altered:\n%q", c.Sub, firstDiff(b, a), b, a, c.Docs[0])
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{ID: "P25", Rule: "the document was altered", Quick: 12000, Thorough: 500000,
		Gen: whitespace, Check: checkWhitespace})
}
