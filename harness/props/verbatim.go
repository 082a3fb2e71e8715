package props

import (
	"strings"

	"verif/conv"
	"verif/engine"
	"verif/gen"
	"verif/htm"
)

// ---------------------------------------------------------------------------
// P16: verbatim content is kept as it is
// ---------------------------------------------------------------------------

// verbatims are the ways to write verbatim content: what is before and after, and the delimiter.
var verbatims = []struct{ before, delim, name string }{
	{"", "----", "listing"}, {"", "-----", "listing"}, {"[listing]\n", "----", "listing"}, {"", "....", "literal"}, {"", "......", "literal"}, {"[literal]\n", "....", "literal"},
	{"[source]\n", "----", "source"}, {"[source,go]\n", "----", "source"}, {"[source,ruby]\n.Title\n", "----", "source"}, {"", "```", "fenced"}, {"", "```go", "fenced"},
	{"[#vid.vrole]\n", "----", "listing"},
}

// around are the places of verbatim content: the lines before and after, with the delimiters used.
var verbatimPlaces = []struct{ before, after, used string }{
	{"", "", ""}, {"para\n\n", "\n\npara", ""}, {"== S\n\n", "\n\n== T\n\npara", ""}, {"* item\n+\n", "\n* item", ""}, {". item\n+\n", "\n\npara", ""}, {"term:: text\n+\n", "", ""},
	{"====\n", "\n====", "===="}, {"[NOTE]\n====\npara\n\n", "\n====\n\npara", "===="}, {"____\n", "\n\npara\n____", "____"}, {"****\n", "\n****", "****"}, {"--\n", "\n--\n\npara", "--"}, {"* item\n+\n--\npara\n\n", "\n\npara\n--", "--"}, {"====\n****\n", "\n****\n====", "==== ****"},
}

func verbatim(t *engine.T) *engine.Case {
	c := &engine.Case{Conf: anyConf(t)}
	delete(c.Conf.Attrs, "source-highlighter")
	delete(c.Conf.Attrs, "unicode") // characters would be written otherwise (P33)
	if t.Chance(1, 4) {
		return verbatimParagraph(t, c)
	}
	v := verbatims[t.Intn(len(verbatims))]
	p := verbatimPlaces[t.Intn(len(verbatimPlaces))]
	c.Sub = v.name
	end := v.delim
	if v.name == "fenced" {
		end = "```"
	}
	var lines []string
	n := t.Range(1, 8)
	for i := 0; i < n; i++ {
		l := verbatimLine(t)
		if strings.TrimSpace(l) == "" && (i == 0 || i == n-1) { // removed
			l = "x"
		}
		for _, d := range strings.Fields(p.used + " " + end) {
			if strings.TrimRight(l, " \t") == d || d == "```" && strings.HasPrefix(l, d) {
				l = "x" + l
			}
		}
		lines = append(lines, l)
	}
	content := strings.Join(lines, "\n")
	head := ""
	if t.Chance(1, 4) {
		head = "= Title\n:a: b\n:toc:\n\n"
	}
	doc := func(content string) string {
		return head + p.before + v.before + v.delim + "\n" + content + "\n" + end + p.after + "\n\n{a} {x} footnote:[z] _after_\n"
	}
	c.Doc, c.Docs, c.Want = doc(content), []string{doc("zqz")}, content
	c.Label(v.name, p.used)
	c.Trivial = len(content) < 5
	return c
}

// verbatimParagraph generates a paragraph whose text is kept as it is, or a passthrough.
func verbatimParagraph(t *engine.T, c *engine.Case) *engine.Case {
	k := t.Pick("[literal]", "[source]", "[source,go]", "[listing]", "indented", "[pass]", "++++")
	c.Sub = k
	var lines []string
	for n := t.Range(1, 6); n > 0; n-- {
		l := verbatimLine(t)
		if k != "++++" && (strings.TrimSpace(l) == "" || len(lines) == 0 || t.Chance(1, 2) || isDelimiter(l)) {
			l = "zz" + l
		}
		if len(lines) == 0 && k != "++++" { // not a term
			l = strings.ReplaceAll(strings.ReplaceAll(l, "::", "."), ".:", ".")
		}
		if k == "++++" && (strings.HasPrefix(l, "++++") || l == "" && (n == 1 || len(lines) == 0)) {
			l = "zz" + l
		}
		if k == "indented" {
			l = " " + l
		}
		lines = append(lines, l)
	}
	content := strings.Join(lines, "\n")
	doc := func(content string) string {
		s := content
		switch k {
		case "indented":
		case "++++":
			s = "++++\n" + content + "\n++++"
		default:
			s = k + "\n" + content
		}
		return "= Title\n:a: b\n\n" + s + "\n\n{a} {x} footnote:[z] _after_\n"
	}
	c.Doc, c.Want = doc(content), content
	c.Docs = []string{doc("zqz")}
	if k == "indented" { // the indentation which all the lines have is removed
		c.Want = content[1:]
		c.Want = strings.ReplaceAll(c.Want, "\n ", "\n")
	}
	if k == "indented" {
		c.Docs[0] = doc(" zqz")
	}
	c.Label(k)
	c.Trivial = len(content) < 5
	return c
}

// isDelimiter tells if a line ends a paragraph, as the delimiter of a block or attributes do.
func isDelimiter(l string) bool {
	l = strings.TrimSpace(l)
	if strings.HasPrefix(l, ".") && !strings.HasPrefix(l, ". ") { // title
		return true
	}
	for _, d := range []string{"--", "==", "..", "__", "**", "++", "//", "``", "|===", ",===", "[", "+", "'"} {
		if strings.HasPrefix(l, d) {
			return true
		}
	}
	return false
}

func verbatimLine(t *engine.T) string {
	s := gen.NewSoup(t)
	s.Ban = func(x string) bool {
		return strings.Contains(x, "\r") || x == "<1>" || x == "<.>" || x == "<!--2-->" || x == "<1> " || x == "<2> " || x == "<.> " || strings.HasPrefix(x, "if") || strings.HasPrefix(x, "endif") || strings.HasPrefix(x, "include")
	}
	l := ""
	switch t.Intn(7) {
	case 0:
		l = ""
	case 1:
		l = s.Pick("----", "....", "====", "****", "____", "++++", "--", "```", "```go", "|===", "////", "-----", ".....", "=====", "------", "......", "---", "'''", "<<<", ",===", "////x", "---- x", ". . .")
	case 2:
		l = s.Pick("// x", "//", ":a: c", ":a!:", ":x: y", ":toc:", "[[x]]", "[#y]", ".t", "[source]", "= T", "== S", "=== U", "+", "* a", "- b", ". c", "x:: y", "> q", "|a |b", "NOTE: z", "image::x.png[]", "toc::[]", "[quote]", "---", "a +", "\\", "\\*b*", "\\{a}", "it\\'s \\'x", "\\(C) \\(TM) a\\...", "a \\-- b \\->", "\\https://x.org \\a@b.c", "\\_a_ \\#c# \\^d^ \\`e`", "\\<<x>> \\image:x[] \\footnote:[y]", "{a}", "{counter:c}", "footnote:[q]", "((i))", "<<x>>", "pass:[<b>]", "+++<i>+++", "&amp; &#169; &lt;", "<b>&</b>", "\t\tx", "a\tb", "é日本😀", "\u00a0x", "https://x.org[y]", "a@b.c", "(C) -- ... ->", "\"`q`\" '`r`' it's")
	case 3:
		l = strings.Repeat(s.Pick(" ", "  ", "\t"), t.Range(1, 3)) + s.Inline()
	case 4:
		l = s.Pick("[x]", "[source,go]", ".Title", ":b: ", "* ", ". ", "== ", "|", "NOTE: ", "> ", "+", "<<", "[[", "// ", "1. ", "a:: ", "\\") + s.Inline()
	default:
		l = s.Inline()
	}
	return strings.TrimRight(strings.NewReplacer("\r", "", "\n", "").Replace(l), " \t")
}

func checkVerbatim(c *engine.Case) *engine.Fail {
	if c.Sub == "[pass]" || c.Sub == "++++" {
		a, _, err := conv.Convert(c.Doc, c.Conf)
		if err != nil {
			return engine.Failf("error", "%v", err)
		}
		b, _, err := conv.Convert(c.Docs[0], c.Conf)
		if err != nil {
			return nil
		}
		b = strings.Replace(b, "zqz\n", c.Want+"\n", 1)
		if a != b {
			return engine.Failf("content", "%s", firstDiff(a, b))
		}
		return nil
	}
	a, _, err := conv.Tree(c.Doc, c.Conf)
	if err != nil {
		return err
	}
	b, _, err := conv.Tree(c.Docs[0], c.Conf)
	if err != nil {
		return nil
	}
	pres := a.ByTag("pre")
	if len(pres) != 1 {
		return engine.Failf("blocks", "there are %d verbatim blocks in the output: %s", len(pres), a.Canon())
	}
	if got := pres[0].TextContent(); got != c.Want {
		return engine.Failf("content", "got %q, want %q", got, c.Want)
	}
	empty := func(n *htm.Node) {
		if n.Tag == "pre" {
			n.Walk(func(n *htm.Node) { n.Text = "" })
		}
	}
	a.Walk(empty)
	b.Walk(empty)
	if d := htm.Diff(a.Canon(), b.Canon()); d != "" {
		return engine.Failf("around", "the content changes what is around: %s", d)
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{ID: "P16", Rule: "the content has at least 5 bytes", Quick: 15000, Thorough: 500000,
		Gen: verbatim, Check: checkVerbatim})
}
