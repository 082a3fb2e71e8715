package props

import (
	"regexp"
	"strings"

	"verif/conv"
	"verif/engine"
	"verif/htm"
)

// ---------------------------------------------------------------------------
// P30: highlighting a source adds markup only
// ---------------------------------------------------------------------------

var languages = []string{"go", "ruby", "java", "c", "cpp", "python", "bash", "sh", "console", "yaml", "json", "xml", "html", "css", "js", "javascript", "typescript", "sql", "rust", "diff", "ini", "makefile", "docker", "markdown", "text", "plaintext", "unknown-x", "Go", "c++", "c#", "kotlin", "perl", "php", "haskell", "lisp", "toml", "groovy", "scala"}

// codeLine is a line which looks like source code, or not.
func codeLine(t *engine.T) string {
	b := &strings.Builder{}
	b.WriteString(t.Pick("", "", "", "  ", "    ", "\t", "\t\t", " \t "))
	for n := t.Range(0, 8); n > 0; n-- {
		switch t.Intn(4) {
		case 0:
			b.WriteString(t.Pick("func", "if", "return", "x", "foo", "Bar", "0x1F", "1.5e3", "42", "import", "class", "def", "end", "é", "😀", "\u00a0", "…", "日本"))
		case 1:
			b.WriteString(t.Pick("\"a\"", "'b'", "`c`", "\"", "'", "`", "\"\"\"", "\\", "\\n", "\\\"", "// c", "# c", "/*", "*/", "-- c", "<!--", "-->", ";; c", "#include <x.h>", "%", "$x", "${y}", "@z"))
		case 2:
			b.WriteString(t.Pick("{", "}", "(", ")", "[", "]", "<", ">", "&", "&amp;", "&#39;", "<b>", "</b>", "=", ":=", "->", "=>", "==", "!=", ";", ",", ".", ":", "+", "-", "*", "/", "|", "~", "^", "_", "!", "?"))
		default:
			b.WriteString(t.Pick(" ", " ", " ", "\t", "  "))
		}
	}
	if s := b.String(); s != "" && s != "--" && !isDelimiter(s) {
		return s
	}
	return t.Pick("", "zz")
}

// sources is a document with blocks of source code.
func sources(t *engine.T, c *engine.Case) string {
	b := &strings.Builder{}
	for n := t.Range(1, 4); n > 0; n-- {
		callout := 0
		lines := make([]string, t.Range(1, 8))
		for i := range lines {
			lines[i] = codeLine(t)
			if t.Chance(1, 8) && callout < 4 {
				callout++
				lines[i] += t.Pick(" ", "", "  // ") + "<" + string(rune('0'+callout)) + ">"
				c.Label("callout")
				for callout < 4 && t.Chance(1, 3) {
					callout++
					lines[i] += t.Pick(" ", "", "  ") + "<" + string(rune('0'+callout)) + ">"
					c.Label("callouts on a line")
				}
			}
		}
		if strings.TrimSpace(lines[0]) == "" {
			lines[0] = "zz"
		}
		if strings.TrimSpace(lines[len(lines)-1]) == "" {
			lines[len(lines)-1] = "zz"
		}
		content := strings.Join(lines, "\n")
		lang := t.Pick(languages...)
		c.Label(lang)
		switch t.Intn(5) {
		case 0:
			b.WriteString("```" + lang + "\n" + content + "\n```")
		case 1:
			b.WriteString("* item\n+\n[source," + lang + "]\n----\n" + content + "\n----")
		case 2:
			b.WriteString("[source," + lang + t.Pick(",linenums", ",subs=\"+quotes\"", ",subs=\"+attributes\"", ",subs=\"verbatim\"", ",subs=\"normal\"") + "]\n----\n" + content + "\n----")
		default:
			b.WriteString(t.Pick("", ".A title\n", "[#i.r]\n") + "[source" + t.Pick("", "", "%nowrap") + "," + lang + "]\n----\n" + content + "\n----")
		}
		b.WriteString("\n\n")
		for i := 1; i <= callout; i++ {
			b.WriteString("<" + string(rune('0'+i)) + "> note\n")
		}
		b.WriteString("\nafter *b* {a}\n\n")
	}
	return b.String()
}

// the newline which the lexers add to comments is kept before callouts (as the tests of the project have it)
var beforeCallout = regexp.MustCompile(`\n((?:</span>)*)<b class="conum">`)

// unhighlighted is the tree without what the highlighter adds, if it adds nothing but spans.
func unhighlighted(out string, c engine.Conf, highlighter string) (*htm.Node, *engine.Fail) {
	n, err := htm.Parse(beforeCallout.ReplaceAllString(out, `$1<b class="conum">`), conv.Mode(c))
	if err != nil {
		return nil, engine.Failf("malformed", "the output with %q is malformed: %s\n--- output:\n%s", highlighter, err, out)
	}
	for _, pre := range n.ByTag("pre") {
		if !pre.HasClass("highlight") {
			continue
		}
		classes := strings.Fields(pre.Attrs["class"])
		var keep []string
		for _, x := range classes {
			if x != highlighter {
				keep = append(keep, x)
			}
		}
		pre.Attrs["class"] = strings.Join(keep, " ")
		for _, code := range pre.ByTag("code") {
			delete(code.Attrs, "class")
			flatten(code)
		}
	}
	return n, nil
}

// flatten replaces the spans within the element with their contents, and joins the texts.
func flatten(n *htm.Node) {
	var children []*htm.Node
	var add func(list []*htm.Node)
	add = func(list []*htm.Node) {
		for _, m := range list {
			_, style := m.Attrs["style"]
			switch {
			case m.Tag == "span" && len(m.Attrs) == 1 && (style || strings.HasPrefix(m.Attrs["class"], "tok-")):
				add(m.Children)
			case m.Tag == "" && len(children) > 0 && children[len(children)-1].Tag == "":
				last := *children[len(children)-1]
				last.Text += m.Text
				children[len(children)-1] = &last
			default:
				if m.Tag != "" {
					flatten(m)
				}
				children = append(children, m)
			}
		}
	}
	add(n.Children)
	n.Children = children
}

func init() {
	engine.Register(&engine.Prop{ID: "P30", Rule: "a source block with at least ten characters and a language which the highlighter knows",
		Quick: 12000, Thorough: 600000,
		Gen: func(t *engine.T) *engine.Case {
			c := &engine.Case{Conf: anyConf(t)}
			delete(c.Conf.Attrs, "source-highlighter")
			delete(c.Conf.Attrs, "doctype")
			if t.Chance(1, 5) {
				_, c.Doc = anyModel(t)
				c.Sub = "model"
			} else {
				c.Doc = sources(t, c)
				c.Sub = "sources"
			}
			h := t.Pick("chroma", "pygments")
			c.Args = []string{h}
			attrs := map[string]string{"source-highlighter": h}
			if t.Chance(1, 3) {
				attrs[h+"-css"] = t.Pick("style", "class")
			}
			if t.Chance(1, 3) {
				attrs[h+"-style"] = t.Pick("manni", "monokai", "github", "bw", "unknown")
			}
			for k, v := range c.Conf.Attrs {
				attrs[k] = v
			}
			with := c.Conf
			with.Attrs = attrs
			c.Confs = []engine.Conf{with}
			c.Trivial = !strings.Contains(c.Doc, "source") && !strings.Contains(c.Doc, "```")
			return c
		},
		Check: func(c *engine.Case) *engine.Fail {
			plain, _, err := conv.Convert(c.Doc, c.Conf)
			if err != nil {
				return nil // not about this property
			}
			out, _, err := conv.Convert(c.Doc, c.Confs[0])
			if err != nil {
				return engine.Failf("error", "the conversion with the highlighter failed: %s", err)
			}
			want, f := unhighlighted(plain, c.Conf, c.Args[0])
			if f != nil {
				return nil // not about this property
			}
			got, f := unhighlighted(out, c.Conf, c.Args[0])
			if f != nil {
				return f
			}
			if d := htm.Diff(got.Canon(), want.Canon()); d != "" {
				return engine.Failf("text", "with the highlighter, %s\n--- output:\n%s\n--- want:\n%s", d, out, plain)
			}
			return nil
		},
		Assume: []string{"the newline which some lexers add to a comment is ignored when callouts follow (known, since the tests of the project expect it)", "with a wrapper, both conversions have the same date of update"},
	})
}
