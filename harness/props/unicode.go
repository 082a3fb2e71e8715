package props

import (
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/conv"
	"verif/engine"
	"verif/htm"
)

// ---------------------------------------------------------------------------
// P33: output without characters out of ASCII
// ---------------------------------------------------------------------------

var charRef = regexp.MustCompile(`&#(\d{1,7});`)

var spaces = regexp.MustCompile(`[\pZ\s\x0b\x85]+`)

// decoded replaces the references to characters which are not printable ASCII.
func decoded(s string) string {
	return charRef.ReplaceAllStringFunc(s, func(r string) string {
		n, _ := strconv.Atoi(r[2 : len(r)-1])
		if (n < 32 || n > 126) && utf8.ValidRune(rune(n)) {
			return string(rune(n))
		}
		return r
	})
}

func withoutUnicode(t *engine.T) *engine.Case {
	c := &engine.Case{Conf: anyConf(t)}
	delete(c.Conf.Attrs, "unicode")
	if t.Chance(1, 2) {
		_, c.Doc = anyModel(t)
		c.Sub = "model"
		c.Conf.Wrap = false
		delete(c.Conf.Attrs, "source-highlighter")
	} else {
		var class string
		c.Doc, class = anyDoc(t, 20)
		c.Label(class)
	}
	c.Doc = strings.ToValidUTF8(c.Doc, "é")
	for _, w := range []string{"kal", "ven", "mi", "tor", "w1", "x"} {
		if t.Chance(1, 3) {
			c.Doc = strings.ReplaceAll(c.Doc, w, t.Pick("été", "日本", "😀", "λx", "x\u0301", "z\u00a0z", "y\u2028y"))
		}
	}
	c.Args = []string{t.Pick("false", "false", "false", "0", "F", "FALSE", "False", "f", "true", "1", "", "T", "yes")}
	c.Trivial = true
	for i := 0; i < len(c.Doc); i++ {
		if c.Doc[i] > 127 {
			c.Trivial = false
		}
	}
	return c
}

func checkWithoutUnicode(c *engine.Case) *engine.Fail {
	a, _, err1 := conv.Convert(c.Doc, c.Conf)
	conf := c.Conf
	conf.Attrs = map[string]string{"unicode": c.Args[0]}
	for k, v := range c.Conf.Attrs {
		conf.Attrs[k] = v
	}
	b, _, err2 := conv.Convert(c.Doc, conf)
	if (err1 == nil) != (err2 == nil) {
		return engine.Failf("error", "errors: %v and %v", err1, err2)
	}
	if err1 != nil {
		return nil
	}
	off, err := strconv.ParseBool(c.Args[0])
	off = err == nil && !off
	if !off && a != b {
		return engine.Failf("on", "the output changed although the attribute is not false\n--- without:\n%s\n--- with:\n%s", a, b)
	}
	// known finding: spaces out of ASCII are trimmed, not the references to them
	if x, y := spaces.ReplaceAllString(decoded(a), ""), spaces.ReplaceAllString(decoded(b), ""); x != y {
		return engine.Failf("differs", "%s\n--- without:\n%s\n--- with:\n%s", firstDiff(x, y), a, b)
	}
	if off && c.Sub == "model" && !strings.Contains(c.Doc, "+") && !strings.Contains(c.Doc, "pass") {
		root, err := htm.Parse(b, conv.Mode(conf))
		if err != nil {
			return nil
		}
		var f *engine.Fail
		root.Walk(func(n *htm.Node) {
			if n.Tag != "" || f != nil || n.Parent == nil {
				return
			}
			switch n.Parent.Tag {
			case "p", "strong", "em", "code", "mark", "pre", "sub", "sup", "h2", "h3", "h4", "h5", "h6", "dt":
			default:
				return
			}
			for p := n.Parent; p != nil; p = p.Parent {
				if p.Tag == "a" || p.Tag == "span" || p.Tag == "b" || p.HasClass("title") || p.HasClass("menuref") || p.HasClass("menuseq") {
					return
				}
			}
			for i := 0; i < len(n.Raw); i++ {
				if n.Raw[i] > 127 {
					f = engine.Failf("ascii", "the text %q is not in ASCII\n--- output:\n%s", n.Raw, b)
					return
				}
			}
		})
		return f
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{ID: "P33", Rule: "the document has characters out of ASCII", Gen: withoutUnicode, Check: checkWithoutUnicode,
		Quick: 12000, Thorough: 400000})
}
