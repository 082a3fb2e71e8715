package props

import (
	"regexp"
	"sort"
	"strings"

	"verif/conv"
	"verif/engine"
	"verif/gen"
	"verif/htm"
)

// ---------------------------------------------------------------------------
// P05: no text is lost, repeated or moved
// ---------------------------------------------------------------------------

// textTokens are the tokens of the soup where words may be.
func textToken(x string) bool {
	switch x {
	case "]", "footnote:[", "[#i]", "\x00":
		return true
	case ":icons:", "[.r]", "[.r]#", "footnote:f[", "{counter2:n}", "{set:x:y}", "//", "= ", "=T", "<<", ">>", "|", "a|", "2+|", "\ufeff", "[stripes=even]":
		return false
	}
	switch {
	case strings.HasPrefix(x, "[") && strings.HasSuffix(x, "]") && !strings.Contains(x, "[["): // attributes of blocks, without words of the text
		return !strings.Contains(x, "pass") && !strings.Contains(x, "subs")
	case strings.Contains(x, "[") && !strings.HasSuffix(x, "]"):
		return false
	case strings.Contains(x, "((") || strings.Contains(x, "//") && !strings.Contains(x, "://") || strings.Contains(x, "|"):
		return false
	case strings.HasPrefix(x, ":") && len(x) > 1 && x != "::" && x != ":::": // declarations of attributes
		return strings.HasSuffix(x, ":") && !strings.Contains(x, "manpage")
	case strings.HasPrefix(x, "ifdef") || strings.HasPrefix(x, "ifndef") || strings.HasPrefix(x, "ifeval") || strings.HasPrefix(x, "endif") || strings.HasPrefix(x, "include") || strings.HasPrefix(x, "tag::") || strings.HasPrefix(x, "end::") || strings.HasPrefix(x, "toc::"):
		return false
	case strings.HasPrefix(x, "."):
		return x == "..." || x == ".. " || x == "... " || x == ". "
	case strings.HasPrefix(x, "="):
		return strings.HasPrefix(x, "==")
	}
	return true
}

var textWord = regexp.MustCompile(`\bw[0-9]+z\b`)

// declaration is a line which declares an attribute (also between the lines of a paragraph), or a comment.
var declaration = regexp.MustCompile(`(?m)^:[\w!][\w-]*!?:([ \t]([^\n\\]|\\[ \t]*\n|\\)*)?$|^//.*$`)

// longValue is the value of an attribute which may continue on the next lines.
var longValue = regexp.MustCompile(`(?m)^(:[^\n]*)(\+\+|pass:)(\+|\[)`)

func texts(t *engine.T) *engine.Case {
	if t.Chance(1, 3) {
		c := profile{inline: gen.Inl(), blocks: gen.Bl(), perSec: 4, sects: 4, levels: 4, depth: 3}.model(t)
		c.Sub, c.Labels = "model", nil
		c.Label("model")
		return c
	}
	c := &engine.Case{Sub: "soup"}
	c.Label("soup")
	s := gen.NewSoup(t)
	s.Numbered = true
	s.Ban = func(x string) bool { return !textToken(x) }
	if t.Chance(1, 2) {
		s.Ban = func(x string) bool { return !textToken(x) || strings.Contains(x, "footnote") }
	}
	c.Doc = s.Doc(20)
	for strings.HasPrefix(c.Doc, "---") || strings.HasPrefix(c.Doc, "=") || strings.Contains(c.Doc, "\n= ") { // no header
		c.Doc = strings.ReplaceAll("x\n\n"+c.Doc, "\n= ", "\n== ")
	}
	c.Doc = strings.ReplaceAll(c.Doc, "a: [x", "a: x") // the attributes of quoted texts may be on many lines
	c.Doc = longValue.ReplaceAllString(c.Doc, "$1$2 $3")
	c.Trivial = len(textWord.FindAllString(c.Doc, 2)) < 2
	return c
}

func checkTexts(c *engine.Case) *engine.Fail {
	out, _, err := conv.Convert(c.Doc, c.Conf)
	if err != nil {
		return engine.Failf("error", "%v", err)
	}
	if c.Sub == "model" {
		return sameText(out, c.Want, conv.Mode(c.Conf))
	}
	words := textWord.FindAllString(declaration.ReplaceAllString(c.Doc, ""), -1)
	var lost []string
	for _, w := range words {
		if !strings.Contains(out, w) {
			lost = append(lost, w)
		}
	}
	if len(lost) > 0 {
		return engine.Failf("lost", "lost: %v\n--- output:\n%s", lost, out)
	}
	root, err := htm.Parse(out, conv.Mode(c.Conf))
	if err != nil {
		return nil // raw content
	}
	if strings.Contains(c.Doc, "<<") || strings.Contains(c.Doc, "xref:") { // may be the title of a section
		root.Walk(func(n *htm.Node) {
			if n.Tag == "a" && strings.HasPrefix(n.Attrs["href"], "#") {
				n.Children = nil
			}
		})
	}
	got := textWord.FindAllString(root.TextContent(), -1)
	count := map[string]int{}
	for _, w := range got {
		if count[w]++; count[w] > 1 {
			return engine.Failf("repeated", "%s is there more than once\n--- output:\n%s", w, out)
		}
	}
	if strings.Contains(c.Doc, "footnote") || strings.Contains(c.Doc, "{") {
		return nil
	}
	if !sort.SliceIsSorted(got, func(i, j int) bool { return len(got[i]) < len(got[j]) || len(got[i]) == len(got[j]) && got[i] < got[j] }) {
		return engine.Failf("order", "%v\n--- output:\n%s", got, out)
	}
	return nil
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func most(a, b int) int { return -least(-a, -b) }

// leaves are the texts of the tree, without white space.
func leaves(n *htm.Node, out []string) []string {
	n.Walk(func(x *htm.Node) {
		if x.Tag == "" {
			if w := strings.Join(htm.Words(x.Text), " "); w != "" {
				out = append(out, w)
			}
		}
	})
	return out
}

// sameText checks that two HTML fragments have the same texts, in the same order.
func sameText(got, want string, m htm.Mode) *engine.Fail {
	g, err := htm.Parse(got, m)
	if err != nil {
		return engine.Failf("markup", "%v\n--- output:\n%s", err, got)
	}
	w, err := htm.Parse(want, htm.HTML)
	if err != nil {
		w, err = htm.Parse(want, m)
	}
	if err != nil {
		return engine.Failf("model", "%v", err)
	}
	a, b := leaves(g, nil), leaves(w, nil)
	for i := range b {
		if i >= len(a) || a[i] != b[i] {
			return engine.Failf("text", "%q expected after %q\n--- output:\n%s", b[i:least(i+3, len(b))], b[most(0, i-3):i], got)
		}
	}
	if len(a) > len(b) {
		return engine.Failf("text", "%q not expected at the end\n--- output:\n%s", a[len(b):], got)
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{ID: "P05", Rule: "the document has at least two words", Quick: 20000, Thorough: 1000000,
		Gen: texts, Check: checkTexts})
}
