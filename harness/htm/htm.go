// Package htm is a strict parser for the HTML and XHTML the converter writes:
// it accepts no unbalanced tag, no unquoted attribute value and no stray markup
// character, so that "it parses" is a statement about well-formedness.
package htm

import (
	"fmt"
	"html"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"
)

// Node is an element (Tag != "") or a text.
type Node struct {
	Tag      string
	Attrs    map[string]string
	Bare     map[string]bool // attributes without a value
	Children []*Node
	Parent   *Node
	Text     string // decoded
	Raw      string // of a text, as it was written
}

var void = map[string]bool{"area": true, "base": true, "br": true, "col": true, "embed": true, "hr": true,
	"img": true, "input": true, "link": true, "meta": true, "source": true, "track": true, "wbr": true}

// Mode of the parser.
type Mode int

// The modes of the parser.
const (
	HTML Mode = iota
	XHTML
)

type parser struct {
	s    string
	i    int
	mode Mode
}

func (p *parser) errf(format string, a ...interface{}) error {
	lo, hi := p.i-60, p.i+60
	if lo < 0 {
		lo = 0
	}
	if hi > len(p.s) {
		hi = len(p.s)
	}
	return fmt.Errorf("%s at offset %d, near %q", fmt.Sprintf(format, a...), p.i, p.s[lo:hi])
}

func isName(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == ':'
}

func isSpace(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

// Parse parses a fragment or a document.
func Parse(s string, mode Mode) (*Node, error) {
	p := &parser{s: s, mode: mode}
	root := &Node{Tag: "#root"}
	cur := root
	if !utf8.ValidString(s) {
		return nil, fmt.Errorf("the output is not valid UTF-8")
	}
	for p.i < len(s) {
		if s[p.i] != '<' {
			j := strings.IndexByte(s[p.i:], '<')
			if j < 0 {
				j = len(s)
			} else {
				j += p.i
			}
			raw := s[p.i:j]
			if err := p.checkText(raw, false); err != nil {
				return nil, err
			}
			cur.Children = append(cur.Children, &Node{Raw: raw, Text: html.UnescapeString(raw), Parent: cur})
			p.i = j
			continue
		}
		if strings.HasPrefix(s[p.i:], "<!DOCTYPE html>") {
			p.i += len("<!DOCTYPE html>")
			continue
		}
		if strings.HasPrefix(s[p.i:], "</") {
			start := p.i
			p.i += 2
			name := p.name()
			if p.i >= len(s) || s[p.i] != '>' {
				return nil, p.errf("malformed end tag %q", name)
			}
			if cur.Tag != name {
				p.i = start
				return nil, p.errf("end tag </%s> while <%s> is open", name, cur.Tag)
			}
			p.i++
			cur = cur.Parent
			continue
		}
		start := p.i
		p.i++
		name := p.name()
		if name == "" {
			p.i = start
			return nil, p.errf("stray '<'")
		}
		n := &Node{Tag: name, Attrs: map[string]string{}, Bare: map[string]bool{}, Parent: cur}
		closed := false
		for {
			sp := 0
			for p.i < len(s) && isSpace(s[p.i]) {
				p.i++
				sp++
			}
			if p.i >= len(s) {
				return nil, p.errf("unterminated tag <%s", name)
			}
			if s[p.i] == '>' {
				p.i++
				break
			}
			if strings.HasPrefix(s[p.i:], "/>") {
				p.i += 2
				closed = true
				break
			}
			if sp == 0 {
				return nil, p.errf("no space before an attribute of <%s>", name)
			}
			a := p.name()
			if a == "" {
				return nil, p.errf("malformed attribute of <%s>", name)
			}
			if _, dup := n.Attrs[a]; dup {
				return nil, p.errf("duplicate attribute %q of <%s>", a, name)
			}
			if p.i >= len(s) || s[p.i] != '=' {
				if mode == XHTML {
					return nil, p.errf("attribute %q of <%s> has no value", a, name)
				}
				n.Attrs[a] = ""
				n.Bare[a] = true
				continue
			}
			p.i++
			if p.i >= len(s) || s[p.i] != '"' {
				return nil, p.errf("the value of attribute %q of <%s> is not quoted", a, name)
			}
			p.i++
			j := strings.IndexByte(s[p.i:], '"')
			if j < 0 {
				return nil, p.errf("unterminated value of attribute %q of <%s>", a, name)
			}
			raw := s[p.i : p.i+j]
			if err := p.checkText(raw, true); err != nil {
				return nil, err
			}
			n.Attrs[a] = html.UnescapeString(raw)
			p.i += j + 1
		}
		cur.Children = append(cur.Children, n)
		switch {
		case closed:
			if mode == HTML && !void[name] {
				return nil, p.errf("self-closed <%s/>", name)
			}
		case void[name]:
			if mode == XHTML {
				return nil, p.errf("<%s> is not closed", name)
			}
		default:
			cur = n
		}
	}
	if cur != root {
		return nil, p.errf("<%s> is not closed", cur.Tag)
	}
	return root, nil
}

func (p *parser) name() string {
	j := p.i
	for j < len(p.s) && isName(p.s[j]) {
		j++
	}
	n := p.s[p.i:j]
	p.i = j
	return n
}

// ambiguous is what HTML does not allow in the value of an attribute.
var ambiguous = regexp.MustCompile(`^&(#|[0-9A-Za-z]+;)`)

// checkText refuses the characters that cannot be in a text or in an attribute value.
func (p *parser) checkText(raw string, attr bool) error {
	for k := 0; k < len(raw); k++ {
		switch raw[k] {
		case '<':
			return p.errf("stray '<' in %q", raw)
		case '>':
			if !attr && p.mode == XHTML && strings.HasSuffix(raw[:k], "]]") {
				return p.errf("']]>' in %q", raw)
			}
		case '&':
			if !entity(raw[k:]) && !(attr && p.mode == HTML && !ambiguous.MatchString(raw[k:])) {
				return p.errf("stray '&' in %q", raw)
			}
		case 0:
			return p.errf("NUL character in %q", raw)
		}
	}
	return nil
}

func entity(s string) bool {
	j := strings.IndexByte(s, ';')
	if j < 2 {
		return false
	}
	b := s[1:j]
	if b[0] == '#' {
		b = b[1:]
		hex := false
		if b != "" && (b[0] == 'x' || b[0] == 'X') {
			hex = true
			b = b[1:]
		}
		if b == "" {
			return false
		}
		for _, c := range b {
			if !(c >= '0' && c <= '9' || hex && (c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F')) {
				return false
			}
		}
		return true
	}
	for _, c := range b {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return true
}

// Walk visits the node and all its descendants in document order.
func (n *Node) Walk(f func(*Node)) {
	f(n)
	for _, c := range n.Children {
		c.Walk(f)
	}
}

// TextContent is the text of the node and its descendants.
func (n *Node) TextContent() string {
	b := &strings.Builder{}
	n.Walk(func(m *Node) {
		if m.Tag == "" {
			b.WriteString(m.Text)
		}
	})
	return b.String()
}

// Find returns the elements for which f is true, in document order.
func (n *Node) Find(f func(*Node) bool) []*Node {
	var r []*Node
	n.Walk(func(m *Node) {
		if m.Tag != "" && m.Tag != "#root" && f(m) {
			r = append(r, m)
		}
	})
	return r
}

// HasClass says whether the element has the given class.
func (n *Node) HasClass(c string) bool {
	for _, x := range strings.Fields(n.Attrs["class"]) {
		if x == c {
			return true
		}
	}
	return false
}

// ByTag returns the elements with the given tag.
func (n *Node) ByTag(tag string) []*Node {
	return n.Find(func(m *Node) bool { return m.Tag == tag })
}

// ByClass returns the elements with the given class.
func (n *Node) ByClass(c string) []*Node {
	return n.Find(func(m *Node) bool { return m.HasClass(c) })
}

var block = map[string]bool{"div": true, "p": true, "ul": true, "ol": true, "li": true, "dl": true, "dt": true, "dd": true,
	"table": true, "tr": true, "td": true, "th": true, "tbody": true, "thead": true, "tfoot": true, "colgroup": true, "col": true,
	"caption": true, "h1": true, "h2": true, "h3": true, "h4": true, "h5": true, "h6": true, "h7": true, "hr": true, "br": true,
	"blockquote": true, "#root": true, "html": true, "head": true, "body": true, "meta": true, "link": true, "title": true, "pre": true}

// Canon writes the tree in a canonical form: attributes sorted, entities
// decoded, and the white space that has no meaning normalised.
func (n *Node) Canon() string {
	b := &strings.Builder{}
	canon(b, n, 0, false)
	return b.String()
}

var boolean = map[string]bool{"checked": true, "reversed": true, "disabled": true, "controls": true, "autoplay": true, "loop": true}

func canon(b *strings.Builder, n *Node, depth int, pre bool) {
	if n.Tag != "#root" {
		b.WriteString("<" + n.Tag)
		var names []string
		for a := range n.Attrs {
			names = append(names, a)
		}
		sort.Strings(names)
		for _, a := range names {
			v := n.Attrs[a]
			if boolean[a] && v == a {
				v = "" // what counts is that the attribute is there
			}
			fmt.Fprintf(b, " %s=%q", a, v)
		}
		b.WriteString(">")
		if block[n.Tag] {
			b.WriteString("\n")
		}
	}
	pre = pre || n.Tag == "pre"
	for i, c := range n.Children {
		if c.Tag != "" {
			canon(b, c, depth+1, pre)
			if block[c.Tag] {
				b.WriteString("\n")
			}
			continue
		}
		t := c.Text
		if !pre {
			left := i == 0 && block[n.Tag] || i > 0 && block[n.Children[i-1].Tag]
			right := i == len(n.Children)-1 && block[n.Tag] || i < len(n.Children)-1 && block[n.Children[i+1].Tag]
			lead := t != "" && isSpace(t[0])
			trail := t != "" && isSpace(t[len(t)-1])
			f := asciiFields(t)
			t = strings.Join(f, " ")
			if len(f) == 0 {
				if lead && !left && !right {
					t = " "
				}
			} else {
				if lead && !left {
					t = " " + t
				}
				if trail && !right {
					t += " "
				}
			}
		}
		b.WriteString(strings.ReplaceAll(t, "<", "\\<"))
	}
	if n.Tag != "#root" {
		b.WriteString("</" + n.Tag + ">")
	}
}

// asciiFields splits around ASCII white space only: a no-break space is a character.
func asciiFields(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\n' || r == '\t' || r == '\r' })
}

// Words returns the words of the text of the node.
func Words(s string) []string { return asciiFields(s) }

// Diff returns "" when the two canonical forms are the same, and else the first difference.
func Diff(got, want string) string {
	if got == want {
		return ""
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		a, b := "<end>", "<end>"
		if i < len(g) {
			a = g[i]
		}
		if i < len(w) {
			b = w[i]
		}
		if a != b && !sameWidth(a, b) {
			return fmt.Sprintf("first difference: got %q, want %q", a, b)
		}
	}
	return ""
}

// sameWidth says whether both lines are columns of the same width: how many
// decimals are written, and whether they are rounded or truncated, has no meaning.
func sameWidth(a, b string) bool {
	const col = "<col style=\"width: %f%%;\">"
	var f, g float64
	if n, err := fmt.Sscanf(a, col, &f); n != 1 || err != nil {
		return false
	}
	if n, err := fmt.Sscanf(b, col, &g); n != 1 || err != nil {
		return false
	}
	return f-g < 0.015 && g-f < 0.015
}
