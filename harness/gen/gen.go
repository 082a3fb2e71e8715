// Package gen generates AsciiDoc text together with the HTML it stands for:
// every function returns both, built side by side from the same choices, so
// that the pair is a reference model of the converter which is evaluated while
// the document is generated, and which does not parse anything.
package gen

import (
	"fmt"
	"strings"

	"verif/engine"
)

// In is a piece of inline content.
type In struct {
	S string // AsciiDoc
	H string // HTML
	T string // text without markup (what remains in a plain-text context)
}

// Block is a block with its source lines and its HTML.
type Block struct {
	S    string // without the final newline
	H    string
	Kind string
}

// G generates the content of one document.
type G struct {
	*engine.T
	// W are the weights of the kinds of inline content; nil means plain words only
	W map[string]int
	// B are the weights of the kinds of block
	B map[string]int
	// Attrs are attributes which can be referred to; the values are plain words
	Attrs map[string]string
	// Backend-independent state
	n          int
	Footnotes  []string // HTML of the content of the footnotes
	fnNames    map[string]int
	multi      bool // where inline content may be on many lines
	noFootnote int  // > 0: where footnotes are not generated
	noStyle    int  // > 0: where unknown styles are not generated
	noID       int  // > 0: where the attributes in the short form are already there
	noRole     int  // > 0: where the attributes of formatted texts are not generated
	Examples   int
	Figures    int
	Tables     int
	ids        int
	Kinds      map[string]bool // what was generated
	// Link targets that may be used by xrefs: id -> HTML of the title
	Targets []Target
	// Identifiers which blocks may take, and the labels of those which took them
	Lost           bool // now and then, the title of a comment or of a section has a footnote
	BlankAfterPlus bool // now and then, a blank line follows the `+` of a list
	Reserve        []string
	labels         map[string]string
	TOC            []string // entries of the table of contents
	// How the sections are drawn
	Sections SecOptions
	NoTitle  bool // no titles on blocks
	plain    int
	Macros   []string // names of the user macros
	Unicode  bool     // words may contain characters out of ASCII
	XML      bool     // the back-end writes XHTML
	// where images and icons are, with a final slash, and how icons are drawn
	ImagesDir, IconsDir, IconType, Icons string
	// Captions of tables and figures, when they are not the default ones: the texts, and whether they are set
	Captions map[string]string
	// Marks asks for lines which say where comments may be: "\x02" between lines of
	// texts and items of lists, "\x03" before blocks and sections, and "\x04" where
	// they may be attached to the item of a list
	Marks bool
}

// SecOptions are the options of the sections of a document.
type SecOptions struct {
	Skip        bool // levels may be skipped
	Roles       bool
	Legacy      bool // identifiers at the end of titles
	Toggle      bool // sections are numbered or not within the document
	Prefix, Sep string
	PrefixSet   bool // Prefix and Sep are not the default ones
	InConf      map[string]string
	Title       map[string]int // kinds of content of the titles
	Rich        map[string]int // kinds of content of the titles of sections with explicit identifiers
	TOC         bool           // there is a table of contents, maybe because of the configuration
}

// TakeID returns an identifier for a block: one of those which are referred to, if there are.
func (g *G) TakeID() (string, bool) {
	if n := len(g.Reserve); n > 0 && g.Chance(2, 3) {
		i := g.Intn(n)
		id := g.Reserve[i]
		g.Reserve = append(append([]string{}, g.Reserve[:i]...), g.Reserve[i+1:]...)
		return id, true
	}
	return g.ID(), false
}

// label records the label of the block which has the identifier.
func (g *G) label2(id, html string) {
	if g.labels == nil {
		g.labels = map[string]string{}
	}
	if html != "" {
		g.labels[id] = html
	}
}

// Resolve replaces the references to reserved identifiers.
func (g *G) Resolve(html string) string {
	parts := strings.Split(html, "\x01")
	for i := 1; i < len(parts); i += 2 {
		l, found := g.labels[parts[i]]
		if !found {
			l = "[" + parts[i] + "]"
		}
		parts[i] = `<a href="#` + parts[i] + `">` + l + `</a>`
	}
	return strings.Join(parts, "")
}

// Target is something an internal cross reference may point to.
type Target struct {
	ID, Label string // Label: HTML of its title, or "" when it has none
	Natural   string // the title by which it may be referred to
	Deferred  bool   // the label is not known yet
}

// New returns a generator.
func New(t *engine.T) *G {
	return &G{T: t, Kinds: map[string]bool{}, fnNames: map[string]int{}, Attrs: map[string]string{}}
}

// mark returns the line which says where comments may be.
func (g *G) mark(m string) string {
	if g.Marks {
		return m + "\n"
	}
	return ""
}

func (g *G) kind(k string) { g.Kinds[k] = true }

// KindList returns the kinds of content which were generated.
func (g *G) KindList(prefix string) []string {
	var r []string
	for k := range g.Kinds {
		r = append(r, prefix+k)
	}
	return sorted(r)
}

func sorted(s []string) []string {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
	return s
}

// Esc escapes the special characters of HTML, as they are escaped in a text.
func Esc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

// EscAttr escapes a text for an attribute value.
func EscAttr(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&#34;").Replace(s)
}

// Word returns a fresh plain word, which occurs nowhere else in the document.
func (g *G) Word() string {
	g.n++
	base := g.Pick("kal", "ven", "tor", "mi", "sed", "dolor", "qua", "rex", "pim")
	return fmt.Sprintf("%s%d%s", base, g.n, g.Pick("", "a", "o", "um"))
}

// ID returns a fresh identifier.
func (g *G) ID() string {
	g.ids++
	return fmt.Sprintf("%s-%d", g.Pick("id", "anchor", "my_id"), g.ids)
}

func plain(s string) In { return In{s, Esc(s), s} }

// Words returns n plain words, separated by spaces.
func (g *G) Words(n int) string {
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, g.Word())
	}
	return strings.Join(w, " ")
}

func join(sep string, in ...In) In {
	var s, h, t []string
	for _, i := range in {
		s, h, t = append(s, i.S), append(h, i.H), append(t, i.T)
	}
	return In{strings.Join(s, sep), strings.Join(h, sep), strings.Join(t, sep)}
}
