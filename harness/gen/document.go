package gen

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// Sec is a section of the plan of a document.
type Sec struct {
	Level    int
	ID       string // as it is written in the HTML
	Title    In
	Num      string // "" when it has none
	Explicit string // identifier given in the source
	Parent   int    // index, or -1
	Rich     bool   // the title has links or anchors
	Form     int    // how the identifier is written
	Roles    []string
	Toggle   string // attribute declared before the section
}

// Plan draws the sections of a document: their levels, titles and identifiers.
// The first one has level 1, and none is more than one level below the one before.
func (g *G) Plan(lo, hi, maxLevel int) []Sec {
	var r []Sec
	n := g.Range(lo, hi)
	seen := map[string]bool{}
	o := g.Sections
	if !o.PrefixSet {
		o.Prefix, o.Sep = "_", "_"
	}
	w := map[string]int{"word": 6}
	for k, n := range o.Title {
		w[k] = n
	}
	for _, k := range []string{"bold", "italic", "mono"} {
		if g.W[k] > 0 {
			w[k] = 1
		}
	}
	for i := 0; i < n; i++ {
		s := Sec{Level: 1, Parent: -1}
		if o.Skip && i == 0 && g.Chance(1, 5) {
			s.Level = g.Range(1, maxLevel)
		}
		if i > 0 {
			max := r[i-1].Level + 1
			if max > maxLevel {
				max = maxLevel
			}
			s.Level = g.Range(1, max)
			if o.Skip && g.Chance(1, 6) {
				s.Level = g.Range(1, maxLevel)
				g.kind("section-any-level")
			}
			for j := i - 1; j >= 0; j-- {
				if r[j].Level < s.Level {
					s.Parent = j
					break
				}
			}
		}
		switch {
		case i > 0 && g.Chance(1, 6):
			k := g.Intn(i)
			s.Title, s.Rich = r[k].Title, r[k].Rich
			g.kind("section-same-title")
			if !s.Rich && g.Chance(1, 3) { // whose identifier may be the one of another title, with its own suffix
				s.Title = join(" ", s.Title, plain(g.Pick("2", "2", "3")))
				g.kind("section-numbered-title")
			}
		default:
			t := g.tokens(w, 1, 3, false, 1)
			if !g.startsLine(t.S) {
				t = join(" ", plain(g.Word()), t)
			}
			if g.Chance(1, 4) {
				t.S = strings.ToUpper(t.S[:1]) + t.S[1:]
				t.H = strings.ToUpper(t.H[:1]) + t.H[1:]
				t.T = strings.ToUpper(t.T[:1]) + t.T[1:]
			}
			s.Title = t
		}
		if o.Rich != nil && g.Chance(1, 3) {
			s.Title = join(" ", plain(g.Word()), g.tokens(o.Rich, 1, 3, false, 0), plain(g.Word()))
			s.Rich = true
			g.kind("section-rich-title")
		}
		if s.Rich || g.Chance(1, 5) {
			s.Explicit = g.ID()
			if g.Chance(1, 3) {
				s.Explicit = strings.ToUpper(s.Explicit[:1]) + s.Explicit[1:]
			}
			if i > 0 && g.Chance(1, 4) { // that of the section above
				s.Explicit = r[i-1].ID
			}
			if strings.Contains(s.Explicit, ".") || s.Explicit == "" { // not one which can be written in every form
				s.Explicit = g.ID()
			}
			s.ID = strings.ToLower(s.Explicit)
			s.Form = g.Intn(2)
			if o.Legacy {
				s.Form = g.Intn(4)
			}
			g.kind("section-explicit-id")
		} else {
			s.ID = SectionID(s.Title.T, o.Prefix, o.Sep)
		}
		if o.Roles && g.Chance(1, 6) {
			s.Roles = append(s.Roles, g.Word())
			if g.Chance(1, 3) {
				s.Roles = append(s.Roles, g.Word())
			}
		}
		base := s.ID
		for k := 2; seen[s.ID]; k++ {
			s.ID = base + "_" + strconv.Itoa(k)
		}
		seen[s.ID] = true
		r = append(r, s)
		g.kind("section-level-" + strconv.Itoa(s.Level))
	}
	return r
}

// SectionID is the identifier made of the text of a title.
func SectionID(text, prefix, sep string) string {
	b := &strings.Builder{}
	last := false
	for _, c := range text {
		switch {
		case unicode.IsLetter(c) || unicode.IsNumber(c):
			b.WriteRune(unicode.ToLower(c))
			last = false
		case (c == ' ' || c == '-' || c == '.') && !last:
			b.WriteString(sep)
			last = true
		}
	}
	return strings.ToLower(prefix) + strings.TrimSuffix(b.String(), sep)
}

// Number gives their numbers to the sections; on says whether the sections are
// numbered at each of them.
func Number(secs []Sec, on func(i int) bool) {
	count := map[int]int{} // by index of the parent
	for i := range secs {
		if !on(i) {
			continue
		}
		count[secs[i].Parent]++
		n := strconv.Itoa(count[secs[i].Parent])
		if p := secs[i].Parent; p >= 0 {
			n = secs[p].Num + "." + n
		}
		secs[i].Num = n
	}
}

// TitleHTML is the title of a section, with its number.
func (s Sec) TitleHTML() string {
	if s.Num != "" {
		return s.Num + ". " + s.Title.H
	}
	return s.Title.H
}

var anchorTags = regexp.MustCompile(`</?a(\s[^>]*)?>`)

// NoAnchors removes the tags of the anchors and links.
func NoAnchors(html string) string { return anchorTags.ReplaceAllString(html, "") }

// TOC is the table of contents, or "" when it has no entry.
func TOC(secs []Sec, levels int, title string) string {
	var sub func(parent int) string
	sub = func(parent int) string {
		b := &strings.Builder{}
		level := 0
		for i, s := range secs {
			if s.Parent != parent || s.Level > levels {
				continue
			}
			if level == 0 {
				level = s.Level
			}
			c := sub(i)
			if c != "" {
				c = "\n" + c
			}
			fmt.Fprintf(b, "<li><a href=\"#%s\">%s</a>%s</li>\n", s.ID, NoAnchors(s.TitleHTML()), c)
		}
		if level == 0 {
			return ""
		}
		return fmt.Sprintf("<ul class=\"sectlevel%d\">\n%s</ul>\n", level, b.String())
	}
	c := sub(-1)
	if c == "" {
		return ""
	}
	return "<div id=\"toc\" class=\"toc\">\n<div id=\"toctitle\">" + title + "</div>\n" + c + "</div>\n"
}

// TOCEntries describes the table of contents, one line for each entry.
func TOCEntries(secs []Sec, levels int) []string {
	var r []string
	for _, s := range secs {
		if s.Level <= levels {
			r = append(r, fmt.Sprintf("%d #%s %s %s", s.Level, s.ID, s.Num, NoAnchors(s.Title.H)))
		}
	}
	return r
}

func drop(lines *[]string, prefix string) {
	var r []string
	for _, l := range *lines {
		if !strings.HasPrefix(l, prefix) {
			r = append(r, l)
		}
	}
	*lines = r
}

// Part is a piece of a document: the content before the first section, or the content of a section.
type Part struct {
	S, H string
}

// SectionsHTML is the HTML of the sections with the given contents.
func SectionsHTML(secs []Sec, parts []Part) string {
	var sub func(parent int) string
	sub = func(parent int) string {
		b := &strings.Builder{}
		for i, s := range secs {
			if s.Parent != parent {
				continue
			}
			fmt.Fprintf(b, "<div class=\"%s\">\n<h%d id=\"%s\">%s</h%d>\n", strings.Join(append([]string{"sect" + strconv.Itoa(s.Level)}, s.Roles...), " "), s.Level+1, s.ID, s.TitleHTML(), s.Level+1)
			if s.Level == 1 {
				b.WriteString("<div class=\"sectionbody\">\n")
			}
			b.WriteString(parts[i].H)
			b.WriteString(sub(i))
			if s.Level == 1 {
				b.WriteString("</div>\n")
			}
			b.WriteString("</div>\n")
		}
		return b.String()
	}
	return sub(-1)
}

// Heading is the source of the title of a section.
func (g *G) Heading(s Sec) string {
	h := strings.Repeat("=", s.Level+1) + " " + s.Title.S
	roles := ""
	for _, r := range s.Roles {
		roles += "." + r
	}
	if s.Explicit != "" {
		switch s.Form {
		case 0:
			h = "[[" + s.Explicit + "]]\n" + h
		case 1:
			h = "[#" + s.Explicit + roles + "]\n" + h
			roles = ""
		case 2:
			h += " [[" + s.Explicit + "]]"
		default:
			h = "[id=" + s.Explicit + "]\n" + h
		}
	}
	if roles != "" {
		h = "[" + roles + "]\n" + h
	}
	if g.Lost && g.Chance(1, 4) { // a title which is not rendered, with a footnote
		g.kind("lost-footnote")
		t := "." + g.Word() + " footnote:[" + g.Word() + "]\n"
		if g.Chance(1, 2) {
			t += "////\n" + g.Word() + "\n////\n\n"
		}
		h = t + h
	}
	if s.Toggle != "" {
		h = s.Toggle + "\n\n" + h
	}
	return h
}

// Doc is a whole document, without what is around the body of the page.
type Doc struct {
	Title    In // "" when there is none
	Header   []string
	Secs     []Sec
	Pre      Part
	Parts    []Part
	TOCAt    string // "", "top", "preamble"
	TOCDepth int
	TOCTitle string
}

// Source is the source of the document.
func (d *Doc) Source(g *G) string {
	var b []string
	if d.Title.S != "" {
		h := "= " + d.Title.S
		for _, l := range d.Header {
			h += "\n" + l
		}
		b = append(b, h)
	} else if len(d.Header) > 0 {
		b = append(b, strings.Join(d.Header, "\n"))
	}
	if d.Pre.S != "" {
		b = append(b, d.Pre.S)
	}
	for i, s := range d.Secs {
		b = append(b, g.Heading(s))
		if d.Parts[i].S != "" {
			b = append(b, d.Parts[i].S)
		}
	}
	return strings.Join(b, "\n\n"+g.mark("\x03")) + "\n"
}

// HTML is the body of the document, without its header, and with its footnotes.
func (d *Doc) HTML(g *G) string {
	toc := ""
	if d.TOCAt != "" {
		toc = TOC(d.Secs, d.TOCDepth, d.TOCTitle)
	}
	b := &strings.Builder{}
	if d.TOCAt == "top" {
		b.WriteString(toc)
	}
	if d.Title.S != "" && d.Pre.H != "" && len(d.Secs) > 0 {
		b.WriteString("<div id=\"preamble\">\n<div class=\"sectionbody\">\n" + d.Pre.H + "</div>\n")
		if d.TOCAt == "preamble" {
			b.WriteString(toc)
		}
		b.WriteString("</div>\n")
	} else {
		b.WriteString(d.Pre.H)
	}
	b.WriteString(SectionsHTML(d.Secs, d.Parts))
	b.WriteString(g.FootnotesHTML())
	return b.String()
}

// Document draws a document with a title, a preamble, sections and a table of contents.
func (g *G) Document(c Ctx, nsec, maxLevel, blocks int) *Doc {
	d := &Doc{TOCDepth: 2, TOCTitle: "Table of Contents"}
	d.Secs = g.Plan(0, nsec, maxLevel)
	if g.Chance(2, 3) {
		w := Only(g.W, "word")
		d.Title = g.tokens(w, 1, 3, false, 1)
		g.kind("document-title")
	}
	o := g.Sections
	if !o.PrefixSet {
		o.Prefix, o.Sep = "_", "_"
	}
	for _, s := range d.Secs {
		t := Target{ID: s.ID, Label: s.Title.H}
		if s.Rich {
			t.Label = ""
		}
		if s.Explicit == "" && !s.Rich && s.Title.S == s.Title.H && strings.Contains(s.Title.S, " ") && !strings.Contains(s.Title.S, ",") && s.ID == SectionID(s.Title.S, o.Prefix, o.Sep) {
			t.Natural = s.Title.S // which gives this ID, and not one with a number
		}
		g.Targets = append(g.Targets, t)
	}
	for _, id := range g.Reserve {
		g.Targets = append(g.Targets, Target{ID: id, Deferred: true})
	}
	if o := g.Sections; o.PrefixSet {
		for _, kv := range [][2]string{{"idprefix", o.Prefix}, {"idseparator", o.Sep}} {
			k, v := kv[0], kv[1]
			if _, found := o.InConf[k]; !found {
				d.Header = append(d.Header, strings.TrimSpace(":"+k+": "+v))
			}
		}
		sorted(d.Header)
	}
	conf := g.Sections.InConf
	if g.Sections.TOC || g.Chance(1, 3) {
		d.TOCAt = "top"
		line := ":toc:"
		if d.Title.S != "" && g.Chance(1, 2) {
			d.TOCAt = "preamble"
			line = ":toc: preamble"
		}
		d.Header = append(d.Header, line)
		if g.Chance(1, 2) {
			d.TOCDepth = g.Range(1, 5)
			d.Header = append(d.Header, fmt.Sprintf(":toclevels: %d", d.TOCDepth))
		}
		if g.Chance(1, 4) {
			d.TOCTitle = g.Words(2)
			d.Header = append(d.Header, ":toc-title: "+d.TOCTitle)
		}
		// the configuration wins
		if v, found := conf["toc"]; found {
			if d.TOCAt = "top"; v != "" {
				d.TOCAt = v
			}
			if g.Chance(1, 2) {
				drop(&d.Header, ":toc:")
			}
		}
		if v, found := conf["toclevels"]; found {
			d.TOCDepth, _ = strconv.Atoi(v)
		}
		if v, found := conf["toc-title"]; found {
			d.TOCTitle = v
		}
		g.kind("toc-" + d.TOCAt)
	}
	on := false
	_, alwaysOn := conf["sectnums"]
	if _, found := conf["numbered"]; found {
		alwaysOn = true
	}
	if g.Chance(1, 3) {
		d.Header = append(d.Header, g.Pick(":sectnums:", ":numbered:"))
		on = true
		g.kind("sectnums")
	}
	numbered := make([]bool, len(d.Secs))
	for i := range d.Secs {
		// within a section, the numbers of the sections below would miss that of the one above
		if g.Sections.Toggle && (d.Secs[i].Parent < 0 || numbered[d.Secs[i].Parent]) && g.Chance(1, 4) {
			g.kind("sectnums-toggle")
			on = !on
			d.Secs[i].Toggle = g.Pick(":sectnums!:", ":!sectnums:", ":numbered!:", ":!numbered:")
			if on {
				d.Secs[i].Toggle = g.Pick(":sectnums:", ":numbered:")
			}
		}
		numbered[i] = on || alwaysOn
	}
	Number(d.Secs, func(i int) bool { return numbered[i] })
	g.TOC = TOCEntries(d.Secs, d.TOCDepth)
	lo := 0
	if len(d.Secs) == 0 {
		lo = 1
	}
	if b := g.Blocks(c, lo, blocks); b.S != "" {
		d.Pre = Part{b.S, b.H}
	}
	for range d.Secs {
		b := g.Blocks(c, 0, blocks)
		d.Parts = append(d.Parts, Part{b.S, b.H})
	}
	return d
}
