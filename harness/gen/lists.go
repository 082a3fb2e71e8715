package gen

import (
	"strconv"
	"strings"
)

// List generates a list with nested lists and attached blocks.
func (g *G) List(k string, c Ctx) Block {
	s, h, _ := g.list(k, c, nesting{}, 0)
	return Block{S: s, H: h, Kind: k}
}

// nesting is the lists around: the number of those with asterisks and with colons,
// whether there is one with dashes, and the styles of the ordered ones.
type nesting struct {
	ul, dl int
	dash   bool
	ol     string
}

var olStyles = []string{"arabic", "loweralpha", "lowerroman", "upperalpha", "upperroman"}
var olTypes = map[string]string{"loweralpha": "a", "lowerroman": "i", "upperalpha": "A", "upperroman": "I"}
var olMarkers = map[string][]string{
	"arabic": {"1.", "2.", "3.", "4."}, "loweralpha": {"a.", "b.", "c.", "d."}, "upperalpha": {"A.", "B.", "C.", "D."},
	"lowerroman": {"i)", "ii)", "iii)", "iv)"}, "upperroman": {"I)", "II)", "III)", "IV)"},
}

// list generates a list; the last result is how many lists are open at its end, itself included.
func (g *G) list(k string, c Ctx, n nesting, level int) (string, string, int) {
	items := g.Range(1, 3)
	marker := func(int) string { return "" }
	me := n
	style, lstyle, opts := "", "", ""
	ol, olattrs := "", ""
	switch k {
	case "ulist", "checklist":
		m := strings.Repeat("*", n.ul+1)
		if !n.dash && (n.ul >= 5 || g.Chance(1, 3)) {
			m = "-" // "-" and "*" are different markers
			me.dash = true
			g.kind("dash-list")
		} else {
			me.ul++
		}
		marker = func(int) string { return m }
		if k == "ulist" && g.Chance(1, 6) {
			style = g.Pick("square", "circle", "disc", "none", "unstyled", "no-bullet")
			lstyle = style
			g.kind("list-style")
		}
		if k == "checklist" && g.Chance(1, 4) {
			opts = "%interactive"
			g.kind("interactive-checklist")
		}
	case "olist":
		var free []string
		for _, s := range olStyles {
			if !strings.Contains(n.ol, s) {
				free = append(free, s)
			}
		}
		ol = free[0]
		if g.Chance(1, 4) {
			ol = free[g.Intn(len(free))]
		}
		for i, s := range olStyles {
			if s == ol {
				m := strings.Repeat(".", i+1)
				marker = func(int) string { return m }
			}
		}
		if g.Chance(1, 4) {
			m := olMarkers[ol]
			marker = func(i int) string { return m[i] }
			g.kind("list-numbers")
		}
		me.ol += "," + ol
		if g.Chance(1, 8) {
			style = g.Pick(append(olStyles, "decimal", "lowergreek")...)
			ol = style
			g.kind("list-style")
		}
		if ty := olTypes[ol]; ty != "" {
			olattrs = ` type="` + ty + `"`
		}
		if g.Chance(1, 8) {
			v := strconv.Itoa(g.Range(2, 20))
			opts += ",start=" + v
			olattrs += ` start="` + v + `"`
		}
		if g.Chance(1, 10) && !g.XML { // known finding: the attribute has no value in XHTML
			opts = "%reversed" + opts
			olattrs += " reversed"
		}
	case "dlist", "qanda", "hdlist":
		m := strings.Repeat(":", n.dl+2)
		marker = func(int) string { return m }
		me.dl++
		style = map[string]string{"qanda": "qanda", "hdlist": "horizontal"}[k]
	}
	var m Meta
	if k != "dlist" {
		g.noStyle++
	}
	if level == 0 {
		m = g.meta(style, opts, true)
	} else if style != "" || opts != "" || g.Chance(1, 8) {
		m = g.meta(style, opts, g.Chance(1, 2))
		if m.S != "" {
			g.kind("nested-list-attributes")
		}
	}
	if k != "dlist" {
		g.noStyle--
	}
	interactive := opts == "%interactive"
	b, src := &strings.Builder{}, []string{}
	open, shared := 0, false
	for i := 0; i < items; i++ {
		var s, h string
		s, h, open = g.item(k, marker(i), i == items-1, c, me, level, interactive)
		if k == "hdlist" {
			const start = "<tr>\n<td class=\"hdlist1\">\n"
			if shared {
				h = "<br>\n" + strings.TrimPrefix(h, start)
				if g.XML {
					h = strings.Replace(h, "<br>", "<br/>", 1)
				}
				g.kind("shared-description")
			}
			shared = !strings.HasSuffix(h, "</tr>\n") // the next term has the same description
		}
		src = append(src, s)
		b.WriteString(h)
	}
	sep := "\n" + g.mark("\x02")
	if g.Chance(1, 6) {
		sep = "\n\n"
	}
	var h string
	switch k {
	case "ulist":
		st, cl := "", ""
		if lstyle != "" {
			st, cl = " "+lstyle, ` class="`+lstyle+`"`
		}
		h = "<div" + m.ID + ` class="ulist` + st + m.Roles + `">` + "\n" + m.Ttl + "<ul" + cl + ">\n" + b.String() + "</ul>\n</div>\n"
	case "checklist":
		h = "<div" + m.ID + ` class="ulist checklist` + m.Roles + `">` + "\n" + m.Ttl + "<ul class=\"checklist\">\n" + b.String() + "</ul>\n</div>\n"
	case "olist":
		h = "<div" + m.ID + ` class="olist ` + ol + m.Roles + `">` + "\n" + m.Ttl + "<ol class=\"" + ol + "\"" + olattrs + ">\n" + b.String() + "</ol>\n</div>\n"
	case "dlist":
		h = "<div" + m.ID + ` class="dlist` + m.Roles + `">` + "\n" + m.Ttl + "<dl>\n" + b.String() + "</dl>\n</div>\n"
	case "qanda":
		h = "<div" + m.ID + ` class="qlist qanda` + m.Roles + `">` + "\n" + m.Ttl + "<ol>\n" + b.String() + "</ol>\n</div>\n"
	case "hdlist":
		h = "<div" + m.ID + ` class="hdlist` + m.Roles + `">` + "\n" + m.Ttl + "<table>\n" + b.String() + "</table>\n</div>\n"
	}
	g.kind("list-level-" + strconv.Itoa(level+1))
	return m.S + strings.Join(src, sep), h, open + 1
}

// item generates an item; the last result is how many lists are open at its end.
func (g *G) item(k, marker string, last bool, c Ctx, n nesting, level int, interactive bool) (string, string, int) {
	src, content := "", &strings.Builder{}
	term := ""
	indent := strings.Repeat(" ", g.Intn(4)*g.Intn(2))
	hasText := true
	switch k {
	case "ulist", "olist", "checklist":
		t := g.Lines(1, 5)
		check, box := "", ""
		if k == "checklist" {
			j := g.Intn(3)
			check = []string{"[ ] ", "[x] ", "[*] "}[j]
			box = []string{"&#10063; ", "&#10003; ", "&#10003; "}[j]
			if interactive {
				box = []string{`<input type="checkbox" data-item-complete="0"> `, `<input type="checkbox" data-item-complete="1" checked> `, `<input type="checkbox" data-item-complete="1" checked> `}[j]
			}
		}
		src = indent + marker + " " + check + t.S
		content.WriteString("<p>" + box + t.H + "</p>\n")
	default:
		t := g.tokens(Without(g.W, "url", "link", "mailto", "email", "xref", "icon", "image", "pass", "footnote", "escape", "special", "anchor", "index", "punct", "symbol", "role", "attr", "dquote", "squote", "unicode", "macro"), 1, 3, false, 1)
		if !g.startsLine(t.S) {
			t = join(" ", plain(g.Word()), t)
		}
		term = t.H
		src = t.S + marker
		if (k == "dlist" && g.Chance(1, 5) || k == "hdlist" && g.Chance(1, 3)) && !last {
			hasText = false
			break
		}
		d := g.Lines(1, 5)
		src += g.Pick(" ", "\n", "\n  ") + d.S
		content.WriteString("<p>" + d.H + "</p>\n")
	}
	// attached blocks
	attach := func() {
		if g.Marks && hasText && g.Chance(1, 4) {
			src += "\n\x04"
		}
	}
	attach()
	if hasText && g.Chance(1, 5) && c.Depth <= c.Max {
		g.kind("list-continuation")
		for j := g.Range(1, 2); j > 0; j-- {
			cc := c
			cc.List = true
			cc.Depth++
			if g.BlankAfterPlus && g.Chance(1, 12) { // a paragraph after a blank line
				t := g.Lines(1, 4)
				src += "\n+\n\n" + t.S
				content.WriteString("<div class=\"paragraph\">\n<p>" + t.H + "</p>\n</div>\n")
				g.kind("blank-line-in-list-continuation")
				continue
			}
			b := g.Block(cc)
			src += "\n+\n" + b.S
			content.WriteString(b.H)
			if endsWithDelimiter(b.S) && g.Chance(1, 4) { // text right after the block
				t := g.Lines(1, 4)
				src += "\n" + t.S
				content.WriteString("<div class=\"paragraph\">\n<p>" + t.H + "</p>\n</div>\n")
				g.kind("text-after-attached-block")
			}
			attach()
		}
	}
	// nested list
	open := 0
	if level < 3 && c.Depth <= c.Max && hasText && g.Chance(1, 3) {
		kinds := []string{}
		for _, x := range []string{"ulist", "olist", "dlist"} {
			if g.B[x] > 0 {
				kinds = append(kinds, x)
			}
		}
		if len(kinds) > 0 {
			x := kinds[g.Intn(len(kinds))]
			if !(x == "ulist" && n.ul > 4 && n.dash || x == "olist" && strings.Count(n.ol, ",") > 4 || x == "dlist" && n.dl > 2) {
				var s, h string
				s, h, open = g.list(x, c, n, level+1)
				src += "\n" + s
				content.WriteString(h)
				g.kind("nested-" + x + "-in-" + k)
				// blocks attached to this item, after the nested list
				if g.Chance(1, 3) {
					cc := c
					cc.List = true
					cc.Depth++
					b := g.Block(cc)
					src += strings.Repeat("\n", open) + "\n+\n" + b.S
					content.WriteString(b.H)
					open = 0
					g.kind("ancestor-continuation")
				}
			}
		}
	}
	switch k {
	case "dlist":
		h := `<dt class="hdlist1">` + term + "</dt>\n"
		if content.Len() > 0 {
			h += "<dd>\n" + content.String() + "</dd>\n"
		}
		return src, h, open
	case "qanda":
		return src, "<li>\n<p><em>" + term + "</em></p>\n" + content.String() + "</li>\n", open
	case "hdlist":
		if content.Len() == 0 {
			return src, "<tr>\n<td class=\"hdlist1\">\n" + term + "\n", open
		}
		return src, "<tr>\n<td class=\"hdlist1\">\n" + term + "\n</td>\n<td class=\"hdlist2\">\n" + content.String() + "</td>\n</tr>\n", open
	}
	return src, "<li>\n" + content.String() + "</li>\n", open
}

// endsWithDelimiter returns whether the last line is the delimiter of a block.
func endsWithDelimiter(s string) bool {
	l := s[strings.LastIndex(s, "\n")+1:]
	if len(l) == 2 {
		return l == "--"
	}
	return len(l) >= 4 && strings.Contains("-=.*_+", l[:1]) && strings.Trim(l, l[:1]) == ""
}
