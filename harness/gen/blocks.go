package gen

import (
	"fmt"
	"strings"
)

// Bl is the set of all the kinds of blocks, with their weights.
func Bl() map[string]int {
	return map[string]int{
		"para": 8, "admpara": 1, "litpara": 1, "listing": 2, "literal": 1, "source": 2, "fenced": 1,
		"example": 1, "quote": 1, "sidebar": 1, "open": 1, "admblock": 1, "verse": 1, "passblock": 1,
		"mdquote": 1, "ulist": 2, "olist": 2, "dlist": 1, "table": 1, "image": 1, "break": 1, "comment": 1,
		"exmpara": 1, "quotepara": 1, "versepara": 1, "listpara": 1, "litstyle": 1, "passpara": 1, "srcpara": 1,
		"qanda": 1, "hdlist": 1, "checklist": 1, "callouts": 1,
	}
}

var listKinds = map[string]bool{"ulist": true, "olist": true, "dlist": true, "qanda": true, "hdlist": true, "checklist": true, "callouts": true}

// Ctx says where a block is.
type Ctx struct {
	Depth int
	Used  map[string]bool // delimiters of the enclosing blocks
	List  bool            // attached to a list item
	Width int             // maximum number of blocks
	Max   int             // maximum depth
}

// Top is the context of the blocks of a document.
func Top() Ctx { return Ctx{Used: map[string]bool{}, Max: 2, Width: 3} }

func (c Ctx) in(delim string) Ctx {
	u := map[string]bool{delim: true}
	for k := range c.Used {
		u[k] = true
	}
	c.Used = u
	c.Depth++
	c.List = false
	return c
}

// Blocks generates lo to hi blocks, separated by blank lines.
func (g *G) Blocks(c Ctx, lo, hi int) Block {
	n := g.Range(lo, hi)
	var src, html []string
	prev := ""
	for i := 0; i < n; i++ {
		b := g.Block(c)
		if (listKinds[prev] && (listKinds[b.Kind] || b.Kind == "litpara")) || prev == "mdquote" && b.Kind == "mdquote" || prev == "comment" && listKinds[b.Kind] && i > 1 {
			// no footnote there: it would be numbered before the ones of the block which is already drawn
			g.noFootnote++
			p := g.para(c)
			g.noFootnote--
			src, html = append(src, p.S), append(html, p.H)
		}
		src, html = append(src, b.S), append(html, b.H)
		prev = b.Kind
	}
	return Block{S: strings.Join(src, "\n\n"+g.mark("\x03")), H: strings.Join(html, ""), Kind: prev}
}

// Block generates one block.
func (g *G) Block(c Ctx) Block {
	w := g.B
	if len(w) == 0 {
		return g.para(c)
	}
	if c.Depth >= c.Max {
		w = Without(w, "example", "quote", "sidebar", "open", "admblock", "ulist", "olist", "dlist", "qanda", "hdlist")
	}
	if c.List {
		w = Without(w, "ulist", "olist", "dlist", "qanda", "hdlist", "checklist", "litpara", "callouts", "mdquote", "comment", "break")
	}
	if c.List && g.Marks { // a comment right after would be part of their text
		w = Without(w, "litstyle", "listpara", "srcpara", "passpara")
	}
	if c.Depth > 0 {
		w = Without(w, "callouts")
	}
	if len(w) == 0 {
		return g.para(c)
	}
	k := g.choose(w)
	b := g.block(k, c)
	b.Kind = k
	g.kind(k)
	return b
}

// Meta is the block attributes and the title of a block.
type Meta struct {
	S              string
	ID, Roles, Ttl string // as HTML: ` id="x"`, ` a b`, the <div class="title">
	TitleH, Taken  string // HTML of the title; the identifier
}

// meta generates the attributes of a block; style is what comes first in the
// brackets ("" for none), and opt what follows.
func (g *G) meta(style, opt string, titled bool) Meta {
	m := Meta{}
	var lines []string
	id, roles := "", ""
	taken := ""
	if style == "" && g.noStyle == 0 && g.Chance(1, 12) {
		style = g.Word() // a style which does not exist has no effect
		g.kind("unknown-style")
	}
	if g.Chance(1, 12) {
		opt += "," + g.Word() + g.Pick("=", `="`, "='") // nor have other attributes
		switch opt[len(opt)-1] {
		case '"':
			opt += g.Pick("", g.Word(), g.Words(2)+",") + `"`
		case '\'':
			opt += g.Pick(g.Word(), "."+g.Word()) + "'"
		default:
			opt += g.Word()
		}
		g.kind("unknown-attribute")
	}
	if g.noID == 0 && (g.Chance(1, 5) || len(g.Reserve) > 0 && g.Chance(1, 2)) {
		i, _ := g.TakeID()
		taken = i
		m.Taken = i
		m.ID = ` id="` + i + `"`
		switch g.Intn(5) {
		case 0, 1:
			lines = append(lines, "[["+i+"]]")
		case 2:
			opt += g.Pick(",id="+i, `,id="`+i+`"`)
		default:
			id = "#" + i
		}
	}
	if g.Chance(1, 20) {
		r := g.Word()
		m.Roles = " " + r
		if g.Chance(1, 2) {
			opt += ",role=" + r
		} else {
			r2 := g.Word()
			m.Roles += " " + r2
			opt += `,role="` + r + " " + r2 + `"`
		}
		g.kind("named-role")
	} else if g.noID == 0 && g.Chance(1, 5) {
		for n := g.Range(1, 2); n > 0; n-- {
			r := g.Word()
			roles += "." + r
			m.Roles += " " + r
		}
	}
	if style != "" || opt != "" || id != "" || roles != "" {
		lines = append(lines, "["+style+id+roles+opt+"]")
	}
	if titled && !g.NoTitle && g.Chance(1, 4) {
		t := g.title()
		if taken == "" && g.noFootnote == 0 && g.W["footnote"] > 0 && g.Chance(1, 4) {
			t = join(" ", t, g.footnote(g.W))
			g.kind("footnote-in-title")
		}
		m.TitleH = t.H
		if taken != "" {
			g.label2(taken, t.H)
		}
		m.Ttl = "<div class=\"title\">" + t.H + "</div>\n"
		if g.Chance(1, 2) {
			lines = append(lines, "."+t.S)
		} else {
			lines = append([]string{"." + t.S}, lines...)
		}
		g.kind("block-title")
	}
	if len(lines) > 0 {
		m.S = strings.Join(lines, "\n") + "\n"
	}
	return m
}

// title is the title of a block.
func (g *G) title() In {
	w := Only(g.W, "word")
	for _, k := range []string{"bold", "italic", "mono", "mark", "sub", "sup", "boldx"} {
		if g.W[k] > 0 {
			w[k] = 1
		}
	}
	w["word"] = 7
	i := g.tokens(w, 1, 3, false, 1)
	if g.W["image"] > 0 && g.Chance(1, 8) {
		g.kind("image-in-title")
		alt := g.Word()
		name, src := g.imageSrc(alt + ".png")
		i = join(" ", i, In{"image:" + name + "[" + alt + "]", `<span class="image"><img src="` + src + `" alt="` + alt + `"></span>`, ""})
	}
	if g.startsBadly(i.S) {
		i = join(" ", plain(g.Word()), i)
	}
	return i
}

// delim is a delimiter of a block which is not in use around it.
func (g *G) delim(c Ctx, ch string) string {
	d := strings.Repeat(ch, 4)
	for c.Used[d] {
		d += ch
	}
	return d
}

func (g *G) para(c Ctx) Block {
	m := g.meta("", "", true)
	t := g.Lines(1, 8)
	return Block{S: m.S + t.S, H: "<div" + m.ID + ` class="paragraph` + m.Roles + `">` + "\n" + m.Ttl + "<p>" + t.H + "</p>\n</div>\n", Kind: "para"}
}

var admonitions = []string{"NOTE", "TIP", "IMPORTANT", "WARNING", "CAUTION"}

// admonition is the HTML of an admonition; caption is the one in its attributes, if any.
func (g *G) admonition(kind string, m Meta, caption, content string) string {
	k := strings.ToLower(kind)
	if caption == "" {
		c, found := g.Captions[k]
		if !found {
			c = strings.ToUpper(k[:1]) + k[1:]
		}
		caption = c
	}
	icon := "<div class=\"title\">" + Esc(caption) + "</div>"
	switch g.Icons {
	case "font":
		icon = `<i class="fa icon-` + k + `" title="` + EscAttr(caption) + `"></i>`
	case "image":
		icon = `<img src="` + g.iconSrc(k) + `" alt="` + EscAttr(caption) + `">`
	}
	return "<div" + m.ID + ` class="admonitionblock ` + k + m.Roles + `">` + "\n<table>\n<tr>\n<td class=\"icon\">\n" +
		icon + "\n</td>\n<td class=\"content\">\n" + m.Ttl + content + "</td>\n</tr>\n</table>\n</div>\n"
}

// ownCaption is, now and then, the attribute for the caption of a block, and its value.
func (g *G) ownCaption() (string, string) {
	if !g.Chance(1, 8) {
		return "", ""
	}
	g.kind("own-caption")
	w := g.Word()
	switch g.Intn(3) {
	case 0:
		return ",caption=" + w, w
	case 1:
		return `,caption="` + w + `: "`, w + ": "
	}
	return `,caption="` + w + ` & <` + w + `>"`, w + " & <" + w + ">"
}

// verbatimLine is a line of a verbatim block.
func (g *G) verbatimLine() string {
	n := g.Range(1, 4)
	var p []string
	for i := 0; i < n; i++ {
		w := g.Word()
		p = append(p, g.Pick(w, w, w+"()", "*"+w+"*", "_"+w+"_", "`"+w+"`", "{"+w+"}", "<"+w+">", w+" & "+w, "&"+w+";", `"`+w+`"`, "(C)", w+"...", "->", "w'"+w, "https://"+w+".org", "#"+w+"#", "// "+w, "<<"+w+">>", "* "+w, ". "+w, "= "+w, w+"::", "|"+w, "[["+w+"]]", "[."+w+"]", "\\*"+w, "+"+w+"+", "~"+w+"~", "footnote:["+w+"]", "$"+w, ":"+w+": x", "."+w, "'''", "image:"+w+"[]", "((("+w+")))", "é"+w))
	}
	return strings.Repeat(g.Pick("", "", "", "  ", "    ", "\t"), 1) + strings.Join(p, " ")
}

// Verbatim is the content of a verbatim block.
func (g *G) Verbatim() string {
	n := g.Range(1, 6)
	var l []string
	for i := 0; i < n; i++ {
		if i > 0 && i < n-1 && g.Chance(1, 6) {
			l = append(l, "")
			continue
		}
		l = append(l, g.verbatimLine())
	}
	return strings.Join(l, "\n")
}

func (g *G) attribution() (string, string) {
	switch g.Intn(7) {
	case 6:
		t := g.Words(2)
		return g.Pick(",,", ", ,", ",,") + t, "<div class=\"attribution\">\n&#8212; " + t + "\n</div>\n"
	case 1, 2:
		a := g.Words(2)
		return "," + a, "<div class=\"attribution\">\n&#8212; " + a + "\n</div>\n"
	case 3, 4:
		a, t := g.Words(2), g.Words(2)
		return "," + a + "," + t, "<div class=\"attribution\">\n&#8212; " + a + "<br>\n<cite>" + t + "</cite>\n</div>\n"
	}
	return "", ""
}

func listing(m Meta, content string) string {
	return "<div" + m.ID + ` class="listingblock` + m.Roles + `">` + "\n" + m.Ttl + "<div class=\"content\">\n<pre>" + content + "</pre>\n</div>\n</div>\n"
}

func literal(m Meta, content string) string {
	return "<div" + m.ID + ` class="literalblock` + m.Roles + `">` + "\n" + m.Ttl + "<div class=\"content\">\n<pre>" + content + "</pre>\n</div>\n</div>\n"
}

func source(m Meta, lang, content string) string {
	code := "<code>"
	if lang != "" {
		code = `<code class="language-` + lang + `" data-lang="` + lang + `">`
	}
	return "<div" + m.ID + ` class="listingblock` + m.Roles + `">` + "\n" + m.Ttl + "<div class=\"content\">\n<pre class=\"highlight\">" + code + content + "</code></pre>\n</div>\n</div>\n"
}

func (g *G) block(k string, c Ctx) Block {
	switch k {
	case "para":
		return g.para(c)
	case "admpara":
		kind := admonitions[g.Intn(5)]
		if g.Chance(1, 2) {
			cs, c := g.ownCaption()
			m := g.meta("", cs, true)
			t := g.Lines(1, 6)
			return Block{S: m.S + kind + ": " + t.S, H: g.admonition(kind, m, c, t.H+"\n")}
		}
		cs, c := g.ownCaption()
		m := g.meta(kind, cs, true)
		t := g.Lines(1, 6)
		return Block{S: m.S + t.S, H: g.admonition(kind, m, c, t.H+"\n")}
	case "litpara":
		m := g.meta("", "", true)
		n := g.Range(1, 3)
		ind := g.Range(1, 4)
		var src, out []string
		for i := 0; i < n; i++ {
			l := g.word1Line()
			extra := 0
			if i > 0 {
				extra = g.Intn(3)
			}
			src = append(src, strings.Repeat(" ", ind+extra)+l)
			out = append(out, strings.Repeat(" ", extra)+Esc(l))
		}
		return Block{S: m.S + strings.Join(src, "\n"), H: literal(m, strings.Join(out, "\n"))}
	case "litstyle":
		m := g.meta("literal", "", true)
		v := g.word1Verbatim()
		return Block{S: m.S + v, H: literal(m, Esc(v))}
	case "listing":
		style := ""
		if g.Chance(1, 4) {
			style = "listing"
		}
		m := g.meta(style, "", true)
		v := g.Verbatim()
		d := g.delim(c, "-")
		return Block{S: m.S + d + "\n" + v + "\n" + d, H: listing(m, Esc(v))}
	case "listpara":
		m := g.meta("listing", "", true)
		v := g.word1Verbatim()
		return Block{S: m.S + v, H: listing(m, Esc(v))}
	case "literal":
		m := g.meta("", "", true)
		v := g.Verbatim()
		d := g.delim(c, ".")
		return Block{S: m.S + d + "\n" + v + "\n" + d, H: literal(m, Esc(v))}
	case "source", "srcpara":
		lang := g.Pick("", "go", "java", "text")
		opt := ""
		m := Meta{}
		nowrap := false
		if g.Chance(1, 4) { // options, among which one has an effect
			o := g.Perm(3)[:g.Range(1, 3)]
			var names []string
			for _, i := range o {
				nowrap = nowrap || i == 0
				names = append(names, []string{"nowrap", "linenums", g.Word()}[i])
			}
			style := "source"
			if g.Chance(1, 2) {
				style += "%" + strings.Join(names, "%")
				if lang != "" {
					opt = "," + lang
				}
			} else {
				if lang != "" {
					opt = "," + lang
				}
				opt += g.Pick(",opts", ",options") + `="` + strings.Join(names, ",") + `"`
			}
			if strings.Contains(style, "%") {
				g.noID++
			}
			m = g.meta(style, opt, true)
			if strings.Contains(style, "%") {
				g.noID--
			}
			g.kind("source-options")
		} else {
			if lang != "" {
				opt = "," + lang
			}
			m = g.meta("source", opt, true)
		}
		source := func(m Meta, lang, v string) string {
			h := source(m, lang, v)
			if nowrap {
				h = strings.Replace(h, `<pre class="highlight">`, `<pre class="highlight nowrap">`, 1)
			}
			return h
		}
		if k == "srcpara" {
			v := g.word1Verbatim()
			return Block{S: m.S + v, H: source(m, lang, Esc(v))}
		}
		v := g.Verbatim()
		d := g.delim(c, "-")
		return Block{S: m.S + d + "\n" + v + "\n" + d, H: source(m, lang, Esc(v))}
	case "fenced":
		lang := g.Pick("", "go", "json")
		m := g.meta("", "", true)
		v := g.Verbatim()
		return Block{S: m.S + "```" + lang + "\n" + v + "\n```", H: source(m, lang, Esc(v))}
	case "example":
		cs, own := g.ownCaption()
		m := g.meta("", cs, true)
		d := g.delim(c, "=")
		if m.Ttl != "" {
			m.Ttl = fmt.Sprintf("<div class=\"title\">\x00%s</div>\n", m.TitleH) // numbered after its content
		}
		b := g.Blocks(c.in(d), 1, c.Width)
		if m.Ttl != "" {
			// the number is given after the content is rendered
			m.Ttl = strings.Replace(m.Ttl, "\x00", g.caption("example", "Example", own, &g.Examples), 1)
		}
		return Block{S: m.S + d + "\n" + b.S + "\n" + d, H: "<div" + m.ID + ` class="exampleblock` + m.Roles + `">` + "\n" + m.Ttl + "<div class=\"content\">\n" + b.H + "</div>\n</div>\n"}
	case "exmpara":
		m := g.meta("example", "", true)
		t := g.Lines(1, 5)
		return Block{S: m.S + t.S, H: "<div" + m.ID + ` class="exampleblock` + m.Roles + `">` + "\n" + m.Ttl + "<div class=\"content\">\n" + t.H + "\n</div>\n</div>\n"}
	case "quote":
		at, ah := g.attribution()
		style := ""
		if at != "" {
			style = "quote"
		}
		m := g.meta(style, at, true)
		d := g.delim(c, "_")
		b := g.Blocks(c.in(d), 1, c.Width)
		return Block{S: m.S + d + "\n" + b.S + "\n" + d, H: "<div" + m.ID + ` class="quoteblock` + m.Roles + `">` + "\n" + m.Ttl + "<blockquote>\n" + b.H + "</blockquote>\n" + ah + "</div>\n"}
	case "quotepara":
		at, ah := g.attribution()
		m := g.meta("quote", at, true)
		t := g.Lines(1, 5)
		return Block{S: m.S + t.S, H: "<div" + m.ID + ` class="quoteblock">` + "\n" + m.Ttl + "<blockquote>\n" + t.H + "\n</blockquote>\n" + ah + "</div>\n"}
	case "verse":
		at, ah := g.attribution()
		m := g.meta("verse", at, true)
		d := g.delim(c, "_")
		t := g.Lines(1, 5)
		return Block{S: m.S + d + "\n" + t.S + "\n" + d, H: "<div" + m.ID + ` class="verseblock` + m.Roles + `">` + "\n" + m.Ttl + "<pre class=\"content\">" + t.H + "</pre>\n" + ah + "</div>\n"}
	case "versepara":
		at, ah := g.attribution()
		m := g.meta("verse", at, true)
		t := g.Lines(1, 5)
		return Block{S: m.S + t.S, H: "<div" + m.ID + ` class="verseblock">` + "\n" + m.Ttl + "<pre class=\"content\">" + t.H + "</pre>\n" + ah + "</div>\n"}
	case "sidebar":
		m := g.meta("", "", true)
		d := g.delim(c, "*")
		b := g.Blocks(c.in(d), 1, c.Width)
		return Block{S: m.S + d + "\n" + b.S + "\n" + d, H: "<div" + m.ID + ` class="sidebarblock` + m.Roles + `">` + "\n<div class=\"content\">\n" + m.Ttl + b.H + "</div>\n</div>\n"}
	case "open":
		if c.Used["--"] {
			return g.para(c)
		}
		m := g.meta("", "", true)
		b := g.Blocks(c.in("--"), 1, c.Width)
		return Block{S: m.S + "--\n" + b.S + "\n--", H: "<div" + m.ID + ` class="openblock` + m.Roles + `">` + "\n" + m.Ttl + "<div class=\"content\">\n" + b.H + "</div>\n</div>\n"}
	case "admblock":
		kind := admonitions[g.Intn(5)]
		cs, cap := g.ownCaption()
		m := g.meta(kind, cs, true)
		d := g.delim(c, "=")
		b := g.Blocks(c.in(d), 1, c.Width)
		return Block{S: m.S + d + "\n" + b.S + "\n" + d, H: g.admonition(kind, m, cap, b.H)}
	case "passblock", "passpara":
		w := g.Word()
		raw := g.Pick("<div>"+w+"</div>", "<p>"+w+" *x*</p>", "<b>"+w+"</b> <i>{x}</i>", "&#169; "+w+" (C)")
		if k == "passpara" {
			return Block{S: "[pass]\n" + raw, H: raw + "\n"}
		}
		d := g.delim(c, "+")
		raw += g.Pick("", "\n<u>x</u>\n<span>"+g.Word()+"</span>")
		return Block{S: d + "\n" + raw + "\n" + d, H: raw + "\n"}
	case "mdquote":
		var src, h []string
		n := g.Range(1, 3)
		for i := 0; i < n; i++ {
			t := g.Text(1, 4)
			src, h = append(src, "> "+t.S), append(h, t.H)
		}
		at := ""
		if g.Chance(1, 3) {
			a := g.Words(2)
			src = append(src, "> -- "+a)
			at = "<div class=\"attribution\">\n&#8212; " + a + "\n</div>\n"
		}
		return Block{S: strings.Join(src, "\n"), H: "<div class=\"quoteblock\">\n<blockquote>\n<div class=\"paragraph\">\n<p>" + strings.Join(h, "\n") + "</p>\n</div>\n</blockquote>\n" + at + "</div>\n"}
	case "ulist", "olist", "dlist", "qanda", "hdlist", "checklist":
		return g.List(k, c)
	case "callouts":
		return g.callouts(c)
	case "table":
		return g.table(c)
	case "image":
		return g.blockImage()
	case "macro":
		m := g.macro(true)
		return Block{S: m.S, H: m.H}
	case "break":
		return Block{S: g.Pick("'''", "---", "***"), H: "<hr>\n"}
	case "comment":
		w := g.Words(2)
		return Block{S: g.Pick("// "+w, "////\n"+w+"\n////", "// "+w+"\n//"+w, "////\n"+w+"\n\n* "+w+"\n////"), H: ""}
	}
	panic("unknown kind of block: " + k)
}

// word1Verbatim is verbatim text which begins with a word and has no blank line.
func (g *G) word1Verbatim() string {
	v := g.word1Line()
	for n := g.Intn(3); n > 0; n-- {
		v += "\n" + g.word1Line()
	}
	return v
}

func (g *G) word1Line() string {
	l := g.Word() + " " + strings.TrimSpace(g.verbatimLine())
	// a labeled list is not a paragraph
	return strings.ReplaceAll(l, "::", ":")
}

func (g *G) callouts(c Ctx) Block {
	n := g.Range(1, 5)
	var src, out, lsrc, lout []string
	m := g.meta("", "", true)
	order := g.Perm(n)
	if g.Chance(3, 4) {
		for i := range order {
			order[i] = i
		}
	}
	for k := 0; k < n; k++ {
		l := g.Word() + g.Pick("()", " = 1", " // x", "", " <x>", "<1>x")
		src = append(src, fmt.Sprintf("%s <%d>", l, order[k]+1))
		out = append(out, fmt.Sprintf(`%s <b class="conum">(%d)</b>`, Esc(l), order[k]+1))
		for k+1 < n && g.Chance(1, 4) { // several callouts on the line
			k++
			src[len(src)-1] += fmt.Sprintf("%s<%d>", g.Pick(" ", "", "  "), order[k]+1)
			out[len(out)-1] += fmt.Sprintf(`<b class="conum">(%d)</b>`, order[k]+1)
			g.kind("callouts-on-a-line")
		}
		if g.Chance(1, 3) {
			x := g.Word()
			src, out = append(src, x), append(out, x)
		}
	}
	for i := 1; i <= n; i++ {
		t := g.Text(1, 4)
		lsrc = append(lsrc, fmt.Sprintf("<%d> %s", i, t.S))
		lout = append(lout, "<li>\n<p>"+t.H+"</p>\n</li>\n")
	}
	list := "<div class=\"colist arabic\">\n<ol>\n" + strings.Join(lout, "") + "</ol>\n</div>\n"
	return Block{S: m.S + "----\n" + strings.Join(src, "\n") + "\n----\n" + strings.Join(lsrc, "\n"), H: listing(m, strings.Join(out, "\n")) + list}
}

func (g *G) blockImage() Block {
	cs, own := g.ownCaption()
	m := g.meta("", cs, true)
	name, alt := g.imageName()
	name, src := g.imageSrc(name)
	attrs, h, roles, link, end, title := g.imageAttrs(alt, false)
	if m.TitleH != "" && title != "" { // the title within the brackets is ignored? not specified: only one of them
		attrs = strings.Replace(attrs, `title="`+title+`"`, "opts=x", 1)
		title = ""
	}
	if m.TitleH == "" && title != "" {
		m.TitleH = title
		if m.Taken != "" {
			g.label2(m.Taken, title)
		}
	}
	t := ""
	if m.TitleH != "" {
		t = "<div class=\"title\">" + g.caption("figure", "Figure", own, &g.Figures) + m.TitleH + "</div>\n"
	}
	return Block{S: m.S + "image::" + name + "[" + attrs + "]", H: "<div" + m.ID + ` class="imageblock` + roles + m.Roles + `">` + "\n<div class=\"content\">\n" + link +
		`<img src="` + src + `"` + h + ">" + end + "\n</div>\n" + t + "</div>\n"}
}

// caption is what comes before the title of a numbered block.
func (g *G) caption(kind, text, own string, n *int) string {
	if own != "" {
		return Esc(own)
	}
	if c, found := g.Captions[kind]; found {
		if c == "" {
			return ""
		}
		text = c
	}
	*n++
	return fmt.Sprintf("%s %d. ", Esc(text), *n)
}
