package gen

import (
	"fmt"
	"strconv"
	"strings"
)

// Inl is the set of all the kinds of inline content, with their weights.
func Inl() map[string]int {
	return map[string]int{
		"word": 12, "punct": 3, "special": 2, "bold": 2, "italic": 2, "mono": 2, "mark": 2,
		"boldx": 1, "italicx": 1, "monox": 1, "markx": 1, "sub": 1, "sup": 1,
		"dquote": 1, "squote": 1, "symbol": 2, "apos": 1, "unicode": 1,
		"url": 1, "link": 1, "mailto": 1, "email": 1, "image": 1, "footnote": 1, "pass": 1, "attr": 1, "escape": 1,
		"anchor": 1, "xref": 1, "role": 1, "index": 1, "icon": 1,
	}
}

// Only returns the weights of the given kinds.
func Only(w map[string]int, kinds ...string) map[string]int {
	r := map[string]int{}
	for _, k := range kinds {
		r[k] = w[k]
		if r[k] == 0 {
			r[k] = 1
		}
	}
	return r
}

// Without returns the weights without the given kinds.
func Without(w map[string]int, kinds ...string) map[string]int {
	r := map[string]int{}
	for k, n := range w {
		r[k] = n
	}
	for _, k := range kinds {
		delete(r, k)
	}
	return r
}

// Boost multiplies the weights of the given kinds.
func Boost(w map[string]int, f int, kinds ...string) map[string]int {
	r := Without(w)
	for _, k := range kinds {
		if r[k] == 0 {
			r[k] = 1
		}
		r[k] *= f
	}
	return r
}

func (g *G) choose(w map[string]int) string {
	if len(w) == 0 {
		return "word"
	}
	var keys []string
	for k := range w {
		keys = append(keys, k)
	}
	sorted(keys)
	// the simplest kind first, so that cases shrink towards it
	for _, first := range []string{"para", "word"} {
		for i, k := range keys {
			if k == first {
				copy(keys[1:i+1], keys[:i])
				keys[0] = first
			}
		}
	}
	var ws []int
	for _, k := range keys {
		ws = append(ws, w[k])
	}
	return keys[g.Weighted(ws...)]
}

// Text is inline content of lo to hi tokens on a single line.
func (g *G) Text(lo, hi int) In { return g.tokens(g.W, lo, hi, false, 0) }

// Lines is inline content which may be spread over several lines.
func (g *G) Lines(lo, hi int) In {
	old := g.multi
	g.multi = true
	i := g.tokens(g.W, lo, hi, true, 0)
	g.multi = old
	if g.Marks {
		i.S += "\n\x02"
	}
	return i
}

func (g *G) tokens(w map[string]int, lo, hi int, lines bool, depth int) In {
	n := g.Range(lo, hi)
	var r In
	for i := 0; i < n; i++ {
		t := g.token(w, depth)
		if i == 0 {
			if depth == 0 && !g.startsLine(t.S) {
				p := plain(g.Word())
				t = join(" ", p, t)
			}
			r = t
			continue
		}
		sep, hsep := " ", " "
		if lines && g.Chance(1, 6) {
			sep, hsep = "\n", "\n"
			if !g.startsLine(t.S) || depth > 0 && g.startsBadly(t.S) {
				t = join(" ", plain(g.Word()), t)
			}
			if depth == 0 && g.Chance(1, 8) && g.W["br"] > 0 {
				sep, hsep = " +\n", "<br>\n"
				g.kind("br")
			}
			sep += g.mark("\x02")
			if depth > 0 {
				g.kind("inline-on-many-lines")
			}
		}
		r = In{r.S + sep + t.S, r.H + hsep + t.H, r.T + " " + t.T}
	}
	return r
}

// startsLine says whether a line can begin with this.
func (g *G) startsLine(s string) bool {
	if len(s) > 2 && strings.IndexByte("*_`#^~\"<&(", s[0]) >= 0 && s[1] > ' ' && s[:3] != "```" && s[:3] != "***" && s[:3] != "___" {
		return true
	}
	return !g.startsBadly(s)
}

// startsBadly says whether a line beginning with this would be something else than text.
func (g *G) startsBadly(s string) bool {
	if s == "" {
		return true
	}
	c := s[0]
	return !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z')
}

func without(w map[string]int, kinds ...string) map[string]int { return Without(w, kinds...) }

// quotes: the kinds that cannot be nested in each
var exclusive = []string{"footnote", "url", "link", "mailto", "email", "xref", "anchor", "index", "escape", "pass", "br", "image", "icon", "button", "menu", "macro"}

func (g *G) quoted(mark, tag, con, unc string, w map[string]int, depth int, unconstrained bool) In {
	inner := without(w, con, unc, "role", "apos", "dquote", "squote", "escape")
	if depth >= 1 {
		inner = without(inner, exclusive...)
	}
	if depth >= 2 {
		inner = Only(inner, "word")
	}
	if con == "mono" {
		inner = without(inner, "dquote", "squote")
	}
	if con == "mark" || con == "sub" || con == "sup" {
		inner = without(inner, "url", "link", "xref", "image", "icon", "mailto", "email", "footnote", "special", "unicode", "button", "menu", "macro")
	}
	c := g.tokens(inner, 1, 3, g.many(), depth+1)
	if con == "mono" && strings.HasSuffix(c.S, "\"") {
		c = join(" ", c, plain(g.Word()))
	}
	// limits of the grammar: a nested mark is not seen right after an
	// unconstrained one, nor an URL or an escape right after any
	if unconstrained && g.startsBadly(c.S) || strings.Contains("\\[<\"'+({~^", c.S[:1]) || strings.Contains(c.S, "://") || strings.Contains(c.S, ":") {
		c = join(" ", plain(g.Word()), c)
	}
	g.kind(con)
	at, hat := g.role(depth)
	open := tag
	if strings.Contains(hat, "class") && tag == "mark" {
		open, tag = "span", "span"
	}
	if unconstrained {
		g.kind(unc)
		a, b := g.Word(), g.Word()
		return In{a + at + mark + mark + c.S + mark + mark + b, a + "<" + open + hat + ">" + c.H + "</" + tag + ">" + b, a + c.T + b}
	}
	return In{at + mark + c.S + mark, "<" + open + hat + ">" + c.H + "</" + tag + ">", c.T}
}

// role is, now and then, the attributes of a formatted text.
func (g *G) role(depth int) (string, string) {
	if g.noFootnote > 0 || g.noRole > 0 || depth > 1 || g.W["role"] == 0 || !g.Chance(1, 8) {
		return "", ""
	}
	g.kind("role")
	r := g.Word()
	switch g.Intn(5) {
	case 0:
		return "[." + r + "]", ` class="` + r + `"`
	case 1:
		r2 := g.Word()
		return "[." + r + "." + r2 + "]", ` class="` + r + ` ` + r2 + `"`
	case 2:
		id := g.ID()
		return "[#" + id + "]", ` id="` + id + `"`
	case 3:
		id := g.ID()
		return "[#" + id + "." + r + "]", ` id="` + id + `" class="` + r + `"`
	default:
		return "[" + r + "]", ` class="` + r + `"`
	}
}

// Token generates one token of inline content.
func (g *G) token(w map[string]int, depth int) In {
	k := g.choose(w)
	switch k {
	case "word":
		return plain(g.Word())
	case "punct":
		return plain(g.Word() + g.Pick(",", ".", ";", "!", "?", ":"))
	case "special":
		g.kind(k)
		a, b := g.Word(), g.Word()
		br := "[" + a + "]"
		if g.noFootnote > 0 || depth > 0 { // the footnote would end at the bracket, or a mark after it would be a role
			br = "(" + b + ")"
		}
		return plain(g.Pick(a+" & "+b, a+" < "+b, a+" > "+b, a+"&"+b, "<"+a+">", "</"+a+">", a+"<"+b, a+">"+b, "&"+a+";", "&lt;"+a, "&#38;"+a, `"`+a+`"`, "("+a+")", "$"+a, "%"+a, a+"/"+b, a+"="+b, "{"+a+"}", br, "}"+a, "@"+a))
	case "unicode":
		g.kind(k)
		return plain(g.Word() + g.Pick("é", "ß", "ü", "日本", "λ", "😀", "ñandú", "–", "“x”"))
	case "bold":
		return g.quoted("*", "strong", "bold", "boldx", w, depth, false)
	case "italic":
		return g.quoted("_", "em", "italic", "italicx", w, depth, false)
	case "mono":
		return g.quoted("`", "code", "mono", "monox", w, depth, false)
	case "mark":
		return g.quoted("#", "mark", "mark", "markx", w, depth, false)
	case "boldx":
		return g.quoted("*", "strong", "bold", "boldx", w, depth, true)
	case "italicx":
		return g.quoted("_", "em", "italic", "italicx", w, depth, true)
	case "monox":
		return g.quoted("`", "code", "mono", "monox", w, depth, true)
	case "markx":
		return g.quoted("#", "mark", "mark", "markx", w, depth, true)
	case "sub", "sup":
		g.kind(k)
		a, c := g.Word(), g.Word()
		m := map[string]string{"sub": "~", "sup": "^"}[k]
		b := ""
		if g.Chance(1, 2) {
			b = g.Word()
		}
		at, hat := g.role(depth)
		return In{a + at + m + c + m + b, a + "<" + k + hat + ">" + c + "</" + k + ">" + b, a + c + b}
	case "dquote", "squote":
		g.kind(k)
		q, l, r := `"`, "&#8220;", "&#8221;"
		if k == "squote" {
			q, l, r = `'`, "&#8216;", "&#8217;"
		}
		c := g.tokens(Only(w, "word"), 1, 3, g.many(), depth+1)
		return In{q + "`" + c.S + "`" + q, l + c.H + r, c.T}
	case "symbol":
		g.kind(k)
		a, b := g.Word(), g.Word()
		s := [][2]string{{"(C)", "&#169;"}, {"(R)", "&#174;"}, {"(TM)", "&#8482;"}, {"...", "&#8230;&#8203;"}, {"->", "&#8594;"}, {"<-", "&#8592;"}, {"=>", "&#8658;"}, {"<=", "&#8656;"}}[g.Intn(8)]
		switch g.Intn(4) {
		case 0:
			return In{a + " " + s[0] + " " + b, a + " " + s[1] + " " + b, a + b}
		case 1:
			return In{a + s[0], a + s[1], a}
		case 2:
			return In{a + "--" + b, a + "&#8212;&#8203;" + b, a + b}
		default:
			return In{a + " -- " + b, a + "&#8201;&#8212;&#8201;" + b, a + b}
		}
	case "apos":
		g.kind(k)
		a := g.Word()
		return In{a + "'s", a + "&#8217;s", a}
	case "url":
		g.kind(k)
		u := g.URL()
		if depth == 0 && g.Chance(1, 3) {
			if g.Chance(1, 4) {
				return In{"<" + u + ">", `<a href="` + EscAttr(u) + `" class="bare">` + Esc(u) + `</a>`, ""}
			}
			return In{u, `<a href="` + EscAttr(u) + `" class="bare">` + Esc(u) + `</a>`, ""}
		}
		return g.link(u, EscAttr(u), w, depth)
	case "link":
		g.kind(k)
		p := g.Pick("", "../", "sub/") + g.Word() + g.Pick(".html", ".pdf", "")
		return g.link("link:"+p, p, w, depth)
	case "mailto":
		g.kind(k)
		m := g.email()
		c := g.label(w, depth)
		return In{"mailto:" + m + "[" + c.S + "]", `<a href="mailto:` + m + `">` + c.H + `</a>`, c.T}
	case "email":
		g.kind(k)
		m := g.email()
		return In{m, `<a href="mailto:` + m + `">` + m + `</a>`, ""}
	case "image":
		g.kind(k)
		return g.inlineImage()
	case "icon":
		g.kind(k)
		return g.icon()
	case "macro":
		return g.macro(false)
	case "button":
		g.kind(k)
		l := g.Words(g.Range(1, 2))
		return In{"btn:[" + l + "]", `<b class="button">` + l + `</b>`, ""}
	case "menu":
		g.kind(k)
		return g.menu()
	case "footnote":
		if g.noFootnote > 0 || depth > 0 {
			return plain(g.Word())
		}
		return g.footnote(w)
	case "pass":
		return g.passthrough()
	case "attr":
		if len(g.Attrs) == 0 {
			return plain(g.Word())
		}
		g.kind(k)
		var names []string
		for n := range g.Attrs {
			names = append(names, n)
		}
		sorted(names)
		n := names[g.Intn(len(names))]
		return In{"{" + n + "}", Esc(g.Attrs[n]), g.Attrs[n]}
	case "escape":
		g.kind(k)
		a := g.Word()
		if g.noFootnote == 0 && depth == 0 && g.Chance(1, 6) { // macros
			b := g.Word()
			x := g.Pick("https://"+a+".org/x?y=z&t["+b+"]", "link:"+a+"["+b+" & <"+a+">]", "link:"+a+".html[]", "https://"+a+".org", "mailto:"+a+"@x.org["+b+"<b>]", "http://"+a+".org?a&b", "[["+b+"]]"+a, "[["+b+"&c]]"+a)
			return In{`\` + x, Esc(x), x}
		}
		if g.Chance(1, 6) { // special characters within
			x := g.Pick(a+" & b", a+"<b>"+a, "<"+a+">", a+"&"+a)
			m := g.Pick("*", "_", "`", "#")
			return In{`\` + m + x + m, m + Esc(x) + m, m + x + m}
		}
		switch g.Intn(10) {
		case 5:
			return In{a + ` \(TM)`, a + ` (TM)`, a}
		case 6:
			return In{a + ` \(R) ` + a, a + ` (R) ` + a, a}
		case 7:
			return In{a + ` \-> ` + a, a + ` -&gt; ` + a, a}
		case 8:
			return In{a + ` \=> ` + a, a + ` =&gt; ` + a, a}
		case 9:
			return In{a + `\'s`, a + `&#39;s`, a}
		case 0:
			return In{`\*` + a + `*`, `*` + a + `*`, a}
		case 1:
			return In{`\_` + a + `_`, `_` + a + `_`, a}
		case 2:
			return In{"\\`" + a + "`", "`" + a + "`", a}
		case 3:
			return In{`\#` + a + `#`, `#` + a + `#`, a}
		case 4:
			return In{a + ` \(C)`, a + ` (C)`, a}
		default:
			return In{a + `\...`, a + `...`, a}
		}
	case "anchor":
		if depth > 0 {
			return plain(g.Word())
		}
		g.kind(k)
		id := g.ID()
		a := g.Word()
		return In{"[[" + id + "]]" + a, `<a id="` + id + `"></a>` + a, a}
	case "xref":
		if g.Chance(1, 4) {
			g.kind("xref-external")
			return g.externalXref(w, depth)
		}
		if len(g.Targets) == 0 {
			return plain(g.Word())
		}
		g.kind(k)
		t := g.Targets[g.Intn(len(g.Targets))]
		ref := t.ID
		if t.Natural != "" && g.Chance(1, 3) {
			g.kind("xref-natural")
			ref = t.Natural
			if g.Chance(3, 4) {
				return In{"<<" + ref + ">>", `<a href="#` + strings.ToLower(t.ID) + `">` + t.Label + `</a>`, ""}
			}
		} else if t.Deferred && g.Chance(2, 3) {
			g.kind("xref-block")
			return In{"<<" + t.ID + ">>", "\x01" + t.ID + "\x01", ""}
		}
		if g.Chance(1, 2) || t.Label == "" || ref != t.ID {
			g.kind("xref-label")
			l := g.xrefLabel()
			return In{"<<" + ref + g.Pick(",", ", ") + l + ">>", `<a href="#` + strings.ToLower(t.ID) + `">` + Esc(l) + `</a>`, l}
		}
		return In{"<<" + t.ID + ">>", `<a href="#` + strings.ToLower(t.ID) + `">` + t.Label + `</a>`, ""}
	case "role":
		g.kind(k)
		r := g.Word()
		c := g.Words(g.Range(1, 2))
		i := g.Intn(4)
		mark := []string{"#", "*", "_", "`"}[i]
		tag := []string{"span", "strong", "em", "code"}[i]
		switch g.Intn(3) {
		case 0:
			return In{"[." + r + "]" + mark + c + mark, `<` + tag + ` class="` + r + `">` + c + `</` + tag + `>`, c}
		case 1:
			r2 := g.Word()
			return In{"[." + r + "." + r2 + "]" + mark + c + mark, `<` + tag + ` class="` + r + " " + r2 + `">` + c + `</` + tag + `>`, c}
		default:
			id := g.ID()
			return In{"[#" + id + "." + r + "]" + mark + c + mark, `<` + tag + ` id="` + id + `" class="` + r + `">` + c + `</` + tag + `>`, c}
		}
	case "index":
		g.kind(k)
		a := g.Words(g.Range(1, 2))
		if g.Chance(1, 2) {
			return In{"((" + a + "))", a, a}
		}
		b := g.Word()
		return In{b + "(((" + a + ", " + g.Word() + ")))", b, b}
	case "br":
		return plain(g.Word())
	}
	panic("unknown kind of inline content: " + k)
}

// URL returns an URL.
func (g *G) URL() string {
	u := g.Pick("https", "http", "ftp", "irc") + "://" + g.Word() + ".org"
	if g.Chance(2, 3) {
		u += "/" + g.Word()
		if g.Chance(1, 3) {
			u += "?" + g.Word() + "=1&" + g.Word() + "=2"
		}
		if g.Chance(1, 4) {
			u += "#" + g.Word()
		}
	}
	return u
}

// email returns an email address.
func (g *G) email() string {
	m := g.Word()
	if g.Chance(1, 2) {
		m += g.Pick(".", "+", "-", "_", "%") + g.Word()
	}
	m += "@" + g.Word()
	if g.Chance(1, 4) {
		m += g.Pick("-", ".") + g.Word()
	}
	return m + g.Pick(".org", ".info", ".museum")
}

// link is the brackets of a link, with its text and attributes.
func (g *G) link(s, u string, w map[string]int, depth int) In {
	bare := `<a href="` + u + `" class="bare"`
	if g.Chance(1, 8) {
		return In{s + "[]", bare + `>` + u + `</a>`, ""}
	}
	blank := ` target="_blank" rel="noopener"`
	if g.Chance(1, 12) {
		g.kind("link-blank")
		return In{s + "[^]", bare + blank + `>` + u + `</a>`, ""}
	}
	c := g.label(w, depth)
	switch g.Intn(10) {
	case 0:
		g.kind("link-blank")
		return In{s + "[" + c.S + "^]", `<a href="` + u + `"` + blank + `>` + c.H + `</a>`, c.T}
	case 1:
		g.kind("link-blank")
		return In{s + "[" + c.S + ",window=_blank]", `<a href="` + u + `"` + blank + `>` + c.H + `</a>`, c.T}
	case 2:
		g.kind("link-window")
		n := g.Word()
		return In{s + "[" + c.S + ",window=" + n + "]", `<a href="` + u + `" target="` + n + `">` + c.H + `</a>`, c.T}
	case 3:
		g.kind("link-role")
		r := g.Word()
		return In{s + "[" + c.S + ",role=" + r + "]", `<a href="` + u + `" class="` + r + `">` + c.H + `</a>`, c.T}
	case 4:
		g.kind("link-quoted")
		t := g.Word() + ", " + g.Word()
		r := g.Word()
		return In{s + `["` + t + `",role=` + r + "]", `<a href="` + u + `" class="` + r + `">` + t + `</a>`, t}
	case 5:
		if depth > 0 || g.noFootnote > 0 {
			break
		}
		g.kind("link-id")
		id := g.ID()
		return In{s + "[" + c.S + ",id=" + id + "]", `<a href="` + u + `" id="` + id + `">` + c.H + `</a>`, c.T}
	case 6, 7:
		return g.linkWith(s, u, c, depth)
	}
	return In{s + "[" + c.S + "]", `<a href="` + u + `">` + c.H + `</a>`, c.T}
}

// linkWith is a link with many attributes, in any order.
func (g *G) linkWith(s, u string, c In, depth int) In {
	g.kind("link-attributes")
	class, target, rel := "", "", false
	switch g.Intn(4) {
	case 0:
		c, class = In{"", u, ""}, "bare"
	case 1:
		t := g.Word() + ", " + g.Word()
		c = In{t, t, t}
		if g.Chance(1, 3) {
			c.S, target = c.S+"^", "_blank"
		}
		c.S = `"` + c.S + `"`
	case 2:
		if g.Chance(1, 2) {
			c.S, target = c.S+"^", "_blank"
		}
	}
	var attrs []string
	h := `<a href="` + u + `"`
	for _, k := range g.Perm(4) {
		if g.Chance(1, 2) {
			continue
		}
		switch k {
		case 0:
			if depth > 0 || g.noFootnote > 0 {
				continue
			}
			id := g.ID()
			attrs, h = append(attrs, "id="+id), h+` id="`+id+`"`
		case 1:
			r, n := g.Word(), g.Word()
			if g.Chance(1, 3) {
				attrs, r = append(attrs, `role="`+r+" "+n+`"`), r+" "+n
			} else {
				attrs = append(attrs, "role="+r)
			}
			class = strings.TrimSpace(class + " " + r)
		case 2:
			if target == "" {
				target = g.Pick("_blank", g.Word())
				attrs = append(attrs, "window="+target)
			}
		case 3:
			rel = true
			attrs = append(attrs, "opts="+g.Pick("noopener", `"noopener,nofollow"`))
		}
	}
	if class != "" {
		h += ` class="` + class + `"`
	}
	if target != "" {
		h += ` target="` + target + `"`
	}
	if rel || target == "_blank" {
		h += ` rel="noopener"`
	}
	if c.S != "" {
		attrs = append([]string{c.S}, attrs...)
	}
	return In{s + "[" + strings.Join(attrs, g.Pick(",", ", ")) + "]", h + ">" + c.H + "</a>", c.T}
}

// label is the text of a link.
func (g *G) label(w map[string]int, depth int) In {
	in := map[string]int{"word": 5}
	g.noRole++
	defer func() { g.noRole-- }()
	if depth == 0 {
		for _, k := range []string{"bold", "italic", "mono"} {
			if w[k] > 0 {
				in[k] = 1
			}
		}
	}
	return g.tokens(in, 1, 2, g.many(), depth+1)
}

// many says whether a piece of inline content may be on many lines.
func (g *G) many() bool { return g.multi && g.Chance(1, 4) }

func (g *G) footnote(w map[string]int) In {
	g.kind("footnote")
	var names []string
	for n := range g.fnNames {
		names = append(names, n)
	}
	sorted(names)
	if len(names) > 0 && g.Chance(1, 3) {
		n := names[g.Intn(len(names))]
		g.kind("footnote-again")
		return In{g.Word() + "", "", ""}.with(func(i In) In {
			return In{i.S + "footnote:" + n + "[]", i.S + fmt.Sprintf(`<sup class="footnoteref">[<a class="footnote" href="#_footnotedef_%d" title="View footnote.">%d</a>]</sup>`, g.fnNames[n], g.fnNames[n]), i.S}
		})
	}
	a := g.Word()
	g.noFootnote++
	c := g.tokens(without(w, "footnote", "anchor", "br", "role"), 1, 4, g.many(), 1)
	if g.startsBadly(c.S) { // limit of the grammar: a mark is not seen right after the bracket
		c = join(" ", plain(g.Word()), c)
	}
	g.noFootnote--
	g.Footnotes = append(g.Footnotes, c.H)
	id := len(g.Footnotes)
	name, ref := "", ""
	if g.Chance(1, 3) {
		name = g.Word()
		if len(names) > 0 && g.Chance(1, 2) { // a name which is nearly the one of another
			x := names[g.Intn(len(names))]
			name = g.Pick(strings.ToUpper(x), x+"x", x+"-"+name, x+"_1", x+"1")
			for g.fnNames[name] > 0 {
				name += "b"
			}
		}
		g.fnNames[name] = id
		ref = ` id="_footnote_` + name + `"`
		g.kind("footnote-named")
	}
	return In{a + "footnote:" + name + "[" + c.S + "]",
		a + fmt.Sprintf(`<sup class="footnote"%s>[<a id="_footnoteref_%d" class="footnote" href="#_footnotedef_%d" title="View footnote.">%d</a>]</sup>`, ref, id, id, id), a}
}

func (i In) with(f func(In) In) In { return f(i) }

// FootnotesHTML is the HTML of the footnotes at the end of the document.
func (g *G) FootnotesHTML() string {
	if len(g.Footnotes) == 0 {
		return ""
	}
	b := &strings.Builder{}
	b.WriteString("<div id=\"footnotes\">\n<hr>\n")
	for i, f := range g.Footnotes {
		fmt.Fprintf(b, "<div class=\"footnote\" id=\"_footnotedef_%d\">\n<a href=\"#_footnoteref_%d\">%d</a>. %s\n</div>\n", i+1, i+1, i+1, f)
	}
	b.WriteString("</div>\n")
	return b.String()
}

// passthrough is content which is not, or not entirely, processed.
func (g *G) passthrough() In {
	g.kind("pass")
	a, b := g.Word(), g.Word()
	raw := g.Pick(a+" "+b, "*"+a+"*", "_"+a+"_ "+b, "`"+a+"`", a+" (C) "+b, a+"...", "{"+a+"}", "https://"+a+".org")
	switch g.Intn(5) {
	case 0:
		return In{"+" + raw + "+", Esc(raw), ""}
	case 1:
		r := g.Pick(raw, "<b>"+a+"</b>", "<i class=\"x\">"+a+"</i>"+b, "&amp;"+a)
		return In{"+++" + r + "+++", r, ""}
	case 2:
		r := g.Pick(raw, "<u>"+a+"</u>", "&#169;"+a)
		return In{"pass:[" + r + "]", r, ""}
	case 3:
		if g.noFootnote > 0 { // limit of the grammar
			return In{"pass:[" + a + "]", a, ""}
		}
		return In{"pass:q[<u>" + b + "</u> *" + a + "*]", "<u>" + b + "</u> <strong>" + a + "</strong>", ""}
	default:
		return In{"pass:[<u>" + b + "</u> *" + a + "*]", "<u>" + b + "</u> *" + a + "*", ""}
	}
}

// imageName returns the name of an image and the alternative text which is made from it.
func (g *G) imageName() (string, string) {
	f := g.Word()
	alt := f
	for g.Chance(1, 3) {
		w := g.Word()
		sep := g.Pick("-", "_", ".")
		f += sep + w
		if sep != "." {
			sep = " "
		}
		alt += sep + w
	}
	return g.Pick("", "", "", "sub/", "a-b/c_d/", "../") + f + g.Pick(".png", ".svg", ".jpg"), alt
}

// imageSrc is the location of an image.
func (g *G) imageSrc(name string) (string, string) {
	switch g.Intn(8) {
	case 0:
		name = "https://" + g.Word() + ".org/" + strings.TrimPrefix(name, "../")
		return name, name
	case 1:
		name = "/" + strings.TrimPrefix(name, "../")
		return name, name
	}
	return name, g.ImagesDir + name
}

// imageAttrs are the attributes of an image: what is in the brackets, and the HTML
// which stands for its alternative text and size, its roles, its link and its title.
func (g *G) imageAttrs(alt string, inline bool) (attrs, h, roles, link, end, title string) {
	var l []string
	pos := g.Chance(2, 3)
	size := ""
	if pos {
		alt = g.Words(g.Range(1, 2))
		l = append(l, alt)
		if g.Chance(1, 3) {
			w := strconv.Itoa(g.Range(1, 900))
			l = append(l, w)
			size = ` width="` + w + `"`
			if g.Chance(1, 2) {
				w := strconv.Itoa(g.Range(1, 900))
				l = append(l, w)
				size += ` height="` + w + `"`
			}
		}
	}
	h = ` alt="` + alt + `"` + size
	var named []func()
	named = append(named, func() {
		if !g.Chance(1, 5) {
			return
		}
		f := g.Pick("left", "right")
		l = append(l, "float="+f)
		roles = " " + f + roles
		g.kind("image-float")
	}, func() {
		if !g.Chance(1, 5) {
			return
		}
		u := "https://" + g.Word() + ".org"
		v := u
		if g.Chance(1, 3) {
			u, v = g.Word()+".html", ""
			v = u
		}
		if g.Chance(1, 3) {
			v = `"` + v + `"`
		}
		l = append(l, "link="+v)
		link, end = `<a class="image" href="`+u+`">`, "</a>"
		g.kind("image-link")
	}, func() {
		if !g.Chance(1, 5) || g.NoTitle && !inline {
			return
		}
		title = g.Words(g.Range(1, 2))
		l = append(l, `title="`+title+`"`)
		g.kind("image-title")
	})
	if size == "" && g.Chance(1, 6) {
		w := strconv.Itoa(g.Range(1, 900))
		l = append(l, "width="+w)
		h += ` width="` + w + `"`
	}
	for _, i := range g.Perm(len(named)) {
		named[i]()
	}
	if g.Chance(1, 5) {
		a := g.Pick("left", "center", "right")
		l = append(l, "align="+a)
		// after the float, before the roles
		roles += " text-" + a
		g.kind("image-align")
	}
	if g.Chance(1, 5) {
		r := g.Word()
		l = append(l, "role="+r)
		roles += " " + r
		g.kind("image-role")
	}
	if len(l) > 0 && g.Chance(1, 6) {
		return strings.Join(l, ", "), h, roles, link, end, title
	}
	return strings.Join(l, ","), h, roles, link, end, title
}

func (g *G) inlineImage() In {
	name, alt := g.imageName()
	name, src := g.imageSrc(name)
	attrs, h, roles, link, end, title := g.imageAttrs(alt, true)
	if title != "" {
		title = ` title="` + title + `"`
	}
	return In{"image:" + name + "[" + attrs + "]", `<span class="image` + roles + `">` + link + `<img src="` + src + `"` + h + title + ">" + end + "</span>", ""}
}

func (g *G) icon() In {
	f := g.Pick("heart", "note", "warning", "fire", "tags", "file-o", "Heart")
	var l []string
	size, title, rotate, flip, roles, id, link, end, alt, wh := "", "", "", "", "", "", "", "", f, ""
	if g.Chance(1, 3) {
		size = g.Pick("2x", "lg", "fw")
		l = append(l, g.Pick("", "size=")+size)
	}
	for _, i := range g.Perm(6) {
		if !g.Chance(1, 5) {
			continue
		}
		g.kind("icon-attributes")
		switch i {
		case 0:
			title = g.Word()
			l = append(l, "title="+title)
			title = ` title="` + title + `"`
		case 1:
			rotate = g.Pick("90", "180", "270")
			l = append(l, "rotate="+rotate)
		case 2:
			flip = g.Pick("horizontal", "vertical")
			l = append(l, "flip="+flip)
		case 3:
			r := g.Word()
			l = append(l, "role="+r)
			roles = " " + r
		case 4:
			u := "https://" + g.Word() + ".org"
			l = append(l, "link="+u)
			link, end = `<a class="image" href="`+u+`">`, "</a>"
			if g.Chance(1, 3) {
				w := g.Pick("_blank", g.Word())
				l = append(l, "window="+w)
				link = `<a class="image" href="` + u + `" target="` + w + `">`
			}
		case 5:
			alt = g.Word()
			l = append(l, "alt="+alt)
		}
	}
	if len(l) > 0 && g.Chance(1, 8) {
		w := strconv.Itoa(g.Range(8, 64))
		l = append(l, "width="+w)
		wh = ` width="` + w + `"`
	}
	h := "[" + alt + "&#93;"
	cl := ""
	if size != "" {
		cl += " fa-" + size
	}
	if rotate != "" {
		cl += " fa-rotate-" + rotate
	}
	if flip != "" {
		cl += " fa-flip-" + flip
	}
	switch g.Icons {
	case "font":
		h = `<i class="fa fa-` + f + cl + `"` + title + `></i>`
		g.kind("icon-font")
	case "image":
		if cl != "" {
			cl = ` class="` + cl[1:] + `"`
		}
		h = `<img src="` + g.iconSrc(f) + `" alt="` + alt + `"` + wh + title + cl + `>`
		g.kind("icon-image")
	}
	return In{"icon:" + f + "[" + strings.Join(l, ",") + "]", `<span` + id + ` class="icon` + roles + `">` + link + h + end + `</span>`, ""}
}

// iconSrc is the location of the image of an icon.
func (g *G) iconSrc(name string) string {
	dir := g.IconsDir
	if dir == "" {
		dir = "images/"
		if g.ImagesDir != "" {
			dir = g.ImagesDir
		}
		dir += "icons/"
	}
	ext := g.IconType
	if ext == "" {
		ext = "png"
	}
	return dir + name + "." + ext
}

func (g *G) menu() In {
	n := g.Range(1, 4)
	var path []string
	for i := 0; i < n; i++ {
		w := g.Word()
		if i > 0 && g.Chance(1, 3) {
			w += " " + g.Word()
		}
		path = append(path, w)
	}
	s := "menu:" + path[0] + "[" + strings.Join(path[1:], " > ") + "]"
	if n == 1 {
		return In{s, `<b class="menuref">` + path[0] + `</b>`, ""}
	}
	h := `<span class="menuseq"><b class="menu">` + path[0] + `</b>`
	for i := 1; i < n; i++ {
		cl := "submenu"
		if i == n-1 {
			cl = "menuitem"
		}
		h += `&#160;<b class="caret">&#8250;</b> <b class="` + cl + `">` + path[i] + `</b>`
	}
	return In{s, h + "</span>", ""}
}

// xrefLabel is the label of a cross reference.
func (g *G) xrefLabel() string {
	a, b := g.Word(), g.Word()
	return g.Pick(a, a+" "+b, a+", "+b, "("+a+")", a+" & "+b, "é"+a, "\""+a+"\"", a+"; "+b, "x", "8", "§"+a, a+"?")
}

// externalXref is a reference to another document, or to a part of it.
func (g *G) externalXref(w map[string]int, depth int) In {
	p := g.Pick("", "../", "sub/") + g.Word() + g.Pick("", "-", ".") + g.Word()
	f := ""
	if g.Chance(1, 2) {
		f = "#" + g.Pick("_", "") + g.Word() + g.Pick("", ".1", "-x")
	}
	h, l := `<a href="`+p+".html"+f+`">`, In{"", p + ".html", ""}
	if g.Chance(2, 3) {
		l = g.label(w, depth)
	}
	return In{"xref:" + p + ".adoc" + f + "[" + l.S + "]", h + l.H + "</a>", l.T}
}
