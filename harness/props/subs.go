package props

import (
	"fmt"
	"strings"

	"verif/conv"
	"verif/engine"
	"verif/gen"
)

// ---------------------------------------------------------------------------
// P22: substitutions are the ones asked for, passthroughs and escapes are kept as they are
// ---------------------------------------------------------------------------

var normalSubs = []string{"attributes", "specialchars", "quotes", "replacements", "macros", "post_replacements"}

// unit is a piece of text which one substitution replaces.
type unit struct{ sub, src, on string }

func subUnit(t *engine.T, g *gen.G) unit {
	w := g.Word()
	v := g.Word()
	switch t.Intn(8) {
	case 0, 1:
		i := t.Intn(6)
		m := []string{"*", "_", "`", "#", "**", "__"}[i]
		e := []string{"strong", "em", "code", "mark", "strong", "em"}[i]
		if t.Chance(1, 6) {
			m = t.Pick(m[:1], m[:1], "^", "~")
			return unit{"quotes", `\` + m + w + m, m + w + m}
		}
		if t.Chance(1, 6) {
			return unit{"quotes", "[." + v + "]#" + w + "#", `<span class="` + v + `">` + w + "</span>"}
		}
		return unit{"quotes", m + w + m, "<" + e + ">" + w + "</" + e + ">"}
	case 2:
		if t.Chance(1, 4) {
			return unit{"", "{" + w + "}", ""} // not declared
		}
		if t.Chance(1, 4) {
			return unit{"attributes", `\{one}`, "{one}"}
		}
		return unit{"attributes", "{one}", "value1"}
	case 3:
		return unit{"specialchars", "<i>" + w + "</i>", "&lt;i&gt;" + w + "&lt;/i&gt;"}
	case 4:
		switch t.Intn(6) {
		case 0:
			return unit{"replacements", "(C)", "&#169;"}
		case 1:
			return unit{"replacements", w + "...", w + "&#8230;&#8203;"}
		case 2:
			return unit{"replacements", w + "(TM)", w + "&#8482;"}
		case 3:
			return unit{"replacements", w + "--" + v, w + "&#8212;&#8203;" + v}
		case 4:
			return unit{"replacements", "o'" + w, "o&#8217;" + w}
		default:
			return unit{"replacements", `\(R)`, "(R)"}
		}
	case 5:
		switch t.Intn(5) {
		case 4:
			x := t.Pick("https://"+w+".org["+v+"]", "https://"+w+".org", "link:"+w+"["+v+"]", "mailto:"+w+"@x.org["+v+"]", "[["+w+"]]")
			return unit{"macros", `\` + x, x}
		case 0:
			return unit{"macros", "https://" + w + ".org[" + v + "]", `<a href="https://` + w + `.org">` + v + "</a>"}
		case 1:
			return unit{"macros", "link:" + w + ".html[" + v + "]", `<a href="` + w + `.html">` + v + "</a>"}
		case 2:
			return unit{"macros", "image:" + w + ".png[" + v + "]", `<span class="image"><img src="` + w + `.png" alt="` + v + `"></span>`}
		default:
			return unit{"macros", "mailto:" + w + "@x.org[" + v + "]", `<a href="mailto:` + w + `@x.org">` + v + "</a>"}
		}
	case 6:
		return unit{"post_replacements", w + " +\n" + v, w + "<br>\n" + v}
	}
	return unit{"", w, ""}
}

// subsValue generates a value of 'subs', and returns it with the substitutions which it stands for.
func subsValue(t *engine.T, def []string) (string, map[string]bool) {
	on := map[string]bool{}
	set := func(name string, v bool) {
		switch name {
		case "normal":
			for _, s := range normalSubs {
				on[s] = v
			}
		case "verbatim", "specialcharacters", "specialchars":
			on["specialchars"] = v
		case "none":
		default:
			on[name] = v
		}
	}
	names := append([]string{"specialcharacters", "none", "normal", "verbatim"}, normalSubs...)
	var value []string
	if t.Chance(1, 2) {
		for _, s := range def {
			set(s, true)
		}
		for n := t.Range(1, 3); n > 0; n-- {
			name := names[t.Range(2, len(names)-1)]
			if t.Chance(1, 4) {
				name = "specialcharacters"
			}
			switch t.Intn(3) {
			case 0:
				value = append(value, "+"+name)
				set(name, true)
			case 1:
				value = append(value, name+"+")
				set(name, true)
			default:
				value = append(value, "-"+name)
				set(name, false)
			}
		}
	} else {
		for n := t.Range(1, 4); n > 0; n-- {
			name := names[t.Intn(len(names))]
			value = append(value, name)
			set(name, true)
		}
	}
	v := strings.Join(value, t.Pick(",", ", "))
	if len(value) == 1 && t.Chance(1, 2) {
		return v, on
	}
	return `"` + v + `"`, on
}

func subs(t *engine.T) *engine.Case {
	if t.Chance(1, 2) {
		return passthroughs(t)
	}
	c := &engine.Case{Sub: "subs"}
	g := gen.New(t)
	b := []struct {
		style, delim string
		def          []string
		html         string
	}{
		{"", "", normalSubs, "<div class=\"paragraph\">\n<p>%s</p>\n</div>\n"},
		{"quote", "", normalSubs, "<div class=\"quoteblock\">\n<blockquote>\n%s\n</blockquote>\n</div>\n"},
		{"NOTE", "", normalSubs, "<div class=\"admonitionblock note\">\n<table>\n<tr>\n<td class=\"icon\">\n<div class=\"title\">Note</div>\n</td>\n<td class=\"content\">\n%s\n</td>\n</tr>\n</table>\n</div>\n"},
		{"", "----", []string{"specialchars"}, "<div class=\"listingblock\">\n<div class=\"content\">\n<pre>%s</pre>\n</div>\n</div>\n"},
		{"", "....", []string{"specialchars"}, "<div class=\"literalblock\">\n<div class=\"content\">\n<pre>%s</pre>\n</div>\n</div>\n"},
		{"literal", "", []string{"specialchars"}, "<div class=\"literalblock\">\n<div class=\"content\">\n<pre>%s</pre>\n</div>\n</div>\n"},
		{"listing", "", []string{"specialchars"}, "<div class=\"listingblock\">\n<div class=\"content\">\n<pre>%s</pre>\n</div>\n</div>\n"},
		{"", "```", []string{"specialchars"}, "<div class=\"listingblock\">\n<div class=\"content\">\n<pre class=\"highlight\"><code>%s</code></pre>\n</div>\n</div>\n"},
		{"source", "----", []string{"specialchars"}, "<div class=\"listingblock\">\n<div class=\"content\">\n<pre class=\"highlight\"><code>%s</code></pre>\n</div>\n</div>\n"},
		{"verse", "____", normalSubs, "<div class=\"verseblock\">\n<pre class=\"content\">%s</pre>\n</div>\n"},
		{"", "++++", nil, "%s\n"},
		{"pass", "", nil, "%s\n"},
	}[t.Intn(12)]
	style := b.style
	on := map[string]bool{}
	for _, s := range b.def {
		on[s] = true
	}
	if t.Chance(4, 5) {
		v, o := subsValue(t, b.def)
		on = o
		style += ",subs=" + v
		style = strings.TrimPrefix(style, ",")
	}
	escape := t.Chance(1, 3) // known finding: escapes are lost where there are references to attributes
	src := []string{g.Word()}
	html := []string{src[0]}
	for n := t.Range(1, 6); n > 0; n-- {
		u := subUnit(t, g)
		if strings.HasPrefix(u.src, "\\") && !escape || strings.HasPrefix(u.src, "{") && escape {
			continue
		}
		h := u.src
		if on[u.sub] {
			h = u.on
			c.Label(u.sub)
		}
		src, html = append(src, u.src), append(html, h)
		c.Trivial = c.Trivial || u.sub != ""
	}
	c.Trivial = !c.Trivial
	d := strings.Join(src, " ")
	if b.delim != "" {
		d = b.delim + "\n" + d + "\n" + b.delim
	}
	if style != "" {
		d = "[" + style + "]\n" + d
	}
	c.Doc = ":one: value1\n\n" + d + "\n"
	c.Want = fmt.Sprintf(b.html, strings.Join(html, " "))
	c.Conf.Attrs = nil
	return c
}

// passthroughs generates text which is not to be processed.
func passthroughs(t *engine.T) *engine.Case {
	c := &engine.Case{Sub: "pass"}
	k := []struct {
		open, close, ban string
		raw              bool
	}{
		{"+", "+", "+", false}, {"+++", "+++", "+", true}, {"pass:[", "]", "]", true},
	}[t.Intn(3)]
	p := []struct {
		src, html string
		line      bool
	}{
		{"foo %s bar", "<div class=\"paragraph\">\n<p>foo %s bar</p>\n</div>\n", false},
		{"%s", "<div class=\"paragraph\">\n<p>%s</p>\n</div>\n", false},
		{"*foo* %s, _bar_", "<div class=\"paragraph\">\n<p><strong>foo</strong> %s, <em>bar</em></p>\n</div>\n", false},
		{"(%s) `x`", "<div class=\"paragraph\">\n<p>(%s) <code>x</code></p>\n</div>\n", false},
		{"* foo %s", "<div class=\"ulist\">\n<ul>\n<li>\n<p>foo %s</p>\n</li>\n</ul>\n</div>\n", true},
		{"NOTE: foo %s", "<div class=\"admonitionblock note\">\n<table>\n<tr>\n<td class=\"icon\">\n<div class=\"title\">Note</div>\n</td>\n<td class=\"content\">\nfoo %s\n</td>\n</tr>\n</table>\n</div>\n", true},
		{"[quote]\nfoo %s", "<div class=\"quoteblock\">\n<blockquote>\nfoo %s\n</blockquote>\n</div>\n", false},
		{"foo:: bar %s", "<div class=\"dlist\">\n<dl>\n<dt class=\"hdlist1\">foo</dt>\n<dd>\n<p>bar %s</p>\n</dd>\n</dl>\n</div>\n", true},
	}[t.Intn(8)]
	var parts []string
	for n := t.Range(1, 5); n > 0; n-- {
		parts = append(parts, passToken(t, k.ban, p.line))
	}
	if k.open == "pass:[" && t.Chance(1, 3) {
		g := gen.New(t)
		c.Sub = "pass q"
		k.open = "pass:q["
		var src, html []string
		for n := t.Range(1, 5); n > 0; n-- {
			u := subUnit(t, g)
			if strings.ContainsAny(u.src, "\n\\[]") {
				continue
			}
			h := u.src
			if u.sub == "quotes" {
				h = u.on
			}
			src, html = append(src, u.src), append(html, h)
		}
		src, html = append(src, "_z_"), append(html, "<em>z</em>")
		c.Doc = ":one: x\n\n" + fmt.Sprintf(p.src, k.open+strings.Join(src, " ")+k.close) + "\n"
		c.Want = fmt.Sprintf(p.html, strings.Join(html, " "))
		c.Label("pass " + k.open)
		return c
	}
	x := strings.Trim(strings.Join(parts, t.Pick("", " ")), " \\")
	if x == "" {
		x = "x"
	}
	c.Doc = fmt.Sprintf(p.src, k.open+x+k.close) + "\n"
	if !k.raw {
		x = gen.Esc(x)
	}
	c.Want = fmt.Sprintf(p.html, x)
	c.Label("pass " + k.open)
	c.Trivial = len(x) < 2
	return c
}

func passToken(t *engine.T, ban string, line bool) string {
	for {
		x := t.Pick("a", "foo", "*b*", "_i_", "`m`", "#m#", "^s^", "~s~", "**", "__", "*", "_", "`", "#", "{a}", "{one}", "{counter:x}", "(C)", "(TM)", "--", " -- ", "...", "->", "=>", "it's", "\"`q`\"", "'`q`'", "<b>", "</b>", "<", ">", "&", "&amp;", "&#169;", "https://x.org", "https://x.org[y]", "x@y.org", "link:x[y]", "image:x.png[]", "<<x>>", "((x))", "(((x)))", "[[x]]", "[.r]#x#", "footnote:[x]", "\"", "'", "[", "(", ")", "|", "\\*x*", "\\{a}", "\\", "é", "日本", "😀", "$x", "+", "a+b", "%", "=", ";", "é'é", "icon:x[]", "btn:[x]", "xref:x[y]")
		if strings.Contains(x, "@") && ban == "+" { // it may be part of an address
			continue
		}
		if !strings.Contains(x, ban) && !(line && strings.Contains(x, "\n")) {
			return x
		}
	}
}

var quotes = strings.NewReplacer("&#39;", "'", "&#34;", `"`)

func checkSubs(c *engine.Case) *engine.Fail {
	out, _, err := conv.Convert(c.Doc, c.Conf)
	if err != nil {
		return engine.Failf("error", "%v", err)
	}
	if c.Sub == "pass" { // quotes are the same as characters or as entities
		out, c.Want = quotes.Replace(out), quotes.Replace(c.Want)
	}
	if out != c.Want {
		return engine.Failf(c.Sub, "%s\n--- output:\n%s\n--- want:\n%s", firstDiff(out, c.Want), out, c.Want)
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{ID: "P22", Rule: "the text has something which a substitution would replace", Quick: 20000, Thorough: 1000000,
		Gen: subs, Check: checkSubs})
}
