package gen

import (
	"fmt"
	"strings"
)

// table generates a table.
func (g *G) table(c Ctx) Block {
	cols := g.Range(1, 4)
	rows := g.Range(1, 4)
	opts := []string{}
	header, footer := false, false
	spec := ""
	var halign, valign []string
	widths := make([]int, cols)
	for i := range widths {
		widths[i] = 1
		halign, valign = append(halign, "left"), append(valign, "top")
	}
	multi := g.Chance(1, 3) // one cell per line: needs cols
	explicit := multi || g.Chance(1, 2)
	auto := make([]bool, cols)
	head := make([]bool, cols)
	anyAuto := false
	if explicit {
		var s []string
		some := g.Chance(1, 5) // some columns have the width of their content
		for i := 0; i < cols; {
			p, ha, va := "", "left", "top"
			switch g.Intn(5) {
			case 1:
				p, ha = ">", "right"
			case 2:
				p, ha = "^", "center"
			case 3:
				p = "<"
			}
			switch g.Intn(5) {
			case 1:
				p, va = p+".>", "bottom"
			case 2:
				p, va = p+".^", "middle"
			case 3:
				p += ".<"
			}
			n := 1
			if i+1 < cols && g.Chance(1, 6) {
				n = g.Range(2, cols-i)
				g.kind("table-repeated-columns")
			}
			wd, ws, au := g.Range(1, 4), "", false
			if some {
				wd = g.Range(1, 25)
			}
			if g.Chance(1, 8) {
				wd *= g.Range(2, 30)
			}
			switch {
			case some && g.Chance(1, 2):
				au, ws, wd = true, "~", 0
				anyAuto = true
				g.kind("table-autowidth-column")
			case wd == 1 && (p != "" || n > 1) && g.Chance(1, 2):
			default:
				ws = fmt.Sprint(wd)
			}
			st, h := "", false
			if g.Chance(1, 6) { // known: the other styles have no effect
				st, h = "h", true
				g.kind("table-header-column")
			}
			rep := ""
			if n > 1 || g.Chance(1, 10) {
				rep = fmt.Sprintf("%d*", n)
			}
			for j := 0; j < n; j++ {
				widths[i], auto[i], head[i], halign[i], valign[i] = wd, au, h, ha, va
				i++
			}
			s = append(s, rep+p+ws+st)
		}
		spec = `cols="` + strings.Join(s, ",") + `"`
	}
	sep := "\n"
	if multi || g.Chance(1, 4) {
		sep = "\n\n" // and then the first line is the header
	}
	if rows > 1 && g.Chance(1, 3) {
		header = true
		opts = append(opts, "header")
	}
	if rows > 1 && sep != "\n" {
		header = true
		g.kind("table-implicit-header")
	}
	if rows > 2 && g.Chance(1, 3) {
		footer = true
		opts = append(opts, "footer")
	}
	frame, grid, stripes, width := "all", "all", "", ""
	fit := " stretch"
	nocols := false
	if g.Chance(1, 8) {
		nocols = true
		fit = " fit-content"
		opts = append(opts, "autowidth")
		g.kind("table-autowidth")
	}
	for _, i := range g.Perm(len(opts)) {
		opts = append(opts, opts[i])
	}
	opts = opts[len(opts)/2:]
	var al []string
	short := ""
	if spec != "" {
		al = append(al, spec)
	}
	if len(opts) > 0 {
		if g.Chance(1, 3) {
			short = "%" + strings.Join(opts, "%")
		} else {
			al = append(al, g.Pick("options", "opts")+`="`+strings.Join(opts, ",")+`"`)
		}
	}
	if g.Chance(1, 6) {
		frame = g.Pick("all", "topbot", "sides", "none")
		al = append(al, "frame="+frame)
	}
	if g.Chance(1, 6) {
		grid = g.Pick("all", "cols", "rows", "none")
		al = append(al, "grid="+grid)
	}
	if g.Chance(1, 8) {
		st := g.Pick("even", "odd", "all", "hover", "none")
		al = append(al, "stripes="+st)
		stripes = " stripes-" + st
		g.kind("table-stripes")
	}
	if g.Chance(1, 6) {
		n := g.Pick("5", "50", "99", "100", "120", "75")
		al = append(al, "width="+n+g.Pick("", "%"))
		switch len(n) {
		case 3:
			fit = " stretch"
		default:
			fit = ""
			width = ` style="width: ` + n + `%;"`
		}
		g.kind("table-width")
	}
	float := ""
	if g.Chance(1, 8) {
		float = g.Pick("left", "right")
		al = append(al, "float="+float)
		float = " " + float
		g.kind("table-float")
	}
	cs, own := g.ownCaption()
	if cs != "" {
		al = append(al, cs[1:])
	}
	for _, i := range g.Perm(len(al)) {
		al = append(al, al[i])
	}
	al = al[len(al)/2:]
	id, roles := "", ""
	taken := ""
	if g.Chance(1, 6) || len(g.Reserve) > 0 && g.Chance(1, 2) {
		i, _ := g.TakeID()
		taken = i
		id = ` id="` + i + `"`
		short = "#" + i + short
	}
	if g.Chance(1, 6) {
		r := g.Word()
		roles = " " + r
		short = "." + r + short
	}
	if short != "" {
		al = append([]string{short}, al...)
	}
	src := ""
	ttl := ""
	if !g.NoTitle && g.Chance(1, 4) {
		t := g.title()
		if taken == "" && g.noFootnote == 0 && g.W["footnote"] > 0 && g.Chance(1, 4) {
			t = join(" ", t, g.footnote(g.W))
			g.kind("footnote-in-title")
		}
		if taken != "" {
			g.label2(taken, t.H)
		}
		ttl = "<caption class=\"title\">" + g.caption("table", "Table", own, &g.Tables) + t.H + "</caption>\n"
		src = "." + t.S + "\n"
	}
	if len(al) > 0 {
		src += "[" + strings.Join(al, ",") + "]\n"
	}
	src += "|===\n"
	var lines []string
	var cells [][]string
	rich := map[string]bool{} // cells which are not a plain paragraph, by row and column
	w := Without(g.W, "footnote", "image", "icon", "anchor", "br", "pass", "index")
	for r := 0; r < rows; r++ {
		var l []string
		var hc []string
		for i := 0; i < cols; i++ {
			if multi && r > 0 && !head[i] && g.Chance(1, 4) {
				t := g.asciidocCell(c, w)
				l, hc = append(l, "a|"+g.Pick("", " ", "\n")+t.S), append(hc, t.H)
				rich[fmt.Sprint(r, " ", i)] = true
				continue
			}
			t := g.tokens(w, 1, 3, false, 0)
			l, hc = append(l, "|"+g.Pick("", " ")+t.S), append(hc, t.H)
		}
		if multi && r > 0 {
			lines = append(lines, strings.Join(l, "\n"))
		} else {
			lines = append(lines, strings.Join(l, " "))
		}
		cells = append(cells, hc)
	}
	src += strings.Join(lines, sep) + "\n|==="
	b := &strings.Builder{}
	total := 0
	for _, x := range widths {
		total += x
	}
	fmt.Fprintf(b, "<table%s class=\"tableblock frame-%s grid-%s%s%s%s\"%s>\n%s<colgroup>\n", id, frame, grid, stripes, fit, float+roles, width, ttl)
	for i, wd := range Widths(widths) {
		if nocols || auto[i] {
			b.WriteString("<col>\n")
			continue
		}
		if anyAuto {
			wd = fmt.Sprint(widths[i])
		}
		fmt.Fprintf(b, "<col style=\"width: %s%%;\">\n", wd)
	}
	b.WriteString("</colgroup>\n")
	first, last := 0, rows
	if header {
		b.WriteString("<thead>\n<tr>\n")
		for i, h := range cells[0] {
			fmt.Fprintf(b, "<th class=\"tableblock halign-%s valign-%s\">%s</th>\n", halign[i], valign[i], h)
		}
		b.WriteString("</tr>\n</thead>\n")
		first = 1
	}
	if footer {
		last--
	}
	b.WriteString("<tbody>\n")
	for j, r := range cells[first:last] {
		b.WriteString("<tr>\n")
		for i, h := range r {
			if rich[fmt.Sprint(j+first, " ", i)] {
				fmt.Fprintf(b, "<td class=\"tableblock halign-%s valign-%s\">%s</td>\n", halign[i], valign[i], h)
				continue
			}
			if head[i] {
				fmt.Fprintf(b, "<th class=\"tableblock halign-%s valign-%s\"><p class=\"tableblock\">%s</p></th>\n", halign[i], valign[i], h)
				continue
			}
			fmt.Fprintf(b, "<td class=\"tableblock halign-%s valign-%s\"><p class=\"tableblock\">%s</p></td>\n", halign[i], valign[i], h)
		}
		b.WriteString("</tr>\n")
	}
	b.WriteString("</tbody>\n")
	if footer {
		b.WriteString("<tfoot>\n<tr>\n")
		for i, h := range cells[rows-1] {
			if rich[fmt.Sprint(rows-1, " ", i)] {
				fmt.Fprintf(b, "<td class=\"tableblock halign-%s valign-%s\">%s</td>\n", halign[i], valign[i], h)
				continue
			}
			fmt.Fprintf(b, "<td class=\"tableblock halign-%s valign-%s\"><p class=\"tableblock\">%s</p></td>\n", halign[i], valign[i], h)
		}
		b.WriteString("</tr>\n</tfoot>\n")
	}
	b.WriteString("</table>\n")
	return Block{S: src, H: b.String()}
}

// Widths are the widths of columns with the given weights, in percent with at
// most 4 decimals, truncated, where the last one takes what remains to 100.
func Widths(weights []int) []string {
	total := 0
	for _, w := range weights {
		total += w
	}
	var r []string
	sum := 0
	if total == 0 {
		total = 1
	}
	for i, w := range weights {
		v := w * 1000000 / total // in 1/10000 of a percent
		if i == len(weights)-1 {
			v = 1000000 - sum
		}
		sum += v
		s := fmt.Sprintf("%d.%04d", v/10000, v%10000)
		s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
		r = append(r, s)
	}
	return r
}

// asciidocCell generates the content of an AsciiDoc cell, which has no blank line.
func (g *G) asciidocCell(c Ctx, w map[string]int) In {
	g.kind("asciidoc-cell")
	text := func() In {
		t := g.tokens(w, 1, 3, false, 0)
		if !g.startsLine(t.S) {
			t = join(" ", plain(g.Word()), t)
		}
		return t
	}
	wrap := func(s, h string) In { return In{s, "<div class=\"content\">" + h + "</div>", ""} }
	t := text()
	switch g.Intn(11) {
	case 0, 1:
		u := text()
		return wrap("* "+t.S+"\n* "+u.S, "<div class=\"ulist\">\n<ul>\n<li>\n<p>"+t.H+"</p>\n</li>\n<li>\n<p>"+u.H+"</p>\n</li>\n</ul>\n</div>\n")
	case 2:
		u := text()
		return wrap(". "+t.S+"\n** "+u.S, "<div class=\"olist arabic\">\n<ol class=\"arabic\">\n<li>\n<p>"+t.H+"</p>\n<div class=\"ulist\">\n<ul>\n<li>\n<p>"+u.H+"</p>\n</li>\n</ul>\n</div>\n</li>\n</ol>\n</div>\n")
	case 3:
		code := g.Word() + g.Pick("", " <b>", " & *x*", "\n  {a} "+g.Word(), " footnote:[x]")
		if c.Used["----"] || c.Used["...."] {
			break
		}
		if g.Chance(1, 2) {
			return wrap("....\n"+code+"\n....", literal(Meta{}, Esc(code)))
		}
		return wrap("----\n"+code+"\n----", listing(Meta{}, Esc(code)))
	case 4:
		return wrap("NOTE: "+t.S, g.admonition("NOTE", Meta{}, "", t.H+"\n"))
	case 5:
		r := g.Word()
		return wrap("[."+r+"]\n"+t.S, "<div class=\"paragraph "+r+"\">\n<p>"+t.H+"</p>\n</div>\n")
	case 6:
		x := g.Word()
		return wrap("."+x+"\n"+t.S, "<div class=\"paragraph\">\n<div class=\"title\">"+x+"</div>\n<p>"+t.H+"</p>\n</div>\n")
	case 7:
		if c.Used["****"] {
			break
		}
		return wrap("****\n"+t.S+"\n****", "<div class=\"sidebarblock\">\n<div class=\"content\">\n<div class=\"paragraph\">\n<p>"+t.H+"</p>\n</div>\n</div>\n</div>\n")
	case 8:
		x := g.Word()
		return wrap(x+":: "+t.S, "<div class=\"dlist\">\n<dl>\n<dt class=\"hdlist1\">"+x+"</dt>\n<dd>\n<p>"+t.H+"</p>\n</dd>\n</dl>\n</div>\n")
	}
	return In{t.S, "<p class=\"tableblock\">" + t.H + "</p>", ""}
}
