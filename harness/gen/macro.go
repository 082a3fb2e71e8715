package gen

import (
	"sort"
	"strconv"
	"strings"
)

// MacroTemplate is the template of all the user macros of the documents: it shows everything it is given.
const MacroTemplate = `{{if eq .Kind "block"}}<div class="macro">{{else}}<span class="macro">{{end}}` +
	`<i>{{.Kind}}</i><b>{{.Name|html}}</b><s>{{.Value|html}}</s>{{range $k,$v := .Attributes}}<u>{{$k|html}}</u><q>{{printf "%v" $v|html}}</q>{{end}}` +
	`{{if eq .Kind "block"}}</div>{{else}}</span>{{end}}`

// macro is a user macro; its source may end with text that is not one, if inline.
func (g *G) macro(block bool) In {
	if len(g.Macros) == 0 {
		return plain(g.Word())
	}
	name := g.Pick(g.Macros...)
	kind, sep := "inline", ":"
	if block {
		kind, sep = "block", "::"
	}
	if !block && g.Chance(1, 8) { // not a macro
		g.kind("not-a-macro")
		a := g.Word()
		return plain(g.Pick(name, name+": "+a, name+":"+a, a+name+":"+g.Pick("", a)+".", name+";"+a, "("+name+")", a+":"+a))
	}
	g.kind("macro-" + kind)
	value := ""
	if g.Chance(2, 3) {
		a, b := g.Word(), g.Word()
		value = g.Pick(a, a, a+"/"+b+".git", a+"?x=1&y=2", "@"+a, a+"é", a+"<"+b+">", "#"+a, a+"="+b, a+"."+b+",1", "1.2", a+"{"+b+"}"[:1])
	}
	attrs := map[string]string{}
	var l []string
	pos := 0
	for i := g.Weighted(3, 3, 2, 1); i > 0; i-- {
		v, src := g.Word(), ""
		switch g.Intn(8) {
		case 0, 1:
			src = v
		case 2:
			v += " " + g.Word()
			src = v
		case 3:
			v += ", " + g.Word()
			src = `"` + v + `"`
		case 4:
			v += ", " + g.Pick("é", "x", "1.5", "a/b")
			src = "'" + v + "'"
		case 5:
			v += "-" + g.Pick("1", "x", "été")
			src = g.Pick(v, `"`+v+`"`)
		case 6:
			v = g.Pick("8", "1.5", "50%", "x/y.z", "true")
			src = v
		default:
			src = v
			var names []string
			for n := range g.Attrs {
				names = append(names, n)
			}
			if len(names) > 0 {
				sort.Strings(names)
				n := g.Pick(names...)
				a, z := g.Pick("", g.Word()), g.Pick("", "-x")
				v, src = a+g.Attrs[n]+z, a+"{"+n+"}"+z
				if g.Chance(1, 2) {
					src = `"` + src + `"`
				}
				g.kind("attr-in-macro")
			}
		}
		if g.Chance(1, 2) {
			k := g.Pick("color", "size", "data-x", "n1", "with_") + g.Pick("", "2")
			if _, ok := attrs[k]; ok {
				continue
			}
			attrs[k] = v
			l = append(l, k+"="+src)
			continue
		}
		pos++
		attrs["@positional-"+strconv.Itoa(pos)] = v
		l = append(l, src)
	}
	var keys []string
	for k := range attrs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	h := "<i>" + kind + "</i><b>" + name + "</b><s>" + EscAttr(value) + "</s>"
	for _, k := range keys {
		h += "<u>" + k + "</u><q>" + EscAttr(attrs[k]) + "</q>"
	}
	src := name + sep + value + "[" + strings.Join(l, g.Pick(",", ",", ", ")) + "]"
	if block {
		return In{src, `<div class="macro">` + h + "</div>\n", ""}
	}
	return In{src, `<span class="macro">` + h + "</span>", ""}
}
