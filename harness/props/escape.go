package props

import (
	"regexp"
	"sort"
	"strings"

	"verif/conv"
	"verif/engine"
	"verif/gen"
	"verif/htm"
)

// ---------------------------------------------------------------------------
// P06: special characters are escaped
// ---------------------------------------------------------------------------

// textPlaces are the words of a document which are text: next to white space or formatting marks.
var modelWord = regexp.MustCompile("(^|[ \n*_`#])([a-z]+[0-9]+[a-z]+)([ \n*_`#,.;!?]|$)")

// escapes replaces some words of a document by the same with special characters within.
func escapes(t *engine.T) *engine.Case {
	c := &engine.Case{Conf: anyConf(t)}
	delete(c.Conf.Attrs, "source-highlighter") // it may split words
	delete(c.Conf.Attrs, "a")                  // known finding: values of attributes are escaped twice
	if t.Chance(1, 2) {
		c.Sub = "soup"
		s := gen.NewSoup(t)
		s.Numbered = true
		s.Ban = func(x string) bool {
			return !textToken(x) || gen.Raw(x) || strings.HasPrefix(x, ":") || strings.HasPrefix(x, "{")
		}
		c.Doc = "x\n\n" + s.Doc(12) // no header
	} else {
		c.Sub = "model"
		g := gen.New(t)
		g.W, g.B = gen.Without(gen.Inl(), "pass", "attr"), gen.Without(gen.Bl(), "passblock", "passpara")
		d := g.Document(gen.Top(), 3, 3, 3)
		c.Doc = d.Source(g)
	}
	d := c.Doc
	n := 0
	if c.Sub == "soup" {
		end := 0
		d = textWord.ReplaceAllStringFunc(d, func(w string) string {
			end += strings.Index(c.Doc[end:], w) + len(w)
			if n > 5 || !t.Chance(1, 3) || location.MatchString(around(c.Doc, end)) {
				return w
			}
			n++
			c.Wants = append(c.Wants, w)
			return payload(t, c, w, true)
		})
	} else {
		words := modelWord.FindAllStringSubmatchIndex(d, -1)
		var picked [][]int
		for _, m := range words {
			if n < 8 && t.Chance(1, 6) {
				n++
				picked = append(picked, m)
			}
		}
		sort.Slice(picked, func(i, j int) bool { return picked[i][0] > picked[j][0] })
		for _, m := range picked {
			w := d[m[4]:m[5]]
			if strings.Count(c.Doc, w) > 1 || hidden(c.Doc[:m[4]]) || strings.Contains(around(c.Doc, m[5]), "@") || inLocation(c.Doc, m[4], m[5]) {
				continue
			}
			c.Wants = append(c.Wants, w)
			d = d[:m[4]] + payload(t, c, w, inBrackets(c.Doc[:m[4]])) + d[m[5]:]
		}
	}
	c.Docs = []string{d}
	c.Label(c.Sub)
	c.Trivial = len(c.Wants) == 0
	return c
}

// location is a URL, an address of a mail or a reference.
var location = regexp.MustCompile(`://|@|<<|[a-z]:`)

// around returns the text next to an index, with no white space.
func around(d string, i int) string {
	j := strings.LastIndexAny(d[:i], " \t\n") + 1
	if k := strings.IndexAny(d[i:], " \t\n"); k >= 0 {
		return d[j : i+k]
	}
	return d[j:]
}

// hidden says whether what follows has no text, or is in a URL.
func hidden(before string) bool {
	line := before[strings.LastIndexByte(before, '\n')+1:]
	if i := strings.LastIndex(line, "<<"); i >= 0 && !strings.Contains(line[i:], ">>") {
		return true // or the label of a reference (see P09)
	}
	return strings.Count(line, "((") > strings.Count(line, "))") || strings.HasSuffix(line, "#") && inURL.MatchString(line)
}

var inURL = regexp.MustCompile(`(https?|ftp|irc|mailto|link):[^ ]*#$`)

// inBrackets says whether what follows is within the brackets of a macro.
func inBrackets(before string) bool {
	line := before[strings.LastIndex(before, "\n\n")+1:] // they may span several lines
	return strings.Count(line, "[") > strings.Count(line, "]")
}

// inLocation says whether a word is in the location of a macro, and not in its brackets.
func inLocation(d string, from, to int) bool {
	j := strings.LastIndexAny(d[:from], " \t\n[") + 1
	return location.MatchString(d[j:to])
}

// payload returns the word with special characters within, and keeps it in the arguments of the case.
func payload(t *engine.T, c *engine.Case, w string, simple bool) string {
	p := ""
	if simple {
		p = t.Pick("<", ">", "&", "<&>", "<b>", "</p>", "</p", "&&", "<script>", "&lt", "&x;", "<?x", "<!x")
	} else {
		p = t.Pick("<", ">", "&", "<b>", "</p>", "<i x=y>", "\"", "<a href=\"x\">", "&lt", "&x;", "]]>", "<?x", "<!x", "& ", " <", "> ", " & ", " < ", " > ")
	}
	i := len(w) - 1
	c.Args = append(c.Args, w[:i]+p+w[i:])
	return w[:i] + p + w[i:]
}

// checkEscapes checks that the special characters in words change nothing but these words.
func checkEscapes(c *engine.Case) *engine.Fail {
	plain, _, err := conv.Convert(c.Doc, c.Conf)
	if err != nil {
		return nil // see P01
	}
	m := conv.Mode(c.Conf)
	a, err := htm.Parse(plain, m)
	if err != nil {
		return nil // see P07
	}
	out, _, err := conv.Convert(c.Docs[0], c.Conf)
	if err != nil {
		return engine.Failf("error", "the conversion of the document with special characters failed: %v", err)
	}
	b, err := htm.Parse(out, m)
	if err != nil {
		return engine.Failf("malformed", "%v\n--- output:\n%s\n--- document with special characters:\n%s", err, out, c.Docs[0])
	}
	var pairs []string
	for i, w := range c.Wants {
		pairs = append(pairs, w, c.Args[i])
	}
	r := strings.NewReplacer(pairs...)
	ids := func(n *htm.Node) { // made of titles (see P09, P10)
		delete(n.Attrs, "id")
		if strings.HasPrefix(n.Attrs["href"], "#") {
			delete(n.Attrs, "href")
		}
	}
	b.Walk(ids)
	a.Walk(ids)
	a.Walk(func(n *htm.Node) {
		n.Text = r.Replace(n.Text)
		for k, v := range n.Attrs {
			if k != "class" {
				n.Attrs[k] = r.Replace(v)
			}
		}
	})
	if d := htm.Diff(b.Canon(), a.Canon()); d != "" {
		return engine.Failf("escape", "%s\n--- output:\n%s\n--- document with special characters:\n%s", d, out, c.Docs[0])
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{ID: "P06", Rule: "special characters were put in at least one word", Quick: 10000, Thorough: 400000,
		Gen: escapes, Check: checkEscapes,
		Assume: []string{"the words which are text are the ones next to white space or formatting marks"}})
}
