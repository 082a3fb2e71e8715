package props

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"verif/conv"
	"verif/engine"
	"verif/gen"
)

// anyConf draws a configuration.
func anyConf(t *engine.T) engine.Conf {
	c := engine.Conf{Backend: t.Pick("html5", "html5", "xhtml5", "html", "xhtml"), Wrap: t.Chance(1, 3)}
	set := func(k, v string) {
		if c.Attrs == nil {
			c.Attrs = map[string]string{}
		}
		c.Attrs[k] = v
	}
	if t.Chance(1, 4) {
		set("a", t.Pick("1", "x y", "", "*b*", "<i>", "https://x.org"))
	}
	if t.Chance(1, 6) {
		set(t.Pick("toc", "sectnums", "numbered", "data-uri", "experimental", "unicode", "noheader", "nofooter", "hardbreaks"), "")
	}
	if t.Chance(1, 12) {
		set("unicode", "false")
	}
	if t.Chance(1, 6) {
		set("icons", t.Pick("", "font", "image"))
	}
	if t.Chance(1, 8) {
		set("doctype", t.Pick("manpage", "article", "book"))
	}
	if t.Chance(1, 8) {
		set("source-highlighter", t.Pick("chroma", "pygments", "none"))
	}
	if t.Chance(1, 8) {
		set("imagesdir", t.Pick("img", "./d/", "https://x.org/i"))
	}
	if t.Chance(1, 8) {
		c.CSS = []string{t.Pick("a.css", "https://x.org/b.css")}
	}
	return c
}

// anyModel is a well-formed document, with all the kinds of content.
func anyModel(t *engine.T) (*gen.G, string) {
	g := gen.New(t)
	g.W, g.B = gen.Inl(), gen.Bl()
	d := g.Document(gen.Top(), 4, 4, 3)
	return g, d.Source(g)
}

// anyDoc is a document: a well-formed one, the same damaged, a soup of markup, or characters.
func anyDoc(t *engine.T, lines int) (string, string) {
	switch t.Weighted(6, 2, 3, 1) {
	case 0:
		return gen.NewSoup(t).Doc(lines), "soup"
	case 1:
		_, d := anyModel(t)
		return d, "well-formed"
	case 2:
		_, d := anyModel(t)
		return gen.NewSoup(t).Mutate(d), "damaged"
	default:
		n := t.Range(1, 60)
		b := &strings.Builder{}
		marks := 0
		for i := 0; i < n; i++ {
			switch t.Intn(3) {
			case 0:
				c := byte(t.Intn(128))
				if strings.IndexByte("*_`#~^", c) >= 0 {
					if marks++; marks > gen.MaxMarks {
						continue
					}
				}
				b.WriteByte(c)
			case 1:
				b.WriteByte(byte(t.Intn(256)))
				if c := b.String()[b.Len()-1]; strings.IndexByte("*_`#~^", c) >= 0 {
					marks++
				}
			default:
				b.WriteString(t.Pick("\n", "\n", " ", "a", "=", "-", ".", ":", "[", "]", "|", "<", ">", "{", "}", "\r\n", "\x00", "\ufffd", "\ufffd1\ufffd", "é"))
			}
		}
		return b.String(), "characters"
	}
}

func init() {
	engine.Register(&engine.Prop{ID: "P01", Rule: "the document has at least two lines or ten characters",
		Quick: 25000, Thorough: 1500000,
		Gen: func(t *engine.T) *engine.Case {
			c := &engine.Case{Conf: anyConf(t)}
			var class string
			c.Doc, class = anyDoc(t, 30)
			c.Label(class)
			if c.Conf.Wrap {
				c.Label("wrapped")
			}
			c.Trivial = len(c.Doc) < 10
			return c
		},
		Check: func(c *engine.Case) *engine.Fail {
			before := runtime.NumGoroutine()
			_, _, _ = conv.Convert(c.Doc, c.Conf)
			return goroutines(before)
		},
		Assume: []string{
			fmt.Sprintf("a conversion hangs when it takes more than 30 s of processor time, or makes no progress for 60 s; a paragraph has at most %d quotes, since the time to parse one is exponential in the number of those which are not closed (known finding)", gen.MaxMarks),
		},
	})
}

// allowed are the errors which say what is wrong with the document.
var allowed = []string{"Unresolved directive in ", "unsupported icon type ", "unsupported table of contents placement"}

func init() {
	engine.Register(&engine.Prop{ID: "P29", Rule: "the document has at least two lines or ten characters",
		Quick: 25000, Thorough: 1500000,
		Gen: func(t *engine.T) *engine.Case {
			c := &engine.Case{Conf: anyConf(t)}
			var class string
			c.Doc, class = anyDoc(t, 16)
			c.Doc = strings.ToValidUTF8(c.Doc, "?")
			c.Label(class)
			c.Trivial = len(c.Doc) < 10
			return c
		},
		Check: func(c *engine.Case) *engine.Fail {
			_, _, err := conv.Convert(c.Doc, c.Conf)
			if err == nil {
				return nil
			}
			for _, a := range allowed {
				if strings.Contains(err.Error(), a) {
					return nil
				}
			}
			return engine.Failf("error", "the conversion failed: %s", err)
		},
		Assume: []string{"the errors which are expected are recognised by their messages: a file which cannot be included, and values of 'icons' and 'toc' which do not exist"},
	})
}

// goroutines checks that the goroutines which a conversion started have ended.
func goroutines(before int) *engine.Fail {
	for i := 0; i < 400; i++ {
		if runtime.NumGoroutine() <= before {
			return nil
		}
		time.Sleep(time.Duration(1+i/20) * time.Millisecond)
	}
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	return engine.Failf("leak", "%d goroutines before, %d after\n%s", before, runtime.NumGoroutine(), buf)
}
