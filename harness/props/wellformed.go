package props

import (
	"strings"
	"unicode/utf8"

	"verif/conv"
	"verif/engine"
	"verif/gen"
	"verif/htm"
)

// quiet is a document without anything which goes into the output as it is:
// no passthrough, no 'subs', and no special characters in roles (known finding).
func quiet(t *engine.T, lines int) (string, string) {
	s := gen.NewSoup(t)
	s.Ban = func(x string) bool {
		return gen.Raw(x) || strings.Contains(x, "role=\"{a}") || strings.Contains(x, "&#")
	}
	model := func() string {
		g := gen.New(t)
		g.W, g.B = gen.Without(gen.Inl(), "pass"), gen.Without(gen.Bl(), "passblock", "passpara")
		return g.Document(gen.Top(), 4, 4, 3).Source(g)
	}
	switch t.Weighted(5, 2, 3) {
	case 0:
		return s.Doc(lines), "soup"
	case 1:
		return model(), "well-formed"
	default:
		return s.Mutate(model()), "damaged"
	}
}

// special says whether a role may have special characters.
func specialRole(doc string) bool {
	for i := strings.IndexByte(doc, '['); i >= 0; {
		j := strings.IndexByte(doc[i:], ']')
		if j < 0 {
			return false
		}
		if strings.ContainsAny(doc[i:i+j], "<>&\"") {
			if strings.ContainsAny(doc[i:i+j], ".=") && strings.HasPrefix(doc[i+j+1:]+"\n", "\n") {
				return true // roles of blocks
			}
			for _, q := range []string{"*", "_", "`", "#", "~", "^"} {
				if strings.HasPrefix(doc[i+j+1:], q) {
					return true
				}
			}
		}
		k := strings.IndexByte(doc[i+1:], '[')
		if k < 0 {
			return false
		}
		i += k + 1
	}
	return false
}

func init() {
	engine.Register(&engine.Prop{ID: "P07", Rule: "the output has at least three elements",
		Quick: 16000, Thorough: 1000000,
		Gen: func(t *engine.T) *engine.Case {
			c := &engine.Case{Conf: anyConf(t)}
			if c.Conf.Attrs["a"] == "<i>" {
				c.Conf.Attrs["a"] = "w"
			}
			var class string
			c.Doc, class = quiet(t, 25)
			c.Label(class, c.Conf.Backend)
			c.Trivial = specialRole(c.Doc) || len(c.Doc) < 10
			return c
		},
		Check: func(c *engine.Case) *engine.Fail {
			strict := len(c.Args) > 0 // the known findings
			if specialRole(c.Doc) && !strict {
				return nil
			}
			out, _, err := conv.Convert(c.Doc, c.Conf)
			if err != nil || !utf8.ValidString(c.Doc) {
				return nil
			}
			if !strict {
				out = strings.ReplaceAll(out, " reversed>", ` reversed="reversed">`)
			}
			if _, err := htm.Parse(out, conv.Mode(c.Conf)); err != nil {
				return engine.Failf("malformed", "%v\n--- output:\n%s", err, out)
			}
			return nil
		},
	})
}
