package props

import (
	"verif/conv"
	"verif/engine"
	"verif/gen"
)

// ---------------------------------------------------------------------------
// P32: user macros
// ---------------------------------------------------------------------------

// useMacros registers some user macros.
func useMacros(g *gen.G, c *engine.Case) {
	names := []string{"git", "x-y_2", "größe", "v2", "issue"}
	c.Conf.Macros = map[string]string{}
	for _, i := range g.Perm(len(names))[:g.Range(1, 3)] {
		g.Macros = append(g.Macros, names[i])
		c.Conf.Macros[names[i]] = gen.MacroTemplate
	}
}

var macroProfile = func() profile {
	bl := gen.Without(gen.Bl())
	bl["macro"] = 3
	inl := gen.Inl()
	inl["macro"] = 6
	return profile{inline: inl, blocks: bl, need: []string{"macro-inline", "macro-block"}, perSec: 4, sects: 3, levels: 2, depth: 3, attrs: someAttrs, prepare: useMacros}
}()

func macros(t *engine.T) *engine.Case {
	switch t.Weighted(8, 1, 1) {
	case 1: // macros which are not used
		c := &engine.Case{Sub: "unused", Conf: anyConf(t)}
		c.Label("unused")
		c.Doc, _ = anyDoc(t, 20)
		return c
	case 2: // macros whose template fails
		c := macroProfile.model(t)
		c.Sub = "failing"
		c.Label("failing")
		c.Ints = []int{0}
		for n := range c.Conf.Macros {
			c.Conf.Macros[n] = `{{.Value}}{{index .Name 99}}`
		}
		c.Trivial = false
		for _, l := range c.Labels {
			if l == "macro-inline" || l == "macro-block" {
				c.Ints[0] = 1
			}
		}
		return c
	}
	return macroProfile.model(t)
}

func checkMacros(c *engine.Case) *engine.Fail {
	switch c.Sub {
	case "unused":
		a, _, err1 := conv.Convert(c.Doc, c.Conf)
		conf := c.Conf
		conf.Macros = map[string]string{"zz-unused": gen.MacroTemplate}
		b, _, err2 := conv.Convert(c.Doc, conf)
		if (err1 == nil) != (err2 == nil) {
			return engine.Failf("unused", "errors: %v and %v", err1, err2)
		}
		if err1 == nil && a != b {
			return engine.Failf("unused", "a macro which is not used changed the output\n--- without:\n%s\n--- with:\n%s", a, b)
		}
		return nil
	case "failing":
		out, _, err := conv.Convert(c.Doc, c.Conf)
		if err == nil && c.Ints[0] == 1 {
			return engine.Failf("failing", "no error although the template of a macro fails\n--- output:\n%s", out)
		}
		if err != nil && c.Ints[0] == 0 {
			return engine.Failf("failing", "%v", err)
		}
		return nil
	}
	return checkWant(c)
}

func init() {
	engine.Register(&engine.Prop{ID: "P32", Rule: "the document has a user macro; or none, with one registered; or the template of the macros fails", Gen: macros, Check: checkMacros,
		Quick: 8000, Thorough: 300000,
		Assume: []string{"the templates are text templates of the standard library, which show all that they are given"}})
}
