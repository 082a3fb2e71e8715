// Package props holds the properties: for each, the generator of its cases and the check of one case.
package props

import (
	"strings"

	"verif/conv"
	"verif/engine"
	"verif/gen"
)

// checkWant checks that the document is converted to what the generator says.
func checkWant(c *engine.Case) *engine.Fail { return conv.Same(c.Doc, c.Conf, c.Want) }

// profile says what the documents of a property are made of.
type profile struct {
	inline  map[string]int
	blocks  map[string]int
	need    []string // kinds of content, of which at least one makes a case non-trivial
	sects   int      // maximum number of sections
	levels  int      // maximum level of the sections
	perSec  int      // maximum number of blocks in a section
	depth   int      // maximum nesting of blocks
	always  bool     // there are always sections
	unicode bool
	attrs   map[string]string
	prepare func(g *gen.G, c *engine.Case)
	finish  func(g *gen.G, c *engine.Case)
}

// model generates a document and its HTML with the profile.
func (p profile) model(t *engine.T) *engine.Case {
	g := gen.New(t)
	g.W, g.B = p.inline, p.blocks
	c := &engine.Case{}
	if t.Chance(1, 4) {
		c.Conf.Backend = t.Pick("xhtml5", "xhtml", "html")
		g.XML = c.Conf.Backend != "html"
	}
	attrs := p.attrs
	if len(attrs) > 0 { // known finding: an escape is lost where an attribute is replaced
		if t.Chance(1, 2) {
			attrs = nil
		} else {
			g.W = gen.Without(g.W, "escape")
		}
	}
	for k, v := range attrs {
		if c.Conf.Attrs == nil {
			c.Conf.Attrs = map[string]string{}
		}
		c.Conf.Attrs[k] = v
		g.Attrs[k] = v
	}
	if p.prepare != nil {
		p.prepare(g, c)
	}
	ctx := gen.Top()
	if p.depth > 0 {
		ctx.Max = p.depth
	}
	if p.sects > 0 && (p.always || t.Chance(1, 2)) {
		d := g.Document(ctx, p.sects, p.levels, p.perSec)
		c.Doc, c.Want = d.Source(g), d.HTML(g)
		g.Kinds["document"] = true
	} else {
		b := g.Blocks(ctx, 1, p.perSec)
		c.Doc, c.Want = b.S+"\n", b.H+g.FootnotesHTML()
		g.Kinds["blocks"] = true
	}
	c.Want = g.Resolve(c.Want)
	c.Label(g.KindList("")...)
	c.Trivial = len(p.need) > 0
	for _, k := range p.need {
		if g.Kinds[k] {
			c.Trivial = false
		}
	}
	if p.finish != nil {
		p.finish(g, c)
	}
	return c
}

// settings sets, now and then, the attributes of the document which change how images,
// icons and captions are rendered.
func settings(g *gen.G, c *engine.Case) {
	set := func(k, v string) {
		a := map[string]string{}
		for k, v := range c.Conf.Attrs {
			a[k] = v
		}
		a[k] = v
		c.Conf.Attrs = a
	}
	if g.Chance(1, 4) {
		d := g.Pick("img", "assets/img", "https://cdn.example.org/x")
		if strings.Contains(d, ":") {
			set("iconsdir", "icons")
			g.IconsDir = "icons/"
		}
		set("imagesdir", d+g.Pick("", "/"))
		g.ImagesDir = d + "/"
	}
	if g.Chance(1, 3) {
		g.Icons = g.Pick("font", "image")
		v := g.Icons
		if v == "image" && g.Chance(1, 2) {
			v = ""
		}
		set("icons", v)
		if g.Chance(1, 2) {
			d := g.Pick("my/icons", "ico")
			set("iconsdir", d+g.Pick("", "/"))
			g.IconsDir = d + "/"
		}
		if g.Chance(1, 2) {
			g.IconType = g.Pick("svg", "gif")
			set("icontype", g.IconType)
		}
	}
	for _, k := range []string{"table", "figure", "example", "note", "tip", "warning"} {
		if g.Chance(1, 6) {
			w := g.Pick("Tableau", "A & B", "<x>", "Two words")
			if len(k) > 4 && k != "warning" && g.Chance(1, 3) {
				w = ""
			}
			if g.Captions == nil {
				g.Captions = map[string]string{}
			}
			g.Captions[k] = w
			set(k+"-caption", w)
		}
	}
	set("experimental", "")
	g.W = gen.Without(g.W)
	g.W["button"], g.W["menu"] = 1, 1
}

func registerModel(id, rule string, p profile, quick, thorough int) {
	engine.Register(&engine.Prop{ID: id, Rule: rule, Gen: p.model, Check: checkWant, Quick: quick, Thorough: thorough,
		Assume: []string{"the expected HTML is built by the generator, side by side with the document, from the same choices; output and expectation are compared as trees, up to white space without meaning in HTML"}})
}

var someAttrs = map[string]string{"product": "Widget", "rel-v2": "4.5.6", "my-word": "plainvalue"}

func init() {
	inl, bl := gen.Inl(), gen.Bl()
	text := gen.Only(bl, "para", "ulist", "olist", "dlist", "table", "admpara", "example", "quote", "verse", "sidebar", "mdquote", "quotepara", "admblock", "open")
	text["para"] = 16
	registerModel("P21", "the document has at least one formatted, quoted or replaced text", profile{
		inline: gen.Boost(gen.Without(inl, "footnote"), 3, "bold", "italic", "mono", "mark", "boldx", "italicx", "monox", "markx", "sub", "sup", "dquote", "squote", "symbol", "apos", "role"),
		blocks: text, perSec: 3, sects: 2, levels: 2, attrs: someAttrs,
		need: []string{"bold", "italic", "mono", "mark", "sub", "sup", "dquote", "squote", "symbol", "apos", "role"},
	}, 12000, 400000)
	registerModel("P20", "the document has at least one footnote", profile{
		inline: gen.Boost(inl, 8, "footnote"), blocks: gen.Boost(bl, 3, "ulist", "dlist", "table", "admpara", "example"),
		perSec: 4, sects: 4, levels: 3, attrs: someAttrs, need: []string{"footnote"},
		prepare: func(g *gen.G, c *engine.Case) { g.Lost = true },
	}, 10000, 300000)
	registerModel("P23", "the document has at least one link, image, icon, anchor, index term or UI macro", profile{
		inline: gen.Boost(gen.Without(inl, "footnote"), 6, "url", "link", "mailto", "email", "image", "icon", "anchor", "index"),
		blocks: gen.Boost(text, 6, "image"), perSec: 3, sects: 2, levels: 2, attrs: someAttrs,
		prepare: settings,
		need:    []string{"url", "link", "mailto", "email", "image", "icon", "anchor", "index", "button", "menu"},
	}, 12000, 400000)
	registerModel("P18", "the document has at least one list", profile{
		inline: gen.Only(inl, "word", "bold", "italic", "url", "symbol", "punct"),
		blocks: map[string]int{"para": 3, "ulist": 6, "olist": 6, "dlist": 5, "qanda": 2, "hdlist": 2, "checklist": 3, "listing": 1, "example": 1, "open": 1, "source": 1, "image": 1, "admpara": 1, "comment": 1},
		perSec: 3, depth: 3, sects: 2, levels: 2, need: []string{"ulist", "olist", "dlist", "qanda", "hdlist", "checklist"},
		prepare: func(g *gen.G, c *engine.Case) { g.BlankAfterPlus = true },
	}, 12000, 400000)
	registerModel("P19", "the document has at least one table", profile{
		inline: gen.Without(inl, "footnote"), blocks: map[string]int{"para": 1, "table": 8, "example": 1, "ulist": 1},
		perSec: 3, sects: 2, levels: 2, attrs: someAttrs, need: []string{"table"}, prepare: settings,
	}, 12000, 400000)
	registerModel("P27", "the document has at least one block which is not a plain paragraph", profile{
		inline: gen.Only(inl, "word", "bold", "italic", "mono", "symbol", "punct", "special", "url"),
		blocks: bl, perSec: 4, depth: 3, sects: 2, levels: 2, prepare: settings,
		need: []string{"admpara", "litpara", "listing", "literal", "source", "fenced", "example", "quote", "sidebar", "open", "admblock", "verse", "passblock", "mdquote", "image", "break", "exmpara", "quotepara", "versepara", "listpara", "litstyle", "passpara", "srcpara"},
	}, 12000, 400000)
}
