package props

import (
	"encoding/base64"
	"fmt"
	"hash/fnv"
	"net/url"
	"path"
	"strings"

	"verif/conv"
	"verif/engine"
	"verif/gen"
	"verif/htm"
)

// ---------------------------------------------------------------------------
// P34: embedded images
// ---------------------------------------------------------------------------

func embedding(t *engine.T) *engine.Case {
	p := profile{
		inline: gen.Boost(gen.Without(gen.Inl(), "pass"), 8, "image", "footnote"), blocks: gen.Boost(gen.Without(gen.Bl(), "passblock", "passpara"), 6, "image"),
		perSec: 3, sects: 2, levels: 2, depth: 3, attrs: someAttrs, prepare: settings, need: []string{"image"},
	}
	c := p.model(t)
	c.Want, c.Wants = "", nil
	delete(c.Conf.Attrs, "data-uri")
	if t.Chance(1, 3) {
		c.Conf.Name = t.Pick("docs/doc.adoc", "./doc.adoc", "a/b/c.asciidoc", "x.adoc")
	}
	c.Ints = []int{t.Intn(1 << 20), t.Intn(8), t.Intn(5)}
	return c
}

// embeddedSource is the value of `src` which is expected instead of the given one, with the files of images.
func embeddedSource(src, dir, scratch string, seed int, files map[string]string) (string, bool) {
	u, err := url.Parse(src)
	if err != nil || strings.ContainsAny(src, "%&\"<>") {
		return "", false
	}
	if u.IsAbs() {
		return src, true
	}
	h := fnv.New32()
	fmt.Fprint(h, src, seed)
	n := h.Sum32() >> 3
	p := path.Join(dir, src)
	if path.IsAbs(src) {
		p = src
	}
	ext := strings.TrimPrefix(path.Ext(p), ".")
	if ext == "svg" {
		ext = "svg+xml"
	}
	data := "data:image/" + ext + ";base64,"
	if rel := strings.TrimPrefix(p, scratch+"/"); rel != p && path.Clean(rel) == rel {
		p = rel
	}
	if n%4 == 0 || path.IsAbs(p) || strings.HasPrefix(p, "..") {
		return data, true // no such file
	}
	content := make([]byte, int(n/4)%300)
	for i := range content {
		content[i] = byte(int(n)*(i+3) + i*i*7)
	}
	files[p] = string(content)
	return data + base64.StdEncoding.EncodeToString(content), true
}

func checkEmbedding(c *engine.Case) *engine.Fail {
	return conv.InDir(nil, func(scratch string) *engine.Fail { return checkEmbeddingIn(c, scratch) })
}

func checkEmbeddingIn(c *engine.Case, scratch string) *engine.Fail {
	m := conv.Mode(c.Conf)
	conf := c.Conf
	conf.Attrs = map[string]string{}
	for k, v := range c.Conf.Attrs {
		conf.Attrs[k] = v
	}
	if c.Ints[2] == 0 {
		conf.Attrs["imagesdir"] = scratch + "/images"
	}
	out, md, err := conv.Convert(c.Doc, conf)
	if err != nil {
		return nil // see P29
	}
	a, err := htm.Parse(out, m)
	if err != nil {
		return nil // see P07
	}
	dir := "."
	if c.Conf.Name != "" {
		dir = path.Dir(c.Conf.Name)
	}
	files := map[string]string{}
	known := true
	a.Walk(func(n *htm.Node) {
		if n.Tag == "img" {
			for p := n.Parent; p != nil; p = p.Parent {
				if p.HasClass("icon") {
					return // icons are not embedded
				}
			}
			src, ok := embeddedSource(n.Attrs["src"], dir, scratch, c.Ints[0], files)
			n.Attrs["src"] = src
			known = known && ok
		}
	})
	for f := range files { // a file cannot be a directory, too
		for d := path.Dir(f); d != "."; d = path.Dir(d) {
			if _, found := files[d]; found {
				return nil
			}
		}
	}
	if !known {
		return nil
	}
	conv.Write(scratch, files)
	doc := c.Doc
	if c.Ints[1] < 2 {
		doc = ":data-uri:\n" + doc
	} else {
		conf.Attrs["data-uri"] = ""
	}
	out, md2, err := conv.Convert(doc, conf)
	if err != nil {
		return engine.Failf("error", "the conversion with data-uri failed: %v", err)
	}
	b, err := htm.Parse(out, m)
	if err != nil {
		return engine.Failf("malformed", "%v\n--- output:\n%s", err, out)
	}
	if d := htm.Diff(b.Canon(), a.Canon()); d != "" {
		return engine.Failf("differs", "%s\n--- output:\n%s\n--- files: %s", d, out, strings.Join(keys(files), " "))
	}
	if x, y := jsonOf(md), jsonOf(md2); x != y {
		return engine.Failf("metadata", "metadata %s and %s", x, y)
	}
	return nil
}

func init() {
	engine.Register(&engine.Prop{ID: "P34", Rule: "the document has at least one image",
		Quick: 8000, Thorough: 300000, Gen: embedding, Check: checkEmbedding,
		Assume: []string{"the document is well converted without the attribute (see P23)"}})
}
