// Package conv runs conversions through the public interface of the library.
package conv

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"text/template"
	"time"

	libasciidoc "github.com/bytesparadise/libasciidoc"
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"

	"verif/engine"
	"verif/htm"
)

// Updated is the time of the last update given to every conversion.
var Updated = time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC)

// Config returns the configuration of the library for the given conf. Its settings are given in one of the
// ways which are equivalent.
func Config(c engine.Conf) *configuration.Configuration {
	var keys []string
	for k := range c.Attrs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	h := fnv.New32()
	fmt.Fprint(h, c.Backend, c.Wrap, c.Name, c.CSS, keys)
	way := int(h.Sum32()>>4) % 6
	name := c.Name
	if name == "" {
		name = "doc.adoc"
	}
	s := []configuration.Setting{configuration.WithFilename(name), configuration.WithLastUpdated(Updated)}
	if c.Backend != "" {
		s = append(s, configuration.WithBackEnd(c.Backend))
	}
	s = append(s, configuration.WithHeaderFooter(c.Wrap))
	if len(c.CSS) > 0 {
		s = append(s, configuration.WithCSS(c.CSS))
	}
	attrs := map[string]interface{}{}
	for _, k := range keys {
		switch {
		case way < 2:
			attrs[k] = c.Attrs[k]
		case way < 4 && k == "figure-caption":
			s = append(s, configuration.WithFigureCaption(c.Attrs[k]))
		default:
			s = append(s, configuration.WithAttribute(k, c.Attrs[k]))
		}
	}
	if way < 2 {
		s = append(s, configuration.WithAttributes(attrs))
	}
	for k, v := range c.Macros {
		s = append(s, configuration.WithMacroTemplate(k, template.Must(template.New(k).Parse(v))))
	}
	_, backend := c.Attrs["backend"]
	_, base := c.Attrs["basebackend-html"]
	if way%2 == 1 && !backend && !base {
		for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
			s[i], s[j] = s[j], s[i]
		}
	}
	n := len(attrs)
	cfg := configuration.NewConfiguration(s...)
	if len(attrs) != n {
		panic(fmt.Sprintf("the attributes given to the configuration were changed: %v", attrs))
	}
	return cfg
}

// Convert converts a document.
func Convert(doc string, c engine.Conf) (string, types.Metadata, error) {
	out := &strings.Builder{}
	md, err := libasciidoc.Convert(strings.NewReader(doc), out, Config(c))
	return out.String(), md, err
}

// Mode is the mode of the parser for the given back-end.
func Mode(c engine.Conf) htm.Mode {
	if strings.HasPrefix(c.Backend, "xhtml") {
		return htm.XHTML
	}
	return htm.HTML
}

// Tree converts a document and parses the output.
func Tree(doc string, c engine.Conf) (*htm.Node, types.Metadata, *engine.Fail) {
	out, md, err := Convert(doc, c)
	if err != nil {
		return nil, md, engine.Failf("error", "the conversion failed: %v", err)
	}
	n, err := htm.Parse(out, Mode(c))
	if err != nil {
		return nil, md, engine.Failf("malformed", "%v\n--- output:\n%s", err, out)
	}
	return n, md, nil
}

// Same checks that the document is converted to what is wanted, up to white space without meaning.
func Same(doc string, c engine.Conf, want string) *engine.Fail {
	out, _, err := Convert(doc, c)
	if err != nil {
		return engine.Failf("error", "the conversion failed: %v", err)
	}
	return SameHTML(out, want, Mode(c))
}

// SameHTML compares two HTML texts up to white space without meaning.
func SameHTML(got, want string, m htm.Mode) *engine.Fail {
	if got == want {
		return nil
	}
	w, err := htm.Parse(want, htm.HTML)
	if err != nil {
		w, err = htm.Parse(want, m)
	}
	if err != nil {
		return engine.Failf("model", "bug in the model: %v in %s", err, want)
	}
	g, err := htm.Parse(got, m)
	if err != nil {
		return engine.Failf("malformed", "%v\n--- output:\n%s\n--- want:\n%s", err, got, want)
	}
	if d := htm.Diff(g.Canon(), w.Canon()); d != "" {
		return engine.Failf("differs", "%s\n--- output:\n%s\n--- want:\n%s", d, got, want)
	}
	return nil
}

// Write writes the files below a scratch directory.
func Write(dir string, files map[string]string) {
	for name, content := range files {
		path := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			panic(fmt.Sprint("scratch directory: ", err))
		}
		if err := os.WriteFile(path, []byte(content), 0o644); err != nil {
			panic(fmt.Sprint("scratch directory: ", err))
		}
	}
}

// InDir writes the files below a scratch directory and runs f there.
func InDir(files map[string]string, f func(dir string) *engine.Fail) *engine.Fail {
	base := os.Getenv("VERIF_WORK")
	dir, err := os.MkdirTemp(base, "case-")
	if err != nil {
		panic(fmt.Sprint("scratch directory: ", err))
	}
	defer os.RemoveAll(dir)
	Write(dir, files)
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer func() { _ = os.Chdir(old) }()
	return f(dir)
}
