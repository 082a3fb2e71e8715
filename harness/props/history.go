package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	libasciidoc "github.com/bytesparadise/libasciidoc"
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"

	"verif/conv"
	"verif/engine"
	"verif/gen"
)

// Result is everything a user sees of a conversion.
type Result struct {
	Out, Err string
	MD       types.Metadata
}

func (r Result) same(o Result) string {
	switch {
	case r.Err != o.Err:
		return fmt.Sprintf("error %q\n--- instead of: %q", r.Err, o.Err)
	case r.Out != o.Out:
		return firstDiff(r.Out, o.Out)
	case !reflect.DeepEqual(jsonOf(r.MD), jsonOf(o.MD)):
		return fmt.Sprintf("metadata %s\n--- instead of: %s", jsonOf(r.MD), jsonOf(o.MD))
	}
	return ""
}

func jsonOf(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		return fmt.Sprintf("%v", x)
	}
	return string(b)
}

// firstDiff shows where two texts begin to differ.
func firstDiff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(s string) string {
		a, b := i-80, i+160
		if a < 0 {
			a = 0
		}
		if b > len(s) {
			b = len(s)
		}
		return s[a:b]
	}
	return fmt.Sprintf("at byte %d: %q\n--- instead of: %q", i, cut(got), cut(want))
}

// ResultOf converts with the given configuration.
func ResultOf(doc string, c *configuration.Configuration) Result {
	b := &strings.Builder{}
	md, err := libasciidoc.Convert(strings.NewReader(doc), b, c)
	r := Result{Out: b.String(), MD: md}
	if err != nil {
		r.Err = err.Error()
	}
	return r
}

// Alone is the "convert" command: it converts the case given in stdin, in a process which did nothing before.
func Alone() {
	c := &engine.Case{}
	if err := json.NewDecoder(os.Stdin).Decode(c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out := os.Stdout
	os.Stdout = os.Stderr
	r := ResultOf(c.Doc, conv.Config(c.Conf))
	_ = json.NewEncoder(out).Encode(alone{[]byte(r.Out), []byte(r.Err), jsonOf(r.MD)})
}

type alone struct {
	Out, Err []byte
	MD       string
}

func inProcess(doc string, conf engine.Conf) (r alone, ok bool) {
	bin, err := os.Executable()
	if err != nil {
		return r, false
	}
	b, _ := json.Marshal(engine.Case{Docs: nil, Doc: doc, Conf: conf})
	cmd := exec.Command(bin, "convert")
	cmd.Stdin = bytes.NewReader(b)
	out, err := cmd.Output()
	if err != nil {
		return r, false
	}
	return r, json.Unmarshal(out, &r) == nil
}

// someFiles are files which documents include, and the names of those.
func someFiles(t *engine.T) (map[string]string, []string) {
	files := map[string]string{}
	var names []string
	for n := t.Range(1, 3); n > 0; n-- {
		name := t.Pick("a.adoc", "b.adoc", "sub/c.adoc", "d.txt", "e.go")
		if _, found := files[name]; found {
			continue
		}
		s := gen.NewSoup(t)
		doc := s.Doc(6)
		if t.Chance(1, 2) {
			doc = "// tag::a[]\n" + doc + "\n// end::a[]\n" + "last\n"
		}
		files[name] = doc
		names = append(names, name)
	}
	return files, names
}

// someDocs draws n documents with what they include, and configurations.
func someDocs(t *engine.T, c *engine.Case, docs, confs int) {
	var names []string
	if t.Chance(1, 3) {
		c.Files, names = someFiles(t)
		c.Label("includes")
	}
	for i := 0; i < docs; i++ {
		if names != nil && t.Chance(1, 2) {
			s := gen.NewSoup(t)
			s.Include = names
			c.Docs = append(c.Docs, s.Doc(15))
			continue
		}
		d, class := anyDoc(t, 15)
		c.Docs = append(c.Docs, strings.ToValidUTF8(d, "?"))
		c.Label(class)
	}
	for i := 0; i < confs; i++ {
		conf := anyConf(t)
		if i > 0 && t.Chance(1, 2) { // as the first one, but for one attribute
			conf = c.Confs[0]
			attrs := map[string]string{}
			for k, v := range conf.Attrs {
				attrs[k] = v
			}
			k := t.Pick("idprefix", "idseparator", "figure-caption", "table-caption", "imagesdir", "icons", "experimental", "toc", "toclevels", "sectnums", "source-highlighter", "a", "unicode", "author")
			if _, found := attrs[k]; found {
				delete(attrs, k)
			} else {
				attrs[k] = map[string]string{"toclevels": "3", "source-highlighter": "chroma", "icons": "font"}[k]
				if attrs[k] == "" {
					attrs[k] = t.Pick("", "x", "p-")
				}
				if k == "toc" {
					attrs[k] = ""
				}
			}
			conf.Attrs = attrs
			c.Confs = append(c.Confs, conf)
			c.Label("one attribute")
			continue
		}
		if t.Chance(1, 3) {
			for n := t.Range(1, 4); n > 0; n-- {
				if conf.Attrs == nil {
					conf.Attrs = map[string]string{}
				}
				conf.Attrs[t.Pick("a", "b-c", "x", "toc", "idprefix", "author", "description", "figure-caption", "sectnums", "leveloffset")] = t.Pick("", "1", "x", "p-")
			}
		}
		c.Confs = append(c.Confs, conf)
	}
}

func init() {
	engine.Register(&engine.Prop{ID: "P02", Rule: "the documents have at least 20 bytes; every case has two conversions or more",
		Quick: 5000, Thorough: 300000,
		Gen: func(t *engine.T) *engine.Case {
			c := &engine.Case{}
			someDocs(t, c, t.Range(1, 3), t.Range(1, 2))
			for n := t.Range(2, 5); n > 0; n-- {
				c.Ints = append(c.Ints, t.Intn(len(c.Docs)), t.Intn(len(c.Confs)))
			}
			if t.Chance(1, 4) {
				c.Sub = "process"
				c.Label("fresh process")
			}
			c.Trivial = len(strings.Join(c.Docs, "")) < 20
			return c
		},
		Check: func(c *engine.Case) *engine.Fail {
			return conv.InDir(c.Files, func(string) *engine.Fail {
				alone := map[[2]int]Result{}
				shared := make([]*configuration.Configuration, len(c.Confs))
				for i := range shared {
					shared[i] = conv.Config(c.Confs[i])
				}
				for i := 0; i+1 < len(c.Ints); i += 2 {
					k := [2]int{c.Ints[i], c.Ints[i+1]}
					if _, found := alone[k]; !found {
						alone[k] = ResultOf(c.Docs[k[0]], conv.Config(c.Confs[k[1]]))
					}
				}
				for i := 0; i+1 < len(c.Ints); i += 2 {
					k := [2]int{c.Ints[i], c.Ints[i+1]}
					got := ResultOf(c.Docs[k[0]], shared[k[1]])
					if d := got.same(alone[k]); d != "" {
						return engine.Failf("history", "conversion %d of the sequence %v (document, configuration) is not what it is alone: %s\n--- document:\n%s", i/2+1, c.Ints, d, c.Docs[k[0]])
					}
				}
				for i := range shared {
					if !reflect.DeepEqual(shared[i].Attributes, conv.Config(c.Confs[i]).Attributes) {
						return engine.Failf("configuration", "the configuration was changed: %v\n--- it was: %v", shared[i].Attributes, conv.Config(c.Confs[i]).Attributes)
					}
				}
				if c.Sub == "process" {
					k := [2]int{c.Ints[len(c.Ints)-2], c.Ints[len(c.Ints)-1]}
					r, ok := inProcess(c.Docs[k[0]], c.Confs[k[1]])
					if ok && (string(r.Out) != alone[k].Out || string(r.Err) != alone[k].Err || r.MD != jsonOf(alone[k].MD)) {
						return engine.Failf("process", "the result differs from the one of a new process: %s %s\n--- instead of: %s %s\n%s", alone[k].Err, jsonOf(alone[k].MD), r.Err, r.MD, firstDiff(alone[k].Out, string(r.Out)))
					}
				}
				return nil
			})
		},
		Assume: []string{"the time of the last update is given by the configuration"},
	})

	engine.Register(&engine.Prop{ID: "P03", Rule: "the documents have at least 20 bytes; every case has two conversions or more at the same time",
		Quick: 500, Thorough: 60000, Race: true,
		Gen: func(t *engine.T) *engine.Case {
			c := &engine.Case{}
			someDocs(t, c, t.Range(1, 4), t.Range(1, 2))
			for n := t.Range(2, 6); n > 0; n-- {
				c.Ints = append(c.Ints, t.Intn(len(c.Docs)), t.Intn(len(c.Confs)))
			}
			if t.Chance(1, 3) {
				c.Sub = "files"
				c.Label("files")
			}
			c.Trivial = len(strings.Join(c.Docs, "")) < 20
			return c
		},
		Check: func(c *engine.Case) *engine.Fail {
			return conv.InDir(c.Files, func(dir string) *engine.Fail {
				n := len(c.Ints) / 2
				run := func(i int, cf *configuration.Configuration) Result {
					if c.Sub == "files" {
						b := &strings.Builder{}
						md, err := libasciidoc.ConvertFile(b, cf)
						md.LastUpdated = ""
						r := Result{Out: b.String(), MD: md}
						if err != nil {
							r.Err = err.Error()
						}
						return r
					}
					return ResultOf(c.Docs[c.Ints[2*i]], cf)
				}
				config := func(i int) *configuration.Configuration {
					conf := c.Confs[c.Ints[2*i+1]]
					if c.Sub == "files" {
						conf.Name = filepath.Join(dir, "in", fmt.Sprintf("%d.adoc", c.Ints[2*i]))
					}
					return conv.Config(conf)
				}
				if c.Sub == "files" {
					_ = os.MkdirAll("in/sub", 0o755)
					for name, content := range c.Files {
						_ = os.WriteFile(filepath.Join("in", name), []byte(content), 0o644)
					}
					for i, d := range c.Docs {
						if err := os.WriteFile(fmt.Sprintf("in/%d.adoc", i), []byte(d), 0o644); err != nil {
							panic(err)
						}
					}
				}
				want, got := make([]Result, n), make([]Result, n)
				shared := make([]*configuration.Configuration, len(c.Confs))
				for i := range shared {
					shared[i] = conv.Config(c.Confs[i])
				}
				for i := range want {
					want[i] = run(i, config(i))
				}
				start := make(chan struct{})
				var wg sync.WaitGroup
				for i := range got {
					cf := shared[c.Ints[2*i+1]] // the configuration is shared as well
					if c.Sub == "files" {       // ... but its name and time belong to a file
						cf = config(i)
					}
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						<-start
						got[i] = run(i, cf)
					}(i)
				}
				close(start)
				wg.Wait()
				for i := range got {
					if d := got[i].same(want[i]); d != "" {
						return engine.Failf("concurrent", "conversion %d of %d at the same time is not what it is alone: %s\n--- document:\n%s", i+1, n, d, c.Docs[c.Ints[2*i]])
					}
				}
				return nil
			})
		},
		Assume: []string{"the schedules are those which the Go scheduler and the race detector give to 2 to 6 goroutines on several processors"},
	})

	engine.Register(&engine.Prop{ID: "P04", Rule: "the document has at least 10 bytes",
		Quick: 8000, Thorough: 400000,
		Gen: func(t *engine.T) *engine.Case {
			c := &engine.Case{Conf: anyConf(t)}
			var class string
			c.Sub = t.Pick("slow", "reader", "writer", "short")
			c.Doc, class = anyDoc(t, 20)
			if t.Chance(1, 12) { // not after quotes which are not closed, since the time to parse them is exponential in their number
				_, c.Doc = anyModel(t)
				class = "well-formed"
				c.Doc += "\n\n" + t.Pick("", "* ", "----\n", "|===\n|") + "long" + strings.Repeat(t.Pick("x", " y", "é"), t.Num(40000, 70000, 140000)) + "\n\nend\n"
				c.Label("long line")
			}
			c.Ints = []int{t.Intn(1000), t.Intn(8)}
			c.Label(class, c.Sub)
			c.Trivial = len(c.Doc) < 10
			return c
		},
		Check:  checkIO,
		Assume: []string{"faults: a reader that returns its bytes a few at a time, with or before the end of the input, or fails at any offset; a writer that fails or writes less than it is given after any number of bytes"},
	})
}

// ErrInjected is the error of the faulty readers and writers.
var errInjected = errors.New("injected fault")

// slowReader returns a few bytes at a time, and fails when it was told so.
type slowReader struct {
	s     string
	n     int
	fail  bool
	style int
}

func (r *slowReader) Read(p []byte) (int, error) {
	end := io.EOF
	if r.fail {
		end = errInjected
	}
	if r.s == "" {
		return 0, end
	}
	if r.style&4 != 0 && len(p) > 0 && r.n%3 == 0 { // allowed, although discouraged
		r.n++
		return 0, nil
	}
	k := 1 + r.n%7
	if r.style&1 != 0 {
		k = 1
	}
	if len(r.s) > 5000 {
		k = 1000
	}
	r.n++
	if k > len(p) {
		k = len(p)
	}
	n := copy(p[:k], r.s)
	r.s = r.s[n:]
	if r.s == "" && r.style&2 != 0 {
		return n, end
	}
	return n, nil
}

// faultyWriter accepts n bytes.
type faultyWriter struct {
	b     strings.Builder
	n     int
	short bool // it does not say why it writes less
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if len(p) <= w.n {
		w.n -= len(p)
		return w.b.Write(p)
	}
	k := w.n
	w.b.Write(p[:k])
	w.n = 0
	if w.short {
		return k, io.ErrShortWrite
	}
	return k, errInjected
}

func checkIO(c *engine.Case) *engine.Fail {
	want := ResultOf(c.Doc, conv.Config(c.Conf))
	switch c.Sub {
	case "slow":
		b := &strings.Builder{}
		md, err := libasciidoc.Convert(&slowReader{s: c.Doc, style: c.Ints[1]}, b, conv.Config(c.Conf))
		got := Result{Out: b.String(), MD: md}
		if err != nil {
			got.Err = err.Error()
		}
		if d := got.same(want); d != "" {
			return engine.Failf("slow-reader", "the result depends on how the reader gives the document: %s", d)
		}
	case "reader":
		at := len(c.Doc) * c.Ints[0] / 1000
		b := &strings.Builder{}
		_, err := libasciidoc.Convert(&slowReader{s: c.Doc[:at], style: c.Ints[1], fail: true}, b, conv.Config(c.Conf))
		if err == nil {
			return engine.Failf("lost-error", "the reader failed after %d of %d bytes, and the conversion succeeded", at, len(c.Doc))
		}
		if b.Len() > 0 {
			return engine.Failf("partial", "the reader failed, and an output was written: %q", b.String())
		}
	default:
		if want.Err != "" {
			return nil
		}
		w := &faultyWriter{n: len(want.Out) * c.Ints[0] / 1000, short: c.Sub == "short"}
		n := w.n
		_, err := libasciidoc.Convert(strings.NewReader(c.Doc), w, conv.Config(c.Conf))
		if n < len(want.Out) && err == nil {
			return engine.Failf("lost-error", "the writer failed after %d of %d bytes, and the conversion succeeded", n, len(want.Out))
		}
		if n == len(want.Out) && err != nil {
			return engine.Failf("error", "the conversion failed: %v", err)
		}
		if got := w.b.String(); !strings.HasPrefix(want.Out, got) {
			return engine.Failf("prefix", "what was written before the failure of the writer is not the beginning of the output: %s", firstDiff(got, want.Out))
		}
	}
	return nil
}
