package props

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/bytesparadise/libasciidoc"

	"verif/conv"
	"verif/engine"
	"verif/gen"
)

// ---------------------------------------------------------------------------
// P28: the command converts as the library
// ---------------------------------------------------------------------------

func commands(t *engine.T) *engine.Case {
	c := &engine.Case{Files: map[string]string{}, Conf: engine.Conf{Wrap: true, Backend: "html5"}}
	c.Sub = t.Pick("stdout", "stdout", "named", "named", "beside", "beside", "missing", "include", "same", "unwritable")
	// the options
	var args []string
	if t.Chance(1, 3) {
		args = append(args, t.Pick("-s", "--no-header-footer"))
		c.Conf.Wrap = false
	}
	if t.Chance(1, 2) {
		c.Conf.Backend = t.Pick("html5", "xhtml5", "html", "xhtml")
		switch t.Intn(3) {
		case 0:
			args = append(args, "-b "+c.Conf.Backend)
		case 1:
			args = append(args, "-b"+c.Conf.Backend)
		default:
			args = append(args, "--backend="+c.Conf.Backend)
		}
	}
	for n := t.Intn(3); n > 0; n-- {
		css := t.Pick("a.css", "b/c.css", "https://x.org/d.css?a=b,c")
		c.Conf.CSS = append(c.Conf.CSS, css)
		args = append(args, t.Pick("--css=", "--css ")+css)
	}
	c.Conf.Attrs = map[string]string{}
	for n := t.Intn(4); n > 0; n-- {
		k, v := t.Pick("foo", "bar-2", "toc", "sectnums", "imagesdir", "product", "title", "doctype", "idprefix"), ""
		switch k {
		case "toc", "sectnums":
			args = append(args, "-a "+k)
		case "doctype":
			v = t.Pick("article", "book", "manpage")
			args = append(args, "-a "+k+"="+v)
		default:
			v = t.Pick("", "x", "a=b", "a=b=c", "=", "two words", "1,2", "-x", "<b> & \"c\"", "été", "*b*", "{a}", "https://x.org/?a=b&c=d#e")
			args = append(args, t.Pick("-a ", "-a", "--attribute ", "--attribute=")+k+"="+v)
		}
		c.Conf.Attrs[k] = v
	}
	if t.Chance(1, 2) {
		for i := range args { // the order of options does not matter, but for the ones repeated
			j := t.Intn(i + 1)
			if !strings.Contains(args[i], "-a") && !strings.Contains(args[j], "-a") && !strings.Contains(args[i], "css") && !strings.Contains(args[j], "css") {
				args[i], args[j] = args[j], args[i]
			}
		}
	}
	// the files
	n := 1
	if c.Sub == "beside" || c.Sub == "missing" {
		n = t.Range(1, 3)
	}
	var inputs []string
	for _, name := range t.Perm(4)[:n] {
		inputs = append(inputs, []string{"doc.adoc", "sub/b.c.asciidoc", "x y.txt", "sub/noext"}[name])
	}
	for _, name := range inputs {
		var d string
		if t.Chance(1, 2) {
			g := gen.New(t)
			g.W, g.B = gen.Inl(), gen.Bl()
			d = g.Document(gen.Top(), 2, 2, 1).Source(g)
		} else {
			d = gen.NewSoup(t).Doc(8)
		}
		if t.Chance(1, 2) {
			d += "\n\n{foo} {bar-2} {product} {backend}\n\nifdef::basebackend-html[foo]\nifdef::foo[bar]\n\nimage::i.png[]\n\n== Foo bar\n"
		}
		if t.Chance(1, 4) {
			c.Files["sub/inc.adoc"] = gen.NewSoup(t).Doc(4)
			if strings.HasPrefix(name, "sub/") {
				d += "\n\ninclude::inc.adoc[]\n"
			} else {
				d += "\n\ninclude::sub/inc.adoc[]\n"
			}
		}
		c.Files[name] = d
	}
	c.Docs = inputs
	switch c.Sub {
	case "stdout":
		args = append(args, t.Pick("-o -", "-o-", "--out-file -", "--out-file=-"))
	case "named":
		args = append(args, t.Pick("-o ", "-o", "--out-file ", "--out-file=")+"out dir/o.html")
		c.Files["out dir/keep"] = ""
		if t.Chance(1, 2) {
			c.Files["out dir/o.html"] = strings.Repeat("old content\n", t.Range(1, 2000)) // overwritten
		}
	case "missing":
		c.Docs = append(c.Docs, "missing.adoc")
		if t.Chance(1, 2) {
			c.Files["missing.html"] = "old"
		}
	case "include":
		i := c.Docs[0]
		c.Files[i] += "\n\ninclude::nowhere.adoc[]\n"
		args = append(args, "-o-")
	case "same":
		c.Files["page.html"] = c.Files[c.Docs[0]] + "\n\nfoo\n"
		c.Docs = []string{"page.html"}
		if t.Chance(1, 2) {
			args = append(args, "-opage.html")
		}
	case "unwritable":
		args = append(args, "-o"+t.Pick("nodir/o.html", "sub"))
		c.Files["sub/keep"] = ""
	}
	args = append(args, "--log=panic")
	if t.Chance(1, 2) {
		args = append(append([]string{}, c.Docs...), flags(args)...)
	} else {
		args = append(flags(args), c.Docs...)
	}
	c.Args = args
	c.Label(c.Sub)
	c.Trivial = len(c.Files[inputs[0]]) < 5
	return c
}

// flags splits the options from their values.
func flags(args []string) []string {
	var r []string
	for _, a := range args {
		for _, o := range []string{"-a ", "-b ", "--attribute ", "--css ", "-o ", "--out-file "} {
			if strings.HasPrefix(a, o) {
				r = append(r, strings.TrimSpace(o))
				a = a[len(o):]
				break
			}
		}
		r = append(r, a)
	}
	return r
}

func checkCommand(c *engine.Case) *engine.Fail {
	cli := os.Getenv("VERIF_CLI")
	return conv.InDir(c.Files, func(dir string) *engine.Fail {
		want := map[string]string{}
		for name, content := range c.Files {
			want[name] = content
		}
		stdout := ""
		fails := c.Sub == "missing" || c.Sub == "same" || c.Sub == "unwritable"
		for i, name := range c.Docs {
			mtime := time.Unix(1600000000+int64(i)*100003, 0)
			if c.Sub != "missing" {
				if err := os.Chtimes(name, mtime, mtime); err != nil {
					return engine.Failf("harness", "%v", err)
				}
			} else if s, err := os.Stat(name); err == nil {
				mtime = s.ModTime()
			}
			if c.Sub == "same" || c.Sub == "unwritable" || name == "missing.adoc" {
				continue
			}
			config := conv.Config(c.Conf)
			config.Filename, config.LastUpdated = name, mtime
			out := &strings.Builder{}
			_, err := libasciidoc.Convert(strings.NewReader(c.Files[name]), out, config)
			if err != nil {
				if c.Sub == "beside" || c.Sub == "missing" { // the next ones are not converted
					return nil
				}
				fails = true
			}
			switch c.Sub {
			case "stdout", "include":
				stdout = out.String()
			case "named":
				want["out dir/o.html"] = out.String()
			case "beside", "missing":
				want[strings.TrimSuffix(name, filepath.Ext(name))+".html"] = out.String()
			}
			if err != nil && c.Sub == "named" {
				delete(want, "out dir/o.html") // not said
			}
		}
		cmd := exec.Command(cli, c.Args...)
		cmd.Env = append(os.Environ(), "HOME="+dir)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		if _, ok := err.(*exec.ExitError); err != nil && !ok {
			return engine.Failf("harness", "%v", err)
		}
		if (err != nil) != fails {
			return engine.Failf("status", "exit status: %v, conversion expected to fail: %v\n--- stdout:\n%s\n--- stderr:\n%s", err, fails, so.String(), se.String())
		}
		if !fails && so.String() != stdout {
			return engine.Failf("stdout", "%s\n--- stdout:\n%s", firstDiff(so.String(), stdout), so.String())
		}
		if fails && so.String()+se.String() == "" {
			return engine.Failf("silent", "the command fails without a message")
		}
		got := map[string]string{}
		_ = filepath.Walk(".", func(path string, info os.FileInfo, err error) error {
			if err == nil && !info.IsDir() {
				b, _ := os.ReadFile(path)
				got[path] = string(b)
			}
			return nil
		})
		if fails && c.Sub == "named" {
			delete(got, "out dir/o.html")
		}
		var names []string
		for n := range want {
			names = append(names, n)
		}
		for n := range got {
			if _, found := want[n]; !found {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			w, found := want[n]
			g, there := got[n]
			if found != there {
				return engine.Failf("files", "%q is there: %v, expected: %v", n, there, found)
			}
			if g != w {
				return engine.Failf("file", "%q: %s\n--- output:\n%s", n, firstDiff(g, w), g)
			}
		}
		return nil
	})
}

func init() {
	engine.Register(&engine.Prop{ID: "P28", Rule: "the document has at least 5 bytes", Quick: 5000, Thorough: 200000,
		Gen: commands, Check: checkCommand,
		Assume: []string{"the warnings are written with the output: they are turned off with --log"}})
}
