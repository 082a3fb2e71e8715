package props

import (
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"time"

	"verif/conv"
	"verif/engine"
	"verif/gen"
)

// repeated is the document in which `$` is the number of each of the n repetitions of the unit.
func repeated(parts []string, n int) string {
	b := &strings.Builder{}
	b.WriteString(parts[0])
	for i := 0; i < n; i++ {
		b.WriteString(strings.Replace(parts[1], "$", fmt.Sprint(i+1), -1))
	}
	b.WriteString(parts[2])
	return b.String()
}

func processorTime() time.Duration {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// cost is the processor time of a conversion.
func cost(doc string, conf engine.Conf, files map[string]string) time.Duration {
	runtime.GC()
	var t time.Duration
	conv.InDir(files, func(string) *engine.Fail {
		start := processorTime()
		_, _, _ = conv.Convert(doc, conf)
		t = processorTime() - start
		return nil
	})
	return t
}

const (
	scale     = 8 // how much longer the second document is
	tolerance = 3 // how many times more than in proportion it may take
	enough    = 30 * time.Millisecond
	longer    = 150 * time.Millisecond // in some of the cases
	slack     = 200 * time.Millisecond
	maxUnits  = 6000
)

func init() {
	engine.Register(&engine.Prop{ID: "P35", Rule: "the repeated part of the document has at least three characters",
		Quick: 500, Thorough: 20000,
		Gen: func(t *engine.T) *engine.Case {
			c := &engine.Case{Conf: anyConf(t)}
			g := gen.New(t)
			g.W, g.B = gen.Inl(), gen.Bl()
			text := func() string { return strings.Replace(g.Text(1, 4).S, "$", "", -1) }
			line := func() string { return g.Word() + " " + strings.Replace(text(), "\n", " ", -1) }
			kind := t.Pick("section", "same section", "blocks", "soup", "items", "rows", "cells", "lines", "verbatim", "declarations", "references", "footnotes", "anchors", "conditions", "includes", "comments", "words", "callouts", "alternate", "nested", "counters", "long line")
			pre, unit, post := "= Title\n\n", "", "\n"
			switch kind {
			case "section":
				unit = strings.Repeat("=", t.Range(2, 4)) + " Section $ " + g.Word() + "\n\n" + line() + "\n\n"
			case "same section":
				unit = "== Section\n\n" + line() + "\n\n"
			case "blocks":
				unit = g.Blocks(gen.Top(), 1, 3).S + "\n\n"
			case "soup":
				s := gen.NewSoup(t)
				s.Ban = func(token string) bool { return strings.HasPrefix(token, "[[") || token == "----" || token == "____" }
				unit = "x" + strings.Replace(s.Inline(), "\n", " ", -1) + "\n\n"
			case "items":
				m := t.Pick("* ", "- ", ". ", "term $:: ", "* [x] ", "* a\n** ", ". a\n.. b\n* ", "a::\nb::: ")
				unit = m + line() + "\n" + t.Pick("", "", "+\n"+line()+"\n\n", "+\n----\n"+g.Word()+"\n----\n\n")
			case "rows":
				pre += t.Pick("", "[%header,cols=\"1,2\"]\n", "[cols=\"2*a\"]\n") + "|===\n"
				unit = "|" + line() + t.Pick(" |", "\n|") + line() + "\n" + t.Pick("", "\n")
				post = "|===\n"
			case "cells":
				pre += "[cols=\"3*\"]\n|===\n"
				unit = "|" + line() + t.Pick(" ", "\n")
				post = "\n|===\n"
			case "lines":
				unit = line() + "\n"
			case "verbatim":
				d := t.Pick("----", "....", "```", "++++", "--\n----", "[source,go]\n----", "____", "====", "****")
				pre += d + "\n"
				unit = "line $ " + g.Word() + " <b>\n" + t.Pick("", "", "\n")
				d = d[strings.LastIndex(d, "\n")+1:]
				post = d + "\n"
			case "declarations":
				unit = ":name-$: " + g.Word() + t.Pick("\n", "\n\n", "\n\n{name-$} "+g.Word()+"\n\n", " {name-1}\n")
			case "references":
				pre += "[#first]\n.A title\nText.\n\n"
				unit = t.Pick("see <<first>> here\n\n", "[#id-$]\n.T $\n====\n"+g.Word()+" <<id-$>> <<id-1>>\n====\n\n", "== A $\n\n<<A $>>\n\n", "<<unknown-$>>\n\n")
			case "footnotes":
				unit = t.Pick(g.Word()+" footnote:["+g.Word()+" $]\n\n", "a footnote:n$[text $] footnote:n$[] footnote:n1[]\n\n", "* a footnote:[b]\n")
			case "anchors":
				unit = "[[a-$]]" + g.Word() + " ((term $)) <<a-1>>\n\n"
			case "conditions":
				unit = t.Pick("ifdef::a[]\n"+line()+"\nendif::[]\n", "ifndef::a[a line]\n", "ifdef::a[]\n:x$: y\nendif::[]\n", "ifeval::[\"{a}\" == \"\"]\nb\nendif::[]\n") + t.Pick("", "\n")
			case "includes":
				c.Files = map[string]string{"part.adoc": ":x: y\n\n" + line() + "\n", "code.go": "// tag::a[]\nfunc\n// end::a[]\nx\n"}
				unit = t.Pick("include::part.adoc[]\n\n", "----\ninclude::code.go[tag=a]\n----\n\n", "include::part.adoc[lines=1..2]\n\n", "include::part.adoc[leveloffset=+1]\n\n")
			case "comments":
				unit = t.Pick("// c $\n", "////\nc $\n////\n\n", "a\n// b\nc\n\n", "* a\n// b\n\n")
			case "words":
				unit = t.Pick("word ", "w$ ", "*b$* ", "`c` ", "https://x.org/$[l] ", "(C) ", "image:a.png[b$] ", "{sp}", "a & b ", "\"`q`\" ", "it's ", "x^2^ ", "icon:x[] ", "b -- c ", "++p++ ")
			case "callouts":
				pre += "----\n"
				unit = "code <$>\n"
				post = "----\n<1> one\n"
			case "alternate":
				unit = g.Block(gen.Top()).S + "\n\n" + line() + "\n\n" + t.Pick("----\n$\n----\n\n", "====\n$\n====\n\n", "|===\n|$\n|===\n\n", "* $\n\n", "[NOTE]\n--\n$\n--\n\n", "'''\n\n", "image::a$.png[]\n\n")
			case "nested":
				pre += "====\n"
				unit = t.Pick("----\n$\n----\n\n", "* a $\n\n", "NOTE: $\n\n", line()+"\n\n", "[quote]\nb\n\n", "****\n$\n****\n\n")
				post = "====\n"
			case "counters":
				unit = "{counter:n} {counter:n$}\n\n"
			case "long line":
				pre += t.Pick("", "== ", "* ", ".", "|===\n|", "NOTE: ", "a:: ")
				unit = t.Pick("word ", "a.b, ", "' ", "é", ": ", "= ", "-> ")
				post = "\n"
				if strings.HasSuffix(pre, "|") {
					post = "\n|===\n"
				}
				if strings.HasSuffix(pre, ".") {
					post = "\nText.\n"
				}
			}
			// several kinds of repetitions at once: the cost may come from both
			if pre == "= Title\n\n" && strings.HasSuffix(unit, "\n\n") {
				for i := t.Weighted(2, 2, 1); i > 0; i-- {
					unit += t.Pick(":x$: v\n\n", ":x$: v\n\n", "== S $ "+g.Word()+"\n\n", "[#k$]\n.T $\nx footnote:[$]\n\n", "<<k$>>\n\n", "ifdef::x$[]\nx\nendif::[]\n\n",
						"ifeval::[{x$} == 1]\nx\nendif::[]\n\n", "{x$}\n\n", "{counter:x$}\n\n", "* a\n* b $\n\n\x27\x27\x27\n\n", "----\nx <$>\n----\n<$> y\n\n")
					c.Label("several")
				}
			}
			c.Wants = []string{pre, unit, post}
			c.Ints = []int{int(enough / time.Millisecond)}
			if many := kind == "footnotes" || kind == "references" || kind == "anchors" || kind == "declarations" || kind == "same section"; t.Chance(1, 12) || many && t.Chance(1, 3) {
				c.Ints[0] = int(longer / time.Millisecond)
				c.Label("longer")
			}
			c.Label(kind)
			c.Trivial = len(unit) < 3
			return c
		},
		Check: func(c *engine.Case) *engine.Fail {
			n, first, least := 4, time.Duration(0), enough
			if len(c.Ints) > 0 {
				least = time.Duration(c.Ints[0]) * time.Millisecond
			}
			for ; ; n *= 2 {
				if first = cost(repeated(c.Wants, n), c.Conf, c.Files); first >= least || n*2 > maxUnits {
					break
				}
			}
			// the time is not always the same: the smallest of three matters
			var second time.Duration
			for try := 0; ; try++ {
				second = cost(repeated(c.Wants, scale*n), c.Conf, c.Files)
				limit := tolerance*scale*first + slack
				if second <= limit {
					return nil
				}
				if try == 2 {
					return engine.Failf("time", "converting the document with %d repetitions of %q takes %s, and %s with %d repetitions", n, c.Wants[1], first.Round(time.Millisecond), second.Round(time.Millisecond), scale*n)
				}
				if f := cost(repeated(c.Wants, n), c.Conf, c.Files); f > first {
					first = f
				}
			}
		},
		Assume: []string{fmt.Sprintf("the time in proportion is judged by the processor time of two conversions, the second of a document %d times as long: it must not take more than %d times as much, and 0.2 s; an n² cost which is not yet visible at this size is not seen", scale, scale*tolerance)},
	})
}
