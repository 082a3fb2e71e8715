package gen

import (
	"fmt"
	"strings"

	"verif/engine"
)

// Soup is text made of the markup of the language, without any regard for its grammar.
type Soup struct {
	*engine.T
	n        int
	marks    int      // quotes left in the current paragraph: the time to parse it is exponential in the number of open ones
	Include  []string // names of files that may be included
	Numbered bool     // words are numbered, and occur only once
	// Ban says which tokens are not used
	Ban func(token string) bool
}

// pick draws one of the tokens which are not banned.
func (s *Soup) pick(tokens []string) string {
	for try := 0; try < 20; try++ {
		t := s.Pick(tokens...)
		if s.Ban == nil || !s.Ban(t) {
			return t
		}
	}
	return "x"
}

// Raw says whether a token may put what follows into the output as it is.
func Raw(token string) bool {
	return strings.Contains(token, "+") || strings.Contains(token, "$$") || strings.Contains(token, "pass") || strings.Contains(token, "subs") || strings.Contains(token, "\x00")
}

// NewSoup returns a generator of soup.
func NewSoup(t *engine.T) *Soup { return &Soup{T: t} }

// MaxMarks is how many quotes a paragraph of soup may have.
const MaxMarks = 7

func (s *Soup) word() string {
	s.n++
	if s.Numbered {
		return fmt.Sprintf("w%dz", s.n)
	}
	return s.Pick("foo", "bar", "Baz", "x", "qux1", "a-b", "v1.2", "été", "日本", "😀", "c", "I", "O'Neil")
}

var soupTokens = []string{
	"[[", "]]", "<<", ">>", "{", "}", "{a}", "{b-c}", "{sp}", "{nbsp}", "{counter:n}", "{counter2:n}", "{set:x:y}", "footnote:[", "footnote:f[", "footnote:f[]", "]", "[", "link:", "link:x[", "link:x[y]", "http://x.org", "https://x.org[", "mailto:a@b.c[",
	"image:x.png[", "image:x.png[]", "image:x.png[a,10,20,link=b]", "icon:heart[]", "icon:heart[size=2x,role=r]", "((", "))", "(((", ")))", "(((a,b)))", "pass:[", "pass:q[", "+", "++", "+++", "$$", "\\", "\\\\", "\\'", "\\(C)", "\\...", "\"", "'", "\"`", "`\"", "'`", "`'", "::", ":::", ";;", "|", "a|", "2+|", "--", "->", "=>", "<-", "<=", "...", "(C)", "(TM)", "(R)", "<1>", "<.>", "<!--2-->", "&amp;", "&", "&#169;", "<b>", "</b>", "<", ">", " +", "btn:[x]", "menu:a[b > c]", "menu:a[]", "kbd:[x]", "image:a&b.png[]", "image:a<b>.png[c&d]", "image:a'b.png[title=\"c<d\"]", "link:a&b<c>[d&e]", "link:a'b[]", "<<a&b>>", "<<a<b,c<d>>", "[[a&b]]", "[[c'd]]", "[[e<f]]", "icon:a&b[]", "icon:heart[link=a&b,window=c'd]", "https://x.org/?a=1&b='2'[c<d]", "xref:a&b.adoc#c<d[]", "footnote:a&b[c]", "footnote:a&b[]", "xref:a[b]", "xref:a.adoc#b[]", "[[a]]", "[#i]", "[.r]", "[.r]#", "anchor:a[]", "indexterm:[a]", "indexterm2:[a]", "stem:[x]", "//", "/", "=", "==", ",", ".", ";", ":", "!", "?", "@", "%", "$", "~", "^", "(", ")", "\u00a0", "\u200b", "\ufeff", "\t", "  ",
}

var soupMarks = []string{"*", "_", "`", "#", "**", "__", "``", "##", "~", "^"}

// Inline is the content of a line.
func (s *Soup) Inline() string {
	n := s.Range(1, 7)
	b := &strings.Builder{}
	for i := 0; i < n; i++ {
		switch s.Intn(10) {
		case 0, 1, 2, 3:
			b.WriteString(s.word())
		case 4, 5:
			if s.marks > 0 {
				m := s.pick(soupMarks)
				if len(m) > s.marks {
					m = m[:1]
				}
				s.marks -= len(m)
				b.WriteString(m)
			}
		default:
			b.WriteString(s.pick(soupTokens))
		}
		if s.Chance(1, 2) {
			b.WriteString(" ")
		}
	}
	return s.limit(b.String())
}

// limit keeps the number of quotes and of other things that open something within bounds.
func (s *Soup) limit(l string) string {
	for _, c := range []string{"`", "[", "<<", "((", "{"} {
		for strings.Count(l, c) > 4 {
			i := strings.LastIndex(l, c)
			l = l[:i] + l[i+len(c):]
		}
	}
	return l
}

var soupAttributes = []string{
	"[x]", "[source,go]", "[source]", "[source%linenums,ruby]", "[listing]", "[literal]", "[verse]", "[verse, a, b]", "[quote]", "[quote, a b, c]", "[NOTE]", "[TIP#i]", "[WARNING]", "[example]", "[sidebar]", "[pass]", "[abstract]", "[#id]", "[#id.role%opt]", "[#a&b]", "[#c'd]", "[[e<f]]", "[[g&h,i<j]]", "[id=\"k&l\"]", "[id=<m>]", "[quote,a&b,c<d>]", "[width=a&b]", "[cols=\"a&b\"]", "[start=a&b]", "[source,a&b]", "[source,<c>]", "[caption=\"a<b>&c\"]", "[link=\"a&b<c>\"]", "[[id]]", "[[id,label]]", "[.role]", "[%header]", "[%header%footer,cols=\"1,2\"]", "[cols=\"2*,>3,^.^1\"]", "[cols=2*]", "[cols=\"~,1\"]", "[%autowidth]", "[width=50%]", "[horizontal]", "[qanda]", "[square]", "[circle]", "[lowerroman]", "[start=4]", "[%reversed]", "[%interactive]", "[subs=none]", "[subs=\"quotes,macros\"]", "[subs=+attributes]", "[discrete]", "[separator=;]", "[format=csv]", "[options=\"header\"]", "[caption=\"X {counter:n}. \"]", "[stripes=even]", "[frame=none,grid=rows]", "[%hardbreaks]", "[a=b,c=\"d e\",'f']", "[a=\"b\"c]", "[,,]", "[]", "[ ]", "[\"", "[{a}]", "[{b-c}]", ".{b-c}", "[subs=\"{b-c}\"]", "[cols=\"{b-c}\"]", "[role=\"{a}\"]", "[positional, {b}]", ".Title", ".Title *b* {a}", ".", "..x", ".t footnote:[x]",
}

var soupDelims = []string{"----", "....", "====", "****", "____", "++++", "--", "```", "```go", "|===", "////", "-----", ".....", "=====", "******", "____ ", "---- x", "!===", ",===", ":===", "<<<", "'''", "---", "***", "* * *", "_____"}

var soupMarkers = []string{"* ", "** ", "*** ", "- ", ". ", ".. ", "... ", "1. ", "2. ", "a. ", "A. ", "i) ", "I) ", "x:: ", "y::: ", "z:::: ", "x::", "* [x] ", "* [ ] ", "- [*] ", "<1> ", "<2> ", "<.> ", "+", "  * ", "   . ", "NOTE: ", "TIP: ", "> ", "> > ", "|", "|a |", "2+|", ".2+^.>s|", "a|", "h|x |", "== ", "=== ", "==== ", "===== ", "====== ", "======= ", "= ", "# ", "## ", "==", " ", "    ", "\t", "// ", "//", ":a: ", ":a:", ":b-c: ", ":b-c:", ":a!:", ":!a:", ":toc: ", ":toclevels: 3", ":sectnums:", ":sectnums!:", ":idprefix: x", ":idprefix: a&b<c>", ":idseparator: &", ":imagesdir: a&b'c", ":iconsdir: a<b", ":toc-title: a&b<c>", ":description: a<b>&'c'", ":idseparator: -", ":icons: font", ":icons:", ":experimental:", ":imagesdir: d", ":source-highlighter: chroma", ":leveloffset: +1", ":figure-caption: F", ":table-caption!:", ":doctype: manpage", ":unicode!:", ":hardbreaks:", "ifdef::a[]", "ifdef::a,b[]", "ifndef::a[]", "endif::[]", "endif::a[]", "ifdef::a[x]", "ifeval::[\"{a}\" == \"1\"]", "ifeval::[2 < 3]", "image::x.png[]", "image::a&b.png[]", "image::a<b>.png[c&d]", "image::a'b.png[c,d&e,<f>]", "image::x.png[link=\"a&b\",title=\"c<d\"]", "image::x.png[a,10,20]", "video::x[]", "toc::[]", "include::", "tag::a[]", "end::a[]", "-- a", "\"", "[[[b]]] ", "{a}", "{b-c}", "== {b-c}", "image::{b-c}[]", ":b-c:\n\n{b-c}", ":b-c:\n\n== {b-c}", "link:{b-c}[x]", "\\", "\u00a0", "\ufeff"}

// Doc is a document.
func (s *Soup) Doc(maxLines int) string {
	n := s.Range(1, maxLines)
	var l []string
	s.marks = MaxMarks
	if s.Chance(1, 5) {
		l = append(l, s.Pick("= Title", "= Title: sub", "= T {a}\nJohn Doe <j@x.org>", "= T\nA B; C D <x@y>\nv1.0, 2020-01-01: r", "= T\n:toc:", "= *T*\n:author: X Y Z\n:email: e@f", "= name(1)\nA\n:doctype: manpage", "---\na: b\n---", "---\na: [x\n---", "---\n---", "// c\n= T", "[[d]]\n= T", "= T\nv1.0", "=T", "= "))
	}
	for i := 0; i < n; i++ {
		switch s.Weighted(5, 3, 3, 4, 3, 1) {
		case 0:
			l = append(l, s.Inline())
		case 1:
			l = append(l, "")
			s.marks = MaxMarks
		case 2:
			l = append(l, s.pick(soupDelims))
		case 3:
			m := s.pick(soupMarkers)
			if s.Chance(3, 4) {
				m += s.Inline()
			}
			l = append(l, m)
		case 4:
			l = append(l, s.pick(soupAttributes))
		default:
			if len(s.Include) > 0 {
				l = append(l, "include::"+s.Pick(s.Include...)+s.Pick("[]", "[lines=1..2]", "[tag=a]", "[leveloffset=+1]", "[leveloffset=-2]", "[leveloffset=9]", "[tags=a;!b]", "[lines=\"1;3..-1\"]"))
			} else {
				l = append(l, strings.Repeat(" ", s.Intn(5))+s.Inline())
			}
		}
	}
	return strings.Join(l, s.Pick("\n", "\n", "\n", "\r\n")) + s.Pick("\n", "", "\n\n")
}

// Mutate damages a document: lines are removed, repeated, moved, cut and joined, and tokens are inserted.
func (s *Soup) Mutate(doc string) string {
	lines := strings.Split(doc, "\n")
	for k := s.Range(1, 5); k > 0; k-- {
		i := s.Intn(len(lines))
		switch s.Intn(8) {
		case 0:
			lines = append(lines[:i:i], lines[i+1:]...)
		case 1:
			lines = append(lines[:i:i], append([]string{lines[i]}, lines[i:]...)...)
		case 2:
			j := s.Intn(len(lines))
			lines[i], lines[j] = lines[j], lines[i]
		case 3:
			r := []rune(lines[i])
			lines[i] = string(r[:s.Intn(len(r)+1)])
		case 4:
			r := []rune(lines[i])
			j := s.Intn(len(r) + 1)
			lines[i] = string(r[:j]) + s.pick(soupTokens) + string(r[j:])
		case 5:
			lines = append(lines[:i:i], append([]string{s.pick(soupDelims)}, lines[i:]...)...)
		case 6:
			lines = append(lines[:i:i], append([]string{s.pick(soupAttributes)}, lines[i:]...)...)
		case 7:
			lines = append(lines[:i:i], append([]string{s.pick(soupMarkers)}, lines[i:]...)...)
		}
		if len(lines) == 0 {
			lines = []string{""}
		}
	}
	return strings.Join(lines, "\n")
}
