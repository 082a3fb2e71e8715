package engine

import (
	"fmt"
	"sort"
)

// Conf is the configuration of a conversion, in a form that can be saved.
type Conf struct {
	Backend string            `json:"backend,omitempty"`
	Wrap    bool              `json:"wrap,omitempty"` // header and footer
	Attrs   map[string]string `json:"attrs,omitempty"`
	CSS     []string          `json:"css,omitempty"`
	Name    string            `json:"name,omitempty"` // filename
	Macros  map[string]string `json:"macros,omitempty"`
}

// Case is one generated case. It is complete: the check of a property depends
// on nothing but the case, so that a saved case is a replay file.
type Case struct {
	Sub    string            `json:"sub,omitempty"` // which sub-check of the property
	Doc    string            `json:"doc"`
	Docs   []string          `json:"docs,omitempty"`
	Files  map[string]string `json:"files,omitempty"`
	Conf   Conf              `json:"conf"`
	Confs  []Conf            `json:"confs,omitempty"`
	Want   string            `json:"want,omitempty"`
	Wants  []string          `json:"wants,omitempty"`
	Ints   []int             `json:"ints,omitempty"`
	Args   []string          `json:"args,omitempty"`
	Labels []string          `json:"labels,omitempty"`
	// Trivial is set by the generator when the case cannot exercise the property
	Trivial bool `json:"trivial,omitempty"`
}

// Label records classes of the case, for the statistics in the evidence.
func (c *Case) Label(l ...string) { c.Labels = append(c.Labels, l...) }

// Fail is what a check returns when the property does not hold on a case.
type Fail struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

func (f *Fail) Error() string { return f.Kind + ": " + f.Msg }

// Failf makes a Fail.
func Failf(kind, format string, args ...interface{}) *Fail {
	return &Fail{Kind: kind, Msg: fmt.Sprintf(format, args...)}
}

// Prop is a property: a generator of cases and a check of one case.
type Prop struct {
	ID       string
	Rule     string // what counts as a non-trivial case
	Gen      func(t *T) *Case
	Check    func(c *Case) *Fail
	Quick    int // number of cases in the quick tier
	Thorough int
	Race     bool // run the checks in a binary built with the race detector
	Workers  int  // at most that many workers (0: one per core)
	Assume   []string
}

var props = map[string]*Prop{}

// Register adds a property to the registry.
func Register(p *Prop) { props[p.ID] = p }

// Get returns the property with the given id.
func Get(id string) *Prop { return props[id] }

// IDs returns the sorted ids of all the properties.
func IDs() []string {
	var r []string
	for id := range props {
		r = append(r, id)
	}
	sort.Strings(r)
	return r
}
