module verif

go 1.17

require (
	github.com/bytesparadise/libasciidoc v0.0.0
	github.com/sirupsen/logrus v1.7.0
)

require (
	github.com/alecthomas/chroma/v2 v2.3.0 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/dlclark/regexp2 v1.4.0 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/sys v0.13.0 // indirect
	gopkg.in/yaml.v2 v2.4.0 // indirect
)

replace github.com/bytesparadise/libasciidoc => /repo

// same replacement as in the go.mod of the project under test
replace github.com/davecgh/go-spew => github.com/flw-cn/go-spew v1.1.2-0.20200624141737-10fccbfd0b23
