module verif/mc

go 1.23

require (
	github.com/lyraproj/dgo v0.4.4
	github.com/lyraproj/hiera v0.0.0
	github.com/lyraproj/hierasdk v0.4.4
	github.com/sirupsen/logrus v1.4.2
	github.com/spf13/cobra v0.0.6
	gopkg.in/yaml.v3 v3.0.0-20200121175148-a6ecf24a6d71
)

require (
	github.com/bmatcuk/doublestar v1.2.2 // indirect
	github.com/lyraproj/dgoyaml v0.4.4 // indirect
	golang.org/x/sys v0.0.0-20200302150141-5c8b2ff67527 // indirect
)

replace github.com/lyraproj/hiera => /repo
