module verifharness

go 1.26.0

require (
	github.com/infobloxopen/go-trees v0.0.0
	gopkg.in/yaml.v2 v2.3.0
)

replace github.com/infobloxopen/go-trees => /repo
