module verif/harness

go 1.24

require (
	github.com/benedoc-inc/pdfer v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/benedoc-inc/pdfer => /repo
