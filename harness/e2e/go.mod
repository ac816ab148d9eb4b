module verif/harness/e2e

go 1.25

require (
	github.com/braintree/manners v0.0.0
	github.com/buger/goterm v1.0.4
	github.com/gocraft/health v0.0.0
	github.com/gocraft/web v0.0.0
	github.com/spf13/cobra v1.10.2
	pgregory.net/rapid v1.3.0
	verif/harness v0.0.0
)

replace (
	github.com/braintree/manners => github.com/braintree/manners v0.0.0-20150503212558-0b5e6b2c2843
	github.com/gocraft/health => /repo
	github.com/gocraft/web => ../shims/web
	verif/harness => ..
)
