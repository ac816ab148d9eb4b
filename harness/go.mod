module verif/harness

go 1.25

require (
	github.com/braintree/manners v0.0.0
	github.com/gocraft/health v0.0.0
	github.com/gocraft/web v0.0.0
	pgregory.net/rapid v1.3.0
)

replace (
	github.com/braintree/manners => ./shims/manners
	github.com/gocraft/health => /repo
	github.com/gocraft/web => ./shims/web
)
