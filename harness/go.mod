module zverif

go 1.24

require (
	github.com/protolambda/zssz v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/protolambda/zssz => /repo
