module github.com/mmcloughlin/addchain/verif

go 1.25

require (
	github.com/mmcloughlin/addchain v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/mmcloughlin/addchain => /repo
