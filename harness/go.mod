module verif.local/harness

go 1.23.0

require (
	pgregory.net/rapid v1.3.0
	robpike.io/ivy v0.0.0
)

replace robpike.io/ivy => /repo
