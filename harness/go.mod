module dgoverif

go 1.26

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/lyraproj/dgo v0.0.0
)

replace github.com/lyraproj/dgo => /repo
