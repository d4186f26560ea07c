// The harness lives below the path of the repository's pkg directory so that it
// may import its internal packages; /repo is used as it is (see run.py).
module github.com/taurusgroup/frost-ed25519/pkg/vharness

go 1.27

require (
	filippo.io/edwards25519 v1.0.0-rc.1
	github.com/anishathalye/porcupine v1.3.1
	github.com/taurusgroup/frost-ed25519 v0.0.0
)

replace github.com/taurusgroup/frost-ed25519 => /repo
