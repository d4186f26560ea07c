package frost_test

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, ids := range []party.IDSlice{{1, 2, 2}, {1, 1, 2}} {
		if s, _, err := frost.NewKeygenState(2, ids, 1, 0); err == nil || s != nil {
			t.Fatal(ids)
		}
	}
}
