package frost_test

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s, _, err := frost.NewKeygenState(1, party.IDSlice{1, 2}, 1, 20*time.Millisecond)
	if err != nil {
		t.Fatal(err)
	}
	for s.Err() == nil {
		time.Sleep(100 * time.Microsecond)
	}
}
