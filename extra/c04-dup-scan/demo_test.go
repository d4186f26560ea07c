package frost_test

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/scalar"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"testing"
)

func TestDemo(t *testing.T) {
	var ids party.IDSlice
	for i := party.ID(1); i <= 14; i++ {
		ids = append(ids, i)
	}
	st, _ := keygenStates(t, ids, 1)
	for _, id := range ids[1:] {
		if err := st[1].HandleMessage(messages.NewKeyGen2(id, 1, scalar.NewScalarRandom())); err != nil {
			t.Fatal(err)
		}
	}
	for _, id := range ids[1:] {
		if err := st[1].HandleMessage(messages.NewKeyGen2(id, 1, scalar.NewScalarRandom())); err == nil {
			t.Fatal("a second message is accepted from", id)
		}
	}
}
