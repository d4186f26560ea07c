package frost_test

import (
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"testing"
)

func TestDemo(t *testing.T) {
	ids := party.IDSlice{4, 9}
	_, secrets, pub := dealer(ids, 0)
	st, out := signStates(t, ids[:1], secrets, pub, []byte("m"))
	if err := pump(t, ids[:1], st); err != nil {
		t.Fatal(err)
	}
	if out[4].Signature == nil {
		t.Fatal("no signature")
	}
}
