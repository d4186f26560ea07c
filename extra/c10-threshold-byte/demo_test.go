package frost_test

import (
	"encoding/json"
	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"testing"
)

func TestDemo(t *testing.T) {
	ids := helpers.GenerateSet(300)
	_, _, pub := dealer(ids, 260)
	b, err := json.Marshal(pub)
	if err != nil {
		t.Fatal(err)
	}
	var p eddsa.Public
	if err = json.Unmarshal(b, &p); err != nil {
		t.Fatal(err)
	}
	if p.Threshold != party.Size(260) {
		t.Fatal("threshold", p.Threshold)
	}
}
