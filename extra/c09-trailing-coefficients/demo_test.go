package frost_test

import (
	"bytes"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/scalar"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"testing"
)

func TestDemo(t *testing.T) {
	p := polynomial.NewPolynomial(2, scalar.NewScalarRandom())
	e := polynomial.NewPolynomialExponent(p)
	m := messages.NewKeyGen1(3, zk.NewSchnorrProof(3, e.Constant(), make([]byte, 32), p.Constant()), e)
	b, err := m.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	b = append(b, b[len(b)-32:]...)
	var m2 messages.Message
	if m2.UnmarshalBinary(b) == nil {
		b2, _ := m2.MarshalBinary()
		if !bytes.Equal(b, b2) {
			t.Fatal("trailing bytes accepted")
		}
	}
}
