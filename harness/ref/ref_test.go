package ref

import (
	"crypto/ed25519"
	"encoding/hex"
	"math/big"
	"math/rand"
	"testing"
)

// RFC 9496, appendix A.1: multiples of the generator.
var multiples = []string{
	"0000000000000000000000000000000000000000000000000000000000000000",
	"e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76",
	"6a493210f7499cd17fecb510ae0cea23a110e8d5b901f8acadd3095c73a3b919",
	"94741f5d5d52755ece4f23f044ee27d5d1ea1e2bd196b462166b16152a9d0259",
	"da80862773358b466ffadfe0b3293ab3d9fd53c5ea6c955358f568322daf6a57",
	"e882b131016b52c1d3337080187cf768423efccbb517bb495ab812c4160ff44e",
	"f64746d3c92b13050ed8d80236a7f0007c3b3f962f5ba793d19a601ebb1df403",
}

func TestVectors(t *testing.T) {
	for i, m := range multiples {
		p := Base.Mul(big.NewInt(int64(i)))
		if hex.EncodeToString(p.Encode()) != m {
			t.Fatal(i)
		}
		b, _ := hex.DecodeString(m)
		q, ok := Decode(b)
		if !ok || !q.Equal(p) {
			t.Fatal(i)
		}
		for _, tor := range Torsion() {
			if hex.EncodeToString(p.Add(tor.Mul(big.NewInt(2))).Encode()) != m {
				t.Fatal("torsion", i)
			}
		}
	}
	// RFC 9496, appendix A.3
	u, _ := hex.DecodeString("5d1be09e3d0c82fc538112490e35701979d99e06ca3e2b5b54bffe8b4dc772c14d98b696a1bbfb5ca32c436cc61c16563790306c79eaca7705668b47dffe5bb6")
	if hex.EncodeToString(FromUniform(u).Encode()) != "3066f82a1a747d45120d1740f14358531a8f04bbffe6a819f86dfe50f44a0a46" {
		t.Fatal("uniform")
	}
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 30; i++ {
		seed := make([]byte, 32)
		r.Read(seed)
		k := ed25519.NewKeyFromSeed(seed)
		sig := ed25519.Sign(k, seed)
		if !VerifyEd(k.Public().(ed25519.PublicKey), seed, sig) {
			t.Fatal("verify")
		}
		sig[3] ^= 1
		if VerifyEd(k.Public().(ed25519.PublicKey), seed, sig) {
			t.Fatal("verify")
		}
	}
}
