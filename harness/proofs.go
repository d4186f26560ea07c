package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// torsion4 returns an element that is the identity of the group, but whose internal point
// is one of the (at most four) points of the identity's coset.
func (c *Case) torsion4() *ristretto.Element {
	u, err := new(ristretto.Element).SetUniformBytes(c.Bytes(64))
	c.Check(err == nil, "SetUniformBytes refuses 64 bytes")
	v, err := new(ristretto.Element).SetCanonicalBytes(u.Bytes())
	c.Check(err == nil, "the encoding of a uniform element is not decoded")
	return ristretto.NewIdentityElement().Subtract(u, v)
}

// rerep returns the same group element in another internal representation.
func (c *Case) rerep(e *ristretto.Element) *ristretto.Element {
	out := ristretto.NewIdentityElement().Set(e)
	switch c.R.IntN(4) {
	case 0:
		return out
	case 1: // projectively scaled
		g := ristretto.NewGeneratorElement()
		return out.Subtract(out.Add(out, g), g)
	}
	return out.Add(out, c.torsion4())
}

func (c *Case) id() party.ID {
	switch c.R.IntN(4) {
	case 0:
		return []party.ID{1, 2, 255, 256, 257, 32767, 32768, 65280, 65534, 65535}[c.R.IntN(10)]
	case 1:
		return party.ID(1 + c.R.IntN(50))
	}
	return party.ID(1 + c.R.IntN(65535))
}

func (c *Case) special() *big.Int {
	switch c.R.IntN(8) {
	case 0:
		return big.NewInt(int64(c.R.IntN(4)))
	case 1:
		return ref.SNeg(big.NewInt(int64(1 + c.R.IntN(3))))
	case 2:
		return new(big.Int).Lsh(big.NewInt(1), uint(c.R.IntN(252)))
	case 3:
		return big.NewInt(patterned[c.R.IntN(len(patterned))])
	case 4:
		return c.patternedScalar()
	}
	return c.scalar()
}

// patterned are multiples of the base point whose Ed25519 or Ristretto encodings have an
// unusual form: two or three equal bytes, or 0 or 0xff, in the first, last or middle places,
// the sign bit with nothing else in its byte, almost all bytes above 0x7f or below 0x80, white
// space around. Found among the first 1.5 million multiples.
var patterned = []int64{1, 105, 3695, 6157, 9876, 9917, 14431, 17078, 17500, 18442, 18762, 20046, 22089, 22647, 23773, 27637, 29013, 30411, 32668, 33158, 34066, 35267, 36055, 37926, 40165, 40522, 42863, 43730, 46924, 47356, 47420, 48997, 53635, 55028, 56556, 59847, 60942, 60960, 66284, 66644, 76094, 81280, 85197, 86216, 90382, 93405, 98369, 104859, 115468, 119558, 120042, 122355, 122459, 122893, 143792, 164802, 170245, 172924, 181186, 221041, 226635, 235748, 257945, 268828, 269826, 311498, 403558, 478019, 518484, 558807, 592569, 862162, 1263417, 1451122}

// patternedScalar: scalars whose encodings have an unusual form.
func (c *Case) patternedScalar() *big.Int {
	b := ref.ToLE(c.scalar())
	fill := []byte{0, 0xff, 0x80, 0x7f, b[3]}[c.R.IntN(5)]
	switch c.R.IntN(6) {
	case 0: // low bytes
		for i := c.R.IntN(30); i >= 0; i-- {
			b[i] = fill
		}
	case 1: // high bytes
		for i := 1 + c.R.IntN(30); i < 32; i++ {
			b[i] = fill & 0x0f
		}
	case 2: // somewhere
		i := c.R.IntN(31)
		for j := i + c.R.IntN(31-i); j >= i; j-- {
			b[j] = fill
		}
	case 3: // not below 2^252
		return ref.SSub(ref.SNeg(ref.SInt(1)), new(big.Int).Rsh(ref.LE(b), 129))
	case 4: // all bytes
		for i := range b[:31] {
			b[i] = fill
		}
	case 5:
		b[0], b[31] = fill, fill&0x0f
	}
	return ref.SMod(ref.LE(b))
}

func (c *Case) ctx() []byte {
	switch c.R.IntN(4) {
	case 0:
		return make([]byte, 32)
	case 1:
		return bytes.Repeat([]byte{0xff}, 32)
	}
	return c.Bytes(32)
}

// refProof evaluates the documented verification equation.
func refProof(id party.ID, pub *ref.Point, ctx []byte, s, r *big.Int) bool {
	m := ref.MulBase(r).Sub(pub.Mul(s))
	return proofChallenge(id, ctx, pub, m).Cmp(s) == 0
}

func proofOf(s, r *big.Int) *zk.Schnorr {
	return &zk.Schnorr{S: *bigSc(s), R: *bigSc(r)}
}

func (c *Case) proofOutcome(id party.ID, pub *ref.Point, ctx []byte, s, r *big.Int, want bool, what string) {
	e := ptEl(pub)
	if c.R.IntN(3) == 0 {
		e = c.rerep(e)
	}
	p := proofOf(s, r)
	ec := append([]byte{}, ctx...)
	enc := e.Bytes()
	got := p.Verify(id, e, ec)
	c.Check(got == want, "%s: Verify says %v for id=%d point=%x ctx=%x S=%x R=%x", what, got, id, enc, ctx, ref.ToLE(s), ref.ToLE(r))
	c.Check(bytes.Equal(ec, ctx) && bytes.Equal(e.Bytes(), enc) && scBig(&p.S).Cmp(s) == 0 && scBig(&p.R).Cmp(r) == 0, "%s: Verify alters its arguments", what)
	c.Eval(1)
	c.Count(fmt.Sprintf("proofs that must be %v", map[bool]string{true: "accepted", false: "refused"}[want]), 1)
}

// proofNoise uses the proofs in other ways, which must not have any influence on what follows.
func (c *Case) proofNoise(e *ristretto.Element) {
	if c.R.IntN(2) == 0 {
		return
	}
	for k := 1 + c.R.IntN(3); k > 0; k-- {
		p := proofOf(c.scalar(), c.scalar())
		ctx := c.ctx()
		switch c.R.IntN(4) {
		case 0:
			p.Verify(c.id(), e, ctx)
		case 1: // only 32 bytes of the context are documented
			p.Verify(c.id(), e, append(ctx, c.Bytes(1+c.R.IntN(64))...))
		case 2:
			zk.NewSchnorrProof(c.id(), e, append(ctx, c.Bytes(1+c.R.IntN(64))...), bigSc(c.scalar()))
		case 3:
			_ = p.UnmarshalBinary(c.Bytes(c.R.IntN(70)))
		}
	}
	c.Count("proofs preceded by unrelated ones", 1)
}

// madeProof makes a proof with the library and checks it against the reference.
func (c *Case) madeProof(id party.ID, x *big.Int, ctx []byte) (pub *ref.Point, s, r *big.Int) {
	pub = ref.MulBase(x)
	e := ptEl(pub)
	if c.R.IntN(2) == 0 {
		e = c.rerep(e)
	}
	c.proofNoise(e)
	sc := bigSc(x)
	cc := append([]byte{}, ctx...)
	p := zk.NewSchnorrProof(id, e, cc, sc)
	c.Check(p != nil, "NewSchnorrProof returns nil")
	c.Check(scBig(sc).Cmp(x) == 0 && bytes.Equal(cc, ctx) && bytes.Equal(e.Bytes(), pub.Encode()), "NewSchnorrProof alters its arguments")
	s, r = scBig(&p.S), scBig(&p.R)
	c.Check(p.Verify(id, e, cc), "an honest proof of id=%d x=%v does not verify", id, x)
	c.Check(refProof(id, pub, ctx, s, r), "the honest proof of id=%d ctx=%x x=%v does not satisfy the documented equation: S=%x R=%x", id, ctx, x, ref.ToLE(s), ref.ToLE(r))
	c.Count("proofs made by the library", 1)
	c.Eval(2)
	return
}

func honestProofs(c *Case) {
	id, ctx := c.id(), c.ctx()
	x := c.special()
	pub, s, r := c.madeProof(id, x, ctx)
	c.proofOutcome(id, pub, ctx, s, r, true, "honest proof")
	// and a proof by the reference
	k := c.special()
	s2 := proofChallenge(id, ctx, pub, ref.MulBase(k))
	r2 := ref.SAdd(k, ref.SMul(x, s2))
	c.proofOutcome(id, pub, ctx, s2, r2, true, "proof made by the reference")
	// two proofs are made with different nonces
	s3 := zk.NewSchnorrProof(id, ptEl(pub), ctx, bigSc(x))
	c.Check(scBig(&s3.S).Cmp(s) != 0 && scBig(&s3.R).Cmp(r) != 0, "two proofs share a component")
	c.Seen(id, x, ctx)
	c.Sample(map[string]any{"id": id, "S": fmt.Sprintf("%x", ref.ToLE(s)), "R": fmt.Sprintf("%x", ref.ToLE(r)), "verified": true})
}

// mutate alters each part of the statement and of the proof.
func mutatedProofs(c *Case) {
	id, ctx := c.id(), c.ctx()
	x := c.scalar()
	pub, s, r := c.madeProof(id, x, ctx)
	no := func(id party.ID, pub *ref.Point, ctx []byte, s, r *big.Int, what string) {
		if refProof(id, pub, ctx, s, r) {
			return // cannot happen but for a hash collision
		}
		c.proofOutcome(id, pub, ctx, s, r, false, what)
	}
	for b := 0; b < 16; b++ {
		no(id^1<<b, pub, ctx, s, r, "another ID")
	}
	no(id<<8|id>>8+1, pub, ctx, s, r, "another ID")
	no(id+1, pub, ctx, s, r, "another ID")
	no(id-1, pub, ctx, s, r, "another ID")
	no(0, pub, ctx, s, r, "ID 0")
	// every byte of the context, in turn over the cases
	for i := 0; i < 32; i++ {
		d := append([]byte{}, ctx...)
		d[i] ^= 1 << c.R.IntN(8)
		no(id, pub, d, s, r, fmt.Sprintf("another context (byte %d)", i))
	}
	for _, q := range []*ref.Point{pub.Neg(), pub.Add(ref.Base), pub.Add(pub), ref.MulBase(c.scalar()), ref.Identity(), ref.Base} {
		no(id, q, ctx, s, r, "another point")
	}
	for _, t := range []*big.Int{ref.SNeg(s), ref.SAdd(s, big.NewInt(1)), ref.SSub(s, big.NewInt(1)), new(big.Int), r, c.scalar(), ref.SAdd(s, s)} {
		no(id, pub, ctx, t, r, "another S")
	}
	for _, t := range []*big.Int{ref.SNeg(r), ref.SAdd(r, big.NewInt(1)), ref.SSub(r, big.NewInt(1)), new(big.Int), s, c.scalar(), ref.SAdd(r, r)} {
		no(id, pub, ctx, s, t, "another R")
	}
	for k := 0; k < 12; k++ {
		bs := ref.ToLE(s)
		bs[c.R.IntN(32)] ^= 1 << c.R.IntN(8)
		if v, ok := ref.SCanon(bs); ok {
			no(id, pub, ctx, v, r, "a bit of S flipped")
		}
		br := ref.ToLE(r)
		br[c.R.IntN(32)] ^= 1 << c.R.IntN(8)
		if v, ok := ref.SCanon(br); ok {
			no(id, pub, ctx, s, v, "a bit of R flipped")
		}
	}
	no(id, pub, ctx, r, s, "S and R exchanged")
	d := c.scalar()
	no(id, pub, ctx, ref.SAdd(s, d), ref.SAdd(r, ref.SMul(d, x)), "S and R shifted consistently")
	no(id, pub.Add(ref.MulBase(d)), ctx, s, r, "shifted point")
	no(id, pub.Add(ref.MulBase(d)), ctx, s, ref.SAdd(r, ref.SMul(d, s)), "point and R shifted consistently")
	c.Seen(id, x)
}

// forgedProofs tries what would work against weaker variants of the proof.
func forgedProofs(c *Case) {
	id, ctx := c.id(), c.ctx()
	x := c.scalar()
	pub := ref.MulBase(x)
	no := func(pub *ref.Point, s, r *big.Int, what string) {
		if refProof(id, pub, ctx, s, r) {
			return
		}
		c.proofOutcome(id, pub, ctx, s, r, false, what)
	}
	k := c.scalar()
	m := ref.MulBase(k)
	i, p, mm := be16(id), pub.Encode(), m.Encode()
	le := []byte{byte(id), byte(id >> 8)}
	// the hash without one or more components, or otherwise composed
	variants := map[string]*big.Int{
		"without the ID":          ref.SHash(ctx, p, mm),
		"without the context":     ref.SHash(i, p, mm),
		"without the point":       ref.SHash(i, ctx, mm),
		"without the nonce":       ref.SHash(i, ctx, p),
		"point and nonce swapped": ref.SHash(i, ctx, mm, p),
		"context first":           ref.SHash(ctx, i, p, mm),
		"little-endian ID":        ref.SHash(le, ctx, p, mm),
		"ID alone":                ref.SHash(i),
		"point alone":             ref.SHash(p),
		"zero":                    new(big.Int),
		"one":                     big.NewInt(1),
		"half the context":        ref.SHash(i, ctx[:16], p, mm),
		"zero context":            ref.SHash(i, make([]byte, 32), p, mm),
		"Ed25519 forms":           ref.SHash(i, ctx, pub.EncodeEd(), m.EncodeEd()),
		"random":                  c.scalar(),
	}
	h := proofChallenge(id, ctx, pub, m)
	variants["low half of the hash"] = ref.LE(ref.ToLE(h)[:16])
	for name, s := range variants {
		if name == "zero context" && bytes.Equal(ctx, make([]byte, 32)) {
			continue
		}
		// consistent with the equation, with the secret
		no(pub, s, ref.SAdd(k, ref.SMul(x, s)), "challenge "+name)
		// without the secret: the commitment that results from a chosen R
		no(pub, s, c.scalar(), "chosen R, challenge "+name)
		no(pub, s, k, "R is the nonce, challenge "+name)
		no(pub, s, new(big.Int), "R is 0, challenge "+name)
		// without the secret: a point that fits
		if s.Sign() != 0 {
			r := c.scalar()
			q := ref.MulBase(ref.SMul(ref.SSub(r, k), ref.SInv(s)))
			no(q, s, r, "fitting point, challenge "+name)
		}
	}
	// a proof of the right shape for the commitment, but not the statement
	no(pub, h, ref.SSub(k, ref.SMul(x, h)), "R = k - xS")
	no(pub.Neg(), h, ref.SAdd(k, ref.SMul(x, h)), "negated point")
	// copied from another party, another point, another context
	other := c.id()
	if other != id {
		_, s, r := c.madeProof(other, x, ctx)
		no(pub, s, r, "copied from another party")
	}
	y := c.scalar()
	_, s, r := c.madeProof(id, y, ctx)
	no(pub, s, r, "copied from another point")
	ctx2 := c.Bytes(32)
	_, s, r = c.madeProof(id, x, ctx2)
	no(pub, s, r, "copied from another context")
	// the proof of a sum from two proofs
	q1, s1, r1 := c.madeProof(id, c.scalar(), ctx)
	no(pub.Add(q1), ref.SAdd(s, s1), ref.SAdd(r, r1), "sum of two proofs")
	// decoded from bytes: what is accepted must be the same
	c.Seen(id, x)
}

// wireProofs sends proofs through their encodings, and through key generation messages.
func wireProofs(c *Case) {
	id, ctx := c.id(), c.ctx()
	x := c.scalar()
	pub, s, r := c.madeProof(id, x, ctx)
	var p zk.Schnorr
	c.Check(p.UnmarshalBinary(append(ref.ToLE(s), ref.ToLE(r)...)) == nil, "the encoding of a proof is refused")
	c.Check(p.Verify(id, ptEl(pub), ctx), "a decoded proof does not verify")
	// the first message of key generation carries a proof of its constant term
	ids := c.ids(c.R.IntN(4) + 2)
	t := 1 + c.R.IntN(len(ids)-1)
	n := c.keygenNode(ids[c.R.IntN(len(ids))], ids, t, 0)
	n.step()
	w := c.sent1(n, tKG1)
	k := c.parseKG1(w)
	c.Check(proofValid(n.ID, k), "the proof in the KeyGen1 message of party %d does not satisfy the documented equation", n.ID)
	m := c.mustDecode(w)
	c.Check(m.KeyGen1.Proof.Verify(n.ID, ptEl(k.Commits[0]), zeroCtx), "the proof in the KeyGen1 message of party %d does not verify", n.ID)
	for _, o := range ids {
		if o != n.ID {
			c.Check(!m.KeyGen1.Proof.Verify(o, ptEl(k.Commits[0]), zeroCtx), "the proof of party %d verifies for party %d", n.ID, o)
		}
	}
	c.Check(!m.KeyGen1.Proof.Verify(n.ID, ptEl(k.Commits[len(k.Commits)-1]), zeroCtx), "the proof verifies for another coefficient")
	c.Eval(3)
	c.Seen(fp(ids), n.ID)
}

func init() {
	register(&Prop{ID: "C07", Parts: []Part{
		{"honest", 600, 20000, honestProofs},
		{"altered", 64, 2500, mutatedProofs},
		{"forged", 80, 3000, forgedProofs},
		{"messages", 80, 3000, wireProofs},
	}, Rule: "an execution counts if the library made or judged a proof for a statement that the reference judged as well; distinct by party ID, secret and context (or session)",
		Least: map[string]int64{"proofs made by the library": 800, "proofs that must be accepted": 1000, "proofs that must be refused": 8000}})
}
