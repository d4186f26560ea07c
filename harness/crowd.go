package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"fmt"

	"filippo.io/edwards25519"
	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

// Sessions of hundreds of participants: one of them runs the library, the others are emulated
// with edwards25519 scalars, following the documentation. (math/big would be too slow here.)

type sc = edwards25519.Scalar

func fastScalar(c *Case) *sc {
	s, err := edwards25519.NewScalar().SetUniformBytes(c.Bytes(64))
	if err != nil {
		panic(err)
	}
	return s
}

func fastInt(x uint64) *sc {
	b := make([]byte, 32)
	for i := 0; i < 8; i++ {
		b[i] = byte(x >> (8 * i))
	}
	s, err := edwards25519.NewScalar().SetCanonicalBytes(b)
	if err != nil {
		panic(err)
	}
	return s
}

func fastHash(parts ...[]byte) *sc {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	s, err := edwards25519.NewScalar().SetUniformBytes(h.Sum(nil))
	if err != nil {
		panic(err)
	}
	return s
}

func fastPoly(coef []*sc, x *sc) *sc {
	r := edwards25519.NewScalar()
	for i := len(coef) - 1; i >= 0; i-- {
		r.MultiplyAdd(r, x, coef[i])
	}
	return r
}

func fastBase(s *sc) *ristretto.Element { return ristretto.NewIdentityElement().ScalarBaseMult(s) }

// fastLagrange is the coefficient of ids[i] at 0.
func fastLagrange(xs []*sc, i int) *sc {
	num, den := fastInt(1), fastInt(1)
	d := edwards25519.NewScalar()
	for j, x := range xs {
		if j != i {
			num.Multiply(num, x)
			den.Multiply(den, d.Subtract(x, xs[i]))
		}
	}
	return num.Multiply(num, den.Invert(den))
}

func (c *Case) crowdSize() (n, t int) {
	n = []int{255, 256, 257, 300, 511, 513, 700, 993, 994, 1000, 1024, 1100}[c.R.IntN(12)]
	t = 1 + c.R.IntN(4)
	if c.Thoro {
		switch c.R.IntN(8) {
		case 0:
			n = 1000 + c.R.IntN(2500)
		case 1:
			n = 60 + c.R.IntN(200)
			t = n/2 + c.R.IntN(n-n/2)
		}
	} else if c.Idx%8 == 3 {
		n = 1100 + c.R.IntN(300)
	} else if c.Idx%8 == 6 {
		// more coefficients than a byte can count
		n = 262 + c.R.IntN(30)
		t = 256 + c.R.IntN(n-256)
	} else if c.Idx%6 == 5 {
		// many coefficients
		n = 70 + c.R.IntN(60)
		t = 65 + c.R.IntN(n-65)
	}
	return
}

// crowdKeygen: cheats > 0 makes some emulated participants deviate.
func crowdKeygen(c *Case, cheats int) {
	n, t := c.crowdSize()
	crowdKeygenN(c, n, t, cheats)
}

func crowdKeygenN(c *Case, n, t, cheats int) {
	ids := c.ids(n)
	self := ids[c.R.IntN(n)]
	if c.R.IntN(4) == 0 {
		self = ids[[]int{0, n - 1}[c.R.IntN(2)]]
	}
	x := c.keygenNode(self, ids, t, c.crowdTimeout)
	if c.watchCrowd != nil {
		c.watchCrowd(x, nil, ids)
	}
	var others party.IDSlice
	for _, id := range ids {
		if id != self {
			others = append(others, id)
		}
	}
	bad := map[party.ID]bool{}
	mode := c.R.IntN(3)
	round := []int{1, 2, 1}[mode]
	for _, id := range c.subset(others, cheats) {
		bad[id] = true
	}
	sum := make([]*sc, t+1)
	for i := range sum {
		sum[i] = edwards25519.NewScalar()
	}
	xs := self.Scalar()
	var w1, w2 [][]byte
	carry := edwards25519.NewScalar()
	nbad := 0
	// if there are many coefficients, all but the first are taken from a pool
	var pool []*sc
	var poolEnc [][]byte
	if n*t > 3000 {
		for i := 0; i < 64; i++ {
			s := fastScalar(c)
			pool, poolEnc = append(pool, s), append(poolEnc, fastBase(s).Bytes())
		}
	}
	for _, id := range others {
		deg := t
		if bad[id] && mode == 2 {
			deg = []int{t - 1, t + 1, 0, 2*t + 1, t + 256, t + 1 + c.R.IntN(8), c.R.IntN(t)}[c.R.IntN(7)]
		}
		coef := make([]*sc, deg+1)
		enc := be16(party.ID(deg))
		var pub *ristretto.Element
		for k := range coef {
			if k > 0 && pool != nil {
				i := c.R.IntN(len(pool))
				coef[k] = pool[i]
				enc = append(enc, poolEnc[i]...)
			} else {
				coef[k] = fastScalar(c)
				e := fastBase(coef[k])
				if k == 0 {
					pub = e
				}
				enc = append(enc, e.Bytes()...)
			}
			if k <= t {
				sum[k].Add(sum[k], coef[k])
			}
		}
		nonce := fastScalar(c)
		s := fastHash(be16(id), zeroCtx, pub.Bytes(), fastBase(nonce).Bytes())
		r := edwards25519.NewScalar().MultiplyAdd(coef[0], s, nonce)
		share := fastPoly(coef, xs)
		if bad[id] {
			if mode == 0 {
				switch d := fastInt(1); c.R.IntN(3) {
				case 0:
					r.Add(r, d)
				case 1:
					s.Add(s, d)
				case 2:
					r = fastScalar(c)
				}
			} else if mode == 1 {
				// errors cancel out if there are several
				nbad++
				if d := fastScalar(c); nbad < cheats || cheats == 1 {
					share.Add(share, d)
					carry.Subtract(carry, d)
				} else {
					share.Add(share, carry)
				}
			}
		}
		w1 = append(w1, wire(tKG1, id, 0, s.Bytes(), r.Bytes(), enc))
		w2 = append(w2, wire(tKG2, id, self, share.Bytes()))
	}
	// sometimes the second round's messages come first
	early := c.R.IntN(3) == 0 || c.Idx%8 == 3
	var own [][]byte
	if !early || c.R.IntN(2) == 0 {
		own = x.step()
		c.Check(len(own) == 1 && wType(own[0]) == tKG1, "%d messages from the first step", len(own))
	}
	k1 := 0
	if early {
		k1 = c.R.IntN(len(w1))
		for _, i := range c.R.Perm(len(w2)) {
			err := x.handle(w2[i])
			c.Check(err == nil, "party %d refuses an early %s: %v", self, wireName(w2[i]), err)
		}
		c.again(x, w2)
		c.Check(len(own) == 0 || len(x.step()) == 0, "party %d emits messages after early ones", self)
		c.Count("early messages of crowds", len(w2))
	}
	if len(own) == 0 {
		for _, w := range w1[:k1] {
			err := x.handle(w)
			c.Check(err == nil, "party %d refuses %s: %v", self, wireName(w), err)
		}
		w1 = w1[k1:]
		own = x.step()
		c.Check(len(own) == 1 && wType(own[0]) == tKG1, "%d messages from the first step", len(own))
	}
	var taken [][]byte
	at := c.R.IntN(len(w1))
	for k, i := range c.R.Perm(len(w1)) {
		if k == at && k > 0 {
			c.again(x, taken)
		}
		out, err := x.deliver(w1[i])
		c.Check(err == nil, "party %d refuses %s: %v", self, wireName(w1[i]), err)
		taken = append(taken, w1[i])
		own = append(own, out...)
	}
	desc := fmt.Sprintf("one of %d parties, t=%d, self=%d, cheats=%d in round %d, mode %d", n, t, self, cheats, round, mode)
	c.Count("crowd sessions", 1)
	c.Count("emulated participants", n-1)
	c.Seen("crowd", fp(ids), t, self, cheats, mode)
	if cheats > 0 && round == 1 {
		c.blame(x, bad, 1, desc)
		return
	}
	if early && cheats > 0 {
		c.blame(x, bad, 2, desc)
		return
	}
	c.Check(early || !x.done(), "party %d has ended before the shares were delivered: %v (%s)", self, x.St.Err(), desc)
	shares := map[party.ID]*sc{}
	for _, w := range own[1:] {
		s, err := edwards25519.NewScalar().SetCanonicalBytes(w[5:])
		c.Check(err == nil && wType(w) == tKG2 && wFrom(w) == self && wTo(w) != self && shares[wTo(w)] == nil, "unexpected message %s", wireName(w))
		shares[wTo(w)] = s
	}
	c.Check(len(shares) == n-1, "%d shares for %d others", len(shares), n-1)
	if early {
		w2 = nil
	}
	for _, i := range c.R.Perm(len(w2)) {
		out, err := x.deliver(w2[i])
		c.Check(err == nil, "party %d refuses %s: %v", self, wireName(w2[i]), err)
		c.Check(len(out) == 0, "messages in the last round")
	}
	if cheats > 0 {
		c.blame(x, bad, 2, desc)
		return
	}
	c.Check(x.done() && x.St.Err() == nil && x.KG.Public != nil && x.KG.SecretKey != nil, "party %d does not finish: %v (%s)", self, x.St.Err(), desc)
	pub, sec := x.KG.Public, x.KG.SecretKey
	c.Check(fmt.Sprint([]party.ID(pub.PartyIDs)) == fp(ids) && int(pub.Threshold) == t && len(pub.Shares) == n && sec.ID == self, "wrong party list, threshold or number of shares (%s)", desc)
	for _, id := range others {
		want := fastPoly(sum, id.Scalar())
		want.Add(want, shares[id])
		c.Check(pub.Shares[id] != nil && bytes.Equal(pub.Shares[id].Bytes(), fastBase(want).Bytes()), "public share of %d is wrong (%s)", id, desc)
	}
	c.Check(pub.Shares[self] != nil && bytes.Equal(pub.Shares[self].Bytes(), fastBase(&sec.Secret).Bytes()), "the own public share does not match the secret (%s)", desc)
	// the own polynomial is what the wires say
	k := c.parseKG1(own[0])
	c.Check(len(k.Commits) == t+1, "commitments of degree %d (%s)", len(k.Commits)-1, desc)
	seen := map[string]bool{}
	for i, p := range k.Commits {
		c.Check(!p.IsIdentity() && !seen[string(p.Encode())], "coefficient %d of %d is zero or repeated (%s)", i, t, desc)
		seen[string(p.Encode())] = true
	}
	for i := 0; i < 3; i++ {
		id := others[c.R.IntN(len(others))]
		c.Check(bytes.Equal(evalCommits(k.Commits, int64(id)).Encode(), fastBase(shares[id]).Bytes()), "the share sent to %d does not match the commitments (%s)", id, desc)
	}
	f := edwards25519.NewScalar().Subtract(&sec.Secret, fastPoly(sum, xs))
	c.Check(bytes.Equal(evalCommits(k.Commits, int64(self)).Encode(), fastBase(f).Bytes()), "the secret share is not the sum of all shares (%s)", desc)
	// the group key: the first commitments of everybody
	gk := fastBase(sum[0])
	gk.Add(gk, ptEl(k.Commits[0]))
	c.Check(bytes.Equal(gk.BytesEd25519(), pub.GroupKey.ToEd25519()), "the group key is not the sum of all contributions (%s)", desc)
	c.Eval(n + 6)
	c.Sample(map[string]any{"crowd": desc, "ids": clip(fp(ids), 120)})
}

// again repeats some messages, some with the content of another one; all are refused.
func (c *Case) again(x *Node, ws [][]byte) {
	for k := 0; k < 6; k++ {
		w := ws[c.R.IntN(len(ws))]
		w = append(append([]byte{}, w[:5]...), ws[c.R.IntN(len(ws))][5:]...)
		c.Check(x.handle(w) != nil, "party %d accepts a repeated %s", x.ID, wireName(w))
		c.Count("repeated messages of crowds", 1)
	}
}

// crowdSign: one library signer among m emulated ones.
func crowdSign(c *Case, cheats int) {
	m, t := c.crowdSize()
	if c.Idx%6 == 5 || t >= m {
		m, t = 300, 280
	}
	crowdSignN(c, m, t, cheats)
}

// sweep walks through all sizes from 2 to 49 and some more, and through small, large and arbitrary thresholds.
func (c *Case) sweep() (n, t int) {
	n = 2 + c.Idx%48
	if c.Idx%16 == 15 {
		// some of the usual sizes of blocks and buffers
		edge := []int{64, 100, 128, 63, 65, 99, 101, 127, 129, 96, 200, 192}
		n = edge[c.Idx/16%len(edge)]
	}
	switch c.Idx / 48 % 4 {
	case 0:
		t = 1 + c.R.IntN(n-1)
	case 1:
		t = 1 + c.Idx%(n-1)
	case 2:
		t = n - 1 - c.R.IntN(min(2, n-1))
	case 3:
		t = 1 + c.R.IntN(min(3, n-1))
	}
	return
}

// cheaters is how many of n-1 participants deviate in a sweep.
func (c *Case) cheaters(n int) int { return 1 + c.R.IntN(min(3, n-1)) }

var edgeLengths = func() (ls []int) {
	for _, n := range []int{2, 16, 32, 48, 64, 96, 112, 128, 192, 240, 256, 384, 512, 768, 1024, 1500, 2048, 4096, 8192, 16384, 32768, 65536} {
		ls = append(ls, n-1, n, n+1)
	}
	return append(ls, 100000, 1<<20+1)
}()

func crowdSignN(c *Case, m, t, cheats int) {
	n := m + c.R.IntN(3)
	ids := c.ids(n)
	coef := make([]*sc, t+1)
	for i := range coef {
		coef[i] = fastScalar(c)
	}
	pubs := map[party.ID]*ristretto.Element{}
	secrets := map[party.ID]*sc{}
	for _, id := range ids {
		secrets[id] = fastPoly(coef, id.Scalar())
		pubs[id] = fastBase(secrets[id])
	}
	pub, err := eddsa.NewPublic(pubs, party.Size(t))
	c.Check(err == nil, "NewPublic refuses consistent shares: %v", err)
	signers := c.subset(ids, m)
	self := signers[c.R.IntN(m)]
	msg := c.message()
	if m < 50 && c.Idx%2 == 0 {
		// walk through the lengths around the sizes of blocks and buffers
		msg = c.Bytes(edgeLengths[c.Idx/2%len(edgeLengths)])
	}
	k := &Key{IDs: ids, T: t, Public: pub, Secrets: map[party.ID]*eddsa.SecretShare{self: eddsa.NewSecretShare(self, secrets[self])}}
	gkEd := fastBase(coef[0]).BytesEd25519()
	c.Check(bytes.Equal(gkEd, pub.GroupKey.ToEd25519()), "the group key of %d shares is not that of their secret", n)
	x := c.signNode(k, signers, self, msg, c.crowdTimeout)
	if c.watchCrowd != nil {
		c.watchCrowd(x, k, signers)
	}
	desc := fmt.Sprintf("one of %d signers, n=%d, t=%d, self=%d, cheats=%d, message of %d bytes", m, n, t, self, cheats, len(msg))
	c.Count("crowd sessions", 1)
	c.Count("emulated participants", m-1)
	c.Seen("crowd", fp(signers), t, self, cheats, len(msg))
	own := x.step()
	c.Check(len(own) == 1 && wType(own[0]) == tSG1 && len(own[0]) == 69, "unexpected first message (%s)", desc)
	d, e := map[party.ID]*sc{}, map[party.ID]*sc{}
	var B []byte
	var w1 [][]byte
	for _, id := range signers {
		w := own[0]
		if id != self {
			d[id], e[id] = fastScalar(c), fastScalar(c)
			w = wire(tSG1, id, 0, fastBase(d[id]).Bytes(), fastBase(e[id]).Bytes())
			w1 = append(w1, w)
		}
		B = append(append(B, be16(id)...), w[5:]...)
	}
	mh := sha512.Sum512(msg)
	prefix, suffix := []byte("FROST-SHA512"), append(append([]byte{}, mh[:]...), B...)
	rho := map[party.ID]*sc{}
	r := edwards25519.NewScalar()
	for _, id := range signers {
		rho[id] = fastHash(prefix, be16(id), suffix)
		if id != self {
			r.Add(r, d[id])
			r.Add(r, edwards25519.NewScalar().Multiply(rho[id], e[id]))
		}
	}
	var D, E ristretto.Element
	if _, err := D.SetCanonicalBytes(own[0][5:37]); err != nil {
		c.Fail("the commitment D is not canonical")
	}
	if _, err := E.SetCanonicalBytes(own[0][37:69]); err != nil {
		c.Fail("the commitment E is not canonical")
	}
	Rx := ristretto.NewIdentityElement().ScalarMult(rho[self], &E)
	Rx.Add(Rx, &D)
	R := ristretto.NewIdentityElement().Add(fastBase(r), Rx)
	ch := fastHash(R.BytesEd25519(), gkEd, msg)
	xs := make([]*sc, m)
	for i, id := range signers {
		xs[i] = id.Scalar()
	}
	S := edwards25519.NewScalar()
	var ownShare *ristretto.Element // times the generator
	bad := map[party.ID]bool{}
	for _, id := range c.subset(signers, cheats+1) {
		if id != self && len(bad) < cheats {
			bad[id] = true
		}
	}
	carry, nbad := edwards25519.NewScalar(), 0
	var w2 [][]byte
	for i, id := range signers {
		l := fastLagrange(xs, i)
		l.Multiply(l, ch)
		if id == self {
			want := ristretto.NewIdentityElement().ScalarMult(l, pubs[self])
			want.Add(want, Rx)
			ownShare = want
			continue
		}
		z := edwards25519.NewScalar().MultiplyAdd(rho[id], e[id], d[id])
		z.Add(z, l.Multiply(l, secrets[id]))
		if bad[id] {
			nbad++
			if dl := fastScalar(c); nbad < len(bad) || len(bad) == 1 {
				z.Add(z, dl)
				carry.Subtract(carry, dl)
			} else {
				z.Add(z, carry)
			}
		}
		S.Add(S, z)
		w2 = append(w2, wire(tSG2, id, 0, z.Bytes()))
	}
	early := c.R.IntN(3) == 0 || c.Idx%8 == 3
	if early {
		k1 := c.R.IntN(len(w1))
		for _, w := range w1[:k1] {
			err := x.handle(w)
			c.Check(err == nil, "signer %d refuses %s: %v", self, wireName(w), err)
		}
		w1 = w1[k1:]
		for _, i := range c.R.Perm(len(w2)) {
			err := x.handle(w2[i])
			c.Check(err == nil, "signer %d refuses an early %s: %v", self, wireName(w2[i]), err)
		}
		c.again(x, w2)
		c.Check(len(x.step()) == 0, "signer %d emits messages after early ones", self)
		c.Count("early messages of crowds", len(w2))
		w2 = nil
	}
	var z2 [][]byte
	var taken [][]byte
	at := c.R.IntN(len(w1))
	for k, i := range c.R.Perm(len(w1)) {
		if k == at && k > 0 {
			c.again(x, taken)
		}
		out, err := x.deliver(w1[i])
		c.Check(err == nil, "signer %d refuses %s: %v", self, wireName(w1[i]), err)
		taken = append(taken, w1[i])
		z2 = append(z2, out...)
	}
	c.Check(len(z2) == 1 && wType(z2[0]) == tSG2 && len(z2[0]) == 37, "unexpected second message, %d of them, error %v (%s)", len(z2), x.St.Err(), desc)
	zown, err := edwards25519.NewScalar().SetCanonicalBytes(z2[0][5:])
	c.Check(err == nil, "the signature share is not canonical")
	c.Check(bytes.Equal(ownShare.Bytes(), fastBase(zown).Bytes()), "the signature share is not d + e*rho + lambda*s*c (%s)", desc)
	S.Add(S, zown)
	for _, i := range c.R.Perm(len(w2)) {
		_, err := x.deliver(w2[i])
		c.Check(err == nil, "signer %d refuses %s: %v", self, wireName(w2[i]), err)
	}
	c.Eval(2)
	if len(bad) > 0 {
		c.blame(x, bad, 2, desc)
		return
	}
	c.Check(x.done() && x.St.Err() == nil && x.SG.Signature != nil, "signer %d does not finish: %v (%s)", self, x.St.Err(), desc)
	sig := x.SG.Signature.ToEd25519()
	c.Check(bytes.Equal(sig, append(R.BytesEd25519(), S.Bytes()...)), "the signature is not the aggregate of all shares (%s)", desc)
	c.Check(ed25519.Verify(gkEd, msg, sig), "the signature is not valid (%s)", desc)
	c.Eval(2)
	c.Sample(map[string]any{"crowd": desc})
}
