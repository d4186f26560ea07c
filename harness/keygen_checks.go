package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// kg1 is a parsed KeyGen1 payload.
type kg1 struct {
	S, R    *big.Int
	Commits []*ref.Point
	Raw     []byte
}

func (c *Case) parseKG1(w []byte) kg1 {
	p := w[5:]
	c.Check(len(p) >= 66, "KeyGen1 payload of %d bytes", len(p))
	var k kg1
	var ok1, ok2 bool
	k.S, ok1 = ref.SCanon(p[:32])
	k.R, ok2 = ref.SCanon(p[32:64])
	c.Check(ok1 && ok2, "KeyGen1 with a non-canonical proof")
	deg := int(p[64])<<8 | int(p[65])
	c.Check(len(p) == 66+32*(deg+1), "KeyGen1 of degree %d has %d bytes", deg, len(p))
	for i := 0; i <= deg; i++ {
		q, ok := ref.Decode(p[66+32*i : 98+32*i])
		c.Check(ok, "KeyGen1 with an invalid commitment")
		k.Commits = append(k.Commits, q)
	}
	k.Raw = w
	return k
}

// evalCommits is sum x^i C_i.
func evalCommits(cs []*ref.Point, x int64) *ref.Point {
	acc := ref.Identity()
	for i := len(cs) - 1; i >= 0; i-- {
		acc = acc.Mul(big.NewInt(x)).Add(cs[i])
	}
	return acc
}

// proofChallenge is the documented challenge of the proof of knowledge.
func proofChallenge(id party.ID, ctx []byte, public, m *ref.Point) *big.Int {
	return ref.SHash(be16(id), ctx, public.Encode(), m.Encode())
}

var zeroCtx = make([]byte, 32)

// proofValid checks the proof of a KeyGen1 message by the reference.
func proofValid(id party.ID, k kg1) bool {
	pub := k.Commits[0]
	m := ref.MulBase(k.R).Sub(pub.Mul(k.S))
	return proofChallenge(id, zeroCtx, pub, m).Cmp(k.S) == 0
}

// sent1 returns the only message of the given type a node sent.
func (c *Case) sent1(n *Node, typ int) []byte {
	var found []byte
	for _, w := range n.Sent {
		if wType(w) == typ {
			c.Check(found == nil, "party %d emits two messages of type %d", n.ID, typ)
			found = w
		}
	}
	c.Check(found != nil, "party %d emits no message of type %d", n.ID, typ)
	return found
}

// publicEqual compares two Public values by their encodings.
func (c *Case) publicEqual(a, b *eddsa.Public, what string) {
	c.Check(a != nil && b != nil, "%s: missing public data", what)
	c.Check(fmt.Sprint(a.PartyIDs) == fmt.Sprint(b.PartyIDs), "%s: party lists %v and %v", what, a.PartyIDs, b.PartyIDs)
	c.Check(a.Threshold == b.Threshold, "%s: thresholds %d and %d", what, a.Threshold, b.Threshold)
	c.Check(len(a.Shares) == len(b.Shares), "%s: %d and %d shares", what, len(a.Shares), len(b.Shares))
	for id, e := range a.Shares {
		f := b.Shares[id]
		c.Check(f != nil && bytes.Equal(e.Bytes(), f.Bytes()), "%s: public share of %d differs", what, id)
	}
	c.Check(bytes.Equal(a.GroupKey.ToEd25519(), b.GroupKey.ToEd25519()), "%s: group keys differ", what)
	c.Check(a.Equal(b) && b.Equal(a), "%s: Public.Equal denies equality", what)
}

// checkPublic checks the internal consistency of public data: a sharing of degree <= t.
// secrets may be partial.
func (c *Case) checkShares(pub *eddsa.Public, ids party.IDSlice, t int, secrets map[party.ID]*eddsa.SecretShare, subsets int) *big.Int {
	c.Check(pub != nil, "no public data")
	c.Check(fmt.Sprint([]party.ID(pub.PartyIDs)) == fp(ids), "party list %v instead of %v", pub.PartyIDs, ids)
	c.Check(int(pub.Threshold) == t, "threshold %d instead of %d", pub.Threshold, t)
	c.Check(len(pub.Shares) == len(ids), "%d public shares for %d parties", len(pub.Shares), len(ids))
	c.Check(pub.GroupKey != nil, "no group key")
	ys := map[party.ID]*big.Int{}
	for _, id := range ids {
		c.Check(pub.Shares[id] != nil, "no public share for %d", id)
		s := secrets[id]
		if s == nil {
			continue
		}
		c.Check(s.ID == id, "secret share of party %d carries ID %d", id, s.ID)
		x := scBig(&s.Secret)
		ys[id] = x
		want := ref.MulBase(x).Encode()
		c.Check(bytes.Equal(want, pub.Shares[id].Bytes()), "public share of %d is not [secret]B", id)
		c.Check(bytes.Equal(want, s.Public.Bytes()), "SecretShare.Public of %d is not [secret]B", id)
		c.Eval(1)
	}
	if len(ys) != len(ids) {
		return nil
	}
	var sec *big.Int
	for i := 0; i < subsets; i++ {
		sub := c.subset(ids, t+1)
		if i == 0 {
			sub = ids[:t+1]
		}
		v := make([]*big.Int, len(sub))
		for j, id := range sub {
			v[j] = ys[id]
		}
		s := ref.Interpolate(id64(sub), v, new(big.Int))
		if sec == nil {
			sec = s
		}
		c.Check(s.Cmp(sec) == 0, "the shares of %v interpolate to another secret than those of %v", sub, ids[:t+1])
		c.Eval(1)
	}
	gk := ref.MulBase(sec)
	c.Check(bytes.Equal(gk.EncodeEd(), pub.GroupKey.ToEd25519()), "the group key is not that of the interpolated secret")
	return sec
}

// checkKeygen is the whole consistency oracle over an all-library session.
func (c *Case) checkKeygen(ns []*Node, ids party.IDSlice, t int, subsets int) {
	secrets := map[party.ID]*eddsa.SecretShare{}
	for _, n := range ns {
		c.Check(n.done(), "party %d has not finished although every message was delivered", n.ID)
		c.Check(n.St.Err() == nil, "party %d fails: %v", n.ID, n.St.Err())
		c.Check(n.St.WaitForError() == nil, "party %d: WaitForError returns %v", n.ID, n.St.WaitForError())
		c.Check(n.KG.Public != nil && n.KG.SecretKey != nil, "party %d finishes without output", n.ID)
		c.publicEqual(n.KG.Public, ns[0].KG.Public, fmt.Sprintf("parties %d and %d", n.ID, ns[0].ID))
		secrets[n.ID] = n.KG.SecretKey
	}
	c.checkShares(ns[0].KG.Public, ids, t, secrets, subsets)
	// every contribution enters: public data are those of the sum of all commitments on the wire
	sum := make([]*ref.Point, t+1)
	for i := range sum {
		sum[i] = ref.Identity()
	}
	for _, n := range ns {
		k := c.parseKG1(c.sent1(n, tKG1))
		c.Check(len(k.Commits) == t+1, "party %d commits to a polynomial of degree %d, not %d", n.ID, len(k.Commits)-1, t)
		for i := range sum {
			sum[i] = sum[i].Add(k.Commits[i])
		}
	}
	pub := ns[0].KG.Public
	c.Check(bytes.Equal(sum[0].Prime().EncodeEd(), pub.GroupKey.ToEd25519()), "the group key is not the sum of all contributions")
	for i, id := range ids {
		if i < 4 || c.R.IntN(4) == 0 {
			c.Check(bytes.Equal(evalCommits(sum, int64(id)).Encode(), pub.Shares[id].Bytes()), "the public share of %d is not the evaluation of the summed commitments", id)
		}
	}
	c.Eval(2)
}

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "One case is one honest key generation of n parties (n = 2..25, ID sets of seven shapes, 1 <= t < n) under a random delivery strategy, or one library party among 254..1099 (thorough: 65534) emulated ones; non-trivial and distinct by (IDs, t, schedule). Evaluated: per party key/public-share equality, per subset of t+1 shares the interpolation, per session the sum of all contributions.",
		Parts: []Part{
			{"honest", 900, 9000, func(c *Case) {
				n := c.size(2, 12)
				honestKeygen(c, n)
			}},
			{"wide", 8, 80, func(c *Case) { honestKeygen(c, 13+c.R.IntN(13)) }},
			{"large", 0, 16, func(c *Case) { honestKeygen(c, 40+c.R.IntN(30)) }},
			{"crowd", 24, 200, func(c *Case) { crowdKeygen(c, 0) }},
			{"sizes", 192, 10000, func(c *Case) { n, t := c.sweep(); crowdKeygenN(c, n, t, 0) }},
			{"everybody", 0, 1, func(c *Case) { crowdKeygenN(c, 65535, 1, 0) }},
			{"grid", 45, 136, func(c *Case) {
				// every (n, t) with n <= 10 (17), in order
				n, i := 2, c.Idx
				for i >= n-1 {
					i -= n - 1
					n++
				}
				honestKeygenT(c, n, i+1)
			}},
		},
		Least: map[string]int64{"sessions": 500},
	})
}

func honestKeygen(c *Case, n int) {
	t := 1 + c.R.IntN(n-1)
	switch c.R.IntN(6) {
	case 0:
		t = 1
	case 1:
		t = n - 1
	}
	honestKeygenT(c, n, t)
}

func honestKeygenT(c *Case, n, t int) {
	ids := c.ids(n)
	ns := c.keygenNodes(ids, t, 0)
	p := c.plan(ns)
	sched := c.run(ns, p)
	c.checkKeygen(ns, ids, t, 3)
	c.Count("sessions", 1)
	c.Count("strategy "+p.strategy, 1)
	c.Count("parties", n)
	c.Seen(fp(ids), t, sched)
	c.Sample(map[string]any{"ids": fp(ids), "t": t, "plan": p.String(), "schedule": clip(sched, 200), "groupkey": fmt.Sprintf("%x", []byte(ns[0].KG.Public.GroupKey.ToEd25519()))})
}
