package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// Sequences of sessions and calls in one process, each of which differs from the one before in
// one respect only: nothing may be remembered that makes a difference.

// similarSets have the same number of elements and the same sum, some also the same sum of squares
// (or cubes), exclusive or, product, bytes, digits, or ends.
var similarSets = [][]party.IDSlice{
	{{1, 6}, {2, 5}, {3, 4}},
	{{1, 5, 6}, {2, 3, 7}},
	{{1, 5, 8, 12}, {2, 3, 10, 11}},
	{{1, 3, 9}, {1, 4, 9}, {1, 5, 9}},
	{{1, 2, 3, 10}, {1, 2, 4, 10}},
	{{8, 15}, {9, 14}, {10, 13}, {11, 12}},
	{{0x100, 0x601}, {0x200, 0x501}, {0x300, 0x401}},
	// without an offset:
	{{2, 6}, {3, 4}, {1, 12}},
	{{1, 12}, {2, 11}, {11, 2}},
	{{112, 3}, {11, 23}, {1, 123}},
	{{0x0102, 0x0304}, {0x0104, 0x0302}, {0x0201, 0x0403}},
	{{1, 0x0200}, {2, 0x0100}},
	{{1, 0xffff}, {2, 0xfffe}, {0xffff, 0x8000}},
}

const withOffset = 7

// similar returns such sets, possibly moved, scaled, and with a few IDs in common.
func (c *Case) similar() []party.IDSlice {
	i := c.R.IntN(len(similarSets))
	f, o := 1, 0
	if i < withOffset {
		f = 1 + c.R.IntN(20)
		if c.R.IntN(2) == 0 {
			f = 1
		}
		o = 16 * c.R.IntN(1000)
		if c.R.IntN(2) == 0 {
			o = 0
		}
	}
	var common party.IDSlice
	used := map[party.ID]bool{}
	var out []party.IDSlice
	for _, s := range similarSets[i] {
		var x party.IDSlice
		for _, id := range s {
			id = party.ID(int(id)*f + o)
			used[id] = true
			x = append(x, id)
		}
		out = append(out, x)
	}
	for k := c.R.IntN(4); k > 0; k-- {
		id := party.ID(1 + c.R.IntN(65535))
		if c.R.IntN(2) == 0 {
			id = party.ID(1 + c.R.IntN(40))
		}
		if !used[id] {
			used[id] = true
			common = append(common, id)
		}
	}
	for j := range out {
		out[j] = party.NewIDSlice(append(out[j], common...))
	}
	c.R.Shuffle(len(out), func(a, b int) { out[a], out[b] = out[b], out[a] })
	return out
}

func similarLagrange(c *Case) {
	sets := c.similar()
	for k := 0; k < 2*len(sets); k++ {
		s := sets[k%len(sets)]
		for _, id := range s {
			l, err := id.Lagrange(s)
			c.Check(err == nil, "Lagrange(%d in %v) fails: %v", id, s, err)
			c.Check(scBig(l).Cmp(ref.Lagrange(int64(id), id64(s))) == 0, "wrong Lagrange coefficient of %d in %v, after %v", id, s, sets)
			// the result is the caller's
			l.Add(l, l)
			c.Eval(1)
		}
	}
	c.Count("similar sets", len(sets))
	c.Seen("similar", fmt.Sprint(sets))
}

func historySign(c *Case) {
	sets := c.similar()
	m := len(sets[0])
	in := map[party.ID]bool{}
	for _, s := range sets {
		for _, id := range s {
			in[id] = true
		}
	}
	ids := sortedIDs(in)
	t := 1
	if m > 2 {
		t += c.R.IntN(m - 1)
	}
	coef := make([]*big.Int, t+1)
	for i := range coef {
		coef[i] = c.scalar()
	}
	k := c.refDealPoly(ids, coef)
	buf := append(c.message(), byte(c.Idx), byte(c.Idx>>8))
	if len(buf) > 3000 {
		buf = buf[:3000]
	}
	msg := buf
	set := 0
	hist := ""
	for s := 0; s < 5; s++ {
		what := ""
		if s > 0 {
			switch v := (c.Idx + s*c.R.IntN(9)) % 9; v {
			case 0: // the caller fills the buffer with another message
				what = "buffer"
				old := append([]byte{}, buf...)
				for bytes.Equal(old, buf) {
					switch c.R.IntN(3) {
					case 0:
						buf[c.R.IntN(len(msg))] ^= 1 << c.R.IntN(8)
					case 1:
						buf[len(msg)-1]++
					default:
						for i := range buf {
							buf[i] = byte(c.R.IntN(256))
						}
					}
				}
			case 1:
				what = "slice"
				msg = buf[:1+c.R.IntN(len(buf))]
			case 2:
				what = "copy"
				msg = append([]byte{}, msg...)
				msg[c.R.IntN(len(msg))] ^= 1 << c.R.IntN(8)
				buf = msg
			case 3, 4, 5:
				what = "signers"
				set++
			case 6: // another sharing of the same secret
				what = "sharing"
				for i := 1; i <= t; i++ {
					coef[i] = c.scalar()
				}
				k = c.refDealPoly(ids, coef)
			case 7:
				what = "key"
				coef[0] = ref.SAdd(coef[0], big.NewInt(1))
				k = c.refDealPoly(ids, coef)
			case 8:
				what = "nothing"
			}
		}
		hist += " " + what
		c.Count("sessions that differ in "+what, 1)
		signers := sets[set%len(sets)]
		c.observedSign(k, signers, msg, "after changes of"+hist)
	}
	c.Count("histories", 1)
	c.Seen("history", fmt.Sprint(sets), t, len(msg), hist)
}

func (c *Case) refDealPoly(ids party.IDSlice, coef []*big.Int) *Key {
	k := &Key{IDs: ids, T: len(coef) - 1, Secrets: map[party.ID]*eddsa.SecretShare{}, How: "reference dealer"}
	pub := map[party.ID]*ristretto.Element{}
	for _, id := range ids {
		s := ref.Poly(coef, big.NewInt(int64(id)))
		k.Secrets[id] = eddsa.NewSecretShare(id, bigSc(s))
		pub[id] = ptEl(ref.MulBase(s))
	}
	var err error
	k.Public, err = eddsa.NewPublic(pub, party.Size(k.T))
	c.Check(err == nil, "NewPublic refuses consistent shares: %v", err)
	return k
}

// observedSign runs a session and checks its transcript.
func (c *Case) observedSign(k *Key, signers party.IDSlice, msg []byte, what string) {
	ns := c.signNodes(k, signers, msg, 0)
	c.run(ns, c.plan(ns))
	sig := c.checkSigned(k, ns, msg)
	obs := c.refSign(k, signers, signers[0], msg)
	for _, x := range ns {
		e := obs.recv1(c.sent1(x, tSG1))
		c.Check(e == "", "%s, %s", e, what)
	}
	obs.bind()
	for _, x := range ns {
		e := obs.recv2(c.sent1(x, tSG2))
		c.Check(e == "", "%s, %s", e, what)
		c.Eval(1)
	}
	c.Check(bytes.Equal(obs.sig(), sig), "the signature is not the aggregate of the transcript, %s", what)
	c.Count("sessions", 1)
	c.Count("signers", len(ns))
	c.Count("sign sessions", 1)
}

// historyKeygen: a correct session, then others in which a participant repeats part of what it sent.
func historyKeygen(c *Case) {
	n := c.size(2, 6)
	ids := c.ids(n)
	t := 1 + c.R.IntN(n-1)
	id := ids[c.R.IntN(n)]
	a := c.refKG(id, ids, t)
	var others [][]byte // first messages of the honest ones
	session := func(a *RefKG, w1 []byte, share func(to party.ID) *big.Int, round int, what string) {
		var ns []*Node
		for _, j := range ids {
			if j != a.ID {
				ns = append(ns, c.keygenNode(j, ids, t, 0))
			}
		}
		var ws [][]byte
		for _, x := range ns {
			ws = append(ws, x.step()...)
		}
		others = append([][]byte{}, ws...)
		ws = append(ws, w1)
		bad := map[party.ID]bool{}
		for _, x := range ns {
			s := share(x.ID)
			bad[x.ID] = round == 1 || s.Cmp(a.share(x.ID)) != 0
			ws = append(ws, wire(tKG2, a.ID, x.ID, ref.ToLE(s)))
		}
		c.rerun(ns, plan{onEvent: c.refusedOnlyAfterEnd}, ws)
		var fin []*Node
		for _, x := range ns {
			if bad[x.ID] {
				c.blame(x, map[party.ID]bool{a.ID: true}, round, what)
				continue
			}
			c.Check(x.done() && x.St.Err() == nil, "party %d aborts (%v) although nobody cheated (%s)", x.ID, x.St.Err(), what)
			fin = append(fin, x)
		}
		c.consistentFinishers(fin, ids, t)
		c.Count("sessions", 1)
	}
	w := a.msg1()
	session(a, w, a.share, 0, "honest")
	old := others
	oldShare := a.share
	for k := 0; k < 3; k++ {
		b := &RefKG{c: c, ID: id, IDs: ids, T: t, Coef: append([]*big.Int{}, a.Coef...)}
		switch v := (c.Idx + k) % 8; v {
		case 0: // everything once more
			b.commit()
			session(b, w, b.share, 0, "repeats its earlier messages")
		case 1: // the same constant, a wrong proof
			b.commit()
			session(b, b.withProof(c.scalar(), c.scalar()), b.share, 1, "repeats its constant with a wrong proof")
		case 2: // the same constant and other coefficients, a wrong proof
			b.Coef[t] = c.scalar()
			b.commit()
			s, r := c.prove(id, zeroCtx, b.Commits[t], b.Coef[t])
			session(b, b.withProof(s, r), b.share, 1, "repeats its constant with the proof of another coefficient")
		case 3: // the same first message, wrong shares
			b.commit()
			session(b, w, func(to party.ID) *big.Int { return ref.SAdd(b.share(to), big.NewInt(1)) }, 2, "repeats its commitments with wrong shares")
		case 4: // the same constant and proof, other coefficients, the old shares
			b.Coef[1+c.R.IntN(t)] = c.scalar()
			b.commit()
			k := c.parseKG1(w)
			session(b, b.withProof(k.S, k.R), oldShare, 2, "repeats its proof and its shares with other commitments")
		case 5: // the same proof for another constant
			b.Coef[0] = c.scalar()
			b.commit()
			k := c.parseKG1(w)
			session(b, b.withProof(k.S, k.R), b.share, 1, "repeats its proof with another constant")
		case 6: // the commitments of an honest party, which it sent in the earlier session
			h := old[c.R.IntN(len(old))]
			x := append([]byte{}, h...)
			copy(x[1:3], be16(id))
			b.Commits = c.parseKG1(x).Commits
			session(b, x, func(party.ID) *big.Int { return c.scalar() }, 1, "repeats the earlier message of another party")
		case 7: // the earlier shares for new commitments
			for i := range b.Coef {
				b.Coef[i] = c.scalar()
			}
			b.commit()
			session(b, b.msg1(), oldShare, 2, "repeats its earlier shares")
		}
	}
	c.Count("histories", 1)
	c.Seen("historykg", fp(ids), t, id, c.Idx%8)
}

// reusedBuffers: the caller passes other messages in the same memory.
func reusedBuffers(c *Case) {
	x := c.scalar()
	pub := ref.MulBase(x)
	pk := eddsa.NewPublicKeyFromPoint(ptEl(pub))
	buf := make([]byte, 1+c.R.IntN(200))
	sign := func(m []byte) *eddsa.Signature {
		k := c.scalar()
		R := ptEl(ref.MulBase(k))
		ch := eddsa.ComputeChallenge(R, pk, m)
		want := ref.SHash(R.BytesEd25519(), pk.ToEd25519(), append([]byte{}, m...))
		c.Check(scBig(ch).Cmp(want) == 0, "ComputeChallenge is wrong for a buffer that is used again")
		return &eddsa.Signature{R: *R, S: *bigSc(ref.SAdd(k, ref.SMul(want, x)))}
	}
	var sigs []*eddsa.Signature
	var msgs [][]byte
	for i := 0; i < 6; i++ {
		m := buf[:1+c.R.IntN(len(buf))]
		if c.R.IntN(2) == 0 {
			m = buf
		}
		m[c.R.IntN(len(m))] ^= 1 << c.R.IntN(8)
		sigs = append(sigs, sign(m))
		msgs = append(msgs, append([]byte{}, m...))
		for j := range sigs {
			same := bytes.Equal(msgs[j], m)
			c.Check(pk.Verify(m, sigs[j]) == same, "Verify of a signature of message %d for message %d, in the same memory, does not give %v", j, i, same)
			n := copy(buf, msgs[j])
			c.Check(pk.Verify(buf[:n], sigs[j]), "Verify refuses message %d when it is put into the buffer again", j)
			copy(buf, msgs[i])
			c.Eval(2)
		}
	}
	c.Count("buffers used again", 1)
	c.Seen("buffer", len(buf))
}
