package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// checkSigned is the oracle over an all-honest signing session.
func (c *Case) checkSigned(k *Key, ns []*Node, msg []byte) []byte {
	var first []byte
	for _, n := range ns {
		c.Check(n.done(), "signer %d has not finished although every message was delivered", n.ID)
		c.Check(n.St.Err() == nil, "signer %d fails: %v", n.ID, n.St.Err())
		c.Check(n.St.WaitForError() == nil, "signer %d: WaitForError gives an error", n.ID)
		c.Check(n.SG.Signature != nil, "signer %d finishes without signature", n.ID)
		b := n.SG.Signature.ToEd25519()
		if first == nil {
			first = b
			c.verifySig(k, msg, n.SG.Signature)
		}
		c.Check(bytes.Equal(b, first), "signers %d and %d obtain different signatures", ns[0].ID, n.ID)
		c.Check(n.SG.Signature.Equal(ns[0].SG.Signature), "Signature.Equal denies equality")
		c.Eval(1)
	}
	return first
}

func honestSign(c *Case, n, extra int) {
	t := 1 + c.R.IntN(n-1)
	if c.R.IntN(5) == 0 {
		t = 1
	}
	ids := c.ids(n)
	honestSignKey(c, c.key(ids, t), extra)
}

// plainKey: a dealer may also use the threshold 0, so that each party alone can sign.
func plainKey(c *Case) {
	ids := c.ids(1 + c.R.IntN(6))
	k := c.refDeal(ids, 0)
	if c.R.IntN(2) == 0 {
		k = c.helperDeal(ids, 0)
	}
	honestSignKey(c, k, 2)
	c.Count("keys with threshold 0", 1)
}

func honestSignKey(c *Case, k *Key, extra int) {
	ids, n, t := k.IDs, len(k.IDs), k.T
	m := t + 1
	if n > m && c.R.IntN(3) != 0 {
		m += c.R.IntN(n - m + 1)
	}
	for s := 0; s <= extra; s++ {
		signers := c.subset(ids, m)
		msg := c.message()
		ns := c.signNodes(k, signers, msg, 0)
		p := c.plan(ns)
		sched := c.run(ns, p)
		sig := c.checkSigned(k, ns, msg)
		c.Count("sessions", 1)
		c.Count("strategy "+p.strategy, 1)
		c.Count("key by "+k.How, 1)
		c.Count("signers", m)
		c.Seen(fp(signers), t, len(msg), sched)
		c.Sample(map[string]any{"ids": fp(ids), "t": t, "signers": fp(signers), "message bytes": len(msg), "plan": p.String(), "schedule": clip(sched, 200), "signature": fmt.Sprintf("%x", sig)})
	}
}

// refSecretShares deals with the reference but keeps the coefficients' effect: nothing else.

func subThreshold(c *Case) {
	n := c.size(2, 9)
	t := 1 + c.R.IntN(n-1)
	ids := c.ids(n)
	k := c.key(ids, t)
	m := 1 + c.R.IntN(t)
	signers := c.subset(ids, m)
	msg := c.message()
	ns := c.signNodes(k, signers, msg, 0)
	p := c.plan(ns)
	sched := c.run(ns, p)
	for _, x := range ns {
		c.Check(x.done(), "signer %d of a session of %d <= t=%d signers has not ended", x.ID, m, t)
		c.Check(x.St.Err() != nil, "signer %d of a session of %d <= t=%d signers succeeds", x.ID, m, t)
		c.Check(x.SG.Signature == nil, "signer %d of a session of %d <= t=%d signers outputs a signature", x.ID, m, t)
		c.Eval(1)
	}
	// what an observer can assemble
	obs := c.refSign(k, signers, signers[0], msg)
	all := true
	for _, x := range ns {
		for _, w := range x.Sent {
			if wType(w) == tSG1 {
				obs.recv1(w)
			}
		}
	}
	if len(obs.In1) == len(signers) {
		obs.bind()
		for _, x := range ns {
			ok := false
			for _, w := range x.Sent {
				if wType(w) == tSG2 {
					z, canon := ref.SCanon(w[5:])
					ok = canon
					obs.Z[x.ID] = z
				}
			}
			all = all && ok
		}
		if all {
			c.Check(!ed25519.Verify(k.Public.GroupKey.ToEd25519(), msg, obs.sig()), "the shares of %d <= t=%d signers add up to a valid signature", m, t)
			c.Count("aggregates tried", 1)
			c.Eval(1)
		}
	}
	c.Count("sub-threshold sessions", 1)
	c.Seen("sub", fp(signers), t, sched)
}

// degreeExact checks that shares lie on a polynomial of degree exactly t.
func (c *Case) degreeExact(ids party.IDSlice, t int, shares map[party.ID]*big.Int, secret *big.Int) {
	ys := func(sub party.IDSlice) (out []*big.Int) {
		for _, id := range sub {
			out = append(out, shares[id])
		}
		return
	}
	sub := c.subset(ids, t+1)
	if t >= 1 {
		c.Check(ref.LeadCoeff(id64(sub), ys(sub)).Sign() != 0, "the shares of %v lie on a polynomial of degree below t=%d", ids, t)
	}
	for i := 0; i < 3 && t >= 1; i++ {
		m := 1 + c.R.IntN(t)
		if i == 0 {
			m = t
		}
		s := c.subset(ids, m)
		c.Check(ref.Interpolate(id64(s), ys(s), new(big.Int)).Cmp(secret) != 0, "%d shares %v interpolate to the group secret, t=%d", m, s, t)
		c.Eval(1)
	}
	if len(ids) > t+1 {
		s := c.subset(ids, t+2)
		c.Check(ref.LeadCoeff(id64(s), ys(s)).Sign() == 0, "the shares of %v lie on no polynomial of degree t=%d", ids, t)
	}
	c.Check(ref.Interpolate(id64(sub), ys(sub), new(big.Int)).Cmp(secret) == 0, "t+1 shares do not interpolate to the secret")
	c.Eval(3)
}

func degreeCase(c *Case) {
	n := c.size(2, 12)
	ids := c.ids(n)
	t := 1 + c.R.IntN(n-1)
	var k *Key
	var how int
	if how = c.R.IntN(2); how == 0 && n <= 8 {
		k = c.keygenDeal(ids, t)
		// each participant's own polynomial, too: its shares are on the wire (all but its own)
	} else {
		if c.R.IntN(10) == 0 {
			t = 0
		}
		k = c.helperDeal(ids, t)
	}
	shares := map[party.ID]*big.Int{}
	for _, id := range ids {
		shares[id] = scBig(&k.Secrets[id].Secret)
	}
	sec := k.secret()
	c.Check(bytes.Equal(ref.MulBase(sec).EncodeEd(), k.Public.GroupKey.ToEd25519()), "t+1 shares do not interpolate to the secret of the group key")
	c.degreeExact(ids, t, shares, sec)
	c.Count("sharings", 1)
	c.Count("sharing by "+k.How, 1)
	c.Seen("deg", fp(ids), t, k.How)
	c.Sample(map[string]any{"ids": fp(ids), "t": t, "dealer": k.How})
}

// largeDegree: sharings by the helpers with many parties and large thresholds.
func largeDegree(c *Case) {
	n := 30 + c.R.IntN(120)
	if c.R.IntN(5) == 0 {
		n = 250 + c.R.IntN(100)
	}
	t := 20 + c.R.IntN(n-20)
	if c.R.IntN(3) == 0 {
		t = n - 1 - c.R.IntN(3)
	}
	ids := c.ids(n)
	k := c.helperDeal(ids, t)
	shares := map[party.ID]*big.Int{}
	for _, id := range ids {
		shares[id] = scBig(&k.Secrets[id].Secret)
	}
	sec := k.secret()
	c.Check(bytes.Equal(ref.MulBase(sec).EncodeEd(), k.Public.GroupKey.ToEd25519()), "t+1 shares do not interpolate to the secret of the group key")
	c.degreeExact(ids, t, shares, sec)
	c.Count("sharings", 1)
	c.Count("large sharings", 1)
	c.Seen("large", fp(ids), t)
}

// ownPolynomial looks at the polynomial of every single participant of a keygen.
func ownPolynomial(c *Case) {
	n := c.size(2, 8)
	ids := c.ids(n)
	t := 1 + c.R.IntN(n-1)
	ns := c.keygenNodes(ids, t, 0)
	sched := c.run(ns, c.plan(ns))
	for _, x := range ns {
		k := c.parseKG1(c.sent1(x, tKG1))
		c.Check(len(k.Commits) == t+1, "party %d commits to a polynomial of degree %d, not t=%d", x.ID, len(k.Commits)-1, t)
		c.Check(!k.Commits[t].IsIdentity(), "the leading coefficient of party %d is zero", x.ID)
		shares := map[party.ID]*big.Int{}
		for _, w := range x.Sent {
			if wType(w) == tKG2 {
				shares[wTo(w)], _ = ref.SCanon(w[5:])
			}
		}
		var others party.IDSlice
		for _, id := range ids {
			if id != x.ID {
				others = append(others, id)
				c.Check(shares[id] != nil, "party %d sends no share to %d", x.ID, id)
			}
		}
		// n-1 shares of a degree t polynomial: with at least t+1 of them the degree shows, and
		// fewer must not give the constant term
		m := t
		if m > len(others) {
			m = len(others)
		}
		sub := c.subset(others, m)
		var ys []*big.Int
		for _, id := range sub {
			ys = append(ys, shares[id])
		}
		c.Check(!ref.MulBase(ref.Interpolate(id64(sub), ys, new(big.Int))).Equal(k.Commits[0]), "%d shares of party %d give away its contribution, t=%d", m, x.ID, t)
		c.Eval(3)
	}
	c.Count("polynomials", n)
	c.Seen("own", fp(ids), t, sched)
}

func init() {
	register(&Prop{
		ID:   "C02",
		Rule: "Sharings from keygen and from the dealer helpers (n = 2..12): the interpolated polynomial must have degree exactly t, and random subsets of at most t shares must miss the secret; each participant's own polynomial likewise, from the wires. Signing sessions of 1..t signers under random schedules must fail at every signer, and the observed shares must not aggregate to a valid signature. Distinct by (IDs, t, dealer or schedule).",
		Parts: []Part{
			{"degree", 2000, 40000, degreeCase},
			{"own", 500, 10000, ownPolynomial},
			{"large", 60, 600, largeDegree},
			{"crowd", 8, 60, func(c *Case) { crowdKeygen(c, 0) }},
			{"sizes", 192, 10000, func(c *Case) { n, t := c.sweep(); crowdKeygenN(c, n, t, 0) }},
			{"sub", 1500, 30000, subThreshold},
		},
		Least: map[string]int64{"sharings": 500, "sub-threshold sessions": 300, "aggregates tried": 200, "polynomials": 300},
	})
	register(&Prop{
		ID:   "C03",
		Rule: "One case is a key (keygen, helpers or reference dealer, n = 2..14, seven ID shapes) with one to three honest signing sessions by t+1..n signers, messages of 0..200000 bytes, seven delivery strategies with and without batching; every signature is checked by crypto/ed25519 and the math/big reference. Distinct by (signers, t, message length, schedule).",
		Parts: []Part{
			{"honest", 1500, 30000, func(c *Case) { honestSign(c, c.size(2, 14), c.R.IntN(3)) }},
			{"wide", 16, 300, func(c *Case) { honestSign(c, 15+c.R.IntN(26), 0) }},
			{"pairs", 300, 5000, func(c *Case) { honestSign(c, 2, 1) }},
			{"plain", 100, 2000, plainKey},
			{"history", 150, 5000, historySign},
			{"crowd", 24, 200, func(c *Case) { crowdSign(c, 0) }},
			{"sizes", 192, 10000, func(c *Case) { n, t := c.sweep(); crowdSignN(c, n, t, 0) }},
			{"large", 0, 8, func(c *Case) { honestSign(c, 60+c.R.IntN(60), 0) }},
		},
		Least: map[string]int64{"sessions": 1000, "signers": 3000},
	})
	register(&Prop{
		ID:   "C22",
		Rule: "Sessions in which 0..n-1 participants are replaced by a reference participant written from the documentation (math/big); every wire of the library is checked against the documented equations by the reference, and both sides must obtain the same results. Distinct by (IDs, t, replaced participants, schedule).",
		Parts: []Part{
			{"keygen", 500, 10000, mixedKeygen},
			{"sign", 900, 18000, mixedSign},
			{"passive", 300, 6000, passiveSign},
			{"history", 150, 5000, historySign},
			{"crowd sign", 16, 150, func(c *Case) { crowdSign(c, 0) }},
			{"sizes sign", 192, 10000, func(c *Case) { n, t := c.sweep(); crowdSignN(c, n, t, 0) }},
			{"crowd keygen", 8, 80, func(c *Case) { crowdKeygen(c, 0) }},
			{"sizes keygen", 192, 10000, func(c *Case) { n, t := c.sweep(); crowdKeygenN(c, n, t, 0) }},
		},
		Least: map[string]int64{"keygen sessions": 200, "sign sessions": 400, "reference participants": 500},
	})
}

// mixedKeygen replaces some participants by the reference.
func mixedKeygen(c *Case) {
	n := c.size(2, 8)
	ids := c.ids(n)
	t := 1 + c.R.IntN(n-1)
	nref := c.R.IntN(n)
	if nref == 0 && c.R.IntN(3) != 0 {
		nref = 1
	}
	isRef := map[party.ID]bool{}
	for _, id := range c.subset(ids, nref) {
		isRef[id] = true
	}
	var ns []*Node
	refs := map[party.ID]*RefKG{}
	for _, id := range ids {
		if isRef[id] {
			refs[id] = c.refKG(id, ids, t)
		} else {
			ns = append(ns, c.keygenNode(id, ids, t, 0))
		}
	}
	var extra [][]byte
	for _, id := range ids {
		if r := refs[id]; r != nil {
			extra = append(extra, r.msg1())
			for _, to := range ids {
				if to != id {
					extra = append(extra, r.msg2(to))
				}
			}
		}
	}
	// the reference's messages are all there from the start; the order is the plan's
	sched := c.run(ns, c.plan(ns), extra...)
	for id, r := range refs {
		for _, w := range extra {
			if wFrom(w) != id && (wTo(w) == 0 || wTo(w) == id) {
				c.Check(r.recv(w) == "", "the reference complains about itself")
			}
		}
		for _, x := range ns {
			for _, w := range x.Sent {
				if wTo(w) == 0 || wTo(w) == id {
					e := r.recv(w)
					c.Check(e == "", "%s", e)
					c.Eval(1)
				}
			}
		}
	}
	if nref == 0 {
		for _, x := range ns {
			c.Check(proofValid(x.ID, c.parseKG1(c.sent1(x, tKG1))), "the proof of knowledge of party %d does not satisfy the documented equation", x.ID)
			c.Eval(1)
		}
	}
	for _, x := range ns {
		c.Check(x.done() && x.St.Err() == nil, "party %d does not finish with reference participants %v: %v", x.ID, sortedIDs(isRef), x.St.Err())
		c.Check(x.KG.Public != nil && x.KG.SecretKey != nil, "party %d finishes without output", x.ID)
	}
	for id, r := range refs {
		e, sec, gk, pubs := r.finish()
		c.Check(e == "", "reference participant %d: %s", id, e)
		for _, x := range ns {
			c.Check(bytes.Equal(x.KG.Public.GroupKey.ToEd25519(), gk.Prime().EncodeEd()), "party %d has another group key than the reference participant", x.ID)
			for j, p := range pubs {
				c.Check(x.KG.Public.Shares[j] != nil && bytes.Equal(x.KG.Public.Shares[j].Bytes(), p.Encode()), "party %d has another public share for %d than the reference participant", x.ID, j)
			}
			// the library's secrets and the reference's lie on one polynomial
			c.Check(ref.MulBase(scBig(&x.KG.SecretKey.Secret)).Equal(pubs[x.ID]), "secret of party %d does not match", x.ID)
			c.Eval(2)
		}
		c.Check(ref.MulBase(sec).Equal(pubs[id]), "the reference's own share does not match")
	}
	c.Count("keygen sessions", 1)
	c.Count("reference participants", nref)
	c.Seen("kg", fp(ids), t, fp(sortedIDs(isRef)), sched)
	c.Sample(map[string]any{"ids": fp(ids), "t": t, "reference": fp(sortedIDs(isRef)), "schedule": clip(sched, 150)})
}

// exchange runs a signing session of library nodes and reference signers in which both
// rounds are delivered in the plan's order.
func (c *Case) exchange(ns []*Node, rs []*RefSign) string {
	var w1 [][]byte
	for _, r := range rs {
		w1 = append(w1, r.msg1())
	}
	p := c.plan(ns)
	s1 := c.run(ns, p, w1...)
	for _, x := range ns {
		w := c.sent1(x, tSG1)
		c.Check(wFrom(w) == x.ID && wTo(w) == 0, "Sign1 of party %d has header %d>%d", x.ID, wFrom(w), wTo(w))
		for _, r := range rs {
			e := r.recv1(w)
			c.Check(e == "", "%s", e)
		}
	}
	var w2 [][]byte
	for _, r := range rs {
		for i, w := range w1 {
			if rs[i] != r {
				r.recv1(w)
			}
		}
		r.bind()
		w2 = append(w2, r.msg2())
	}
	var s2 string
	if len(rs) > 0 {
		s2 = c.rerun(ns, p, w2)
	}
	for _, r := range rs {
		for i, w := range w2 {
			if rs[i] != r {
				c.Check(r.recv2(w) == "", "the reference complains about itself")
			}
		}
		for _, x := range ns {
			e := r.recv2(c.sent1(x, tSG2))
			c.Check(e == "", "%s", e)
			c.Eval(1)
		}
	}
	return s1 + "/" + s2
}

// rerun delivers further wires to started nodes in random order.
func (c *Case) rerun(ns []*Node, p plan, ws [][]byte) string {
	s := ""
	var pend []envelope
	push := func(ws [][]byte) {
		for _, w := range ws {
			for i, n := range ns {
				if (wTo(w) == 0 || wTo(w) == n.ID) && wFrom(w) != n.ID {
					pend = append(pend, envelope{i, w})
				}
			}
		}
	}
	push(ws)
	for len(pend) > 0 {
		k := c.R.IntN(len(pend))
		e := pend[k]
		pend = append(pend[:k], pend[k+1:]...)
		s += fmt.Sprintf("%d:%d<%d ", ns[e.to].ID, wType(e.w), wFrom(e.w))
		out, err := ns[e.to].deliver(e.w)
		if p.onEvent != nil {
			p.onEvent(ns[e.to], e.w, err)
		}
		push(out)
	}
	return s
}

func mixedSign(c *Case) {
	n := c.size(2, 9)
	ids := c.ids(n)
	t := 1 + c.R.IntN(n-1)
	k := c.key(ids, t)
	m := t + 1 + c.R.IntN(n-t)
	signers := c.subset(ids, m)
	nref := 1 + c.R.IntN(m-1)
	isRef := map[party.ID]bool{}
	for _, id := range c.subset(signers, nref) {
		isRef[id] = true
	}
	msg := c.message()
	var ns []*Node
	var rs []*RefSign
	for _, id := range signers {
		if isRef[id] {
			rs = append(rs, c.refSign(k, signers, id, msg))
		} else {
			ns = append(ns, c.signNode(k, signers, id, msg, 0))
		}
	}
	sched := c.exchange(ns, rs)
	sig := c.checkSigned(k, ns, msg)
	for _, r := range rs {
		c.Check(bytes.Equal(r.sig(), sig), "the library's signature %x differs from the reference's %x", sig, r.sig())
		c.Eval(1)
	}
	c.Count("sign sessions", 1)
	c.Count("reference participants", nref)
	c.Seen("sg", fp(signers), t, fp(sortedIDs(isRef)), len(msg), sched)
	c.Sample(map[string]any{"signers": fp(signers), "t": t, "reference": fp(sortedIDs(isRef)), "schedule": clip(sched, 150), "signature": fmt.Sprintf("%x", sig)})
}

// passiveSign checks the transcript of an all-library session.
func passiveSign(c *Case) {
	n := c.size(2, 8)
	ids := c.ids(n)
	t := 1 + c.R.IntN(n-1)
	k := (*Key)(nil)
	if c.R.IntN(8) == 0 {
		t = 0
		k = c.refDeal(ids, 0)
	} else {
		k = c.key(ids, t)
	}
	signers := c.subset(ids, t+1+c.R.IntN(n-t))
	msg := c.message()
	ns := c.signNodes(k, signers, msg, 0)
	sched := c.run(ns, c.plan(ns))
	sig := c.checkSigned(k, ns, msg)
	obs := c.refSign(k, signers, signers[0], msg)
	for _, x := range ns {
		e := obs.recv1(c.sent1(x, tSG1))
		c.Check(e == "", "%s", e)
	}
	obs.bind()
	for _, x := range ns {
		e := obs.recv2(c.sent1(x, tSG2))
		c.Check(e == "", "%s", e)
		c.Eval(1)
	}
	c.Check(bytes.Equal(obs.sig(), sig), "the signature is not the aggregate of the transcript")
	c.Eval(1)
	c.Count("sign sessions", 1)
	c.Seen("ps", fp(signers), t, len(msg), sched)
}
