package main

import (
	"crypto/ed25519"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// ---- key generation (C05) ----

// dev1 are the deviations in the first round of key generation: each returns the broadcast.
// honest are the KeyGen1 messages of the honest parties, which a rushing adversary has seen.
type dev1 struct {
	name string
	f    func(c *Case, a *RefKG, honest []kg1, hw [][]byte) []byte
}

func (a *RefKG) withProof(s, r *big.Int) []byte { return kg1Wire(a.ID, s, r, a.Commits) }

var devs1 = []dev1{
	{"random proof", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte { return a.withProof(c.scalar(), c.scalar()) }},
	{"proof with S+1", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte {
		s, r := c.prove(a.ID, zeroCtx, a.Commits[0], a.Coef[0])
		return a.withProof(ref.SAdd(s, big.NewInt(1)), r)
	}},
	{"proof with R bit", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte {
		s, r := c.prove(a.ID, zeroCtx, a.Commits[0], a.Coef[0])
		return a.withProof(s, ref.SAdd(r, new(big.Int).Lsh(big.NewInt(1), uint(c.R.IntN(252)))))
	}},
	{"proof with S bit", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte {
		s, r := c.prove(a.ID, zeroCtx, a.Commits[0], a.Coef[0])
		return a.withProof(ref.SAdd(s, new(big.Int).Lsh(big.NewInt(1), uint(c.R.IntN(252)))), r)
	}},
	{"proof swapped", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte {
		s, r := c.prove(a.ID, zeroCtx, a.Commits[0], a.Coef[0])
		return a.withProof(r, s)
	}},
	{"zero proof", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte { return a.withProof(big.NewInt(0), big.NewInt(0)) }},
	{"zero challenge", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte { return a.withProof(big.NewInt(0), c.scalar()) }},
	{"zero response", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte {
		s, _ := c.prove(a.ID, zeroCtx, a.Commits[0], a.Coef[0])
		return a.withProof(s, big.NewInt(0))
	}},
	{"proof for another ID", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte {
		id := a.ID
		for id == a.ID {
			switch c.R.IntN(3) {
			case 0:
				id = a.IDs[c.R.IntN(len(a.IDs))]
			case 1:
				id = a.ID ^ party.ID(1<<c.R.IntN(16))
			default:
				id = a.ID<<8 | a.ID>>8
				if id == a.ID {
					id++
				}
			}
		}
		s, r := c.prove(id, zeroCtx, a.Commits[0], a.Coef[0])
		return a.withProof(s, r)
	}},
	{"proof for another context", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte {
		ctx := make([]byte, 32)
		ctx[c.R.IntN(32)] ^= 1 << c.R.IntN(8)
		s, r := c.prove(a.ID, ctx, a.Commits[0], a.Coef[0])
		return a.withProof(s, r)
	}},
	{"proof of another point", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte {
		x := c.scalar()
		s, r := c.prove(a.ID, zeroCtx, ref.MulBase(x), x)
		return a.withProof(s, r)
	}},
	{"proof of another coefficient", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte {
		s, r := c.prove(a.ID, zeroCtx, a.Commits[1], a.Coef[1])
		return a.withProof(s, r)
	}},
	{"proof whose hash omits an input", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte {
		k := c.scalar()
		m := ref.MulBase(k).Encode()
		p := a.Commits[0].Encode()
		var s *big.Int
		switch c.R.IntN(4) {
		case 0:
			s = ref.SHash(zeroCtx, p, m)
		case 1:
			s = ref.SHash(be16(a.ID), p, m)
		case 2:
			s = ref.SHash(be16(a.ID), zeroCtx, m)
		default:
			s = ref.SHash(be16(a.ID), zeroCtx, p)
		}
		return a.withProof(s, ref.SAdd(k, ref.SMul(s, a.Coef[0])))
	}},
	{"rogue key", func(c *Case, a *RefKG, honest []kg1, _ [][]byte) []byte {
		// cancel the honest contributions; the adversary knows no logarithm
		x := c.scalar()
		p := ref.MulBase(x)
		for _, h := range honest {
			p = p.Sub(h.Commits[0])
		}
		a.Commits[0] = p
		s, r := c.prove(a.ID, zeroCtx, p, x)
		return a.withProof(s, r)
	}},
	{"forged with a chosen commitment", func(c *Case, a *RefKG, honest []kg1, _ [][]byte) []byte {
		// M fixed first, public key solved from the verification equation: the hash must bind it
		if len(honest) > 0 {
			a.Commits[0] = honest[0].Commits[0]
		}
		s, r := c.scalar(), c.scalar()
		return a.withProof(s, r)
	}},
	{"copied message", func(c *Case, a *RefKG, honest []kg1, hw [][]byte) []byte {
		w := append([]byte{}, hw[c.R.IntN(len(hw))]...)
		copy(w[1:3], be16(a.ID))
		a.Commits = c.parseKG1(w).Commits
		return w
	}},
	{"copied proof", func(c *Case, a *RefKG, honest []kg1, _ [][]byte) []byte {
		h := honest[c.R.IntN(len(honest))]
		return a.withProof(h.S, h.R)
	}},
	{"copied constant and proof", func(c *Case, a *RefKG, honest []kg1, _ [][]byte) []byte {
		h := honest[c.R.IntN(len(honest))]
		a.Commits[0] = h.Commits[0]
		return a.withProof(h.S, h.R)
	}},
	{"negated constant and proof", func(c *Case, a *RefKG, honest []kg1, _ [][]byte) []byte {
		h := honest[c.R.IntN(len(honest))]
		a.Commits[0] = h.Commits[0].Neg()
		return a.withProof(h.S, ref.SNeg(h.R))
	}},
	{"identity constant", func(c *Case, a *RefKG, honest []kg1, _ [][]byte) []byte {
		a.Commits[0] = ref.Identity()
		return a.withProof(c.scalar(), c.scalar())
	}},
	{"degree t-1", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte { return a.ofDegree(c, a.T-1) }},
	{"degree t+1", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte { return a.ofDegree(c, a.T+1) }},
	{"degree 0", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte { return a.ofDegree(c, 0) }},
	{"large degree", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte { return a.ofDegree(c, a.T+2+c.R.IntN(20)) }},
	{"degree t+256", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte {
		// the top coefficient is far away from the others
		top := a.T + 256*(1+c.R.IntN(2))
		for len(a.Coef) < top {
			a.Coef = append(a.Coef, new(big.Int))
		}
		a.Coef = append(a.Coef, c.scalar())
		a.commit()
		return a.msg1()
	}},
	{"padded degree", func(c *Case, a *RefKG, _ []kg1, _ [][]byte) []byte {
		// one more coefficient, which is zero: the shares are those of degree t
		a.Coef = append(a.Coef, big.NewInt(0))
		a.commit()
		return a.msg1()
	}},
}

func (a *RefKG) ofDegree(c *Case, d int) []byte {
	a.Coef = nil
	for i := 0; i <= d; i++ {
		a.Coef = append(a.Coef, c.scalar())
	}
	a.commit()
	return a.msg1()
}

// devs2 are wrong shares.
var devs2 = []struct {
	name string
	f    func(c *Case, a *RefKG, to party.ID) *big.Int
}{
	{"share+1", func(c *Case, a *RefKG, to party.ID) *big.Int { return ref.SAdd(a.share(to), big.NewInt(1)) }},
	{"share with a bit", func(c *Case, a *RefKG, to party.ID) *big.Int {
		return ref.SAdd(a.share(to), new(big.Int).Lsh(big.NewInt(1), uint(c.R.IntN(252))))
	}},
	{"random share", func(c *Case, a *RefKG, to party.ID) *big.Int { return c.scalar() }},
	{"zero share", func(c *Case, a *RefKG, to party.ID) *big.Int { return big.NewInt(0) }},
	{"negated share", func(c *Case, a *RefKG, to party.ID) *big.Int { return ref.SNeg(a.share(to)) }},
	{"share of another party", func(c *Case, a *RefKG, to party.ID) *big.Int {
		for {
			if id := a.IDs[c.R.IntN(len(a.IDs))]; id != to {
				return a.share(id)
			}
		}
	}},
	{"constant", func(c *Case, a *RefKG, to party.ID) *big.Int { return a.Coef[0] }},
	{"share without constant", func(c *Case, a *RefKG, to party.ID) *big.Int { return ref.SSub(a.share(to), a.Coef[0]) }},
	{"share at the byte-swapped ID", func(c *Case, a *RefKG, to party.ID) *big.Int {
		x := int64(to<<8 | to>>8)
		if x == int64(to) {
			x ^= 0x101
		}
		return ref.Poly(a.Coef, big.NewInt(x))
	}},
	{"reversed polynomial", func(c *Case, a *RefKG, to party.ID) *big.Int {
		var rev []*big.Int
		for i := range a.Coef {
			rev = append(rev, a.Coef[len(a.Coef)-1-i])
		}
		return ref.Poly(rev, big.NewInt(int64(to)))
	}},
}

// blame checks that an honest node aborted with one of the culprits in the given round.
func (c *Case) blame(x *Node, culprits map[party.ID]bool, round int, what string) {
	c.Check(x.done(), "party %d has not ended although every message was delivered and %v cheated (%s)", x.ID, sortedIDs(culprits), what)
	e := x.stateErr()
	c.Check(e != nil, "party %d succeeds although %v cheated: %s", x.ID, sortedIDs(culprits), what)
	c.Check(culprits[e.PartyID], "party %d blames %d, but those who cheated are %v: %s (%v)", x.ID, e.PartyID, sortedIDs(culprits), what, e)
	c.Check(e.RoundNumber == round, "party %d reports round %d for a deviation in round %d: %s (%v)", x.ID, e.RoundNumber, round, what, e)
	c.Check(x.empty(), "party %d aborted, but its output is not empty", x.ID)
	c.Check(x.St.WaitForError() != nil, "party %d aborted, but WaitForError returns nil", x.ID)
	c.Eval(1)
	c.Count("aborts attributed", 1)
}

func cheatKeygen(c *Case) {
	n := c.size(2, 8)
	ids := c.ids(n)
	t := 1 + c.R.IntN(n-1)
	nadv := 1
	if n > 2 && c.R.IntN(2) == 0 {
		nadv = 1 + c.R.IntN(n-1)
	}
	adv := map[party.ID]bool{}
	for _, id := range c.subset(ids, nadv) {
		adv[id] = true
	}
	var ns []*Node
	for _, id := range ids {
		if !adv[id] {
			ns = append(ns, c.keygenNode(id, ids, t, 0))
		}
	}
	// the honest parties' broadcasts come first, adversaries rush
	var hw [][]byte
	var hk []kg1
	for _, x := range ns {
		hw = append(hw, x.step()...)
	}
	for _, w := range hw {
		if wType(w) == tKG1 {
			hk = append(hk, c.parseKG1(w))
		}
	}
	c.Check(len(hw) == len(ns) && len(hk) == len(ns), "%d messages from the first step of %d parties", len(hw), len(ns))

	ws := append([][]byte{}, hw...)
	d1 := map[party.ID]bool{}
	d2 := map[party.ID]map[party.ID]bool{} // by receiver
	var what []string
	mode := c.R.IntN(6) // 0-1: round 1, 2-3: round 2, 4: anything, 5: wrong shares that cancel out
	if nadv < 2 && mode == 5 {
		mode = 2
	}
	cancel := map[party.ID]map[party.ID]*big.Int{} // receiver, adversary: error
	if mode == 5 {
		for _, x := range ns {
			if len(cancel) == 0 || c.R.IntN(2) == 0 {
				var who party.IDSlice
				for _, id := range c.subset(sortedIDs(adv), 2+c.R.IntN(nadv-1)) {
					who = append(who, id)
				}
				cancel[x.ID] = c.cancelling(who, ids)
			}
		}
	}
	for _, id := range sortedIDs(adv) {
		a := c.refKG(id, ids, t)
		var w1 []byte
		bad1 := mode <= 1 || mode == 4 && c.R.IntN(2) == 0
		if bad1 && nadv > 1 && c.R.IntN(3) == 0 && len(d1) > 0 {
			bad1 = false
		}
		if bad1 {
			d := devs1[(c.Idx+c.R.IntN(2)*c.R.IntN(len(devs1)))%len(devs1)]
			w1 = d.f(c, a, hk, hw)
			d1[id] = true
			what = append(what, fmt.Sprintf("%d: %s", id, d.name))
			c.Count("deviation "+d.name, 1)
		} else {
			w1 = a.msg1()
		}
		ws = append(ws, w1)
		bad2 := !bad1 && mode != 5 && (mode == 2 || mode == 3 || c.R.IntN(2) == 0) || mode == 4 && c.R.IntN(2) == 0
		if bad1 {
			bad2 = c.R.IntN(3) == 0
		}
		var targets map[party.ID]bool
		if bad2 {
			targets = map[party.ID]bool{}
			k := 1 + c.R.IntN(len(ns))
			for _, i := range c.R.Perm(len(ns))[:k] {
				targets[ns[i].ID] = true
			}
		}
		for _, x := range ns {
			s := a.share(x.ID)
			if e := cancel[x.ID][id]; e != nil {
				s = ref.SAdd(s, e)
				what = append(what, fmt.Sprintf("%d>%d: cancelling error", id, x.ID))
				c.Count("deviation cancelling error", 1)
				if d2[x.ID] == nil {
					d2[x.ID] = map[party.ID]bool{}
				}
				d2[x.ID][id] = true
			}
			if targets[x.ID] {
				for {
					d := devs2[(c.Idx+c.R.IntN(len(devs2)))%len(devs2)]
					s = d.f(c, a, x.ID)
					if s.Cmp(a.share(x.ID)) != 0 {
						what = append(what, fmt.Sprintf("%d>%d: %s", id, x.ID, d.name))
						c.Count("deviation "+d.name, 1)
						break
					}
				}
				if d2[x.ID] == nil {
					d2[x.ID] = map[party.ID]bool{}
				}
				d2[x.ID][id] = true
			}
			ws = append(ws, wire(tKG2, id, x.ID, ref.ToLE(s)))
		}
	}
	if len(d1) == 0 && len(d2) == 0 {
		c.Count("sessions without deviation", 1)
	}
	sched := c.rerun(ns, plan{onEvent: c.refusedOnlyAfterEnd}, ws)
	desc := strings.Join(what, ", ")
	var finished []*Node
	for _, x := range ns {
		switch {
		case len(d1) > 0:
			c.blame(x, d1, 1, desc)
		case len(d2[x.ID]) > 0:
			c.blame(x, d2[x.ID], 2, desc)
		default:
			c.Check(x.done(), "party %d has not ended although every message was delivered (%s)", x.ID, desc)
			c.Check(x.St.Err() == nil, "party %d aborts (%v) although nobody cheated towards it (%s)", x.ID, x.St.Err(), desc)
			c.Check(x.KG.Public != nil && x.KG.SecretKey != nil, "party %d finishes without output", x.ID)
			finished = append(finished, x)
		}
	}
	c.consistentFinishers(finished, ids, t)
	c.Count("sessions", 1)
	c.Count("adversaries", nadv)
	c.Seen(fp(ids), t, desc, sched)
	c.Sample(map[string]any{"ids": fp(ids), "t": t, "deviations": desc, "outcomes": outcomes(ns)})
}

// cancelling draws one non-zero error for each of the parties, such that their sum, weighted
// in one of several ways, is zero.
func (c *Case) cancelling(who, all party.IDSlice) map[party.ID]*big.Int {
	kind := c.R.IntN(4)
	if c.R.IntN(2) == 0 {
		kind = 0
	}
	weight := func(id party.ID) *big.Int {
		switch kind {
		case 1:
			return big.NewInt(int64(id))
		case 2:
			for i, j := range all {
				if j == id {
					return big.NewInt(int64(i + 1))
				}
			}
		case 3:
			return ref.Lagrange(int64(id), id64(all))
		}
		return big.NewInt(1)
	}
	out := map[party.ID]*big.Int{}
	sum := new(big.Int)
	for _, i := range c.R.Perm(len(who)) {
		e := c.scalar()
		if c.R.IntN(3) == 0 {
			e = big.NewInt(1 + int64(c.R.IntN(5)))
		}
		if len(out) == len(who)-1 {
			e = ref.SMul(ref.SNeg(sum), ref.SInv(weight(who[i])))
			if e.Sign() == 0 {
				e = big.NewInt(1)
			}
		}
		sum = ref.SAdd(sum, ref.SMul(e, weight(who[i])))
		out[who[i]] = e
	}
	return out
}

func (c *Case) consistentFinishers(fs []*Node, ids party.IDSlice, t int) {
	for _, x := range fs {
		c.publicEqual(x.KG.Public, fs[0].KG.Public, fmt.Sprintf("honest parties %d and %d", x.ID, fs[0].ID))
		c.checkShares(x.KG.Public, ids, t, map[party.ID]*eddsa.SecretShare{x.ID: x.KG.SecretKey}, 0)
		// the public shares must lie on one polynomial of degree t through the group key
		if x == fs[0] {
			sub := c.subset(ids, t+1)
			sum := ref.Identity()
			for _, id := range sub {
				sum = sum.Add(elPt(c, x.KG.Public.Shares[id]).Mul(ref.Lagrange(int64(id), id64(sub))))
			}
			c.Check(string(sum.Prime().EncodeEd()) == string(x.KG.Public.GroupKey.ToEd25519()), "the public shares do not interpolate to the group key")
		}
		c.Count("honest finishes", 1)
	}
}

// refusedOnlyAfterEnd: genuine first-time messages are refused only by ended sessions.
func (c *Case) refusedOnlyAfterEnd(x *Node, w []byte, err error) {
	if err != nil && !x.done() {
		c.Fail("party %d refuses %s: %v", x.ID, wireName(w), err)
	}
}

func outcomes(ns []*Node) []string {
	var out []string
	for _, x := range ns {
		if e := x.St.Err(); e != nil {
			out = append(out, fmt.Sprintf("%d: %v", x.ID, e))
		} else {
			out = append(out, fmt.Sprintf("%d: finished=%v", x.ID, x.done()))
		}
	}
	sort.Strings(out)
	return out
}

// ---- signing (C06) ----

var zDevs = []struct {
	name string
	f    func(c *Case, a *RefSign, honest map[party.ID]*big.Int) *big.Int
}{
	{"z+1", func(c *Case, a *RefSign, _ map[party.ID]*big.Int) *big.Int { return ref.SAdd(a.z(), big.NewInt(1)) }},
	{"z with a bit", func(c *Case, a *RefSign, _ map[party.ID]*big.Int) *big.Int {
		return ref.SAdd(a.z(), new(big.Int).Lsh(big.NewInt(1), uint(c.R.IntN(252))))
	}},
	{"zero", func(c *Case, a *RefSign, _ map[party.ID]*big.Int) *big.Int { return big.NewInt(0) }},
	{"random", func(c *Case, a *RefSign, _ map[party.ID]*big.Int) *big.Int { return c.scalar() }},
	{"negated", func(c *Case, a *RefSign, _ map[party.ID]*big.Int) *big.Int { return ref.SNeg(a.z()) }},
	{"honest party's share", func(c *Case, a *RefSign, h map[party.ID]*big.Int) *big.Int {
		for _, id := range a.IDs {
			if z := h[id]; z != nil {
				return z
			}
		}
		return c.scalar()
	}},
	{"no binding factor", func(c *Case, a *RefSign, _ map[party.ID]*big.Int) *big.Int {
		return ref.SAdd(ref.SAdd(a.D, a.E), ref.SMul(ref.SMul(ref.Lagrange(int64(a.ID), id64(a.IDs)), a.Share), a.C))
	}},
	{"another party's binding factor", func(c *Case, a *RefSign, _ map[party.ID]*big.Int) *big.Int {
		for _, id := range a.IDs {
			if id != a.ID {
				z := ref.SAdd(a.D, ref.SMul(a.E, a.rho[id]))
				return ref.SAdd(z, ref.SMul(ref.SMul(ref.Lagrange(int64(a.ID), id64(a.IDs)), a.Share), a.C))
			}
		}
		return c.scalar()
	}},
	{"no Lagrange coefficient", func(c *Case, a *RefSign, _ map[party.ID]*big.Int) *big.Int {
		return ref.SAdd(ref.SAdd(a.D, ref.SMul(a.E, a.rho[a.ID])), ref.SMul(a.Share, a.C))
	}},
	{"no key share", func(c *Case, a *RefSign, _ map[party.ID]*big.Int) *big.Int {
		return ref.SAdd(a.D, ref.SMul(a.E, a.rho[a.ID]))
	}},
	{"negated key share", func(c *Case, a *RefSign, _ map[party.ID]*big.Int) *big.Int {
		return ref.SSub(ref.SAdd(a.D, ref.SMul(a.E, a.rho[a.ID])), ref.SMul(ref.SMul(ref.Lagrange(int64(a.ID), id64(a.IDs)), a.Share), a.C))
	}},
	{"swapped nonces", func(c *Case, a *RefSign, _ map[party.ID]*big.Int) *big.Int {
		return ref.SAdd(ref.SAdd(a.E, ref.SMul(a.D, a.rho[a.ID])), ref.SMul(ref.SMul(ref.Lagrange(int64(a.ID), id64(a.IDs)), a.Share), a.C))
	}},
	{"another challenge", func(c *Case, a *RefSign, _ map[party.ID]*big.Int) *big.Int {
		ch := ref.SHash(a.R.EncodeEd(), a.Group.EncodeEd(), append(append([]byte{}, a.Msg...), 1))
		return ref.SAdd(ref.SAdd(a.D, ref.SMul(a.E, a.rho[a.ID])), ref.SMul(ref.SMul(ref.Lagrange(int64(a.ID), id64(a.IDs)), a.Share), ch))
	}},
}

func cheatSign(c *Case) {
	n := c.size(2, 8)
	ids := c.ids(n)
	t := 1 + c.R.IntN(n-1)
	k := c.key(ids, t)
	m := t + 1 + c.R.IntN(n-t)
	signers := c.subset(ids, m)
	nadv := 1
	if m > 2 && c.R.IntN(2) == 0 {
		nadv = 1 + c.R.IntN(m-1)
	}
	adv := map[party.ID]bool{}
	for _, id := range c.subset(signers, nadv) {
		adv[id] = true
	}
	msg := c.message()
	mode := c.Idx % 8
	// A finished earlier session with the same parties, for replays.
	var old []*RefSign
	if mode == 5 || mode == 6 {
		var ns []*Node
		omsg := msg
		if c.R.IntN(2) == 0 {
			omsg = c.message()
		}
		for _, id := range signers {
			if adv[id] {
				old = append(old, c.refSign(k, signers, id, omsg))
			} else {
				ns = append(ns, c.signNode(k, signers, id, omsg, 0))
			}
		}
		c.exchange(ns, old)
		c.checkSigned(k, ns, omsg)
	}
	var ns []*Node
	var rs []*RefSign
	for _, id := range signers {
		if adv[id] {
			rs = append(rs, c.refSign(k, signers, id, msg))
		} else {
			ns = append(ns, c.signNode(k, signers, id, msg, 0))
		}
	}
	var hw [][]byte
	for _, x := range ns {
		hw = append(hw, x.step()...)
	}
	c.Check(len(hw) == len(ns), "%d messages from the first step of %d signers", len(hw), len(ns))
	d1, d2 := map[party.ID]bool{}, map[party.ID]bool{}
	unknown := map[party.ID]bool{} // adversaries that do not know their own nonces
	var what []string
	var w1 [][]byte
	for i, a := range rs {
		w := a.msg1()
		switch {
		case mode == 0 || mode == 1 && c.R.IntN(2) == 0: // identity commitments
			z := ref.Identity().Encode()
			v := c.R.IntN(3)
			if v != 1 {
				copy(w[5:37], z)
			}
			if v != 0 {
				copy(w[37:69], z)
			}
			d1[a.ID] = true
			what = append(what, fmt.Sprintf("%d: identity commitment %d", a.ID, v))
			c.Count("deviation identity commitment", 1)
		case mode == 2 && c.R.IntN(2) == 0: // somebody else's commitments
			copy(w[5:], hw[c.R.IntN(len(hw))][5:])
			unknown[a.ID] = true
			what = append(what, fmt.Sprintf("%d: copied commitments", a.ID))
		case mode == 2: // cancels the honest commitments
			d, e := ref.MulBase(a.D), ref.MulBase(a.E)
			for _, h := range hw {
				p, _ := ref.Decode(h[5:37])
				q, _ := ref.Decode(h[37:69])
				d, e = d.Sub(p), e.Sub(q)
			}
			copy(w[5:37], d.Encode())
			copy(w[37:69], e.Encode())
			unknown[a.ID] = true
			what = append(what, fmt.Sprintf("%d: cancelling commitments", a.ID))
		case mode == 6: // an earlier session's commitments: allowed, the nonces are its own
			a.D, a.E = old[i].D, old[i].E
			w = a.msg1()
			what = append(what, fmt.Sprintf("%d: old commitments", a.ID))
		}
		a.recv1(w)
		w1 = append(w1, w)
	}
	s1 := c.rerun(ns, plan{onEvent: c.refusedOnlyAfterEnd}, append(append([][]byte{}, hw...), w1...))
	if len(d1) > 0 {
		desc := strings.Join(what, ", ")
		for _, x := range ns {
			c.blame(x, d1, 1, desc)
		}
		c.signTail(ns, fp(signers), t, desc, s1)
		return
	}
	hz := map[party.ID]*big.Int{}
	for _, x := range ns {
		hz[x.ID], _ = ref.SCanon(c.sent1(x, tSG2)[5:])
	}
	for _, a := range rs {
		if a != rs[0] { // all see the same commitments
			a.In1, a.In1Raw, a.rho, a.R, a.C = rs[0].In1, rs[0].In1Raw, rs[0].rho, rs[0].R, rs[0].C
			continue
		}
		for _, w := range append(append([][]byte{}, hw...), w1...) {
			a.recv1(w)
		}
		a.bind()
	}
	w2 := make([][]byte, len(rs))
	var delta map[party.ID]*big.Int
	if mode == 3 && nadv > 1 {
		delta = c.cancelling(c.subset(sortedIDs(adv), 2+c.R.IntN(nadv-1)), signers)
	}
	for i, a := range rs {
		z := a.z()
		bad := false
		name := ""
		switch {
		case unknown[a.ID]:
			bad, name = true, "share for unknown nonces"
			if c.R.IntN(2) == 0 {
				z = c.scalar()
			}
		case mode == 3 && nadv > 1: // errors that cancel out
			if e := delta[a.ID]; e != nil {
				z = ref.SAdd(z, e)
				bad, name = true, "cancelling error"
			}
		case mode == 4 && nadv > 1 && i < 2: // two cheaters exchange their shares
			z, bad, name = rs[1-i].z(), true, "the other cheater's share"
		case mode == 5:
			z, bad, name = old[i].Z[a.ID], true, "share of an earlier session"
		case mode == 6 && c.R.IntN(2) == 0:
			z = old[i].Z[a.ID]
			name = "old share for old commitments"
			bad = z.Cmp(a.z()) != 0
		case mode == 7 && c.R.IntN(4) == 0, mode == 6, mode == 2:
		default:
			d := zDevs[(c.Idx/8+c.R.IntN(2)*c.R.IntN(len(zDevs)))%len(zDevs)]
			z = d.f(c, a, hz)
			name = d.name
			bad = true
		}
		if !unknown[a.ID] {
			bad = z.Cmp(a.z()) != 0
		}
		if bad {
			d2[a.ID] = true
			what = append(what, fmt.Sprintf("%d: %s", a.ID, name))
			c.Count("deviation "+name, 1)
		}
		w2[i] = wire(tSG2, a.ID, 0, ref.ToLE(z))
	}
	s2 := c.rerun(ns, plan{onEvent: c.refusedOnlyAfterEnd}, w2)
	desc := strings.Join(what, ", ")
	for _, x := range ns {
		if len(d2) > 0 {
			c.blame(x, d2, 2, desc)
		}
	}
	if len(d2) == 0 {
		c.checkSigned(k, ns, msg)
		c.Count("honest finishes", len(ns))
	}
	c.signTail(ns, fp(signers), t, desc, s1+s2)
}

func (c *Case) signTail(ns []*Node, ids string, t int, desc, sched string) {
	c.Count("sessions", 1)
	c.Seen(ids, t, desc, sched)
	c.Sample(map[string]any{"signers": ids, "t": t, "deviations": desc, "outcomes": outcomes(ns)})
}

// misconfigured: honest code, but one signer's inputs do not belong to the session. Nobody
// may output anything but a signature that is valid for its own message and key.
func misconfigured(c *Case) {
	n := c.size(2, 6)
	ids := c.ids(n)
	t := 1 + c.R.IntN(n-1)
	k := c.key(ids, t)
	signers := c.subset(ids, t+1+c.R.IntN(n-t))
	msg := c.message()
	odd := signers[c.R.IntN(len(signers))]
	kind := c.Idx % 6
	var ns []*Node
	msgs := map[party.ID][]byte{}
	keys := map[party.ID]*Key{}
	for _, id := range signers {
		kk, mm, ss := k, msg, signers
		if id == odd || kind == 4 {
			cp := *k
			cp.Secrets = map[party.ID]*eddsa.SecretShare{}
			for a, b := range k.Secrets {
				cp.Secrets[a] = b
			}
			switch kind {
			case 0: // wrong secret share
				cp.Secrets[id] = eddsa.NewSecretShare(id, bigSc(ref.SAdd(scBig(&k.Secrets[id].Secret), c.scalar())))
			case 1: // another message
				mm = append(append([]byte{}, msg...), byte(c.R.IntN(256)))
			case 2: // another key
				cp = *c.refDeal(ids, t)
			case 3, 4: // public data with a group key that is not the interpolation of the shares
				p := *k.Public
				p.GroupKey = eddsa.NewPublicKeyFromPoint(ptEl(ref.MulBase(c.scalar())))
				cp.Public = &p
			case 5: // a wrong public share of somebody
				p := *k.Public
				p.Shares = map[party.ID]*ristretto.Element{}
				for a, b := range k.Public.Shares {
					p.Shares[a] = b
				}
				p.Shares[signers[c.R.IntN(len(signers))]] = ptEl(ref.MulBase(c.scalar()))
				cp.Public = &p
			}
			kk = &cp
		}
		msgs[id], keys[id] = mm, kk
		ns = append(ns, c.signNode(kk, ss, id, mm, 0))
	}
	sched := c.run(ns, c.plan(ns))
	for _, x := range ns {
		c.Check(x.done(), "signer %d has not ended", x.ID)
		if x.St.Err() != nil {
			c.Check(x.SG.Signature == nil, "signer %d aborted, but its output is not empty", x.ID)
			e := x.stateErr()
			// nobody cheated but the odd one
			if kind == 0 && x.ID != odd {
				c.Check(e.PartyID == odd && e.RoundNumber == 2, "signer %d reports %v, but only %d used a wrong share", x.ID, e, odd)
			}
			if kind == 0 && x.ID == odd {
				c.Check(e.PartyID == 0 || e.PartyID == odd, "signer %d, whose own share is wrong, blames %d", x.ID, e.PartyID)
			}
		} else {
			c.Check(x.SG.Signature != nil, "signer %d finishes without signature", x.ID)
			c.Check(ed25519.Verify(keys[x.ID].Public.GroupKey.ToEd25519(), msgs[x.ID], x.SG.Signature.ToEd25519()), "signer %d outputs a signature that crypto/ed25519 rejects (misconfiguration %d at %d)", x.ID, kind, odd)
			c.Check(kind == 5, "signer %d succeeds in a session that is misconfigured (%d) at %d", x.ID, kind, odd)
		}
		c.Eval(1)
	}
	c.Count("misconfigured sessions", 1)
	c.Seen("mis", kind, fp(signers), t, sched)
}

func init() {
	register(&Prop{
		ID:   "C05",
		Rule: "One case is a key generation of 2..8 parties in which 1..n-1 rushing reference adversaries deviate: 26 deviations of the broadcast (invalid, foreign, copied, rogue proofs; wrong degrees with valid proofs and consistent shares), 10 kinds of wrong shares towards any subset of receivers, alone and combined, delivered in random order. Every honest party must abort naming a deviating party (among those that deviated towards it) and the round, with empty output, and the others must finish consistently. Distinct by (IDs, t, deviations, schedule).",
		Parts: []Part{
			{"cheat", 4000, 80000, cheatKeygen},
			{"history", 400, 8000, historyKeygen},
			{"crowd", 48, 300, func(c *Case) { crowdKeygen(c, 1+c.R.IntN(3)) }},
			{"sizes", 576, 10000, func(c *Case) { n, t := c.sweep(); crowdKeygenN(c, n, t, c.cheaters(n)) }},
		},
		Least: map[string]int64{"sessions": 1000, "aborts attributed": 1000, "honest finishes": 200},
	})
	register(&Prop{
		ID:   "C06",
		Rule: "One case is a signing session of t+1..n signers with 1..m-1 rushing reference adversaries: identity, copied and cancelling commitments, 13 kinds of wrong shares, cancelling and exchanged errors, replays of an earlier session; or a session in which one signer's own inputs are wrong. Every honest signer must abort naming a deviating signer and the round with empty output, or output a signature that crypto/ed25519 accepts. Distinct by (signers, t, deviations, schedule).",
		Parts: []Part{
			{"cheat", 3200, 64000, cheatSign},
			{"misconfigured", 600, 12000, misconfigured},
			{"crowd", 32, 300, func(c *Case) { crowdSign(c, 1+c.R.IntN(3)) }},
			{"sizes", 576, 10000, func(c *Case) { n, t := c.sweep(); crowdSignN(c, n, t, c.cheaters(n)) }},
		},
		Least: map[string]int64{"sessions": 1000, "aborts attributed": 1000, "honest finishes": 100, "misconfigured sessions": 100},
	})
}
