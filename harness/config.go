package main

import (
	"fmt"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
)

// C19: session creation is compared with the definition of a valid configuration.

// isSet: sorted, distinct, without 0. Written without the library.
func isSet(l []party.ID) bool {
	for i, x := range l {
		if x == 0 {
			return false
		}
		for j := 0; j < i && len(l) < 100; j++ {
			if l[j] >= x {
				return false
			}
		}
		if i > 0 && l[i-1] >= x {
			return false
		}
	}
	return true
}

func has(l []party.ID, x party.ID) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func within(a, b []party.ID) bool {
	m := map[party.ID]bool{}
	for _, x := range b {
		m[x] = true
	}
	for _, x := range a {
		if !m[x] {
			return false
		}
	}
	return true
}

func clipIDs(l []party.ID) string {
	if len(l) > 12 {
		return fmt.Sprintf("%v…%v (%d IDs)", l[:6], l[len(l)-4:], len(l))
	}
	return fmt.Sprint(l)
}

// called runs f and reports its panic.
func called(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func (c *Case) tryKeygen(self party.ID, list []party.ID, t int, use bool) bool {
	valid := isSet(list) && has(list, self) && t >= 1 && t <= len(list)-1
	what := fmt.Sprintf("NewKeygenState(self %d, parties %s, threshold %d)", self, clipIDs(list), t)
	timeout := []time.Duration{0, 0, time.Hour, -1}[c.R.IntN(4)]
	if p := called(func() {
		st, out, err := frost.NewKeygenState(self, list, party.Size(t), timeout)
		switch {
		case valid:
			c.Check(err == nil, "%s is refused: %v", what, err)
			c.Check(st != nil && out != nil, "%s returns no error and no session", what)
			c.Check(!st.IsFinished() && st.Err() == nil, "%s: the session is already over", what)
			c.Count("keygen accepted", 1)
			if use {
				n := &Node{ID: self, St: st, KG: out, c: c}
				ws := n.step()
				c.Check(len(ws) == 1 && wType(ws[0]) == tKG1 && wFrom(ws[0]) == self && wTo(ws[0]) == 0, "%s: the session does not begin with one broadcast of the own commitments", what)
				c.Check(len(ws[0]) == 5+64+2+32*(t+1), "%s: the session commits to a polynomial of the wrong degree (message of %d bytes)", what, len(ws[0]))
				c.Check(!st.IsFinished(), "%s: the session is over before it received a message", what)
				c.Count("sessions begun", 1)
			}
		default:
			c.Check(err != nil, "%s gives no error", what)
			c.Check(st == nil, "%s gives an error (%v) and a session", what, err)
			c.Count("keygen refused", 1)
		}
	}); p != nil {
		if f, ok := p.(caseFailure); ok {
			panic(f)
		}
		c.Fail("%s panics: %v", what, p)
	}
	c.Eval(1)
	return valid
}

func (c *Case) trySign(list []party.ID, share *eddsa.SecretShare, pub *eddsa.Public, keyIDs []party.ID, use bool) bool {
	valid := isSet(list) && has(list, share.ID) && within(list, keyIDs)
	what := fmt.Sprintf("NewSignState(signers %s, share of %d, key of %s)", clipIDs(list), share.ID, clipIDs(keyIDs))
	timeout := []time.Duration{0, 0, time.Hour, -1}[c.R.IntN(4)]
	msg := c.message()
	if p := called(func() {
		st, out, err := frost.NewSignState(list, share, pub, msg, timeout)
		switch {
		case valid:
			c.Check(err == nil, "%s is refused: %v", what, err)
			c.Check(st != nil && out != nil, "%s returns no error and no session", what)
			c.Check(!st.IsFinished() && st.Err() == nil, "%s: the session is already over", what)
			c.Count("sign accepted", 1)
			if use && len(list) > 1 {
				n := &Node{ID: share.ID, St: st, SG: out, c: c}
				ws := n.step()
				c.Check(len(ws) == 1 && wType(ws[0]) == tSG1 && wFrom(ws[0]) == share.ID && wTo(ws[0]) == 0, "%s: the session does not begin with one broadcast of the own nonces", what)
				c.Check(!st.IsFinished(), "%s: the session is over before it received a message", what)
				c.Count("sessions begun", 1)
			}
		default:
			c.Check(err != nil, "%s gives no error", what)
			c.Check(st == nil, "%s gives an error (%v) and a session", what, err)
			c.Count("sign refused", 1)
		}
	}); p != nil {
		if f, ok := p.(caseFailure); ok {
			panic(f)
		}
		c.Fail("%s panics: %v", what, p)
	}
	c.Eval(1)
	return valid
}

// listAt is the i-th list over the alphabet, by length.
func listAt(alpha []party.ID, i int) []party.ID {
	n := 0
	for k := 1; i >= k; k *= len(alpha) {
		i -= k
		n++
	}
	l := make([]party.ID, n)
	for j := range l {
		l[j] = alpha[i%len(alpha)]
		i /= len(alpha)
	}
	return l
}

func listCount(alpha []party.ID, n int) int {
	s, k := 0, 1
	for i := 0; i <= n; i++ {
		s += k
		k *= len(alpha)
	}
	return s
}

var smallIDs = []party.ID{0, 1, 2, 3, 65535}

const configChunk = 40

// smallKeygen enumerates: every list of at most 4 (thorough: 5) of smallIDs, every own ID of
// 0,1,2,3,4,65535, every threshold of 0..5 and the top of the range.
func smallKeygen(c *Case) {
	max := 4
	if c.Thoro {
		max = 5
	}
	total := listCount(smallIDs, max)
	for i := c.Idx * configChunk; i < (c.Idx+1)*configChunk && i < total; i++ {
		l := listAt(smallIDs, i)
		for _, self := range []party.ID{0, 1, 2, 3, 4, 65535} {
			for _, t := range []int{0, 1, 2, 3, 4, 5, 255, 256, 32768, 65534, 65535} {
				valid := c.tryKeygen(self, l, t, t < 10)
				c.Seen("k", l, self, t, valid)
			}
		}
		c.Count("lists enumerated (keygen)", 1)
	}
	c.Sample(map[string]any{"from list": c.Idx * configChunk, "last": fmt.Sprint(listAt(smallIDs, min(total, (c.Idx+1)*configChunk)-1))})
}

// smallSign: the same signer lists, every key on at least two of 1,2,3,4,65535, every owner.
func smallSign(c *Case) {
	max := 4
	if c.Thoro {
		max = 5
	}
	total := listCount(smallIDs, max)
	all := []party.ID{1, 2, 3, 4, 65535}
	var keys []*Key
	for m := 0; m < 32; m++ {
		var ids party.IDSlice
		for b, id := range all {
			if m>>b&1 == 1 {
				ids = append(ids, id)
			}
		}
		if len(ids) >= 2 {
			keys = append(keys, c.helperDeal(ids, 1+c.R.IntN(len(ids)-1)))
		}
	}
	for i := c.Idx * configChunk; i < (c.Idx+1)*configChunk && i < total; i++ {
		l := listAt(smallIDs, i)
		for _, k := range keys {
			for _, owner := range []party.ID{0, 1, 2, 3, 4, 7, 65535} {
				share := k.Secrets[owner]
				if share == nil { // the share of somebody else
					share = &eddsa.SecretShare{ID: owner, Secret: *bigSc(c.scalar())}
					share.Public.ScalarBaseMult(&share.Secret)
				}
				valid := c.trySign(l, share, k.Public, k.IDs, c.R.IntN(20) == 0)
				c.Seen("s", l, fp(k.IDs), owner, valid)
			}
		}
		c.Count("lists enumerated (sign)", 1)
	}
	c.Sample(map[string]any{"from list": c.Idx * configChunk, "keys": len(keys)})
}

// spoilList makes a list invalid (or leaves it valid) with one change.
func (c *Case) spoilList(l []party.ID, self party.ID) ([]party.ID, string) {
	return c.spoilListBy(c.R.IntN(9), l, self)
}

func (c *Case) spoilListBy(kind int, l []party.ID, self party.ID) ([]party.ID, string) {
	l = append([]party.ID{}, l...)
	n := len(l)
	i := c.R.IntN(n)
	switch kind {
	case 0: // a duplicate next to the original
		l = append(l[:i+1], l[i:]...)
		return l, "adjacent duplicate"
	case 1: // a duplicate anywhere
		j := c.R.IntN(n + 1)
		x := l[i]
		l = append(l[:j], append([]party.ID{x}, l[j:]...)...)
		return l, "duplicate"
	case 2:
		if n > 1 {
			i = c.R.IntN(n - 1)
			l[i], l[i+1] = l[i+1], l[i]
		}
		return l, "neighbours swapped"
	case 3:
		j := c.R.IntN(n)
		l[i], l[j] = l[j], l[i]
		return l, "two swapped"
	case 4:
		return append([]party.ID{0}, l...), "leading 0"
	case 5:
		l[i] = 0
		return l, "an ID replaced by 0"
	case 6:
		out := []party.ID{}
		for _, x := range l {
			if x != self {
				out = append(out, x)
			}
		}
		return out, "own ID removed"
	case 7: // one ID replaced by another
		l[i] = party.ID(c.R.IntN(65536))
		return l, "an ID replaced"
	}
	// reversed
	for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
		l[a], l[b] = l[b], l[a]
	}
	return l, "reversed"
}

func largeConfigs(c *Case) {
	n := c.size(2, 40)
	if c.R.IntN(8) == 0 {
		n = 40 + c.R.IntN(400)
	}
	ids := c.ids(n)
	self := ids[c.R.IntN(n)]
	t := 1 + c.R.IntN(n-1)
	k := c.helperDeal(ids, t)
	c.tryKeygen(self, ids, t, n < 40)
	for _, tt := range []int{0, 1, n - 1, n, n + 1, n + 255, 65535, 65535 - n, 65536 - n} {
		if tt < 65536 {
			c.tryKeygen(self, ids, tt, false)
		}
	}
	for i := 0; i < 12; i++ {
		l, how := c.spoilList(ids, self)
		valid := c.tryKeygen(self, l, t, false)
		c.Seen("k", fp(l), self, t, valid)
		signers := c.subset(ids, 1+c.R.IntN(n))
		owner := signers[c.R.IntN(len(signers))]
		c.trySign(signers, k.Secrets[owner], k.Public, ids, false)
		s, how2 := c.spoilList(signers, owner)
		valid = c.trySign(s, k.Secrets[owner], k.Public, ids, false)
		c.Seen("s", fp(s), owner, valid)
		c.Count("spoilt: "+how, 1)
		c.Count("spoilt: "+how2, 1)
	}
	// one signer is not a party of the key
	for i := 0; i < 4; i++ {
		x := party.ID(1 + c.R.IntN(65535))
		signers := c.subset(ids, 1+c.R.IntN(n))
		owner := signers[c.R.IntN(len(signers))]
		m := map[party.ID]bool{x: true}
		for _, y := range signers {
			m[y] = true
		}
		c.trySign(sortedIDs(m), k.Secrets[owner], k.Public, ids, false)
	}
	// the owner is not a signer
	signers := c.subset(ids, 1+c.R.IntN(n))
	c.trySign(signers, k.Secrets[ids[c.R.IntN(n)]], k.Public, ids, false)
	c.Sample(map[string]any{"ids": clipIDs(ids), "t": t})
}

// everySize: all kinds of changes, for every size from 2 to 65 and some larger ones.
func everySize(c *Case) {
	n := 2 + c.Idx%80
	if edge := []int{96, 100, 101, 127, 128, 129, 192, 200, 255, 256, 257, 300, 512, 1001, 1500, 2000}; n >= 66 {
		n = edge[n-66]
	}
	ids := c.ids(n)
	self := ids[c.R.IntN(n)]
	t := 1 + c.R.IntN(n-1)
	c.tryKeygen(self, ids, min(t, 40), n < 66)
	for _, tt := range []int{0, 1, n - 1, n, n + 1, n + 2, 2 * n, 65535, 65535 - n, 65536 - n} {
		if tt < 65536 {
			c.tryKeygen(self, ids, tt, false)
		}
	}
	// of a large key only some parties sign
	keyIDs, signers := ids, ids
	if n > 300 {
		signers = c.subset(ids, 12)
	}
	owner := signers[0]
	k := c.fastDeal(keyIDs, 1, owner)
	m := len(signers)
	outsider := party.ID(0)
	for outsider == 0 || inIDs(ids, outsider) {
		outsider = party.ID(1 + c.R.IntN(65535))
	}
	for kind := 0; kind < 9; kind++ {
		for rep := 0; rep < 2; rep++ {
			l, how := c.spoilListBy(kind, ids, self)
			c.tryKeygen(self, l, t, false)
			c.Seen("k", fp(l), self, t)
			s, _ := c.spoilListBy(kind, signers, owner)
			c.trySign(s, k.Secrets[owner], k.Public, k.IDs, false)
			c.Seen("s", fp(s), owner)
			c.Count("spoilt: "+how, 2)
		}
	}
	// one ID is replaced by one that is not in the key, at the beginning, anywhere, at the end
	for _, i := range []int{1, 1 + c.R.IntN(m-1), m - 1} {
		set := map[party.ID]bool{outsider: true}
		for j, id := range signers {
			if j != i || c.R.IntN(2) == 0 {
				set[id] = true
			}
		}
		c.trySign(sortedIDs(set), k.Secrets[owner], k.Public, k.IDs, false)
	}
	// the share of somebody who does not sign, or has none
	for _, id := range []party.ID{outsider, 0} {
		share := &eddsa.SecretShare{ID: id, Secret: *bigSc(c.scalar())}
		share.Public.ScalarBaseMult(&share.Secret)
		c.trySign(signers, share, k.Public, k.IDs, false)
		c.tryKeygen(id, ids, t, false)
	}
	if m > 2 {
		c.trySign(signers[1:], k.Secrets[owner], k.Public, k.IDs, false)
	}
	if m < 66 || c.Idx%4 == 0 {
		c.trySign(signers, k.Secrets[owner], k.Public, k.IDs, m < 66)
	}
	c.Count("sizes", 1)
	c.Sample(map[string]any{"ids": clipIDs(ids), "t": t})
}

// hugeConfigs: lists of up to and beyond 65535 IDs, where 16-bit sizes wrap.
func hugeConfigs(c *Case) {
	full := helpers.NewPartySlice(65535)
	x := party.ID(1 + c.R.IntN(65535))
	switch c.Idx % 6 {
	case 0:
		c.tryKeygen(x, full, 65534, false)
		c.tryKeygen(x, full, 65535, false)
		c.tryKeygen(0, full, 65534, false)
		c.tryKeygen(x, full, 1, true)
	case 1: // 65536 entries: with a 0, with a duplicate
		c.tryKeygen(x, append([]party.ID{0}, full...), 1, false)
		c.tryKeygen(x, append(append([]party.ID{}, full...), 65535), 2, false)
	case 2: // 65536+k entries
		k := 2 + c.R.IntN(10)
		l := append(append([]party.ID{}, full...), 0)
		l = append(l, full[:k]...)
		c.tryKeygen(x, l, 1, false)
		c.tryKeygen(party.ID(1+c.R.IntN(k)), l, k-1, false)
	case 3: // k IDs and then 65536 times the last
		k := 2 + c.R.IntN(10)
		l := append([]party.ID{}, full[:k]...)
		for i := 0; i < 65536; i++ {
			l = append(l, party.ID(k))
		}
		c.tryKeygen(1, l, 1, false)
	case 4: // 65534 IDs: all but x
		l := append([]party.ID{}, full[:x-1]...)
		l = append(l, full[x:]...)
		c.tryKeygen(x, l, 3, false)
		y := l[c.R.IntN(len(l))]
		c.tryKeygen(y, l, 65533, false)
		c.tryKeygen(y, l, 65534, false)
	case 5: // signing lists that wrap, with a small key
		ids := c.ids(2 + c.R.IntN(4))
		k := c.helperDeal(ids, 1)
		l := append([]party.ID{}, ids...)
		for len(l) < 65536+len(ids) {
			l = append(l, ids[len(ids)-1])
		}
		c.trySign(l, k.Secrets[ids[0]], k.Public, ids, false)
		c.trySign(full, k.Secrets[ids[0]], k.Public, ids, false)
	}
	c.Seen(c.Idx%6, x)
	c.Count("huge lists", 1)
}

func init() {
	per := func(n int) int { return (listCount(smallIDs, n) + configChunk - 1) / configChunk }
	register(&Prop{ID: "C19", Rule: "a configuration counts if the result of creating the session was compared with the definition of a valid one; distinct by list, own ID, threshold or key",
		Parts: []Part{
			{Name: "all-small-keygen", Quick: per(4), Thorough: per(5), Fn: smallKeygen},
			{Name: "all-small-sign", Quick: per(4), Thorough: per(5), Fn: smallSign},
			{Name: "large", Quick: 250, Thorough: 30000, Fn: largeConfigs},
			{Name: "sizes", Quick: 160, Thorough: 16000, Fn: everySize},
			{Name: "huge", Quick: 12, Thorough: 600, Fn: hugeConfigs},
		},
		Least: map[string]int64{"keygen accepted": 200, "keygen refused": 40000, "sign accepted": 500, "sign refused": 60000, "huge lists": 12, "sizes": 160, "lists enumerated (keygen)": int64(listCount(smallIDs, 4)), "lists enumerated (sign)": int64(listCount(smallIDs, 4))},
	})
}
