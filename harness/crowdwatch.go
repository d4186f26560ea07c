package main

import (
	"fmt"
	"reflect"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// The single participant of a crowd that runs the library, watched for C16, C17 and C18.

// oneCrowd runs one session, of a size of the sweep or, every 12th time, of hundreds of parties.
func (c *Case) oneCrowd(sign bool, cheats int) {
	n, t := c.sweep()
	if c.Idx%12 == 7 {
		n, t = c.crowdSize()
		n = min(n, 400)
		if t >= n {
			t = 3
		}
	}
	if cheats > 0 {
		cheats = c.cheaters(n)
	}
	if sign {
		crowdSignN(c, n, t, cheats)
	} else {
		crowdKeygenN(c, n, t, cheats)
	}
	if n > 100 {
		c.Count("watched crowds of more than 100 parties", 1)
	}
}

// wipedCrowd: after a session among many the memory holds no secret.
func wipedCrowd(c *Case) {
	sign := c.R.IntN(2) == 0
	d := newDRBG(c.seed32())
	d.Keep = true
	var x *Node
	pats := secrets{}
	var mine []any
	c.watchCrowd = func(y *Node, k *Key, parties party.IDSlice) {
		x, y.Rand = y, d
		mine = []any{parties}
		if k != nil {
			mine = append(mine, k.Public, k.Secrets)
			s := scBig(&k.Secrets[y.ID].Secret)
			pats.scalar(s, "the key share")
			pats.scalar(ref.SMul(ref.Lagrange(int64(y.ID), id64(parties)), s), "the weighted key share")
		}
	}
	c.oneCrowd(sign, c.R.IntN(3)/2)
	c.Check(x.done(), "party %d has not ended", x.ID)
	pats.drawn(d, 0)
	if !sign {
		if x.KG.SecretKey != nil {
			pats.scalar(scBig(&x.KG.SecretKey.Secret), "its secret share")
		}
		c.keygenSecrets(pats, d, &record4{t: int(wDegree(c.sent1(x, tKG1))), sent: map[party.ID][][]byte{x.ID: x.Sent}}, nil, x)
	}
	hits, w := pats.search(x.St, reach(append(mine, x.KG, x.SG)...))
	for _, h := range hits {
		c.Fail("after the session of party %d of %d ended (%v), %s still contains %s", x.ID, reflect.ValueOf(mine[0]).Len(), x.St.Err(), h.path, h.name)
	}
	c.Count("objects visited", w.objects)
	c.Count("sessions searched after the end", 1)
	c.Eval(1)
}

func wDegree(w []byte) int { return int(w[69])<<8 | int(w[70]) }

// distinctCrowd: the secrets of two sessions among many are all different.
func distinctCrowd(c *Case) {
	seen := map[string]string{}
	put := func(b, what string) {
		c.Check(seen[b] == "", "the same value is used twice: as %s and as %s", seen[b], what)
		seen[b] = what
		c.Eval(1)
	}
	sign := c.R.IntN(2) == 0
	for i := 0; i < 2; i++ {
		var x *Node
		n := 0
		c.watchCrowd = func(y *Node, k *Key, parties party.IDSlice) { x, n = y, len(parties) }
		c.oneCrowd(sign, 0)
		if sign {
			w := c.sent1(x, tSG1)
			put(string(w[5:37]), fmt.Sprintf("D of one of %d in session %d", n, i))
			put(string(w[37:69]), fmt.Sprintf("E of one of %d in session %d", n, i))
			continue
		}
		w := c.sent1(x, tKG1)
		for j, s := range c.kg1Secrets(w, wDegree(w)) {
			put(s, fmt.Sprintf("secret %d of one of %d in session %d", j, n, i))
		}
	}
	c.Count("commitments compared", len(seen))
}

// immutableCrowd: a session among many leaves its inputs alone and its result is of its own.
func immutableCrowd(c *Case) {
	w := &watcher{c: c}
	var x *Node
	var key *Key
	var list party.IDSlice
	c.watchCrowd = func(y *Node, k *Key, parties party.IDSlice) {
		x, key, list = y, k, parties
		w.add("the list of parties", func() string { return fmt.Sprint([]party.ID(parties[:cap(parties)])) })
		if k != nil {
			w.add("the key material", k.public)
		}
	}
	c.oneCrowd(c.R.IntN(2) == 0, c.R.IntN(3)/2)
	c.Check(x.done(), "party %d has not ended", x.ID)
	w.lookAll(fmt.Sprintf("in a session of %d parties", len(list)))
	if x.St.Err() != nil {
		c.Count("sessions that abort", 1)
		return
	}
	c.Count("sessions that succeed", 1)
	in := reach(list)
	if key != nil {
		in = append(in, reach(key.Public, key.Secrets)...)
		c.Check(!overlap(in, reach(x.SG)), "the result of a session of %d parties shares memory with its inputs", len(list))
	} else {
		c.Check(!overlap(in, reach(x.KG)), "the result of a session of %d parties shares memory with its inputs", len(list))
	}
	c.Count("pairs of results compared", 1)
	c.Eval(1)
}

// public is the text of a key of which only some secrets are known.
func (k *Key) public() string {
	s := publicText(k.Public)
	for _, id := range k.IDs {
		if x := k.Secrets[id]; x != nil {
			s += " | " + shareText(x)
		}
	}
	return s
}

// crowdNumber is a number of parties from 50 to a thousand.
func (c *Case) crowdNumber() int {
	ns := []int{50, 64, 65, 99, 100, 101, 127, 128, 129, 192, 200, 255, 256, 257, 300}
	if c.Thoro {
		ns = append(ns, 511, 512, 513, 1000, 2000, 3000)
	}
	return ns[c.Idx/2%len(ns)]
}

// timedCrowd: the deadline of one party among many others, which send well-formed messages but not all.
func timedCrowd(c *Case) {
	sign := c.Idx%2 == 0
	n := c.crowdNumber()
	ids := c.ids(n)
	self := ids[c.R.IntN(n)]
	d := c.duration()
	var k *Key
	if sign {
		k = c.fastDeal(ids, 1+c.R.IntN(3), self)
	}
	pts := [][]byte{}
	for i := 0; i < 16; i++ {
		pts = append(pts, fastBase(fastScalar(c)).Bytes())
	}
	pt := func() []byte { return pts[c.R.IntN(len(pts))] }
	c.bubble(func() {
		var nd *Node
		if sign {
			nd = c.signNode(k, ids, self, c.message(), d)
		} else {
			nd = c.keygenNode(self, ids, 1, d)
		}
		x := &timed{c: c, n: nd, f: newFilter(self, ids, sign), d: d, base: time.Now(), deadline: time.Now().Add(d)}
		xs := []*timed{x}
		make1 := func(id party.ID, second bool) []byte {
			switch {
			case sign && second:
				return wire(tSG2, id, 0, fastScalar(c).Bytes())
			case sign:
				return wire(tSG1, id, 0, pt(), pt())
			case second:
				return wire(tKG2, id, self, fastScalar(c).Bytes())
			}
			return wire(tKG1, id, 0, fastScalar(c).Bytes(), fastScalar(c).Bytes(), be16(1), pt(), pt())
		}
		if c.R.IntN(2) == 0 {
			nd.step()
		}
		missing := map[bool]party.ID{}
		for _, s := range []bool{false, true} {
			for missing[s] == 0 || missing[s] == self {
				missing[s] = ids[c.R.IntN(n)]
			}
		}
		var ws [][]byte
		for _, id := range ids {
			for _, s := range []bool{false, true} {
				if id != self && id != missing[s] {
					ws = append(ws, make1(id, s))
				}
			}
		}
		order := c.R.Perm(len(ws))
		stall := len(ws) + 1
		if c.R.IntN(2) == 0 {
			stall = c.R.IntN(len(ws))
		}
		pause := func() {
			left := time.Until(x.deadline)
			if !x.active() || left < 3 {
				return
			}
			if c.R.IntN(3) == 0 {
				c.sleepTo(xs, x.deadline.Add(-1))
			} else {
				c.sleepTo(xs, time.Now().Add(time.Duration(c.R.Int64N(int64(left)-1))))
			}
		}
		for i, j := range order {
			if i == stall {
				break
			}
			slow := c.R.IntN(len(ws)) < 20
			if slow {
				pause()
			}
			x.give(c.mustDecode(ws[j]))
			if slow && x.active() {
				// repeated messages and those of others do not restart the time
				pause()
				w := ws[order[c.R.IntN(i+1)]]
				x.give(c.mustDecode(append(append([]byte{}, w[:5]...), make1(1, wType(w)%2 == 0)[5:]...)))
				if id := party.ID(1 + c.R.IntN(65535)); !inIDs(ids, id) {
					x.give(c.mustDecode(make1(id, c.R.IntN(2) == 0)))
				}
			}
			if c.R.IntN(20) == 0 {
				nd.step()
			}
			x.check()
		}
		if c.R.IntN(2) == 0 {
			nd.step()
		}
		for k := 0; k < 2 && x.active() && stall > 0; k++ {
			c.sleepTo(xs, time.Now().Add(time.Until(x.deadline)/2))
			x.give(c.mustDecode(ws[order[c.R.IntN(min(stall, len(ws)))]]))
			x.check()
		}
		c.sleepTo(xs, time.Now().Add(3*d+3))
		c.Check(x.expired, "harness: the model of party %d of %d has not expired", self, n)
		nd.step()
		x.check()
		c.Count("stalled crowds", 1)
		c.Seen("crowd", sign, fp(ids), self, d, stall)
		c.Sample(map[string]any{"parties": n, "self": self, "timeout": d.String(), "stall": stall})
	})
}

// fastDeal shares a key among many, of whom only self is given its share.
func (c *Case) fastDeal(ids party.IDSlice, t int, self party.ID) *Key {
	coef := make([]*sc, t+1)
	for i := range coef {
		coef[i] = fastScalar(c)
	}
	pubs := map[party.ID]*ristretto.Element{}
	k := &Key{IDs: ids, T: t, Secrets: map[party.ID]*eddsa.SecretShare{}}
	for _, id := range ids {
		s := fastPoly(coef, id.Scalar())
		pubs[id] = fastBase(s)
		if id == self {
			k.Secrets[id] = eddsa.NewSecretShare(id, s)
		}
	}
	var err error
	k.Public, err = eddsa.NewPublic(pubs, party.Size(t))
	c.Check(err == nil, "NewPublic refuses consistent shares: %v", err)
	return k
}

// outcomeCrowd: the outcome of a session among many does not change any more.
func outcomeCrowd(c *Case) {
	sign := c.R.IntN(2) == 0
	var x *Node
	n := 0
	c.watchCrowd = func(y *Node, k *Key, parties party.IDSlice) { x, n = y, len(parties) }
	if c.R.IntN(2) == 0 {
		c.crowdTimeout = time.Duration(1 + c.R.IntN(1_000_000_000))
	}
	c.bubble(func() {
		c.oneCrowd(sign, c.R.IntN(3)/2)
		m := &monitor{c: c, n: x, hist: fmt.Sprintf("one of %d ended ", n)}
		m.look("E")
		c.Check(m.last.fin, "party %d has not ended", x.ID)
		if m.last.err == "" {
			c.Count("ended: success", 1)
		} else {
			c.Count("ended: attributed abort", 1)
		}
		recv := x.Recv
		for k := 0; k < 8; k++ {
			switch c.R.IntN(4) {
			case 0:
				m.step()
			case 1:
				w := recv[c.R.IntN(len(recv))].Wire
				if c.R.IntN(2) == 0 {
					w, _ = c.spoil(w)
				}
				m.give(c.mustDecode(w), wireName(w))
			case 2:
				m.waiter()
				m.look("wait")
			case 3:
				time.Sleep(time.Duration(1 + c.R.IntN(2_000_000_000)))
				m.look("sleep")
			}
		}
		time.Sleep(2 * time.Second)
		m.look("elapse")
		c.Count("crowds followed after the end", 1)
	})
}
