package main

import (
	"bytes"
	"fmt"
	"sort"
	"testing/synctest"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
)

// ---- values of inputs and outputs ----

func publicText(p *eddsa.Public) string {
	if p == nil {
		return "nil"
	}
	s := fmt.Sprintf("%v t=%d", []party.ID(p.PartyIDs), p.Threshold)
	if p.GroupKey != nil {
		s += fmt.Sprintf(" %x", p.GroupKey.ToEd25519())
	}
	ids := party.IDSlice{}
	for id := range p.Shares {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		s += fmt.Sprintf(" %d:%x", id, p.Shares[id].Bytes())
	}
	return s
}

func shareText(s *eddsa.SecretShare) string {
	if s == nil {
		return "nil"
	}
	return fmt.Sprintf("%d %x %x", s.ID, s.Secret.Bytes(), s.Public.Bytes())
}

func (k *Key) text() string {
	s := publicText(k.Public)
	for _, id := range k.IDs {
		s += " | " + shareText(k.Secrets[id])
	}
	return s
}

// padded returns a copy of b followed, beyond its length, by a marker.
func padded[T any](b []T, mark T) []T {
	out := make([]T, len(b), len(b)+6)
	copy(out, b)
	for i := len(b); i < cap(out); i++ {
		out[:cap(out)][i] = mark
	}
	return out
}

// watch is something that must keep its value.
type watch struct {
	what string
	was  string
	read func() string
}

type watcher struct {
	c  *Case
	ws []watch
}

func (w *watcher) add(what string, read func() string) {
	w.ws = append(w.ws, watch{what, read(), read})
}

// look compares all values, or some of them where there are very many.
func (w *watcher) look(when string) {
	ws := w.ws
	if w.c.forced > 0 && len(ws) > 24 {
		i := w.c.R.IntN(len(ws) - 20)
		ws = append(append([]watch{}, ws[:4]...), ws[i:i+20]...)
	}
	w.compare(ws, when)
}

func (w *watcher) lookAll(when string) { w.compare(w.ws, when) }

func (w *watcher) compare(ws []watch, when string) {
	for _, x := range ws {
		if s := x.read(); s != x.was {
			w.c.Fail("%s changes %s: from %s to %s", x.what, when, clip(x.was, 300), clip(s, 300))
		}
	}
	w.c.Count("values compared with their snapshot", len(ws))
	w.c.Eval(len(ws))
}

func msgText(m *messages.Message) string {
	b, err := m.MarshalBinary()
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("%x", b)
}

// immutable runs all parties of one or two sessions, exchanging messages by reference, and
// compares inputs, messages and outputs after every call.
func immutable(c *Case) {
	sign := c.Idx%2 == 0
	n := c.few()
	ids := c.ids(n)
	t := c.t(n)
	end := []string{"success", "abort", "timeout"}[c.Idx/2%3]
	var k *Key
	list := padded(ids, 0xabcd)
	signers := party.IDSlice(list)
	msg := padded(c.message(), 0xee)
	if sign {
		k = c.key(ids, t)
		signers = padded(c.subset(ids, c.signers(n, t)), 0xabcd)
	}
	sessions := 1 + c.R.IntN(2)
	if len(signers) > 12 {
		sessions = 1
	}
	c.bubble(func() {
		w := &watcher{c: c}
		w.add("the list of parties", func() string { return fmt.Sprint([]party.ID(signers[:cap(signers)])) })
		w.add("the message to sign", func() string { return fmt.Sprintf("%x", msg[:cap(msg)]) })
		if sign {
			w.add("the key material", k.text)
			w.add("the list of parties of the key", func() string { return fmt.Sprint([]party.ID(k.Public.PartyIDs[:cap(k.Public.PartyIDs)])) })
		}
		type env struct {
			to *Node
			m  *messages.Message
			s  int
		}
		var pend []env
		var nodes []*Node
		by := map[*Node]int{}
		seeds := map[*Node][32]byte{}
		fin := map[*Node]bool{}
		in := map[*Node][][]byte{}
		delivered := map[*messages.Message]bool{}
		for s := 0; s < sessions; s++ {
			for _, id := range signers {
				var x *Node
				if sign {
					x = c.signNode(k, signers, id, msg, time.Second)
				} else {
					x = c.keygenNode(id, signers, t, time.Second)
				}
				seeds[x] = c.seed32()
				x.Rand = newDRBG(seeds[x])
				by[x] = s
				nodes = append(nodes, x)
				pend = append(pend, env{x, nil, s})
			}
		}
		w.look("when sessions are created")
		events := 0
		spoilt := false
		stop := -1
		if end == "timeout" {
			stop = c.R.IntN(len(nodes) * (len(nodes) + 1))
		}
		after := func(x *Node, what string) {
			w.look(what)
			if x.done() && !fin[x] {
				fin[x] = true
				if x.SG != nil && x.SG.Signature != nil {
					sg := x.SG.Signature
					w.add(fmt.Sprintf("the signature returned to party %d", x.ID), func() string { return fmt.Sprintf("%x", sg.ToEd25519()) })
				}
				if x.KG != nil && x.KG.Public != nil {
					p, sk := x.KG.Public, x.KG.SecretKey
					w.add(fmt.Sprintf("the public output of party %d", x.ID), func() string { return publicText(p) })
					w.add(fmt.Sprintf("the secret output of party %d", x.ID), func() string { return shareText(sk) })
				}
			}
		}
		for len(pend) > 0 {
			i := c.R.IntN(len(pend))
			e := pend[i]
			pend[i] = pend[len(pend)-1]
			pend = pend[:len(pend)-1]
			events++
			if stop >= 0 && events > stop {
				break
			}
			x := e.to
			if e.m != nil {
				b, _ := e.m.MarshalBinary()
				in[x] = append(in[x], b)
				delivered[e.m] = true
				_ = x.St.HandleMessage(e.m)
				after(x, fmt.Sprintf("when party %d handles %s", x.ID, wireName(b)))
			}
			for _, m := range x.stepMsgs() {
				m := m
				b, err := m.MarshalBinary()
				c.Check(err == nil, "party %d emits a message that cannot be encoded: %v", x.ID, err)
				x.Sent = append(x.Sent, b)
				if int(m.Type) != tKG2 {
					w.add(fmt.Sprintf("the message %s", wireName(b)), func() string { return msgText(m) })
				} else {
					// its content is consumed by the addressee
					w.add(fmt.Sprintf("the header of %s", wireName(b)), func() string { return fmt.Sprint(m.Type, m.From, m.To) })
				}
				out := m
				if end == "abort" && !spoilt && c.R.IntN(3) == 0 {
					spoilt = true
					sb, _ := c.spoil(b)
					out = c.mustDecode(sb)
					if int(m.Type) != tKG2 {
						w.add("the spoilt message", func() string { return msgText(out) })
					}
				}
				if int(m.Type) == tKG2 && out == m {
					// until it is delivered it must not change either
					mm, was := m, msgText(m)
					w.add(fmt.Sprintf("the message %s, not delivered yet,", wireName(b)), func() string {
						if delivered[mm] {
							return was
						}
						return msgText(mm)
					})
					for _, y := range nodes {
						if by[y] == by[x] && y.ID == m.To {
							pend = append(pend, env{y, mm, e.s})
						}
					}
					kept := messages.NewKeyGen2(m.From, m.To, &m.KeyGen2.Share)
					c.Check(msgText(kept) == was, "a share message encodes differently from an equal one")
					continue
				}
				for _, y := range nodes {
					if by[y] == by[x] && (m.To == 0 || m.To == y.ID || c.R.IntN(3) == 0) {
						pend = append(pend, env{y, out, e.s})
						if c.R.IntN(5) == 0 {
							pend = append(pend, env{y, out, e.s})
						}
					}
				}
			}
			after(x, fmt.Sprintf("when party %d processes", x.ID))
		}
		if end == "timeout" || end == "abort" {
			time.Sleep(2 * time.Second)
			synctest.Wait()
			for _, x := range nodes {
				after(x, fmt.Sprintf("when the timeout of party %d elapses", x.ID))
			}
		}
		w.lookAll("in the course of the session")
		for _, x := range nodes {
			c.Check(x.done() || end != "success", "party %d has not ended", x.ID)
			if end == "success" {
				c.Check(x.St.Err() == nil, "party %d fails: %v", x.ID, x.St.Err())
			}
			if x.done() && x.St.Err() == nil {
				c.Count("sessions that succeed", 1)
			} else {
				c.Count("sessions that abort", 1)
			}
		}
		// later use does not change earlier results
		if sign {
			cp := c.signNodes(k, signers, []byte("later"), 0)
			c.run(cp, plan{strategy: "random"})
		} else {
			for _, x := range nodes {
				if x.KG.Public == nil {
					continue
				}
				k2 := &Key{IDs: ids, T: t, Public: x.KG.Public, Secrets: map[party.ID]*eddsa.SecretShare{}}
				for _, y := range nodes {
					if by[y] == by[x] && y.KG.SecretKey != nil {
						k2.Secrets[y.ID] = y.KG.SecretKey
					}
				}
				if len(k2.Secrets) == n {
					cp := c.signNodes(k2, ids, []byte("later"), 0)
					c.run(cp, plan{strategy: "random"})
					for _, z := range cp {
						c.Check(z.SG.Signature != nil, "the new key does not sign: %v", z.St.Err())
					}
				}
				break
			}
		}
		w.lookAll("when the key is used again")
		// by wire instead of by reference: the same result
		for _, x := range nodes {
			var y *Node
			if sign {
				y = c.signNode(k, signers, x.ID, msg, 0)
			} else {
				y = c.keygenNode(x.ID, signers, t, 0)
			}
			if !x.done() || (x.stateErr() != nil && x.stateErr().PartyID == 0) {
				continue
			}
			y.Rand = newDRBG(seeds[x])
			y.step()
			for _, b := range in[x] {
				if len(y.Sent) == len(x.Sent) && y.done() {
					break
				}
				_ = y.handle(b)
				y.step()
			}
			c.Check(bytes.Equal(c.result(x), c.result(y)), "party %d obtains another result (%x) with messages by reference than with their encodings (%x)", x.ID, clip(string(c.result(x)), 40), clip(string(c.result(y)), 40))
			c.Check(fmt.Sprint(x.St.Err()) == fmt.Sprint(y.St.Err()), "party %d: by reference %v, by encodings %v", x.ID, x.St.Err(), y.St.Err())
			c.Count("results compared with those of encoded messages", 1)
			c.Eval(1)
		}
		// results share no memory
		var mem [][]span
		var who []string
		for _, x := range nodes {
			if x.done() && x.St.Err() == nil {
				if x.SG != nil {
					mem = append(mem, reach(x.SG))
				} else {
					mem = append(mem, reach(x.KG))
				}
				who = append(who, fmt.Sprintf("party %d, session %d", x.ID, by[x]))
			}
		}
		if sign {
			mem, who = append(mem, reach(k.Public, k.Secrets, signers, msg)), append(who, "the inputs")
		} else {
			mem, who = append(mem, reach(signers)), append(who, "the inputs")
		}
		for i := range mem {
			for j := range mem[:i] {
				c.Check(!overlap(mem[i], mem[j]), "the results of %s and %s share memory", who[i], who[j])
				c.Count("pairs of results compared", 1)
				c.Eval(1)
			}
		}
		if !sign {
			// changing one result changes no other and no input
			for _, x := range nodes {
				if x.KG.Public == nil || c.R.IntN(2) == 0 {
					continue
				}
				others := &watcher{c: c}
				for _, y := range nodes {
					if y != x && y.KG.Public != nil {
						y := y
						others.add(fmt.Sprintf("the result of party %d", y.ID), func() string { return publicText(y.KG.Public) + shareText(y.KG.SecretKey) })
					}
				}
				others.add("the list of parties", func() string { return fmt.Sprint([]party.ID(signers[:cap(signers)])) })
				p := x.KG.Public
				for i := range p.PartyIDs {
					p.PartyIDs[i] += 7
				}
				for _, e := range p.Shares {
					e.Add(e, e)
				}
				x.KG.SecretKey.Secret.Add(&x.KG.SecretKey.Secret, &x.KG.SecretKey.Secret)
				x.KG.SecretKey.Public.Add(&x.KG.SecretKey.Public, &x.KG.SecretKey.Public)
				others.look(fmt.Sprintf("when the result of party %d is altered", x.ID))
				break
			}
		}
		c.Count("events", events)
		c.Seen(sign, fp(signers), t, end, sessions, events, in)
		c.Sample(map[string]any{"parties": fp(signers), "sessions": sessions, "end": end, "events": events, "watched": len(w.ws)})
	})
}

func overlap(a, b []span) bool {
	for _, x := range a {
		for _, y := range b {
			if x.lo < y.hi && y.lo < x.hi {
				return true
			}
		}
	}
	return false
}

// refusedInputs: creating sessions that are refused does not alter the inputs either.
func refusedInputs(c *Case) {
	n := c.few()
	ids := c.ids(n)
	t := c.t(n)
	k := c.key(ids, t)
	list := party.IDSlice(padded(c.messyList(ids), 0xabcd))
	w := &watcher{c: c}
	w.add("the list of parties", func() string { return fmt.Sprint([]party.ID(list[:cap(list)])) })
	w.add("the key material", k.text)
	for _, id := range ids {
		_, _, err1 := frost.NewKeygenState(id, list, party.Size(c.R.IntN(n+2)), 0)
		_, _, err2 := frost.NewSignState(list, k.Secrets[id], k.Public, nil, 0)
		w.look("when sessions are created")
		if err1 != nil {
			c.Count("configurations refused", 1)
		}
		if err2 != nil {
			c.Count("configurations refused", 1)
		}
	}
	c.Seen("refused", fmt.Sprint([]party.ID(list)), t)
}

// messyList makes a list from ids that need not be sorted, distinct or non-zero.
func (c *Case) messyList(ids party.IDSlice) []party.ID {
	out := append([]party.ID{}, ids...)
	for k := c.R.IntN(4); k > 0; k-- {
		switch c.R.IntN(6) {
		case 0:
			i, j := c.R.IntN(len(out)), c.R.IntN(len(out))
			out[i], out[j] = out[j], out[i]
		case 1:
			out = append(out, out[c.R.IntN(len(out))])
		case 2:
			out[c.R.IntN(len(out))] = 0
		case 3:
			out = append(out, party.ID(c.R.IntN(65536)))
		case 4:
			if len(out) > 1 {
				out = out[1:]
			}
		case 5:
			out[c.R.IntN(len(out))] = party.ID(c.R.IntN(65536))
		}
	}
	return out
}

func init() {
	register(&Prop{ID: "C18", Bubble: true, Rule: "an execution counts if inputs, emitted messages and outputs were compared with their snapshots after every call; distinct by protocol, parties, end and delivered messages",
		Parts: []Part{
			{Name: "sessions", Quick: 1200, Thorough: 100000, Fn: immutable},
			{Name: "sizes", Quick: 58, Thorough: 10000, Fn: allSizes(immutable)},
			{Name: "crowds", Quick: 192, Thorough: 20000, Fn: immutableCrowd},
			{Name: "refused", Quick: 400, Thorough: 40000, Fn: refusedInputs},
		},
		Least: map[string]int64{"sessions that succeed": 1000, "sessions that abort": 500, "results compared with those of encoded messages": 1500, "pairs of results compared": 1000, "values compared with their snapshot": 100000},
	})
}
