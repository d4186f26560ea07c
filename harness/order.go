package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// A recorded session: per-party randomness is fixed, so that any party can be run again
// against the recorded messages of the others.
type record4 struct {
	ids   party.IDSlice
	t     int
	sign  bool
	k     *Key
	msg   []byte
	seeds map[party.ID][32]byte
	wires [][]byte
	out   map[party.ID][]byte
	in    map[party.ID][][]byte
	sent  map[party.ID][][]byte
}

func (c *Case) seed32() (s [32]byte) { copy(s[:], c.Bytes(32)); return }

// result encodes everything observable of a finished node.
func (c *Case) result(n *Node) []byte {
	if !n.done() {
		return []byte("unfinished")
	}
	if e := n.St.Err(); e != nil {
		return []byte("error")
	}
	if n.SG != nil {
		if n.SG.Signature == nil {
			return []byte("no signature")
		}
		return n.SG.Signature.ToEd25519()
	}
	if n.KG.Public == nil || n.KG.SecretKey == nil {
		return []byte("no output")
	}
	var b bytes.Buffer
	b.Write(n.KG.Public.GroupKey.ToEd25519())
	for _, id := range n.KG.Public.PartyIDs {
		b.Write(be16(id))
		b.Write(n.KG.Public.Shares[id].Bytes())
	}
	b.Write(be16(n.KG.Public.Threshold))
	b.Write(be16(n.KG.SecretKey.ID))
	b.Write(n.KG.SecretKey.Secret.Bytes())
	b.Write(n.KG.SecretKey.Public.Bytes())
	return b.Bytes()
}

func (c *Case) fresh(r *record4, id party.ID) *Node { return c.freshT(r, id, 0) }

func (c *Case) freshT(r *record4, id party.ID, timeout time.Duration) *Node {
	var n *Node
	if r.sign {
		n = c.signNode(r.k, r.ids, id, r.msg, timeout)
	} else {
		n = c.keygenNode(id, r.ids, r.t, timeout)
	}
	n.Rand = newDRBG(r.seeds[id])
	return n
}

// recordSession runs a session in order and records it.
func (c *Case) recordSession(n, t int, sign bool) *record4 {
	ids := c.ids(n)
	r := &record4{ids: ids, t: t, sign: sign, seeds: map[party.ID][32]byte{}, out: map[party.ID][]byte{}, in: map[party.ID][][]byte{}, sent: map[party.ID][][]byte{}}
	if sign {
		r.k = c.refDeal(ids, t)
		r.ids = c.subset(ids, c.signers(n, t))
		r.msg = c.message()
	}
	var ns []*Node
	for _, id := range r.ids {
		r.seeds[id] = c.seed32()
		ns = append(ns, c.fresh(r, id))
	}
	c.run(ns, plan{strategy: "fifo"})
	for _, x := range ns {
		r.out[x.ID] = c.result(x)
		c.Check(x.done() && x.St.Err() == nil, "party %d of an in-order session: finished=%v, %v", x.ID, x.done(), x.St.Err())
		r.sent[x.ID] = x.Sent
		r.wires = append(r.wires, x.Sent...)
		c.emissions(x, r.ids, sign)
	}
	for _, x := range ns {
		for _, w := range r.wires {
			if wFrom(w) != x.ID && (wTo(w) == 0 || wTo(w) == x.ID) {
				r.in[x.ID] = append(r.in[x.ID], w)
			}
		}
	}
	return r
}

// emissions checks that a finished party has emitted each of its messages exactly once.
func (c *Case) emissions(x *Node, ids party.IDSlice, sign bool) {
	seen := map[string]int{}
	for _, w := range x.Sent {
		c.Check(wFrom(w) == x.ID, "party %d emits a message in the name of %d", x.ID, wFrom(w))
		seen[fmt.Sprintf("%d>%d", wType(w), wTo(w))]++
	}
	want := map[string]bool{}
	if sign {
		want["3>0"], want["4>0"] = true, true
	} else {
		want["1>0"] = true
		for _, id := range ids {
			if id != x.ID {
				want[fmt.Sprintf("2>%d", id)] = true
			}
		}
	}
	for k := range want {
		c.Check(seen[k] == 1, "party %d emits message type>addressee %s %d times", x.ID, k, seen[k])
	}
	for k := range seen {
		c.Check(want[k], "party %d emits an unexpected message %s", x.ID, k)
	}
	c.Eval(1)
}

// filter is the reference model of message acceptance of one party.
type filter struct {
	self     party.ID
	ids      party.IDSlice
	types    [2]int
	accepted map[string]bool
}

func newFilter(self party.ID, ids party.IDSlice, sign bool) *filter {
	f := &filter{self: self, ids: ids, types: [2]int{tKG1, tKG2}, accepted: map[string]bool{}}
	if sign {
		f.types = [2]int{tSG1, tSG2}
	}
	return f
}

const (
	accept = iota
	ignore
	refuse
	unclear
)

// expect predicts the result of handing over a message to an unfinished session.
func (f *filter) expect(typ int, from, to party.ID) (int, string) {
	known := typ == f.types[0] || typ == f.types[1]
	if from == f.self {
		if !known {
			return unclear, ""
		}
		return ignore, "its own message"
	}
	if to != 0 && to != f.self {
		if !known || !inIDs(f.ids, from) {
			return unclear, ""
		}
		return ignore, "a message for somebody else"
	}
	if !inIDs(f.ids, from) {
		return refuse, "a message of a non-participant"
	}
	if !known {
		return refuse, "a message of another protocol"
	}
	if f.accepted[fmt.Sprintf("%d<%d", typ, from)] {
		return refuse, "a repeated message"
	}
	return accept, "a first message"
}

func inIDs(ids party.IDSlice, id party.ID) bool {
	for _, x := range ids {
		if x == id {
			return true
		}
	}
	return false
}

// offer hands a message to a node and compares with the model.
func (c *Case) offer(f *filter, x *Node, m *messages.Message) error {
	done := x.done()
	err := x.St.HandleMessage(m)
	c.Count("HandleMessage calls", 1)
	c.refusal(err, x.ID, m.From)
	typ, from, to := int(m.Type), m.From, m.To
	if done {
		c.Check(err != nil, "party %d has ended, but takes a message (type %d from %d)", x.ID, typ, from)
		return err
	}
	want, what := f.expect(typ, from, to)
	switch want {
	case accept:
		c.Check(err == nil, "party %d refuses %s (type %d from %d to %d): %v", x.ID, what, typ, from, to, err)
		f.accepted[fmt.Sprintf("%d<%d", typ, from)] = true
	case ignore:
		c.Check(err == nil, "party %d does not ignore %s (type %d from %d to %d): %v", x.ID, what, typ, from, to, err)
	case refuse:
		c.Check(err != nil, "party %d accepts %s (type %d from %d to %d)", x.ID, what, typ, from, to)
	}
	c.Count("offered: "+strings.TrimPrefix(strings.TrimPrefix(what, "a "), "its "), 1)
	c.Eval(1)
	return err
}

// noise makes a stray message for party x; nil if the drawn kind is not available.
func (c *Case) noise(r *record4, f *filter, x party.ID, delivered [][]byte) *messages.Message {
	others := party.IDSlice{}
	for _, id := range r.ids {
		if id != x {
			others = append(others, id)
		}
	}
	content := func(typ int, from, to party.ID) *messages.Message {
		switch typ {
		case tKG1:
			deg := r.t
			if c.R.IntN(4) == 0 {
				deg = c.R.IntN(r.t + 3)
			}
			var cs []*ref.Point
			for i := 0; i <= deg; i++ {
				cs = append(cs, ref.MulBase(c.scalar()))
			}
			return c.mustDecode(kg1Wire(from, c.scalar(), c.scalar(), cs))
		case tKG2:
			return c.mustDecode(wire(tKG2, from, to, ref.ToLE(c.scalar())))
		case tSG1:
			return c.mustDecode(wire(tSG1, from, 0, ref.MulBase(c.scalar()).Encode(), ref.MulBase(c.scalar()).Encode()))
		}
		return c.mustDecode(wire(tSG2, from, 0, ref.ToLE(c.scalar())))
	}
	own := f.types[c.R.IntN(2)]
	switch c.R.IntN(8) {
	case 0: // an exact duplicate
		if len(delivered) > 0 {
			return c.mustDecode(delivered[c.R.IntN(len(delivered))])
		}
	case 1: // same sender and type, other content
		if len(delivered) > 0 {
			w := delivered[c.R.IntN(len(delivered))]
			return content(wType(w), wFrom(w), x)
		}
	case 2: // its own messages, recorded or made up
		if c.R.IntN(2) == 0 {
			return c.mustDecode(r.sent[x][c.R.IntN(len(r.sent[x]))])
		}
		return content(own, x, others[c.R.IntN(len(others))])
	case 3: // for somebody else
		if !r.sign {
			to := party.ID(1 + c.R.IntN(65535))
			if c.R.IntN(2) == 0 {
				to = others[c.R.IntN(len(others))]
			}
			if to != x {
				return content(tKG2, others[c.R.IntN(len(others))], to)
			}
		}
	case 4, 5: // a non-participant, often with an ID next to a participant's
		from := party.ID(1 + c.R.IntN(65535))
		if c.R.IntN(2) == 0 {
			from = r.ids[c.R.IntN(len(r.ids))] + 1 - 2*party.ID(c.R.IntN(2))
		}
		if c.R.IntN(6) == 0 {
			from = r.ids[c.R.IntN(len(r.ids))]
			from = from<<8 | from>>8
		}
		if from != 0 && !inIDs(r.ids, from) {
			return content(own, from, x)
		}
	case 6: // of the other protocol
		typ := []int{tKG1, tKG2, tSG1, tSG2}[c.R.IntN(4)]
		if typ != f.types[0] && typ != f.types[1] {
			return content(typ, others[c.R.IntN(len(others))], x)
		}
	case 7: // of no protocol
		m := content(own, others[c.R.IntN(len(others))], x)
		m.Type = []messages.MessageType{0, 5, 6, 255}[c.R.IntN(4)]
		return m
	}
	return nil
}

// single runs party x of a recorded session alone: incoming messages in the given order,
// the first ProcessAll before position start, noise as drawn.
func (c *Case) single(r *record4, x party.ID, order []int, start int, noisy bool) {
	n := c.fresh(r, x)
	f := newFilter(x, r.ids, r.sign)
	var delivered [][]byte
	sig := ""
	for i := 0; i <= len(order); i++ {
		if i == start {
			n.step()
			sig += "S "
		}
		if noisy {
			for k := c.R.IntN(3); k > 0; k-- {
				if m := c.noise(r, f, x, delivered); m != nil {
					c.offer(f, n, m)
					if c.R.IntN(2) == 0 {
						n.step()
					}
					sig += fmt.Sprintf("~%d<%d>%d ", m.Type, m.From, m.To)
				}
			}
		}
		if i == len(order) {
			break
		}
		c.Check(!n.done(), "party %d ends (%v) before all messages were delivered", x, n.St.Err())
		w := r.in[x][order[i]]
		err := c.offer(f, n, c.mustDecode(w))
		c.Check(err == nil, "party %d refuses %s: %v", x, wireName(w), err)
		delivered = append(delivered, w)
		if noisy && c.R.IntN(2) == 0 {
			// repeated, often with another content, before it is processed
			d := w
			if p := r.in[x][c.R.IntN(len(order))]; wType(p) == wType(w) && c.R.IntN(2) == 0 {
				d = append(append([]byte{}, w[:5]...), p[5:]...)
			} else if c.R.IntN(2) == 0 {
				if m, _ := c.spoil(w); m != nil && wType(m) == wType(w) && wFrom(m) == wFrom(w) && wTo(m) == wTo(w) {
					d = m
				}
			}
			c.offer(f, n, c.mustDecode(d))
			sig += "~again "
		}
		n.step()
		sig += wireName(w) + " "
	}
	c.finished4(r, n, sig)
	// what it sent is what it sends in order
	c.sameWires(r, n)
	c.Count("single-party histories", 1)
	c.Seen("1", r.sign, fp(r.ids), x, sig)
	c.Sample(map[string]any{"party": x, "ids": fp(r.ids), "history": clip(sig, 300)})
}

func (c *Case) sameWires(r *record4, n *Node) {
	c.Check(len(n.Sent) == len(r.sent[n.ID]), "party %d emits %d messages, %d when run in order", n.ID, len(n.Sent), len(r.sent[n.ID]))
	a, b := map[string]int{}, map[string]int{}
	for i := range n.Sent {
		a[string(n.Sent[i])]++
		b[string(r.sent[n.ID][i])]++
	}
	for k, v := range a {
		c.Check(b[k] == v, "party %d emits other messages than when run in order (%s)", n.ID, wireName([]byte(k)))
	}
}

func (c *Case) finished4(r *record4, n *Node, hist string) {
	c.Check(n.done(), "party %d has not finished although all messages were delivered: %s", n.ID, clip(hist, 400))
	c.Check(n.St.Err() == nil, "party %d fails: %v after %s", n.ID, n.St.Err(), clip(hist, 400))
	c.Check(bytes.Equal(c.result(n), r.out[n.ID]), "party %d ends with another result than after in-order delivery: %s", n.ID, clip(hist, 400))
	c.emissions(n, r.ids, r.sign)
	c.Eval(1)
}

// nthPerm is the i-th permutation of k elements.
func nthPerm(k, i int) []int {
	var rest, out []int
	for j := 0; j < k; j++ {
		rest = append(rest, j)
	}
	f := 1
	for j := 2; j < k; j++ {
		f *= j
	}
	for j := k - 1; j >= 0; j-- {
		q := i / f
		i %= f
		out = append(out, rest[q])
		rest = append(rest[:q], rest[q+1:]...)
		if j > 0 {
			f /= j
		}
	}
	return out
}

// queued4: a party of a larger session is given all messages of the second round before the
// first one ends, and again, altered, one duplicate for each of them, at every stage.
func queued4(c *Case) {
	sign := c.Idx%2 == 0
	n := 10 + c.R.IntN(24)
	if c.Idx%8 == 7 {
		n = 60 + c.R.IntN(20)
	}
	t := 1 + c.R.IntN(3)
	r := c.recordSession(n, t, sign)
	x := r.ids[c.R.IntN(len(r.ids))]
	nd := c.fresh(r, x)
	f := newFilter(x, r.ids, sign)
	var one, two [][]byte
	for _, i := range c.R.Perm(len(r.in[x])) {
		if w := r.in[x][i]; wType(w) == f.types[0] {
			one = append(one, w)
		} else {
			two = append(two, w)
		}
	}
	started := false
	again := func(ws [][]byte) {
		for _, i := range c.R.Perm(len(ws)) {
			w := append([]byte{}, ws[i]...)
			if c.R.IntN(2) == 0 {
				w = append([]byte{}, ws[(i+1)%len(ws)]...) // the content of another one
				copy(w, ws[i][:5])
			}
			c.offer(f, nd, c.mustDecode(w))
			if c.R.IntN(10) == 0 {
				ms := nd.step()
				c.Check(len(ms) == 0 || !started, "party %d emits messages after a duplicate", x)
				started = true
			}
		}
		c.Count("duplicates of many stored messages", len(ws))
	}
	if c.R.IntN(2) == 0 {
		nd.step()
		started = true
	}
	k := c.R.IntN(len(one)) // so many first
	for _, w := range one[:k] {
		c.offer(f, nd, c.mustDecode(w))
	}
	for i, w := range two {
		c.offer(f, nd, c.mustDecode(w))
		if c.R.IntN(8) == 0 {
			again(two[:i+1])
		}
	}
	nd.step()
	started = true
	again(two)
	if k > 0 {
		again(one[:k])
	}
	for i, w := range one[k:] {
		again(one[:k+i][max(0, k+i-2):])
		if i == len(one)-k-1 {
			again(two)
		}
		c.offer(f, nd, c.mustDecode(w))
	}
	nd.step()
	c.finished4(r, nd, "second round first")
	c.sameWires(r, nd)
	c.Count("sessions with many stored messages", 1)
	c.Seen("q", sign, fp(r.ids), x, k)
}

func init() {
	fact := map[int]int{2: 2, 4: 24, 6: 720}
	// all orders of the 2(m-1) incoming messages, all positions of the first step
	perms := func(m int, sign bool) func(c *Case) {
		return func(c *Case) {
			k := 2 * (m - 1)
			t := 1 + c.R.IntN(m-1)
			if sign {
				t = m - 1
			}
			r := c.recordSession(m, t, sign)
			i := c.Idx % (fact[k] * (k + 1))
			c.single(r, r.ids[c.R.IntN(m)], nthPerm(k, i%fact[k]), i/fact[k], (c.Idx/(fact[k]*(k+1)))%2 == 1)
		}
	}
	register(&Prop{
		ID:   "C04",
		Rule: "All orders of the incoming messages of one party of 2- and 3-party sessions of both protocols, with its first step at every position, without and with strays; random orders for larger sessions; and whole networks under seven strategies with strays injected. Results and emitted messages must equal those of an in-order run with the same randomness; every HandleMessage result is compared with a model of the message filter. Distinct by (IDs, party, history).",
		Parts: []Part{
			{"perm2 keygen", 48, 12, perms(2, false)},
			{"perm2 sign", 48, 12, perms(2, true)},
			{"perm3 keygen", 240, 2400, perms(3, false)},
			{"perm3 sign", 240, 2400, perms(3, true)},
			{"perm4 keygen", 300, 10080, perms(4, false)},
			{"perm4 sign", 300, 10080, perms(4, true)},
			{"single", 1200, 20000, func(c *Case) {
				sign := c.R.IntN(2) == 0
				n := c.size(2, 9)
				r := c.recordSession(n, c.t(n), sign)
				for rep := 0; rep < 3; rep++ {
					x := r.ids[c.R.IntN(len(r.ids))]
					k := len(r.in[x])
					order := c.R.Perm(k)
					if c.R.IntN(3) == 0 { // second-round messages first
						order = order[:0]
						for i := 0; i < k; i++ {
							if wType(r.in[x][i])%2 == 0 {
								order = append(order, i)
							}
						}
						for i := 0; i < k; i++ {
							if wType(r.in[x][i])%2 == 1 {
								order = append(order, i)
							}
						}
					}
					c.single(r, x, order, c.R.IntN(k+1), c.R.IntN(4) != 0)
				}
			}},
			{"network", 700, 12000, network4},
			{"network sizes", 29, 3000, allSizes(network4)},
			{"queued", 64, 2000, queued4},
			{"crowd sign", 8, 100, func(c *Case) { crowdSign(c, 0) }},
			{"sizes sign", 192, 5000, func(c *Case) { n, t := c.sweep(); crowdSignN(c, n, t, 0) }},
			{"crowd keygen", 8, 100, func(c *Case) { crowdKeygen(c, 0) }},
			{"sizes keygen", 192, 5000, func(c *Case) { n, t := c.sweep(); crowdKeygenN(c, n, t, 0) }},
		},
		Least: map[string]int64{"single-party histories": 1500, "network histories": 300, "offered: repeated message": 1000, "offered: message of a non-participant": 1000, "offered: own message": 500, "offered: message of another protocol": 500, "offered: message for somebody else": 300, "sessions with many stored messages": 60},
	})
	_ = big.NewInt
	_ = ristretto.NewScalar
}

// network4 runs a whole recorded session again in another order, with strays.
func network4(c *Case) {
	sign := c.R.IntN(2) == 0
	n := c.size(2, 8)
	r := c.recordSession(n, c.t(n), sign)
	var ns []*Node
	fs := map[party.ID]*filter{}
	got := map[party.ID][][]byte{}
	for _, id := range r.ids {
		ns = append(ns, c.fresh(r, id))
		fs[id] = newFilter(id, r.ids, sign)
	}
	p := c.plan(ns)
	p.batch = false
	p.onEvent = func(x *Node, w []byte, err error) {
		f := fs[x.ID]
		if w != nil && wFrom(w) != x.ID && (wTo(w) == 0 || wTo(w) == x.ID) {
			c.Check(err == nil, "party %d refuses %s: %v", x.ID, wireName(w), err)
			f.accepted[fmt.Sprintf("%d<%d", wType(w), wFrom(w))] = true
			got[x.ID] = append(got[x.ID], w)
		} else if w != nil && !x.done() {
			c.Check(err == nil, "party %d does not ignore %s: %v", x.ID, wireName(w), err)
		}
		if c.R.IntN(3) == 0 {
			if m := c.noise(r, f, x.ID, got[x.ID]); m != nil {
				c.offer(f, x, m)
			}
			if c.R.IntN(2) == 0 {
				c.Check(len(x.step()) == 0, "party %d emits messages after a stray", x.ID)
			}
		}
	}
	sched := c.run(ns, p)
	for _, x := range ns {
		c.finished4(r, x, sched)
		c.sameWires(r, x)
	}
	c.Count("network histories", 1)
	c.Count("strategy "+p.strategy, 1)
	c.Seen("net", sign, fp(r.ids), sched)
}
