package main

import (
	"bytes"
	"errors"
	"fmt"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// C25: the batch driver helpers.PartyRoutine.

// routine calls PartyRoutine on copies of the wires. The copies are overwritten afterwards,
// so that a result that depends on them shows up later.
func (n *Node) routine(batch [][]byte) ([][]byte, error) {
	c := n.c
	in := make([][]byte, len(batch))
	for i := range batch {
		in[i] = append([]byte{}, batch[i]...)
	}
	if len(in) == 0 && c.R.IntN(2) == 0 {
		in = nil
	}
	was := n.done()
	out, err := func() ([][]byte, error) {
		defer n.swap()()
		return helpers.PartyRoutine(in, n.St)
	}()
	c.Count("batches", 1)
	c.Count("messages in batches", len(batch))
	for i := range batch {
		c.Check(bytes.Equal(in[i], batch[i]), "the driver alters the messages given to it")
		for j := range in[i] {
			in[i][j] = ^in[i][j]
		}
	}
	if err != nil {
		c.Check(len(out) == 0, "the driver returns %d messages together with the error %v", len(out), err)
		c.Count("batches refused", 1)
	} else {
		c.Check(!n.done() || n.St.Err() == nil, "the driver reports no error although the session of party %d ended with %v", n.ID, n.St.Err())
		c.Check(!was || len(batch) == 0, "the driver reports no error for %d messages to a finished session", len(batch))
		c.Check(!was || len(out) == 0, "the driver returns messages of a finished session")
	}
	for i := range c.held {
		c.Check(bytes.Equal(c.held[i].ret, c.held[i].was), "a message returned by an earlier call of the driver changes later: %x instead of %x", c.held[i].ret, c.held[i].was)
	}
	for _, w := range out {
		n.Sent = append(n.Sent, append([]byte{}, w...))
	}
	if c.Idx%2 == 0 {
		for _, w := range out {
			for j := range w { // the caller may do with them what he likes
				w[j] ^= 0x5a
			}
		}
	}
	for _, w := range out {
		if len(c.held) < 400 {
			c.held = append(c.held, heldMsg{w, append([]byte{}, w...)})
			c.Count("returned messages watched", 1)
		}
	}
	c.Eval(1)
	return out, err
}

// heldMsg is a message the driver has returned, and what it has to be from then on.
type heldMsg struct{ ret, was []byte }

// split cuts a list into random batches; empty ones occur.
func (c *Case) split(ws [][]byte) (out [][][]byte) {
	if c.R.IntN(2) == 0 {
		out = append(out, nil)
	}
	max := 1 + c.R.IntN(len(ws)+1)
	for len(ws) > 0 {
		k := c.R.IntN(max + 1)
		if k > len(ws) {
			k = len(ws)
		}
		out = append(out, ws[:k])
		ws = ws[k:]
	}
	if c.R.IntN(3) == 0 {
		out = append(out, nil)
	}
	return
}

// ignorable returns a well-formed message that HandleMessage takes without effect.
func (c *Case) ignorable(r *record4, id party.ID) []byte {
	w := append([]byte{}, r.wires[c.R.IntN(len(r.wires))]...)
	copy(w[1:], be16(id))
	if c.R.IntN(2) == 0 && len(r.ids) > 2 && !r.sign {
		for { // addressed to somebody else
			w = append([]byte{}, r.wires[c.R.IntN(len(r.wires))]...)
			if to := wTo(w); to != 0 && to != id {
				return w
			}
		}
	}
	return w
}

func (c *Case) routineSession() (*record4, party.ID, [][]byte) {
	n := c.size(2, 7)
	r := c.recordSession(n, c.t(n), c.Idx%2 == 0)
	id := r.ids[c.R.IntN(len(r.ids))]
	ws := append([][]byte{}, r.in[id]...)
	switch c.R.IntN(3) {
	case 0:
		c.R.Shuffle(len(ws), func(i, j int) { ws[i], ws[j] = ws[j], ws[i] })
	case 1:
		for i, j := 0, len(ws)-1; i < j; i, j = i+1, j-1 {
			ws[i], ws[j] = ws[j], ws[i]
		}
	}
	return r, id, ws
}

func sizes(bs [][][]byte) (s []int) {
	for _, b := range bs {
		s = append(s, len(b))
	}
	return
}

// routineBatches: any batches, no faults.
func routineBatches(c *Case) {
	r, id, ws := c.routineSession()
	x := c.freshT(r, id, 0)
	for k := c.R.IntN(3); k > 0; k-- {
		i := c.R.IntN(len(ws)) // before the last one, which ends the session
		ws = append(ws[:i:i], append([][]byte{c.ignorable(r, id)}, ws[i:]...)...)
	}
	bs := c.split(ws)
	h := fmt.Sprint(sizes(bs))
	for i, b := range bs {
		_, err := x.routine(b)
		c.Check(err == nil, "party %d: the driver fails on batch %d of %s although all messages are acceptable: %v", id, i, h, err)
	}
	if !x.done() {
		_, err := x.routine(nil)
		c.Check(err == nil, "party %d: the driver fails on an empty batch: %v", id, err)
	}
	c.finished4(r, x, "batches "+h)
	c.sameWires(r, x)
	for k := 0; k < 2; k++ {
		out, err := x.routine(nil)
		c.Check(err == nil && len(out) == 0, "party %d: the driver returns %d messages and %v after the end", id, len(out), err)
	}
	_, err := x.routine([][]byte{r.in[id][c.R.IntN(len(r.in[id]))]})
	c.Check(err != nil, "the driver accepts a message after the end")
	c.Check(bytes.Equal(c.result(x), r.out[id]), "the result changes after the end")
	c.Count("sessions in batches", 1)
	c.Seen("b", r.sign, fp(r.ids), id, h)
	c.Sample(map[string]any{"party": id, "ids": fp(r.ids), "signing": r.sign, "batches": sizes(bs)})
}

// refusedItem returns something the driver must refuse in a batch that starts with pre.
func (c *Case) refusedItem(r *record4, id party.ID, pre [][]byte) ([]byte, string) {
	w := append([]byte{}, r.in[id][c.R.IntN(len(r.in[id]))]...)
	for {
		switch c.R.IntN(7) {
		case 0:
			return w[:c.R.IntN(len(w))], "truncated"
		case 1:
			return append(w, c.Bytes(1+c.R.IntN(40))...), "extended"
		case 2:
			w[0] = byte(5 + c.R.IntN(251))
			return w, "unknown type"
		case 3: // of the other protocol
			o := wire(3, wFrom(w), 0, ref64(c)...)
			if r.sign {
				o = wire(1, wFrom(w), 0, c.proofBytes()...)
			}
			if _, err := decodeMsg(o); err != nil {
				continue
			}
			return o, "other protocol"
		case 4: // from nobody of the session
			f := party.ID(1 + c.R.IntN(65535))
			if r.ids.Contains(f) {
				continue
			}
			copy(w[1:], be16(f))
			return w, "stranger"
		case 5:
			if len(pre) == 0 {
				continue
			}
			p := pre[c.R.IntN(len(pre))]
			if wFrom(p) == id || wTo(p) != 0 && wTo(p) != id {
				continue
			}
			return append([]byte{}, p...), "duplicate"
		default:
			return nil, "empty"
		}
	}
}

func ref64(c *Case) [][]byte {
	return [][]byte{ref.MulBase(c.scalar()).Encode(), ref.MulBase(c.scalar()).Encode()}
}

// proofBytes is the payload of a first key generation message with degree 1.
func (c *Case) proofBytes() [][]byte {
	p := ref.MulBase(c.scalar()).Encode()
	return [][]byte{bigSc(c.scalar()).Bytes(), bigSc(c.scalar()).Bytes(), {0, 1}, p, p}
}

// routineRefused: a batch holds one message that is refused; the session is not harmed.
func routineRefused(c *Case) {
	r, id, ws := c.routineSession()
	x := c.freshT(r, id, 0)
	bs := c.split(ws)
	at := c.R.IntN(len(bs))
	hist := ""
	done := [][]byte{}
	faults := 0
	try := func(b [][]byte) {
		if x.done() {
			return
		}
		i := c.R.IntN(len(b) + 1)
		bad, what := c.refusedItem(r, id, append(append([][]byte{}, done...), b[:i]...))
		mix := append(append(append([][]byte{}, b[:i]...), bad), b[i:]...)
		hist += fmt.Sprintf(" %s(%d/%d)", what, i, len(b))
		out, err := x.routine(mix)
		c.Check(err != nil, "party %d: the driver reports no error for a batch of %d messages with a %s one at %d: %x", id, len(b), what, i, bad)
		c.Check(len(out) == 0, "party %d: messages are returned with an error", id)
		c.Check(x.St.Err() == nil, "party %d: a refused message (%s) ends the session: %v", id, what, x.St.Err())
		c.Count("refused "+what, 1)
		faults++
	}
	for i, b := range bs {
		if i == at {
			try(b)
			break
		}
		_, err := x.routine(b)
		c.Check(err == nil, "party %d: the driver fails on acceptable batch %d: %v", id, i, err)
		done = append(done, b...)
	}
	// everything once more, one by one; what had been taken is now a duplicate
	for _, w := range ws {
		_, err := x.routine([][]byte{w})
		if err != nil {
			c.Check(x.St.Err() == nil, "party %d fails: %v", id, x.St.Err())
			if !x.done() {
				_, err = x.routine(nil)
				c.Check(err == nil, "party %d: the driver fails on an empty batch: %v", id, err)
			}
		}
	}
	if !x.done() {
		_, err := x.routine(nil)
		c.Check(err == nil, "party %d: the driver fails on an empty batch: %v", id, err)
	}
	c.finished4(r, x, hist)
	c.sameWires(r, x)
	c.Count("sessions after a refused message", faults)
	c.Seen("r", r.sign, fp(r.ids), id, fmt.Sprint(sizes(bs)), at, hist)
}

// routineAbort: a batch holds a message that makes the session fail.
func routineAbort(c *Case) {
	r, id, ws := c.routineSession()
	var w []byte
	k := 0
	for {
		k = c.R.IntN(len(ws))
		w = append([]byte{}, ws[k]...)
		switch wType(w) {
		case 1: // another proof scalar
			copy(w[5+32:], bigSc(c.scalar()).Bytes())
			if c.R.IntN(2) == 0 {
				copy(w[5:], bigSc(c.scalar()).Bytes())
			}
		case 2, 4:
			copy(w[5:], bigSc(c.scalar()).Bytes())
		case 3: // an identity commitment
			o := 5 + 32*c.R.IntN(2)
			copy(w[o:], make([]byte, 32))
		}
		if !bytes.Equal(w, ws[k]) {
			break
		}
	}
	if _, err := decodeMsg(w); err != nil {
		c.Count("spoilt messages that do not decode", 1)
		return
	}
	culprit := wFrom(w)
	ws[k] = w
	x := c.freshT(r, id, 0)
	bs := append(c.split(ws), nil)
	failed := false
	for i, b := range bs {
		before := len(x.Sent)
		_, err := x.routine(b)
		if failed {
			c.Check(err != nil, "party %d: the driver reports success after the session ended with %v", id, x.St.Err())
			continue
		}
		if !x.done() {
			c.Check(err == nil, "party %d: the driver fails on batch %d although the session goes on: %v", id, i, err)
			continue
		}
		c.Check(x.St.Err() != nil, "party %d succeeds in spite of a spoilt %s", id, wireName(w))
		c.Check(err != nil, "party %d: the driver reports success although the session ended with %v", id, x.St.Err())
		c.Check(len(x.Sent) == before, "party %d: messages are returned with an error", id)
		var se *state.Error
		c.Check(errors.As(err, &se), "party %d: the driver hides the session's error: it returns %v", id, err)
		c.Check(se.PartyID == culprit, "party %d: the driver's error names %d instead of %d: %v", id, se.PartyID, culprit, err)
		failed = true
	}
	c.Check(failed, "party %d does not fail in spite of a spoilt %s", id, wireName(w))
	c.Check(x.empty(), "party %d has a result in spite of a spoilt %s", id, wireName(w))
	c.Count("sessions aborted in batches", 1)
	c.Seen("a", r.sign, fp(r.ids), id, fmt.Sprint(sizes(bs)), wireName(w), k)
}

// routineTimeout: the session ends by timeout between batches.
func routineTimeout(c *Case) {
	r, id, ws := c.routineSession()
	bs := c.split(ws[:len(ws)-1])
	c.bubble(func() {
		x := c.freshT(r, id, time.Second)
		at := c.R.IntN(len(bs) + 1)
		for i := 0; i <= len(bs); i++ {
			if i == at {
				time.Sleep(1500 * time.Millisecond)
				c.Check(x.done() && x.St.Err() != nil, "harness: no timeout")
			}
			var b [][]byte
			if i < len(bs) {
				b = bs[i]
			}
			_, err := x.routine(b)
			if i < at {
				c.Check(err == nil, "party %d: the driver fails on acceptable batch %d: %v", id, i, err)
			} else {
				c.Check(err != nil, "party %d: the driver reports success after a timeout", id)
			}
		}
		c.Check(x.empty(), "party %d has a result in spite of a timeout", id)
	})
	c.Count("sessions timed out between batches", 1)
	c.Seen("t", r.sign, fp(r.ids), id, fmt.Sprint(sizes(bs)))
}

// routineNetwork: everybody is driven by PartyRoutine; every message is broadcast to all, as
// the command-line tools do, or delivered to its addressees, in any order.
func routineNetwork(c *Case) {
	n := c.size(2, 9)
	t := c.t(n)
	ids := c.ids(n)
	sign := c.Idx%2 == 0
	all := c.R.IntN(2) == 0
	msg := c.message()
	var k *Key
	var ns []*Node
	if sign {
		k = c.key(ids, t)
		ids = c.subset(ids, c.signers(n, t))
		ns = c.signNodes(k, ids, msg, 0)
	} else {
		ns = c.keygenNodes(ids, t, 0)
	}
	c.R.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
	box := map[party.ID][][]byte{}
	calls := 0
	for round := 0; ; round++ {
		idle := true
		for _, x := range ns {
			b := box[x.ID]
			if x.done() || round > 0 && len(b) == 0 {
				continue
			}
			if round > 0 && c.R.IntN(3) == 0 { // part of it
				b = b[:1+c.R.IntN(len(b))]
			}
			box[x.ID] = box[x.ID][len(b):]
			before := len(x.Sent)
			_, err := x.routine(b)
			c.Check(err == nil, "party %d: the driver fails in an honest session: %v", x.ID, err)
			calls++
			idle = false
			for _, w := range x.Sent[before:] {
				for _, y := range ns {
					if all || y != x && (wTo(w) == 0 || wTo(w) == y.ID) {
						box[y.ID] = append(box[y.ID], w)
					}
				}
			}
		}
		if idle {
			break
		}
		c.Check(round < 1000, "an honest session does not end")
	}
	for _, x := range ns {
		c.Check(x.done() && x.St.Err() == nil, "party %d of an honest session: finished=%v, %v", x.ID, x.done(), x.St.Err())
		c.emissions(x, ids, sign)
		if sign {
			c.verifySig(k, msg, x.SG.Signature)
		}
	}
	if !sign {
		kk := &Key{IDs: ids, T: t, Public: ns[0].KG.Public, Secrets: nil, How: "keygen"}
		for _, x := range ns {
			c.Check(x.KG.Public.Equal(kk.Public), "parties have different public keys")
			c.Check(x.KG.SecretKey.ID == x.ID && x.KG.SecretKey.Public.Equal(kk.Public.Shares[x.ID]) == 1, "the share of party %d does not match", x.ID)
		}
	}
	c.Count("sessions of drivers", 1)
	c.Seen("n", sign, fp(ids), all, calls)
}

func init() {
	register(&Prop{ID: "C25", Bubble: true, Rule: "a session counts if every call of the batch driver was compared with a recorded run of the same session (same randomness, one message at a time) or with the end that was provoked; distinct by protocol, parties, batches and fault",
		Parts: []Part{
			{"batches", 1200, 30000, routineBatches},
			{"refused", 1600, 40000, routineRefused},
			{"abort", 1000, 30000, routineAbort},
			{"timeout", 300, 8000, routineTimeout},
			{"network", 400, 10000, routineNetwork},
			{"sizes", 116, 4000, allSizes(routineBatches)},
			{"sizes refused", 116, 4000, allSizes(routineRefused)},
			{"sizes network", 58, 2000, allSizes(routineNetwork)},
		},
		Least: map[string]int64{"sessions in batches": 800, "sessions after a refused message": 600, "sessions aborted in batches": 600, "sessions timed out between batches": 200, "sessions of drivers": 300}})
}
