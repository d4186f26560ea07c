package main

import (
	"bytes"
	"fmt"
	"math/big"
	"testing/synctest"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// ---- bad messages, shared by C13, C15, C16, C18 ----

// spoil returns a well-formed message that makes its receiver abort.
func (c *Case) spoil(w []byte) ([]byte, string) {
	one := big.NewInt(1)
	switch wType(w) {
	case tKG1:
		k := c.parseKG1(w)
		switch c.R.IntN(3) {
		case 0:
			return kg1Wire(wFrom(w), k.S, ref.SAdd(k.R, one), k.Commits), "wrong proof"
		case 1:
			return kg1Wire(wFrom(w), k.S, k.R, append(k.Commits, k.Commits[0])), "degree too high"
		}
		return kg1Wire(wFrom(w), k.S, k.R, k.Commits[:len(k.Commits)-1]), "degree too low"
	case tKG2:
		return wire(tKG2, wFrom(w), wTo(w), ref.ToLE(ref.SAdd(ref.LE(w[5:]), one))), "wrong share"
	case tSG1:
		if c.R.IntN(2) == 0 {
			return wire(tSG1, wFrom(w), 0, make([]byte, 32), w[37:]), "identity D"
		}
		return wire(tSG1, wFrom(w), 0, w[5:37], make([]byte, 32)), "identity E"
	}
	return wire(tSG2, wFrom(w), 0, ref.ToLE(ref.SAdd(ref.LE(w[5:]), one))), "wrong signature share"
}

// script draws an order of the incoming messages of x with k of them spoilt.
func (c *Case) script(r *record4, x party.ID, k int) (ws [][]byte, bad []string) {
	for _, i := range c.R.Perm(len(r.in[x])) {
		ws = append(ws, r.in[x][i])
	}
	for _, i := range c.R.Perm(len(ws))[:min(k, len(ws))] {
		w, what := c.spoil(ws[i])
		ws[i] = w
		bad = append(bad, fmt.Sprintf("%s from %d", what, wFrom(w)))
	}
	return
}

// ---- C13: monitor of outcomes ----

// outcome is everything a session reports.
type outcome struct {
	fin   bool
	err   string
	party party.ID
	round int
	out   []byte
	ptr   [2]any
}

func (o outcome) same(p outcome) bool {
	return o.fin == p.fin && o.err == p.err && o.party == p.party && o.round == p.round && bytes.Equal(o.out, p.out) && o.ptr == p.ptr
}

func (o outcome) String() string {
	if !o.fin {
		return "unfinished"
	}
	if o.err != "" {
		return "error " + o.err
	}
	return fmt.Sprintf("success %x", clip(string(o.out), 40))
}

func closed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// observe reads the outcome of a session and checks that its parts agree.
func (c *Case) observe(n *Node) outcome {
	var o outcome
	o.fin = n.St.IsFinished()
	c.Check(closed(n.St.Done()) == o.fin, "party %d: IsFinished is %v, but Done is closed: %v", n.ID, o.fin, !o.fin)
	if e := n.stateErr(); e != nil {
		o.err, o.party, o.round = e.Error(), e.PartyID, e.RoundNumber
		c.Check(o.fin, "party %d reports the error %v, but has not finished", n.ID, e)
	}
	complete := false
	if n.KG != nil {
		o.ptr = [2]any{n.KG.Public, n.KG.SecretKey}
		complete = n.KG.Public != nil && n.KG.SecretKey != nil
		if n.KG.Public != nil {
			complete = complete && n.KG.Public.GroupKey != nil && len(n.KG.Public.Shares) == len(n.KG.Public.PartyIDs)
		}
	} else {
		o.ptr = [2]any{n.SG.Signature, nil}
		complete = n.SG.Signature != nil
	}
	switch {
	case !o.fin:
		c.Check(n.empty(), "party %d has not finished, but has an output", n.ID)
	case o.err != "":
		c.Check(n.empty(), "party %d aborted (%s), but its output is not empty", n.ID, o.err)
	default:
		c.Check(complete, "party %d finishes without error, but its output is incomplete", n.ID)
		o.out = c.result(n)
	}
	if o.fin {
		err := n.St.WaitForError()
		c.Check((err == nil) == (o.err == ""), "party %d: WaitForError returns %v, the error is %q", n.ID, err, o.err)
		if err != nil {
			c.Check(err.Error() == o.err, "party %d: WaitForError returns %v, Err %s", n.ID, err, o.err)
		}
		c.Check(n.St.IsFinished() && closed(n.St.Done()), "party %d is no longer finished", n.ID)
	}
	c.Count("observations", 1)
	c.Eval(1)
	return o
}

// monitor follows one session.
type monitor struct {
	c    *Case
	n    *Node
	last outcome
	hist string
	wait []chan error
}

func (m *monitor) look(what string) {
	m.hist += what + " "
	synctest.Wait() // a timer that fires right now runs first
	o := m.c.observe(m.n)
	if m.last.fin {
		m.c.Check(o.same(m.last), "the outcome of party %d changes from (%v) to (%v) after it ended; history: %s", m.n.ID, m.last, o, clip(m.hist, 600))
		m.c.Count("observations after the end", 1)
	}
	m.last = o
	synctest.Wait()
	for _, w := range m.wait {
		select {
		case err := <-w:
			m.c.Check(o.fin, "WaitForError returns %v before party %d has ended", err, m.n.ID)
			txt := ""
			if err != nil {
				txt = err.Error()
			}
			m.c.Check(txt == o.err, "WaitForError of party %d returned %q, the outcome is (%v)", m.n.ID, txt, o)
			w <- err
			m.c.Count("blocked waiters released", 1)
		default:
			m.c.Check(!o.fin, "party %d has ended (%v), but WaitForError still blocks", m.n.ID, o)
		}
	}
}

func (m *monitor) waiter() {
	ch := make(chan error, 1)
	st := m.n.St
	if m.c.R.IntN(2) == 0 {
		go func() { ch <- st.WaitForError() }()
	} else {
		go func() { <-st.Done(); ch <- st.Err() }()
	}
	m.wait = append(m.wait, ch)
	m.c.Count("waiters", 1)
}

func (m *monitor) step() {
	fin := m.last.fin
	out := m.n.step()
	m.c.Check(!fin || len(out) == 0, "party %d emits %d messages after it has ended (%v)", m.n.ID, len(out), m.last)
	m.look("P")
}

func (m *monitor) give(msg *messages.Message, what string) {
	fin := m.last.fin
	err := m.n.St.HandleMessage(msg)
	m.c.Count("HandleMessage calls", 1)
	if fin {
		m.c.Check(err != nil, "party %d accepts or ignores %s after it has ended (%v)", m.n.ID, what, m.last)
		m.c.Count("messages refused after the end", 1)
	}
	m.look(what)
}

func outcomeCase(c *Case) {
	sign := c.Idx%2 == 0
	n := c.size(2, 5)
	t := c.t(n)
	r := c.recordSession(n, t, sign)
	x := r.ids[c.R.IntN(len(r.ids))]
	f := newFilter(x, r.ids, sign)
	spoilt := 0
	end := "complete"
	switch c.Idx / 2 % 4 {
	case 1:
		spoilt, end = 1, "spoilt"
	case 2:
		spoilt, end = 2+c.R.IntN(2), "spoilt repeatedly"
	case 3:
		end = "cut short"
	}
	ws, bad := c.script(r, x, spoilt)
	if end == "cut short" {
		ws = ws[:c.R.IntN(len(ws))]
	}
	var timeout time.Duration
	if c.R.IntN(2) == 0 || end == "cut short" {
		timeout = time.Duration(1 + c.R.IntN(1_000_000_000))
	}
	c.bubble(func() {
		m := &monitor{c: c, n: c.freshT(r, x, timeout)}
		m.look("created")
		slow := timeout > 0 && c.R.IntN(3) == 0
		started := false
		for i := 0; i < len(ws) || !started; {
			switch k := c.R.IntN(10); {
			case k < 4 && i < len(ws):
				m.give(c.mustDecode(ws[i]), wireName(ws[i]))
				i++
			case k < 7:
				m.step()
				started = true
			case k == 7:
				if s := c.noise(r, f, x, ws[:i]); s != nil {
					m.give(s, fmt.Sprintf("~%d<%d>%d", s.Type, s.From, s.To))
				}
			case k == 8 && len(m.wait) < 4:
				m.waiter()
				m.look("wait")
			case k == 9 && slow:
				time.Sleep(timeout / time.Duration(2+c.R.IntN(4)))
				m.look("sleep")
			}
		}
		m.step()
		if timeout > 0 {
			time.Sleep(timeout / 2)
			m.look("sleep")
			if end == "cut short" || c.R.IntN(2) == 0 {
				time.Sleep(timeout + 1)
				m.look("elapse")
			}
		}
		if !m.last.fin {
			// a stray accepted under the name of a later message may hold the session up
			m.c.Check(timeout == 0 || end != "cut short", "party %d has not ended %v after its timeout", x, timeout)
			m.n.St.Err()
			c.Count("sessions left unfinished", 1)
			if len(m.wait) > 0 && timeout == 0 {
				c.endBubble(m, r, x, ws)
			}
		}
		if timeout > 0 && !m.last.fin {
			time.Sleep(2 * timeout)
			m.look("elapse")
		}
		if m.last.fin {
			for k := 0; k < 12; k++ {
				switch c.R.IntN(4) {
				case 0:
					m.step()
				case 1:
					w := r.wires[c.R.IntN(len(r.wires))]
					if c.R.IntN(2) == 0 {
						w, _ = c.spoil(w)
					}
					m.give(c.mustDecode(w), wireName(w))
				case 2:
					if s := c.noise(r, f, x, r.wires); s != nil {
						m.give(s, fmt.Sprintf("~%d<%d>%d", s.Type, s.From, s.To))
					}
				case 3:
					if c.R.IntN(2) == 0 {
						time.Sleep(time.Duration(1 + c.R.IntN(2_000_000_000)))
						m.look("sleep")
					} else if len(m.wait) < 8 {
						m.waiter()
						m.look("wait")
					}
				}
			}
			if timeout > 0 {
				time.Sleep(10 * timeout)
				m.look("elapse")
			}
		}
		switch {
		case !m.last.fin:
			c.Count("ended: not", 1)
		case m.last.err == "":
			c.Count("ended: success", 1)
			c.Check(bytes.Equal(m.last.out, r.out[x]) || spoilt > 0, "party %d obtains another result than in order", x)
		case m.last.party == 0:
			c.Count("ended: unattributed abort", 1)
		default:
			c.Count("ended: attributed abort", 1)
		}
		c.Seen(sign, fp(r.ids), x, m.hist)
		c.Sample(map[string]any{"party": x, "ids": fp(r.ids), "spoilt": bad, "timeout": timeout.String(), "history": clip(m.hist, 300), "outcome": m.last.String()})
	})
}

// endBubble ends a session without timeout, so that its waiters return.
func (c *Case) endBubble(m *monitor, r *record4, x party.ID, ws [][]byte) {
	for k := 0; k < 2 && !m.last.fin; k++ {
		for _, w := range r.in[x] {
			_ = m.n.St.HandleMessage(c.mustDecode(w))
			m.n.step()
		}
		m.look("rest")
	}
	m.c.Check(m.last.fin, "party %d does not end although a message of every type from everybody was handed over; history: %s", x, clip(m.hist, 600))
}

// failedSession follows every party of a session whose parties are honest, but which has a
// signature that is not valid: they all sign for the key of another group.
func failedSession(c *Case) {
	n := c.size(2, 6)
	ids := c.ids(n)
	t := c.t(n)
	k := c.refDeal(ids, t)
	signers := c.subset(ids, c.signers(n, t))
	if c.R.IntN(5) == 0 {
		t, signers = 0, c.subset(ids, 1)
		k = c.refDeal(ids, 0)
	}
	p := *k.Public
	p.GroupKey = eddsa.NewPublicKeyFromPoint(ptEl(ref.MulBase(c.scalar())))
	k.Public = &p
	msg := c.message()
	ns := c.signNodes(k, signers, msg, 0)
	last := map[party.ID]outcome{}
	pl := c.plan(ns)
	pl.onEvent = func(x *Node, w []byte, err error) {
		o := c.observe(x)
		if l := last[x.ID]; l.fin {
			c.Check(o.same(l), "the outcome of party %d changes from (%v) to (%v) after it ended", x.ID, l, o)
		}
		last[x.ID] = o
	}
	sched := c.run(ns, pl)
	for _, x := range ns {
		o := c.observe(x)
		c.Check(o.fin && o.err != "", "party %d ends with (%v) although the signature is not valid", x.ID, o)
		c.Check(o.party == 0, "party %d blames %d for a signature that is not valid although every share is", x.ID, o.party)
		for i := 0; i < 3; i++ {
			x.step()
			c.Check(c.observe(x).same(o), "the outcome of party %d changes after it ended", x.ID)
		}
	}
	c.Count("ended: invalid signature", len(ns))
	c.Seen(fp(ids), fp(signers), sched)
}

func init() {
	register(&Prop{ID: "C13", Bubble: true, Rule: "an execution counts if the session's outcome was observed after every call; distinct by protocol, parties and history of calls",
		Parts: []Part{
			{Name: "histories", Quick: 4000, Thorough: 400000, Fn: outcomeCase},
			{Name: "sizes", Quick: 116, Thorough: 20000, Fn: allSizes(outcomeCase)},
			{Name: "invalid", Quick: 300, Thorough: 20000, Fn: failedSession},
			{Name: "invalid sizes", Quick: 58, Thorough: 4000, Fn: allSizes(failedSession)},
			{Name: "ties", Quick: 400, Thorough: 20000, Fn: tieTimed},
			{Name: "sizes ties", Quick: 116, Thorough: 4000, Fn: allSizes(tieTimed)},
			{Name: "crowds", Quick: 192, Thorough: 8000, Fn: outcomeCrowd},
		},
		Least: map[string]int64{"ended: invalid signature": 500, "ended: success": 300, "ended: attributed abort": 300, "ended: unattributed abort": 200, "messages refused after the end": 3000, "observations after the end": 5000, "blocked waiters released": 1000},
	})
}
