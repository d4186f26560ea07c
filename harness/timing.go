package main

import (
	"bytes"
	"fmt"
	"testing/synctest"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
)

// timed is one session in virtual time with the model of its deadline.
type timed struct {
	c        *Case
	n        *Node
	f        *filter
	d        time.Duration
	deadline time.Time // of the model; zero if none
	expired  bool
	ended    bool // by itself
	hist     string
	base     time.Time
	frozen   outcome
}

func (x *timed) note(format string, a ...any) {
	x.hist += fmt.Sprintf(format, a...) + " "
}

// check compares the session with the model.
func (x *timed) check() {
	c := x.c
	fin := x.n.St.IsFinished()
	if x.expired {
		e := x.n.stateErr()
		c.Check(fin && e != nil, "party %d: %v after its creation or last accepted message it has not aborted (finished=%v); timeout %v, history %s", x.n.ID, time.Since(x.deadline.Add(-x.d)), fin, x.d, clip(x.hist, 800))
		c.Check(e.PartyID == 0, "party %d blames %d for a timeout: %v; history %s", x.n.ID, e.PartyID, e, clip(x.hist, 800))
		c.Check(x.n.empty(), "party %d timed out, but has an output", x.n.ID)
		c.Check(closed(x.n.St.Done()), "party %d timed out, but Done is not closed", x.n.ID)
	} else if !x.ended {
		c.Check(!fin, "party %d ended (%v) before its timeout of %v: %v remain; history %s", x.n.ID, x.n.St.Err(), x.d, time.Until(x.deadline), clip(x.hist, 800))
	} else {
		o := c.observe(x.n)
		c.Check(o.same(x.frozen), "the outcome of party %d changes from (%v) to (%v) after it ended; timeout %v, history %s", x.n.ID, x.frozen, o, x.d, clip(x.hist, 800))
	}
	c.Eval(1)
	c.Count("comparisons with the model", 1)
}

// ended on its own account?
func (x *timed) progress() {
	if x.expired || x.ended || !x.n.St.IsFinished() {
		return
	}
	x.ended = true
	x.frozen = x.c.observe(x.n)
	if e := x.n.stateErr(); e != nil {
		x.note("[%v]", e)
		x.c.Check(e.PartyID != 0, "party %d ended with an unattributed error (%v) with %v to go; history %s", x.n.ID, e, time.Until(x.deadline), clip(x.hist, 800))
		x.c.Count("sessions aborted before their timeout", 1)
	} else {
		x.note("[success]")
		x.c.Count("sessions completed before their timeout", 1)
	}
}

func (x *timed) active() bool { return x.d > 0 && !x.expired && !x.ended }

func (x *timed) give(m *messages.Message) {
	live := !x.expired && !x.ended
	err := x.c.offer(x.f, x.n, m)
	x.note("%d<%d>%d@%v:%v", m.Type, m.From, m.To, time.Since(x.base), err == nil)
	own := m.From == x.n.ID || (!m.IsBroadcast() && m.To != x.n.ID)
	if live && err == nil && !own {
		x.deadline = time.Now().Add(x.d)
		x.c.Count("timers restarted", 1)
	} else if live {
		x.c.Count("messages that do not restart the timer", 1)
	}
}

// sleepTo advances all sessions to t, looking just before and just after every deadline.
func (c *Case) sleepTo(xs []*timed, t time.Time) {
	for {
		var next *timed
		for _, x := range xs {
			if x.active() && x.deadline.Before(t) && (next == nil || x.deadline.Before(next.deadline)) {
				next = x
			}
		}
		if next == nil {
			break
		}
		if d := time.Until(next.deadline) - 1; d > 0 {
			time.Sleep(d)
		}
		synctest.Wait()
		if time.Until(next.deadline) > 0 {
			for _, x := range xs {
				if x.deadline.After(time.Now()) || !x.active() {
					x.check()
				}
			}
		}
		time.Sleep(time.Until(next.deadline) + 1)
		synctest.Wait()
		for _, x := range xs {
			if x.active() && !x.deadline.After(time.Now().Add(-1)) {
				x.expired = true
				x.note("[expired]")
				c.Count("timeouts", 1)
			}
			if x.active() && x.deadline.Equal(time.Now()) {
				// exactly at its deadline: look later
				continue
			}
			x.check()
		}
	}
	if d := time.Until(t); d > 0 {
		time.Sleep(d)
	}
	synctest.Wait()
	for _, x := range xs {
		if !x.active() || x.deadline.After(time.Now()) {
			x.check()
		}
	}
}

func (c *Case) duration() time.Duration {
	switch c.R.IntN(7) {
	case 6: // (the virtual clock ends in 2262)
		return time.Hour * time.Duration(1000+c.R.IntN(9000))
	case 0:
		return time.Duration(2 + c.R.IntN(20))
	case 1:
		return time.Duration(1 + c.R.IntN(100000))
	case 2:
		return time.Hour * time.Duration(1+c.R.IntN(1000))
	case 3:
		return time.Second * time.Duration(1+c.R.IntN(20))
	}
	return time.Duration(1000 + c.R.Int64N(int64(10*time.Second)))
}

// oneTimed runs one party against recorded messages, with pauses.
func oneTimed(c *Case) {
	sign := c.Idx%2 == 0
	n := c.size(2, 5)
	t := c.t(n)
	r := c.recordSession(n, t, sign)
	id := r.ids[c.R.IntN(len(r.ids))]
	spoilt := 0
	if c.R.IntN(4) == 0 {
		spoilt = 1
	}
	ws, _ := c.script(r, id, spoilt)
	d := c.duration()
	if c.Idx%8 == 7 {
		d = 0
	}
	// where it stalls: at most this many messages are delivered
	stall := c.R.IntN(2 * (len(ws) + 1))
	start := c.R.IntN(len(ws) + 2)
	pace := c.R.IntN(5)
	c.bubble(func() {
		x := &timed{c: c, n: c.freshT(r, id, d), f: newFilter(id, r.ids, sign), d: d, base: time.Now()}
		x.deadline = time.Now().Add(d)
		xs := []*timed{x}
		pause := func() {
			left := time.Until(x.deadline)
			switch {
			case d == 0:
				c.sleepTo(xs, time.Now().Add(time.Duration(c.R.Int64N(int64(1000*time.Hour)))))
			case !x.active():
				c.sleepTo(xs, time.Now().Add(time.Duration(c.R.Int64N(int64(3*d)+1))))
			case pace == 0: // to the last nanosecond
				if left > 1 {
					c.sleepTo(xs, x.deadline.Add(-1))
					c.Count("waited to the last nanosecond", 1)
				}
			case pace == 1 && left > 2:
				c.sleepTo(xs, time.Now().Add(1+time.Duration(c.R.Int64N(int64(left)-1))))
			case pace == 2 && left > 4:
				c.sleepTo(xs, time.Now().Add(1+time.Duration(c.R.Int64N(int64(left)/3))))
			case pace == 3 && left > 4: // tiny fractions of the timeout
				c.sleepTo(xs, time.Now().Add(1+time.Duration(c.R.Int64N(int64(left)))>>(8+c.R.IntN(32))))
				c.Count("tiny pauses", 1)
			}
		}
		x.check()
		for i := 0; i <= len(ws); i++ {
			if i == start {
				x.n.step()
				x.note("start@%v", time.Since(x.base))
				x.progress()
				x.check()
			}
			if c.forced > 0 && i > 0 && c.R.IntN(2) == 0 {
				pause()
				x.give(c.mustDecode(ws[c.R.IntN(i)]))
				x.progress()
				x.check()
			}
			for k := c.R.IntN(3); k > 0; k-- {
				pause()
				switch c.R.IntN(3) {
				case 0:
					if m := c.noise(r, x.f, id, ws[:i]); m != nil {
						x.give(m)
					}
				case 1:
					if i > start {
						x.n.step()
						x.note("P")
					}
				case 2:
					x.n.St.Err()
					x.n.St.IsFinished()
				}
				x.progress()
				x.check()
			}
			if i == len(ws) || i == stall {
				if c.forced > 0 && i > 0 && x.active() {
					// nothing but repeated messages follows
					for k := 0; k < 2 && x.active(); k++ {
						c.sleepTo(xs, time.Now().Add(time.Until(x.deadline)/2))
						x.give(c.mustDecode(ws[c.R.IntN(i)]))
						x.check()
					}
				}
				break
			}
			pause()
			x.give(c.mustDecode(ws[i]))
			if i >= start && c.R.IntN(4) > 0 {
				x.n.step()
				x.note("P")
			}
			x.progress()
			x.check()
		}
		if start < len(ws) && stall >= len(ws) {
			x.n.step()
			x.progress()
		}
		// then nothing more happens
		span := 3*d + 3
		if d == 0 {
			span = 10000 * time.Hour
		}
		c.sleepTo(xs, time.Now().Add(span))
		if d > 0 {
			c.Check(x.expired || x.ended, "harness: the model has neither ended nor expired")
			c.Count("sessions in virtual time", 1)
		} else {
			c.Count("sessions without timeout", 1)
		}
		if x.ended && spoilt == 0 {
			c.Check(bytes.Equal(c.result(x.n), r.out[id]), "party %d obtains another result than in order", id)
		}
		c.sleepTo(xs, time.Now().Add(span))
		c.Seen(sign, fp(r.ids), id, d, x.hist)
		c.Sample(map[string]any{"party": id, "timeout": d.String(), "history": clip(x.hist, 400), "expired": x.expired})
	})
}

// manyTimed runs all parties of a session with their own timeouts over a slow network.
func manyTimed(c *Case) {
	sign := c.Idx%2 == 0
	n := c.size(2, 4)
	t := c.t(n)
	r := c.recordSession(n, t, sign)
	base := time.Duration(1000 + c.R.Int64N(int64(10*time.Second)))
	lost := 0
	if c.R.IntN(2) == 0 {
		lost = 1 + c.R.IntN(4)
	}
	c.bubble(func() {
		var xs []*timed
		by := map[party.ID]*timed{}
		for _, id := range r.ids {
			d := base/2 + time.Duration(c.R.Int64N(int64(base)*3))
			if c.R.IntN(6) == 0 {
				d = 0
			}
			x := &timed{c: c, n: c.freshT(r, id, d), f: newFilter(id, r.ids, sign), d: d, base: time.Now(), deadline: time.Now().Add(d)}
			xs = append(xs, x)
			by[id] = x
			if c.R.IntN(2) == 0 {
				c.sleepTo(xs, time.Now().Add(time.Duration(c.R.Int64N(int64(base)/4))))
			}
		}
		type ev struct {
			at time.Time
			x  *timed
			w  []byte
		}
		var q []ev
		send := func(ws [][]byte) {
			for _, w := range ws {
				for _, id := range r.ids {
					if id != wFrom(w) && (wTo(w) == 0 || wTo(w) == id) {
						if lost > 0 && c.R.IntN(12) == 0 {
							c.Count("messages lost", 1)
							continue
						}
						q = append(q, ev{time.Now().Add(1 + time.Duration(c.R.Int64N(int64(base)))), by[id], w})
						if c.R.IntN(8) == 0 {
							q = append(q, ev{time.Now().Add(1 + time.Duration(c.R.Int64N(int64(2*base)))), by[id], w})
						}
					}
				}
			}
		}
		for _, x := range xs {
			q = append(q, ev{time.Now().Add(1 + time.Duration(c.R.Int64N(int64(base)))), x, nil})
		}
		for len(q) > 0 {
			k := 0
			for i := range q {
				if q[i].at.Before(q[k].at) {
					k = i
				}
			}
			e := q[k]
			q = append(q[:k], q[k+1:]...)
			c.sleepTo(xs, e.at)
			if e.x.active() && !e.x.deadline.After(time.Now()) {
				c.sleepTo(xs, e.x.deadline.Add(1))
			}
			if e.w != nil {
				e.x.give(c.mustDecode(e.w))
			}
			out := e.x.n.step()
			e.x.progress()
			e.x.check()
			send(out)
		}
		c.sleepTo(xs, time.Now().Add(10*base))
		c.sleepTo(xs, time.Now().Add(100*base))
		for _, x := range xs {
			if x.d > 0 {
				c.Check(x.expired || x.ended, "harness: the model of party %d has neither ended nor expired", x.n.ID)
			}
			c.Seen("net", sign, x.n.ID, x.d, x.hist)
		}
		c.Count("networks in virtual time", 1)
		c.Sample(map[string]any{"ids": fp(r.ids), "history of the first": clip(xs[0].hist, 300)})
	})
}

// tieTimed lets calls happen at the very instant of the deadline: either order is
// right, but the outcome must be one of the two and stay.
func tieTimed(c *Case) {
	sign := c.Idx%2 == 0
	n := c.size(2, 4)
	t := c.t(n)
	r := c.recordSession(n, t, sign)
	id := r.ids[c.R.IntN(len(r.ids))]
	ws, _ := c.script(r, id, 0)
	d := time.Duration(2 + c.R.Int64N(int64(time.Second)))
	once := func() {
		x := c.freshT(r, id, d)
		hold := 1 + c.R.IntN(len(ws))
		late := c.R.IntN(3) == 0 || c.forced > 0 && c.R.IntN(3) > 0
		if late {
			// all messages are there in time, but they are processed at the deadline
			hold = 0
			c.Count("sessions processed at the deadline", 1)
		}
		if 0 < hold && hold < len(ws) || c.R.IntN(2) == 0 {
			x.step()
		}
		for i, w := range ws[:len(ws)-hold] {
			c.Check(x.St.HandleMessage(c.mustDecode(w)) == nil, "party %d refuses %s", id, wireName(w))
			if !late || i < len(ws)-1 && c.R.IntN(2) == 0 {
				x.step()
			}
		}
		time.Sleep(d) // wakes up when the timer fires
		accepted := false
		for _, w := range ws[len(ws)-hold:] {
			accepted = x.St.HandleMessage(c.mustDecode(w)) == nil || accepted
			x.step()
		}
		x.step()
		synctest.Wait()
		o := c.observe(x)
		if accepted {
			// the message came first, so the time starts again
			c.Check(o.err == "", "party %d accepts a message at its deadline of %v, but ends at once: %s", id, d, o.err)
			c.Count("messages accepted at the deadline", 1)
		}
		for k := 0; k < 3; k++ {
			time.Sleep(d + 1)
			synctest.Wait()
			p := c.observe(x)
			if !o.fin {
				c.Check(p.fin, "party %d has not ended %v after a call at its deadline of %v", id, d+1, d)
				o = p
				continue
			}
			c.Check(p.same(o), "the outcome of party %d changes from (%v) to (%v)", id, o, p)
		}
		if o.err != "" {
			c.Check(o.party == 0, "party %d blames %d for a timeout: %s", id, o.party, o.err)
			c.Count("ties won by the timeout", 1)
		} else {
			c.Check(bytes.Equal(o.out, r.out[id]), "party %d obtains another result than in order", id)
			c.Count("ties won by the messages", 1)
		}
		c.Seen("tie", sign, fp(r.ids), id, d, hold)
	}
	c.bubble(func() {
		once()
		for k := 0; c.forced > 0 && k < 5; k++ {
			once()
		}
	})
}

// endless: timeouts far beyond the life of the process, up to the largest there is.
func endless(c *Case) {
	sign := c.Idx%2 == 0
	n := c.size(2, 4)
	t := c.t(n)
	r := c.recordSession(n, t, sign)
	id := r.ids[c.R.IntN(len(r.ids))]
	ws, _ := c.script(r, id, 0)
	const max = time.Duration(1<<63 - 1)
	d := []time.Duration{max, max - 1, max - time.Duration(c.R.Int64N(int64(time.Hour))), max - time.Duration(c.R.Int64N(int64(max/2))), max/2 + 1, max / 2, max/4 + time.Duration(c.R.Int64N(int64(max/4)))}[c.Idx/2%7]
	hold := c.R.IntN(len(ws) + 1)
	c.bubble(func() {
		born := time.Now()
		x := c.freshT(r, id, d)
		look := func() {
			synctest.Wait()
			c.Check(!x.St.IsFinished(), "party %d ended (%v) %v after its creation, with a timeout of %v", id, x.St.Err(), time.Since(born), d)
			c.Eval(1)
		}
		rest := func() {
			look()
			time.Sleep(time.Duration(c.R.Int64N(int64(1000 * time.Hour))))
			look()
			c.Count("looks at sessions with endless timeouts", 2)
		}
		rest()
		x.step()
		rest()
		for _, w := range ws[:len(ws)-hold] {
			c.Check(x.St.HandleMessage(c.mustDecode(w)) == nil, "party %d refuses %s", id, wireName(w))
			if c.R.IntN(2) == 0 {
				if hold > 0 {
					x.step()
				}
			}
			rest()
		}
		for _, w := range ws[len(ws)-hold:] {
			c.Check(x.St.HandleMessage(c.mustDecode(w)) == nil, "party %d refuses %s", id, wireName(w))
			rest()
		}
		for i := 0; i < 4 && !x.St.IsFinished(); i++ {
			x.step()
		}
		c.Check(x.St.IsFinished() && x.St.Err() == nil, "party %d does not complete: %v", id, x.St.Err())
		c.Check(bytes.Equal(c.result(x), r.out[id]), "party %d obtains another result than in order", id)
		c.Seen("endless", sign, fp(r.ids), id, d, hold)
		c.Sample(map[string]any{"party": id, "timeout": d.String()})
	})
}

func init() {
	register(&Prop{ID: "C15", Bubble: true, Rule: "an execution counts if a session's state was compared with the deadline model around every deadline; distinct by timeout and timed history",
		Parts: []Part{
			{Name: "single", Quick: 3000, Thorough: 300000, Fn: oneTimed},
			{Name: "sizes", Quick: 174, Thorough: 20000, Fn: allSizes(oneTimed)},
			{Name: "network", Quick: 400, Thorough: 40000, Fn: manyTimed},
			{Name: "ties", Quick: 400, Thorough: 40000, Fn: tieTimed},
			{Name: "sizes ties", Quick: 116, Thorough: 4000, Fn: allSizes(tieTimed)},
			{Name: "crowds", Quick: 60, Thorough: 3000, Fn: timedCrowd},
			{Name: "endless", Quick: 280, Thorough: 14000, Fn: endless},
		},
		Least: map[string]int64{"timeouts": 1000, "timers restarted": 3000, "messages that do not restart the timer": 1000, "sessions without timeout": 200, "sessions completed before their timeout": 300, "sessions aborted before their timeout": 100, "waited to the last nanosecond": 500},
	})
}
