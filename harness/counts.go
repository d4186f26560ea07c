package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sync"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// Every number of shares, coefficients, summands and elements, instead of samples.

var largerCounts = []int{96, 99, 100, 101, 127, 128, 129, 150, 192, 200, 254, 255, 256, 257, 258, 300}

// counts is the number of cases that go over all counts once.
const counts = 72 + 16

func (c *Case) count() int {
	i := c.Idx % counts
	c.Count("counts", 1)
	if i < 72 {
		return i + 1
	}
	return largerCounts[i-72]
}

// somePlaces: first, last, their neighbours, the middle, one more.
func (c *Case) somePlaces(n int) []int {
	var out []int
	seen := map[int]bool{}
	for _, i := range []int{0, n - 1, n - 2, n / 2, 1, c.R.IntN(n)} {
		if i >= 0 && i < n && !seen[i] {
			out = append(out, i)
			seen[i] = true
		}
	}
	return out
}

// ---- C10 ----

func keysOfEverySize(c *Case) {
	n := c.count()
	if n < 2 {
		n = 2
	}
	ids := c.ids(n)
	t := 1 + c.R.IntN(n-1)
	if n > 12 && c.R.IntN(4) != 0 {
		t = 1 + c.R.IntN(4)
	}
	co := make([]*big.Int, t+1)
	for i := range co {
		co[i] = c.scalar()
	}
	x := make([]*big.Int, n)
	pts := make([]*ref.Point, n)
	shares := make([]*ristretto.Element, n)
	text := make([]string, n)
	q := func(p *ref.Point) string { return `"` + b64(p.Encode()) + `"` }
	for i, id := range ids {
		x[i] = ref.Poly(co, big.NewInt(int64(id)))
		pts[i] = ref.MulBase(x[i])
		shares[i] = ptEl(pts[i])
		text[i] = q(pts[i])
	}
	group := ref.MulBase(co[0])
	els := func() map[party.ID]*ristretto.Element {
		m := map[party.ID]*ristretto.Element{}
		for i, id := range ids {
			m[id] = new(ristretto.Element).Set(shares[i])
		}
		return m
	}
	file := func() *pubFile {
		f := &pubFile{T: fmt.Sprint(t), Shares: map[string]string{}, Group: q(group)}
		for i, id := range ids {
			f.Keys = append(f.Keys, fmt.Sprint(id))
			f.Shares[fmt.Sprint(id)] = text[i]
		}
		return f
	}
	a, err := eddsa.NewPublic(els(), party.Size(t))
	c.Check(err == nil && a != nil, "NewPublic refuses %d shares with threshold %d: %v", n, t, err)
	want := refPub{t: t, shares: map[party.ID][]byte{}, group: group}
	for i, id := range ids {
		want.shares[id] = pts[i].Encode()
	}
	c.restoredPublic(a, want, fmt.Sprintf("NewPublic of %d shares", n))
	for _, b := range [][]byte{file().json(), asJSON(c, a)} {
		var p eddsa.Public
		err := json.Unmarshal(b, &p)
		c.Check(err == nil, "valid public data of %d parties, threshold %d, is refused: %v", n, t, err)
		c.restoredPublic(&p, want, fmt.Sprintf("public data of %d parties", n))
		c.publicEqual(&p, a, fmt.Sprintf("public data of %d parties", n))
		c.Eval(1)
	}
	// what must be refused
	refused := func(what string, alter func(f *pubFile)) {
		f := file()
		alter(f)
		var p eddsa.Public
		err := json.Unmarshal(f.json(), &p)
		c.Check(err != nil, "public data of %d parties (threshold %d) is accepted with %s", n, t, what)
		c.Count("corruptions of public shares", 1)
		c.Eval(1)
	}
	d := ref.MulBase(c.scalar())
	refused("another group key", func(f *pubFile) { f.Group = q(group.Add(d)) })
	refused("the negative of the group key", func(f *pubFile) { f.Group = q(group.Neg()) })
	refused("the identity as group key", func(f *pubFile) { f.Group = q(ref.Identity()) })
	refused("a share as group key", func(f *pubFile) { f.Group = q(pts[c.R.IntN(n)]) })
	for _, u := range []int{n, n + 1, 65535, 65536 + t, -t} {
		refused(fmt.Sprintf("threshold %d", u), func(f *pubFile) { f.T = fmt.Sprint(u) })
	}
	for _, i := range c.somePlaces(n) {
		key := fmt.Sprint(ids[i])
		what := fmt.Sprintf(" for party %d of %d", i+1, n)
		refused("another share"+what, func(f *pubFile) { f.Shares[key] = q(pts[i].Add(d)) })
		refused("the identity"+what, func(f *pubFile) { f.Shares[key] = q(ref.Identity()) })
		refused("a malformed share"+what, func(f *pubFile) { f.Shares[key] = `"` + b64(c.badPoint()) + `"` })
		refused("no share"+what, func(f *pubFile) { f.Shares[key] = "null" })
		for _, k := range []string{"0", "65536", fmt.Sprint(65536 + int(ids[i])), "-" + key} {
			refused("ID "+k+what, func(f *pubFile) { f.Keys[i] = k; f.Shares[k] = f.Shares[key] })
			refused("additional ID "+k+what, func(f *pubFile) {
				f.Keys = append(f.Keys[:i:i], append([]string{k}, f.Keys[i:]...)...)
				f.Shares[k] = f.Shares[key]
			})
		}
	}
	// NewPublic
	no := func(m map[party.ID]*ristretto.Element, t int, what string) {
		p, err := eddsa.NewPublic(m, party.Size(t))
		c.Check(err != nil && p == nil, "NewPublic of %d shares with %s succeeds", len(m), what)
		c.Count("NewPublic refuses", 1)
		c.Eval(1)
	}
	for _, u := range []int{n, n + 1, 65535} {
		no(els(), u, fmt.Sprintf("threshold %d", u))
	}
	m := els()
	m[0] = ptEl(d)
	no(m, t, "a share of ID 0")
	m = els()
	m[0] = m[ids[0]]
	delete(m, ids[0])
	no(m, 0, "a share of ID 0")
	for _, i := range c.somePlaces(n) {
		m = els()
		m[ids[i]] = nil
		no(m, t, fmt.Sprintf("a missing share of party %d", i+1))
	}
	// Equal
	public := func(alter func(m map[party.ID]*ristretto.Element), t int) *eddsa.Public {
		m := els()
		if alter != nil {
			alter(m)
		}
		p, err := eddsa.NewPublic(m, party.Size(t))
		c.Check(err == nil && p != nil, "NewPublic refuses %d shares with threshold %d: %v", n, t, err)
		return p
	}
	differ := func(b *eddsa.Public, what string) {
		c.Check(!a.Equal(b), "public data of %d parties (threshold %d) equals one with %s", n, t, what)
		c.Check(!b.Equal(a), "public data with %s equals that of %d parties (threshold %d)", what, n, t)
		c.Count("different publics", 1)
		c.Eval(1)
	}
	c.publicEqual(a, public(nil, t), fmt.Sprintf("the same %d shares", n))
	for _, u := range []int{0, t - 1, t + 1, n - 1} {
		if u != t && u < n {
			differ(public(nil, u), fmt.Sprintf("threshold %d", u))
		}
	}
	for _, i := range c.somePlaces(n) {
		differ(public(func(m map[party.ID]*ristretto.Element) { m[ids[i]] = ptEl(pts[i].Add(d)) }, t), fmt.Sprintf("another share of party %d", i+1))
		differ(public(func(m map[party.ID]*ristretto.Element) { m[ids[i]] = ptEl(pts[i].Neg()) }, t), fmt.Sprintf("the negative share of party %d", i+1))
		for _, j := range []int{(i + 1) % n, (i + n - 1) % n} {
			li, lj := ref.Lagrange(int64(ids[i]), id64(ids)), ref.Lagrange(int64(ids[j]), id64(ids))
			e := ref.SNeg(ref.SMul(li, ref.SInv(lj)))
			b := public(func(m map[party.ID]*ristretto.Element) {
				m[ids[i]] = ptEl(pts[i].Add(d))
				m[ids[j]] = ptEl(pts[j].Add(d.Mul(e)))
			}, t)
			c.Check(b.GroupKey.Equal(a.GroupKey), "the group key of %d shares with the same interpolation differs", n)
			differ(b, fmt.Sprintf("other shares of parties %d and %d and the same group key", i+1, j+1))
		}
		if n-1 > t {
			differ(public(func(m map[party.ID]*ristretto.Element) { delete(m, ids[i]) }, t), fmt.Sprintf("party %d missing", i+1))
		}
		o := c.id()
		if o != 0 && !ids.Contains(o) {
			differ(public(func(m map[party.ID]*ristretto.Element) { m[o] = m[ids[i]]; delete(m, ids[i]) }, t), fmt.Sprintf("another ID for party %d", i+1))
		}
	}
	c.Seen(fp(ids), t, co[0])
}

// ---- C09 ----

// encodedPoints are different encodings of points, computed once.
var encodedPoints struct {
	sync.Once
	list [][]byte
}

func somePoints(n int) [][]byte {
	encodedPoints.Do(func() {
		p := ref.MulBase(big.NewInt(77777777))
		for i := 0; i < 320; i++ {
			encodedPoints.list = append(encodedPoints.list, p.Encode())
			p = p.Add(ref.Base)
		}
	})
	return encodedPoints.list[:n]
}

// exponentsOfEverySize: encodings with every number of coefficients, all different.
func exponentsOfEverySize(c *Case) {
	n := c.count()
	perm := c.R.Perm(n)
	ps := somePoints(n)
	enc := be16(party.ID(n - 1))
	for _, i := range perm {
		enc = append(enc, ps[i]...)
	}
	pre := append(c.encScalar(), c.encScalar()...)
	for _, name := range []string{"Exponent", "KeyGen1", "Message"} {
		var k *codec
		for i := range codecs {
			if codecs[i].name == name {
				k = &codecs[i]
			}
		}
		var head []byte
		switch name {
		case "KeyGen1":
			head = pre
		case "Message":
			head = append(wire(tKG1, c.id(), 0), pre...)
		}
		b := append(append([]byte{}, head...), enc...)
		at := len(head) + 2
		what := fmt.Sprintf("%d coefficients", n)
		a := c.judge(k, b, what)
		c.equality(k, a, c.judge(k, b, what))
		for _, i := range c.somePlaces(n) {
			for _, x := range [][]byte{c.encPoint(), ps[c.R.IntN(n)], ref.Identity().Encode()} {
				o := append([]byte{}, b...)
				copy(o[at+32*i:], x)
				c.equality(k, a, c.judge(k, o, fmt.Sprintf("coefficient %d of %d replaced", i+1, n)))
			}
			o := append([]byte{}, b...)
			copy(o[at+32*i:], c.badPoint())
			c.judge(k, o, fmt.Sprintf("coefficient %d of %d malformed", i+1, n))
			if i > 0 { // exchanged with the one before
				o := append([]byte{}, b...)
				copy(o[at+32*i:], b[at+32*(i-1):at+32*i])
				copy(o[at+32*(i-1):], b[at+32*i:at+32*i+32])
				c.equality(k, a, c.judge(k, o, "coefficients exchanged"))
			}
		}
		// other numbers of coefficients than announced
		for _, d := range []int{-1, 1, -n + 1, n, 255, 256, 65535} {
			o := append([]byte{}, b...)
			copy(o[at-2:], be16(party.ID(n-1+d)))
			c.judge(k, o, fmt.Sprintf("%d coefficients announced as %d", n, n+d))
		}
		for _, d := range []int{1, 31, 32, 33, 64} {
			if d > len(b) {
				continue
			}
			c.judge(k, b[:len(b)-d], fmt.Sprintf("%d coefficients, %d bytes cut off", n, d))
			c.judge(k, append(append([]byte{}, b...), b[len(b)-d:]...), fmt.Sprintf("%d coefficients, %d bytes more", n, d))
		}
		// one more, one less, correctly
		o := append(append([]byte{}, b...), c.encPoint()...)
		copy(o[at-2:], be16(party.ID(n)))
		c.equality(k, a, c.judge(k, o, what+" and one more"))
		if n > 1 {
			o = append([]byte{}, b[:len(b)-32]...)
			copy(o[at-2:], be16(party.ID(n-2)))
			c.equality(k, a, c.judge(k, o, what+" less one"))
		}
		c.Count("values of a given number of coefficients", 1)
	}
	c.Seen(enc)
}

// ---- C20 ----

// sumsOfEverySize: sums of every number of committed polynomials, and copies and sums of
// polynomials of every degree.
func sumsOfEverySize(c *Case) {
	n := c.count()
	// n summands
	deg := c.R.IntN(3)
	es := make([]*polynomial.Exponent, n)
	coefs := make([][]*big.Int, n)
	sum := make([]*big.Int, deg+1)
	for j := range sum {
		sum[j] = new(big.Int)
	}
	for i := range es {
		b := be16(party.ID(deg))
		for j := range sum {
			x := c.scalar()
			coefs[i] = append(coefs[i], x)
			b = append(b, ref.MulBase(x).Encode()...)
			sum[j] = ref.SAdd(sum[j], x)
		}
		es[i] = new(polynomial.Exponent)
		c.Check(es[i].UnmarshalBinary(b) == nil, "a committed polynomial is not decoded")
	}
	s, err := polynomial.Sum(es)
	c.Check(err == nil && s != nil, "summing %d committed polynomials of degree %d fails: %v", n, deg, err)
	c.exponentIs(s, sum, fmt.Sprintf("Sum of %d polynomials of degree %d", n, deg))
	for _, i := range c.somePlaces(n) {
		c.exponentIs(es[i], coefs[i], fmt.Sprintf("summand %d of %d after Sum", i+1, n))
	}
	c.Check(s.Add(s) == nil, "adding a sum to itself fails")
	for _, i := range c.somePlaces(n) {
		c.exponentIs(es[i], coefs[i], fmt.Sprintf("summand %d of %d after its sum was changed", i+1, n))
	}
	for _, i := range c.somePlaces(n) {
		other := polynomial.NewPolynomialExponent(polynomial.NewPolynomial(party.Size(deg+1), bigSc(c.scalar())))
		bad := append([]*polynomial.Exponent{}, es...)
		bad[i] = other
		if n > 1 {
			p := called(func() { _, err = polynomial.Sum(bad) })
			c.Check(p == nil && err != nil, "summing %d polynomials, of which number %d has another degree, gives error %v, panic %v", n, i+1, err, p)
			c.Count("refused additions", 1)
		}
	}
	// n coefficients
	enc := func(x []*big.Int) *polynomial.Exponent {
		b := be16(party.ID(len(x) - 1))
		for _, y := range x {
			b = append(b, ref.MulBase(y).Encode()...)
		}
		e := new(polynomial.Exponent)
		c.Check(e.UnmarshalBinary(b) == nil, "a committed polynomial of degree %d is not decoded", len(x)-1)
		return e
	}
	x, y, z := make([]*big.Int, n), make([]*big.Int, n), make([]*big.Int, n)
	for i := range x {
		x[i], y[i] = c.scalar(), c.scalar()
		z[i] = ref.SAdd(x[i], y[i])
	}
	e, f := enc(x), enc(y)
	cp := e.Copy()
	c.Check(cp.Equal(e) && e.Equal(cp), "a copy of degree %d is not equal", n-1)
	c.Check(cp.Add(f) == nil, "adding committed polynomials of degree %d fails", n-1)
	c.exponentIs(cp, z, "Add")
	c.exponentIs(e, x, "the original of a copy that was added to")
	c.exponentIs(f, y, "the second operand of Add")
	c.Check(!cp.Equal(e) && !e.Equal(cp), "a sum of degree %d equals its first summand", n-1)
	cp = e.Copy()
	e.Reset()
	c.exponentIs(cp, x, "a copy after Reset of its original")
	e = cp.Copy()
	cp.Reset()
	c.exponentIs(e, x, "the original of a copy after Reset of that")
	at := []*big.Int{c.index(), c.index(), big.NewInt(int64(1 + c.R.IntN(65535)))}
	var p2 []*big.Int
	for _, i := range at {
		v := ref.Poly(x, i)
		p2 = append(p2, v)
		c.is(e.Evaluate(bigSc(i)), ref.MulBase(v), fmt.Sprintf("committed polynomial of degree %d evaluated at %x", n-1, i))
		c.Count("evaluations", 1)
	}
	for _, i := range c.somePlaces(n) {
		w := append([]*big.Int{}, x...)
		w[i] = ref.SAdd(w[i], big.NewInt(1))
		o := enc(w)
		c.Check(!o.Equal(e) && !e.Equal(o), "committed polynomials that differ in coefficient %d of %d are equal", i+1, n)
		c.Check(!bytes.Equal(o.Evaluate(bigSc(at[0])).Bytes(), ref.MulBase(p2[0]).Encode()), "coefficient %d of %d does not matter for the value", i+1, n)
	}
	c.Eval(8)
	// n IDs at once
	ids := c.ids(n)
	small := x
	if len(small) > 3 {
		small = x[:3]
	}
	multi := enc(small).EvaluateMulti(ids)
	c.Check(len(multi) == n, "EvaluateMulti gives %d values for %d IDs", len(multi), n)
	for i, id := range ids {
		if i > 80 && i < n-20 {
			continue
		}
		c.Check(multi[id] != nil, "EvaluateMulti of %d IDs gives no value for %d", n, id)
		c.is(multi[id], ref.MulBase(ref.Poly(small, big.NewInt(int64(id)))), fmt.Sprintf("EvaluateMulti of %d IDs at %d", n, id))
		c.Count("evaluations", 1)
	}
	// one polynomial, its committed one and its copy
	if n <= 72 {
		q := c.newPoly(n-1, c.special())
		c.exponentIs(q.e, q.coef, "NewPolynomialExponent")
		for _, i := range at {
			v := ref.Poly(q.coef, i)
			c.Check(scBig(q.p.Evaluate(bigSc(i))).Cmp(v) == 0, "a polynomial of degree %d evaluates wrongly at %x", n-1, i)
			c.is(q.e.Evaluate(bigSc(i)), ref.MulBase(v), fmt.Sprintf("committed polynomial of degree %d evaluated at %x", n-1, i))
		}
	}
	// Lagrange coefficients of n IDs
	total := new(big.Int)
	for i, id := range ids {
		if n > 80 && i > 3 && i < n-3 {
			total = nil
			continue
		}
		l, err := id.Lagrange(ids)
		c.Check(err == nil && l != nil, "no Lagrange coefficient of %d among %d IDs: %v", id, n, err)
		c.Check(scBig(l).Cmp(ref.Lagrange(int64(id), id64(ids))) == 0, "the Lagrange coefficient of %d, party %d of %d, is %x", id, i+1, n, scBig(l))
		if total != nil {
			total = ref.SAdd(total, scBig(l))
		}
		c.Count("Lagrange coefficients", 1)
	}
	c.Check(total == nil || total.Cmp(big.NewInt(1)) == 0, "the Lagrange coefficients of %d IDs sum to %x", n, total)
	c.Seen(n, sum[0])
}

// ---- C24 ----

// setsOfEverySize: sets and changes to one element of them.
func setsOfEverySize(c *Case) {
	n := c.count()
	l := append([]party.ID{}, c.ids(n)...)
	switch c.R.IntN(4) {
	case 0: // consecutive
		o := c.R.IntN(65536 - n)
		for i := range l {
			l[i] = party.ID(o + i)
		}
	case 1: // in order but for two
		i, j := c.R.IntN(n), c.R.IntN(n)
		l[i], l[j] = l[j], l[i]
	case 2:
	default:
		c.R.Shuffle(n, func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	s := c.oneSet(l)
	for i, x := range s {
		for _, y := range []party.ID{x, x - 1, x + 1, x ^ 0x100} {
			c.Check(s.Contains(y) == has(l, y), "element %d of the set of %d IDs %s: Contains(%d) is %v", i+1, n, clipIDs(s), y, s.Contains(y))
		}
	}
	c.compare(s, s.Copy())
	for i := range s {
		if n > 80 && i > 3 && i < n-3 && i != n/2 && c.R.IntN(16) != 0 {
			continue
		}
		less := append(append(party.IDSlice{}, s[:i]...), s[i+1:]...)
		c.compare(s, less)
		x := party.ID(c.R.IntN(65536))
		if s.Contains(x) {
			continue
		}
		more := party.IDSlice(uniq(append(less.Copy(), x)))
		c.compare(s, more)
		c.compare(s, party.IDSlice(uniq(append(s.Copy(), x))))
		// a neighbour in place, so that all others stay where they are
		for _, d := range []party.ID{1, 0xffff} {
			o := s.Copy()
			o[i] += d
			if !s.Contains(o[i]) && (i == 0 || o[i-1] < o[i]) && (i == n-1 || o[i] < o[i+1]) {
				c.compare(s, o)
			}
		}
	}
	c.compare(s, c.subset(s, 1+c.R.IntN(n)))
	c.Seen(fp(l))
}

// ---- every ID ----

// headersOfEveryID: headers and messages with every sender and recipient.
func headersOfEveryID(c *Case) {
	h, m := &codecs[1], &codecs[0]
	for i := c.Idx * idChunk; i < (c.Idx+1)*idChunk; i++ {
		id := party.ID(i)
		for _, o := range []party.ID{c.id(), id ^ 1, id, party.ID(c.R.IntN(65536))} {
			for _, b := range [][]byte{wire(tKG2, id, o), wire(tKG2, o, id)} {
				var v messages.Header
				err := v.UnmarshalBinary(append([]byte{}, b...))
				ok := h.valid(b)
				c.Check(ok == (err == nil), "a header from %d to %d is decoded: %v", be(b[1:]), be(b[3:]), err)
				if !ok {
					continue
				}
				out, err := v.MarshalBinary()
				c.Check(err == nil && bytes.Equal(out, b), "the header %x is encoded as %x", b, out)
				c.Check(int(v.From) == be(b[1:]) && int(v.To) == be(b[3:]) && v.Type == tKG2, "the header %x is decoded as %v", b, v)
				c.Check(!v.IsBroadcast(), "the header %x is taken for that of a broadcast", b)
				w := v
				w.From ^= 0x100
				x := v
				x.To ^= 1
				c.Check(v.Equal(&v) && !v.Equal(&w) && !w.Equal(&v) && !v.Equal(&x) && !x.Equal(&v), "headers from %d to %d: wrong equality", v.From, v.To)
			}
		}
		if id != 0 {
			typ := []int{tKG1, tSG1, tSG2}[i%3]
			b := wire(typ, id, 0)
			var v messages.Header
			c.Check(v.UnmarshalBinary(b) == nil && v.From == id && v.To == 0 && v.IsBroadcast(), "the header %x of a broadcast is decoded as %v", b, v)
			x := c.scalar()
			msg := messages.NewSign2(id, bigSc(x))
			out, err := msg.MarshalBinary()
			c.Check(err == nil && bytes.Equal(out, wire(tSG2, id, 0, ref.ToLE(x))), "the signature share of %d is encoded as %x", id, out)
			to := c.id()
			msg = messages.NewKeyGen2(to, id, bigSc(x))
			out, err = msg.MarshalBinary()
			c.Check(err == nil && bytes.Equal(out, wire(tKG2, to, id, ref.ToLE(x))), "the share from %d to %d is encoded as %x", to, id, out)
			if i%16 == c.R.IntN(16) {
				c.judge(m, out, "every ID")
			}
		}
		c.Eval(10)
	}
	c.Count("IDs enumerated", idChunk)
	c.Seen(c.Idx)
}

func be(b []byte) int { return int(b[0])<<8 | int(b[1]) }

// keysOfEveryID: the secret share of every ID, and public shares of all IDs, eight at a time.
func keysOfEveryID(c *Case) {
	// the share of i is secret + i*slope
	secret, slope := ref.MulBase(c.scalar()), ref.MulBase(c.scalar())
	gt := b64(secret.Encode())
	share := secret.Add(slope.Mul(big.NewInt(int64(c.Idx * idChunk))))
	var q []*ref.Point // of the last eight
	x := c.scalar()
	px := ref.MulBase(x).Encode()
	enc := b64(ref.ToLE(x))
	for i := c.Idx * idChunk; i < (c.Idx+1)*idChunk; i++ {
		id := party.ID(i)
		q = append(q, share)
		share = share.Add(slope)
		js := fmt.Sprintf(`{"id":%d,"secret":"%s"}`, i, enc)
		bin := append(be16(id), ref.ToLE(x)...)
		var s, s2 eddsa.SecretShare
		err, err2 := json.Unmarshal([]byte(js), &s), s2.UnmarshalBinary(append([]byte{}, bin...))
		if id == 0 {
			c.Check(err != nil && err2 != nil, "secret shares of ID 0 are accepted: %v, %v", err, err2)
			continue
		}
		c.Check(err == nil && err2 == nil, "secret shares of ID %d are refused: %v, %v", i, err, err2)
		for _, r := range []*eddsa.SecretShare{&s, &s2, eddsa.NewSecretShare(id, bigSc(x))} {
			c.Check(r.ID == id && scBig(&r.Secret).Cmp(x) == 0 && bytes.Equal(r.Public.Bytes(), px), "the secret share %x of %d is restored as %x of %d, public %x", ref.ToLE(x), i, r.Secret.Bytes(), r.ID, r.Public.Bytes())
			out, err := json.Marshal(r)
			c.Check(err == nil, "the secret share of %d cannot be stored: %v", i, err)
			var again eddsa.SecretShare
			c.Check(json.Unmarshal(out, &again) == nil && again.ID == id && again.Equal(r), "the secret share of %d is stored as %s", i, out)
			out, err = r.MarshalBinary()
			c.Check(err == nil && bytes.Equal(out, bin), "the secret share of %d is encoded as %x, %v", i, out, err)
		}
		c.Check(s.Equal(&s2) && !s.Equal(eddsa.NewSecretShare(id^0x100, bigSc(x))), "secret shares of %d: wrong equality", i)
		c.Eval(4)
		if i%8 == 7 {
			m := map[party.ID]*ristretto.Element{}
			f := &pubFile{T: "1", Shares: map[string]string{}}
			want := refPub{t: 1, shares: map[party.ID][]byte{}, group: secret}
			var ids []int
			for k, o := 0, i-7; o <= i; k, o = k+1, o+1 {
				if o == 0 {
					continue
				}
				ids = append(ids, o)
				enc := q[k].Encode()
				m[party.ID(o)] = ptEl(q[k])
				want.shares[party.ID(o)] = enc
				f.Keys = append(f.Keys, fmt.Sprint(o))
				f.Shares[fmt.Sprint(o)] = `"` + b64(enc) + `"`
			}
			f.Group = `"` + gt + `"`
			q = nil
			a, err := eddsa.NewPublic(m, 1)
			c.Check(err == nil, "NewPublic refuses the IDs %v: %v", ids, err)
			c.restoredPublic(a, want, "every ID")
			var p eddsa.Public
			err = json.Unmarshal(f.json(), &p)
			c.Check(err == nil, "public data of %v is refused: %v", ids, err)
			c.Check(p.Equal(a) && a.Equal(&p), "restored public data of %v is not equal", ids)
			var plain struct {
				T        int
				GroupKey string
				Shares   map[string]string
			}
			out := asJSON(c, a)
			ok := json.Unmarshal(out, &plain) == nil && plain.T == 1 && plain.GroupKey == gt && len(plain.Shares) == len(ids)
			for _, o := range ids {
				ok = ok && plain.Shares[fmt.Sprint(o)] == b64(want.shares[party.ID(o)])
			}
			c.Check(ok, "public data of %v is stored as %s", ids, clip(string(out), 900))
		}
	}
	c.Count("IDs enumerated", idChunk)
	c.Seen(c.Idx)
}

// ---- walks over encodings ----

// walk calls f with many consecutive points, each by the reference and by the library.
func (c *Case) walk(n int, f func(e *ristretto.Element, p *ref.Point)) {
	p := ref.MulBase(c.scalar())
	e := ptEl(p)
	d := ref.Base
	de := ristretto.NewGeneratorElement()
	if c.R.IntN(2) == 0 {
		d = ref.MulBase(c.scalar())
		de = ptEl(d)
	}
	for i := 0; i < n; i++ {
		f(e, p)
		p = p.Add(d)
		e.Add(e, de)
	}
	c.Count("points walked", n)
}

// encodingWalk: every value of every byte occurs in the encodings.
func encodingWalk(c *Case) {
	c.walk(400, func(e *ristretto.Element, p *ref.Point) {
		enc := p.Encode()
		c.Check(bytes.Equal(e.Bytes(), enc), "an element is encoded as %x instead of %x", e.Bytes(), enc)
		c.Check(bytes.Equal(e.BytesEd25519(), p.EncodeEd()), "an element is %x as an Ed25519 point instead of %x", e.BytesEd25519(), p.EncodeEd())
		var d ristretto.Element
		_, err := d.SetCanonicalBytes(enc)
		c.Check(err == nil && d.Equal(e) == 1 && e.Equal(&d) == 1, "the encoding %x is decoded wrongly: %v", enc, err)
		c.Check(bytes.Equal(d.Bytes(), enc), "the encoding %x becomes %x", enc, d.Bytes())
		for i, b := 0, d.Bytes(); i < len(b); i++ {
			b[i] ^= 0x5a
		}
		for i, b := 0, d.BytesEd25519(); i < len(b); i++ {
			b[i] ^= 0x5a
		}
		c.Check(bytes.Equal(d.Bytes(), enc) && bytes.Equal(d.BytesEd25519(), p.EncodeEd()), "the element %x changes with its earlier encodings", enc)
		c.Eval(3)
	})
	c.Seen(c.Idx)
}

// keyWalk: the same for keys and signatures.
func keyWalk(c *Case) {
	s := c.special()
	c.walk(400, func(e *ristretto.Element, p *ref.Point) {
		ed := p.EncodeEd()
		pk := eddsa.NewPublicKeyFromPoint(e)
		c.Check(bytes.Equal(pk.ToEd25519(), ed), "a key is %x as an Ed25519 key instead of %x", []byte(pk.ToEd25519()), ed)
		sig := &eddsa.Signature{R: *e, S: *bigSc(s)}
		c.Check(bytes.Equal(sig.ToEd25519(), append(append([]byte{}, ed...), ref.ToLE(s)...)), "a signature is %x as an Ed25519 signature instead of %x%x", sig.ToEd25519(), ed, ref.ToLE(s))
		// what was returned is the caller's
		for i := range pk.ToEd25519() {
			pk.ToEd25519()[i] ^= 0x5a
		}
		for i, b := 0, sig.ToEd25519(); i < len(b); i++ {
			b[i] ^= 0xa5
		}
		c.Check(bytes.Equal(pk.ToEd25519(), ed) && bytes.Equal(sig.ToEd25519()[:32], ed), "a key or signature changes with the result of an earlier conversion: %x, %x instead of %x", []byte(pk.ToEd25519()), sig.ToEd25519()[:32], ed)
		c.Eval(2)
	})
	c.Seen(c.Idx)
}

// patternedKeys: keys and nonces whose encodings have an unusual form sign and verify.
func patternedKeys(c *Case) {
	pick := func() *big.Int { return big.NewInt(patterned[c.R.IntN(len(patterned))]) }
	x, k := c.special(), c.special()
	i := big.NewInt(patterned[c.Idx/2%len(patterned)])
	if c.Idx%2 == 0 {
		x = i
		if c.R.IntN(2) == 0 {
			k = pick()
		}
	} else {
		k = i
	}
	if x.Sign() == 0 {
		x = pick()
	}
	a, r := ref.MulBase(x), ref.MulBase(k)
	pk := eddsa.NewPublicKeyFromPoint(c.rerep(ptEl(a)))
	c.Check(bytes.Equal(pk.ToEd25519(), a.EncodeEd()), "the key %x converts to %x", a.EncodeEd(), []byte(pk.ToEd25519()))
	for j := 0; j < 4; j++ {
		msg := c.message()
		ch := ref.SHash(r.EncodeEd(), a.EncodeEd(), msg)
		re := c.rerep(ptEl(r))
		c.Check(scBig(eddsa.ComputeChallenge(re, pk, msg)).Cmp(ch) == 0, "wrong challenge for R=%x A=%x", r.EncodeEd(), a.EncodeEd())
		s := ref.SAdd(k, ref.SMul(ch, x))
		sig := &eddsa.Signature{R: *re, S: *bigSc(s)}
		c.Check(bytes.Equal(sig.ToEd25519(), append(r.EncodeEd(), ref.ToLE(s)...)), "a signature converts to %x", sig.ToEd25519())
		ok := c.verifyAll(pk, msg, sig, "unusual encodings")
		c.Check(ok, "a valid signature is refused: key %x, R %x", a.EncodeEd(), r.EncodeEd())
		b, err := sig.MarshalBinary()
		var back eddsa.Signature
		c.Check(err == nil && back.UnmarshalBinary(b) == nil && c.verifyAll(pk, msg, &back, "restored"), "a stored signature is not valid: %x", b)
		bad := c.verifyAll(pk, msg, &eddsa.Signature{R: *re, S: *bigSc(ref.SAdd(s, ref.SInt(1)))}, "unusual encodings")
		c.Check(!bad, "an invalid signature is accepted: key %x, R %x", a.EncodeEd(), r.EncodeEd())
		// an unusual S, which fits another nonce
		s2 := c.patternedScalar()
		c.verifyAll(pk, msg, &eddsa.Signature{R: *re, S: *bigSc(s2)}, "unusual S")
	}
	c.Count("unusual encodings", 1)
	c.Seen(x, k)
}
