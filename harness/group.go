package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"fmt"
	"math/big"
	"reflect"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// gel is a group element of the library with its reference value.
type gel struct {
	e *ristretto.Element
	p *ref.Point
}

// element draws a group element in some internal representation.
func (c *Case) element() gel {
	var g gel
	switch c.R.IntN(9) {
	case 0:
		g = gel{ristretto.NewIdentityElement(), ref.Identity()}
	case 1:
		g = gel{ristretto.NewGeneratorElement(), ref.Base}
	case 2: // small multiples
		k := big.NewInt(int64(c.R.IntN(9) - 4))
		p := ref.MulBase(k)
		g = gel{ptEl(p), p}
	case 3: // uniform bytes, not normalised
		b := c.Bytes(64)
		e, err := ristretto.NewIdentityElement().SetUniformBytes(b)
		c.Check(err == nil, "SetUniformBytes refuses 64 bytes: %v", err)
		g = gel{e, ref.FromUniform(b)}
	case 4: // identity with torsion
		g = gel{c.torsion4(), ref.Identity()}
	default:
		p := ref.MulBase(c.scalar())
		g = gel{ptEl(p), p}
	}
	if c.R.IntN(2) == 0 {
		g.e = c.rerep(g.e)
	}
	return g
}

// receiver draws a receiver: some valid element, unrelated.
func (c *Case) receiver() *ristretto.Element { return c.element().e }

// is compares an element with the reference in all its forms.
func (c *Case) is(e *ristretto.Element, p *ref.Point, what string) {
	enc := p.Encode()
	got := e.Bytes()
	c.Check(bytes.Equal(got, enc), "%s: the encoding is %x instead of %x", what, got, enc)
	c.Check(e.Equal(ptEl(p)) == 1 && ptEl(p).Equal(e) == 1, "%s: Equal denies %x", what, enc)
	c.Eval(2)
}

func (c *Case) isFull(e *ristretto.Element, p *ref.Point, what string) {
	c.is(e, p, what)
	ed := e.BytesEd25519()
	want := p.Prime().EncodeEd()
	c.Check(bytes.Equal(ed, want), "%s: the Ed25519 form of %x is %x instead of %x", what, p.Encode(), ed, want)
	q, _, ok := ref.DecodeEd(ed)
	c.Check(ok && q.Mul(ref.L).EqualEd(ref.Identity()), "%s: the Ed25519 form %x is not in the prime-order subgroup", what, ed)
	// reading it does not change it, nor do writes to the results
	enc := e.Bytes()
	for i := range enc {
		enc[i] ^= 0x5a
	}
	for i := range ed {
		ed[i] ^= 0x5a
	}
	c.Check(bytes.Equal(e.Bytes(), p.Encode()) && bytes.Equal(e.BytesEd25519(), want), "%s: the element changes when its encoding is overwritten", what)
	t, err := e.MarshalText()
	c.Check(err == nil && string(t) == base64.StdEncoding.EncodeToString(p.Encode()), "%s: text form %s, %v", what, t, err)
	c.Check(e.String() == string(t), "%s: String is %s", what, e.String())
	r := c.receiver()
	c.Check(r.UnmarshalText(t) == nil && bytes.Equal(r.Bytes(), p.Encode()), "%s: the text form is not restored", what)
	r = c.receiver()
	_, err = r.SetCanonicalBytes(p.Encode())
	c.Check(err == nil && bytes.Equal(r.BytesEd25519(), want), "%s: the encoding is not restored", what)
	c.Count("elements compared in all forms", 1)
	c.Eval(6)
}

// operations applies every operation once, with drawn aliasing.
func groupOps(c *Case) {
	for round := 0; round < 6; round++ {
		a, b := c.element(), c.element()
		if c.R.IntN(4) == 0 {
			b = a
		}
		if c.R.IntN(6) == 0 { // the same or opposite value, another representation
			b = gel{c.rerep(a.e), a.p}
		} else if c.R.IntN(6) == 0 {
			b = gel{c.rerep(ristretto.NewIdentityElement().Negate(a.e)), a.p.Neg()}
		}
		x, y := c.special(), c.special()
		sx, sy := bigSc(x), bigSc(y)
		recv := func(name string, f func(e, p, q *ristretto.Element) *ristretto.Element, want *ref.Point) {
			p, q := ristretto.NewIdentityElement().Set(a.e), ristretto.NewIdentityElement().Set(b.e)
			e := c.receiver()
			al := c.R.IntN(4)
			if a.e == b.e {
				q = p
			}
			switch al {
			case 1:
				e = p
			case 2:
				e = q
			}
			out := f(e, p, q)
			what := fmt.Sprintf("%s, aliasing %d, operands %x %x, scalars %v %v", name, al, a.p.Encode(), b.p.Encode(), x, y)
			c.Check(out == e, "%s does not return its receiver", name)
			if round == 0 {
				c.isFull(e, want, what)
			} else {
				c.is(e, want, what)
			}
			if e != p {
				c.Check(bytes.Equal(p.Bytes(), a.p.Encode()), "%s alters its first operand", what)
			}
			if e != q {
				c.Check(bytes.Equal(q.Bytes(), b.p.Encode()), "%s alters its second operand", what)
			}
			c.Check(scBig(sx).Cmp(x) == 0 && scBig(sy).Cmp(y) == 0, "%s alters a scalar", what)
			c.Count(name, 1)
			c.Eval(1)
		}
		E := func(f func(e, p, q *ristretto.Element) *ristretto.Element) func(e, p, q *ristretto.Element) *ristretto.Element {
			return f
		}
		recv("Add", E(func(e, p, q *ristretto.Element) *ristretto.Element { return e.Add(p, q) }), a.p.Add(b.p))
		recv("Subtract", E(func(e, p, q *ristretto.Element) *ristretto.Element { return e.Subtract(p, q) }), a.p.Sub(b.p))
		recv("Negate", E(func(e, p, q *ristretto.Element) *ristretto.Element { return e.Negate(p) }), a.p.Neg())
		recv("Set", E(func(e, p, q *ristretto.Element) *ristretto.Element { return e.Set(p) }), a.p)
		recv("ScalarBaseMult", E(func(e, p, q *ristretto.Element) *ristretto.Element { return e.ScalarBaseMult(sx) }), ref.MulBase(x))
		recv("ScalarMult", E(func(e, p, q *ristretto.Element) *ristretto.Element { return e.ScalarMult(sx, p) }), a.p.Mul(x))
		recv("VarTimeDoubleScalarBaseMult", E(func(e, p, q *ristretto.Element) *ristretto.Element { return e.VarTimeDoubleScalarBaseMult(sx, p, sy) }), a.p.Mul(x).Add(ref.MulBase(y)))
		recv("MultiScalarMult of 2", E(func(e, p, q *ristretto.Element) *ristretto.Element {
			return e.MultiScalarMult([]*ristretto.Scalar{sx, sy}, []*ristretto.Element{p, q})
		}), a.p.Mul(x).Add(b.p.Mul(y)))
		recv("VarTimeMultiScalarMult of 2", E(func(e, p, q *ristretto.Element) *ristretto.Element {
			return e.VarTimeMultiScalarMult([]*ristretto.Scalar{sx, sy}, []*ristretto.Element{p, q})
		}), a.p.Mul(x).Add(b.p.Mul(y)))
		// equality
		want := 0
		if a.p.Equal(b.p) {
			want = 1
		}
		c.Check(a.e.Equal(b.e) == want && b.e.Equal(a.e) == want, "Equal(%x, %x) = %d", a.p.Encode(), b.p.Encode(), a.e.Equal(b.e))
		c.Check(bytes.Equal(a.e.Bytes(), b.e.Bytes()) == (want == 1), "encodings %x and %x, equality %d", a.e.Bytes(), b.e.Bytes(), want)
		c.Check(c.rerep(a.e).Equal(a.e) == 1, "an element does not equal itself in another representation")
		c.Count(fmt.Sprintf("equalities that are %d", want), 1)
		c.Eval(3)
		c.Seen(a.p.Encode(), b.p.Encode(), x, y)
	}
	// different elements that are close in the wrong ways
	a := c.element()
	for _, q := range []*ref.Point{a.p.Neg(), a.p.Add(ref.Base), a.p.Add(a.p)} {
		e := c.rerep(ptEl(q))
		want := 0
		if q.Equal(a.p) {
			want = 1
		}
		c.Check(a.e.Equal(e) == want && e.Equal(a.e) == want, "Equal(%x, %x) = %d", a.p.Encode(), q.Encode(), a.e.Equal(e))
	}
	c.isFull(ristretto.NewIdentityElement(), ref.Identity(), "identity")
	c.isFull(ristretto.NewGeneratorElement(), ref.Base, "generator")
}

// multiMults: multi-scalar multiplications of any length and aliasing.
func multiMults(c *Case) {
	n := []int{0, 1, 2, 3, 4, 5, 8, 17, 33, 65, 130, 257, 600, 1030}[c.R.IntN(14)]
	var gs []gel
	var ss []*ristretto.Scalar
	var es []*ristretto.Element
	want := ref.Identity()
	sums := map[*ristretto.Element]*big.Int{} // of the scalars that multiply an object
	for i := 0; i < n; i++ {
		var g gel
		if i > 32 || i > 0 && c.R.IntN(4) == 0 {
			g = gs[c.R.IntN(i)] // the same object again
		} else {
			g = c.element()
		}
		x := c.special()
		gs = append(gs, g)
		es = append(es, g.e)
		ss = append(ss, bigSc(x))
		if sums[g.e] == nil {
			sums[g.e] = new(big.Int)
		}
		sums[g.e].Mod(sums[g.e].Add(sums[g.e], x), ref.L)
	}
	for i, g := range gs {
		if s := sums[g.e]; s != nil {
			want = want.Add(gs[i].p.Mul(s))
			delete(sums, g.e)
		}
	}
	for k, name := range []string{"MultiScalarMult", "VarTimeMultiScalarMult"} {
		e := c.receiver()
		alias := -1
		if n > 0 && c.R.IntN(2) == 0 {
			alias = c.R.IntN(n)
		}
		in := append([]*ristretto.Element{}, es...)
		if alias >= 0 {
			e = ristretto.NewIdentityElement().Set(es[alias])
			for i := range in {
				if in[i] == es[alias] {
					in[i] = e
				}
			}
		}
		var out *ristretto.Element
		if k == 0 {
			out = e.MultiScalarMult(ss, in)
		} else {
			out = e.VarTimeMultiScalarMult(ss, in)
		}
		c.Check(out == e, "%s does not return its receiver", name)
		c.is(e, want, fmt.Sprintf("%s of %d terms, receiver is operand %d", name, n, alias))
		for i := range gs {
			if i < 40 || i%97 == 0 {
				c.Check(bytes.Equal(gs[i].e.Bytes(), gs[i].p.Encode()), "%s alters operand %d", name, i)
			}
		}
		c.Count(name+" of any length", 1)
	}
	c.Seen(n, want.Encode())
}

// decodings: exactly the canonical encodings are decoded.
func decodings(c *Case) {
	for k := 0; k < 24; k++ {
		var b []byte
		switch c.R.IntN(6) {
		case 0:
			b = c.encPoint()
		case 1, 2:
			b = c.badPoint()
		case 3:
			b = c.Bytes([]int{0, 1, 31, 33, 63, 64}[c.R.IntN(6)])
			if c.R.IntN(2) == 0 {
				b = append(c.encPoint(), c.Bytes(1+c.R.IntN(3))...)
			}
			if c.R.IntN(4) == 0 {
				b = c.encPoint()[:31]
			}
		case 4: // small even values
			b = ref.ToLE(big.NewInt(int64(c.R.IntN(1000))))
		case 5: // values close to p
			b = ref.ToLE(new(big.Int).Sub(ref.P, big.NewInt(int64(c.R.IntN(400)))))
		}
		want, ok := ref.Decode(b)
		for form := 0; form < 2; form++ {
			r := c.element()
			before := *r.e
			var err error
			var out *ristretto.Element
			in := append([]byte{}, b...)
			if form == 0 {
				out, err = r.e.SetCanonicalBytes(in)
				c.Check(err != nil || out == r.e, "SetCanonicalBytes does not return its receiver")
				c.Check(err == nil || out == nil, "SetCanonicalBytes returns an element with an error")
			} else {
				err = r.e.UnmarshalText([]byte(base64.StdEncoding.EncodeToString(b)))
			}
			c.Check((err == nil) == ok, "decoding %x: %v, the reference says %v", b, err, ok)
			if ok {
				for i := range in {
					in[i] ^= 0xff
				}
				c.is(r.e, want, fmt.Sprintf("decoding %x", b))
				c.Check(bytes.Equal(r.e.Bytes(), b), "%x decodes to %x", b, r.e.Bytes())
				c.Count("encodings decoded", 1)
			} else {
				c.Check(reflect.DeepEqual(*r.e, before), "a failed decoding of %x changes the receiver", b)
				c.is(r.e, r.p, "receiver of a failed decoding")
				c.Count("encodings refused", 1)
			}
			c.Eval(1)
		}
		c.Seen(b)
	}
	// text forms that are no base64
	for _, s := range []string{"", "A", "!!!!", "AAAA", base64.StdEncoding.EncodeToString(c.encPoint())[:43], base64.StdEncoding.EncodeToString(c.encPoint()) + "A", fmt.Sprintf("%x", c.encPoint())} {
		r := c.element()
		before := *r.e
		c.Check(r.e.UnmarshalText([]byte(s)) != nil, "the text %q is decoded", s)
		c.Check(reflect.DeepEqual(*r.e, before), "a failed decoding of %q changes the receiver", s)
		c.Eval(1)
	}
}

// uniform: the map from uniform bytes.
func uniforms(c *Case) {
	for k := 0; k < 10; k++ {
		b := c.Bytes(64)
		switch c.R.IntN(6) {
		case 0:
			copy(b, make([]byte, 32))
		case 1:
			copy(b[32:], b[:32])
		case 2:
			for i := range b {
				b[i] = 0xff
			}
		case 3:
			copy(b, ref.ToLE(new(big.Int).Add(ref.P, big.NewInt(int64(c.R.IntN(19))))))
		case 4:
			copy(b[c.R.IntN(2)*32:], ref.ToLE(ref.SInt(int64(c.R.IntN(3)))))
		}
		in := append([]byte{}, b...)
		e := c.receiver()
		out, err := e.SetUniformBytes(in)
		c.Check(err == nil && out == e, "SetUniformBytes: %v", err)
		c.Check(bytes.Equal(in, b), "SetUniformBytes alters its input")
		c.isFull(e, ref.FromUniform(b), fmt.Sprintf("SetUniformBytes(%x)", b))
		c.Count("uniform strings mapped", 1)
		c.Seen(b)
	}
	for _, n := range []int{0, 1, 31, 32, 33, 63, 65, 96, 128} {
		r := c.element()
		before := *r.e
		out, err := r.e.SetUniformBytes(c.Bytes(n))
		c.Check(err != nil && out == nil, "SetUniformBytes accepts %d bytes", n)
		c.Check(reflect.DeepEqual(*r.e, before), "a failed SetUniformBytes changes the receiver")
		c.Eval(1)
	}
}

// formulas: long random computations against the reference.
func formulas(c *Case) {
	var gs []gel
	for i := 0; i < 4; i++ {
		gs = append(gs, c.element())
	}
	hist := ""
	for k := 0; k < 30; k++ {
		i, j, l := c.R.IntN(4), c.R.IntN(4), c.R.IntN(4)
		x, y := c.special(), c.special()
		op := c.R.IntN(8)
		d, a, b := gs[i].e, gs[j], gs[l]
		var p *ref.Point
		switch op {
		case 0:
			p = a.p.Add(b.p)
			d.Add(a.e, b.e)
		case 1:
			p = a.p.Sub(b.p)
			d.Subtract(a.e, b.e)
		case 2:
			p = a.p.Neg()
			d.Negate(a.e)
		case 3:
			p = a.p.Mul(x)
			d.ScalarMult(bigSc(x), a.e)
		case 4:
			p = a.p.Mul(x).Add(ref.MulBase(y))
			d.VarTimeDoubleScalarBaseMult(bigSc(x), a.e, bigSc(y))
		case 5:
			p = a.p.Mul(x).Add(b.p.Mul(y))
			d.MultiScalarMult([]*ristretto.Scalar{bigSc(x), bigSc(y)}, []*ristretto.Element{a.e, b.e})
		case 6:
			p = a.p.Mul(x).Add(b.p.Mul(y))
			d.VarTimeMultiScalarMult([]*ristretto.Scalar{bigSc(x), bigSc(y)}, []*ristretto.Element{a.e, b.e})
		case 7:
			p = a.p
			_, err := d.SetCanonicalBytes(a.e.Bytes())
			c.Check(err == nil, "an encoding is not decoded: %v", err)
		}
		gs[i].p = p
		hist += fmt.Sprint(op, i, j, l, " ")
		c.is(d, p, "after "+hist)
	}
	for _, g := range gs {
		c.isFull(g.e, g.p, "after "+hist)
	}
	c.Count("computations of 30 operations", 1)
	c.Seen(hist)
	c.Sample(map[string]any{"operations": clip(hist, 200), "result": fmt.Sprintf("%x", gs[0].e.Bytes())})
}

func init() {
	register(&Prop{ID: "C11", Parts: []Part{
		{"operations", 320, 12000, groupOps},
		{"multi", 300, 12000, multiMults},
		{"decode", 240, 12000, decodings},
		{"uniform", 120, 6000, uniforms},
		{"formulas", 120, 6000, formulas},
		{"walk", 64, 6400, encodingWalk},
		{"objects", 160, 16000, elementHistory},
	}, Rule: "an execution counts if operations were evaluated by the library and the reference; distinct by operands, byte string or operation sequence",
		Least: map[string]int64{"points walked": 20000, "elements compared in all forms": 3000, "equalities that are 1": 200, "equalities that are 0": 800, "encodings decoded": 800, "encodings refused": 3000, "computations of 30 operations": 100, "MultiScalarMult of any length": 200}})
}

// ---- C12 ----

// stdSig converts an arbitrary R, S pair to the standard form.
func (c *Case) verifyAll(pk *eddsa.PublicKey, msg []byte, sig *eddsa.Signature, what string) bool {
	pub := pk.ToEd25519()
	raw := sig.ToEd25519()
	c.Check(len(pub) == 32 && len(raw) == 64, "%s: converted lengths %d, %d", what, len(pub), len(raw))
	m := append([]byte{}, msg...)
	got := pk.Verify(m, sig)
	std := ed25519.Verify(pub, msg, raw)
	rf := ref.VerifyEd(pub, msg, raw)
	c.Check(std == rf, "harness: crypto/ed25519 says %v, the reference %v: pub=%x msg=%x sig=%x", std, rf, []byte(pub), msg, raw)
	c.Check(got == std, "%s: PublicKey.Verify says %v, standard Ed25519 says %v: pub=%x msg=%x sig=%x", what, got, std, []byte(pub), clip(string(msg), 100), raw)
	c.Check(bytes.Equal(m, msg), "Verify alters the message")
	c.Check(bytes.Equal(pk.ToEd25519(), pub) && bytes.Equal(sig.ToEd25519(), raw), "Verify alters key or signature")
	c.Count(fmt.Sprintf("signatures that are valid: %v", std), 1)
	c.Eval(1)
	return got
}

func verifyVariants(c *Case) {
	x := c.special()
	a := ref.MulBase(x)
	msg := c.message()
	pk := eddsa.NewPublicKeyFromPoint(c.rerep(ptEl(a)))
	c.Check(bytes.Equal(pk.ToEd25519(), a.EncodeEd()), "the key %x converts to %x", a.EncodeEd(), []byte(pk.ToEd25519()))
	k := c.special()
	r := ref.MulBase(k)
	re := c.rerep(ptEl(r))
	ch := ref.SHash(r.EncodeEd(), a.EncodeEd(), msg)
	got := scBig(eddsa.ComputeChallenge(re, pk, msg))
	c.Check(got.Cmp(ch) == 0, "the challenge is %v instead of SHA-512(R,A,M) = %v for R=%x A=%x M=%x", got, ch, r.EncodeEd(), a.EncodeEd(), clip(string(msg), 100))
	c.Count("challenges compared", 1)
	s := ref.SAdd(k, ref.SMul(ch, x))
	mk := func(r *ref.Point, s *big.Int) *eddsa.Signature {
		return &eddsa.Signature{R: *c.rerep(ptEl(r)), S: *bigSc(s)}
	}
	ok := c.verifyAll(pk, msg, mk(r, s), "valid signature")
	c.Check(ok, "a valid signature is refused: key %x, R %x", a.EncodeEd(), r.EncodeEd())
	// altered
	for i, t := range []*big.Int{ref.SNeg(s), ref.SAdd(s, ref.SInt(1)), ref.SSub(s, ref.SInt(1)), new(big.Int), c.scalar(), k, x, ref.SAdd(k, x), ref.SSub(k, ref.SMul(ch, x)), ref.SMul(ch, x), ref.SAdd(s, s)} {
		c.verifyAll(pk, msg, mk(r, t), fmt.Sprintf("altered S %d", i))
	}
	for i, q := range []*ref.Point{r.Neg(), r.Add(ref.Base), ref.Identity(), ref.Base, a, ref.MulBase(c.scalar()), ref.MulBase(s), ref.MulBase(s).Sub(a.Mul(ch)), r.Add(r)} {
		c.verifyAll(pk, msg, mk(q, s), fmt.Sprintf("altered R %d", i))
		// with the S that fits the equation for the old challenge, or the new one
		c2 := ref.SHash(q.EncodeEd(), a.EncodeEd(), msg)
		c.verifyAll(pk, msg, mk(ref.MulBase(c.scalar()), ref.SMul(c2, x)), fmt.Sprintf("altered R %d", i))
	}
	for i, q := range []*ref.Point{a.Neg(), a.Add(ref.Base), ref.Identity(), ref.Base, r, ref.MulBase(c.scalar())} {
		c.verifyAll(eddsa.NewPublicKeyFromPoint(c.rerep(ptEl(q))), msg, mk(r, s), fmt.Sprintf("another key %d", i))
	}
	msgs := [][]byte{append(append([]byte{}, msg...), 0), nil, {0}, c.Bytes(len(msg))}
	if len(msg) > 0 {
		msgs = append(msgs, msg[:len(msg)-1], msg[1:])
		for j := 0; j < 4; j++ {
			m := append([]byte{}, msg...)
			m[c.R.IntN(len(m))] ^= 1 << c.R.IntN(8)
			msgs = append(msgs, m)
		}
		m := append([]byte{}, msg...)
		m[len(m)-1] ^= 0x80
		msgs = append(msgs, m)
	}
	for _, m := range msgs {
		c.verifyAll(pk, m, mk(r, s), "another message")
	}
	// signatures that fit a challenge composed otherwise
	for i, ch2 := range []*big.Int{ref.SHash(r.Encode(), a.EncodeEd(), msg), ref.SHash(r.EncodeEd(), a.Encode(), msg), ref.SHash(r.Encode(), a.Encode(), msg), ref.SHash(a.EncodeEd(), r.EncodeEd(), msg), ref.SHash(r.EncodeEd(), msg), ref.SHash(a.EncodeEd(), msg), ref.SHash(r.EncodeEd(), a.EncodeEd()), ref.SHash(msg), new(big.Int), ref.SInt(1), ref.SNeg(ch),
		ref.SHash(r.EncodeEd(), a.EncodeEd(), clipB(msg, 64))} {
		c.verifyAll(pk, msg, mk(r, ref.SAdd(k, ref.SMul(ch2, x))), fmt.Sprintf("other challenge %d", i))
	}
	// degenerate: signatures under the identity key and with identity R
	id := eddsa.NewPublicKeyFromPoint(c.rerep(ristretto.NewIdentityElement()))
	c.verifyAll(id, msg, mk(ref.MulBase(k), k), "identity key")
	c.verifyAll(id, msg, mk(ref.Identity(), new(big.Int)), "identity key, identity R")
	c.verifyAll(id, msg, mk(ref.Identity(), s), "identity key, identity R")
	c0 := ref.SHash(ref.Identity().EncodeEd(), a.EncodeEd(), msg)
	c.verifyAll(pk, msg, mk(ref.Identity(), ref.SMul(c0, x)), "identity R")
	c.Seen(x, k, msg)
	c.Sample(map[string]any{"key": fmt.Sprintf("%x", a.EncodeEd()), "message bytes": len(msg), "valid": ok})
}

func clipB(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// importEd brings a standard Ed25519 point into the library through its encoding.
func importEd(c *Case, ed []byte) (*ristretto.Element, *ref.Point) {
	p, canon, ok := ref.DecodeEd(ed)
	c.Check(ok && canon, "harness: bad Ed25519 point")
	return ptEl(p), p
}

// standard keys and signatures.
func standardSigs(c *Case) {
	seed := c.Bytes(32)
	priv := ed25519.NewKeyFromSeed(seed)
	pub := priv.Public().(ed25519.PublicKey)
	e, _ := importEd(c, pub)
	pk := eddsa.NewPublicKeyFromPoint(c.rerep(e))
	c.Check(bytes.Equal(pk.ToEd25519(), pub), "the standard key %x converts back to %x", []byte(pub), []byte(pk.ToEd25519()))
	c.Check(pk.Equal(eddsa.NewPublicKeyFromPoint(e)), "a key does not equal itself")
	c.Check(!pk.Equal(eddsa.NewPublicKeyFromPoint(ptEl(ref.MulBase(c.scalar())))), "different keys are equal")
	for j := 0; j < 6; j++ {
		msg := c.message()
		raw := ed25519.Sign(priv, msg)
		re, rp := importEd(c, raw[:32])
		s := ref.LE(raw[32:])
		sig := &eddsa.Signature{R: *c.rerep(re), S: *bigSc(s)}
		c.Check(bytes.Equal(sig.ToEd25519(), raw), "the standard signature %x converts back to %x", raw, sig.ToEd25519())
		c.Check(c.verifyAll(pk, msg, sig, "standard signature"), "a standard signature is refused")
		// through the library's encoding
		b, err := sig.MarshalBinary()
		c.Check(err == nil, "a signature cannot be encoded: %v", err)
		var sig2 eddsa.Signature
		c.Check(sig2.UnmarshalBinary(b) == nil, "an encoded signature is refused")
		c.Check(bytes.Equal(sig2.ToEd25519(), raw) && sig2.Equal(sig), "a signature is not restored")
		c.Check(c.verifyAll(pk, msg, &sig2, "decoded standard signature"), "a decoded standard signature is refused")
		// a bit flipped in the signature, where the result is still representable
		for q := 0; q < 6; q++ {
			m := append([]byte{}, raw...)
			m[32+c.R.IntN(31)] ^= 1 << c.R.IntN(8)
			if v, ok := ref.SCanon(m[32:]); ok {
				got := c.verifyAll(pk, msg, &eddsa.Signature{R: *c.rerep(re), S: *bigSc(v)}, "flipped bit")
				c.Check(!got, "a signature with a flipped bit is accepted")
			}
		}
		_ = rp
		c.Count("standard signatures", 1)
		c.Seen(raw)
	}
}

func init() {
	register(&Prop{ID: "C12", Parts: []Part{
		{"variants", 240, 10000, verifyVariants},
		{"standard", 240, 10000, standardSigs},
		{"walk", 64, 6400, keyWalk},
		{"buffers", 400, 20000, reusedBuffers},
		{"objects", 240, 20000, keyHistory},
		{"patterns", 160, 16000, patternedKeys},
	}, Rule: "an execution counts if a signature was judged by the library, crypto/ed25519 and the reference; distinct by key and message, or signature",
		Least: map[string]int64{"points walked": 20000, "unusual encodings": 120, "signatures that are valid: true": 1500, "signatures that are valid: false": 5000, "standard signatures": 1000, "challenges compared": 200}})
}
