package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// Objects with a history: they are changed in all ways there are and asked for everything
// they can tell after each change, so that nothing computed earlier may be given as an answer.

func elementHistory(c *Case) {
	const k = 4
	es := make([]*ristretto.Element, k)
	ps := make([]*ref.Point, k)
	for i := range es {
		es[i], ps[i] = ristretto.NewIdentityElement(), ref.Identity()
	}
	s := make([]*ristretto.Scalar, 2)
	xs := make([]*big.Int, 2)
	for i := range s {
		xs[i] = c.special()
		s[i] = bigSc(xs[i])
	}
	hist := ""
	for step := 0; step < 24; step++ {
		i, j, l := c.R.IntN(k), c.R.IntN(k), c.R.IntN(k)
		e := es[i]
		op := c.R.IntN(15)
		switch op {
		case 0:
			e.Set(es[j])
			ps[i] = ps[j]
		case 1:
			e.Add(es[j], es[l])
			ps[i] = ps[j].Add(ps[l])
		case 2:
			e.Subtract(es[j], es[l])
			ps[i] = ps[j].Sub(ps[l])
		case 3:
			e.Negate(es[j])
			ps[i] = ps[j].Neg()
		case 4:
			e.ScalarMult(s[0], es[j])
			ps[i] = ps[j].Mul(xs[0])
		case 5:
			e.ScalarBaseMult(s[0])
			ps[i] = ref.MulBase(xs[0])
		case 6:
			e.MultiScalarMult(s, []*ristretto.Element{es[j], es[l]})
			ps[i] = ps[j].Mul(xs[0]).Add(ps[l].Mul(xs[1]))
		case 7:
			e.VarTimeMultiScalarMult(s, []*ristretto.Element{es[j], es[l]})
			ps[i] = ps[j].Mul(xs[0]).Add(ps[l].Mul(xs[1]))
		case 8:
			e.VarTimeDoubleScalarBaseMult(s[0], es[j], s[1])
			ps[i] = ps[j].Mul(xs[0]).Add(ref.MulBase(xs[1]))
		case 9:
			p := ref.MulBase(c.special())
			_, err := e.SetCanonicalBytes(p.Encode())
			c.Check(err == nil, "SetCanonicalBytes refuses %x", p.Encode())
			ps[i] = p
		case 10:
			b := append([]byte{}, ps[i].Encode()...)
			b[31] |= 0x80
			_, err := e.SetCanonicalBytes(b)
			c.Check(err != nil, "SetCanonicalBytes accepts %x", b)
		case 11:
			b := make([]byte, 64)
			for q := range b {
				b[q] = byte(c.R.IntN(256))
			}
			_, err := e.SetUniformBytes(b)
			c.Check(err == nil, "SetUniformBytes fails")
			ps[i] = ref.FromUniform(b)
		case 12:
			t, err := es[j].MarshalText()
			c.Check(err == nil && e.UnmarshalText(t) == nil, "the text of an element is refused")
			ps[i] = ps[j]
		case 13:
			*e = *es[j]
			ps[i] = ps[j]
		case 14: // the scalars change in place
			q := c.R.IntN(2)
			switch c.R.IntN(3) {
			case 0:
				s[q].Add(s[q], s[1-q])
				xs[q] = ref.SAdd(xs[q], xs[1-q])
			case 1:
				s[q].Multiply(s[q], s[1-q])
				xs[q] = ref.SMul(xs[q], xs[1-q])
			default:
				xs[q] = c.special()
				s[q].Set(bigSc(xs[q]))
			}
		}
		hist += fmt.Sprintf(" %d:%d,%d,%d", op, i, j, l)
		for _, q := range []int{i, c.R.IntN(k)} {
			e, p := es[q], ps[q]
			want := p.Encode()
			c.Check(bytes.Equal(e.Bytes(), want), "element %d is %x instead of %x, history%s", q, e.Bytes(), want, hist)
			c.Check(bytes.Equal(e.BytesEd25519(), p.Prime().EncodeEd()), "element %d has the wrong Ed25519 form, history%s", q, hist)
			fresh := ptEl(p)
			c.Check(e.Equal(fresh) == 1 && fresh.Equal(e) == 1, "element %d does not equal its value, history%s", q, hist)
			o := c.R.IntN(k)
			same := ps[o].Equal(p)
			c.Check((e.Equal(es[o]) == 1) == same, "Equal of elements %d and %d is not %v, history%s", q, o, same, hist)
			c.Eval(1)
		}
	}
	c.Count("histories of objects", 1)
	c.Seen("elements", hist)
}

func exponentHistory(c *Case) {
	const k = 3
	es := make([]*polynomial.Exponent, k)
	cs := make([][]*big.Int, k) // nil: unspecified
	deg := 1 + c.R.IntN(4)
	idx := []*big.Int{big.NewInt(1), big.NewInt(int64(c.id())), c.special()}
	if idx[2].Sign() == 0 {
		idx[2] = big.NewInt(2)
	}
	fresh := func() ([]*big.Int, []byte) {
		d := deg
		if c.R.IntN(4) == 0 {
			d = c.R.IntN(5)
		}
		var co []*big.Int
		b := be16(party.ID(d))
		for i := 0; i <= d; i++ {
			x := c.scalar()
			co = append(co, x)
			b = append(b, ref.MulBase(x).Encode()...)
		}
		return co, b
	}
	hist := ""
	for i := range es {
		es[i] = new(polynomial.Exponent)
	}
	for step := 0; step < 16; step++ {
		i, j := c.R.IntN(k), c.R.IntN(k)
		e := es[i]
		op := c.R.IntN(8)
		if cs[i] == nil {
			op = 0
		}
		if cs[j] == nil {
			j = i
		}
		switch op {
		case 0, 1:
			co, b := fresh()
			c.Check(e.UnmarshalBinary(b) == nil, "a committed polynomial is not decoded, history%s", hist)
			cs[i] = co
		case 2, 3:
			err := e.Add(es[j])
			c.Check((err == nil) == (len(cs[i]) == len(cs[j])), "Add of degrees %d and %d gives %v, history%s", len(cs[i])-1, len(cs[j])-1, err, hist)
			if err == nil {
				var sum []*big.Int
				for q := range cs[i] {
					sum = append(sum, ref.SAdd(cs[i][q], cs[j][q]))
				}
				cs[i] = sum
			}
		case 4:
			es[i] = es[j].Copy()
			cs[i] = cs[j]
		case 5:
			e.Reset()
			cs[i] = nil
		case 6:
			s, err := polynomial.Sum([]*polynomial.Exponent{es[j]})
			c.Check(err == nil, "Sum of one polynomial fails: %v", err)
			es[i], cs[i] = s, cs[j]
		case 7: // what it returned is the caller's
			x := bigSc(idx[0])
			v := e.Evaluate(x)
			v.Add(v, v)
			v = e.Constant()
			v.Add(v, v)
			b, _ := e.MarshalBinary()
			for q := range b {
				b[q] ^= 0xff
			}
		}
		hist += fmt.Sprintf(" %d:%d,%d", op, i, j)
		for q := range es {
			if cs[q] == nil {
				continue
			}
			for _, x := range idx {
				want := ref.MulBase(ref.Poly(cs[q], x)).Encode()
				got := es[q].Evaluate(bigSc(x))
				c.Check(bytes.Equal(got.Bytes(), want), "polynomial %d at %v gives %x instead of %x, history%s", q, x, got.Bytes(), want, hist)
			}
			var all []byte
			for _, x := range cs[q] {
				all = append(all, ref.MulBase(x).Encode()...)
			}
			b, err := es[q].MarshalBinary()
			c.Check(err == nil && bytes.Equal(b[2:], all), "polynomial %d is not what it should be, history%s", q, hist)
			c.Check(int(es[q].Degree()) == len(cs[q])-1 && es[q].Size() == len(b) && bytes.Equal(es[q].Constant().Bytes(), all[:32]), "degree, size or constant of polynomial %d are wrong, history%s", q, hist)
			c.Eval(1)
		}
	}
	c.Count("histories of objects", 1)
	c.Seen("exponents", hist)
}

// messageHistory: the fields of a message are its caller's.
func messageHistory(c *Case) {
	m := new(messages.Message)
	var b []byte
	hist := ""
	for step := 0; step < 12; step++ {
		op := c.R.IntN(6)
		if step == 0 {
			op = 0
		}
		switch op {
		case 0:
			b = c.encMessage()
			if c.R.IntN(2) == 0 {
				m = new(messages.Message)
			}
			c.Check(m.UnmarshalBinary(b) == nil, "a valid message is refused, history%s", hist)
		case 1:
			m.From = c.id()
			copy(b[1:3], be16(m.From))
		case 2:
			if m.Type == messages.MessageTypeKeyGen2 {
				m.To = c.id()
				copy(b[3:5], be16(m.To))
			}
		case 3: // content in place
			x := c.encScalar()
			p := c.encPoint()
			switch m.Type {
			case messages.MessageTypeKeyGen1:
				sc, _ := new(ristretto.Scalar).SetCanonicalBytes(x)
				m.KeyGen1.Proof.R.Set(sc)
				copy(b[5+32:], x)
			case messages.MessageTypeKeyGen2:
				_, err := m.KeyGen2.Share.SetCanonicalBytes(x)
				c.Check(err == nil, "a scalar is refused")
				copy(b[5:], x)
			case messages.MessageTypeSign1:
				_, err := m.Sign1.Ei.SetCanonicalBytes(p)
				c.Check(err == nil, "a point is refused")
				copy(b[len(b)-32:], p)
			case messages.MessageTypeSign2:
				_, err := m.Sign2.Zi.SetCanonicalBytes(x)
				c.Check(err == nil, "a scalar is refused")
				copy(b[len(b)-32:], x)
			}
		case 4: // a copy of the structure, which is changed afterwards
			o := *m
			o.From = c.id()
			m = &o
			copy(b[1:3], be16(o.From))
		case 5:
			if m.Type == messages.MessageTypeKeyGen1 {
				e := c.encExponent()
				c.Check(m.KeyGen1.Commitments.UnmarshalBinary(e) == nil, "a polynomial is refused")
				b = append(append([]byte{}, b[:5+64]...), e...)
			}
		}
		hist += fmt.Sprintf(" %d(%d)", op, m.Type)
		got, err := m.MarshalBinary()
		c.Check(err == nil && bytes.Equal(got, b), "the message is encoded as %x instead of %x, history%s", got, b, hist)
		c.Check(m.Size() == len(b), "Size is %d instead of %d, history%s", m.Size(), len(b), hist)
		got, err = m.BytesAppend([]byte{1, 2, 3})
		c.Check(err == nil && bytes.Equal(got[3:], b) && bytes.Equal(got[:3], []byte{1, 2, 3}), "BytesAppend gives %x instead of 010203%x, history%s", got, b, hist)
		var f messages.Message
		c.Check(f.UnmarshalBinary(b) == nil, "the encoding of a message is refused, history%s", hist)
		c.Check(f.Equal(m) && m.Equal(&f), "a message does not equal what is decoded from its encoding, history%s", hist)
		c.Eval(1)
	}
	c.Count("histories of objects", 1)
	c.Seen("message", hist)
}

// keyHistory: public keys and signatures that are changed in place.
func keyHistory(c *Case) {
	x := c.scalar()
	pk := eddsa.NewPublicKeyFromPoint(ptEl(ref.MulBase(x)))
	sig := new(eddsa.Signature)
	R, S := ref.Identity(), new(big.Int)
	*sig = eddsa.Signature{R: *ptEl(R), S: *bigSc(S)}
	msg := []byte{1}
	hist := ""
	for step := 0; step < 14; step++ {
		op := c.R.IntN(9)
		switch op {
		case 0: // a signature of the present key and message
			k := c.scalar()
			R = ref.MulBase(k)
			S = ref.SAdd(k, ref.SMul(x, ref.SHash(R.EncodeEd(), ref.MulBase(x).EncodeEd(), msg)))
			b := append(R.Encode(), ref.ToLE(S)...)
			c.Check(sig.UnmarshalBinary(b) == nil, "a signature is refused")
		case 1:
			sig.S.Add(&sig.S, bigSc(big.NewInt(1)))
			S = ref.SAdd(S, big.NewInt(1))
		case 2:
			sig.R.Add(&sig.R, ristretto.NewGeneratorElement())
			R = R.Add(ref.MulBase(big.NewInt(1)))
		case 3:
			o := *sig
			o.S.Negate(&o.S)
			sig, S = &o, ref.SNeg(S)
		case 4:
			x = c.scalar()
			j, err := json.Marshal(ptEl(ref.MulBase(x)))
			c.Check(err == nil && json.Unmarshal(j, pk) == nil, "a public key is refused, history%s", hist)
		case 5:
			x = c.scalar()
			*pk = *eddsa.NewPublicKeyFromPoint(ptEl(ref.MulBase(x)))
		case 6:
			x = ref.SAdd(x, big.NewInt(1))
			o := *eddsa.NewPublicKeyFromPoint(ptEl(ref.MulBase(x)))
			pk = &o
		case 7:
			msg[0]++
		case 8:
			msg = append(msg, byte(c.R.IntN(256)))
		}
		if op != 0 && c.R.IntN(2) == 0 { // make the whole valid again, in place
			S0 := S
			k := c.scalar()
			R = ref.MulBase(k)
			S = ref.SAdd(k, ref.SMul(x, ref.SHash(R.EncodeEd(), ref.MulBase(x).EncodeEd(), msg)))
			sig.R.Set(ptEl(R))
			sig.S.Add(&sig.S, bigSc(ref.SSub(S, S0)))
			op += 10
		}
		hist += fmt.Sprintf(" %d", op)
		edSig := append(R.Prime().EncodeEd(), ref.ToLE(S)...)
		edPk := ref.MulBase(x).EncodeEd()
		c.Check(bytes.Equal(sig.ToEd25519(), edSig), "the signature is converted to %x instead of %x, history%s", sig.ToEd25519(), edSig, hist)
		c.Check(bytes.Equal(pk.ToEd25519(), edPk), "the key is converted to %x instead of %x, history%s", pk.ToEd25519(), edPk, hist)
		want := ed25519.Verify(edPk, msg, edSig)
		c.Check(pk.Verify(msg, sig) == want, "Verify is not %v, history%s", want, hist)
		b, err := sig.MarshalBinary()
		c.Check(err == nil && bytes.Equal(b, append(R.Encode(), ref.ToLE(S)...)), "the signature is encoded as %x, history%s", b, hist)
		var f eddsa.Signature
		c.Check(f.UnmarshalBinary(b) == nil && f.Equal(sig) && sig.Equal(&f), "a signature does not equal what is decoded from its encoding, history%s", hist)
		g := eddsa.NewPublicKeyFromPoint(ptEl(ref.MulBase(x)))
		c.Check(g.Equal(pk) && pk.Equal(g), "a key does not equal its value, history%s", hist)
		c.Count(fmt.Sprintf("verifications in histories: %v", want), 1)
		c.Eval(1)
	}
	c.Count("histories of objects", 1)
	c.Seen("keys", hist)
}
