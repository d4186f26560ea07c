package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/scalar"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// C20: the secret-sharing algebra is compared with the reference.

func idList(ids []party.ID) party.IDSlice { return append(party.IDSlice{}, ids...) }

// lagrangeCase: coefficients of every member of one ID set.
func lagrangeCase(c *Case) {
	n := c.size(1, 24)
	if c.R.IntN(12) == 0 {
		n = 25 + c.R.IntN(100)
	}
	ids := c.ids(n)
	order := idList(ids)
	keep := idList(order)
	coef := map[party.ID]*big.Int{}
	lim := n
	if n > 24 {
		lim = 4
	}
	sum := new(big.Int)
	for i, k := range c.R.Perm(n) {
		id := order[k]
		l, err := id.Lagrange(order)
		c.Check(err == nil && l != nil, "Lagrange of %d in %s fails: %v", id, clipIDs(order), err)
		coef[id] = scBig(l)
		sum = ref.SAdd(sum, coef[id])
		if i < lim {
			want := ref.Lagrange(int64(id), id64(order))
			c.Check(coef[id].Cmp(want) == 0, "the Lagrange coefficient of %d in %s is %x instead of %x", id, clipIDs(order), coef[id], want)
			c.Eval(1)
		}
		c.Count("Lagrange coefficients", 1)
	}
	c.Check(sum.Cmp(big.NewInt(1)) == 0, "the Lagrange coefficients of %s sum to %x instead of 1", clipIDs(order), sum)
	// any polynomial with at most n coefficients is reconstructed, with the library's scalars
	for r := 0; r < 3; r++ {
		f := make([]*big.Int, 1+c.R.IntN(n))
		for i := range f {
			f[i] = c.special()
		}
		got := ristretto.NewScalar()
		for _, id := range order {
			l, _ := id.Lagrange(order)
			got.MultiplyAdd(l, bigSc(ref.Poly(f, big.NewInt(int64(id)))), got)
		}
		c.Check(scBig(got).Cmp(ref.SMod(f[0])) == 0, "interpolating %d values of a polynomial with %d coefficients at %s gives %x instead of %x", n, len(f), clipIDs(order), scBig(got), f[0])
		c.Count("reconstructions", 1)
		c.Eval(1)
	}
	// refused IDs
	refuse := func(id party.ID, set party.IDSlice, why string) {
		l, err := id.Lagrange(set)
		c.Check(err != nil, "Lagrange of %d (%s) in %s gives no error but %v", id, why, clipIDs(set), l)
		c.Count("refused Lagrange", 1)
		c.Eval(1)
	}
	refuse(0, order, "zero")
	refuse(0, append(party.IDSlice{0}, order...), "zero, in the set")
	refuse(order[0], nil, "empty set")
	for i := 0; i < 4; i++ {
		x := party.ID(1 + c.R.IntN(65535))
		if i == 0 {
			x = order[c.R.IntN(n)] ^ party.ID(1<<c.R.IntN(16))
		}
		if !has(order, x) && x != 0 {
			refuse(x, order, "not in the set")
		}
	}
	j := c.R.IntN(n)
	less := append(idList(order[:j]), order[j+1:]...)
	refuse(order[j], less, "removed from the set")
	c.Check(order.Equal(keep), "Lagrange changes the set %s to %s", clipIDs(keep), clipIDs(order))
	c.Seen(fp(order))
	c.Sample(map[string]any{"set": clipIDs(order), "coefficients": n})
}

// poly draws a polynomial of the library and its coefficients, read back through evaluations.
type polyCase struct {
	p     *polynomial.Polynomial
	e     *polynomial.Exponent
	coef  []*big.Int
	comms []*ref.Point
}

// newPoly makes a polynomial of the given degree; its random coefficients are learnt by
// interpolation of degree+1 evaluations.
func (c *Case) newPoly(deg int, constant *big.Int) *polyCase {
	k := bigSc(constant)
	p := polynomial.NewPolynomial(party.Size(deg), k)
	c.Check(int(p.Degree()) == deg && p.Size() == deg+1, "a polynomial of degree %d has degree %d, size %d", deg, p.Degree(), p.Size())
	c.Check(scBig(k).Cmp(ref.SMod(constant)) == 0, "NewPolynomial changes its constant")
	k.Set(bigSc(c.scalar()))
	c.Check(scBig(p.Constant()).Cmp(ref.SMod(constant)) == 0, "the constant of a polynomial is %x instead of %x", scBig(p.Constant()), constant)
	p.Constant().Set(bigSc(c.scalar()))
	c.Check(scBig(p.Constant()).Cmp(ref.SMod(constant)) == 0, "writing to the result of Constant changes the polynomial")
	q := &polyCase{p: p}
	xs := make([]int64, deg+1)
	ys := make([]*big.Int, deg+1)
	for i := range xs {
		xs[i] = int64(i + 1)
		ys[i] = scBig(p.Evaluate(bigSc(big.NewInt(xs[i]))))
	}
	q.coef = interpolateCoefficients(xs, ys)
	c.Check(q.coef[0].Cmp(ref.SMod(constant)) == 0, "the values of a polynomial of degree %d at 1..%d interpolate to %x at 0, not to its constant %x", deg, deg+1, q.coef[0], constant)
	for i, x := range q.coef {
		if i > 0 {
			c.Check(x.Sign() != 0, "coefficient %d of a random polynomial is 0", i)
		}
	}
	q.e = polynomial.NewPolynomialExponent(p)
	c.Check(int(q.e.Degree()) == deg, "a committed polynomial of degree %d has degree %d", deg, q.e.Degree())
	for _, x := range q.coef {
		q.comms = append(q.comms, ref.MulBase(x))
	}
	return q
}

// interpolateCoefficients: Newton's divided differences, expanded.
func interpolateCoefficients(xs []int64, ys []*big.Int) []*big.Int {
	n := len(xs)
	d := append([]*big.Int{}, ys...)
	for k := 1; k < n; k++ {
		for i := n - 1; i >= k; i-- {
			d[i] = ref.SMul(ref.SSub(d[i], d[i-1]), ref.SInv(ref.SSub(ref.SInt(xs[i]), ref.SInt(xs[i-k]))))
		}
	}
	out := []*big.Int{d[n-1]}
	for i := n - 2; i >= 0; i-- { // out = out*(x-xs[i]) + d[i]
		next := make([]*big.Int, len(out)+1)
		for j := range next {
			next[j] = new(big.Int)
		}
		for j, a := range out {
			next[j+1] = ref.SAdd(next[j+1], a)
			next[j] = ref.SSub(next[j], ref.SMul(a, ref.SInt(xs[i])))
		}
		next[0] = ref.SAdd(next[0], d[i])
		out = next
	}
	return out
}

// exponentIs compares a committed polynomial's encoding and accessors with coefficients.
func (c *Case) exponentIs(e *polynomial.Exponent, coef []*big.Int, what string) {
	want := be16(party.ID(len(coef) - 1))
	for _, x := range coef {
		want = append(want, ref.MulBase(x).Encode()...)
	}
	got, err := e.MarshalBinary()
	c.Check(err == nil && bytes.Equal(got, want), "%s: the committed polynomial is %s instead of %s (%v)", what, hexClip(got), hexClip(want), err)
	c.Check(bytes.Equal(e.Constant().Bytes(), want[2:34]), "%s: Constant is %x instead of %x", what, e.Constant().Bytes(), want[2:34])
	c.Check(int(e.Degree()) == len(coef)-1, "%s: degree %d instead of %d", what, e.Degree(), len(coef)-1)
	c.Eval(1)
}

// index draws a non-zero scalar.
func (c *Case) index() *big.Int {
	for {
		x := ref.SMod(c.special())
		switch c.R.IntN(3) {
		case 0:
			x = big.NewInt(int64(1 + c.R.IntN(65535)))
		case 1:
			x = c.scalar()
		}
		if x.Sign() != 0 {
			return x
		}
	}
}

func polynomialCase(c *Case) {
	deg := c.R.IntN(10)
	switch c.R.IntN(15) {
	case 0:
		deg = 10 + c.R.IntN(60)
	case 1:
		deg = 0
	}
	q := c.newPoly(deg, c.special())
	c.exponentIs(q.e, q.coef, "NewPolynomialExponent")
	evals := 6
	if deg > 9 {
		evals = 2
	}
	for i := 0; i < evals; i++ {
		x := c.index()
		xs := bigSc(x)
		v := q.p.Evaluate(xs)
		want := ref.Poly(q.coef, x)
		c.Check(scBig(v).Cmp(want) == 0, "a polynomial of degree %d evaluates at %x to %x instead of %x", deg, x, scBig(v), want)
		c.is(q.e.Evaluate(xs), ref.MulBase(want), fmt.Sprintf("committed polynomial of degree %d evaluated at %x", deg, x))
		c.Check(scBig(xs).Cmp(x) == 0, "evaluation changes the index")
		c.Count("evaluations", 1)
		c.Eval(1)
		// the result is the caller's
		v.Set(bigSc(c.scalar()))
		r := q.e.Evaluate(xs)
		r.Add(r, ristretto.NewGeneratorElement())
	}
	// one scalar object as the index, changed between evaluations of several polynomials
	{
		small := c.newPoly(c.R.IntN(deg+1), c.special())
		var xs ristretto.Scalar
		for i := 0; i < 4; i++ {
			x := c.index()
			xs.Set(bigSc(x))
			for k, z := range []*polyCase{q, small, q} {
				if i == 2 && k == 1 {
					x = c.index()
					xs.Set(bigSc(x))
				}
				want := ref.Poly(z.coef, x)
				c.Check(scBig(z.p.Evaluate(&xs)).Cmp(want) == 0, "a polynomial of degree %d evaluates wrongly at %x, in a scalar that was used as an index before", len(z.coef)-1, x)
				c.is(z.e.Evaluate(&xs), ref.MulBase(want), fmt.Sprintf("committed polynomial of degree %d evaluated at %x, in a scalar that was used as an index before", len(z.coef)-1, x))
				c.Count("evaluations", 1)
			}
		}
		c.exponentIs(small.e, small.coef, "after evaluations")
	}
	// the constants are the caller's
	{
		k := q.e.Constant()
		k.Add(k, ristretto.NewGeneratorElement())
		c.exponentIs(q.e, q.coef, "after its Constant was changed by the caller")
	}
	c.Check(refuses(func() { q.p.Evaluate(ristretto.NewScalar()) }), "a polynomial gives its value at 0")
	c.Check(refuses(func() { q.e.Evaluate(ristretto.NewScalar()) }), "a committed polynomial is evaluated at 0")
	c.Count("refused evaluations at 0", 2)
	c.exponentIs(q.e, q.coef, "after evaluations")
	ids := c.ids(1 + c.R.IntN(6))
	multi := q.e.EvaluateMulti(ids)
	c.Check(len(multi) == len(ids), "EvaluateMulti gives %d values for %d IDs", len(multi), len(ids))
	for _, id := range ids {
		c.Check(multi[id] != nil, "EvaluateMulti gives no value for %d", id)
		c.is(multi[id], ref.MulBase(ref.Poly(q.coef, big.NewInt(int64(id)))), fmt.Sprintf("EvaluateMulti at %d", id))
		c.Count("evaluations", 1)
	}
	// copies
	cp := q.e.Copy()
	c.exponentIs(cp, q.coef, "Copy")
	c.Check(cp.Equal(q.e) && q.e.Equal(cp), "a copy is not equal")
	other := c.newPoly(deg, c.special())
	err := cp.Add(other.e)
	c.Check(err == nil, "adding committed polynomials of degree %d fails: %v", deg, err)
	sum := make([]*big.Int, deg+1)
	for i := range sum {
		sum[i] = ref.SAdd(q.coef[i], other.coef[i])
	}
	c.exponentIs(cp, sum, "Add")
	c.exponentIs(q.e, q.coef, "the original of a copy that was added to")
	c.exponentIs(other.e, other.coef, "the second operand of Add")
	// an independent library object decoded from the encoding
	enc, _ := q.e.MarshalBinary()
	var d polynomial.Exponent
	c.Check(d.UnmarshalBinary(enc) == nil && d.Equal(q.e), "a committed polynomial does not survive its encoding")
	x := c.index()
	c.is(d.Evaluate(bigSc(x)), ref.MulBase(ref.Poly(q.coef, x)), "decoded committed polynomial")
	// own addition: p += p
	err = d.Add(&d)
	for i := range sum {
		sum[i] = ref.SAdd(q.coef[i], q.coef[i])
	}
	c.Check(err == nil, "adding a committed polynomial to itself fails: %v", err)
	c.exponentIs(&d, sum, "p + p")
	// commitments whose degree is smaller than announced
	d2 := append(append([]byte{}, be16(party.ID(deg+1))...), enc[2:]...)
	d2 = append(d2, make([]byte, 32)...)
	var z polynomial.Exponent
	c.Check(z.UnmarshalBinary(d2) == nil, "a committed polynomial with an identity coefficient is not decoded")
	c.is(z.Evaluate(bigSc(x)), ref.MulBase(ref.Poly(q.coef, x)), "committed polynomial with a leading identity")
	// different degrees
	for _, dd := range []int{deg + 1, deg + 2, deg - 1, 2*deg + 1} {
		if dd < 0 || dd == deg {
			continue
		}
		o := polynomial.NewPolynomialExponent(polynomial.NewPolynomial(party.Size(dd), bigSc(c.scalar())))
		a := q.e.Copy()
		var err error
		p := called(func() { err = a.Add(o) })
		c.Check(p == nil && err != nil, "adding committed polynomials of degree %d and %d gives error %v, panic %v", deg, dd, err, p)
		c.exponentIs(q.e, q.coef, "after a refused addition")
		p = called(func() { _, err = polynomial.Sum([]*polynomial.Exponent{q.e, other.e, o}) })
		c.Check(p == nil && err != nil, "summing committed polynomials of degree %d and %d gives error %v, panic %v", deg, dd, err, p)
		c.Check(!q.e.Equal(o) && !o.Equal(q.e), "committed polynomials of degree %d and %d are equal", deg, dd)
		c.Count("refused additions", 2)
	}
	// equality
	i := c.R.IntN(deg + 1)
	mod := append([]byte{}, enc...)
	copy(mod[2+32*i:], ref.MulBase(ref.SAdd(q.coef[i], big.NewInt(1))).Encode())
	var m polynomial.Exponent
	c.Check(m.UnmarshalBinary(mod) == nil && !m.Equal(q.e) && !q.e.Equal(&m), "committed polynomials that differ in coefficient %d of %d are equal", i, deg+1)
	// reset
	q.p.Reset()
	q.e.Reset()
	zero := make([]*big.Int, deg+1)
	for i := range zero {
		zero[i] = new(big.Int)
	}
	c.exponentIs(q.e, zero, "Reset")
	c.Check(q.p.Constant().Equal(ristretto.NewScalar()) == 1 && q.p.Evaluate(bigSc(x)).Equal(ristretto.NewScalar()) == 1, "a reset polynomial is not 0")
	c.Seen(deg, q.coef[0], x)
	c.Sample(map[string]any{"degree": deg, "index": fmt.Sprintf("%x", x)})
}

func refuses(f func()) bool { return called(f) != nil }

func sumCase(c *Case) {
	deg := c.R.IntN(8)
	m := 1 + c.R.IntN(7)
	if c.R.IntN(10) == 0 {
		m = 8 + c.R.IntN(40)
	}
	var ps []*polyCase
	var es []*polynomial.Exponent
	sum := make([]*big.Int, deg+1)
	for i := range sum {
		sum[i] = new(big.Int)
	}
	for i := 0; i < m; i++ {
		var q *polyCase
		if i > 0 && c.R.IntN(6) == 0 { // the same object twice
			q = ps[c.R.IntN(i)]
		} else {
			q = c.newPoly(deg, c.special())
			if c.R.IntN(6) == 0 && i > 0 { // the inverse of an earlier one: sums to the identity
				o := ps[c.R.IntN(i)]
				b := be16(party.ID(deg))
				q = &polyCase{}
				for _, x := range o.coef {
					q.coef = append(q.coef, ref.SNeg(x))
					b = append(b, ref.MulBase(ref.SNeg(x)).Encode()...)
				}
				q.e = new(polynomial.Exponent)
				c.Check(q.e.UnmarshalBinary(b) == nil, "a committed polynomial is not decoded")
			}
		}
		ps = append(ps, q)
		es = append(es, q.e)
		for j := range sum {
			sum[j] = ref.SAdd(sum[j], q.coef[j])
		}
	}
	s, err := polynomial.Sum(es)
	c.Check(err == nil && s != nil, "summing %d committed polynomials of degree %d fails: %v", m, deg, err)
	c.exponentIs(s, sum, fmt.Sprintf("Sum of %d polynomials of degree %d", m, deg))
	for i := 0; i < 3; i++ {
		x := c.index()
		c.is(s.Evaluate(bigSc(x)), ref.MulBase(ref.Poly(sum, x)), fmt.Sprintf("Sum of %d polynomials evaluated at %x", m, x))
		c.Count("evaluations of sums", 1)
	}
	for i, q := range ps {
		c.exponentIs(q.e, q.coef, fmt.Sprintf("summand %d after Sum", i))
	}
	// the sum is its own
	c.Check(s.Add(s) == nil, "adding a sum to itself fails")
	for i, q := range ps {
		c.exponentIs(q.e, q.coef, fmt.Sprintf("summand %d after its sum was changed", i))
	}
	// a summand of another degree, anywhere
	o := polynomial.NewPolynomialExponent(polynomial.NewPolynomial(party.Size(deg+1+c.R.IntN(3)), bigSc(c.scalar())))
	j := c.R.IntN(m + 1)
	bad := append(append(append([]*polynomial.Exponent{}, es[:j]...), o), es[j:]...)
	p := called(func() { _, err = polynomial.Sum(bad) })
	c.Check(p == nil && err != nil, "summing polynomials of different degree (number %d of %d) gives error %v, panic %v", j, len(bad), err, p)
	c.Count("refused additions", 1)
	c.Seen(deg, m, sum[0])
	c.Sample(map[string]any{"degree": deg, "summands": m})
}

// dealing: the helpers' dealer shares on one polynomial, with matching public keys.
func dealingCase(c *Case) {
	n := c.size(2, 12)
	ids := c.ids(n)
	t := 1 + c.R.IntN(n-1)
	secret, shares := helpers.GenerateSecrets(ids, party.Size(t))
	c.Check(len(shares) == n, "GenerateSecrets gives %d shares for %s", len(shares), fp(ids))
	ys := map[party.ID]*big.Int{}
	for _, id := range ids {
		s := shares[id]
		c.Check(s != nil && s.ID == id, "GenerateSecrets gives no share of its own to %d", id)
		ys[id] = scBig(&s.Secret)
		c.is(&s.Public, ref.MulBase(ys[id]), fmt.Sprintf("public part of the share of %d", id))
	}
	c.degreeExact(ids, t, ys, scBig(secret))
	pub := helpers.GeneratePublic(party.Size(t), shares)
	c.Check(int(pub.Threshold) == t && pub.PartyIDs.Equal(ids), "GeneratePublic gives threshold %d and parties %s instead of %d and %s", pub.Threshold, fp(pub.PartyIDs), t, fp(ids))
	for _, id := range ids {
		c.is(pub.Shares[id], ref.MulBase(ys[id]), fmt.Sprintf("public share of %d", id))
	}
	c.Check(bytes.Equal(pub.GroupKey.ToEd25519(), ref.MulBase(scBig(secret)).Prime().EncodeEd()), "the group key of a dealt key is %x instead of that of its secret", pub.GroupKey.ToEd25519())
	// the group key from any t+1 or more public shares
	for i := 0; i < 3; i++ {
		sub := c.subset(ids, t+1+c.R.IntN(n-t))
		m := map[party.ID]*ristretto.Element{}
		for _, id := range sub {
			m[id] = pub.Shares[id]
		}
		if len(sub) <= t {
			continue
		}
		q, err := eddsa.NewPublic(m, party.Size(t))
		if err != nil {
			continue // not judged here
		}
		c.Check(bytes.Equal(q.GroupKey.ToEd25519(), pub.GroupKey.ToEd25519()), "the group key from %s differs from that of %s", fp(sub), fp(ids))
		c.Count("group keys from subsets", 1)
	}
	// no dealing when the parties are too few
	for _, u := range []int{n, n + 1, n + c.R.IntN(1000), 65535} {
		c.Check(called(func() { helpers.GenerateSecrets(ids, party.Size(u)) }) != nil, "GenerateSecrets deals shares of a key with threshold %d to %d parties", u, n)
		c.Check(called(func() { helpers.GeneratePublic(party.Size(u), shares) }) != nil, "GeneratePublic makes public data with threshold %d of %d shares", u, n)
		c.Count("refused dealings", 1)
	}
	c.Seen(fp(ids), t)
	c.Sample(map[string]any{"ids": fp(ids), "t": t})
}

// smallScalars: conversions of integers, exhaustively at the bottom and at powers of two.
func smallScalars(c *Case) {
	judge := func(x uint32) {
		want := big.NewInt(int64(x))
		c.Check(scBig(scalar.NewScalarUInt32(x)).Cmp(want) == 0, "NewScalarUInt32(%d) is %x", x, scBig(scalar.NewScalarUInt32(x)))
		s := bigSc(c.scalar())
		r := scalar.SetScalarUInt32(s, x)
		c.Check(scBig(s).Cmp(want) == 0 && scBig(r).Cmp(want) == 0, "SetScalarUInt32(%d) is %x", x, scBig(s))
		c.Eval(1)
	}
	for x := c.Idx * 4096; x < (c.Idx+1)*4096; x++ {
		judge(uint32(x))
	}
	for b := 0; b < 32; b++ {
		judge(1 << b)
		judge(1<<b - 1)
		judge(^uint32(0) << b)
	}
	for i := 0; i < 200; i++ {
		judge(c.R.Uint32())
	}
	c.Count("integers", 4096)
	c.Seen(c.Idx)
}

// manyAtOnce: evaluations of one polynomial from many goroutines give the same values (they
// are pure functions).
func manyAtOnce(c *Case) {
	q := c.newPoly(1+c.R.IntN(6), c.special())
	xs := make([]*big.Int, 24)
	for i := range xs {
		xs[i] = c.index()
	}
	got := make([][2][]byte, len(xs))
	var wg sync.WaitGroup
	for i := range xs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x := bigSc(xs[i])
			got[i] = [2][]byte{q.p.Evaluate(x).Bytes(), q.e.Evaluate(x).Bytes()}
		}(i)
	}
	wg.Wait()
	for i, x := range xs {
		v := ref.Poly(q.coef, x)
		c.Check(bytes.Equal(got[i][0], ref.ToLE(v)), "a polynomial evaluated in parallel gives %x at %x instead of %x", got[i][0], x, v)
		c.Check(bytes.Equal(got[i][1], ref.MulBase(v).Encode()), "a committed polynomial evaluated in parallel gives %x at %x", got[i][1], x)
		c.Eval(1)
	}
	c.Count("parallel evaluations", len(xs))
	c.Seen(q.coef[0])
}

// largeDegrees: the largest degrees a size can express.
func largeDegrees(c *Case) {
	deg := []int{255, 256, 257, 1000, 4095, 65534}[c.Idx%6]
	k := c.scalar()
	p := polynomial.NewPolynomial(party.Size(deg), bigSc(k))
	c.Check(int(p.Degree()) == deg && p.Size() == deg+1, "a polynomial of degree %d has degree %d, size %d", deg, p.Degree(), p.Size())
	c.Check(scBig(p.Constant()).Cmp(k) == 0, "the constant of a polynomial of degree %d is wrong", deg)
	// differences of order deg+1 vanish: the values at deg+2 points determine each other.
	// That takes deg+2 evaluations, so only for the smaller degrees.
	if deg <= 257 {
		xs := make([]int64, deg+1)
		ys := make([]*big.Int, deg+1)
		for i := range xs {
			xs[i] = int64(i + 1)
			ys[i] = scBig(p.Evaluate(bigSc(big.NewInt(xs[i]))))
		}
		co := interpolateCoefficients(xs, ys)
		c.Check(co[0].Cmp(k) == 0, "the values of a polynomial of degree %d do not interpolate to its constant", deg)
		x := c.index()
		c.Check(scBig(p.Evaluate(bigSc(x))).Cmp(ref.Poly(co, x)) == 0, "the values of a polynomial of degree %d lie on no polynomial of that degree", deg)
		e := polynomial.NewPolynomialExponent(p)
		c.exponentIs(e, co, fmt.Sprintf("degree %d", deg))
		c.is(e.Evaluate(bigSc(x)), ref.MulBase(ref.Poly(co, x)), fmt.Sprintf("committed polynomial of degree %d", deg))
	} else {
		x := bigSc(c.index())
		v := p.Evaluate(x)
		e := polynomial.NewPolynomialExponent(p)
		c.Check(int(e.Degree()) == deg, "a committed polynomial of degree %d has degree %d", deg, e.Degree())
		c.is(e.Evaluate(x), ref.MulBase(scBig(v)), fmt.Sprintf("committed polynomial of degree %d", deg))
	}
	c.Count("large degrees", 1)
	c.Eval(1)
	c.Seen(deg, k)
}

func init() {
	register(&Prop{ID: "C20", Rule: "an execution counts if the library's values were compared with the reference's; distinct by ID set, polynomial and index",
		Parts: []Part{
			{Name: "lagrange", Quick: 2000, Thorough: 200000, Fn: lagrangeCase},
			{Name: "polynomials", Quick: 640, Thorough: 60000, Fn: polynomialCase},
			{Name: "sums", Quick: 400, Thorough: 40000, Fn: sumCase},
			{Name: "dealing", Quick: 240, Thorough: 20000, Fn: dealingCase},
			{Name: "integers", Quick: 16, Thorough: 160, Fn: smallScalars},
			{Name: "parallel", Quick: 40, Thorough: 4000, Fn: manyAtOnce},
			{Name: "sizes", Quick: counts, Thorough: 100 * counts, Fn: sumsOfEverySize},
			{Name: "similar", Quick: 400, Thorough: 40000, Fn: similarLagrange},
			{Name: "objects", Quick: 160, Thorough: 16000, Fn: exponentHistory},
			{Name: "large-degrees", Quick: 6, Thorough: 120, Fn: largeDegrees},
		},
		Least: map[string]int64{"Lagrange coefficients": 8000, "reconstructions": 5000, "refused Lagrange": 10000, "evaluations": 3000, "evaluations of sums": 1000, "refused additions": 2000, "refused evaluations at 0": 1000, "integers": 65536, "group keys from subsets": 400, "refused dealings": 800, "large degrees": 6},
	})
}
