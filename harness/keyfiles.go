package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// ---- reference predicates for stored key material ----

type verdict int

const (
	vAccept verdict = iota
	vRefuse
	vUnclear
)

// strict number: what json numbers certainly mean an integer in [lo,hi].
func refNumber(raw *json.Number, lo, hi int64) (int64, verdict) {
	if raw == nil {
		return 0, vRefuse
	}
	s := raw.String()
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strconv.FormatInt(v, 10) != s {
		f, ok := new(big.Rat).SetString(s)
		if !ok || len(s) > 40 {
			return 0, vRefuse
		}
		if !f.IsInt() || f.Num().Cmp(big.NewInt(hi)) > 0 || f.Num().Cmp(big.NewInt(lo)) < 0 {
			return 0, vRefuse
		}
		return f.Num().Int64(), vUnclear // 1e0, 1.0, -0
	}
	if v < lo || v > hi {
		return 0, vRefuse
	}
	return v, vAccept
}

// refB64 decodes base64 text of want bytes.
func refB64(s *string, want int) ([]byte, verdict) {
	if s == nil {
		return nil, vRefuse
	}
	b, err := base64.StdEncoding.Strict().DecodeString(*s)
	if err == nil && !strings.ContainsAny(*s, "\r\n") {
		if len(b) != want {
			return nil, vRefuse
		}
		return b, vAccept
	}
	b, err = base64.StdEncoding.DecodeString(*s)
	if err != nil || len(b) != want {
		return nil, vRefuse
	}
	return b, vUnclear
}

func worse(a, b verdict) verdict {
	if a == vRefuse || b == vRefuse {
		return vRefuse
	}
	if a == vUnclear || b == vUnclear {
		return vUnclear
	}
	return vAccept
}

type refShare struct {
	id int64
	x  *big.Int
}

// refSecretJSON says whether b is a valid stored secret share.
func refSecretJSON(b []byte) (refShare, verdict) {
	var o struct {
		ID     *json.Number    `json:"id"`
		Secret json.RawMessage `json:"secret"`
	}
	if bytes.Equal(bytes.TrimSpace(b), []byte("null")) {
		return refShare{}, vUnclear
	}
	if json.Unmarshal(b, &o) != nil {
		return refShare{}, vRefuse
	}
	if quotedNumber(b, "id") {
		return refShare{}, vRefuse
	}
	id, v := refNumber(o.ID, 1, 65535)
	if v == vRefuse {
		return refShare{}, v
	}
	var s string
	if len(o.Secret) > 0 && o.Secret[0] == '[' {
		return refShare{}, vUnclear // a JSON array of numbers is also a []byte
	}
	if len(o.Secret) == 0 || json.Unmarshal(o.Secret, &s) != nil || string(o.Secret) == "null" {
		return refShare{}, vRefuse
	}
	raw, v2 := refB64(&s, 32)
	if v2 == vRefuse {
		return refShare{}, vRefuse
	}
	x, ok := ref.SCanon(raw)
	if !ok {
		return refShare{}, vRefuse
	}
	if dupKeys(b) {
		return refShare{}, vUnclear
	}
	return refShare{id, x}, worse(v, v2)
}

// quotedNumber: json.Number also takes quoted numbers, which are not numbers.
func quotedNumber(b []byte, key string) bool {
	var m map[string]json.RawMessage
	if json.Unmarshal(b, &m) != nil {
		return false
	}
	for k, v := range m {
		if strings.EqualFold(k, key) && len(v) > 0 && v[0] == '"' {
			return true
		}
	}
	return false
}

// dupKeys reports keys of an object that occur twice, or only differ in case.
func dupKeys(b []byte) bool {
	d := json.NewDecoder(bytes.NewReader(b))
	var walk func() bool
	walk = func() bool {
		t, err := d.Token()
		if err != nil {
			return false
		}
		switch t {
		case json.Delim('{'):
			seen := map[string]bool{}
			dup := false
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return dup
				}
				ks := strings.ToLower(fmt.Sprint(k))
				if seen[ks] {
					dup = true
				}
				seen[ks] = true
				if walk() {
					dup = true
				}
			}
			d.Token()
			return dup
		case json.Delim('['):
			dup := false
			for d.More() {
				if walk() {
					dup = true
				}
			}
			d.Token()
			return dup
		}
		return false
	}
	return walk()
}

type refPub struct {
	t      int
	shares map[party.ID][]byte
	group  *ref.Point
}

func refPoint(s *string) (*ref.Point, []byte, verdict) {
	raw, v := refB64(s, 32)
	if v == vRefuse {
		return nil, nil, v
	}
	p, ok := ref.Decode(raw)
	if !ok {
		return nil, nil, vRefuse
	}
	return p, raw, v
}

// refPublicJSON says whether b is a valid stored Public.
func refPublicJSON(b []byte) (refPub, verdict) {
	var o struct {
		T *json.Number       `json:"t"`
		G *string            `json:"groupkey"`
		S map[string]*string `json:"shares"`
	}
	none := refPub{}
	if bytes.Equal(bytes.TrimSpace(b), []byte("null")) {
		return none, vUnclear
	}
	if json.Unmarshal(b, &o) != nil {
		return none, vRefuse
	}
	if quotedNumber(b, "t") {
		return none, vRefuse
	}
	t, v := refNumber(o.T, 0, 65535)
	if v == vRefuse || len(o.S) == 0 || int(t) >= len(o.S) {
		return none, vRefuse
	}
	if t == 0 {
		v = vUnclear
	}
	p := refPub{t: int(t), shares: map[party.ID][]byte{}}
	g, _, v2 := refPoint(o.G)
	if v = worse(v, v2); v == vRefuse {
		return none, v
	}
	p.group = g
	ids, pts := []int64{}, []*ref.Point{}
	for k, s := range o.S {
		id, err := strconv.ParseUint(k, 10, 16)
		if err != nil || id == 0 {
			return none, vRefuse
		}
		if strconv.FormatUint(id, 10) != k {
			v = worse(v, vUnclear)
		}
		if p.shares[party.ID(id)] != nil {
			v = worse(v, vUnclear)
		}
		q, raw, v3 := refPoint(s)
		if v = worse(v, v3); v == vRefuse {
			return none, v
		}
		p.shares[party.ID(id)] = raw
		ids, pts = append(ids, int64(id)), append(pts, q)
	}
	if dupKeys(b) {
		return p, vUnclear
	}
	if len(p.shares) != len(pts) {
		return p, vUnclear
	}
	sum := ref.Identity()
	for i, id := range ids {
		sum = sum.Add(pts[i].Mul(ref.Lagrange(id, ids)))
	}
	if !sum.Equal(g) {
		return none, vRefuse
	}
	// a sharing of higher degree than t is not one that was ever stored
	if v == vAccept && len(ids) > p.t+1 && len(ids) <= 12 {
		sum := ref.Identity()
		sub := []int64{}
		for _, id := range ids {
			sub = append(sub, id)
		}
		sub = sub[:p.t+1]
		for i, id := range sub {
			sum = sum.Add(pts[i].Mul(ref.Lagrange(id, sub)))
		}
		if !sum.Equal(g) {
			return p, vUnclear
		}
	}
	return p, v
}

// ---- comparing what was restored ----

func (c *Case) restoredShare(s *eddsa.SecretShare, want refShare, what string) {
	c.Check(int64(s.ID) == want.id, "%s: restored ID %d instead of %d", what, s.ID, want.id)
	c.Check(scBig(&s.Secret).Cmp(want.x) == 0, "%s: another secret is restored", what)
	c.Check(bytes.Equal(s.Public.Bytes(), ref.MulBase(want.x).Encode()), "%s: the restored public share is not [secret]B", what)
	c.Eval(1)
}

func (c *Case) restoredPublic(p *eddsa.Public, want refPub, what string) {
	c.Check(int(p.Threshold) == want.t, "%s: restored threshold %d instead of %d", what, p.Threshold, want.t)
	c.Check(len(p.Shares) == len(want.shares), "%s: %d shares restored instead of %d", what, len(p.Shares), len(want.shares))
	m := map[party.ID]bool{}
	for id, raw := range want.shares {
		c.Check(p.Shares[id] != nil && bytes.Equal(p.Shares[id].Bytes(), raw), "%s: the share of %d is not restored", what, id)
		m[id] = true
	}
	c.Check(fp(p.PartyIDs) == fp(sortedIDs(m)), "%s: restored party list %v instead of %v", what, p.PartyIDs, sortedIDs(m))
	c.Check(p.GroupKey != nil && bytes.Equal(p.GroupKey.ToEd25519(), want.group.Prime().EncodeEd()), "%s: the group key is not restored", what)
	c.Eval(1)
}

// judgeSecret decodes a stored secret share (into a used or a fresh receiver).
func (c *Case) judgeSecret(b []byte, what string) *eddsa.SecretShare {
	want, v := refSecretJSON(b)
	var s eddsa.SecretShare
	if c.R.IntN(3) == 0 {
		s = *eddsa.NewSecretShare(c.id(), bigSc(c.scalar()))
	}
	err := json.Unmarshal(b, &s)
	c.tally(v)
	switch v {
	case vRefuse:
		c.Check(err != nil, "SecretShare JSON is restored although it is invalid (%s): %s gives ID %d", what, clip(string(b), 300), s.ID)
	case vAccept:
		c.Check(err == nil, "valid SecretShare JSON is refused (%s): %v: %s", what, err, clip(string(b), 300))
		c.restoredShare(&s, want, what)
	case vUnclear:
		if err == nil && want.x != nil {
			c.restoredShare(&s, want, what)
		}
	}
	if err != nil {
		return nil
	}
	return &s
}

func (c *Case) tally(v verdict) {
	c.Eval(1)
	c.Count("encodings to be "+[]string{"restored", "refused", "restored or refused"}[v], 1)
}

func (c *Case) judgePublic(b []byte, what string) *eddsa.Public {
	want, v := refPublicJSON(b)
	var p eddsa.Public
	if c.R.IntN(4) == 0 {
		p = *c.refDeal(c.ids(2), 1).Public
	}
	err := json.Unmarshal(b, &p)
	c.tally(v)
	switch v {
	case vRefuse:
		c.Check(err != nil, "Public JSON is restored although it is invalid (%s): %s", what, clip(string(b), 600))
	case vAccept:
		c.Check(err == nil, "valid Public JSON is refused (%s): %v: %s", what, err, clip(string(b), 600))
		c.restoredPublic(&p, want, what)
	case vUnclear:
		if err == nil && want.group != nil && !dupKeys(b) && len(want.shares) == len(p.Shares) {
			c.restoredPublic(&p, want, what)
		}
	}
	if err != nil {
		return nil
	}
	return &p
}

func (c *Case) judgeKey(b []byte, what string) *eddsa.PublicKey {
	var s *string
	v := vRefuse
	var g *ref.Point
	if bytes.Equal(bytes.TrimSpace(b), []byte("null")) {
		v = vUnclear
	} else if json.Unmarshal(b, &s) == nil && s != nil {
		g, _, v = refPoint(s)
	}
	var pk eddsa.PublicKey
	err := json.Unmarshal(b, &pk)
	c.tally(v)
	if v == vRefuse {
		c.Check(err != nil, "PublicKey JSON is restored although it is invalid (%s): %s", what, clip(string(b), 200))
	} else if v == vAccept {
		c.Check(err == nil, "valid PublicKey JSON is refused (%s): %v: %s", what, err, clip(string(b), 200))
	}
	if err != nil || g == nil {
		return nil
	}
	c.Check(bytes.Equal(pk.ToEd25519(), g.Prime().EncodeEd()), "another public key is restored (%s)", what)
	return &pk
}

func (c *Case) judgeBinary(b []byte, what string) *eddsa.SecretShare {
	var s eddsa.SecretShare
	in := append([]byte{}, b...)
	err := s.UnmarshalBinary(in)
	v := vRefuse
	var x *big.Int
	if len(b) == 34 && (b[0] != 0 || b[1] != 0) {
		var ok bool
		if x, ok = ref.SCanon(b[2:]); ok {
			v = vAccept
		}
	}
	c.tally(v)
	if v == vRefuse {
		c.Check(err != nil, "a binary SecretShare is restored although it is invalid (%s): %x", what, b)
		return nil
	}
	c.Check(err == nil, "a valid binary SecretShare is refused (%s): %v", what, err)
	for i := range in {
		in[i] = 0xee
	}
	c.restoredShare(&s, refShare{int64(b[0])<<8 | int64(b[1]), x}, what)
	return &s
}

func asJSON(c *Case, v any) []byte {
	var b []byte
	var err error
	if c.R.IntN(2) == 0 {
		b, err = json.Marshal(v)
	} else {
		b, err = json.MarshalIndent(v, "", " ")
	}
	c.Check(err == nil, "%T cannot be encoded: %v", v, err)
	return b
}

// ---- parts ----

func storedKeys(c *Case) {
	n := c.size(2, 12)
	storedKey(c, n, 1+c.R.IntN(n-1))
}

// largeKeys have a party list or threshold that does not fit a byte.
func largeKeys(c *Case) {
	n := 250 + c.R.IntN(60)
	t := n - 1 - c.R.IntN(40)
	storedKey(c, n, t)
	c.Count("large keys", 1)
}

func storedKey(c *Case, n, t int) {
	ids := c.ids(n)
	var k *Key
	switch c.R.IntN(3) {
	case 0:
		k = c.key(ids, t)
	case 1: // special secrets
		k = c.refDeal(ids, t)
		k.Secrets[ids[0]] = eddsa.NewSecretShare(ids[0], bigSc(c.special()))
		b := asJSON(c, k.Secrets[ids[0]])
		special := refShare{int64(ids[0]), scBig(&k.Secrets[ids[0]].Secret)}
		c.restoredShare(c.judgeSecret(b, "special secret"), special, "special secret")
		b, err := k.Secrets[ids[0]].MarshalBinary()
		c.Check(err == nil && bytes.Equal(b, append(be16(ids[0]), ref.ToLE(special.x)...)), "a secret share of %x is encoded as %x, %v", special.x, b, err)
		c.restoredShare(c.judgeBinary(b, "special secret"), special, "special secret")
		k = c.refDeal(ids, t)
	default:
		k = c.refDeal(ids, t)
	}
	// what is encoded is what the reference reads
	pb := asJSON(c, k.Public)
	want, v := refPublicJSON(pb)
	c.Check(v == vAccept, "the encoding of public shares is not what the reference reads: %s", clip(string(pb), 600))
	pub := c.judgePublic(pb, "encoded by the library")
	c.publicEqual(pub, k.Public, "restored public shares")
	c.restoredPublic(k.Public, want, "encoding")
	// in other representations of the points
	reps := map[party.ID]*ristretto.Element{}
	for id, e := range k.Public.Shares {
		reps[id] = c.rerep(e)
	}
	p2, err := eddsa.NewPublic(reps, party.Size(t))
	c.Check(err == nil, "NewPublic refuses valid shares: %v", err)
	c.restoredPublic(p2, want, "NewPublic")
	pub2 := c.judgePublic(asJSON(c, p2), "other representations")
	c.publicEqual(pub2, k.Public, "restored public shares")
	secrets := map[party.ID]*eddsa.SecretShare{}
	for _, id := range ids {
		s := k.Secrets[id]
		w := refShare{int64(id), scBig(&s.Secret)}
		var r *eddsa.SecretShare
		if c.R.IntN(2) == 0 {
			b := asJSON(c, s)
			g, v := refSecretJSON(b)
			c.Check(v == vAccept && g.id == w.id && g.x.Cmp(w.x) == 0, "the encoding of a secret share is not what the reference reads")
			r = c.judgeSecret(b, "encoded by the library")
		} else {
			b, err := s.MarshalBinary()
			c.Check(err == nil, "a secret share cannot be encoded: %v", err)
			c.Check(bytes.Equal(b, append(be16(id), ref.ToLE(w.x)...)), "binary secret share: %x", b)
			r = c.judgeBinary(b, "encoded by the library")
		}
		c.restoredShare(r, w, "restored share")
		c.Check(r.Equal(s) && s.Equal(r), "a restored share does not equal the original")
		secrets[id] = r
		if id != ids[0] {
			c.Check(!r.Equal(k.Secrets[ids[0]]), "shares of different parties are equal")
		}
	}
	gk := c.judgeKey(asJSON(c, k.Public.GroupKey), "encoded by the library")
	c.Check(gk != nil && gk.Equal(k.Public.GroupKey) && k.Public.GroupKey.Equal(gk), "the restored group key does not equal the original")
	c.Check(!gk.Equal(eddsa.NewPublicKeyFromPoint(k.Public.Shares[ids[0]])), "different public keys are equal")
	// as the command line tools store them
	type file struct {
		Secrets map[party.ID]*eddsa.SecretShare
		Shares  *eddsa.Public
	}
	var f file
	c.Check(json.Unmarshal(asJSON(c, file{k.Secrets, k.Public}), &f) == nil, "a key file is refused")
	for _, id := range ids {
		c.Check(f.Secrets[id] != nil && f.Secrets[id].Equal(k.Secrets[id]), "the share of %d is not restored from a key file", id)
	}
	c.publicEqual(f.Shares, k.Public, "key file")
	// Equal distinguishes
	if n > t+1 {
		q, err := eddsa.NewPublic(k.Public.Shares, party.Size(t+1))
		if err == nil && t+1 < n {
			c.Check(!q.Equal(k.Public) && !k.Public.Equal(q), "public shares with different thresholds are equal")
		}
	}
	// restored material signs
	if n < 100 && (c.R.IntN(3) == 0 || n <= 4) {
		rk := &Key{IDs: ids, T: t, Public: pub2, Secrets: secrets, How: "restored"}
		signers := c.subset(ids, t+1+c.R.IntN(n-t))
		msg := c.message()
		ns := c.signNodes(rk, signers, msg, 0)
		c.run(ns, plan{strategy: "fifo"})
		for _, x := range ns {
			c.Check(x.done() && x.St.Err() == nil && x.SG.Signature != nil, "signing with restored key material fails: %v", x.St.Err())
			c.verifySig(k, msg, x.SG.Signature)
		}
		c.Count("sessions with restored key material", 1)
	}
	c.Seen(fp(ids), t, k.Public.GroupKey.ToEd25519())
	c.Sample(map[string]any{"ids": fp(ids), "t": t, "json": clip(string(pb), 200)})
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// storedShares: every kind of corruption of a stored secret share.
func corruptShares(c *Case) {
	id, x := c.id(), c.special()
	sec := b64(ref.ToLE(x))
	q := func(s string) string { return `"` + s + `"` }
	nums := []string{"0", "-1", "-0", "1", "65535", "65536", "65537", fmt.Sprint(65536 + int(id)), fmt.Sprint(int64(1)<<32 + int64(id)), "18446744073709551616", "18446744073709551617", "9223372036854775808",
		fmt.Sprint(-int(id)), fmt.Sprint(int(id)) + ".5", "1e2", "1.0", "null", "true", q("1"), q(fmt.Sprint(id)), "[1]", "{}", "131072", "4294967296", fmt.Sprint(-65536 + int(id))}
	for _, n := range nums {
		c.judgeSecret([]byte(`{"id":`+n+`,"secret":`+q(sec)+`}`), "id "+n)
	}
	enc := ref.ToLE(x)
	vals := []string{"null", q(""), "[]", "{}", "0", "true", q("!"), q(sec[:len(sec)-1]), q(sec[:len(sec)-2]), q(sec[:40]), q(sec + "="), q(sec + "AAAA"), q(" " + sec), q(b64(enc[:31])), q(b64(append(append([]byte{}, enc...), 0))),
		q(b64(append(append([]byte{}, enc...), enc...))), q(b64(enc[:16])), q(base64.RawStdEncoding.EncodeToString(enc)), q(fmt.Sprintf("%x", enc))}
	for k := 0; k < 8; k++ {
		vals = append(vals, q(b64(c.badScalar())))
	}
	for _, v := range vals {
		c.judgeSecret([]byte(fmt.Sprintf(`{"id":%d,"secret":%s}`, id, v)), "secret "+clip(v, 60))
	}
	for _, s := range []string{`{"secret":` + q(sec) + `}`, fmt.Sprintf(`{"id":%d}`, id), `{}`, `[]`, `0`, `""`, `true`, ``, ` `, `{`,
		fmt.Sprintf(`{"secret":%s,"id":%d}`, q(sec), id), fmt.Sprintf(" {\n\t\"id\" : %d , \"secret\":%s } ", id, q(sec)),
		fmt.Sprintf(`{"id":%d,"secret":%s,"extra":[1,{"id":7}]}`, id, q(sec)), fmt.Sprintf(`{"id":%d,"secret":%s}}`, id, q(sec)), fmt.Sprintf(`[{"id":%d,"secret":%s}]`, id, q(sec))} {
		c.judgeSecret([]byte(s), "structure")
	}
	// mutations of the text
	good := []byte(fmt.Sprintf(`{"id":%d,"secret":%s}`, id, q(sec)))
	for k := 0; k < 60; k++ {
		c.judgeSecret(c.textMutation(good), "altered text")
	}
	for i := range good {
		c.judgeSecret(good[:i], "truncated")
	}
	// binary
	bin := append(be16(id), enc...)
	for i := 0; i < len(bin); i++ {
		c.judgeBinary(bin[:i], "truncated")
	}
	for k := 1; k < 40; k++ {
		c.judgeBinary(append(append([]byte{}, bin...), c.Bytes(k)...), "extended")
		m := append([]byte{}, bin...)
		m[c.R.IntN(34)] = byte(c.R.Uint32())
		c.judgeBinary(m, "byte replaced")
		c.judgeBinary(append(be16(id), c.badScalar()...), "non-canonical")
	}
	c.judgeBinary(append([]byte{0, 0}, enc...), "ID 0")
	c.Seen(id, x)
}

func (c *Case) textMutation(good []byte) []byte {
	b := append([]byte{}, good...)
	for k := 1 + c.R.IntN(2); k > 0 && len(b) > 0; k-- {
		i := c.R.IntN(len(b))
		switch c.R.IntN(7) {
		case 0:
			b[i] = `0123456789-+{}[]":,.eEABCxyz/= tf`[c.R.IntN(33)]
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			b = append(b[:i:i], append([]byte{`0123456789-+{}[]":,.eEABCxyz/= tf`[c.R.IntN(33)]}, b[i:]...)...)
		case 3:
			b[i] ^= 1 << c.R.IntN(7)
		case 4:
			j := c.R.IntN(len(b))
			b[i], b[j] = b[j], b[i]
		case 5: // a digit
			for j := 0; j < len(b); j++ {
				if p := (i + j) % len(b); b[p] >= '0' && b[p] <= '9' {
					b[p] = '0' + byte(c.R.IntN(10))
					break
				}
			}
		case 6: // a letter
			for j := 0; j < len(b); j++ {
				if p := (i + j) % len(b); b[p] >= 'A' && b[p] <= 'z' {
					b[p] = "ABCDEFGHabcdefgh"[c.R.IntN(16)]
					break
				}
			}
		}
	}
	return b
}

type pubFile struct {
	T      string
	Group  string
	Keys   []string
	Shares map[string]string
}

func (f *pubFile) json() []byte {
	var parts []string
	if f.T != "" {
		parts = append(parts, `"t":`+f.T)
	}
	if f.Group != "" {
		parts = append(parts, `"groupkey":`+f.Group)
	}
	if f.Keys != nil {
		var s []string
		for _, k := range f.Keys {
			s = append(s, `"`+k+`":`+f.Shares[k])
		}
		parts = append(parts, `"shares":{`+strings.Join(s, ",")+`}`)
	}
	return []byte("{" + strings.Join(parts, ",") + "}")
}

func corruptPublics(c *Case) {
	n := 2 + c.R.IntN(4)
	ids := c.ids(n)
	t := 1 + c.R.IntN(n-1)
	k := c.refDeal(ids, t)
	q := func(b []byte) string { return `"` + b64(b) + `"` }
	base := func() *pubFile {
		f := &pubFile{T: fmt.Sprint(t), Shares: map[string]string{}}
		for _, id := range ids {
			f.Keys = append(f.Keys, fmt.Sprint(id))
			f.Shares[fmt.Sprint(id)] = q(k.Public.Shares[id].Bytes())
		}
		f.Group = q(ref.MulBase(k.secret()).Encode())
		return f
	}
	c.Check(c.judgePublic(base().json(), "unaltered") != nil, "a valid file is refused")
	try := func(what string, alter func(f *pubFile)) {
		f := base()
		alter(f)
		c.judgePublic(f.json(), what)
		c.Count("corruptions of public shares", 1)
	}
	for _, x := range []string{"", "null", "-1", fmt.Sprint(n), fmt.Sprint(n - 1), fmt.Sprint(n + 1), "65535", "65536", fmt.Sprint(65536 + t), fmt.Sprint(65536*3 + t), fmt.Sprint(t - 65536), fmt.Sprint(int64(1)<<32 + int64(t)), "1.5", `"1"`, "[]", "18446744073709551617", fmt.Sprint(-t), fmt.Sprint(t) + "e0", "131072"} {
		try("t is "+x, func(f *pubFile) { f.T = x })
	}
	other := c.encPoint()
	for _, x := range []string{"", "null", `""`, "0", "{}", "[]", q(other), q(c.badPoint()), q(c.badPoint()), q(c.badPoint()), q(k.Public.Shares[ids[0]].Bytes()), q(ref.Identity().Encode()), q(ref.MulBase(ref.SNeg(k.secret())).Encode()),
		q(ref.MulBase(k.secret()).EncodeEd()), q(other[:31]), q(append(other, 0)), `"` + strings.TrimRight(b64(other), "=") + `"`} {
		try("group key "+clip(x, 60), func(f *pubFile) { f.Group = x })
	}
	i := c.R.IntN(n)
	ki := fmt.Sprint(ids[i])
	for _, x := range []string{"null", `""`, "0", "{}", q(other), q(c.badPoint()), q(c.badPoint()), q(c.badPoint()), q(ref.Identity().Encode()), q(k.Public.Shares[ids[(i+1)%n]].Bytes()), q(other[:31]), q(append(other, 0))} {
		try("share "+clip(x, 60), func(f *pubFile) { f.Shares[ki] = x })
	}
	for _, x := range []string{"0", "-1", "", "65536", fmt.Sprint(65536 + int(ids[i])), fmt.Sprint(int64(1)<<32 + int64(ids[i])), "x", "1.0", "0x10", "+" + ki, " " + ki, ki + " ", "1e1", fmt.Sprint(c.id()), "0" + ki, "-" + ki, "18446744073709551617"} {
		try("ID "+x, func(f *pubFile) { f.Keys[i] = x; f.Shares[x] = f.Shares[ki] })
		try("additional ID "+x, func(f *pubFile) { f.Keys = append(f.Keys, x); f.Shares[x] = q(other) })
	}
	try("no shares", func(f *pubFile) { f.Keys = nil })
	try("empty shares", func(f *pubFile) { f.Keys = []string{} })
	try("one share missing", func(f *pubFile) { f.Keys = append(f.Keys[:i], f.Keys[i+1:]...) })
	try("shares exchanged", func(f *pubFile) {
		a, b := f.Keys[0], f.Keys[n-1]
		f.Shares[a], f.Shares[b] = f.Shares[b], f.Shares[a]
	})
	try("one share only", func(f *pubFile) { f.Keys = f.Keys[:1]; f.T = "0" })
	try("one share only, as group key", func(f *pubFile) { f.Keys = f.Keys[:1]; f.T = "0"; f.Group = f.Shares[f.Keys[0]] })
	try("one share only, as group key, t=1", func(f *pubFile) { f.Keys = f.Keys[:1]; f.T = "1"; f.Group = f.Shares[f.Keys[0]] })
	try("another order", func(f *pubFile) { f.Keys[0], f.Keys[n-1] = f.Keys[n-1], f.Keys[0] })
	// two shares altered such that the interpolation over a subset still fits
	try("shifted shares", func(f *pubFile) {
		d := ref.MulBase(c.scalar())
		for j := 0; j < 2; j++ {
			p, _ := ref.Decode(k.Public.Shares[ids[j]].Bytes())
			f.Shares[fmt.Sprint(ids[j])] = q(p.Add(d).Encode())
		}
	})
	// text
	good := base().json()
	for j := 0; j < 50; j++ {
		c.judgePublic(c.textMutation(good), "altered text")
	}
	for j := 0; j < 20; j++ {
		c.judgePublic(good[:c.R.IntN(len(good))], "truncated")
	}
	for _, s := range []string{`{}`, `[]`, `0`, `""`, `null`, ``, string(good) + "}", "[" + string(good) + "]"} {
		c.judgePublic([]byte(s), "structure")
	}
	// public keys
	g := ref.MulBase(k.secret()).Encode()
	for _, s := range []string{q(g), q(other), q(c.badPoint()), q(c.badPoint()), q(c.badPoint()), q(g[:31]), q(append(append([]byte{}, g...), 0)), `""`, "0", "{}", "[]", "[" + q(g) + "]", "", `"` + fmt.Sprintf("%x", g) + `"`, `"` + strings.TrimRight(b64(g), "=") + `"`, q(append(append([]byte{}, g...), g...)), " " + q(g) + " ", q(g) + q(g)} {
		c.judgeKey([]byte(s), "public key")
	}
	for j := 0; j < 20; j++ {
		c.judgeKey(c.textMutation([]byte(q(g))), "altered text")
	}
	c.Seen(fp(ids), t, k.secret())
}

// newPublics: NewPublic itself.
func newPublics(c *Case) {
	n := 1 + c.R.IntN(6)
	ids := c.ids(n)
	if c.R.IntN(5) == 0 {
		ids[0] = 0
	}
	t := c.R.IntN(n + 2)
	if c.R.IntN(6) == 0 {
		t = []int{65535, 65534, 32768}[c.R.IntN(3)]
	}
	m := map[party.ID]*ristretto.Element{}
	want := refPub{t: t, shares: map[party.ID][]byte{}, group: ref.Identity()}
	nilShare := c.R.IntN(6) == 0
	for i, id := range ids {
		p := ref.MulBase(c.special())
		m[id] = ptEl(p)
		if nilShare && i == n-1 {
			m[id] = nil
		}
		want.shares[id] = p.Encode()
		want.group = want.group.Add(p.Mul(ref.Lagrange(int64(id), id64(ids))))
	}
	p, err := eddsa.NewPublic(m, party.Size(t))
	ok := !nilShare && ids[0] != 0 && t < n
	c.Check(ok == (err == nil), "NewPublic(%d shares of %v, t=%d, nil share=%v): %v", n, ids, t, nilShare, err)
	c.Check((err == nil) == (p != nil), "NewPublic returns %v with error %v", p, err)
	if ok {
		c.restoredPublic(p, want, "NewPublic")
		c.Count("NewPublic succeeds", 1)
	} else {
		c.Count("NewPublic refuses", 1)
	}
	c.Eval(1)
	c.Seen(fp(ids), t, nilShare)
}

func init() {
	register(&Prop{ID: "C10", Parts: []Part{
		{"stored", 400, 15000, storedKeys},
		{"large", 8, 200, largeKeys},
		{"shares", 64, 3000, corruptShares},
		{"publics", 72, 3000, corruptPublics},
		{"newpublic", 400, 20000, newPublics},
		{"equality", 160, 10000, equality},
		{"every-ID", 65536 / idChunk, 65536 / idChunk, keysOfEveryID},
		{"sizes", counts, 100 * counts, keysOfEverySize},
	}, Rule: "an execution counts if key material was restored, or an altered encoding judged by the reference predicate; distinct by key",
		Least: map[string]int64{"IDs enumerated": 65536, "encodings to be restored": 2000, "encodings to be refused": 10000, "sessions with restored key material": 100, "corruptions of public shares": 3000,
			"NewPublic refuses": 60, "NewPublic succeeds": 60, "large keys": 4, "different publics": 3000, "different secret shares": 1000}})
}

// ---- equality ----

// equality: Equal agrees with the equality of what is encoded, for key material that differs
// in one thing only.
func equality(c *Case) {
	n := 2 + c.R.IntN(5)
	t := c.R.IntN(n) // 0 is a threshold, too
	ids := c.ids(n)
	x := make([]*big.Int, n)
	co := []*big.Int{c.scalar()}
	for i := 1; i <= t; i++ {
		co = append(co, c.scalar())
	}
	public := func(ids []party.ID, x []*big.Int, t int) *eddsa.Public {
		m := map[party.ID]*ristretto.Element{}
		for i, id := range ids {
			m[id] = c.rerep(ptEl(ref.MulBase(x[i])))
		}
		p, err := eddsa.NewPublic(m, party.Size(t))
		c.Check(err == nil && p != nil, "NewPublic refuses the shares of %v with threshold %d: %v", ids, t, err)
		return p
	}
	for i, id := range ids {
		x[i] = ref.Poly(co, big.NewInt(int64(id)))
	}
	a := public(ids, x, t)
	same := func(b *eddsa.Public, what string) {
		c.publicEqual(a, b, what)
		c.publicEqual(b, a, what)
		c.Count("equal publics", 1)
		c.Eval(1)
	}
	differ := func(b *eddsa.Public, what string) {
		c.Check(!a.Equal(b), "public data of %v (threshold %d) equals one with %s", fp(ids), t, what)
		c.Check(!b.Equal(a), "public data with %s equals that of %v (threshold %d)", what, fp(ids), t)
		c.Count("different publics", 1)
		c.Eval(1)
	}
	same(a, "itself")
	same(public(ids, x, t), "other representations")
	var back eddsa.Public
	err := json.Unmarshal(asJSON(c, a), &back)
	c.Check(err == nil, "public data with threshold %d of %v is not restored: %v", t, fp(ids), err)
	same(&back, "restored")
	for u := 0; u < n; u++ {
		if u != t {
			differ(public(ids, x, u), fmt.Sprintf("threshold %d", u))
		}
	}
	with := func(i int, v *big.Int, j int, w *big.Int) []*big.Int {
		y := append([]*big.Int{}, x...)
		y[i] = v
		if j >= 0 {
			y[j] = w
		}
		return y
	}
	one := big.NewInt(1)
	for i := range ids {
		// one share
		for _, d := range []*big.Int{one, c.scalar()} {
			differ(public(ids, with(i, ref.SAdd(x[i], d), -1, nil), t), "another share")
		}
		// the group key stays
		j := (i + 1 + c.R.IntN(n-1)) % n
		li, lj := ref.Lagrange(int64(ids[i]), id64(ids)), ref.Lagrange(int64(ids[j]), id64(ids))
		d := c.scalar()
		e := ref.SMul(ref.SNeg(ref.SMul(li, d)), ref.SInv(lj))
		b := public(ids, with(i, ref.SAdd(x[i], d), j, ref.SAdd(x[j], e)), t)
		c.Check(b.GroupKey.Equal(a.GroupKey), "the group key of shares with the same interpolation differs")
		differ(b, "two other shares and the same group key")
		if x[i].Cmp(x[j]) != 0 {
			differ(public(ids, with(i, x[j], j, x[i]), t), "two shares exchanged")
		}
		// another ID
		other := append([]party.ID{}, ids...)
		for {
			other[i] = party.ID(1 + c.R.IntN(65535))
			if !ids.Contains(other[i]) {
				break
			}
		}
		differ(public(other, x, t), "another ID with the same share")
		y := append([]*big.Int{}, x...)
		y[i] = ref.Poly(co, big.NewInt(int64(other[i])))
		differ(public(other, y, t), "another ID of the same sharing")
		// one party less
		if n-1 > t {
			var fewer []party.ID
			var fx []*big.Int
			for k := range ids {
				if k != i {
					fewer, fx = append(fewer, ids[k]), append(fx, x[k])
				}
			}
			differ(public(fewer, fx, t), "one party less of the same sharing")
		}
		// one party more
		if !ids.Contains(other[i]) && t < n {
			differ(public(append(append([]party.ID{}, ids...), other[i]), append(append([]*big.Int{}, x...), y[i]), t), "one party more of the same sharing")
		}
		// secret shares
		s := eddsa.NewSecretShare(ids[i], bigSc(x[i]))
		c.Check(s.Equal(eddsa.NewSecretShare(ids[i], bigSc(x[i]))), "a secret share does not equal one of the same party and secret")
		for _, o := range []*eddsa.SecretShare{eddsa.NewSecretShare(other[i], bigSc(x[i])), eddsa.NewSecretShare(ids[i]^0x0100, bigSc(x[i])), eddsa.NewSecretShare(ids[i], bigSc(ref.SAdd(x[i], one))),
			eddsa.NewSecretShare(ids[i], bigSc(ref.SNeg(x[i]))), eddsa.NewSecretShare(other[i], bigSc(y[i]))} {
			if o.ID == s.ID && scBig(&o.Secret).Cmp(x[i]) == 0 {
				continue
			}
			c.Check(!s.Equal(o) && !o.Equal(s), "secret shares %d, %x and %d, %x are equal", s.ID, s.Secret.Bytes(), o.ID, o.Secret.Bytes())
			c.Count("different secret shares", 1)
		}
		// public keys
		p := ref.MulBase(x[i])
		k := eddsa.NewPublicKeyFromPoint(c.rerep(ptEl(p)))
		c.Check(k.Equal(eddsa.NewPublicKeyFromPoint(c.rerep(ptEl(p)))), "a public key does not equal itself in another representation")
		for _, q := range []*ref.Point{p.Neg(), p.Add(p), p.Add(ref.MulBase(one)), ref.Identity(), ref.MulBase(x[j]), ref.MulBase(one)} {
			want := q.Equal(p)
			o := eddsa.NewPublicKeyFromPoint(c.rerep(ptEl(q)))
			c.Check(k.Equal(o) == want && o.Equal(k) == want, "equality of public keys %x and %x is not %v", k.ToEd25519(), o.ToEd25519(), want)
			c.Count("pairs of public keys", 1)
		}
		c.Eval(3)
	}
	// ... and all of them
	y := make([]*big.Int, n)
	for i := range y {
		y[i] = ref.SAdd(x[i], co[0])
	}
	if co[0].Sign() != 0 {
		differ(public(ids, y, t), "another secret")
	}
	c.Seen(fp(ids), t)
}
