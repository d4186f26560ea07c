package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/vharness/ref"
)

// C24: IDs and sets of IDs.

const idChunk = 2048

// everyID enumerates all 16-bit IDs.
func everyID(c *Case) {
	for x := c.Idx * idChunk; x < (c.Idx+1)*idChunk; x++ {
		id := party.ID(x)
		b := id.Bytes()
		c.Check(len(b) == 2 && b[0] == byte(x>>8) && b[1] == byte(x), "ID %d has the byte form %x", x, b)
		b[0], b[1] = ^b[0], ^b[1]
		c.Check(bytes.Equal(id.Bytes(), []byte{byte(x >> 8), byte(x)}), "the byte form of ID %d changes when an earlier one is overwritten", x)
		for _, tail := range [][]byte{nil, {0}, {0xff, 1}, make([]byte, 40)} {
			y, err := party.FromBytes(append([]byte{byte(x >> 8), byte(x)}, tail...))
			c.Check(err == nil && y == id, "FromBytes of %d and %d more bytes gives %d, %v", x, len(tail), y, err)
		}
		want := strconv.Itoa(x)
		t, err := id.MarshalText()
		c.Check(err == nil && string(t) == want, "ID %d has the text form %q, %v", x, t, err)
		c.Check(id.String() == want, "ID %d prints as %q", x, id.String())
		c.Check(fmt.Sprint(id) == want, "ID %d prints as %q", x, fmt.Sprint(id))
		y := party.ID(^x)
		err = y.UnmarshalText([]byte(want))
		c.Check(err == nil && y == id, "the text %q is read as %d, %v", want, y, err)
		sc := id.Scalar()
		c.Check(bytes.Equal(sc.Bytes(), ref.ToLE(big.NewInt(int64(x)))), "ID %d has the scalar form %x", x, sc.Bytes())
		sc.Add(sc, sc)
		c.Check(scBig(id.Scalar()).Cmp(big.NewInt(int64(x))) == 0, "the scalar form of ID %d changes when an earlier one is overwritten", x)
		c.Eval(6)
		// as the key of a JSON object
		if x%64 == c.R.IntN(64) {
			j, err := json.Marshal(map[party.ID]int{id: 7})
			var m map[party.ID]int
			c.Check(err == nil && json.Unmarshal(j, &m) == nil && len(m) == 1 && m[id] == 7, "ID %d does not survive as JSON key: %s", x, j)
			j, err = json.Marshal([]party.ID{id})
			var l []party.ID
			c.Check(err == nil && json.Unmarshal(j, &l) == nil && len(l) == 1 && l[0] == id, "ID %d does not survive in JSON: %s", x, j)
		}
	}
	c.Count("IDs enumerated", idChunk)
	c.Seen(c.Idx)
}

// refusedTexts: texts that are certainly no ID.
func refusedTexts(c *Case) {
	refuse := func(s string) {
		y := party.ID(c.R.IntN(65536))
		err := y.UnmarshalText([]byte(s))
		c.Check(err != nil, "the text %q is read as ID %d", clip(s, 80), y)
		c.Count("refused texts", 1)
		c.Eval(1)
		c.Seen(s)
	}
	for _, b := range [][]byte{nil, {}, {0}, {1}, {255}} {
		_, err := party.FromBytes(b)
		c.Check(err != nil, "FromBytes takes %d bytes", len(b))
	}
	x := c.R.IntN(65536)
	n := strconv.Itoa(x)
	for _, s := range []string{"", " ", "-", "+", "-" + n, "+" + n, " " + n, n + " ", n + "\n", n + "\x00", n + "x", "x" + n, n + ".0", n + ".", "." + n, n + "e0", "0x" + n, "0b1", "0o7", "--" + n, n + "-", n + "," + n, "null", "true", "NaN", "Inf", "one", "1_000", "٣", "１", "\xff", "\"" + n + "\"", "'" + n + "'", "[" + n + "]", "#1", "1/1", "1%"} {
		refuse(s)
	}
	over := []*big.Int{big.NewInt(65536), big.NewInt(65537), big.NewInt(int64(65536 + x)), big.NewInt(1 << 17), big.NewInt(99999), big.NewInt(100000), big.NewInt(1<<31 - 1), big.NewInt(1 << 31), big.NewInt(1 << 32), big.NewInt(1<<32 + int64(x)), big.NewInt(1<<63 - 1)}
	for _, e := range []uint{16, 32, 48, 63, 64, 128, 256} {
		p := new(big.Int).Lsh(big.NewInt(1), e)
		over = append(over, p, new(big.Int).Add(p, big.NewInt(int64(x))))
	}
	over = append(over, big.NewInt(65536+c.R.Int64N(1<<40)))
	for _, v := range over {
		refuse(v.String())
		refuse("-" + v.String())
	}
	for k := 0; k < 60; k++ { // random texts
		b := []byte(n)
		for j := 1 + c.R.IntN(2); j > 0; j-- {
			i := c.R.IntN(len(b) + 1)
			b = append(b[:i:i], append([]byte{byte(c.R.IntN(256))}, b[i:]...)...)
		}
		s := string(b)
		if digits := strings.Trim(s, "0123456789") == ""; !digits {
			refuse(s)
		} else if v, _ := new(big.Int).SetString(s, 10); v.Cmp(big.NewInt(65535)) > 0 {
			refuse(s)
		}
	}
	refuse(strings.Repeat("9", 5+c.R.IntN(5000)))
	c.Sample(map[string]any{"around": n})
}

// idBag draws any list of IDs: unsorted, with duplicates and zeros.
func (c *Case) idBag(max int) []party.ID {
	n := c.R.IntN(max + 1)
	span := []int{3, 8, 40, 65536}[c.R.IntN(4)]
	off := []int{0, 0, 250, 32760, 65530}[c.R.IntN(5)]
	l := make([]party.ID, n)
	for i := range l {
		l[i] = party.ID(off + c.R.IntN(span))
	}
	switch c.R.IntN(5) {
	case 0:
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	case 1:
		sort.Slice(l, func(i, j int) bool { return l[i] > l[j] })
	}
	return l
}

func sortedCopy(l []party.ID) []party.ID {
	k := append([]party.ID{}, l...)
	sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	return k
}

func sameList(a, b []party.ID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// uniq is sorted without duplicates.
func uniq(l []party.ID) []party.ID {
	k := sortedCopy(l)
	out := []party.ID{}
	for i, x := range k {
		if i == 0 || k[i-1] != x {
			out = append(out, x)
		}
	}
	return out
}

// oneSet judges the set built from a list. Lists with duplicates are no sets: only what the
// statement says of any list is judged for them.
func (c *Case) oneSet(l []party.ID) party.IDSlice {
	keep := append([]party.ID{}, l...)
	// spare capacity that must stay untouched
	room := make([]party.ID, len(l), len(l)+4)
	copy(room, l)
	spare := room[:cap(room)]
	for i := len(l); i < len(spare); i++ {
		spare[i] = 0x5a5a
	}
	s := party.NewIDSlice(room)
	c.Check(sameList(room, keep), "NewIDSlice changes its argument %v to %v", clipIDs(keep), clipIDs(room))
	for i := len(l); i < len(spare); i++ {
		c.Check(spare[i] == 0x5a5a, "NewIDSlice writes behind its argument")
	}
	dup := len(uniq(l)) != len(l)
	if dup {
		for i := 1; i < len(s); i++ {
			c.Check(s[i-1] <= s[i], "NewIDSlice(%s) gives the unsorted %s", clipIDs(keep), clipIDs(s))
		}
		c.Check(sameList(uniq(s), uniq(l)), "NewIDSlice(%s) gives other IDs: %s", clipIDs(keep), clipIDs(s))
	} else {
		c.Check(sameList(s, sortedCopy(l)), "NewIDSlice(%s) gives %s", clipIDs(keep), clipIDs(s))
		c.Check(int(s.N()) == len(l)%65536, "the set %s has size %d", clipIDs(s), s.N())
	}
	// no shared memory, either way
	was := append([]party.ID{}, s...)
	for i := range spare {
		spare[i] ^= 0x1234
	}
	c.Check(sameList(s, was), "the set %s changes with the list it was built from", clipIDs(was))
	copy(room, keep)
	if len(s) > 0 {
		x := s[0]
		s[0] ^= 0x4321
		c.Check(sameList(room, keep), "the list %s changes with the set built from it", clipIDs(keep))
		s[0] = x
	}
	_ = append(s, 7)
	c.Check(sameList(room, keep), "appending to the set changes the list %s", clipIDs(keep))
	// copies
	k := s.Copy()
	c.Check(sameList(k, s), "the copy of %s is %s", clipIDs(s), clipIDs(k))
	for i := range k {
		k[i] ^= 0x1111
	}
	c.Check(sameList(s, was), "the set %s changes with its copy", clipIDs(was))
	k = s.Copy()
	for i := range s {
		s[i] ^= 0x2222
	}
	c.Check(sameList(k, was), "a copy changes with its original %s", clipIDs(was))
	copy(s, was)
	c.Eval(6)
	c.Count("sets built", 1)
	return s
}

func (c *Case) compare(a, b party.IDSlice) {
	sub := func(x, y []party.ID) bool { return within(x, y) }
	c.Check(a.IsSubsetOf(b) == sub(a, b), "%s.IsSubsetOf(%s) is %v", clipIDs(a), clipIDs(b), a.IsSubsetOf(b))
	c.Check(b.IsSubsetOf(a) == sub(b, a), "%s.IsSubsetOf(%s) is %v", clipIDs(b), clipIDs(a), b.IsSubsetOf(a))
	c.Check(a.Equal(b) == sameList(a, b) && b.Equal(a) == sameList(a, b), "%s.Equal(%s) is %v, %v", clipIDs(a), clipIDs(b), a.Equal(b), b.Equal(a))
	if a.IsSubsetOf(b) {
		c.Count("subsets", 1)
	}
	if a.Equal(b) {
		c.Count("equal sets", 1)
	}
	c.Eval(2)
	c.Count("pairs of sets", 1)
}

// everySmallSet: all pairs of subsets of 8 IDs, and membership of everything around.
func everySmallSet(c *Case) {
	var base []party.ID
	switch c.Idx % 4 {
	case 0:
		base = []party.ID{1, 2, 3, 4, 5, 6, 7, 8}
	case 1:
		base = []party.ID{0, 1, 255, 256, 32767, 32768, 65534, 65535}
	default:
		base = c.ids(8)
	}
	set := func(m int) party.IDSlice {
		l := []party.ID{}
		for b, x := range base {
			if m>>b&1 == 1 {
				l = append(l, x)
			}
		}
		return l
	}
	for m := 0; m < 256; m++ {
		s := set(m)
		for b, x := range base {
			c.Check(s.Contains(x) == (m>>b&1 == 1), "%s.Contains(%d) is %v", clipIDs(s), x, s.Contains(x))
			for _, y := range []party.ID{x + 1, x - 1, x ^ 256} {
				c.Check(s.Contains(y) == has(s, y), "%s.Contains(%d) is %v", clipIDs(s), y, s.Contains(y))
			}
		}
		c.Check(int(s.N()) == len(s), "%s has size %d", clipIDs(s), s.N())
		c.Seen(s)
		for m2 := 0; m2 < 256; m2++ {
			u := set(m2)
			c.Check(s.IsSubsetOf(u) == (m&^m2 == 0), "%s.IsSubsetOf(%s) is %v", clipIDs(s), clipIDs(u), s.IsSubsetOf(u))
			c.Check(s.Equal(u) == (m == m2), "%s.Equal(%s) is %v", clipIDs(s), clipIDs(u), s.Equal(u))
		}
		c.Eval(256)
	}
	c.Count("pairs of sets", 65536)
}

func randomSets(c *Case) {
	max := 12
	if c.R.IntN(6) == 0 {
		max = 300
	}
	l := c.idBag(max)
	s := c.oneSet(l)
	a := party.IDSlice(uniq(s))
	for i := 0; i < 30; i++ {
		x := party.ID(c.R.IntN(65536))
		if i%2 == 0 && len(s) > 0 {
			x = s[c.R.IntN(len(s))] + party.ID(c.R.IntN(3)) - 1
		}
		c.Check(s.Contains(x) == has(l, x), "NewIDSlice(%s).Contains(%d) is %v", clipIDs(l), x, s.Contains(x))
		c.Eval(1)
	}
	c.compare(a, party.IDSlice(uniq(c.oneSet(c.idBag(max)))))
	// repeated IDs are in a set or not like others
	for _, o := range []party.IDSlice{a, uniq(append(a.Copy(), party.ID(c.R.IntN(65536)))), c.ids(1 + c.R.IntN(8)), nil} {
		c.Check(s.IsSubsetOf(o) == within(l, o), "NewIDSlice(%s).IsSubsetOf(%s) is %v", clipIDs(l), clipIDs(o), s.IsSubsetOf(o))
		c.Check(o.IsSubsetOf(s) == within(o, l), "%s.IsSubsetOf(NewIDSlice(%s)) is %v", clipIDs(o), clipIDs(l), o.IsSubsetOf(s))
		c.Eval(2)
	}
	c.compare(a, a)
	c.compare(a, a.Copy())
	c.compare(a, nil)
	if n := len(a); n > 0 {
		c.compare(a, c.subset(a, 1+c.R.IntN(n)))
		b := a.Copy()
		b[c.R.IntN(n)] = party.ID(c.R.IntN(65536))
		c.compare(a, party.IDSlice(uniq(b)))
		c.compare(a, party.IDSlice(uniq(append(a.Copy(), party.ID(c.R.IntN(65536))))))
		c.compare(a, a[:n-1])
		c.compare(a, a[1:])
	}
	c.Check(sameList(a, uniq(l)), "set operations change the set")
	c.Seen(fp(l))
	c.Sample(map[string]any{"list": clipIDs(l), "set": clipIDs(s)})
}

// generated lists of 1..n, for every n.
func generatedLists(c *Case) {
	for n := c.Idx * 256; n < (c.Idx+1)*256; n++ {
		full := n%16 == c.R.IntN(16) || n < 300 || n > 65500
		for which, f := range []func(party.Size) party.IDSlice{helpers.NewPartySlice, helpers.GenerateSet} {
			if which == 1 && !full {
				continue
			}
			l := f(party.Size(n))
			c.Check(len(l) == n, "the list of %d parties has %d", n, len(l))
			for i, x := range l {
				if int(x) != i+1 {
					c.Fail("party %d of the list of %d is %d", i+1, n, x)
				}
			}
			c.Eval(1)
		}
	}
	c.Count("list sizes", 256)
	c.Seen(c.Idx)
}

// bagSets: long lists of few different IDs.
func bagSets(c *Case) {
	few := uniq(c.ids(1 + c.R.IntN(12)))
	var l []party.ID
	for _, x := range few {
		n := 1 << c.R.IntN(14)
		switch c.R.IntN(4) {
		case 0:
			n += c.R.IntN(3) - 1
		case 1:
			n = 1 + c.R.IntN(3*n)
		}
		for ; n > 0; n-- {
			l = append(l, x)
		}
	}
	l = append(l, few...)[:max(len(l), len(few))]
	c.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	s := c.oneSet(l)
	for _, x := range uniq(l) {
		c.Check(s.Contains(x), "a set made from %d IDs does not contain %d", len(l), x)
	}
	c.Count("long lists of few IDs", 1)
	c.Seen(fp(few), len(l))
}

// bigSets: sets of tens of thousands of IDs.
func bigSets(c *Case) {
	n := 30000 + c.R.IntN(35536)
	if c.Idx < 2 { // the largest sets of IDs there are
		n = 65535 - c.Idx
	}
	perm := c.R.Perm(65536)[:n]
	l := make([]party.ID, n)
	in := map[party.ID]bool{}
	for i, x := range perm {
		l[i] = party.ID(x)
		in[l[i]] = true
	}
	s := c.oneSet(l)
	for x := 0; x < 65536; x++ {
		if s.Contains(party.ID(x)) != in[party.ID(x)] {
			c.Fail("a set of %d IDs: Contains(%d) is %v", n, x, !in[party.ID(x)])
		}
	}
	c.Eval(65536)
	k := c.R.IntN(n)
	less := append(s[:k:k], s[k+1:]...)
	c.compare(s, less)
	c.compare(s, s.Copy())
	c.Count("big sets", 1)
	c.Seen(n, k)
}

// randomIDs: RandID gives usable IDs.
func randomIDs(c *Case) {
	halves := [2]int{}
	seen := map[party.ID]bool{}
	const k = 1 << 17
	for i := 0; i < k; i++ {
		id := party.RandID()
		if id == 0 {
			c.Fail("RandID gives 0, which is no ID, in call %d", i)
		}
		halves[id>>15]++
		seen[id] = true
	}
	c.Check(halves[0] > k/8 && halves[1] > k/8 && len(seen) > 20000, "%d calls of RandID give %d IDs below 32768 and %d above, %d different", k, halves[0], halves[1], len(seen))
	c.Count("random IDs", k)
	c.Eval(1)
	c.Seen(c.Idx)
}

func init() {
	register(&Prop{ID: "C24", Rule: "a value counts if the library's forms and set operations on it were compared with integers and mathematical sets; distinct by text, list and chunk of IDs",
		Parts: []Part{
			{Name: "every-ID", Quick: 65536 / idChunk, Thorough: 65536 / idChunk, Fn: everyID},
			{Name: "texts", Quick: 400, Thorough: 40000, Fn: refusedTexts},
			{Name: "small-sets", Quick: 16, Thorough: 800, Fn: everySmallSet},
			{Name: "sizes", Quick: 4 * counts, Thorough: 400 * counts, Fn: setsOfEverySize},
			{Name: "sets", Quick: 12000, Thorough: 1200000, Fn: randomSets},
			{Name: "generated-lists", Quick: 256, Thorough: 256, Fn: generatedLists},
			{Name: "bag-sets", Quick: 60, Thorough: 4000, Fn: bagSets},
			{Name: "big-sets", Quick: 8, Thorough: 400, Fn: bigSets},
			{Name: "random-IDs", Quick: 32, Thorough: 2000, Fn: randomIDs},
		},
		Least: map[string]int64{"IDs enumerated": 65536, "list sizes": 65536, "refused texts": 30000, "sets built": 20000, "pairs of sets": 1000000, "subsets": 10000, "equal sets": 10000, "long lists of few IDs": 40, "random IDs": 1 << 22},
	})
}
