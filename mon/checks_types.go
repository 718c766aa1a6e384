package main

// C09 to C13: keys, codecs, comparison, conversion and identifiers.

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"math"
	"math/big"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/types"
)

func init() {
	register(&Check{ID: "C09",
		Rule: "pairs of rows under random key definitions: independent, equal, and differing by one small change; " +
			"distinct by key definition and both rows",
		Run: func(c *Ctx) {
			c.Phase("pairs", c.N(60000, 2000000), keyPairs)
			c.Phase("text", c.N(16, 16), keyTextExhaustive)
			c.Phase("pools", c.N(16, 16), keyPools)
			c.Phase("sort", c.N(1500, 30000), keySort)
			c.Phase("wide", c.N(1000, 20000), keyWide)
		}})
	register(&Check{ID: "C10",
		Rule: "values at every power of two and around it and random ones, with buffers before and after, and " +
			"arbitrary byte strings given to the decoders; distinct by value or input",
		Run: func(c *Ctx) {
			c.Phase("values", c.N(40000, 1000000), codecValues)
			c.Phase("boundaries", 65*5, codecBoundaries)
			c.Phase("bytes", c.N(40000, 1000000), codecBytes)
			c.Phase("short", 256, codecShort)
		}})
	register(&Check{ID: "C11",
		Rule: "pairs and triples of values of all types, from pools of edge values (all pairs and triples of the pool) " +
			"and random neighbours; distinct by the values",
		Run: func(c *Ctx) {
			c.Phase("pool", len(cmpPool()), comparePool)
			c.Phase("random", c.N(60000, 2000000), compareRandom)
		}})
	register(&Check{ID: "C12",
		Rule: "values of all types and spellings cast and converted to all column types, and rows to column lists; " +
			"distinct by type and value",
		Run: func(c *Ctx) {
			c.Phase("cast", c.N(60000, 2000000), castCase)
			c.Phase("convert", c.N(60000, 2000000), convertCase)
			c.Phase("rows", c.N(10000, 200000), convertRows)
			c.Phase("numbers", c.N(20000, 500000), castNumbers)
		}})
	register(&Check{ID: "C13",
		Rule: "spellings (ASCII, non-ASCII, over-long, keywords in any case), quoted or not, in pairs; every keyword; " +
			"distinct by spelling",
		Run: func(c *Ctx) {
			c.Phase("keywords", 1, identKeywords)
			c.Phase("keyword-edits", len(keywordList)+len(refKnown), identEdits)
			c.Phase("pairs", c.N(30000, 500000), identPairs)
			c.Phase("long", c.N(10000, 200000), identLong)
			c.Phase("store", c.N(8000, 100000), identStore)
			c.Phase("many", 1, func(t *Case) { identMany(t, c.N(150000, 1200000)) })
		}})
}

// ---------------------------------------------------------------- keys

// near makes a value of the same type close to v.
func near(t *Case, v types.Value) types.Value {
	switch x := v.(type) {
	case types.BoolValue:
		return !x
	case types.Int64Value:
		switch t.IntN(4) {
		case 0:
			return x + 1
		case 1:
			return x - 1
		case 2:
			return x ^ (1 << t.IntN(64))
		}
		return -x
	case types.Float64Value:
		f := float64(x)
		switch t.IntN(5) {
		case 0:
			return types.Float64Value(math.Nextafter(f, math.Inf(1)))
		case 1:
			return types.Float64Value(math.Nextafter(f, math.Inf(-1)))
		case 2:
			return types.Float64Value(math.Float64frombits(math.Float64bits(f) ^ (1 << t.IntN(64))))
		case 3:
			return -x
		}
		return types.Float64Value(floatPool[t.IntN(len(floatPool))])
	case types.StringValue:
		return types.StringValue(nearText(t, string(x)))
	case types.BytesValue:
		return types.BytesValue(nearText(t, string(x)))
	}
	return v
}

func nearText(t *Case, s string) string {
	edge := func() string { return []string{"\x00", "\x01", "\x02", "\xff", "\xfe", "a", "\x80"}[t.IntN(7)] }
	switch t.IntN(5) {
	case 0:
		return s + edge()
	case 1:
		if len(s) > 0 {
			return s[:len(s)-1]
		}
		return edge()
	case 2:
		i := t.IntN(len(s) + 1)
		return s[:i] + edge() + s[i:]
	case 3:
		if len(s) > 0 {
			i := t.IntN(len(s))
			return s[:i] + edge() + s[i+1:]
		}
	case 4:
		return s + edge() + edge()
	}
	return s
}

func checkKeys(t *Case, key []types.ColumnKey, a, b types.Row) {
	ca, cb := copyRow(a), copyRow(b)
	ka := encode.MakeKey(key, a)
	kb := encode.MakeKey(key, b)
	if !identicalRows(a, ca) || !identicalRows(b, cb) {
		t.Failf("MakeKey(%v) changed its row %s %s to %s %s", key, showRow(ca), showRow(cb), showRow(a), showRow(b))
	}
	want := refKeyCmp(key, a, b)
	got := bytes.Compare(ka, kb)
	if got != want {
		t.Failf("key %v: rows %s and %s compare %d, their keys %x and %x compare %d", key, showRow(a), showRow(b),
			want, ka, kb, got)
	}
	if bytes.Compare(ka, encode.MaxKey) >= 0 {
		t.Failf("key %v: the key %x of %s is not below the maximum key %x", key, ka, showRow(a), encode.MaxKey)
	}
	if again := encode.MakeKey(key, a); !bytes.Equal(again, ka) {
		t.Failf("key %v: two encodings of %s differ: %x %x", key, showRow(a), ka, again)
	}
	t.Count("key pairs compared", 1)
	t.Count(fmt.Sprintf("key pairs ordered %d", want), 1)
}

func keyPairs(t *Case) {
	ncols := 1 + t.IntN(6)
	var key []types.ColumnKey
	for n := 1 + t.IntN(ncols); len(key) < n; {
		key = append(key, types.MakeColumnKey(types.ColumnNum(t.IntN(ncols)), t.IntN(2) == 0))
	}
	vts := make([]types.ValueType, ncols)
	for i := range vts {
		vts[i] = types.ValueType(1 + t.IntN(5))
	}
	gen := func() types.Row {
		r := make(types.Row, ncols)
		for i := range r {
			if t.IntN(6) > 0 {
				r[i] = genTyped(t, vts[i])
			}
		}
		return r
	}
	a := gen()
	b := gen()
	checkKeys(t, key, a, b)
	checkKeys(t, key, a, copyRow(a))
	for i := 0; i < 4; i++ {
		b = copyRow(a)
		c := t.IntN(ncols)
		switch {
		case b[c] == nil:
			b[c] = genTyped(t, vts[c])
		case t.IntN(8) == 0:
			b[c] = nil
		default:
			b[c] = near(t, b[c])
		}
		if t.IntN(3) == 0 {
			// A later column orders the other way, unless an earlier one decides.
			c2 := t.IntN(ncols)
			if b[c2] != nil {
				b[c2] = near(t, b[c2])
			}
		}
		t.Distinct(fmt.Sprint(key, showRow(a), showRow(b)))
		checkKeys(t, key, a, b)
		checkKeys(t, key, b, a)
	}
	t.Sample("key %v rows %s %s", key, showRow(a), showRow(b))
}

// keyTextExhaustive compares all pairs of short texts over the bytes the encoding treats
// specially, alone and followed by another column, in all directions.
func keyTextExhaustive(t *Case) {
	alpha := []byte{0, 1, 2, 'a', 0xFE, 0xFF}
	texts := []string{""}
	for from, n := 0, 0; n < 3; n++ {
		to := len(texts)
		for ; from < to; from++ {
			for _, b := range alpha {
				texts = append(texts, texts[from]+string([]byte{b}))
			}
		}
	}
	isBytes := t.index&1 != 0
	rev1 := t.index&2 != 0
	rev2 := t.index&4 != 0
	two := t.index&8 != 0
	mk := func(s string) types.Value {
		if isBytes {
			return types.BytesValue(s)
		}
		return types.StringValue(s)
	}
	key := []types.ColumnKey{types.MakeColumnKey(0, rev1)}
	if two {
		key = append(key, types.MakeColumnKey(1, rev2))
	}
	for i, s1 := range texts {
		for j, s2 := range texts {
			v1, v2 := types.Value(types.Int64Value(i%3)), types.Value(types.Int64Value(j%3))
			if (i+j)%5 == 0 {
				v1, v2 = mk(s2), mk(s1)
			}
			a := types.Row{mk(s1), v1}
			b := types.Row{mk(s2), v2}
			want := refKeyCmp(key, a, b)
			ka, kb := encode.MakeKey(key, a), encode.MakeKey(key, b)
			if got := bytes.Compare(ka, kb); got != want {
				t.Failf("key %v: rows %s and %s compare %d, their keys %x and %x compare %d", key, showRow(a),
					showRow(b), want, ka, kb, got)
			}
		}
		t.Distinct(s1)
	}
	t.Count("key pairs compared", len(texts)*len(texts))
}

// keyPools compares all pairs of the pools of edge values.
func keyPools(t *Case) {
	var vals []types.Value
	switch t.index % 4 {
	case 0:
		for _, i := range intPool {
			for d := int64(-2); d <= 2; d++ {
				vals = append(vals, types.Int64Value(i+d))
			}
		}
		for i := 0; i < 64; i++ {
			vals = append(vals, types.Int64Value(int64(1)<<i), types.Int64Value(-int64(1)<<i))
		}
	case 1:
		for _, f := range floatPool {
			vals = append(vals, types.Float64Value(f), types.Float64Value(math.Nextafter(f, math.Inf(1))),
				types.Float64Value(math.Nextafter(f, math.Inf(-1))), types.Float64Value(-f))
		}
		vals = append(vals, types.Float64Value(math.Float64frombits(0xFFF8000000000001)),
			types.Float64Value(math.Float64frombits(0x7FF0000000000001)))
	case 2:
		for _, s := range strPool {
			vals = append(vals, types.StringValue(s))
		}
	case 3:
		for _, s := range strPool {
			vals = append(vals, types.BytesValue(s))
		}
	}
	vals = append(vals, nil)
	if t.index%4 == 0 && t.index >= 8 {
		vals = []types.Value{nil, types.BoolValue(false), types.BoolValue(true)}
	}
	rev := t.index&4 != 0
	for _, x := range vals {
		for _, y := range vals {
			checkKeys(t, []types.ColumnKey{types.MakeColumnKey(0, rev)}, types.Row{x}, types.Row{y})
			if t.index >= 8 {
				// Between other columns, the last decides when they are equal.
				key := []types.ColumnKey{types.MakeColumnKey(1, !rev), types.MakeColumnKey(0, rev),
					types.MakeColumnKey(2, rev)}
				checkKeys(t, key, types.Row{x, types.StringValue("a"), types.Int64Value(1)},
					types.Row{y, types.StringValue("a"), types.Int64Value(2)})
			}
		}
		t.Distinct(fmt.Sprint(rev, show(x)))
	}
}

// keySort checks that sorting a set of rows by key bytes is sorting the rows.
func keySort(t *Case) {
	ncols := 1 + t.IntN(3)
	key := make([]types.ColumnKey, ncols)
	vts := make([]types.ValueType, ncols)
	for i, c := range t.Perm(ncols) {
		key[i] = types.MakeColumnKey(types.ColumnNum(c), t.IntN(2) == 0)
		vts[i] = types.ValueType(1 + t.IntN(5))
	}
	var rows []types.Row
	for i := 0; i < 12; i++ {
		r := make(types.Row, ncols)
		for j := range r {
			if t.IntN(6) > 0 {
				r[j] = genTyped(t, vts[j])
			}
		}
		rows = append(rows, r)
	}
	for i := range rows {
		for j := range rows {
			checkKeys(t, key, rows[i], rows[j])
		}
	}
	t.Distinct(fmt.Sprint(key, showRows(rows)))
}

// ---------------------------------------------------------------- codecs

func genU64(t *Case) uint64 {
	switch t.IntN(3) {
	case 0:
		return t.Uint64()
	case 1:
		return t.Uint64() >> t.IntN(64)
	}
	return uint64(1)<<t.IntN(64) + uint64(t.IntN(5)) - 2
}

func genBytes(t *Case, max int) []byte {
	b := make([]byte, t.IntN(max+1))
	for i := range b {
		switch t.IntN(4) {
		case 0:
			b[i] = byte(0x80 | t.IntN(128))
		case 1:
			b[i] = []byte{0, 1, 0x7F, 0x80, 0xFF}[t.IntN(5)]
		default:
			b[i] = byte(t.IntN(256))
		}
	}
	return b
}

func codecValue(t *Case, u uint64, pre, post []byte) {
	cut := func(buf []byte, what string) []byte {
		if !bytes.HasPrefix(buf, pre) {
			t.Failf("%s of %d after % x: the buffer became % x", what, u, pre, buf)
		}
		return append(append([]byte(nil), buf[len(pre):]...), post...)
	}
	// A buffer with spare capacity, whose spare bytes are somebody else's.
	start := func() []byte {
		b := make([]byte, len(pre), len(pre)+t.IntN(12))
		copy(b, pre)
		for spare := b[len(b):cap(b)]; len(spare) > 0; spare = spare[1:] {
			spare[0] = byte(t.Uint32())
		}
		return b
	}

	enc := cut(encode.EncodeVarint(start(), u), "EncodeVarint")
	rest, n, ok := encode.DecodeVarint(enc)
	if !ok || n != u || !bytes.Equal(rest, post) {
		t.Failf("varint of %d followed by % x: % x decodes to %d rest % x ok %v", u, post, enc, n, rest, ok)
	}
	for i := 0; i < len(enc)-len(post); i++ {
		if _, _, ok := encode.DecodeVarint(enc[:i:i]); ok {
			t.Failf("truncated varint % x of % x decodes", enc[:i], enc)
		}
	}
	i64 := int64(u)
	enc = cut(encode.EncodeZigzag64(start(), i64), "EncodeZigzag64")
	rest, m, ok := encode.DecodeZigzag64(enc)
	if !ok || m != i64 || !bytes.Equal(rest, post) {
		t.Failf("zigzag of %d followed by % x: % x decodes to %d rest % x ok %v", i64, post, enc, m, rest, ok)
	}
	for i := 0; i < len(enc)-len(post); i++ {
		if _, _, ok := encode.DecodeZigzag64(enc[:i:i]); ok {
			t.Failf("truncated zigzag % x of % x decodes", enc[:i], enc)
		}
	}
	enc = cut(encode.EncodeUint64(start(), u), "EncodeUint64")
	if want := append(binary.BigEndian.AppendUint64(nil, u), post...); !bytes.Equal(enc, want) {
		t.Failf("EncodeUint64(%d): % x, want % x", u, enc, want)
	}
	enc = cut(encode.EncodeUint32(start(), uint32(u)), "EncodeUint32")
	if want := append(binary.BigEndian.AppendUint32(nil, uint32(u)), post...); !bytes.Equal(enc, want) {
		t.Failf("EncodeUint32(%d): % x, want % x", uint32(u), enc, want)
	}
	// Zigzag keeps small magnitudes short, as varint does.
	t.Count("values coded", 1)
}

func codecValues(t *Case) {
	u := genU64(t)
	pre, post := genBytes(t, 12), genBytes(t, 12)
	codecValue(t, u, pre, post)
	t.Distinct(fmt.Sprint(u))
	t.Sample("%d after % x before % x", u, pre, post)
	u2 := genU64(t)
	a, b := encode.EncodeUint64(nil, u), encode.EncodeUint64(nil, u2)
	if c := bytes.Compare(a, b); c != new(big.Int).SetUint64(u).Cmp(new(big.Int).SetUint64(u2)) {
		t.Failf("EncodeUint64 of %d and %d sort %d", u, u2, c)
	}
}

func codecBoundaries(t *Case) {
	u := uint64(1)<<(t.index/5) + uint64(t.index%5) - 2
	if t.index/5 == 64 {
		u = uint64(t.index%5) - 2
	}
	for _, v := range []uint64{u, -u, ^u} {
		codecValue(t, v, nil, nil)
		codecValue(t, v, []byte{0x80}, []byte{0x80, 0x01})
		t.Distinct(fmt.Sprint(v))
	}
}

func checkDecode(t *Case, in []byte) {
	// The reference: seven bits a byte, least significant first.
	want, used := new(big.Int), 0
	ok := false
	for i, b := range in {
		want.Or(want, new(big.Int).Lsh(big.NewInt(int64(b&0x7F)), uint(7*i)))
		used = i + 1
		if b&0x80 == 0 {
			ok = true
			break
		}
	}
	big64 := want.BitLen() > 64
	orig := append([]byte(nil), in...)
	arg := append(make([]byte, 0, len(in)), in...)
	arg = arg[:len(in):len(in)]
	for _, zig := range []bool{false, true} {
		var rest []byte
		var u uint64
		var gotOK bool
		p := Try(func() {
			if zig {
				var i int64
				rest, i, gotOK = encode.DecodeZigzag64(arg)
				u = uint64(i)
			} else {
				rest, u, gotOK = encode.DecodeVarint(arg)
			}
		})
		if p != nil {
			t.Failf("decoding % x: panic: %v", in, p)
		}
		if !bytes.Equal(arg, orig) {
			t.Failf("decoding % x changed it to % x", orig, arg)
		}
		switch {
		case !ok || used > 10:
			if gotOK {
				t.Failf("decoding the truncated or over-long % x gives %d", in, u)
			}
			t.Count("bad inputs refused", 1)
		case big64:
			// Too large in its tenth byte: failing is right; how it is read otherwise is not specified.
		default:
			w := want.Uint64()
			if zig {
				w = uint64(int64(w>>1) ^ -int64(w&1))
			}
			if !gotOK || u != w || !bytes.Equal(rest, in[used:]) {
				t.Failf("decoding % x (zigzag %v): got %d rest % x ok %v, want %d rest % x", in, zig, u, rest,
					gotOK, w, in[used:])
			}
			t.Count("inputs decoded", 1)
		}
	}
}

func codecBytes(t *Case) {
	in := genBytes(t, 14)
	if t.IntN(3) == 0 {
		n := t.IntN(14)
		in = bytes.Repeat([]byte{byte(0x80 | t.IntN(128))}, n)
		if t.IntN(2) == 0 {
			in = append(in, byte(t.IntN(128)))
		}
	}
	checkDecode(t, in)
	t.Distinct(string(in))
}

// codecShort decodes all inputs of up to two bytes and many of three.
func codecShort(t *Case) {
	a := byte(t.index)
	checkDecode(t, nil)
	checkDecode(t, []byte{a})
	for b := 0; b < 256; b++ {
		checkDecode(t, []byte{a, byte(b)})
		checkDecode(t, []byte{a, byte(b), 0x7F})
		checkDecode(t, []byte{a, byte(b), 0x80})
		t.Distinct(string([]byte{a, byte(b)}))
	}
}

// ---------------------------------------------------------------- comparison

func cmpPool() []types.Value {
	vals := []types.Value{nil, types.BoolValue(false), types.BoolValue(true)}
	for _, i := range []int64{0, 1, -1, 2, 1 << 53, 1<<53 + 1, 1<<53 - 1, -(1 << 53) - 1, -(1 << 53), math.MaxInt64,
		math.MaxInt64 - 1, math.MaxInt64 - 1023, math.MaxInt64 - 511, math.MinInt64, math.MinInt64 + 1, 1<<62 + 1, 1 << 62, 3, -3} {
		vals = append(vals, types.Int64Value(i))
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 1.5, 1 << 53, 1<<53 + 2, -(1 << 53), 1 << 63,
		-(1 << 63), 1<<63 - 1024, -(1 << 63) - 2048, 1 << 62, 1e300, -1e300, math.Inf(1), math.Inf(-1), math.NaN(), 5e-324,
		-5e-324, 2.5, -2.5, 3} {
		vals = append(vals, types.Float64Value(f))
	}
	for _, s := range strPool {
		vals = append(vals, types.StringValue(s))
	}
	for _, s := range strPool[:14] {
		vals = append(vals, types.BytesValue(s))
	}
	return vals
}

func checkCompare(t *Case, a, b types.Value) int {
	var ab, ba int
	if p := Try(func() { ab, ba = types.Compare(a, b), types.Compare(b, a) }); p != nil {
		t.Failf("Compare(%s, %s): panic: %v", show(a), show(b), p)
	}
	want := sign(refCmp(a, b))
	if sign(ab) != want {
		t.Failf("Compare(%s, %s) is %d, want %d", show(a), show(b), ab, want)
	}
	if sign(ba) != -want {
		t.Failf("Compare(%s, %s) is %d, want %d", show(b), show(a), ba, -want)
	}
	if a != nil && b != nil && fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b) {
		key := []types.ColumnKey{types.MakeColumnKey(0, false)}
		k := bytes.Compare(encode.MakeKey(key, types.Row{a}), encode.MakeKey(key, types.Row{b}))
		if k != sign(ab) {
			t.Failf("Compare(%s, %s) is %d, but their keys compare %d", show(a), show(b), ab, k)
		}
		t.Count("comparisons checked against keys", 1)
	}
	t.Count("comparisons checked", 1)
	return sign(ab)
}

func comparePool(t *Case) {
	pool := cmpPool()
	a := pool[t.index]
	for _, b := range pool {
		ab := checkCompare(t, a, b)
		t.Distinct(show(a) + " " + show(b))
		for _, c := range pool {
			bc := sign(types.Compare(b, c))
			ac := sign(types.Compare(a, c))
			if (ab <= 0 && bc <= 0 && ac > 0) || (ab < 0 && bc <= 0 && ac >= 0) || (ab <= 0 && bc < 0 && ac >= 0) {
				t.Failf("not transitive: %s, %s, %s compare %d, %d and %d", show(a), show(b), show(c), ab, bc, ac)
			}
			t.Count("triples checked", 1)
		}
	}
}

func compareRandom(t *Case) {
	any := func() types.Value {
		if t.IntN(12) == 0 {
			return nil
		}
		return genTyped(t, types.ValueType(1+t.IntN(5)))
	}
	a := any()
	b := any()
	switch t.IntN(5) {
	case 4:
		if t.IntN(20) > 0 {
			break
		}
		// Long texts which differ late.
		s1 := bytes.Repeat([]byte{byte(t.IntN(256)), 'x', byte(t.IntN(3))}, t.IntN(1<<t.IntN(16)))
		s2 := slices.Clone(s1)
		for n := t.IntN(3); n > 0 && len(s2) > 0; n-- {
			s2[len(s2)-1-t.IntN(1+len(s2)>>t.IntN(4))%len(s2)] += byte(t.IntN(256))
		}
		s1 = append(s1, genBytes(t, 3)...)
		s2 = append(s2, genBytes(t, 3)...)
		a, b = types.Value(types.BytesValue(s1)), types.Value(types.BytesValue(s2))
		if t.IntN(2) == 0 {
			a, b = types.StringValue(s1), types.StringValue(s2)
		}
	case 3:
		// Texts of equal length.
		s1, s2 := make([]byte, 1+t.IntN(20)), make([]byte, 20)
		for i := range s1 {
			s1[i], s2[i] = byte(t.Uint32()), byte(t.Uint32())
		}
		a, b = types.Value(types.BytesValue(s1)), types.Value(types.BytesValue(s2[:len(s1)]))
		if t.IntN(2) == 0 {
			a, b = types.StringValue(s1), types.StringValue(s2[:len(s1)])
		}
	case 0:
		if a != nil {
			b = near(t, a)
		}
	case 1:
		// A float and the integers around it.
		f := t.NormFloat64() * math.Pow(2, float64(t.IntN(66)))
		a = types.Float64Value(f)
		if math.Abs(f) < 1<<63 {
			b = types.Int64Value(int64(f) + int64(t.IntN(5)-2))
		} else {
			b = types.Int64Value(intPool[t.IntN(len(intPool))])
		}
	case 2:
		i := int64(genU64(t))
		a = types.Int64Value(i)
		b = types.Float64Value(float64(i))
		if t.IntN(2) == 0 {
			b = near(t, b)
		}
	}
	t.Distinct(show(a) + " " + show(b))
	checkCompare(t, a, b)
	checkCompare(t, a, a)
	t.Sample("%s %s", show(a), show(b))
}

// ---------------------------------------------------------------- conversion

func genTextual(t *Case) string {
	pad := func(s string) string {
		ws := []string{"", "", " ", "\t", "\n", "  "}
		return ws[t.IntN(6)] + s + ws[t.IntN(6)]
	}
	switch t.IntN(7) {
	case 0:
		return pad(textPool[t.IntN(len(textPool))])
	case 1:
		return pad(fmt.Sprint(int64(genU64(t))))
	case 2:
		return pad(strconv.FormatFloat(math.Float64frombits(t.Uint64()), 'g', -1, 64))
	case 3:
		return pad([]string{"t", "true", "y", "yes", "on", "1", "f", "false", "n", "no", "off", "0", "tr", "T", "TRUE",
			"of", "onn", "2", "-1"}[t.IntN(19)])
	case 4:
		return pad([]string{"9223372036854775807", "9223372036854775808", "-9223372036854775808",
			"-9223372036854775809", "00012", "+12", "0x10", "1e400", "-1e400", "1e-400", "nan", "inf", "-Inf", "NaN", ".5",
			"5.", "1_000", "1e", "٣", "12_", "_12", "1__2", "_", "1e+", "1e5_", "0x_1p4", "0x1p4", "1,000", "--1", "+-1",
			"1e5e5", "infinity", "+Inf", "in f", "0b101", "0o17", "1.2.3"}[t.IntN(37)])
	case 5:
		if t.IntN(4) == 0 {
			return longStr(t)
		}
		return genStr(t)
	}
	s := fmt.Sprint(t.IntN(100)-50) + []string{"", ".0", ".5", "x", " 1"}[t.IntN(5)]
	if t.IntN(2) == 0 {
		// Something else at one end, or inside.
		junk := string(rune(t.IntN(128)))
		if t.IntN(6) == 0 {
			junk = string([]rune{0x660, 0xFEFF, 0x200B, 0xFF11}[t.IntN(4)])
		}
		at := []int{0, len(s), t.IntN(len(s) + 1)}[t.IntN(3)]
		s = s[:at] + junk + s[at:]
	}
	return s
}

func genAnyValue(t *Case) types.Value {
	switch t.IntN(6) {
	case 0:
		return types.StringValue(genTextual(t))
	case 1:
		return types.BytesValue(genTextual(t))
	case 2:
		return types.Float64Value(math.Float64frombits(t.Uint64()))
	case 3:
		return types.Int64Value(genU64(t))
	}
	if t.IntN(10) == 0 {
		return nil
	}
	return genTyped(t, types.ValueType(1+t.IntN(5)))
}

// unclearText: number spellings whose reading is left to the number parser.
func unclearText(vt types.ValueType, v types.Value) bool {
	s, ok := v.(types.StringValue)
	return ok && vt == types.Float64Type && strings.ContainsAny(string(s), "_xXpP")
}

func castCase(t *Case) {
	vt := types.ValueType(1 + t.IntN(5))
	v := genAnyValue(t)
	checkCast(t, vt, v)
	t.Sample("cast %s to %s", show(v), vt)
}

func checkCast(t *Case, vt types.ValueType, v types.Value) {
	t.Distinct(fmt.Sprint(vt, show(v)))
	if unclearText(vt, v) {
		return
	}
	arg := copyValue(v)
	var got types.Value
	var err error
	if p := Try(func() { got, err = types.CastValue(vt, arg) }); p != nil {
		t.Failf("cast of %s to %s: panic: %v", show(v), vt, p)
	}
	if !identical(arg, v) {
		t.Failf("cast changed its value %s to %s", show(v), show(arg))
	}
	want, ok := refCast(vt, v)
	if !ok {
		if err == nil {
			t.Failf("cast of %s to %s gives %s; expected an error", show(v), vt, show(got))
		}
		t.Count("casts refused", 1)
		return
	}
	if err != nil {
		t.Failf("cast of %s to %s fails: %s; expected %s", show(v), vt, err, show(want))
	}
	if !identical(got, want) {
		t.Failf("cast of %s to %s gives %s; expected %s", show(v), vt, show(got), show(want))
	}
	t.Count("casts checked", 1)
	t.Seen("cast directions", fmt.Sprintf("%T %s", v, vt))
	if got == nil {
		return
	}
	again, err := types.CastValue(vt, got)
	if err != nil || !identical(again, got) {
		t.Failf("cast of %s to %s gives %s, and again %s %v", show(v), vt, show(got), show(again), err)
	}
	// What a number prints as reads back as the number.
	if s, ok := got.(types.StringValue); ok {
		switch x := v.(type) {
		case types.Int64Value:
			back, err := types.CastValue(types.Int64Type, s)
			if err != nil || !identical(back, x) {
				t.Failf("%d prints as %s, which reads as %s %v", x, show(s), show(back), err)
			}
		case types.Float64Value:
			back, err := types.CastValue(types.Float64Type, s)
			if err != nil || !identical(back, x) {
				t.Failf("%v prints as %s, which reads as %s %v", x, show(s), show(back), err)
			}
		}
	}
}

// castNumbers concentrates on numbers at the limits of the integers.
func castNumbers(t *Case) {
	e := t.IntN(66)
	f := math.Ldexp(1, e)
	switch t.IntN(4) {
	case 0:
		f = math.Nextafter(f, math.Inf(1))
	case 1:
		f = math.Nextafter(f, 0)
	case 2:
		f += float64(t.IntN(3)) / 4
	}
	if t.IntN(2) == 0 {
		f = -f
	}
	checkCast(t, types.Int64Type, types.Float64Value(f))
	checkCast(t, types.StringType, types.Float64Value(f))
	i := int64(1)<<(e%64) + int64(t.IntN(5)-2)
	if t.IntN(2) == 0 {
		i = -i
	}
	checkCast(t, types.Float64Type, types.Int64Value(i))
	checkCast(t, types.StringType, types.Int64Value(i))
	checkCast(t, types.Int64Type, types.StringValue(fmt.Sprint(i)))
	n := new(big.Int).Lsh(big.NewInt(1), uint(e))
	n.Add(n, big.NewInt(int64(t.IntN(5)-2)))
	checkCast(t, types.Int64Type, types.StringValue(n.String()))
	checkCast(t, types.Int64Type, types.StringValue("-"+n.String()))
	for _, size := range []uint32{2, 4, 8} {
		ct := types.ColumnType{Type: types.Int64Type, Size: size}
		checkConvert(t, ct, types.Float64Value(f))
		checkConvert(t, ct, types.Int64Value(i))
		checkConvert(t, ct, types.StringValue(fmt.Sprint(i)))
	}
}

func genAnyColType(t *Case) types.ColumnType {
	ct := genColType(t)
	if ct.Type == types.StringType || ct.Type == types.BytesType {
		ct.Size = []uint32{0, 1, 2, 3, 5, 10, 4096, types.MaxColumnSize, 255, 256, 65535, 65536, 100000}[t.IntN(13)]
	}
	return ct
}

func convertCase(t *Case) {
	ct := genAnyColType(t)
	v := genAnyValue(t)
	if t.IntN(3) == 0 {
		v = genOffer(t, ct)
	}
	checkConvert(t, ct, v)
}

func checkConvert(t *Case, ct types.ColumnType, v types.Value) {
	if unclearText(ct.Type, v) {
		return
	}
	t.Distinct(fmt.Sprint(ct.Type, ct.Size, ct.NotNull, show(v)))
	var got types.Value
	var err error
	if p := Try(func() { got, err = types.ConvertValue(ct, copyValue(v)) }); p != nil {
		t.Failf("conversion of %s to %#v: panic: %v", show(v), ct, p)
	}
	want, ok := refConvert(ct, v)
	if !ok {
		if err == nil {
			t.Failf("conversion of %s to %#v gives %s; expected an error", show(v), ct, show(got))
		}
		t.Count("conversions refused", 1)
		return
	}
	if err != nil {
		t.Failf("conversion of %s to %#v fails: %s; expected %s", show(v), ct, err, show(want))
	}
	if !identical(got, want) {
		t.Failf("conversion of %s to %#v gives %s; expected %s", show(v), ct, show(got), show(want))
	}
	again, err := types.ConvertValue(ct, got)
	if err != nil || !identical(again, got) {
		t.Failf("conversion of %s to %#v gives %s, and again %s %v", show(v), ct, show(got), show(again), err)
	}
	t.Count("conversions checked", 1)
	t.Seen("conversions", fmt.Sprintf("%T %v", v, ct))
}

func convertRows(t *Case) {
	n := t.IntN(6)
	var cts []types.ColumnType
	for i := 0; i < n; i++ {
		cts = append(cts, genAnyColType(t))
	}
	m := n
	if t.IntN(4) == 0 {
		m = t.IntN(n + 3)
	}
	row := make(types.Row, m)
	for i := range row {
		ct := types.Int64ColType
		if i < n {
			ct = cts[i]
		}
		if t.IntN(5) == 0 {
			row[i] = genOffer(t, ct)
		} else if v := genFit(t, ct); true {
			row[i] = v
		}
	}
	if m < n {
		for _, ct := range cts[m:] {
			if ct.NotNull {
				return // what a missing value of a NOT NULL column becomes is not specified
			}
		}
	}
	before := copyRow(row)
	var got types.Row
	var err error
	if p := Try(func() { got, err = types.ConvertRow(cts, row) }); p != nil {
		t.Failf("conversion of row %s to %v: panic: %v", showRow(row), cts, p)
	}
	if !identicalRows(before, row) {
		t.Failf("conversion changed its row %s to %s", showRow(before), showRow(row))
	}
	want, ok := refConvertRow(cts, before)
	if !ok {
		if err == nil {
			t.Failf("conversion of row %s to %v gives %s; expected an error", showRow(row), cts, showRow(got))
		}
		t.Count("rows refused", 1)
	} else if err != nil {
		t.Failf("conversion of row %s to %v fails: %s", showRow(row), cts, err)
	} else if !identicalRows(got, want) {
		t.Failf("conversion of row %s to %v gives %s; expected %s", showRow(row), cts, showRow(got), showRow(want))
	}
	t.Distinct(fmt.Sprint(cts, showRow(row)))
	t.Count("rows converted", 1)
}

// ---------------------------------------------------------------- identifiers

var keywordList = func() []string {
	var kws []string
	for kw := range refKeywords {
		kws = append(kws, kw)
	}
	sort.Strings(kws)
	return kws
}()

func randCase(t *Case, s string) string {
	b := []byte(s)
	for i, c := range b {
		if t.IntN(2) == 0 {
			if c >= 'a' && c <= 'z' {
				b[i] = c - 32
			} else if c >= 'A' && c <= 'Z' {
				b[i] = c + 32
			}
		}
	}
	return string(b)
}

func cutName(s string) string {
	if len(s) <= types.MaxIdentifier {
		return s
	}
	n := 0
	for i, r := range s {
		if i+utf8.RuneLen(r) > types.MaxIdentifier {
			break
		}
		n = i + utf8.RuneLen(r)
	}
	return s[:n]
}

// identKey is what the reference takes an identifier to be: a keyword or a name.
func identKey(s string, quoted bool) string {
	if !quoted {
		if _, ok := refKeywords[strings.ToUpper(s)]; ok {
			return "keyword " + strings.ToUpper(s)
		}
		s = strings.ToLower(s)
	}
	return "name " + cutName(s)
}

// checkIdent checks one spelling against the reference.
func checkIdent(t *Case, s string, quoted bool) types.Identifier {
	var id types.Identifier
	if p := Try(func() { id = types.ID(s, quoted) }); p != nil {
		t.Failf("ID(%q, %v): panic: %v", s, quoted, p)
	}
	kind, text, _ := strings.Cut(identKey(s, quoted), " ")
	if got := id.String(); got != text {
		t.Failf("ID(%q, %v) prints as %q, want %q", s, quoted, got, text)
	}
	if len(id.String()) > types.MaxIdentifier {
		t.Failf("ID(%q, %v) is %d bytes long", s, quoted, len(id.String()))
	}
	if again := types.ID(s, quoted); again != id {
		t.Failf("ID(%q, %v) is %d and then %d", s, quoted, id, again)
	}
	if kind == "keyword" {
		kw := refKeywords[text]
		if id != kw.id || id.IsReserved() != kw.reserved {
			t.Failf("ID(%q, %v) is %d (reserved %v), not the keyword %s", s, quoted, id, id.IsReserved(), text)
		}
	} else {
		if back := types.ID(id.String(), true); back != id {
			t.Failf("ID(%q, %v) is %d and prints as %q, which quoted is %d", s, quoted, id, id.String(), back)
		}
		if id.IsReserved() {
			t.Failf("ID(%q, %v) is reserved", s, quoted)
		}
		if known, ok := refKnown[text]; ok && known != id {
			t.Failf("ID(%q, %v) is %d, not the known name %d", s, quoted, id, known)
		}
	}
	checkIdentGob(t, id)
	t.Count("identifiers checked", 1)
	return id
}

func checkIdentGob(t *Case, id types.Identifier) {
	b, err := id.GobEncode()
	if err != nil {
		t.Failf("encode identifier %d %q: %s", id, id, err)
	}
	var back types.Identifier
	if err := back.GobDecode(b); err != nil {
		t.Failf("decode identifier %d %q from % x: %s", id, id, b, err)
	}
	if back != id {
		t.Failf("identifier %d %q is stored as % x and loaded as %d %q", id, id, b, back, back)
	}
}

func checkIdentPair(t *Case, s1 string, q1 bool, s2 string, q2 bool) {
	id1 := checkIdent(t, s1, q1)
	id2 := checkIdent(t, s2, q2)
	same := identKey(s1, q1) == identKey(s2, q2)
	if same != (id1 == id2) {
		t.Failf("ID(%q, %v) is %d and ID(%q, %v) is %d; expected to be the same: %v", s1, q1, id1, s2, q2, id2, same)
	}
	t.Count(fmt.Sprintf("pairs the same %v", same), 1)
}

func identKeywords(t *Case) {
	seen := map[types.Identifier]string{}
	for _, kw := range keywordList {
		k := refKeywords[kw]
		if other, ok := seen[k.id]; ok {
			t.Failf("keywords %s and %s are the same", kw, other)
		}
		seen[k.id] = kw
		for i := 0; i < 8; i++ {
			s := randCase(t, kw)
			checkIdentPair(t, kw, false, s, false)
			checkIdentPair(t, kw, false, s, true)
			checkIdentPair(t, strings.ToLower(kw), true, s, false)
			checkIdentPair(t, kw, false, s+"x", false)
			checkIdentPair(t, kw, false, s[1:], false)
			t.Distinct(s)
		}
	}
	for name := range refKnown {
		checkIdentPair(t, name, true, randCase(t, name), false)
		checkIdentPair(t, name, true, randCase(t, name), true)
		t.Distinct(name)
	}
	if types.ID("", true) != 0 || types.Identifier(0).String() != "" {
		t.Failf("the empty name is not identifier 0")
	}
}

// identEdits compares a keyword or known name with every name one edit away from it.
func identEdits(t *Case) {
	names := append([]string(nil), keywordList...)
	var known []string
	for name := range refKnown {
		known = append(known, name)
	}
	sort.Strings(known)
	name := append(names, known...)[t.index]
	const letters = "abcdefghijklmnopqrstuvwxyz0189_ .\x00é"
	edit := func(s string) {
		if strings.EqualFold(s, name) {
			return
		}
		q := t.IntN(4) == 0
		checkIdentPair(t, name, false, s, q)
		checkIdentPair(t, strings.ToLower(name), true, s, q)
		t.Distinct(s)
	}
	for i := 0; i <= len(name); i++ {
		for _, r := range letters {
			edit(name[:i] + string(r) + name[i:])
			if i < len(name) {
				edit(name[:i] + string(r) + name[i+1:])
			}
		}
		if i < len(name) {
			edit(name[:i] + name[i+1:])
			edit(name[:i] + name[i:i+1] + name[i:])
		}
		if i+1 < len(name) {
			edit(name[:i] + name[i+1:i+2] + name[i:i+1] + name[i+2:])
		}
		for j := i + 1; j <= len(name); j++ {
			edit(name[i:j])
		}
	}
	for _, other := range append(names, known...) {
		edit(name + other)
		edit(name + "_" + other)
	}
}

const nameRunes = "abcxyzABCXYZ_0159 $.'\"éÉßñÑ日本語ЖжΩω😀ȺⱥÄä"

func genName(t *Case, n int) string {
	rs := []rune(nameRunes)
	b := make([]rune, n)
	only := t.IntN(3) == 0
	for i := range b {
		if only {
			b[i] = rs[t.IntN(20)]
		} else {
			b[i] = rs[t.IntN(len(rs))]
		}
	}
	return string(b)
}

func identPairs(t *Case) {
	var s1 string
	switch t.IntN(4) {
	case 0:
		s1 = randCase(t, keywordList[t.IntN(len(keywordList))])
	case 1:
		s1 = identPool[t.IntN(len(identPool))]
		if !utf8.ValidString(s1) || strings.ContainsAny(s1, "ſK") {
			s1 = "x"
		}
	default:
		s1 = genName(t, 1+t.IntN(12))
	}
	q1, q2 := t.IntN(2) == 0, t.IntN(2) == 0
	s2 := s1
	switch t.IntN(5) {
	case 0:
		s2 = randCase(t, s1)
	case 1:
		s2 = strings.ToLower(s1)
	case 2:
		s2 = strings.ToUpper(s1)
	case 3:
		s2 = s1 + genName(t, 1)
	}
	checkIdentPair(t, s1, q1, s2, q2)
	t.Distinct(fmt.Sprint(s1, q1, s2, q2))
	t.Sample("%q %v %q %v", s1, q1, s2, q2)
}

func identLong(t *Case) {
	// Around the maximum length, in bytes, with characters of any size at the cut.
	var s string
	for target := types.MaxIdentifier - 6 + t.IntN(12); len(s) < target; {
		if target-len(s) > 10 {
			s += strings.Repeat("q", t.IntN(8)+1)
		} else {
			s += genName(t, 1)
		}
	}
	if t.IntN(3) == 0 {
		s = genName(t, 60+t.IntN(120))
	}
	if t.IntN(4) == 0 {
		// Any bytes, up to the maximum length.
		b := []byte(s)
		b = b[:min(len(b), types.MaxIdentifier-t.IntN(3)*t.IntN(2))]
		b[t.IntN(len(b))] = byte(0x80 + t.IntN(128))
		checkIdent(t, string(b), true)
	}
	tail := s + genName(t, 1+t.IntN(5))
	q := t.IntN(2) == 0
	checkIdentPair(t, s, q, tail, q)
	checkIdentPair(t, s, false, s, true)
	checkIdentPair(t, tail, q, randCase(t, tail), t.IntN(2) == 0)
	t.Distinct(s)
	if len(cutName(s)) < len(s) {
		t.Count("names cut", 1)
	}
}

type identHolder struct {
	A    types.Identifier
	List []types.Identifier
	Tn   types.TableName
	M    map[string]types.Identifier
}

// identStore stores identifiers as part of larger values.
func identStore(t *Case) {
	h := identHolder{A: genIdentifier(t), Tn: types.TableName{Database: genIdentifier(t), Schema: genIdentifier(t),
		Table: genIdentifier(t)}, M: map[string]types.Identifier{"x": genIdentifier(t)}}
	for n := t.IntN(6); n > 0; n-- {
		h.List = append(h.List, genIdentifier(t))
	}
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(&h); err != nil {
		t.Failf("encode %v: %s", h, err)
	}
	var back identHolder
	if err := gob.NewDecoder(bytes.NewReader(buf.Bytes())).Decode(&back); err != nil {
		t.Failf("decode %v: %s", h, err)
	}
	nums := func(h identHolder) string { return fmt.Sprintf("%d %d %d %d", h.A, h.List, h.Tn, int(h.M["x"])) }
	if nums(h) != nums(back) {
		t.Failf("identifiers %s (%v) are stored and loaded as %s (%v)", nums(h), h, nums(back), back)
	}
	t.Distinct(fmt.Sprint(h))
	t.Count("identifiers stored and loaded", len(h.List)+5)

	// Every identifier that prints is loaded as itself, whichever way it was made.
	for _, id := range append(h.List, h.A) {
		checkIdentGob(t, id)
	}
	// Anything else given to the decoder is an error or an identifier, never a panic.
	b := genBytes(t, 6)
	var id types.Identifier
	if p := Try(func() { id.GobDecode(b) }); p != nil {
		t.Failf("decode identifier from % x: panic: %v", b, p)
	}
}

// identMany: more names than 16 bits can number.
func identMany(t *Case, n int) {
	names := make(map[types.Identifier]string, n)
	name := func(i int) string {
		return fmt.Sprintf("%s%d", []string{"m", "M ", "\u00e9", "very_long_name_"}[i%4], i)
	}
	for i := range n {
		s := name(i)
		id := types.ID(s, true)
		if other, ok := names[id]; ok {
			t.Failf("names %q and %q are both identifier %d", s, other, id)
		}
		if id <= 0 {
			t.Failf("name %q is the reserved identifier %d", s, id)
		}
		names[id] = s
	}
	for _, s := range keywordList {
		if other, ok := names[types.ID(s, false)]; ok {
			t.Failf("keyword %s and name %q are both identifier %d", s, other, types.ID(s, false))
		}
	}
	for i := range n {
		s := name(i)
		id := types.ID(s, true)
		if names[id] != s || id.String() != s {
			t.Failf("name %q is identifier %d, which prints as %q", s, id, id.String())
		}
		if i%64 == 0 {
			buf, err := id.GobEncode()
			var back types.Identifier
			if err == nil {
				err = back.GobDecode(buf)
			}
			if err != nil || back != id {
				t.Failf("name %q: identifier %d is stored and read as %d: %v", s, id, back, err)
			}
		}
	}
	t.Count("names in one process", n)
	t.Distinct(fmt.Sprint(n))
}
