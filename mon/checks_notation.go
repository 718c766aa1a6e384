package main

// C35: the notation and comparisons which tests of the storage and the engine are written in.

import (
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"unicode"

	"github.com/leftmike/maho/testutil"
	"github.com/leftmike/maho/types"
)

func init() {
	register(&Check{ID: "C35",
		Rule: "random values, rows, names and column lists rendered in every spelling and spacing and parsed again, alone and " +
			"one after the other from one reader; cut off, damaged and random text; random lists of rows compared in and out " +
			"of order; distinct by text",
		Run: func(c *Ctx) {
			c.Phase("rows", c.N(6000, 120000), notationRows)
			c.Phase("format", c.N(3000, 60000), notationFormat)
			c.Phase("malformed", c.N(6000, 120000), notationMalformed)
			c.Phase("mutated", c.N(20000, 400000), notationMutated)
			c.Phase("compare", c.N(6000, 120000), notationCompare)
			c.Phase("columns", c.N(4000, 80000), notationColumns)
			c.Phase("panicked", c.N(40, 40), notationPanicked)
		}})
}

func noteSpace(t *Case) string {
	var sb strings.Builder
	for t.IntN(3) == 0 {
		sb.WriteString([]string{" ", "\t", "\n", "\r\n", "  ", "\u00a0", "\u2003"}[t.IntN(7)])
	}
	return sb.String()
}

func noteCase(t *Case, s string) string {
	b := []byte(s)
	for i := range b {
		if t.IntN(2) == 0 {
			b[i] = strings.ToUpper(s[i : i+1])[0]
		}
	}
	return string(b)
}

// noteValue makes a value which the notation can say, and says it.
func noteValue(t *Case) (types.Value, string) {
	switch t.IntN(6) {
	case 0:
		return nil, noteCase(t, "null")
	case 1:
		b := t.IntN(2) == 0
		return types.BoolValue(b), noteCase(t, fmt.Sprint(b))
	case 2:
		i := int64(t.Uint64() >> 1 >> t.IntN(64))
		if t.IntN(20) == 0 {
			i = math.MaxInt64
		}
		return types.Int64Value(i), strings.Repeat("0", t.IntN(8)/7) + strconv.FormatInt(i, 10)
	case 3:
		f := math.Abs(t.NormFloat64()) * math.Pow(10, float64(t.IntN(20)-10))
		s := strconv.FormatFloat(f, 'f', 1+t.IntN(18), 64)
		if t.IntN(4) == 0 {
			s = strconv.FormatFloat(math.Trunc(f), 'f', 0, 64) + "."
		} else if strings.HasPrefix(s, "0.") && t.IntN(2) == 0 {
			s = s[1:]
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			t.Failf("harness: %s", err)
		}
		return types.Float64Value(f), s
	case 4:
		s := noteString(t)
		return types.StringValue(s), "'" + s + "'"
	default:
		n := t.IntN(9)
		if t.IntN(400) == 0 {
			n = noteSize(t, 100000)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(t.Uint32())
		}
		return types.BytesValue(b), []string{`'\x`, `'\X`}[t.IntN(2)] + noteCase(t, fmt.Sprintf("%x", b)) + "'"
	}
}

// noteSize is a size which is small more often than large.
func noteSize(t *Case, most int) int {
	return 1 + t.IntN(1+t.IntN(1+t.IntN(most)))
}

func noteString(t *Case) string {
	pool := []string{"a", "B", "0", " ", "\\", "\"", "(", ")", ",", "\n", "é", "世", "\U0001F600", "x", "\t", ";", "--", "/*", "\x00"}
	var sb strings.Builder
	for n := t.IntN(8); n > 0; n-- {
		sb.WriteString(pool[t.IntN(len(pool))])
	}
	if t.IntN(600) == 0 {
		s := sb.String() + "x"
		sb.Reset()
		for n := noteSize(t, 200000); sb.Len() < n; {
			sb.WriteString(s)
			sb.WriteByte(byte('a' + t.IntN(26)))
		}
	}
	return strings.TrimLeft(sb.String(), "\\")
}

func noteRow(t *Case) (types.Row, string) {
	var row types.Row
	var sb strings.Builder
	sb.WriteString("(")
	n := 1 + t.IntN(6)
	if t.IntN(600) == 0 {
		n = noteSize(t, 3000)
	}
	for ; n > 0; n-- {
		v, text := noteValue(t)
		row = append(row, v)
		sb.WriteString(noteSpace(t) + text + noteSpace(t))
		if n > 1 {
			sb.WriteString(",")
		}
	}
	return row, sb.String() + ")"
}

func notationRows(t *Case) {
	switch t.IntN(3) {
	case 0:
		v, text := noteValue(t)
		tail := []string{"", " ", ")", ",1", "\n", " x", "'", ", 'a'"}[t.IntN(8)]
		in := noteSpace(t) + text + tail
		rd := strings.NewReader(in)
		got, err := testutil.ParseValue(rd)
		t.Logf("ParseValue(%q): %s %v", in, show(got), err)
		if err != nil || !identical(got, v) {
			t.Failf("ParseValue(%q) is %s, %v; expected %s", in, show(got), err, show(v))
		}
		if rest, _ := io.ReadAll(rd); string(rest) != tail {
			t.Failf("ParseValue(%q) leaves %q; expected %q", in, rest, tail)
		}
		t.Distinct(in)
		t.Count("values parsed", 1)
	case 1:
		// Several rows one after the other from the same reader.
		var rows []types.Row
		in := ""
		for n := 1 + t.IntN(4); n > 0; n-- {
			row, text := noteRow(t)
			rows = append(rows, row)
			in += noteSpace(t) + text
		}
		rd := strings.NewReader(in + "rest")
		for i, row := range rows {
			got, err := testutil.ParseRow(rd)
			if err != nil || !identicalRows(got, row) {
				t.Failf("row %d of %q is %s, %v; expected %s", i, in, showRow(got), err, showRow(row))
			}
		}
		if rest, _ := io.ReadAll(rd); string(rest) != "rest" {
			t.Failf("rows of %q leave %q", in, rest)
		}
		if got := testutil.MustParseRow(in); !identicalRows(got, rows[0]) {
			t.Failf("MustParseRow(%q) is %s; expected %s", in, showRow(got), showRow(rows[0]))
		}
		t.Distinct(in)
		t.Count("rows parsed", len(rows))
	default:
		var rows []types.Row
		var sb strings.Builder
		n := 1 + t.IntN(5)
		if t.IntN(600) == 0 {
			n = noteSize(t, 6000)
		}
		for ; n > 0; n-- {
			row, text := noteRow(t)
			if len(text) > 1000 && n > 5 {
				v, s := types.Int64Value(n), fmt.Sprint(n)
				row, text = types.Row{v}, "("+s+")"
			}
			rows = append(rows, row)
			sb.WriteString(noteSpace(t) + text + noteSpace(t))
			if n > 1 {
				sb.WriteString(",")
			}
		}
		in := sb.String()
		got := testutil.MustParseRows(in)
		if len(got) != len(rows) || !slices.EqualFunc(got, rows, identicalRows) {
			t.Failf("rows of %q are %s; expected %s", in, showRows(got), showRows(rows))
		}
		t.Distinct(in)
		t.Count("rows parsed", len(rows))
		t.Sample("%q", in)
	}
}

// notationFormat: formatted rows read back as rows that are equal.
func notationFormat(t *Case) {
	var rows []types.Row
	for n := 1 + t.IntN(5); n > 0; n-- {
		row, _ := noteRow(t)
		for i, v := range row {
			if f, ok := v.(types.Float64Value); ok && strings.Contains(f.String(), "e") {
				row[i] = types.Float64Value(float64(t.IntN(100000)) / 64)
			}
		}
		rows = append(rows, row)
	}
	sep := []string{", ", ",\n", ","}[t.IntN(3)]
	s := testutil.FormatRows(rows, sep)
	got, err := testutil.ParseRows(strings.NewReader(s))
	if err != nil || len(got) != len(rows) {
		t.Failf("%s is printed as %q, which reads as %s, %v", showRows(rows), s, showRows(got), err)
	}
	for i, row := range rows {
		same := len(got[i]) == len(row)
		for j := 0; same && j < len(row); j++ {
			same = refCmp(got[i][j], row[j]) == 0
		}
		if !same {
			t.Failf("%s is printed as %q, which reads as %s", showRow(row), s, showRow(got[i]))
		}
	}
	// Any separator stands between the rows, and nowhere else.
	sep = []string{"", "\n", "---", "%s", "%"}[t.IntN(5)]
	var each []string
	for _, row := range rows {
		each = append(each, testutil.FormatRows([]types.Row{row}, sep))
	}
	if got := testutil.FormatRows(rows, sep); got != strings.Join(each, sep) {
		t.Failf("rows with the separator %q are printed as %q; expected %q", sep, got, strings.Join(each, sep))
	}
	if got := testutil.FormatRows(nil, sep); got != "" {
		t.Failf("no rows are printed as %q", got)
	}
	t.Distinct(s)
	t.Count("rows printed", len(rows))
}

var (
	noteNumber = regexp.MustCompile(`^[0-9.]+`)
	noteWord   = regexp.MustCompile(`^\pL+`)
	noteText   = regexp.MustCompile(`^'([^'\\][^']*)?'`)
	noteBytes  = regexp.MustCompile(`^'\\[xX]([0-9a-fA-F]{2})*'`)
	noteBig    = regexp.MustCompile(`[0-9]{16}`)
)

// refNoteValue reads a value off the front of the text.
func refNoteValue(s string) (types.Value, string, bool) {
	s = strings.TrimLeftFunc(s, unicode.IsSpace)
	if m := noteNumber.FindString(s); m != "" {
		s = s[len(m):]
		if !strings.Contains(m, ".") {
			i, err := strconv.ParseInt(m, 10, 64)
			return types.Int64Value(i), s, err == nil
		}
		f, err := strconv.ParseFloat(m, 64)
		return types.Float64Value(f), s, err == nil
	} else if m := noteWord.FindString(s); m != "" {
		s = s[len(m):]
		switch strings.ToLower(m) {
		case "true":
			return types.BoolValue(true), s, true
		case "false":
			return types.BoolValue(false), s, true
		case "null":
			return nil, s, true
		}
	} else if m := noteBytes.FindString(s); m != "" {
		b, err := hex.DecodeString(m[3 : len(m)-1])
		return types.BytesValue(b), s[len(m):], err == nil
	} else if m := noteText.FindString(s); m != "" {
		return types.StringValue(m[1 : len(m)-1]), s[len(m):], true
	}
	return nil, s, false
}

func refNoteRow(s string) (types.Row, bool) {
	s = strings.TrimLeftFunc(s, unicode.IsSpace)
	if !strings.HasPrefix(s, "(") {
		return nil, false
	}
	var row types.Row
	for s = s[1:]; ; s = s[1:] {
		v, rest, ok := refNoteValue(s)
		if !ok {
			return nil, false
		}
		row = append(row, v)
		s = strings.TrimLeftFunc(rest, unicode.IsSpace)
		if strings.HasPrefix(s, ")") {
			return row, true
		} else if !strings.HasPrefix(s, ",") {
			return nil, false
		}
	}
}

// notationMutated: a row with a few characters added, removed or changed.
func notationMutated(t *Case) {
	_, in := noteRow(t)
	for n := 1 + t.IntN(2); n > 0; n-- {
		const pool = "()',.\\xX019afgtrue \n\te-+\"_$;:@[`{/"
		c := pool[t.IntN(len(pool))]
		rs := []rune(in)
		i := t.IntN(len(rs))
		switch t.IntN(3) {
		case 0:
			rs = slices.Insert(rs, i, rune(c))
		case 1:
			rs[i] = rune(c)
		default:
			rs = slices.Delete(rs, i, i+1)
		}
		in = string(rs)
	}
	if noteBig.MatchString(in) {
		return // is an integer too large, or a decimal cut differently
	}
	want, ok := refNoteRow(in)
	got, err := testutil.ParseRow(strings.NewReader(in))
	if ok != (err == nil) || !identicalRows(got, want) {
		t.Failf("ParseRow(%q) is %s, %v; expected %s, success %t", in, showRow(got), err, showRow(want), ok)
	}
	t.Count(fmt.Sprintf("changed texts read: %t", ok), 1)
	t.Distinct(in)
}

func notationMalformed(t *Case) {
	var in string
	bad := true
	switch t.IntN(5) {
	case 0: // cut off
		_, text := noteRow(t)
		rs := []rune(text)
		in = string(rs[:t.IntN(len(rs))])
	case 1: // something that is no value
		_, a := noteValue(t)
		_, b := noteValue(t)
		x := []string{"abc", "+1", "-", "1.2.3", ".", "nul", "tru", "truefalse", "x", `'\y00'`, `'\x0'`, `'\x0g'`, `'\xé'`, `'\x 0'`,
			`'\x00 '`, "", "\"a\"", "()", "1 2", "'a' 'b'", "''''", "..", `'\x/0'`, `'\x0:'`, `'\x@0'`, "`1", `'\x0[0'`}[t.IntN(27)]
		in = "(" + a + "," + x + "," + b + ")"
	case 2: // no or other parentheses and commas
		_, a := noteValue(t)
		_, b := noteValue(t)
		in = []string{"%s,%s)", "(%s,%s", "[%s,%s]", "(%s;%s)", "(,%s,%s)", "(%s,,%s)", "(%s,%s,)", "(%s %s)", "((%s,%s))",
			"(%s,%s]", "x(%s,%s)"}[t.IntN(11)]
		in = fmt.Sprintf(in, a, b)
	case 3: // rows
		_, a := noteRow(t)
		_, b := noteRow(t)
		in = fmt.Sprintf([]string{"%s %s", "%s,%s,", "%s;%s", "%s,,%s", ",%s,%s", "%s,%s x"}[t.IntN(6)], a, b)
		rows, err := testutil.ParseRows(strings.NewReader(in))
		if err == nil {
			t.Failf("ParseRows(%q) is %s; expected an error", in, showRows(rows))
		}
		if rows != nil {
			t.Failf("ParseRows(%q) is %s as well as %v", in, showRows(rows), err)
		}
		if Try(func() { testutil.MustParseRows(in) }) == nil {
			t.Failf("MustParseRows(%q) does not panic", in)
		}
		t.Count("damaged texts refused", 1)
		t.Distinct(in)
		return
	default: // anything
		const pool = "()',.\\xX01fagtrue null\n\té"
		for n := t.IntN(12); n > 0; n-- {
			i := t.IntN(len(pool))
			in += pool[i : i+1]
		}
		bad = false
	}
	row, err := testutil.ParseRow(strings.NewReader(in))
	if bad && err == nil {
		t.Failf("ParseRow(%q) is %s; expected an error", in, showRow(row))
	}
	if err != nil && row != nil {
		t.Failf("ParseRow(%q) is %s as well as %v", in, showRow(row), err)
	}
	if p := Try(func() { testutil.MustParseRow(in) }); (p != nil) != (err != nil) || isRuntimeError(p) {
		t.Failf("ParseRow(%q) says %v; MustParseRow panics with %v", in, err, p)
	}
	rows, err2 := testutil.ParseRows(strings.NewReader(in))
	if bad && err2 == nil {
		t.Failf("ParseRows(%q) is %s; expected an error", in, showRows(rows))
	}
	val, err := testutil.ParseValue(strings.NewReader(in))
	if err != nil && val != nil {
		t.Failf("ParseValue(%q) is %s as well as %v", in, show(val), err)
	}
	testutil.ParseIdentifier(strings.NewReader(in))
	testutil.ParseIdentifiers(strings.NewReader(in))
	testutil.ParseColumns(strings.NewReader(in))
	t.Count("damaged texts refused", 1)
	t.Distinct(in)
}

func noteSmallValue(t *Case) types.Value {
	switch t.IntN(8) {
	case 0:
		return nil
	case 1:
		return types.BoolValue(t.IntN(2) == 0)
	case 2, 3:
		if t.IntN(4) == 0 {
			return types.Int64Value([]int{10000000, 300000000, math.MaxInt64, 1 << 53}[t.IntN(4)])
		}
		return types.Int64Value(t.IntN(4) - 1)
	case 4:
		if t.IntN(4) == 0 {
			return types.Float64Value([]float64{1e7, 3e8, math.Copysign(0, -1), 1 << 53, 1 << 63}[t.IntN(5)])
		}
		return types.Float64Value(float64(t.IntN(6))/2 - 1)
	case 5:
		return types.StringValue([]string{"", "a", "b", "A", "ab"}[t.IntN(5)])
	case 6:
		return types.BytesValue([]string{"", "a", "b", "A", "ab"}[t.IntN(5)])
	}
	return genTypedValue(t)
}

func genTypedValue(t *Case) types.Value {
	v, _ := noteValue(t)
	return v
}

func refRowCmp(a, b types.Row) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if c := refCmp(a[i], b[i]); c != 0 {
			return sign(c)
		}
	}
	return sign(len(a) - len(b))
}

func notationCompare(t *Case) {
	gen := func() types.Row {
		var r types.Row
		n := t.IntN(4)
		if t.IntN(300) == 0 {
			n = noteSize(t, 200)
		}
		for ; n > 0; n-- {
			r = append(r, noteSmallValue(t))
		}
		return r
	}
	a, b := gen(), gen()
	if t.IntN(3) > 0 {
		b = copyRow(a)
		if len(b) > 0 && t.IntN(2) == 0 {
			b[t.IntN(len(b))] = noteSmallValue(t)
		}
		if t.IntN(4) == 0 {
			b = b[:t.IntN(len(b)+1)]
		}
	}
	if got, want := testutil.CompareRows(a, b), refRowCmp(a, b); sign(got) != want {
		t.Failf("CompareRows(%s, %s) is %d; expected %d", showRow(a), showRow(b), got, want)
	}
	t.Count("pairs of rows compared", 1)

	var as, bs []types.Row
	n := t.IntN(6)
	if t.IntN(200) == 0 {
		n = noteSize(t, 400)
	}
	for ; n > 0; n-- {
		as = append(as, gen())
		if len(as) > 1 && t.IntN(3) == 0 {
			as[len(as)-1] = copyRow(as[0])
		}
	}
	for _, r := range as {
		bs = append(bs, copyRow(r))
	}
	t.Shuffle(len(bs), func(i, j int) {
		if t.IntN(2) == 0 {
			bs[i], bs[j] = bs[j], bs[i]
		}
	})
	if len(bs) > 0 {
		switch t.IntN(6) {
		case 0: // one in place of another
			bs[t.IntN(len(bs))] = copyRow(bs[t.IntN(len(bs))])
		case 1:
			bs = bs[:len(bs)-1]
		case 2:
			i := t.IntN(len(bs))
			if len(bs[i]) > 0 {
				bs[i][t.IntN(len(bs[i]))] = noteSmallValue(t)
			}
		case 3:
			bs = append(bs, copyRow(bs[0]))
		}
	}
	unordered := t.IntN(2) == 0
	want := len(as) == len(bs)
	if unordered {
		left := slices.Clone(bs)
		for _, r := range as {
			i := slices.IndexFunc(left, func(o types.Row) bool { return refRowCmp(r, o) == 0 })
			if i < 0 {
				want = false
				break
			}
			left = slices.Delete(left, i, i+1)
		}
	} else {
		for i := 0; want && i < len(as); i++ {
			want = refRowCmp(as[i], bs[i]) == 0
		}
	}
	text := showRows(as) + " and " + showRows(bs)
	if got := testutil.RowsEqual(as, bs, unordered); got != want {
		t.Failf("RowsEqual of %s, unordered %t, is %t", text, unordered, got)
	}
	t.Count(fmt.Sprintf("lists of rows equal: %t", want), 1)
	t.Distinct(text)
}

func notationColumns(t *Case) {
	var names []types.Identifier
	var cts []types.ColumnType
	var key []types.ColumnKey
	in := ""
	gap := func() string {
		if s := noteSpace(t); s != "" {
			return s
		}
		return " "
	}
	n := 1 + t.IntN(5)
	if t.IntN(300) == 0 {
		n = noteSize(t, 1000)
	}
	for i := 0; i < n; i++ {
		name := []string{"c1", "Abc", "int", "primary", "_x", "a$b", "é", "select", "x9"}[t.IntN(9)]
		names = append(names, types.ID(name, false))
		spec := typeSpecs[t.IntN(len(typeSpecs))]
		for strings.Contains(spec.name, " ") {
			spec = typeSpecs[t.IntN(len(typeSpecs))]
		}
		in += noteSpace(t) + name + gap() + noteCase(t, strings.ToLower(spec.name))
		ct := spec.ct
		if spec.sized && t.IntN(2) == 0 {
			ct.Size = 1 + t.Uint32()%1000
			in += noteSpace(t) + "(" + noteSpace(t) + strings.Repeat("0", t.IntN(3)*t.IntN(3)) + fmt.Sprint(ct.Size) + noteSpace(t) + ")"
		}
		for t.IntN(3) == 0 {
			if t.IntN(2) == 0 {
				ct.NotNull = true
				in += gap() + noteCase(t, "not") + gap() + noteCase(t, "null")
			} else if len(key) == 0 || key[len(key)-1].Column() != types.ColumnNum(i) {
				key = append(key, types.MakeColumnKey(types.ColumnNum(i), false))
				in += gap() + noteCase(t, "primary") + gap() + noteCase(t, "key")
			}
		}
		cts = append(cts, ct)
		if i < n-1 {
			in += noteSpace(t) + ","
		}
	}
	in += noteSpace(t)
	switch t.IntN(4) {
	case 0: // damaged
		x := []string{",", " 1", " nul", " not", " primary", " key", ")", "(0", " not key", ", c", ", + int", ", c bad", ", c char(",
			", c char()", ", c char(x)", ", c char(4294967296)", ", c varchar(9223372036854775808)", ", c int(4)", ", c bool not null null",
			", c char(1", ", c int x"}[t.IntN(21)]
		if strings.HasPrefix(x, "(") && (strings.HasSuffix(strings.TrimSpace(in), ")") || len(cts) > 0) {
			x = ","
		}
		if t.IntN(3) == 0 && len(names) > 1 {
			// Something in the middle that nothing in a list of columns holds.
			var commas []int
			for i := range in {
				if in[i] == ',' {
					commas = append(commas, i)
				}
			}
			i := commas[t.IntN(len(commas))]
			if t.IntN(2) == 0 {
				i++
			}
			in = in[:i] + string(";+.:'\"@)!?[="[t.IntN(12)]) + in[i:]
		} else {
			in += x
		}
		gn, gt, gk, err := testutil.ParseColumns(strings.NewReader(in))
		if err == nil {
			t.Failf("ParseColumns(%q) is %v %v %v; expected an error", in, gn, gt, gk)
		}
		if gn != nil || gt != nil || gk != nil {
			t.Failf("ParseColumns(%q) is %v %v %v as well as %v", in, gn, gt, gk, err)
		}
		if Try(func() { testutil.MustParseColumns(in) }) == nil {
			t.Failf("MustParseColumns(%q) does not panic", in)
		}
		t.Count("damaged column lists refused", 1)
	case 1:
		var ss []string
		for _, id := range names {
			ss = append(ss, noteSpace(t)+id.String()+noteSpace(t))
		}
		in = strings.Join(ss, ",")
		if got := testutil.MustParseIdentifiers(in); !slices.Equal(got, names) {
			t.Failf("MustParseIdentifiers(%q) is %v; expected %v", in, got, names)
		}
		if id, err := testutil.ParseIdentifier(strings.NewReader(in)); err != nil || id != names[0] {
			t.Failf("ParseIdentifier(%q) is %s, %v; expected %s", in, id, err, names[0])
		}
		bad := in + []string{",", " x", "+", ",,a", "\"", ", 'a'"}[t.IntN(6)]
		if got, err := testutil.ParseIdentifiers(strings.NewReader(bad)); err == nil || got != nil {
			t.Failf("ParseIdentifiers(%q) is %v, %v; expected an error", bad, got, err)
		}
		if Try(func() { testutil.MustParseIdentifiers(bad) }) == nil {
			t.Failf("MustParseIdentifiers(%q) does not panic", bad)
		}
		t.Count("names parsed", len(names))
	default:
		gn, gt, gk := testutil.MustParseColumns(in)
		if !slices.Equal(gn, names) || !slices.Equal(gt, cts) || !slices.Equal(gk, key) {
			t.Failf("columns of %q are %v %v %v; expected %v %v %v", in, gn, gt, gk, names, cts, key)
		}
		t.Count("columns parsed", len(names))
		t.Sample("%q", in)
	}
	t.Distinct(in)
}

func notationPanicked(t *Case) {
	want := []error{nil, io.EOF, errors.New("x")}[t.IntN(3)]
	if err, panicked := testutil.ErrorPanicked(func() error { return want }); err != want || panicked {
		t.Failf("a function returning %v: %v, panicked %t", want, err, panicked)
	}
	if _, panicked := testutil.ErrorPanicked(func() error { panic([]string{"text", "", "%s"}[t.IntN(3)]) }); !panicked {
		t.Failf("a panic is not noticed")
	}
	var m map[string]int
	if Try(func() { testutil.ErrorPanicked(func() error { m["x"] = 1; return nil }) }) == nil {
		t.Failf("a runtime error is taken for an expected panic")
	}
	t.Count("panics told apart", 2)
}
