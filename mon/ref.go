package main

// Reference semantics of values, written from the documentation of the types and independent of
// the code under test: comparison, key order, casts and column conversion.

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/leftmike/maho/types"
)

func rank(v types.Value) int {
	switch v.(type) {
	case nil:
		return 0
	case types.BoolValue:
		return 1
	case types.Int64Value, types.Float64Value:
		return 2
	case types.StringValue:
		return 3
	case types.BytesValue:
		return 4
	}
	panic(fmt.Sprintf("harness: unexpected value %T", v))
}

func isNaN(v types.Value) bool {
	f, ok := v.(types.Float64Value)
	return ok && math.IsNaN(float64(f))
}

// numCmp compares two numbers by exact value; NaN is below all others and equal to itself.
func numCmp(a, b types.Value) int {
	na, nb := isNaN(a), isNaN(b)
	switch {
	case na && nb:
		return 0
	case na:
		return -1
	case nb:
		return 1
	}
	inf := func(v types.Value) int {
		if f, ok := v.(types.Float64Value); ok {
			if math.IsInf(float64(f), 1) {
				return 1
			} else if math.IsInf(float64(f), -1) {
				return -1
			}
		}
		return 0
	}
	ia, ib := inf(a), inf(b)
	if ia != 0 || ib != 0 {
		switch {
		case ia < ib:
			return -1
		case ia > ib:
			return 1
		}
		return 0
	}
	if x, ok := a.(types.Int64Value); ok {
		if y, ok := b.(types.Int64Value); ok {
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
	}
	rat := func(v types.Value) *big.Rat {
		switch v := v.(type) {
		case types.Int64Value:
			return new(big.Rat).SetInt64(int64(v))
		case types.Float64Value:
			return new(big.Rat).SetFloat64(float64(v))
		}
		panic("harness")
	}
	return rat(a).Cmp(rat(b))
}

func refCmp(a, b types.Value) int {
	ra, rb := rank(a), rank(b)
	if ra != rb {
		if ra < rb {
			return -1
		}
		return 1
	}
	switch ra {
	case 0:
		return 0
	case 1:
		x, y := a.(types.BoolValue), b.(types.BoolValue)
		if x == y {
			return 0
		} else if !bool(x) {
			return -1
		}
		return 1
	case 2:
		return numCmp(a, b)
	case 3:
		return strCmp(string(a.(types.StringValue)), string(b.(types.StringValue)))
	default:
		return strCmp(string(a.(types.BytesValue)), string(b.(types.BytesValue)))
	}
}

func strCmp(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

func sign(i int) int {
	if i < 0 {
		return -1
	} else if i > 0 {
		return 1
	}
	return 0
}

// refKeyCmp orders two rows by a key; NULL is first in both directions.
func refKeyCmp(key []types.ColumnKey, a, b types.Row) int {
	for _, ck := range key {
		desc := ck < 0
		n := int(ck)
		if desc {
			n = -n
		}
		n -= 1
		va, vb := a[n], b[n]
		if va == nil || vb == nil {
			if va == nil && vb == nil {
				continue
			} else if va == nil {
				return -1
			}
			return 1
		}
		c := sign(refCmp(va, vb))
		if desc {
			c = -c
		}
		if c != 0 {
			return c
		}
	}
	return 0
}

// identical tells whether two values are the very same (signed zeros differ, NaNs do not).
func identical(a, b types.Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case types.BoolValue:
		y, ok := b.(types.BoolValue)
		return ok && x == y
	case types.Int64Value:
		y, ok := b.(types.Int64Value)
		return ok && x == y
	case types.Float64Value:
		y, ok := b.(types.Float64Value)
		if !ok {
			return false
		}
		if math.IsNaN(float64(x)) {
			return math.IsNaN(float64(y))
		}
		return math.Float64bits(float64(x)) == math.Float64bits(float64(y))
	case types.StringValue:
		y, ok := b.(types.StringValue)
		return ok && x == y
	case types.BytesValue:
		y, ok := b.(types.BytesValue)
		return ok && string(x) == string(y)
	}
	return false
}

func identicalRows(a, b types.Row) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !identical(a[i], b[i]) {
			return false
		}
	}
	return true
}

func copyValue(v types.Value) types.Value {
	if b, ok := v.(types.BytesValue); ok {
		return types.BytesValue(append(make([]byte, 0, len(b)), b...))
	}
	return v
}

func copyRow(r types.Row) types.Row {
	nr := make(types.Row, len(r))
	for i, v := range r {
		nr[i] = copyValue(v)
	}
	return nr
}

// show prints a value with its type, for messages.
func show(v types.Value) string {
	switch v := v.(type) {
	case nil:
		return "NULL"
	case types.BoolValue:
		return fmt.Sprintf("%v", bool(v))
	case types.Int64Value:
		return fmt.Sprintf("%d", int64(v))
	case types.Float64Value:
		return fmt.Sprintf("%gf", float64(v))
	case types.StringValue:
		return strconv.Quote(string(v))
	case types.BytesValue:
		return fmt.Sprintf("x%x", []byte(v))
	}
	return fmt.Sprintf("?%T", v)
}

func showRow(r types.Row) string {
	s := make([]string, len(r))
	for i, v := range r {
		s[i] = show(v)
	}
	return "(" + strings.Join(s, ", ") + ")"
}

func showRows(rs []types.Row) string {
	s := make([]string, len(rs))
	for i, r := range rs {
		s[i] = showRow(r)
	}
	return "[" + strings.Join(s, " ") + "]"
}

// refCast is the reference cast; ok is false when the value has no such reading.
func refCast(vt types.ValueType, val types.Value) (types.Value, bool) {
	if val == nil {
		return nil, true
	}
	trim := func(s types.StringValue) string { return strings.Trim(string(s), " \t\n") }
	switch vt {
	case types.BoolType:
		switch v := val.(type) {
		case types.BoolValue:
			return v, true
		case types.StringValue:
			switch trim(v) {
			case "t", "true", "y", "yes", "on", "1":
				return types.BoolValue(true), true
			case "f", "false", "n", "no", "off", "0":
				return types.BoolValue(false), true
			}
		}
	case types.StringType:
		switch v := val.(type) {
		case types.StringValue:
			return v, true
		case types.Int64Value:
			return types.StringValue(fmt.Sprintf("%d", int64(v))), true
		case types.Float64Value:
			return types.StringValue(strconv.FormatFloat(float64(v), 'g', -1, 64)), true
		case types.BytesValue:
			if utf8.Valid(v) {
				return types.StringValue(v), true
			}
		}
	case types.BytesType:
		switch v := val.(type) {
		case types.BytesValue:
			return v, true
		case types.StringValue:
			return types.BytesValue(v), true
		}
	case types.Float64Type:
		switch v := val.(type) {
		case types.Float64Value:
			return v, true
		case types.Int64Value:
			f, _ := new(big.Float).SetInt64(int64(v)).Float64()
			return types.Float64Value(f), true
		case types.StringValue:
			f, err := strconv.ParseFloat(trim(v), 64)
			return types.Float64Value(f), err == nil
		}
	case types.Int64Type:
		switch v := val.(type) {
		case types.Int64Value:
			return v, true
		case types.Float64Value:
			f := float64(v)
			if math.IsNaN(f) || math.IsInf(f, 0) {
				return nil, false
			}
			i, _ := new(big.Float).SetFloat64(math.Trunc(f)).Int(nil)
			if !i.IsInt64() {
				return nil, false
			}
			return types.Int64Value(i.Int64()), true
		case types.StringValue:
			s := trim(v)
			d := strings.TrimPrefix(strings.TrimPrefix(s, "-"), "+")
			if d == "" || len(s)-len(d) > 1 || strings.Trim(d, "0123456789") != "" {
				return nil, false
			}
			i, ok := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
			if !ok || !i.IsInt64() {
				return nil, false
			}
			return types.Int64Value(i.Int64()), true
		}
	}
	return nil, false
}

// refConvert is the reference conversion of a value to a column.
func refConvert(ct types.ColumnType, val types.Value) (types.Value, bool) {
	if val == nil {
		return nil, !ct.NotNull
	}
	v, ok := refCast(ct.Type, val)
	if !ok {
		return nil, false
	}
	return v, fits(ct, v)
}

// fits tells whether a value of the column's type fits the column.
func fits(ct types.ColumnType, val types.Value) bool {
	switch v := val.(type) {
	case nil:
		return !ct.NotNull
	case types.BoolValue:
		return ct.Type == types.BoolType
	case types.StringValue:
		return ct.Type == types.StringType && uint64(len(v)) <= uint64(ct.Size)
	case types.BytesValue:
		return ct.Type == types.BytesType && uint64(len(v)) <= uint64(ct.Size)
	case types.Float64Value:
		return ct.Type == types.Float64Type
	case types.Int64Value:
		if ct.Type != types.Int64Type {
			return false
		}
		switch ct.Size {
		case 2:
			return int64(v) == int64(int16(v))
		case 4:
			return int64(v) == int64(int32(v))
		}
		return true
	}
	return false
}

func refConvertRow(cts []types.ColumnType, row types.Row) (types.Row, bool) {
	if len(row) > len(cts) {
		return nil, false
	}
	nr := make(types.Row, len(cts))
	for i := range row {
		v, ok := refConvert(cts[i], row[i])
		if !ok {
			return nil, false
		}
		nr[i] = v
	}
	return nr, true
}
