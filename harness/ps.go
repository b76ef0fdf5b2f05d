package main

// An independent PackStream codec. It shares no code with the driver under test.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
)

// Struct is a PackStream structure.
type Struct struct {
	Sig    byte
	Fields []interface{}
}

type M = map[string]interface{}

func psSize(out []byte, n int, tiny int, b8, b16, b32 byte) []byte {
	switch {
	case tiny >= 0 && n < 16:
		return append(out, byte(tiny+n))
	case b8 != 0 && n < 256:
		return append(out, b8, byte(n))
	case n < 65536:
		return append(out, b16, byte(n>>8), byte(n))
	default:
		return append(out, b32, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
}

func psInt(out []byte, v int64) []byte {
	switch {
	case v >= -16 && v <= 127:
		return append(out, byte(v))
	case v >= math.MinInt8 && v <= math.MaxInt8:
		return append(out, 0xC8, byte(v))
	case v >= math.MinInt16 && v <= math.MaxInt16:
		return append(out, 0xC9, byte(v>>8), byte(v))
	case v >= math.MinInt32 && v <= math.MaxInt32:
		return append(out, 0xCA, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	default:
		out = append(out, 0xCB)
		return binary.BigEndian.AppendUint64(out, uint64(v))
	}
}

// psEnc encodes nil, bool, int, int64, float64, string, []interface{}, []string, M and *Struct.
func psEnc(out []byte, v interface{}) []byte {
	switch x := v.(type) {
	case nil:
		return append(out, 0xC0)
	case bool:
		if x {
			return append(out, 0xC3)
		}
		return append(out, 0xC2)
	case int:
		return psInt(out, int64(x))
	case int64:
		return psInt(out, x)
	case float64:
		return binary.BigEndian.AppendUint64(append(out, 0xC1), math.Float64bits(x))
	case string:
		return append(psSize(out, len(x), 0x80, 0xD0, 0xD1, 0xD2), x...)
	case []interface{}:
		out = psSize(out, len(x), 0x90, 0xD4, 0xD5, 0xD6)
		for _, e := range x {
			out = psEnc(out, e)
		}
		return out
	case []string:
		out = psSize(out, len(x), 0x90, 0xD4, 0xD5, 0xD6)
		for _, e := range x {
			out = psEnc(out, e)
		}
		return out
	case M:
		out = psSize(out, len(x), 0xA0, 0xD8, 0xD9, 0xDA)
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			out = psEnc(out, k)
			out = psEnc(out, x[k])
		}
		return out
	case *Struct:
		out = append(out, byte(0xB0+len(x.Fields)), x.Sig)
		for _, e := range x.Fields {
			out = psEnc(out, e)
		}
		return out
	}
	panic(fmt.Sprintf("psEnc: %T", v))
}

var errPS = errors.New("malformed packstream")

// psDec decodes one value and returns the rest.
func psDec(b []byte) (interface{}, []byte, error) {
	if len(b) == 0 {
		return nil, nil, io.ErrUnexpectedEOF
	}
	m := b[0]
	b = b[1:]
	num := func(n int) (uint64, bool) {
		if len(b) < n {
			return 0, false
		}
		var u uint64
		for i := 0; i < n; i++ {
			u = u<<8 | uint64(b[i])
		}
		b = b[n:]
		return u, true
	}
	str := func(n uint64) (interface{}, []byte, error) {
		if uint64(len(b)) < n {
			return nil, nil, io.ErrUnexpectedEOF
		}
		return string(b[:n]), b[n:], nil
	}
	list := func(n uint64) (interface{}, []byte, error) {
		if uint64(len(b)) < n {
			return nil, nil, io.ErrUnexpectedEOF
		}
		out := make([]interface{}, 0, n)
		for i := uint64(0); i < n; i++ {
			var v interface{}
			var err error
			v, b, err = psDec(b)
			if err != nil {
				return nil, nil, err
			}
			out = append(out, v)
		}
		return out, b, nil
	}
	mp := func(n uint64) (interface{}, []byte, error) {
		out := M{}
		for i := uint64(0); i < n; i++ {
			var k, v interface{}
			var err error
			k, b, err = psDec(b)
			if err != nil {
				return nil, nil, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, nil, errPS
			}
			v, b, err = psDec(b)
			if err != nil {
				return nil, nil, err
			}
			if _, dup := out[ks]; dup {
				return nil, nil, errPS
			}
			out[ks] = v
		}
		return out, b, nil
	}
	strct := func(n uint64) (interface{}, []byte, error) {
		if len(b) == 0 {
			return nil, nil, io.ErrUnexpectedEOF
		}
		sig := b[0]
		b = b[1:]
		l, rest, err := list(n)
		if err != nil {
			return nil, nil, err
		}
		return &Struct{sig, l.([]interface{})}, rest, nil
	}
	switch {
	case m < 0x80 || m >= 0xF0:
		return int64(int8(m)), b, nil
	case m < 0x90:
		return str(uint64(m & 15))
	case m < 0xA0:
		return list(uint64(m & 15))
	case m < 0xB0:
		return mp(uint64(m & 15))
	case m < 0xC0:
		return strct(uint64(m & 15))
	}
	w := 0
	switch m {
	case 0xC0:
		return nil, b, nil
	case 0xC2:
		return false, b, nil
	case 0xC3:
		return true, b, nil
	case 0xC1, 0xCB:
		w = 8
	case 0xC8, 0xD0, 0xD4, 0xD8, 0xDC:
		w = 1
	case 0xC9, 0xD1, 0xD5, 0xD9, 0xDD:
		w = 2
	case 0xCA, 0xD2, 0xD6, 0xDA:
		w = 4
	default:
		return nil, nil, errPS
	}
	u, ok := num(w)
	if !ok {
		return nil, nil, io.ErrUnexpectedEOF
	}
	switch m {
	case 0xC1:
		return math.Float64frombits(u), b, nil
	case 0xCB:
		return int64(u), b, nil
	case 0xC8:
		return int64(int8(u)), b, nil
	case 0xC9:
		return int64(int16(u)), b, nil
	case 0xCA:
		return int64(int32(u)), b, nil
	case 0xD0, 0xD1, 0xD2:
		return str(u)
	case 0xD4, 0xD5, 0xD6:
		return list(u)
	case 0xD8, 0xD9, 0xDA:
		return mp(u)
	default:
		return strct(u)
	}
}

// canon renders a decoded value so that equal values, and only those, render alike.
func canon(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return fmt.Sprintf("%t", x)
	case int:
		return fmt.Sprintf("i%d", x)
	case int64:
		return fmt.Sprintf("i%d", x)
	case float64:
		return fmt.Sprintf("f%016x", math.Float64bits(x))
	case string:
		return fmt.Sprintf("%q", x)
	case []interface{}:
		parts := make([]string, len(x))
		for i, e := range x {
			parts[i] = canon(e)
		}
		return "[" + strings.Join(parts, ",") + "]"
	case M:
		if x == nil {
			return "null"
		}
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		parts := make([]string, len(keys))
		for i, k := range keys {
			parts[i] = fmt.Sprintf("%q:%s", k, canon(x[k]))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case *Struct:
		return fmt.Sprintf("S%02x%s", x.Sig, canon(x.Fields))
	}
	return fmt.Sprintf("?%T(%v)", v, v)
}
