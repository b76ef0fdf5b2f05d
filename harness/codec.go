package main

// The codecs on their own: values encoded by the driver's encoders, and bytes decoded by its decoders.
// Everything runs in child processes with limited memory, one scenario after the other, so that a crash,
// a hang or a huge allocation is an event like any other.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"time"

	"github.com/mindstand/go-bolt/encoding"
	"github.com/mindstand/go-bolt/encoding/encoding_v1"
	"github.com/mindstand/go-bolt/encoding/encoding_v2"
	"github.com/mindstand/go-bolt/structures/graph"
	"github.com/mindstand/go-bolt/structures/messages"
	"github.com/mindstand/go-bolt/structures/types"
	"github.com/mindstand/gotime"
)

// Val is a value as PackStreamCore has it.
type Val struct {
	K string `json:"k"`
	B []int  `json:"b"`
	E []Val  `json:"e"`
	N []int  `json:"n"`
}

func val(k string) Val { return Val{K: k, B: []int{}, E: []Val{}, N: []int{}} }

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func bytesOf(x []int) []byte {
	out := make([]byte, len(x))
	for i, v := range x {
		out[i] = byte(v)
	}
	return out
}

func u64(b []int) uint64 { return binary.BigEndian.Uint64(bytesOf(b)) }

func num(k string, u uint64) Val {
	v := val(k)
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], u)
	v.B = ints(b[:])
	return v
}

func descStr(s string) Val {
	v := val("str")
	v.B = ints([]byte(s))
	return v
}

func descStruct(sig int, fields ...interface{}) Val {
	v := val("struct")
	v.B = []int{sig}
	for _, f := range fields {
		v.E = append(v.E, desc(f))
	}
	return v
}

func descMap(m map[string]interface{}) Val {
	v := val("map")
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v.E = append(v.E, descStr(k), desc(m[k]))
	}
	return v
}

// civil describes the date and time of day t shows.
func civil(t time.Time) []int {
	y, m, d := t.Date()
	h, mi, s := t.Clock()
	return []int{y, int(m), d, h*3600 + mi*60 + s, t.Nanosecond()}
}

// desc describes a Go value; how it looks is what its type and public methods say.
func desc(x interface{}) (v Val) {
	defer func() {
		for _, n := range v.N {
			if n > 1<<30 || n < -(1<<30) {
				v = val("other")
				return
			}
		}
	}()
	switch t := x.(type) {
	case nil:
		return val("null")
	case bool:
		v = val("bool")
		v.B = []int{0}
		if t {
			v.B = []int{1}
		}
		return v
	case int64:
		return num("int", uint64(t))
	case float64:
		return num("float", math.Float64bits(t))
	case string:
		return descStr(t)
	case []interface{}:
		v = val("list")
		for _, e := range t {
			v.E = append(v.E, desc(e))
		}
		return v
	case map[string]interface{}:
		return descMap(t)
	case graph.Node:
		labels := []interface{}{}
		for _, l := range t.Labels {
			labels = append(labels, l)
		}
		return descStruct(78, t.NodeIdentity, labels, t.Properties)
	case graph.Relationship:
		return descStruct(82, t.RelIdentity, t.StartNodeIdentity, t.EndNodeIdentity, t.Type, t.Properties)
	case graph.UnboundRelationship:
		return descStruct(114, t.RelIdentity, t.Type, t.Properties)
	case graph.Path:
		n, r, s := []interface{}{}, []interface{}{}, []interface{}{}
		for _, e := range t.Nodes {
			n = append(n, e)
		}
		for _, e := range t.Relationships {
			r = append(r, e)
		}
		for _, e := range t.Sequence {
			s = append(s, int64(e))
		}
		return descStruct(80, n, r, s)
	case types.Point2D:
		return descStruct(88, int64(t.SRID), t.X, t.Y)
	case types.Point3D:
		return descStruct(89, int64(t.SRID), t.X, t.Y, t.Z)
	case messages.RecordMessage:
		return descStruct(113, t.AllFields()...)
	case messages.SuccessMessage:
		return descStruct(112, t.AllFields()...)
	case messages.FailureMessage:
		return descStruct(127, t.AllFields()...)
	case messages.IgnoredMessage:
		return descStruct(126)
	case messages.DiscardAllMessage:
		return descStruct(47)
	case messages.PullAllMessage:
		return descStruct(63)
	case messages.ResetMessage:
		return descStruct(15)
	case gotime.Date:
		v = val("date")
		v.N = civil(t.GetTime())[:3]
		return v
	case gotime.Clock:
		v = val("clock")
		_, off := t.GetTime().Zone()
		v.N = append(civil(t.GetTime())[3:], off)
		return v
	case gotime.LocalClock:
		v = val("lclock")
		v.N = civil(t.GetTime())[3:]
		return v
	case gotime.LocalTime:
		v = val("ltime")
		v.N = civil(t.GetTime())
		return v
	case time.Time:
		v = val("time")
		_, off := t.Zone()
		v.N = append(civil(t), off)
		v.B = ints([]byte(t.Location().String()))
		return v
	case time.Duration:
		return num("duration", uint64(t))
	}
	return val("other")
}

// descGiven describes what a user passes, which may be of more types than what a decoder returns.
func descGiven(x interface{}) Val {
	switch t := x.(type) {
	case nil, time.Duration, gotime.Date, gotime.Clock, gotime.LocalClock, gotime.LocalTime, time.Time,
		graph.Path, types.Point2D, types.Point3D,
		messages.RecordMessage, messages.SuccessMessage, messages.FailureMessage, messages.IgnoredMessage:
		return desc(x)
	case map[string]interface{}:
		v := val("map")
		for k, e := range t {
			v.E = append(v.E, descStr(k), descGiven(e))
		}
		return v
	case graph.Node, graph.Relationship, graph.UnboundRelationship:
		return desc(x)
	}
	r := reflect.ValueOf(x)
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return num("int", uint64(r.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if r.Uint() > math.MaxInt64 {
			return num("toobig", r.Uint())
		}
		return num("int", r.Uint())
	case reflect.Float32, reflect.Float64:
		return num("float", math.Float64bits(r.Float()))
	case reflect.Slice:
		v := val("list")
		for i := 0; i < r.Len(); i++ {
			v.E = append(v.E, descGiven(r.Index(i).Interface()))
		}
		return v
	case reflect.Ptr:
		if r.IsNil() {
			return val("other")
		}
		return descGiven(r.Elem().Interface())
	}
	return desc(x)
}

// seconds returns the civil fields of n as Go would be given them.
func civilTime(n []int, loc *time.Location) time.Time {
	return time.Date(n[0], time.Month(n[1]), n[2], n[3]/3600, n[3]/60%60, n[3]%60, n[4], loc)
}

// give makes the Go value for v. as names a type for what is not made of interfaces.
func give(v Val, as string) interface{} {
	sub := func(i int) interface{} { return give(v.E[i], "") }
	switch v.K {
	case "null":
		return nil
	case "bool":
		return v.B[0] == 1
	case "int", "toobig":
		u := u64(v.B)
		i := int64(u)
		switch as {
		case "int":
			return int(i)
		case "int8":
			return int8(i)
		case "int16":
			return int16(i)
		case "int32":
			return int32(i)
		case "uint":
			return uint(u)
		case "uint8":
			return uint8(u)
		case "uint16":
			return uint16(u)
		case "uint32":
			return uint32(u)
		case "uint64":
			return u
		}
		return i
	case "float":
		f := math.Float64frombits(u64(v.B))
		if as == "float32" {
			return float32(f)
		}
		return f
	case "str":
		return string(bytesOf(v.B))
	case "list":
		switch as {
		case "strings", "bools", "int64s", "ints", "floats", "maps", "nodes", "lists", "uint8s", "durations", "times", "int16s":
			var out reflect.Value
			proto := map[string]interface{}{"strings": []string{}, "bools": []bool{}, "int64s": []int64{}, "ints": []int{}, "floats": []float64{},
				"maps": []map[string]interface{}{}, "nodes": []graph.Node{}, "lists": [][]interface{}{}, "uint8s": []uint8{},
				"durations": []time.Duration{}, "times": []time.Time{}, "int16s": []int16{}}[as]
			out = reflect.MakeSlice(reflect.TypeOf(proto), 0, 0)
			for i := range v.E {
				out = reflect.Append(out, reflect.ValueOf(give(v.E[i], "")).Convert(out.Type().Elem()))
			}
			return out.Interface()
		}
		out := []interface{}{}
		for i := range v.E {
			out = append(out, sub(i))
		}
		return out
	case "map":
		out := map[string]interface{}{}
		for i := 0; i+1 < len(v.E); i += 2 {
			out[string(bytesOf(v.E[i].B))] = sub(i + 1)
		}
		return out
	case "struct":
		m := func(i int) map[string]interface{} { return sub(i).(map[string]interface{}) }
		n := func(i int) int64 { return sub(i).(int64) }
		ptr := as == "ptr"
		switch v.B[0] {
		case 78:
			x := graph.Node{NodeIdentity: n(0), Properties: m(2)}
			for _, l := range sub(1).([]interface{}) {
				x.Labels = append(x.Labels, l.(string))
			}
			if ptr {
				return &x
			}
			return x
		case 82:
			x := graph.Relationship{RelIdentity: n(0), StartNodeIdentity: n(1), EndNodeIdentity: n(2), Type: sub(3).(string), Properties: m(4)}
			if ptr {
				return &x
			}
			return x
		case 114:
			return graph.UnboundRelationship{RelIdentity: n(0), Type: sub(1).(string), Properties: m(2)}
		case 80:
			x := graph.Path{}
			for _, e := range sub(0).([]interface{}) {
				x.Nodes = append(x.Nodes, e.(graph.Node))
			}
			for _, e := range sub(1).([]interface{}) {
				x.Relationships = append(x.Relationships, e.(graph.UnboundRelationship))
			}
			for _, e := range sub(2).([]interface{}) {
				x.Sequence = append(x.Sequence, int(e.(int64)))
			}
			return x
		case 113:
			return messages.NewRecordMessage(sub(0).([]interface{}))
		case 112:
			return messages.NewSuccessMessage(m(0))
		case 127:
			return messages.NewFailureMessage(m(0))
		case 126:
			return messages.NewIgnoredMessage()
		case 88:
			return types.Point2D{SRID: int(n(0)), X: sub(1).(float64), Y: sub(2).(float64)}
		case 89:
			return types.Point3D{SRID: int(n(0)), X: sub(1).(float64), Y: sub(2).(float64), Z: sub(3).(float64)}
		}
	case "date":
		return gotime.NewDate(v.N[0], time.Month(v.N[1]), v.N[2])
	case "clock":
		return gotime.NewClock(v.N[0]/3600, v.N[0]/60%60, v.N[0]%60, v.N[1], time.FixedZone("", v.N[2]))
	case "lclock":
		return gotime.NewLocalClock(v.N[0]/3600, v.N[0]/60%60, v.N[0]%60, v.N[1])
	case "ltime":
		return gotime.NewLocalTimeFromTime(civilTime(v.N, time.Local))
	case "time":
		if as == "utc" {
			return civilTime(v.N, time.UTC)
		}
		if as == "local" {
			return civilTime(v.N, time.Local)
		}
		return civilTime(v.N, time.FixedZone("", v.N[5]))
	case "ztime":
		loc, err := time.LoadLocation(string(bytesOf(v.B)))
		if err != nil {
			fatal(err)
		}
		return civilTime(v.N, loc)
	case "duration":
		return time.Duration(u64(v.B))
	case "unfit": // what has no encoding
		switch as {
		case "chan":
			return make(chan int)
		case "intmap":
			return map[int]interface{}{1: 2}
		case "nilptr":
			return (*graph.Node)(nil)
		case "func":
			return func() {}
		}
		return struct{ A int }{1}
	}
	fatal("cannot make", v.K, v.B)
	return nil
}

type codecVal struct {
	V    Val    `json:"v"`
	As   string `json:"as"`
	Must string `json:"must"` // "ok", "no" or "any"
}

type codecScen struct {
	ID    int        `json:"id"`
	Kind  string     `json:"kind"`
	Gen   int        `json:"gen"`
	Topic string     `json:"topic"`
	TZ    string     `json:"tz"`
	In    []int      `json:"in"`
	Chunk int        `json:"chunk"`
	Frag  int        `json:"frag"`
	Cut   int        `json:"cut"`
	Vals  []codecVal `json:"vals"`
	Type  string     `json:"type"`
	N     int        `json:"n"`
	Form  int        `json:"form"`
	Known string     `json:"known"`
}

func newEnc(gen int, w io.Writer, chunk int) encoding.IEncoder {
	if gen == 1 {
		return encoding_v1.NewEncoder(w, uint16(chunk))
	}
	return encoding_v2.NewEncoder(w, uint16(chunk))
}

func newDec(gen int, r io.Reader) encoding.IDecoder {
	if gen == 1 {
		return encoding_v1.NewDecoder(r)
	}
	return encoding_v2.NewDecoder(r)
}

// fragReader delivers a few bytes at a time; with both it says that the data ends along with the last of it.
type fragReader struct {
	b    []byte
	n    int
	both bool
}

func (f *fragReader) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, io.EOF
	}
	n := len(f.b)
	if f.n > 0 && n > f.n {
		n = f.n
	}
	n = copy(p, f.b[:n])
	f.b = f.b[n:]
	if f.both && len(f.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// panics runs f; how says whether it panicked.
func panics(f func()) (how string) {
	defer func() {
		if r := recover(); r != nil {
			how = "panic"
		}
	}()
	f()
	return ""
}

// spent tells whether the memory allocated since before is out of proportion to n bytes.
func spent(before *runtime.MemStats, n int) bool {
	var after runtime.MemStats
	runtime.ReadMemStats(&after)
	return after.TotalAlloc-before.TotalAlloc > 8<<20+uint64(n)*4000
}

// walk looks at the zones named by a well-formed message.
func zones(x interface{}, f func(secs, nanos int64, zone string, local bool)) {
	switch t := x.(type) {
	case []interface{}:
		for _, e := range t {
			zones(e, f)
		}
	case M:
		for _, e := range t {
			zones(e, f)
		}
	case *Struct:
		for _, e := range t.Fields {
			zones(e, f)
		}
		if len(t.Fields) >= 2 {
			s, ok1 := t.Fields[0].(int64)
			n, ok2 := t.Fields[1].(int64)
			if t.Sig == 'd' && ok1 && ok2 {
				f(s, n, "", true)
			}
			if t.Sig == 'f' && len(t.Fields) == 3 && ok1 && ok2 {
				if z, ok := t.Fields[2].(string); ok {
					f(s, n, z, false)
				}
			}
		}
	}
}

// facts are what the environment says about a message: does every zone exist, does one skip the time given.
func facts(msg []byte) (known, skip bool) {
	known = true
	x, _, err := psDec(msg)
	if err != nil {
		return
	}
	zones(x, func(s, n int64, zone string, local bool) {
		loc := time.Local
		if !local {
			l, err := time.LoadLocation(zone)
			if err != nil || zone == "" || zone == "Local" {
				known = false
				return
			}
			loc = l
		}
		u := time.Unix(s, 0).UTC()
		w := civilTime(append(civil(u)[:4], 0), loc)
		a, b := civil(u), civil(w)
		for i := 0; i < 4; i++ {
			if a[i] != b[i] {
				skip = true
			}
		}
	})
	return
}

func runCodec(s *codecScen) Ev {
	switch s.Kind {
	case "dec":
		return codecDec(s)
	case "enc":
		return codecEnc(s)
	case "bigenc", "bigdec":
		return codecBig(s)
	case "deep":
		return codecDeep(s)
	}
	fatal("unknown kind", s.Kind)
	return nil
}

func codecDec(s *codecScen) Ev {
	msg := bytesOf(s.In)
	stream := chunked(msg, s.Chunk)
	whole := true
	if s.Cut >= 0 && s.Cut < len(stream) {
		stream, whole = stream[:s.Cut], false
	}
	next := chunked([]byte{42}, 0)
	data := append([]byte(nil), stream...)
	if whole {
		data = append(data, next...)
	}
	known, skip := facts(msg)
	var before runtime.MemStats
	runtime.ReadMemStats(&before)
	var got, after interface{}
	var err, err2 error
	r := &fragReader{b: data, n: s.Frag, both: s.Frag < 0}
	if s.Frag < 0 {
		r.n = 0
	}
	bad := panics(func() {
		got, err = newDec(s.Gen, r).Decode()
	})
	if bad == "" && spent(&before, len(data)) {
		bad = "memory"
	}
	follows := true
	if whole && bad == "" {
		bad = panics(func() { after, err2 = newDec(s.Gen, r).Decode() })
		follows = err2 == nil && after == interface{}(int64(42))
	}
	v := val("null")
	if err == nil && bad == "" {
		v = desc(got)
	}
	return Ev{"e": "dec", "gen": s.Gen, "topic": s.Topic, "in": s.In, "whole": whole, "err": err != nil, "v": v, "bad": bad,
		"skip": skip, "zone": known, "follows": follows}
}

func codecEnc(s *codecScen) Ev {
	out := &bytes.Buffer{}
	vals, errs := []Ev{}, []bool{}
	bad := panics(func() {
		enc := newEnc(s.Gen, out, s.Chunk)
		for _, v := range s.Vals {
			x := give(v.V, v.As)
			d := val("other")
			if v.V.K != "unfit" {
				d = descGiven(x)
			}
			vals = append(vals, Ev{"v": d, "must": v.Must})
			n := out.Len()
			err := enc.Encode(x)
			errs = append(errs, err != nil)
			if err != nil && out.Len() != n {
				bad2 := "partial"
				panic(bad2)
			}
		}
	})
	return Ev{"e": "enc", "gen": s.Gen, "topic": s.Topic, "chunk": s.Chunk, "vals": vals, "errs": errs, "raw": ints(out.Bytes()), "bad": bad}
}

// large makes a large value, the bytes after its header in some order, and a check of what was decoded.
func large(kind string, n int) (x interface{}, parts [][]byte, same func(interface{}) (int, bool)) {
	switch kind {
	case "str":
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		return string(b), [][]byte{b}, func(y interface{}) (int, bool) { t, ok := y.(string); return len(t), ok && t == string(b) }
	case "utf8": // fewer characters than bytes
		b := []byte{}
		for i := 0; len(b) < n; i++ {
			c := []byte(string(rune([]int{0xE9, 'x', 0x20AC, 0x1F600}[i%4])))
			if len(b)+len(c) > n {
				c = []byte{'.'}
			}
			b = append(b, c...)
		}
		return string(b), [][]byte{b}, func(y interface{}) (int, bool) { t, ok := y.(string); return len(t), ok && t == string(b) }
	case "list":
		l := make([]interface{}, n)
		for i := range l {
			l[i] = int64(i % 100)
			parts = append(parts, []byte{byte(i % 100)})
		}
		return l, parts, func(y interface{}) (int, bool) {
			t, ok := y.([]interface{})
			return len(t), ok && reflect.DeepEqual(t, l)
		}
	case "strings":
		l := make([]string, n)
		want := make([]interface{}, n)
		for i := range l {
			l[i] = strconv.Itoa(i)
			want[i] = l[i]
			parts = append(parts, psEnc(nil, l[i]))
		}
		return l, parts, func(y interface{}) (int, bool) {
			t, ok := y.([]interface{})
			return len(t), ok && reflect.DeepEqual(t, want)
		}
	default:
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[fmt.Sprintf("%06d", i)] = int64(i % 100)
		}
		for i := 0; i < n; i++ {
			parts = append(parts, append(psEnc(nil, fmt.Sprintf("%06d", i)), byte(i%100)))
		}
		return m, parts, func(y interface{}) (int, bool) {
			t, ok := y.(map[string]interface{})
			return len(t), ok && reflect.DeepEqual(t, m)
		}
	}
}

func join(parts [][]byte) []byte { return bytes.Join(parts, nil) }

// sameParts tells whether body is the parts, for a map in any order.
func sameParts(kind string, body []byte, parts [][]byte) bool {
	if kind != "map" {
		return bytes.Equal(body, join(parts))
	}
	left := map[string]bool{}
	for _, p := range parts {
		left[string(p)] = true
	}
	for len(body) > 0 {
		if len(body) < 8 || !left[string(body[:8])] {
			return false
		}
		delete(left, string(body[:8]))
		body = body[8:]
	}
	return len(left) == 0
}

var bigHeads = map[string][]byte{"str": {0x80, 0xD0}, "utf8": {0x80, 0xD0}, "list": {0x90, 0xD4}, "strings": {0x90, 0xD4}, "map": {0xA0, 0xD8}}

func codecBig(s *codecScen) Ev {
	x, parts, same := large(s.Type, s.N)
	kind := s.Type
	if kind == "strings" {
		kind = "list"
	}
	if kind == "utf8" {
		kind = "str"
	}
	ev := Ev{"e": s.Kind, "gen": s.Gen, "topic": s.Topic, "chunk": s.Chunk, "type": kind, "n": s.N}
	if s.Kind == "bigdec" {
		h := bigHeads[s.Type]
		form := s.Form
		for s.N >= 1<<(8*form) && form < 4 || s.N < 16 && form == 0 && false {
			form *= 2
		}
		var head []byte
		switch form {
		case 1:
			head = []byte{h[1], byte(s.N)}
		case 2:
			head = []byte{h[1] + 1, byte(s.N >> 8), byte(s.N)}
		default:
			head = []byte{h[1] + 2, byte(s.N >> 24), byte(s.N >> 16), byte(s.N >> 8), byte(s.N)}
		}
		msg := append(head, join(parts)...)
		stream := chunked(msg, s.Chunk)
		whole := true
		if s.Cut > 0 { // leave out that many bytes of the message
			stream, whole = chunked(msg[:len(msg)-s.Cut], s.Chunk), false
		}
		var before runtime.MemStats
		runtime.ReadMemStats(&before)
		var got interface{}
		var err error
		bad := panics(func() { got, err = newDec(s.Gen, &fragReader{b: stream, n: s.Frag}).Decode() })
		if bad == "" && spent(&before, len(stream)) {
			bad = "memory"
		}
		n, ok := same(got)
		ev["whole"], ev["err"], ev["bad"], ev["got"], ev["same"] = whole, err != nil, bad, n, ok
		return ev
	}
	out := &bytes.Buffer{}
	var err error
	bad := panics(func() { err = newEnc(s.Gen, out, s.Chunk).Encode(x) })
	raw := out.Bytes()
	// the chunks, as runs of equal sizes
	runs := [][]int{}
	var msg []byte
	ended := false
	for len(raw) >= 2 {
		n := int(raw[0])<<8 | int(raw[1])
		raw = raw[2:]
		if n == 0 {
			ended = true
			break
		}
		if n > len(raw) {
			break
		}
		if k := len(runs); k > 0 && runs[k-1][0] == n {
			runs[k-1][1]++
		} else {
			runs = append(runs, []int{n, 1})
		}
		msg = append(msg, raw[:n]...)
		raw = raw[n:]
	}
	head := msg
	if len(head) > 5 {
		head = head[:5]
	}
	rest := make([]bool, 6) // is what follows the first i bytes what it has to be?
	for i := 0; i <= 5; i++ {
		rest[i] = i <= len(msg) && sameParts(s.Type, msg[i:], parts)
	}
	ev["err"], ev["bad"], ev["runs"], ev["ended"], ev["left"], ev["head"], ev["rest"], ev["total"] =
		err != nil, bad, runs, ended, len(raw), ints(head), rest, len(msg)
	return ev
}

// codecDeep nests s.N containers.
func codecDeep(s *codecScen) Ev {
	ev := Ev{"e": "deep", "gen": s.Gen, "topic": s.Topic, "type": s.Type, "n": s.N, "dir": s.Form}
	var err error
	var got interface{}
	ok, bad := false, ""
	if s.Form == 0 { // decode
		var msg []byte
		for i := 0; i < s.N; i++ {
			switch s.Type {
			case "map":
				msg = append(msg, 0xA1, 0x81, 'a')
			case "record":
				msg = append(msg, 0xB1, 0x71, 0x91)
			case "key":
				msg = append(msg, 0xA1)
			default:
				msg = append(msg, 0x91)
			}
		}
		msg = append(msg, 7)
		bad = panics(func() { got, err = newDec(s.Gen, bytes.NewReader(chunked(msg, 0))).Decode() })
		if err == nil && bad == "" {
			ok = true
			for i := 0; i < s.N && ok; i++ {
				switch t := got.(type) {
				case []interface{}:
					ok = len(t) == 1 && s.Type == "list"
					if ok {
						got = t[0]
					}
				case map[string]interface{}:
					ok = len(t) == 1 && s.Type == "map"
					got = t["a"]
				case messages.RecordMessage:
					f, is := t.AllFields()[0].([]interface{})
					ok = is && len(f) == 1 && s.Type == "record"
					if ok {
						got = f[0]
					}
				default:
					ok = false
				}
			}
			ok = ok && got == interface{}(int64(7))
		}
	} else {
		var x interface{} = int64(7)
		var want []byte
		for i := 0; i < s.N; i++ {
			if s.Type == "map" {
				x = map[string]interface{}{"a": x}
				want = append(want, 0xA1, 0x81, 'a')
			} else {
				x = []interface{}{x}
				want = append(want, 0x91)
			}
		}
		want = append(want, 7)
		out := &bytes.Buffer{}
		bad = panics(func() { err = newEnc(s.Gen, out, 65535).Encode(x) })
		ok = bytes.Equal(out.Bytes(), chunked(want, 0))
	}
	ev["err"], ev["same"], ev["bad"] = err != nil, ok, bad
	return ev
}

// codecChild runs scenarios from stdin.
func codecChild() {
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	runtime.GOMAXPROCS(2)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(out)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		sc := &codecScen{}
		decodeScen(line, sc)
		if err := enc.Encode(runCodec(sc)); err != nil {
			fatal(err)
		}
		out.Flush()
	}
}

// runCodecs runs all scenarios in children, one for each time zone and worker.
func runCodecs(raws [][]byte, workers int) []Ev {
	groups := map[string][]int{}
	var zones []string
	head := make([]codecScen, len(raws))
	for i, r := range raws {
		decodeScen(r, &head[i])
		z := head[i].TZ
		if groups[z] == nil {
			zones = append(zones, z)
		}
		groups[z] = append(groups[z], i)
	}
	type shard struct {
		tz string
		is []int
	}
	var shards []shard
	for _, z := range zones {
		g := groups[z]
		n := (len(g) + 1999) / 2000
		for k := 0; k < n; k++ {
			s := shard{tz: z}
			for j := k; j < len(g); j += n {
				s.is = append(s.is, g[j])
			}
			shards = append(shards, s)
		}
	}
	if workers > runtime.NumCPU() {
		workers = runtime.NumCPU()
	}
	out := make([]Ev, len(raws))
	var wg sync.WaitGroup
	ch := make(chan shard)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range ch {
				runShard(s.tz, s.is, raws, head, out)
			}
		}()
	}
	for _, s := range shards {
		ch <- s
	}
	close(ch)
	wg.Wait()
	var all []Ev
	for i, e := range out {
		if e != nil {
			all = append(all, Ev{"e": "begin", "id": head[i].ID}, e)
		}
	}
	return all
}

func runShard(tz string, is []int, raws [][]byte, head []codecScen, out []Ev) {
	died := 0
	for len(is) > 0 && died < 5 {
		cmd := exec.Command(os.Args[0], "-out", "-", "codec-child")
		cmd.Stderr = os.Stderr
		cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
		if tz != "" {
			cmd.Env = append(cmd.Env, "TZ="+tz)
		}
		w, err := cmd.StdinPipe()
		if err != nil {
			fatal(err)
		}
		r, err := cmd.StdoutPipe()
		if err != nil {
			fatal(err)
		}
		if err := cmd.Start(); err != nil {
			fatal(err)
		}
		lines := make(chan []byte)
		go func() {
			br := bufio.NewReaderSize(r, 1<<20)
			for {
				l, err := br.ReadBytes('\n')
				if err != nil {
					close(lines)
					return
				}
				lines <- l
			}
		}()
		alive := true
		for alive && len(is) > 0 {
			i := is[0]
			is = is[1:]
			how := ""
			if _, err := w.Write(append(append([]byte(nil), raws[i]...), '\n')); err != nil {
				how = "died"
			}
			select {
			case l, ok := <-lines:
				if !ok {
					how = "died"
				} else if err := json.Unmarshal(l, &out[i]); err != nil {
					fatal(err)
				}
			case <-time.After(30 * time.Second):
				how = "hang"
			}
			if how != "" {
				alive = false
				died++
				s := head[i]
				out[i] = Ev{"e": "lost", "gen": s.Gen, "topic": s.Topic, "kind": s.Kind, "dir": s.Form, "bad": how}
			}
		}
		w.Close()
		if !alive {
			_ = cmd.Process.Kill()
		}
		for range lines {
		}
		if err := cmd.Wait(); err != nil && cmd.ProcessState.ExitCode() == 3 {
			fatal("child")
		}
	}
}
