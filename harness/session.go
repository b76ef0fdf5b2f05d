package main

// Runs session scenarios: sequences of calls on one connection against a server that answers as scripted,
// and records what is called, returned, sent and received.

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"net/url"
	"reflect"
	"strings"
	"sync/atomic"
	"time"

	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/structures/graph"
	"github.com/mindstand/go-bolt/structures/types"
)

type fate struct {
	T string `json:"t"`
	N int    `json:"n"`
}

type sessOp struct {
	Op  string `json:"op"`
	H   int    `json:"h"`
	Db  int    `json:"db"`
	Bad int    `json:"bad"`
	F   []fate `json:"f"`
	RF  string `json:"rf"`
	Big bool   `json:"big"` // with more parameters than the network takes
	X   string `json:"x"`   // expected fate of the connection, for pacing only
}

type sessScen struct {
	ID  int      `json:"id"`
	V   int      `json:"v"`
	Ops []sessOp `json:"ops"`
	// how to run it
	Chunk int    `json:"chunk"` // chunk size of the client
	Pad   int    `json:"pad"`   // bytes of padding in the parameters
	SrvCh int    `json:"srvch"` // chunk size of the server
	Seg   int    `json:"seg"`
	Pause bool   `json:"pause"`
	Probe bool   `json:"probe"` // ask ValidateOpen after every error
	Tmo   int    `json:"tmo"`   // timeout in ms for calls the server will not answer
	Via   string `json:"via"`   // how the connection is made
	Look  int    `json:"look"`  // what statements, parameters and names of databases look like, 0 for plain
	Mult  int    `json:"mult"`  // records for each one of the scenario, 0 for one
}

// look is what a statement and everything that belongs to it look like.
type look struct{ text, par, db int }

func lookOf(n int) look {
	if n == 0 {
		return look{}
	}
	rnd := rand.New(rand.NewSource(int64(n)))
	l := look{rnd.Intn(len(texts)), rnd.Intn(5), rnd.Intn(len(dbSets))}
	if logged && l.text == len(texts)-1 {
		l.text = 0 // the driver takes seconds to log a long message byte by byte
	}
	return l
}

var texts = []func(q int) string{
	func(q int) string { return fmt.Sprintf("Q%d", q) },
	func(q int) string { return fmt.Sprintf(" \n\tQ%d \n\t ", q) },
	func(q int) string { return fmt.Sprintf("Q%d;", q) },
	func(q int) string {
		return fmt.Sprintf("// %%d %%s\r\nQ%d {ünï ☃ \x00 𝕏} $p `a``b` 'c\\'' \"d\"", q)
	},
	func(q int) string { return fmt.Sprintf("Q%d ", q) + strings.Repeat("match (n) ", 30*q) },
	func(q int) string { return fmt.Sprintf("BEGIN Q%d", q) },
	func(q int) string { return fmt.Sprintf("commit Q%d", q) },
	func(q int) string { return fmt.Sprintf("%d", q) },
	func(q int) string { return strings.Repeat("x", 65530+q) },
}

var dbSets = [][]string{
	{"", "alpha", "beta"}, {"", "system", "neo4j"}, {"", "Alpha", "alpha"}, {"", " a ", "a"}, {"", "ünï.☃-1", "ünï.☃-2"},
	{"", "w", "db"}, {"", "a,b", "a b"}, {"", "Neo4j", "SYSTEM"}, {"", "x", strings.Repeat("x", 300)},
}

// params are the parameters of a statement, as given by the user and as the server has to see them.
func (l look) params(q int) (map[string]interface{}, M) {
	switch l.par {
	case 1:
		return nil, M{}
	case 2:
		return map[string]interface{}{}, M{}
	case 3:
		return map[string]interface{}{"p": q, "": nil, "ключ": []interface{}{1, "x", map[string]interface{}{"a": []interface{}{}}, -129},
				"f": 1.5, "b": true, "m": map[string]interface{}{}, "db": "x", "mode": "r", "long": strings.Repeat("é", 200)},
			M{"p": int64(q), "": nil, "ключ": []interface{}{int64(1), "x", M{"a": []interface{}{}}, int64(-129)},
				"f": 1.5, "b": true, "m": M{}, "db": "x", "mode": "r", "long": strings.Repeat("é", 200)}
	case 4:
		given, seen := map[string]interface{}{}, M{}
		for i := 0; i < 15+q; i++ {
			given[fmt.Sprint("k", i)], seen[fmt.Sprint("k", i)] = i*1000, int64(i*1000)
		}
		return given, seen
	}
	return map[string]interface{}{"p": q}, M{"p": int64(q)}
}

func dbNum(l look, s interface{}) int {
	for i, n := range dbSets[l.db] {
		if s == n {
			return i
		}
	}
	return 99
}

const hangLimit = 9 * time.Second

// badValues can not be sent by the protocol.
func badValue(n int) interface{} {
	deep := interface{}(1)
	bads := []func() interface{}{
		func() interface{} { return make(chan int) },
		func() interface{} { return func() {} },
		func() interface{} { return struct{ A int }{1} },
		func() interface{} { return uint64(math.MaxUint64) },
		func() interface{} { return complex(1, 2) },
		func() interface{} { return []interface{}{1, "x", make(chan int)} },
		func() interface{} { return map[string]interface{}{"a": map[string]interface{}{"b": struct{}{}}} },
		func() interface{} { return map[int]string{1: "x"} },
		func() interface{} { return (*types.Point2D)(nil) },
		func() interface{} {
			return graph.Node{NodeIdentity: 1, Properties: map[string]interface{}{"x": make(chan int)}}
		},
		func() interface{} { return (*graph.Node)(nil) },
		func() interface{} { return [2]int{1, 2} },
		func() interface{} { return []interface{}{uint64(1) << 63} },
		func() interface{} {
			l := make([]interface{}, 70000)
			l[69999] = make(chan int)
			return l
		},
	}
	_ = deep
	return bads[n%len(bads)]()
}

var garbage = [][]byte{
	{0xC7},
	{0xB1, 0x70, 0xC7},
	{0xB1, 0x70},
	{0xB1, 0x70, 0x81},
	{0xB1, 0x71, 0x93, 0x01},
	{0xB1, 0x70, 0xD2, 0x7F, 0xFF, 0xFF, 0xFF},
	{0xB1, 0x70, 0xA1, 0x01, 0x02},
	{0xB0, 0x55},
	{0xB1, 0x70, 0x01},
	{0xB1, 0x7F, 0x91, 0x01},
	{0xB1, 0x71, 0x01},
	{0xB1, 0x71, 0xD6, 0x7F, 0xFF, 0xFF, 0xFF},
	{0xB1},
	{0xB2, 0x70, 0xA0, 0xA0},
	{0xB0, 0x71},
	{0xB3, 0x4E, 0x01, 0x90},
	{0xB1, 0x70, 0xA1, 0x81, 0x61},
	{0xD0, 0x05, 0x61},
	{0xDF},
	{0xC1, 0x00},
	{0xB1, 0x71, 0x91, 0xB3, 0x4E, 0x81, 0x61, 0x90, 0xA0},
	{0xB1, 0x71, 0x91, 0xB3, 0x50, 0x90, 0x90, 0x91, 0x81, 0x61},
	{0xB1, 0x71, 0x91, 0xB3, 0x4E, 0x01, 0x91, 0x01, 0xA0},
}

type sessRun struct {
	sc   *sessScen
	log  *Log
	rnd  *rand.Rand
	op   int // index of the operation that is running
	used int // fates used by it
	eofc chan struct{}
	peer *Peer
	gate *gate
}

func rowVal(tag int) []interface{} { return []interface{}{int64(tag), fmt.Sprintf("s%d", tag)} }

func rowTag(row []interface{}) int {
	if len(row) != 2 {
		return -1
	}
	t, ok := row[0].(int64)
	if !ok || row[1] != fmt.Sprintf("s%d", t) {
		return -1
	}
	return int(t)
}

func metaTag(md map[string]interface{}) int {
	t, ok := md["t"].(int64)
	if !ok || len(md) != 2 || md["type"] != "r" {
		return -1
	}
	return int(t)
}

func pad(n int) string { return strings.Repeat("p", n) }

// describe turns a request into a trace event.
func describe(v int, payload []byte, padding int, l look) Ev {
	e := Ev{"e": "c2s", "m": "BAD", "q": 0, "db": 0, "mode": "", "xk": 0, "nf": 0, "ok": false, "n": 0}
	val, rest, err := psDec(payload)
	st, isStruct := val.(*Struct)
	if err != nil || len(rest) != 0 || !isStruct {
		return e
	}
	e["nf"] = len(st.Fields)
	e["ok"] = true
	extra := func(i int) {
		if len(st.Fields) <= i {
			return
		}
		m, ok := st.Fields[i].(M)
		if !ok {
			e["ok"] = false
			return
		}
		xk := 0
		for k, val := range m {
			switch k {
			case "db":
				e["db"] = dbNum(l, val)
			case "mode":
				if s, ok := val.(string); ok {
					e["mode"] = s
				} else {
					e["mode"] = "?"
				}
			default:
				xk++
			}
		}
		e["xk"] = xk
	}
	switch st.Sig {
	case sigInit:
		e["m"] = "INIT"
	case sigGoodbye:
		e["m"] = "GOODBYE"
	case sigReset:
		e["m"] = "RESET"
	case sigRun:
		e["m"] = "RUN"
		if len(st.Fields) < 2 {
			e["ok"] = false
			break
		}
		text, _ := st.Fields[0].(string)
		params, isMap := st.Fields[1].(M)
		noParams := st.Fields[1] == nil || (isMap && len(params) == 0)
		switch text {
		case "BEGIN", "COMMIT", "ROLLBACK":
			e["m"] = "RUN_" + text
			e["ok"] = noParams
		default:
			q := -1
			for i := 0; i < 64; i++ {
				if text == texts[l.text](i) {
					q = i
				}
			}
			e["q"] = q
			_, want := l.params(q)
			if padding > 0 {
				want["pad"] = pad(padding)
			}
			if big, has := params["big"].(string); has && len(big) == 20<<20 {
				want["big"] = big
			}
			if len(want) == 0 {
				e["ok"] = noParams
			} else {
				e["ok"] = isMap && reflect.DeepEqual(params, want)
			}
		}
		extra(2)
	case sigBegin:
		e["m"] = "BEGIN"
		extra(0)
	case sigCommit:
		e["m"] = "COMMIT"
	case sigRollback:
		e["m"] = "ROLLBACK"
	case sigPull, sigDiscard:
		e["m"] = "PULL"
		if st.Sig == sigDiscard {
			e["m"] = "DISCARD"
		}
		if len(st.Fields) == 1 {
			m, ok := st.Fields[0].(M)
			n, okn := m["n"].(int64)
			qid, hasQid := m["qid"]
			e["ok"] = ok && okn && (!hasQid || qid == int64(-1))
			e["n"] = n
			for k := range m {
				if k != "n" && k != "qid" {
					e["ok"] = false
				}
			}
		}
	}
	return e
}

// serve is the server side of one scenario.
func (r *sessRun) serve(p *Peer) {
	r.peer = p
	r.gate = &gate{Conn: p.Conn}
	p.Conn = r.gate
	p.Split = Split{Chunk: r.sc.SrvCh, Seg: r.sc.Seg, Pause: r.sc.Pause}
	p.Rnd = rand.New(rand.NewSource(int64(r.sc.ID)))
	defer close(r.eofc)
	if _, err := p.Handshake(); err != nil {
		return
	}
	p.Raw([]byte{0, 0, 0, byte(r.sc.V)})
	if _, err := p.Read(); err != nil {
		return
	}
	p.Value(msg(sigSuccess, M{"server": "verif"}))

	reqs := make(chan string, 1000)
	gone := make(chan struct{})
	go func() {
		defer close(gone)
		for {
			payload, err := p.Read()
			if err == errFrame || err == errPS {
				r.log.Add(Ev{"e": "c2s", "m": "BADFRAME", "q": 0, "db": 0, "mode": "", "xk": 0, "nf": 0, "ok": false, "n": 0})
				continue
			}
			if err != nil {
				part := 0
				if err.Error() == "unexpected EOF" {
					part = 1
				}
				if r.sc.Via == "tls" {
					// the end of what is encrypted is not the end of the connection
					for buf := make([]byte, 512); ; {
						if _, err := p.TCP.Read(buf); err != nil {
							break
						}
					}
				}
				r.log.Add(Ev{"e": "ceof", "part": part})
				return
			}
			e := describe(r.sc.V, payload, r.sc.Pad, lookOf(r.sc.Look))
			for _, n := range p.Lens {
				if r.sc.Chunk > 0 && n > r.sc.Chunk {
					e["m"] = "BADFRAME"
				}
			}
			r.log.Add(e)
			reqs <- e["m"].(string)
		}
	}()

	failed := false
	for {
		var m string
		select {
		case m = <-reqs:
		case <-gone:
			return
		}
		if m == "GOODBYE" {
			continue
		}
		if failed && m != "RESET" {
			r.reply("IGNORED", 0)
			p.Value(msg(sigIgnored))
			continue
		}
		var f fate
		op := r.op
		if m == "RESET" {
			f = fate{T: "ok"}
			if op < len(r.sc.Ops) && r.sc.Ops[op].RF != "" {
				f.T = r.sc.Ops[op].RF
			}
			failed = false
		} else {
			f = fate{T: "ok"}
			if op < len(r.sc.Ops) && r.used < len(r.sc.Ops[op].F) {
				f = r.sc.Ops[op].F[r.used]
			}
			r.used++
		}
		if m == "PULL" {
			n := f.N
			if r.sc.Mult > 0 {
				n *= r.sc.Mult
			}
			for i := 0; i < n; i++ {
				tag := op*10000 + i + 1
				r.reply("RECORD", tag)
				p.Value(msg(sigRecord, rowVal(tag)))
			}
		}
		tag := 10000 + op*10 + r.used
		switch f.T {
		case "ok":
			r.reply("SUCCESS", tag)
			md := M{"t": int64(tag), "type": "r"}
			p.Value(msg(sigSuccess, md))
		case "fail":
			failed = true
			r.reply("FAILURE", tag)
			p.Value(msg(sigFailure, M{"code": fmt.Sprintf("%s%d", failCode, tag), "message": fmt.Sprintf("%s%d", failText, tag)}))
		case "oddrec":
			r.reply("RECORD", 9)
			p.Value(msg(sigRecord, rowVal(9)))
		case "oddign":
			r.reply("IGNORED", 0)
			p.Value(msg(sigIgnored))
		case "oddval":
			r.reply("VALUE", 0)
			p.Value(int64(7))
		case "garb":
			r.reply("GARB", 0)
			p.Send(garbage[r.rnd.Intn(len(garbage))])
		case "part":
			r.reply("PART", 0)
			full := chunked(psEnc(nil, msg(sigSuccess, M{"t": int64(tag), "type": "r"})), r.sc.SrvCh)
			p.Raw(full[:1+r.rnd.Intn(len(full)-1)])
			p.Shut()
			<-gone
			return
		case "drop":
			r.reply("DROP", 0)
			p.Shut()
			<-gone
			return
		case "rst":
			r.reply("RST", 0)
			p.Abort()
			<-gone
			return
		case "stall":
			r.reply("STALL", 0)
			select {
			case <-gone:
				return
			case <-time.After(time.Duration(r.sc.Tmo)*time.Millisecond*3 + 300*time.Millisecond):
			}
			r.reply("LATE", tag)
			p.Value(msg(sigSuccess, M{"t": int64(tag), "type": "r"}))
		case "noread":
			<-gone
			return
		default:
			fatal("unknown fate", f.T)
		}
	}
}

func (r *sessRun) reply(m string, tag int) { r.log.Add(Ev{"e": "s2c", "m": m, "t": tag}) }

func (r *sessRun) waitEOF(d time.Duration) bool {
	select {
	case <-r.eofc:
		return true
	case <-time.After(d):
		return false
	}
}

type outcome struct {
	err    error
	rows   [][]interface{}
	md     map[string]interface{}
	hasMd  bool
	tx     connection.ITransaction
	val    string
	panicv interface{}
}

// guarded runs a call so that it can neither crash nor block the driver.
func guarded(limit time.Duration, f func(o *outcome)) (*outcome, bool) {
	ch := make(chan *outcome, 1)
	go func() {
		o := &outcome{}
		defer func() {
			if p := recover(); p != nil {
				o.panicv = p
			}
			ch <- o
		}()
		f(o)
	}()
	select {
	case o := <-ch:
		return o, true
	case <-time.After(limit):
		hangs.Add(1)
		return nil, false
	}
}

// hangs counts the calls that did not come back. After enough of them the rest of the scenarios is left out: the
// verdict is known by then, and more of them would take too long.
var hangs atomic.Int64

const enoughHangs = 24

// slow counts the waits for the pools to come to rest which ran out.
var slow atomic.Int64

const enoughSlow = 160

func runSession(sc *sessScen, seed int64) []Ev {
	r := &sessRun{sc: sc, log: &Log{}, rnd: rand.New(rand.NewSource(seed + int64(sc.ID))), eofc: make(chan struct{})}
	if sc.Tmo == 0 {
		sc.Tmo = 200
	}
	first := make(chan struct{}, 1)
	first <- struct{}{}
	var conf *tls.Config
	extra := ""
	if sc.Via == "tls" {
		conf = &tls.Config{Certificates: []tls.Certificate{certs().server.cert}}
		extra = "&tls=true&tls_ca_cert_file=" + url.QueryEscape(certs().ca.file)
	}
	srv := NewServer(conf, func(p *Peer) {
		select {
		case <-first:
			r.serve(p)
		default:
		}
	})
	defer srv.Close()

	r.log.Add(Ev{"e": "begin", "id": sc.ID, "v": sc.V})
	r.op = -1
	var conn connection.IConnection
	o, ok := guarded(hangLimit, func(o *outcome) {
		conn, o.err = connection.CreateBoltConn(fmt.Sprintf("bolt://u:p@127.0.0.1:%d?timeout=20%s", srv.Port, extra))
	})
	if !ok || o.panicv != nil || o.err != nil || conn == nil {
		why := "connect"
		if ok && o.panicv != nil {
			why = "panic"
		}
		detail := ""
		if ok {
			detail = fmt.Sprint(o.err, o.panicv)
		}
		r.log.Add(Ev{"e": "broken", "why": why, "detail": firstLine(detail)})
		return r.log.Take()
	}
	if sc.Chunk > 0 {
		conn.SetChunkSize(uint16(sc.Chunk))
	}

	var handles []connection.ITransaction
	// what has been returned stays what it was, whatever happens later
	var kept []func() bool
	for i, op := range sc.Ops {
		op := op
		r.op = i
		r.used = 0
		q := i + 1
		if op.Op == "sdrop" {
			r.log.Add(Ev{"e": "s2c", "m": "DROP", "t": 0})
			r.peer.Shut()
			time.Sleep(5 * time.Millisecond)
			continue
		}
		if op.Op == "stray" {
			r.log.Add(Ev{"e": "s2c", "m": "STRAY", "t": 0})
			r.peer.Value(msg(sigSuccess, M{"t": int64(7), "type": "r"}))
			time.Sleep(5 * time.Millisecond)
			continue
		}
		stalls := op.RF == "stall"
		for _, f := range op.F {
			stalls = stalls || f.T == "stall"
		}
		tmo := 20000
		if stalls {
			tmo = sc.Tmo
			conn.SetTimeout(time.Duration(sc.Tmo) * time.Millisecond)
		}
		l := lookOf(sc.Look)
		params, _ := l.params(q)
		if params == nil && (op.Big || op.Bad > 0 || sc.Pad > 0) {
			params = map[string]interface{}{}
		}
		if op.Big {
			params["big"] = strings.Repeat("x", 20<<20)
		}
		if sc.Pad > 0 {
			params["pad"] = pad(sc.Pad)
		}
		if op.Bad > 0 {
			params["bad"] = badValue(r.rnd.Intn(1000))
		}
		var tx connection.ITransaction
		if op.H > 0 {
			if op.H > len(handles) {
				r.log.Add(Ev{"e": "broken", "why": "handle", "detail": ""})
				return r.log.Take()
			}
			tx = handles[op.H-1]
		}
		text := texts[l.text](q)
		db := dbSets[l.db][op.Db]
		given := ""
		if op.Bad == 0 && !op.Big {
			given = fmt.Sprint(params)
			kept = append(kept, func() bool { return fmt.Sprint(params) == given })
		}
		isErrOp := true
		r.log.Add(Ev{"e": "call", "op": op.Op, "h": op.H, "db": op.Db, "q": q, "bad": op.Bad})
		if len(op.F) > 0 && op.F[0].T == "noread" {
			r.gate.held.Store(true)
			r.log.Add(Ev{"e": "s2c", "m": "STALL", "t": 0})
			stalls = true
			tmo = sc.Tmo
			conn.SetTimeout(time.Duration(sc.Tmo) * time.Millisecond)
			time.AfterFunc(time.Duration(sc.Tmo*4+2300)*time.Millisecond, func() { r.gate.held.Store(false) })
		}
		start := time.Now()
		o, ok := guarded(hangLimit, func(o *outcome) {
			var res connection.IResult
			switch op.Op {
			case "exec":
				if op.Db == 0 && r.rnd.Intn(2) == 0 {
					res, o.err = conn.Exec(text, params)
				} else {
					res, o.err = conn.ExecWithDb(text, params, db)
				}
			case "query":
				if op.Db == 0 && r.rnd.Intn(2) == 0 {
					o.rows, res, o.err = conn.Query(text, params)
				} else {
					o.rows, res, o.err = conn.QueryWithDb(text, params, db)
				}
			case "txexec":
				if op.Db == 0 && r.rnd.Intn(2) == 0 {
					res, o.err = tx.Exec(text, params)
				} else {
					res, o.err = tx.ExecWithDb(text, params, db)
				}
			case "txquery":
				if op.Db == 0 && r.rnd.Intn(2) == 0 {
					o.rows, res, o.err = tx.Query(text, params)
				} else {
					o.rows, res, o.err = tx.QueryWithDb(text, params, db)
				}
			case "begin":
				if op.Db == 0 && r.rnd.Intn(2) == 0 {
					o.tx, o.err = conn.Begin()
				} else {
					o.tx, o.err = conn.BeginWithDatabase(db)
				}
			case "commit":
				o.err = tx.Commit()
			case "rollback":
				o.err = tx.Rollback()
			case "idle":
				o.err = conn.MakeIdle()
			case "validate":
				isErrOp = false
				o.val = "n"
				if conn.ValidateOpen() {
					o.val = "y"
				}
			case "close":
				o.err = conn.Close()
			default:
				fatal("unknown op", op.Op)
			}
			if o.err == nil && res != nil {
				o.hasMd = true
				o.md = res.Metadata()
			}
		})
		ms := int(time.Since(start) / time.Millisecond)
		if !ok {
			r.log.Add(Ev{"e": "hang", "op": op.Op})
			return r.log.Take()
		}
		if o.panicv != nil {
			r.log.Add(Ev{"e": "panic", "op": op.Op, "detail": firstLine(fmt.Sprint(o.panicv))})
			return r.log.Take()
		}
		if op.Op == "close" || op.X == "dead" {
			if !r.waitEOF(3 * time.Second) {
				r.log.Add(Ev{"e": "noceof"})
			}
		} else if op.X == "ref" {
			time.Sleep(time.Millisecond)
		}
		ret := Ev{"e": "ret", "op": op.Op, "err": o.err != nil, "bad": isBadConn(o.err), "tag": failTag(o.err),
			"rows": []int{}, "meta": 0, "val": o.val, "ms": ms, "tmo": tmo, "probe": "-", "hc": []bool{}, "txnil": o.tx == nil}
		if o.err == nil {
			rows := []int{}
			for _, row := range o.rows {
				rows = append(rows, rowTag(row))
			}
			ret["rows"] = rows
			if o.hasMd {
				ret["meta"] = metaTag(o.md)
			}
			was, now := canonAny(o.rows)+canonAny(o.md), o
			kept = append(kept, func() bool { return canonAny(now.rows)+canonAny(now.md) == was })
		} else if o.rows != nil {
			ret["rows"] = []int{-2}
		}
		if o.err != nil && isErrOp && sc.Probe && op.Op != "close" {
			po, ok := guarded(hangLimit, func(o *outcome) {
				o.val = "n"
				if conn.ValidateOpen() {
					o.val = "y"
				}
			})
			if ok && po.panicv == nil {
				ret["probe"] = po.val
			}
		}
		if op.Op == "begin" && o.err == nil && o.tx != nil {
			handles = append(handles, o.tx)
		}
		hc := []bool{}
		for _, h := range handles {
			hc = append(hc, h.IsClosed())
		}
		ret["hc"] = hc
		r.log.Add(ret)
	}
	// all scenarios end with a close or a dead connection, so the server must have seen the end
	if !r.waitEOF(3 * time.Second) {
		r.log.Add(Ev{"e": "noceof"})
	}
	same := true
	for _, k := range kept {
		same = same && k()
	}
	r.log.Add(Ev{"e": "kept", "ok": same})
	r.log.Add(Ev{"e": "end"})
	return r.log.Take()
}

func canonAny(v interface{}) string { return fmt.Sprintf("%#v", v) }

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func decodeScen(raw []byte, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		fatal("scenario:", err, string(raw[:min(len(raw), 300)]))
	}
}
