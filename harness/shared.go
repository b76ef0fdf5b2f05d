package main

// Runs scenarios in which several goroutines use one connection: phases of calls made at the same time.

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/mindstand/go-bolt/connection"
)

type sharedCall struct {
	Op string `json:"op"`
	F  string `json:"f"`
	N  int    `json:"n"`
	H  int    `json:"h"`
}

type sharedScen struct {
	ID     int `json:"id"`
	V      int `json:"v"`
	N      int `json:"n"`
	Delay  int `json:"delay"` // upper bound for what the server waits before an answer, in microseconds
	Chunk  int `json:"chunk"`
	Phases []struct {
		Calls []sharedCall `json:"calls"`
	} `json:"phases"`
}

type sharedRun struct {
	sc    *sharedScen
	log   *Log
	phase int
	over  bool
	mu    sync.Mutex
}

func (r *sharedRun) fateOf(q int) (string, int) {
	q--
	p, g := q/r.sc.N, q%r.sc.N
	if q < 0 || p >= len(r.sc.Phases) || g >= len(r.sc.Phases[p].Calls) {
		return "ok", 0
	}
	c := r.sc.Phases[p].Calls[g]
	return c.F, c.N
}

func (r *sharedRun) controlFate(op string) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.phase < len(r.sc.Phases) {
		for _, c := range r.sc.Phases[r.phase].Calls {
			if c.Op == op {
				return c.F
			}
		}
	}
	return "ok"
}

func (r *sharedRun) serve(p *Peer) {
	rnd := rand.New(rand.NewSource(int64(r.sc.ID)))
	if _, err := p.Handshake(); err != nil {
		return
	}
	p.Raw([]byte{0, 0, 0, byte(r.sc.V)})
	if _, err := p.Read(); err != nil {
		return
	}
	p.Value(msg(sigSuccess, M{}))
	ans := func(m string, tag int, v interface{}) {
		r.log.Add(Ev{"e": "s2c", "m": m, "t": tag})
		if v != nil {
			p.Value(v)
		}
	}
	// requests are noted when they arrive, whatever is being answered meanwhile
	reqs := make(chan Ev, 10000)
	go func() {
		defer close(reqs)
		for {
			payload, err := p.Read()
			if err == errFrame || err == errPS {
				r.log.Add(Ev{"e": "c2s", "m": "BADFRAME", "q": 0, "ok": false})
				continue
			}
			if err != nil {
				r.mu.Lock()
				why := ""
				if r.over {
					why = "end"
				}
				r.mu.Unlock()
				r.log.Add(Ev{"e": "ceof", "why": why})
				return
			}
			d := describe(r.sc.V, payload, 0, look{})
			e := Ev{"e": "c2s", "m": d["m"], "q": d["q"], "ok": d["ok"]}
			r.log.Add(e)
			reqs <- e
		}
	}()
	failed, control, q := false, false, 0
	for e := range reqs {
		m := e["m"].(string)
		if m == "GOODBYE" {
			continue
		}
		if r.sc.Delay > 0 {
			time.Sleep(time.Duration(rnd.Intn(r.sc.Delay)) * time.Microsecond)
		}
		if failed && m != "RESET" {
			ans("IGNORED", 0, msg(sigIgnored))
			continue
		}
		fail := func(tag int) {
			failed = true
			ans("FAILURE", tag, msg(sigFailure, M{"code": fmt.Sprintf("%s%d", failCode, tag), "message": fmt.Sprintf("%s%d", failText, tag)}))
		}
		ok := func(tag int) {
			ans("SUCCESS", 10000+tag, msg(sigSuccess, M{"t": int64(10000 + tag), "type": "r"}))
		}
		switch {
		case m == "RESET":
			failed = false
			ok(0)
		case m == "RUN":
			control, q = false, e["q"].(int)
			ok(q)
		case m == "PULL" && control:
			ok(0)
		case m == "PULL":
			f, n := r.fateOf(q)
			for i := 1; i <= n; i++ {
				ans("RECORD", q*100+i, msg(sigRecord, rowVal(q*100+i)))
			}
			switch f {
			case "fail":
				fail(q + 1000)
			case "drop":
				ans("DROP", 0, nil)
				p.Shut()
			default:
				ok(q)
			}
		default:
			control = true
			op := strings.ToLower(strings.TrimPrefix(m, "RUN_"))
			if r.controlFate(op) == "fail" {
				fail(1000)
			} else {
				ok(0)
			}
		}
	}
}

func runShared(sc *sharedScen, seed int64) []Ev {
	r := &sharedRun{sc: sc, log: &Log{}}
	first := make(chan struct{}, 1)
	first <- struct{}{}
	srv := NewServer(nil, func(p *Peer) {
		select {
		case <-first:
			r.serve(p)
		default:
		}
	})
	defer srv.Close()
	r.log.Add(Ev{"e": "begin", "id": sc.ID, "v": sc.V, "n": sc.N})
	var conn connection.IConnection
	o, ok := guarded(hangLimit, func(o *outcome) {
		conn, o.err = connection.CreateBoltConn(fmt.Sprintf("bolt://u:p@127.0.0.1:%d?timeout=20", srv.Port))
	})
	if !ok || o.panicv != nil || o.err != nil {
		r.log.Add(Ev{"e": "broken", "why": "connect"})
		return r.log.Take()
	}
	if sc.Chunk > 0 {
		conn.SetChunkSize(uint16(sc.Chunk))
	}
	var handles []connection.ITransaction
	for pi, ph := range sc.Phases {
		r.mu.Lock()
		r.phase = pi
		r.mu.Unlock()
		txs := make([]connection.ITransaction, len(ph.Calls))
		start := make(chan struct{})
		var wg sync.WaitGroup
		bad := false
		for gi, c := range ph.Calls {
			if c.H > len(handles) {
				r.log.Add(Ev{"e": "broken", "why": "handle"})
				return r.log.Take()
			}
			wg.Add(1)
			go func(gi int, c sharedCall) {
				defer wg.Done()
				q := pi*sc.N + gi + 1
				text := fmt.Sprintf("Q%d", q)
				params := connection.QueryParams{"p": q}
				var tx connection.ITransaction
				if c.H > 0 {
					tx = handles[c.H-1]
				}
				eq := q
				if c.Op == "begin" || c.Op == "commit" || c.Op == "rollback" {
					eq = 0
				}
				<-start
				r.log.Add(Ev{"e": "call", "g": gi + 1, "op": c.Op, "q": eq, "h": c.H})
				o, ok := guarded(hangLimit, func(o *outcome) {
					var res connection.IResult
					switch c.Op {
					case "exec":
						res, o.err = conn.Exec(text, params)
					case "query":
						o.rows, res, o.err = conn.Query(text, params)
					case "txexec":
						res, o.err = tx.Exec(text, params)
					case "txquery":
						o.rows, res, o.err = tx.Query(text, params)
					case "begin":
						o.tx, o.err = conn.Begin()
					case "commit":
						o.err = tx.Commit()
					case "rollback":
						o.err = tx.Rollback()
					}
					if o.err == nil && res != nil {
						o.hasMd, o.md = true, res.Metadata()
					}
				})
				if !ok {
					r.log.Add(Ev{"e": "hang", "op": c.Op})
					bad = true
					return
				}
				if o.panicv != nil {
					r.log.Add(Ev{"e": "panic", "op": c.Op, "detail": firstLine(fmt.Sprint(o.panicv))})
					bad = true
					return
				}
				ret := Ev{"e": "ret", "g": gi + 1, "err": o.err != nil, "tag": failTag(o.err), "meta": 0, "rows": []int{}}
				if o.err == nil {
					rows := []int{}
					for _, row := range o.rows {
						rows = append(rows, rowTag(row))
					}
					ret["rows"] = rows
					if o.hasMd {
						ret["meta"] = metaTag(o.md)
					}
					txs[gi] = o.tx
				}
				r.log.Add(ret)
			}(gi, c)
		}
		close(start)
		wg.Wait()
		if bad {
			return r.log.Take()
		}
		r.log.Add(Ev{"e": "calm"})
		for _, t := range txs {
			if t != nil {
				handles = append(handles, t)
			}
		}
	}
	r.mu.Lock()
	r.over = true
	r.mu.Unlock()
	evs := append([]Ev(nil), r.log.Take()...)
	guarded(hangLimit, func(o *outcome) { o.err = conn.Close() })
	return append(evs, Ev{"e": "end"})
}
