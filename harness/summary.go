package main

// Runs scenarios about summaries and failures: a server that gives them any shape, and what the results and errors say.

import (
	"fmt"
	"math"
	"math/rand"
	"net/url"
	"reflect"
	"strconv"
	"strings"

	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/structures/messages"
)

type sumItem struct {
	What  string   `json:"what"`
	Stats string   `json:"stats"`
	Kinds []string `json:"kinds"`
	Fl    struct {
		Code string `json:"code"`
		Msg  string `json:"msg"`
	} `json:"fl"`
	At string `json:"at"`
}

type sumScen struct {
	ID    int       `json:"id"`
	V     int       `json:"v"`
	Via   string    `json:"via"`
	Items []sumItem `json:"items"`
}

var counterKeys = []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"}

// shaped makes a value of a kind; num is what it is as a number, if it is one.
func shaped(kind string, rnd *rand.Rand) (v interface{}, num string) {
	n := int64(0)
	switch kind {
	case "zero":
	case "pos":
		n = []int64{1, 2, 15, 127, 128, 255, 256, 32767, 32768, 65536, 1 << 31, 1 << 40}[rnd.Intn(12)]
		n += int64(rnd.Intn(100))
	case "neg":
		n = -1 - rnd.Int63n(1<<uint(1+rnd.Intn(50)))
	case "max":
		n = math.MaxInt64
	case "min":
		n = math.MinInt64
	case "float":
		f := float64(rnd.Intn(1000))
		return f, strconv.FormatInt(int64(f), 10)
	case "str":
		return []string{"", "7", "many"}[rnd.Intn(3)], ""
	case "null":
		return nil, ""
	case "list":
		return []interface{}{int64(1)}, ""
	case "bool":
		return true, ""
	case "map":
		return M{"nodes-created": int64(1)}, ""
	default:
		fatal("unknown kind", kind)
	}
	return n, strconv.FormatInt(n, 10)
}

// summaryOf makes the metadata of an item.
func (it *sumItem) summaryOf(rnd *rand.Rand, n int) (md M, vals []string) {
	md = M{"t": int64(n)}
	vals = []string{"", "", "", ""}
	switch it.Stats {
	case "absent":
	case "null":
		md["stats"] = nil
	case "int":
		md["stats"] = int64(3)
	case "str":
		md["stats"] = "nodes-created"
	case "list":
		md["stats"] = []interface{}{M{"nodes-created": int64(1)}}
	case "empty":
		md["stats"] = M{}
	case "map":
		st := M{}
		for i, k := range it.Kinds {
			if k == "absent" {
				continue
			}
			st[counterKeys[i]], vals[i] = shaped(k, rnd)
		}
		if rnd.Intn(2) == 0 {
			st["properties-set"] = int64(rnd.Intn(1000))
			st["contains-updates"] = true
			st["nodes_created"] = int64(99)
		}
		md["stats"] = st
	}
	if rnd.Intn(2) == 0 {
		md["type"] = "rw"
		md["bookmark"] = "b:1"
		md["t_last"] = int64(rnd.Intn(100))
		md["nodes-created"] = int64(77)
	}
	if rnd.Intn(3) == 0 {
		md["notifications"] = []interface{}{M{"code": "x", "position": M{"line": int64(1)}}, nil, 1.5}
		md["plan"] = M{"args": M{}, "children": []interface{}{M{"operatorType": "Produce"}}}
		md[""] = false
	}
	return md, vals
}

// failureOf makes the metadata of a failure.
func (it *sumItem) failureOf(n int) M {
	md := M{}
	put := func(key, kind, text string) {
		switch kind {
		case "absent":
		case "text":
			md[key] = text
		case "empty":
			md[key] = ""
		case "int":
			md[key] = int64(42)
		case "null":
			md[key] = nil
		case "list":
			md[key] = []interface{}{text}
		}
	}
	put("code", it.Fl.Code, fmt.Sprintf("Neo.ClientError.Shape.C%d", n))
	put("message", it.Fl.Msg, fmt.Sprintf("the reason is %d!", n))
	return md
}

func runSummary(sc *sumScen, seed int64) []Ev {
	log := &Log{}
	rnd := rand.New(rand.NewSource(seed*31 + int64(sc.ID)))
	mds := make([]M, len(sc.Items))
	vals := make([][]string, len(sc.Items))
	for i := range sc.Items {
		it := &sc.Items[i]
		if it.What == "sum" {
			mds[i], vals[i] = it.summaryOf(rnd, i)
		} else {
			mds[i] = it.failureOf(i)
		}
	}
	srv := NewServer(nil, func(p *Peer) {
		if _, err := p.Handshake(); err != nil {
			return
		}
		p.Raw([]byte{0, 0, 0, byte(sc.V)})
		if _, err := p.Read(); err != nil {
			return
		}
		p.Value(msg(sigSuccess, M{}))
		failed, n := false, -1
		for {
			payload, err := p.Read()
			if err != nil {
				return
			}
			v, _, _ := psDec(payload)
			st, _ := v.(*Struct)
			if st == nil {
				return
			}
			if failed && st.Sig != sigReset {
				p.Value(msg(sigIgnored))
				continue
			}
			fail := func() {
				failed = true
				p.Value(msg(sigFailure, mds[n]))
			}
			switch st.Sig {
			case sigReset:
				failed = false
				p.Value(msg(sigSuccess, M{}))
			case sigGoodbye:
			case sigRun:
				text, _ := st.Fields[0].(string)
				n = -1
				if strings.HasPrefix(text, "Q") {
					n, _ = strconv.Atoi(text[1:])
				}
				if n >= 0 && sc.Items[n].What == "fail" && sc.Items[n].At == "run" {
					fail()
					continue
				}
				p.Value(msg(sigSuccess, M{"fields": []interface{}{"a"}, "t_first": int64(1), "stats": M{"nodes-created": int64(55)}}))
			case sigPull:
				if n >= 0 && sc.Items[n].What == "fail" {
					fail()
					continue
				}
				if n < 0 {
					p.Value(msg(sigSuccess, M{}))
					continue
				}
				if n%2 == 1 {
					p.Value(msg(sigRecord, []interface{}{M{"stats": M{"nodes-created": int64(44)}}}))
				}
				p.Value(msg(sigSuccess, mds[n]))
			default:
				p.Value(msg(sigSuccess, M{}))
			}
		}
	})
	defer srv.Close()
	log.Add(Ev{"e": "begin", "id": sc.ID})
	u := url.URL{Scheme: "bolt", Host: fmt.Sprintf("127.0.0.1:%d", srv.Port), User: url.UserPassword("u", "p"), RawQuery: "timeout=20"}
	conn, err := connection.CreateBoltConn(u.String())
	if err != nil {
		log.Add(Ev{"e": "broken", "why": "setup", "detail": firstLine(err.Error())})
		return log.Take()
	}
	defer conn.Close()
	var tx connection.ITransaction
	for i := range sc.Items {
		it := &sc.Items[i]
		q := fmt.Sprintf("Q%d", i)
		var res connection.IResult
		o, ok := guarded(hangLimit, func(o *outcome) {
			var on connection.IQuery = conn
			if strings.HasPrefix(sc.Via, "tx") {
				if tx == nil || tx.IsClosed() {
					if tx, o.err = conn.Begin(); o.err != nil {
						return
					}
				}
				on = tx
			}
			if strings.HasSuffix(sc.Via, "exec") {
				res, o.err = on.Exec(q, nil)
			} else {
				o.rows, res, o.err = on.Query(q, nil)
			}
		})
		if !ok {
			log.Add(Ev{"e": "hang"})
			return log.Take()
		}
		if it.What == "fail" {
			e := Ev{"e": "fail", "panic": o.panicv != nil, "err": o.err != nil, "code": it.Fl.Code, "msg": it.Fl.Msg, "hascode": false, "hasmsg": false}
			code, text := mds[i]["code"], mds[i]["message"]
			// the error can be looked at in all ways
			p, ok := guarded(hangLimit, func(g *outcome) {
				if o.err == nil {
					return
				}
				s := o.err.Error()
				chain(o.err, func(err error) {
					f, ok := err.(messages.FailureMessage)
					if !ok {
						return
					}
					s += " " + f.Error() + " " + f.GetCode() + " " + f.GetMessage() + fmt.Sprint(f.Metadata)
				})
				c, isText := code.(string)
				e["hascode"] = isText && strings.Contains(s, c)
				c, isText = text.(string)
				e["hasmsg"] = isText && strings.Contains(s, c)
			})
			if !ok || p.panicv != nil {
				e["panic"] = true
			}
			log.Add(e)
			tx = nil
			continue
		}
		if o.err != nil || res == nil || o.panicv != nil {
			detail := fmt.Sprint(o.err, o.panicv)
			log.Add(Ev{"e": "broken", "why": "unusable", "detail": firstLine(detail)})
			return log.Take()
		}
		e := Ev{"e": "sum", "stats": it.Stats, "kinds": it.Kinds, "vals": vals[i], "panic": false, "same": false, "gs": false, "gssame": true}
		got := make([]Ev, 4)
		for k := range got {
			got[k] = Ev{"ok": false, "v": ""}
		}
		p, ok := guarded(hangLimit, func(g *outcome) {
			e["same"] = reflect.DeepEqual(res.Metadata(), mds[i])
			stats, has := res.GetStats()
			e["gs"] = has
			if has {
				e["gssame"] = reflect.DeepEqual(interface{}(stats), mds[i]["stats"])
			}
			for k, f := range []func() (int64, bool){res.GetNodesCreated, res.GetRelationshipsCreated, res.GetNodesDeleted, res.GetRelationshipsDeleted} {
				n, ok := f()
				got[k] = Ev{"ok": ok, "v": strconv.FormatInt(n, 10)}
			}
			// and they do not change it
			if !reflect.DeepEqual(res.Metadata(), mds[i]) {
				e["same"] = false
			}
		})
		e["got"] = got
		if !ok || p.panicv != nil {
			e["panic"] = true
		}
		log.Add(e)
	}
	log.Add(Ev{"e": "end"})
	return log.Take()
}
