package main

// Runs scenarios of opening a connection: one attempt against a server that behaves as scripted at every step.

import (
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
)

type initScen struct {
	ID   int    `json:"id"`
	Via  string `json:"via"`  // conn, driver, pool
	TLS  bool   `json:"tls"`  // encrypted
	Dial string `json:"dial"` // ok, refuse, drop, mute, garb
	HS   string `json:"hs"`   // how the handshake is answered
	V    int    `json:"v"`    // with which version
	Ans  string `json:"ans"`  // how the initialisation is answered
	RF   string `json:"rf"`   // how a reset is answered
	Seg  int    `json:"seg"`
	Ch   int    `json:"ch"`
	Cred int    `json:"cred"`
}

var credSet = [][2]string{
	{"neo4j", "password"},
	{"U", "Pp"},
	{"user name", "p@ss:w/o?r#d&=%+ 100%"},
	{"müller", "пароль\u0000\x7f"},
	{"a:b@c/d", ""},
	{"x%41", "%zz"},
}

func checkInit(v int, payload []byte, user, pass string) (string, bool) {
	val, rest, err := psDec(payload)
	st, ok := val.(*Struct)
	if err != nil || len(rest) != 0 || !ok {
		return "BAD", false
	}
	name := map[byte]string{sigInit: "INIT", sigGoodbye: "GOODBYE", sigReset: "RESET", sigRun: "RUN", sigPull: "PULL"}[st.Sig]
	if name == "" {
		name = fmt.Sprintf("S%02x", st.Sig)
	}
	if st.Sig != sigInit {
		return name, false
	}
	var auth M
	var agent interface{}
	if v <= 2 {
		if len(st.Fields) != 2 {
			return name, false
		}
		agent = st.Fields[0]
		auth, _ = st.Fields[1].(M)
		if len(auth) != 3 {
			return name, false
		}
	} else {
		if len(st.Fields) != 1 {
			return name, false
		}
		auth, _ = st.Fields[0].(M)
		agent = auth["user_agent"]
		if len(auth) != 4 {
			return name, false
		}
	}
	a, ok := agent.(string)
	return name, ok && a != "" && auth["scheme"] == "basic" && auth["principal"] == user && auth["credentials"] == pass
}

func runInit(sc *initScen, seed int64) []Ev {
	log := &Log{}
	rnd := rand.New(rand.NewSource(seed + int64(sc.ID)))
	user, pass := credSet[sc.Cred%len(credSet)][0], credSet[sc.Cred%len(credSet)][1]
	eofc := make(chan struct{})
	first := make(chan struct{}, 1)
	first <- struct{}{}
	stop := make(chan struct{})
	defer close(stop)
	accepted := false

	handle := func(p *Peer) {
		select {
		case <-first:
		default:
			<-stop
			return
		}
		accepted = true
		defer close(eofc)
		p.Split = Split{Chunk: sc.Ch, Seg: sc.Seg, Pause: true}
		p.Rnd = rnd
		raw := p.Conn
		drain := func() {
			// nothing more is said; wait for the driver to hang up
			b := make([]byte, 1000)
			for {
				n, err := raw.Read(b)
				if n > 0 && raw == p.Conn {
					log.Add(Ev{"e": "extra"})
				}
				if err != nil {
					log.Add(Ev{"e": "ceof"})
					return
				}
			}
		}
		end := func() {
			p.Shut()
			b := make([]byte, 1000)
			for {
				if _, err := raw.Read(b); err != nil {
					log.Add(Ev{"e": "ceof"})
					return
				}
			}
		}
		log.Add(Ev{"e": "acc", "m": sc.Dial})
		switch sc.Dial {
		case "drop":
			end()
			return
		case "mute":
			b := make([]byte, 1000)
			for {
				if _, err := raw.Read(b); err != nil {
					log.Add(Ev{"e": "ceof"})
					return
				}
			}
		case "garb":
			raw.Write([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
			end()
			return
		}
		if sc.TLS {
			t := tls.Server(raw, &tls.Config{Certificates: []tls.Certificate{certs().server.cert}})
			if err := t.Handshake(); err != nil {
				log.Add(Ev{"e": "ceof"})
				return
			}
			p.Conn = t
		}
		hello, err := p.Handshake()
		if err != nil {
			log.Add(Ev{"e": "ceof"})
			return
		}
		offers := []int{}
		for i := 4; i < 20; i += 4 {
			offers = append(offers, int(binary.BigEndian.Uint32(hello[i:])&0x7fffffff))
		}
		log.Add(Ev{"e": "hello", "ok": string(hello[:4]) == "\x60\x60\xB0\x17", "offers": offers})
		reply := func(v int) {
			log.Add(Ev{"e": "vrep", "m": sc.HS, "v": v})
		}
		rep := func(b ...byte) { p.Raw(b) }
		switch sc.HS {
		case "ok":
			reply(sc.V)
			rep(0, 0, 0, byte(sc.V))
		case "none":
			reply(0)
			rep(0, 0, 0, 0)
		case "five":
			reply(5)
			rep(0, 0, 0, 5)
		case "minor":
			reply(260)
			rep(0, 0, 1, byte(sc.V))
		case "high":
			reply(1 << 24)
			rep(byte(sc.V), 0, 0, 0)
		case "mid":
			reply(1 << 16)
			rep(0, 1, 0, byte(sc.V))
		case "huge":
			reply(2147483647)
			rep(255, 255, 255, 255)
		case "http":
			reply(1213486160)
			p.Raw([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
		case "part":
			reply(-1)
			p.Raw([]byte{0, 0, 0, byte(sc.V)}[:1+rnd.Intn(3)])
			end()
			return
		case "mute":
			reply(-1)
		case "halfmute":
			reply(-1)
			p.Raw([]byte{0, 0, 0, byte(sc.V)}[:1+rnd.Intn(3)])
		case "drop":
			reply(-1)
			end()
			return
		case "rst":
			reply(-1)
			p.Abort()
			return
		default:
			fatal("unknown handshake", sc.HS)
		}
		if sc.HS != "ok" {
			// anything sent now would be sent without an agreed version
			drain()
			return
		}
		payload, err := p.Read()
		if err != nil {
			log.Add(Ev{"e": "ceof"})
			return
		}
		name, ok := checkInit(sc.V, payload, user, pass)
		log.Add(Ev{"e": "c2s", "m": name, "ok": ok})
		ans := func(m string, v interface{}) {
			log.Add(Ev{"e": "ans", "m": m})
			if v != nil {
				p.Value(v)
			}
		}
		full := chunked(psEnc(nil, msg(sigSuccess, M{"server": "verif"})), sc.Ch)
		failed := false
		switch sc.Ans {
		case "ok":
			ans("SUCCESS", msg(sigSuccess, M{"server": "Neo4j/verif", "connection_id": "bolt-1"}))
		case "okempty":
			ans("SUCCESS", msg(sigSuccess, M{}))
		case "fail":
			failed = true
			ans("FAILURE", msg(sigFailure, M{"code": failCode + "1", "message": failText + "1"}))
		case "faildrop":
			ans("FAILURE", msg(sigFailure, M{"code": failCode + "1", "message": failText + "1"}))
			end()
			return
		case "failempty":
			failed = true
			ans("FAILURE", msg(sigFailure, M{}))
		case "ignored":
			ans("IGNORED", msg(sigIgnored))
		case "record":
			ans("RECORD", msg(sigRecord, []interface{}{int64(1)}))
		case "value":
			ans("VALUE", int64(1))
		case "null":
			ans("VALUE", nil)
			p.Value(nil)
		case "node":
			ans("VALUE", msg(0x4E, int64(1), []interface{}{}, M{}))
		case "garb":
			ans("GARB", nil)
			p.Send(garbage[rnd.Intn(len(garbage))])
		case "part":
			ans("PART", nil)
			p.Raw(full[:1+rnd.Intn(len(full)-1)])
			end()
			return
		case "halfmute":
			ans("MUTE", nil)
			p.Raw(full[:1+rnd.Intn(len(full)-1)])
		case "mute":
			ans("MUTE", nil)
		case "drop":
			ans("DROP", nil)
			end()
			return
		case "rst":
			ans("RST", nil)
			p.Abort()
			return
		default:
			fatal("unknown answer", sc.Ans)
		}
		pend := ""
		for {
			payload, err := p.Read()
			if err != nil {
				log.Add(Ev{"e": "ceof"})
				return
			}
			name, _ := checkInit(sc.V, payload, user, pass)
			log.Add(Ev{"e": "c2s", "m": name, "ok": true})
			switch {
			case name == "RESET":
				switch sc.RF {
				case "", "ok":
					failed = false
					log.Add(Ev{"e": "ans", "m": "RESETOK"})
					p.Value(msg(sigSuccess, M{}))
				case "fail":
					log.Add(Ev{"e": "ans", "m": "RESETNO"})
					p.Value(msg(sigFailure, M{"code": failCode + "2", "message": failText + "2"}))
				case "mute":
					log.Add(Ev{"e": "ans", "m": "RESETNO"})
				case "drop":
					log.Add(Ev{"e": "ans", "m": "RESETNO"})
					end()
					return
				}
			case name == "GOODBYE":
			case failed:
				p.Value(msg(sigIgnored))
			case name == "RUN":
				pend = name
				p.Value(msg(sigSuccess, M{}))
			case name == "PULL" && pend == "RUN":
				p.Value(msg(sigSuccess, M{"t": int64(1), "type": "r"}))
			}
		}
	}
	srv := NewServer(nil, handle)
	defer srv.Close()
	port := srv.Port
	if sc.Dial == "refuse" {
		var release func()
		port, release = refusingPort()
		defer release()
	}
	if sc.Dial == "syn" {
		var release func()
		port, release = silentPort()
		defer release()
	}

	tmo := 8000
	mute := sc.Dial == "mute" || sc.Dial == "syn" || strings.Contains(sc.HS, "mute") || strings.Contains(sc.Ans, "mute") || sc.RF == "mute"
	var open func() (connection.IConnection, error)
	after := func() {}
	host := fmt.Sprintf("127.0.0.1:%d", port)
	q := url.Values{}
	if mute {
		tmo = 1000
	}
	q.Set("timeout", fmt.Sprint(tmo/1000))
	if sc.TLS {
		q.Set("tls", "true")
		q.Set("tls_ca_cert_file", certs().ca.file)
	}
	u := url.URL{Scheme: "bolt", Host: host, User: url.UserPassword(user, pass), RawQuery: q.Encode()}
	log.Add(Ev{"e": "begin", "id": sc.ID})
	log.Add(Ev{"e": "call", "via": sc.Via})
	var setup error
	switch sc.Via {
	case "conn":
		open = func() (connection.IConnection, error) { return connection.CreateBoltConn(u.String()) }
	default:
		opts := []goBolt.Opt{goBolt.WithConnectionString(u.String())}
		if rnd.Intn(2) == 0 {
			if mute {
				tmo = 300
			}
			opts = []goBolt.Opt{goBolt.WithHostPort("127.0.0.1", port), goBolt.WithBasicAuth(user, pass),
				goBolt.WithTimeout(time.Duration(tmo) * time.Millisecond)}
			if sc.TLS {
				opts = append(opts, goBolt.WithTLS(certs().ca.file, "", "", false))
			}
		}
		client, err := goBolt.NewClient(opts...)
		if err != nil {
			setup = err
			break
		}
		if sc.Via == "driver" {
			d, err := client.NewDriver()
			if err != nil {
				setup = err
				break
			}
			open = func() (connection.IConnection, error) { return d.Open(bolt_mode.WriteMode) }
		} else {
			d, err := client.NewDriverPool(1 + rnd.Intn(2))
			if err != nil {
				setup = err
				break
			}
			open = func() (connection.IConnection, error) { return d.Open(bolt_mode.WriteMode) }
			after = func() { d.Close() }
		}
	}
	if setup != nil {
		log.Add(Ev{"e": "broken", "why": "setup", "detail": firstLine(setup.Error())})
		return log.Take()
	}
	var conn connection.IConnection
	start := time.Now()
	o, ok := guarded(hangLimit, func(o *outcome) { conn, o.err = open() })
	ms := int(time.Since(start) / time.Millisecond)
	if !ok {
		log.Add(Ev{"e": "hang"})
		return log.Take()
	}
	if o.panicv != nil {
		log.Add(Ev{"e": "broken", "why": "panic", "detail": firstLine(fmt.Sprint(o.panicv))})
		return log.Take()
	}
	ret := Ev{"e": "ret", "err": o.err != nil, "conn": !nilConn(conn), "v": 0, "ms": ms, "tmo": tmo}
	if !nilConn(conn) && o.err == nil {
		ret["v"] = conn.GetProtocolVersionNumber()
	}
	if o.err != nil && accepted {
		select {
		case <-eofc:
		case <-time.After(3 * time.Second):
			log.Add(Ev{"e": "noceof"})
		}
	}
	log.Add(ret)
	if o.err == nil && !nilConn(conn) {
		var res connection.IResult
		o, ok := guarded(hangLimit, func(o *outcome) { res, o.err = conn.Exec("Q1", nil) })
		good := ok && o.panicv == nil && o.err == nil && res != nil && res.Metadata()["t"] == int64(1)
		log.Add(Ev{"e": "use", "ok": good})
		guarded(hangLimit, func(o *outcome) { o.err = conn.Close() })
	}
	guarded(hangLimit, func(o *outcome) { after() })
	log.Add(Ev{"e": "end"})
	return log.Take()
}

// nilConn also recognises an interface that holds a nil pointer.
func nilConn(c connection.IConnection) bool {
	if c == nil {
		return true
	}
	p, ok := c.(*connection.Connection)
	return ok && p == nil
}
