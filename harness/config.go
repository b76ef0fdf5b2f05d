package main

// Runs scenarios of configuring a client: what is asked for by options and connection string, against servers that
// log who connects, how, and with which credentials.

import (
	"bufio"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"math/rand"
	"net"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
)

type confScen struct {
	ID     int    `json:"id"`
	By     string `json:"by"`
	Mode   string `json:"mode"`
	Via    string `json:"via"`
	Host   string `json:"host"`
	Port   string `json:"port"`
	Scheme string `json:"scheme"`
	Cred   string `json:"cred"`
	Tmo    string `json:"tmo"`
	TLS    string `json:"tls"`
	CA     string `json:"ca"`
	Cert   string `json:"cert"`
	Nov    string `json:"nov"`
	Srv    string `json:"srv"`
	MSrv   string `json:"msrv"`
	Extra  string `json:"extra"`
	Size   string `json:"size"`
}

type confRun struct {
	sc         *confScen
	log        *Log
	rnd        *rand.Rand
	srnd       *rand.Rand // for the servers
	user, pass string
	v          int
	mu         sync.Mutex
	mem        []int // ports of the members
	stop       chan struct{}
}

// listenAll listens on the given hosts, on the same port.
func listenAll(hosts []string) map[string]net.Listener {
	for i := 0; i < 200; i++ {
		out := map[string]net.Listener{}
		port := "0"
		ok := true
		for _, h := range hosts {
			l, err := net.Listen("tcp", net.JoinHostPort(h, port))
			if err != nil {
				ok = false
				break
			}
			out[h] = l
			port = strconv.Itoa(l.Addr().(*net.TCPAddr).Port)
		}
		if ok {
			return out
		}
		for _, l := range out {
			l.Close()
		}
	}
	fatal("cannot listen on", hosts)
	return nil
}

var (
	v6once sync.Once
	v6ok   bool
)

// hasV6 says whether there is an IPv6 loopback here.
func hasV6() bool {
	v6once.Do(func() {
		l, err := net.Listen("tcp", "[::1]:0")
		if err == nil {
			v6ok = true
			l.Close()
		}
	})
	return v6ok
}

func serverTLS(kind string) *tls.Config {
	p := certs()
	c := &tls.Config{ClientAuth: tls.RequestClientCert}
	switch kind {
	case "tls":
		c.Certificates = []tls.Certificate{p.server.cert}
	case "wronghost":
		c.Certificates = []tls.Certificate{p.wrongHost.cert}
	case "expired":
		c.Certificates = []tls.Certificate{p.expired.cert}
	case "untrusted":
		c.Certificates = []tls.Certificate{p.untrust.cert}
	case "mtls":
		c.Certificates = []tls.Certificate{p.server.cert}
		c.ClientAuth = tls.RequireAndVerifyClientCert
		c.ClientCAs = x509.NewCertPool()
		c.ClientCAs.AddCert(p.clients.cert)
	}
	return c
}

func (r *confRun) serve(at, kind string, p *Peer) {
	r.log.Add(Ev{"e": "acc", "at": at})
	pk := peeked{p.Conn, bufio.NewReader(p.Conn)}
	b, err := pk.b.Peek(1)
	if err != nil {
		return
	}
	switch b[0] {
	case 0x16:
		r.log.Add(Ev{"e": "first", "m": "tls"})
	case 0x60:
		r.log.Add(Ev{"e": "first", "m": "bolt"})
	default:
		r.log.Add(Ev{"e": "first", "m": "other"})
	}
	p.Conn = pk
	if kind == "plain" != (b[0] == 0x60) {
		if kind == "plain" {
			// what a server says that does not understand
			p.Raw([][]byte{nil, {0, 0, 0, 0}, []byte("HTTP/1.1 400 Bad Request\r\n\r\n"), {0, 0, 0, 1}}[r.pick(4)])
		}
		return
	}
	if kind != "plain" {
		t := tls.Server(pk, serverTLS(kind))
		if err := t.Handshake(); err != nil {
			return
		}
		who := "none"
		if cs := t.ConnectionState().PeerCertificates; len(cs) > 0 {
			who = strings.Fields(cs[0].Subject.CommonName)[0]
		}
		r.log.Add(Ev{"e": "peer", "who": who})
		p.Conn = t
	}
	if _, err := p.Handshake(); err != nil {
		return
	}
	r.log.Add(Ev{"e": "hello", "at": at})
	p.Raw([]byte{0, 0, 0, byte(r.v)})
	hello, err := p.Read()
	if err != nil {
		return
	}
	_, ok := checkInit(r.v, hello, r.user, r.pass)
	e := Ev{"e": "init", "ok": ok}
	if !ok {
		e["detail"] = fmt.Sprintf("%q", hello)
	}
	r.log.Add(e)
	p.Value(msg(sigSuccess, M{"server": "verif"}))
	text := ""
	for {
		payload, err := p.Read()
		if err != nil {
			return
		}
		v, _, _ := psDec(payload)
		st, _ := v.(*Struct)
		if st == nil {
			return
		}
		switch st.Sig {
		case sigRun:
			text = ""
			if len(st.Fields) > 0 {
				text, _ = st.Fields[0].(string)
			}
			switch text {
			case "MUTE":
				<-r.stop
				return
			case "LATE":
				time.Sleep(r.late())
			}
			p.Value(msg(sigSuccess, M{}))
		case sigPull:
			if strings.Contains(strings.ToLower(text), "dbms.cluster.overview") {
				for _, row := range r.rows() {
					p.Value(msg(sigRecord, row))
				}
			} else {
				p.Value(msg(sigRecord, []interface{}{at}))
			}
			p.Value(msg(sigSuccess, M{}))
		case sigGoodbye:
		default:
			p.Value(msg(sigSuccess, M{}))
		}
	}
}

func (r *confRun) pick(n int) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.srnd.Intn(n)
}

func (r *confRun) timeout() time.Duration {
	switch r.sc.Tmo {
	case "sec":
		return time.Second
	case "sub":
		return time.Duration(200+37*(r.sc.ID%8)) * time.Millisecond
	}
	return 60 * time.Second
}

// late is an answer later than usual, but in time.
func (r *confRun) late() time.Duration {
	if t := r.timeout(); t < 10*time.Second {
		return t / 3
	}
	return 1200 * time.Millisecond
}

func (r *confRun) hostName() string {
	return map[string]string{"v4": "127.0.0.1", "v6": "::1", "name": "localhost", "none": ""}[r.sc.Host]
}

func (r *confRun) rows() []interface{} {
	var rows []interface{}
	for i, port := range r.mem {
		role := []string{"LEADER", "FOLLOWER"}[i]
		addrs := []interface{}{"http://localhost:7474", "bolt://" + net.JoinHostPort(r.hostName(), strconv.Itoa(port))}
		id := fmt.Sprintf("m%d", i+1)
		if r.v == 4 {
			rows = append(rows, []interface{}{id, addrs, M{"system": role, "neo4j": role}, []interface{}{}})
		} else {
			rows = append(rows, []interface{}{id, addrs, role, []interface{}{}, "default"})
		}
	}
	return rows
}

func pickOf(rnd *rand.Rand, s ...string) string { return s[rnd.Intn(len(s))] }

const odd = `:@/?#[]!$&'()*+,;=%-._~"<>\^{|} ` + "`" + "äß語\U0001F600\x01\t"

// oddText is a text of any characters.
func oddText(rnd *rand.Rand, min int) string {
	rs := []rune(odd)
	out := ""
	for n := min + rnd.Intn(8); n > 0; n-- {
		if rnd.Intn(3) == 0 {
			out += string(rune(pickOf(rnd, "a", "A")[0]) + rune(rnd.Intn(26)))
		} else {
			out += string(rs[rnd.Intn(len(rs))])
		}
	}
	return out
}

// tlsFiles are the CA, certificate and key to configure.
func (r *confRun) tlsFiles() (ca, cert, key string) {
	p := certs()
	switch r.sc.CA {
	case "good":
		ca = p.ca.file
	case "missing":
		ca = p.missing
	case "empty":
		ca = p.empty
	case "notpem":
		ca = p.notPem
	case "other":
		ca = p.other.file
	}
	switch r.sc.Cert {
	case "good":
		cert, key = p.client.crt, p.client.key
	case "other":
		cert, key = p.client2.crt, p.client2.key
	case "nokey":
		cert = p.client.crt
	case "nocert":
		key = p.client.key
	case "mismatch":
		cert, key = p.client.crt, p.client2.key
	case "missing":
		if r.rnd.Intn(2) == 0 {
			cert, key = p.missing, p.client.key
		} else {
			cert, key = p.client.crt, p.missing
		}
	}
	return
}

func runConfig(sc *confScen, seed int64) []Ev {
	log := &Log{}
	r := &confRun{sc: sc, log: log, rnd: rand.New(rand.NewSource(seed*7919 + int64(sc.ID))), stop: make(chan struct{}),
		srnd: rand.New(rand.NewSource(seed + int64(sc.ID)))}
	rnd := r.rnd
	r.v = 1 + rnd.Intn(4)
	if !hasV6() && sc.Host == "v6" {
		sc.Host = "v4"
	}
	r.user, r.pass = "neo4j", "password"
	switch sc.Cred {
	case "special":
		if rnd.Intn(3) == 0 {
			c := credSet[rnd.Intn(len(credSet))]
			r.user, r.pass = c[0], c[1]
		} else {
			r.user, r.pass = oddText(rnd, 1), oddText(rnd, 0)
			if rnd.Intn(8) == 0 {
				r.user += strings.Repeat("Long", 10+rnd.Intn(60))
				r.pass += strings.Repeat("%2f ", 10+rnd.Intn(20000))
			}
		}
	case "none":
		r.user, r.pass = "", ""
	case "emptypass":
		r.user, r.pass = "neo4j", ""
	}
	log.Add(Ev{"e": "begin", "id": sc.ID})
	log.Add(Ev{"e": "conf", "c": sc})

	// servers
	hosts := []string{"127.0.0.1", "127.0.0.2"}
	if hasV6() {
		hosts = append(hosts, "::1")
	}
	isTarget := map[string]map[string]bool{"v4": {"127.0.0.1": true}, "v6": {"::1": true}, "name": {"127.0.0.1": true, "::1": true}, "none": {}}[sc.Host]
	if sc.Port != "ok" {
		isTarget = map[string]bool{}
	}
	port := 0
	var servers []*Server
	defer func() {
		close(r.stop)
		for _, s := range servers {
			s.Close()
		}
	}()
	cluster := func(at, kind string) int {
		n := 0
		for h, l := range listenAll(hosts) {
			name := "decoy"
			if isTarget[h] {
				name = at
			}
			s := NewServerOn(l, nil, func(p *Peer) { r.serve(name, kind, p) })
			servers = append(servers, s)
			n = s.Port
		}
		return n
	}
	port = cluster("target", sc.Srv)
	if sc.Mode == "routing" {
		kind := sc.MSrv
		if kind == "same" {
			kind = sc.Srv
		}
		m1 := cluster("m1", kind)
		m2 := cluster("m2", kind)
		r.mem = []int{m1, m2}
	}
	decoy := NewServer(nil, func(p *Peer) { r.serve("decoy", sc.Srv, p) })
	servers = append(servers, decoy)

	// what is configured
	portText, portInt := strconv.Itoa(port), port
	switch sc.Port {
	case "none":
		portText = ""
	case "zero":
		portText, portInt = "0", 0
	case "big":
		portInt = port + 65536*(1+rnd.Intn(3))
		portText = strconv.Itoa(portInt)
	case "neg":
		portInt = port - 65536
		if rnd.Intn(2) == 0 {
			portInt = -port
		}
	case "word":
		portText = pickOf(rnd, "http", "bolt", "x"+portText)
	}
	ca, cert, key := r.tlsFiles()
	nov := sc.Nov == "yes"
	encrypted := sc.TLS == "on" || sc.TLS == "one" || sc.TLS == "letter" || sc.TLS == "clash"
	hasString, full := sc.By != "opts", sc.By == "str" || sc.By == "conn" || sc.By == "both"
	var str string
	if hasString {
		scheme := "bolt"
		if sc.Mode == "routing" {
			scheme = "bolt+routing"
		}
		switch sc.Scheme {
		case "upper":
			scheme = pickOf(rnd, strings.ToUpper(scheme), strings.Title(scheme))
		case "http":
			scheme = pickOf(rnd, "http", "bolts", "boltx", "xbolt", "bolt+routingx")
		case "neo4j":
			scheme = "neo4j"
		case "none":
			scheme = ""
		}
		u := url.URL{Scheme: scheme, Host: r.hostName() + ":" + portText}
		if sc.Host == "v6" {
			u.Host = "[::1]:" + portText
		}
		if sc.Port == "none" {
			u.Host = strings.TrimSuffix(u.Host, ":")
		}
		q := url.Values{}
		if full {
			switch sc.Cred {
			case "none":
			case "nopass":
				u.User = url.User(r.user)
			default:
				u.User = url.UserPassword(r.user, r.pass)
			}
			switch sc.Tmo {
			case "sec", "clash":
				q.Set("timeout", "1")
			case "zero":
				q.Set("timeout", "0")
			case "neg":
				q.Set("timeout", pickOf(rnd, "-1", "-60"))
			case "word":
				q.Set("timeout", pickOf(rnd, "soon", "ten", "0x", "1 0"))
			case "huge":
				q.Set("timeout", pickOf(rnd, "9223372037", "18446744074", "9999999999999", "99999999999999999999999"))
			}
			switch sc.TLS {
			case "on":
				q.Set("tls", "true")
			case "one":
				q.Set("tls", "1")
			case "letter":
				q.Set("tls", pickOf(rnd, "t", "T", "True", "TRUE"))
			case "no":
				q.Set("tls", pickOf(rnd, "false", "False", "0", "f"))
			case "clash":
				q.Set("tls", "true")
			}
			if encrypted {
				if ca != "" {
					q.Set("tls_ca_cert_file", ca)
				}
				if cert != "" {
					q.Set("tls_cert_file", cert)
				}
				if key != "" {
					q.Set("tls_key_file", key)
				}
				switch sc.Nov {
				case "yes":
					q.Set("tls_no_verify", pickOf(rnd, "true", "1", "t", "TRUE", "T", "True"))
				case "no":
					q.Set("tls_no_verify", pickOf(rnd, "false", "0", "False", "FALSE", "f", "F"))
				}
			}
		}
		odds := 0
		if sc.TLS == "clash" {
			odds = rnd.Intn(4)
			switch odds {
			case 0:
				q.Set("tls", "false")
			case 1:
				q.Set("tls_ca_cert_file", certs().other.file+".not")
			case 2:
				q.Set("tls_no_verify", map[bool]string{true: "false", false: "true"}[nov])
			case 3:
				q.Set("tls_cert_file", certs().client.crt+".not")
			}
		}
		u.RawQuery = q.Encode()
		str = u.String()
	}
	var opts []goBolt.Opt
	if sc.By != "conn" {
		if hasString {
			opts = append(opts, goBolt.WithConnectionString(str))
		} else {
			opts = append(opts, goBolt.WithHostPort(r.hostName(), portInt))
			if sc.Mode == "routing" {
				opts = append(opts, goBolt.WithRouting())
			}
		}
		if sc.By != "str" {
			user, pass := r.user, r.pass
			switch sc.Cred {
			case "none":
			case "clash":
				if rnd.Intn(2) == 0 {
					user += "x"
				} else {
					pass = "another"
				}
				fallthrough
			default:
				opts = append(opts, goBolt.WithBasicAuth(user, pass))
			}
			switch sc.Tmo {
			case "sec":
				opts = append(opts, goBolt.WithTimeout(time.Second))
			case "sub":
				opts = append(opts, goBolt.WithTimeout(r.timeout()))
			case "zero":
				opts = append(opts, goBolt.WithTimeout(0))
			case "neg":
				opts = append(opts, goBolt.WithTimeout(-time.Duration(1+rnd.Intn(3))*time.Second))
			case "clash":
				opts = append(opts, goBolt.WithTimeout(2*time.Second))
			}
			if encrypted {
				opts = append(opts, goBolt.WithTLS(ca, cert, key, nov))
			}
		}
		switch sc.Extra {
		case "hostport":
			opts = append(opts, goBolt.WithHostPort("127.0.0.1", decoy.Port))
		case "routing":
			opts = append(opts, goBolt.WithRouting())
		case "nil":
			opts = append(opts, nil)
		case "empty":
			opts = nil
		case "verok":
			// what there is, and includes the version the server speaks
			switch v := r.v; rnd.Intn(4) {
			case 0:
				opts = append(opts, goBolt.WithStrictProtocolVersion(v))
			case 1:
				if v > 1 {
					opts = append(opts, goBolt.WithProtocolVersionGreaterThan(1+rnd.Intn(v-1)))
				}
			case 2:
				if v < 4 {
					opts = append(opts, goBolt.WithProtocolVersionLessThan(v+1+rnd.Intn(4-v)))
				}
			default:
				opts = append(opts, goBolt.WithProtocolVersionNegotiation())
			}
		case "verbad":
			far := []int{-1 << 31, -1, 0, 5, 6, 255, 257, 1 << 16, 1<<31 - 1}[rnd.Intn(9)]
			switch rnd.Intn(5) {
			case 0:
				opts = append(opts, goBolt.WithStrictProtocolVersion(far))
			case 1:
				opts = append(opts, goBolt.WithProtocolVersionGreaterThan(far))
			case 2:
				opts = append(opts, goBolt.WithProtocolVersionLessThan(far))
			case 3:
				opts = append(opts, goBolt.WithProtocolVersionGreaterThan(4))
			default:
				opts = append(opts, goBolt.WithProtocolVersionLessThan(1))
			}
		case "chunk":
			opts = append(opts, goBolt.WithChunkSize([]uint16{0, 1, 2, 16, 255, 1024, 65535}[rnd.Intn(7)]))
		}
		rnd.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	}

	// opening
	size := 2 + rnd.Intn(2)
	switch sc.Size {
	case "zero":
		size = 0
	case "one":
		size = 1
	case "neg":
		size = -1 - rnd.Intn(3)
	}
	var conns []connection.IConnection
	after := func() {}
	o, ok := guarded(hangLimit, func(o *outcome) {
		if sc.By == "conn" {
			for i := 0; i < 2 && o.err == nil; i++ {
				var c connection.IConnection
				c, o.err = connection.CreateBoltConn(str)
				conns = append(conns, c)
			}
			return
		}
		client, err := goBolt.NewClient(opts...)
		if err != nil {
			o.err = err
			return
		}
		var open func(m bolt_mode.AccessMode) (connection.IConnection, error)
		if sc.Via == "driver" {
			d, err := client.NewDriver()
			if err != nil {
				o.err = err
				return
			}
			open = d.Open
		} else {
			d, err := client.NewDriverPool(size)
			if err != nil {
				o.err = err
				return
			}
			after = func() { d.Close() }
			open = d.Open
		}
		for _, m := range []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode} {
			c, err := open(m)
			if err != nil {
				o.err = err
				return
			}
			conns = append(conns, c)
		}
	})
	finish := func() []Ev {
		guarded(hangLimit, func(o *outcome) { after() })
		for _, c := range conns {
			if !nilConn(c) {
				c := c
				guarded(hangLimit, func(o *outcome) { c.Close() })
			}
		}
		log.Add(Ev{"e": "end"})
		return log.Take()
	}
	if !ok {
		log.Add(Ev{"e": "hang"})
		return log.Take()
	}
	if o.panicv != nil {
		log.Add(Ev{"e": "broken", "why": "panic", "detail": firstLine(fmt.Sprint(o.panicv))})
		return finish()
	}
	ret := Ev{"e": "ret", "err": o.err != nil}
	if o.err != nil {
		ret["detail"] = firstLine(o.err.Error())
	} else {
		for _, c := range conns {
			if nilConn(c) {
				log.Add(Ev{"e": "broken", "why": "no_connection"})
				return finish()
			}
		}
	}
	log.Add(ret)
	if o.err == nil {
		for i, c := range conns {
			var rows [][]interface{}
			o, ok := guarded(hangLimit, func(o *outcome) { rows, _, o.err = c.Query("Q", nil) })
			want := "target"
			if sc.Mode == "routing" {
				want = []string{"m1", "m2"}[i]
			}
			log.Add(Ev{"e": "use", "ok": ok && o.panicv == nil && o.err == nil && len(rows) == 1 && len(rows[0]) == 1 && rows[0][0] == want})
		}
		c := conns[rnd.Intn(len(conns))]
		tmo := r.timeout()
		for _, q := range []string{"LATE", "MUTE"} {
			if q == "MUTE" && tmo > 10*time.Second {
				continue
			}
			start := time.Now()
			o, ok := guarded(hangLimit, func(o *outcome) { _, o.err = c.Exec(q, nil) })
			ms := int(time.Since(start) / time.Millisecond)
			if !ok {
				log.Add(Ev{"e": "hang"})
				return log.Take()
			}
			log.Add(Ev{"e": "wait", "gone": q == "MUTE", "ok": o.err == nil && o.panicv == nil, "ms": ms, "tmo": int(tmo / time.Millisecond)})
		}
	}
	return finish()
}
