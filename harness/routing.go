package main

// Runs scenarios on a routing pool: a cluster of members with roles that change, one server that says who has which
// role, and users who borrow and reclaim at the same time while the pool refreshes itself in the background.

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
	"github.com/mindstand/go-bolt/routing"
)

type routeDo struct {
	A  string `json:"a"`
	T  string `json:"t"`
	U  string `json:"u"`
	RB string `json:"rb"`
}

type routeStep struct {
	K     string    `json:"k"`
	B     []routeDo `json:"b"`
	I     int       `json:"i"`
	Roles []string  `json:"roles"`
}

type routeScen struct {
	ID      int         `json:"id"`
	V       int         `json:"v"`
	W       int         `json:"w"`
	R       int         `json:"r"`
	Users   int         `json:"users"`
	Members int         `json:"members"`
	Sep     bool        `json:"sep"` // topologies are asked for on a server of its own
	Client  bool        `json:"client"`
	TLS     bool        `json:"tls"`
	Cred    int         `json:"cred"`
	Tick    int         `json:"tick"` // ms between refreshes
	Steps   []routeStep `json:"steps"`
}

type member struct {
	srv   *Server
	n     int
	up    bool
	addrs []interface{}
}

type rsess struct {
	sess
	m       int
	control bool
	typ     string
}

type routeUser struct {
	busy string
	conn connection.IConnection
	c    int
}

// routingAPI is what a routing pool offers, however it was made.
type routingAPI interface {
	start() error
	stop() error
	borrow(t string) (connection.IConnection, error)
	reclaim(c connection.IConnection) error
}

type directAPI struct{ p routing.IRoutingPool }

func (d directAPI) start() error { return d.p.Start() }
func (d directAPI) stop() error  { return d.p.Stop() }
func (d directAPI) borrow(t string) (connection.IConnection, error) {
	if t == "w" {
		return d.p.BorrowRWConnection()
	}
	return d.p.BorrowRConnection()
}
func (d directAPI) reclaim(c connection.IConnection) error { return d.p.Reclaim(c) }

type clientAPI struct {
	c    goBolt.IClient
	size int
	p    goBolt.IDriverPool
}

var errNotStarted = fmt.Errorf("not started")

func (d *clientAPI) start() error {
	p, err := d.c.NewDriverPool(d.size)
	if err == nil {
		d.p = p
	}
	return err
}
func (d *clientAPI) stop() error {
	if d.p == nil {
		return errNotStarted
	}
	return d.p.Close()
}
func (d *clientAPI) borrow(t string) (connection.IConnection, error) {
	if d.p == nil {
		return nil, errNotStarted
	}
	if t == "w" {
		return d.p.Open(bolt_mode.WriteMode)
	}
	return d.p.Open(bolt_mode.ReadMode)
}
func (d *clientAPI) reclaim(c connection.IConnection) error {
	if d.p == nil {
		return errNotStarted
	}
	return d.p.Reclaim(c)
}

type routeRun struct {
	sc     *routeScen
	log    *Log
	rnd    *rand.Rand
	mu     sync.Mutex
	mem    []*member // 0 is the server that knows the cluster, where it is none of the members
	roles  []string
	served []string
	good   bool
	user   string
	pass   string
	next   int
	cycles int
	sess   map[int]*rsess
	conns  map[connection.IConnection]int
	byConn map[int]int
	users  []*routeUser
	run    string
	bad    bool
	api    routingAPI
}

func (r *routeRun) tick() time.Duration { return time.Duration(r.sc.Tick) * time.Millisecond }

func (r *routeRun) intn(n int) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.rnd.Intn(n)
}

func canRole(role, t string) bool {
	if t == "w" {
		return role == "L"
	}
	return role == "F" || role == "R"
}

// open lists the sockets the users of the pool might get, in order.
func (r *routeRun) open() []*rsess {
	var out []*rsess
	for _, s := range r.sess {
		if !s.gone && !s.control {
			out = append(out, s)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (r *routeRun) heldSocks() map[int]bool {
	held := map[int]bool{}
	for _, u := range r.users {
		if u.conn != nil {
			held[r.byConn[u.c]] = true
		}
	}
	return held
}

func (r *routeRun) roleAt(m int) string {
	if m >= 1 && m <= len(r.served) {
		return r.served[m-1]
	}
	return "N"
}

type peeked struct {
	net.Conn
	b *bufio.Reader
}

func (p peeked) Read(b []byte) (int, error) { return p.b.Read(b) }

func (r *routeRun) serve(m *member, p *Peer) {
	r.mu.Lock()
	if !m.up {
		r.mu.Unlock()
		p.Shut()
		p.Handshake()
		p.Read()
		return
	}
	r.next++
	s := &rsess{sess: sess{peer: p, id: r.next}, m: m.n}
	r.sess[s.id] = s
	r.log.Add(Ev{"e": "acc", "s": s.id, "m": m.n})
	r.mu.Unlock()
	defer func() {
		r.mu.Lock()
		s.gone = true
		if !s.killed && !s.control {
			r.log.Add(Ev{"e": "eof", "s": s.id})
		}
		r.mu.Unlock()
	}()
	if r.sc.TLS {
		pk := peeked{p.Conn, bufio.NewReader(p.Conn)}
		b, err := pk.b.Peek(1)
		if err != nil {
			return
		}
		if b[0] != 0x16 {
			r.log.Add(Ev{"e": "plain"})
			return
		}
		t := tls.Server(pk, &tls.Config{Certificates: []tls.Certificate{certs().server.cert}})
		if err := t.Handshake(); err != nil {
			return
		}
		p.Conn = t
	}
	if _, err := p.Handshake(); err != nil {
		return
	}
	p.Raw([]byte{0, 0, 0, byte(r.sc.V)})
	hello, err := p.Read()
	if err != nil {
		return
	}
	if _, ok := checkInit(r.sc.V, hello, r.user, r.pass); !ok {
		r.log.Add(Ev{"e": "cred", "ok": false, "detail": fmt.Sprintf("%q", hello)})
	}
	p.Value(msg(sigSuccess, M{}))
	failed, control, text := false, "", ""
	for {
		payload, err := p.Read()
		if err != nil {
			return
		}
		k := describe(r.sc.V, payload, 0, look{})["m"].(string)
		v, _, _ := psDec(payload)
		st, _ := v.(*Struct)
		if failed && k != "RESET" {
			p.Value(msg(sigIgnored))
			continue
		}
		fate := "ok"
		r.mu.Lock()
		switch k {
		case "GOODBYE":
			r.mu.Unlock()
			continue
		case "RESET":
			failed, s.tx, control = false, false, ""
		case "RUN_BEGIN", "BEGIN":
			s.tx, control = true, k
		case "RUN_COMMIT", "COMMIT", "RUN_ROLLBACK", "ROLLBACK":
			control = k
			fate, s.rb = s.rb, ""
			if fate == "" {
				fate = "ok"
			}
			if fate == "ok" {
				s.tx = false
			}
		case "RUN":
			control, text = "", ""
			if st != nil && len(st.Fields) > 0 {
				text, _ = st.Fields[0].(string)
			}
			if text == "FAIL" {
				fate = "fail"
			}
			if strings.Contains(strings.ToLower(text), "dbms.cluster.overview") {
				if s.killed {
					r.mu.Unlock()
					return
				}
				text, s.control = "TOPOLOGY", true
				r.cycles++
				r.log.Add(Ev{"e": "cycle"})
			}
		}
		tx := s.tx
		r.mu.Unlock()
		if s.control && k != "RESET" {
			if !r.topology(s, k, &failed) {
				return
			}
			continue
		}
		if k == "PULL" && control == "" && text == "WHO" {
			p.Value(msg(sigRecord, []interface{}{int64(s.id), int64(m.n), tx}))
		}
		if k == "PULL" && control == "" && text == "ROWS" {
			for i := 0; i < 3; i++ {
				p.Value(msg(sigRecord, []interface{}{int64(i)}))
			}
		}
		switch fate {
		case "ok":
			p.Value(msg(sigSuccess, M{}))
		case "fail":
			failed = true
			p.Value(msg(sigFailure, M{"code": "Neo.ClientError.Verif.T1", "message": "no"}))
		case "drop":
			r.kill(s, false)
		case "garb":
			p.Send([]byte{0xB1, 0x70, 0x01})
		}
	}
}

// topology answers one message of a session that asks who is who.
func (r *routeRun) topology(s *rsess, k string, failed *bool) bool {
	p := s.peer
	fail := func() {
		*failed = true
		p.Value(msg(sigFailure, M{"code": "Neo.TransientError.Verif.T1", "message": "no"}))
	}
	switch k {
	case "RUN":
		r.mu.Lock()
		bad := !r.good
		n := 99
		if bad {
			n = r.rnd.Intn(40)
		}
		if n < 3 {
			r.log.Add(Ev{"e": "served", "good": false, "roles": []string{}})
		}
		r.mu.Unlock()
		switch n {
		case 0:
			fail()
		case 1:
			p.Shut()
			return false
		case 2:
			p.Send([]byte{0xB1, 0x70, 0x01})
		default:
			p.Value(msg(sigSuccess, M{"fields": []interface{}{"id"}}))
		}
	case "PULL":
		r.mu.Lock()
		roles, good := append([]string(nil), r.roles...), r.good
		n := r.rnd.Intn(3)
		var rows []interface{}
		if good {
			rows = r.rows(roles, nil)
			r.served = roles
		} else {
			// what else it says is not true either
			wrong := make([]string, len(roles))
			for i := range wrong {
				wrong[i] = map[string]string{"L": "F", "F": "L", "R": "L", "N": "L"}[roles[i]]
			}
			rows = r.rows(wrong, r.rnd)
			roles = []string{}
		}
		r.log.Add(Ev{"e": "served", "good": good, "roles": roles})
		r.mu.Unlock()
		for _, row := range rows {
			p.Value(msg(sigRecord, row))
		}
		if !good && len(rows) == 0 {
			switch n {
			case 0:
				fail()
			case 1:
				p.Shut()
				return false
			default:
				p.Send([]byte{0xB1, 0x71, 0x01})
			}
			return true
		}
		p.Value(msg(sigSuccess, M{}))
	default:
		p.Value(msg(sigSuccess, M{}))
	}
	return true
}

// rows says in the server's way who has which role; with spoil, one row is not as it should be, or the whole is cut off
// (nil).
func (r *routeRun) rows(roles []string, spoil *rand.Rand) []interface{} {
	var rows []interface{}
	for i, role := range roles {
		m := r.mem[i+1]
		name := map[string]string{"L": "LEADER", "F": "FOLLOWER", "R": "READ_REPLICA", "N": "FOLLOWER"}[role]
		if r.rnd.Intn(4) == 0 {
			name = strings.ToLower(name)
		}
		bolt := fmt.Sprintf("bolt://127.0.0.1:%d", m.srv.Port)
		addrs := []interface{}{bolt, fmt.Sprintf("http://127.0.0.1:%d", 7000+i), "https://localhost:7473"}
		switch {
		case role == "N" && r.rnd.Intn(2) == 0:
			addrs = []interface{}{}
			if r.rnd.Intn(2) == 0 {
				name = map[bool]string{true: "LEADER", false: "FOLLOWER"}[r.rnd.Intn(2) == 0]
			}
		case role == "N":
			addrs = addrs[1:]
		case r.rnd.Intn(3) == 0:
			addrs = []interface{}{addrs[1], addrs[2], bolt}
		}
		id := fmt.Sprintf("%08d-cafe", i)
		if r.sc.V == 4 {
			rows = append(rows, []interface{}{id, addrs, M{"neo4j": "FOLLOWER", "system": name}, []interface{}{"g"}})
		} else {
			rows = append(rows, []interface{}{id, addrs, name, []interface{}{}, "default"})
		}
	}
	// always in the same order: going round the members is only seen when the pool is told of them in the same order
	rand.New(rand.NewSource(int64(r.sc.ID))).Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	if spoil == nil {
		return rows
	}
	var with []int
	for i, row := range rows {
		if a, ok := row.([]interface{})[1].([]interface{}); ok && len(a) == 3 {
			with = append(with, i)
		}
	}
	if len(with) == 0 {
		return nil
	}
	row := rows[with[spoil.Intn(len(with))]].([]interface{})
	roleCol := 2
	junk := []interface{}{nil, int64(7), true, 1.5, []interface{}{"x"}, M{"a": "b"}}
	pick := func() interface{} { return junk[spoil.Intn(len(junk))] }
	switch spoil.Intn(10) {
	case 0:
		return nil
	case 1:
		rows[with[0]] = row[:len(row)-1]
	case 2:
		rows[with[0]] = append(row, "more")
	case 3:
		rows[with[0]] = []interface{}{}
	case 4:
		row[1] = []interface{}{nil, "bolt://127.0.0.1:1", int64(3), true, 0.5, M{}}[spoil.Intn(6)]
	case 5:
		a := row[1].([]interface{})
		a[spoil.Intn(len(a))] = pick()
	case 6, 7:
		if r.sc.V == 4 {
			row[roleCol] = []interface{}{nil, "LEADER", int64(1), M{}, M{"neo4j": "LEADER"}, M{"system": pick()}, M{"system": "KING"},
				[]interface{}{"LEADER"}}[spoil.Intn(8)]
		} else {
			row[roleCol] = []interface{}{nil, int64(1), M{"system": "LEADER"}, "KING", "", []interface{}{"LEADER"}}[spoil.Intn(6)]
		}
	case 8:
		if r.sc.V == 4 {
			row[roleCol] = M{"system": ""}
		} else {
			row[roleCol] = "LEADER2"
		}
	default:
		row[0] = []interface{}{nil, int64(1), M{}, []interface{}{}}[spoil.Intn(4)]
	}
	return rows
}

// kill ends a session from the server's side.
func (r *routeRun) kill(s *rsess, hard bool) {
	r.mu.Lock()
	if s.control {
		r.mu.Unlock()
		return
	}
	s.killed = true
	r.log.Add(Ev{"e": "kill", "s": s.id})
	r.mu.Unlock()
	if hard {
		s.peer.Abort()
	} else {
		s.peer.Shut()
	}
	time.Sleep(4 * time.Millisecond)
	r.log.Add(Ev{"e": "dist"})
}

func (r *routeRun) call(g int, op, t string, c int, f func() (Ev, func())) {
	u := r.users[g]
	r.mu.Lock()
	u.busy = op
	r.mu.Unlock()
	r.log.Add(Ev{"e": "call", "g": g + 1, "op": op, "t": t, "c": c})
	defer func() {
		if p := recover(); p != nil {
			r.log.Add(Ev{"e": "panic", "detail": firstLine(fmt.Sprint(p))})
			r.mu.Lock()
			r.bad = true
			r.mu.Unlock()
		}
		r.mu.Lock()
		u.busy = ""
		r.mu.Unlock()
	}()
	ret, after := f()
	ret["e"], ret["g"] = "ret", g+1
	r.log.Add(ret)
	if after != nil {
		after()
	}
}

func (r *routeRun) start(g int) {
	r.call(g, "start", "", 0, func() (Ev, func()) {
		err := r.api.start()
		r.mu.Lock()
		r.run = "on"
		if err != nil {
			r.run = "failed"
		}
		r.mu.Unlock()
		return Ev{"err": err != nil, "c": 0, "detail": fmt.Sprint(err)}, nil
	})
}

func (r *routeRun) stop(g int) {
	r.call(g, "stop", "", 0, func() (Ev, func()) {
		err := r.api.stop()
		r.mu.Lock()
		if err == nil {
			r.run = "off"
		}
		r.mu.Unlock()
		return Ev{"err": err != nil, "c": 0}, nil
	})
}

func (r *routeRun) borrow(g int, t string) {
	r.call(g, "borrow", t, 0, func() (Ev, func()) {
		conn, err := r.api.borrow(t)
		if err != nil || nilConn(conn) {
			return Ev{"err": true, "c": 0}, nil
		}
		r.mu.Lock()
		c, ok := r.conns[conn]
		if !ok {
			c = len(r.conns) + 1
			r.conns[conn] = c
		}
		r.mu.Unlock()
		return Ev{"err": false, "c": c}, func() {
			rows, _, err := conn.Query("WHO", nil)
			who := Ev{"e": "who", "c": c, "s": 0, "m": 0, "err": true, "tx": false}
			if err == nil && len(rows) == 1 && len(rows[0]) == 3 {
				id, ok1 := rows[0][0].(int64)
				m, ok2 := rows[0][1].(int64)
				tx, ok3 := rows[0][2].(bool)
				if ok1 && ok2 && ok3 {
					who["s"], who["m"], who["err"], who["tx"] = int(id), int(m), false, tx
				}
			}
			r.mu.Lock()
			r.users[g].conn, r.users[g].c = conn, c
			r.byConn[c] = who["s"].(int)
			if s := r.sess[who["s"].(int)]; s != nil {
				s.typ = t
			}
			r.mu.Unlock()
			r.log.Add(who)
		}
	})
}

func (r *routeRun) use(g int, d routeDo) {
	u := r.users[g]
	r.mu.Lock()
	s := r.sess[r.byConn[u.c]]
	n := r.rnd.Intn(6)
	r.mu.Unlock()
	if s == nil {
		return
	}
	guarded(hangLimit, func(o *outcome) {
		switch d.U {
		case "begin":
			tx, err := u.conn.Begin()
			if err == nil && n%2 == 0 {
				tx.Exec("WORK", nil)
			}
			r.mu.Lock()
			s.rb = d.RB
			if d.RB == "fail" && n == 5 {
				s.rb = "garb"
			}
			r.mu.Unlock()
		case "fail":
			if n%2 == 0 {
				u.conn.Begin()
			}
			u.conn.Exec("FAIL", nil)
		case "kill":
			r.kill(s, n == 0)
			if n == 1 {
				u.conn.Exec("WORK", nil)
			}
		case "close":
			r.log.Add(Ev{"e": "lose", "c": u.c})
			u.conn.Close()
		default:
			if n == 0 {
				u.conn.Query("ROWS", nil)
			}
		}
	})
}

func (r *routeRun) reclaim(g int) {
	u := r.users[g]
	conn, c := u.conn, u.c
	r.call(g, "reclaim", "", c, func() (Ev, func()) {
		r.mu.Lock()
		u.conn = nil
		r.mu.Unlock()
		err := r.api.reclaim(conn)
		return Ev{"err": err != nil, "c": 0}, nil
	})
}

func (r *routeRun) settle() bool {
	limit := time.Now().Add(8 * time.Second)
	calm := false
	for !calm && time.Now().Before(limit) {
		r.mu.Lock()
		calm = true
		for _, u := range r.users {
			calm = calm && u.busy == ""
		}
		bad := r.bad
		r.mu.Unlock()
		if bad {
			return false
		}
		if !calm {
			time.Sleep(200 * time.Microsecond)
		}
	}
	if !calm {
		hangs.Add(1)
	}
	var open []Ev
	for i := 0; i < 250; i++ {
		r.mu.Lock()
		held := r.heldSocks()
		open = []Ev{}
		ok := true
		ctl := 0
		for _, s := range r.sess {
			if s.control && !s.gone {
				ctl++
			}
		}
		ok = ctl == 0 || ctl == 1 && r.run == "on"
		per := map[string]int{}
		for _, s := range r.open() {
			open = append(open, Ev{"s": s.id, "m": s.m})
			per[s.typ]++
			role := r.roleAt(s.m)
			if !held[s.id] {
				stale := s.typ == "" && role == "N" || s.typ != "" && !canRole(role, s.typ)
				ok = ok && !(stale && r.run == "on" && !r.sc.Client) && r.run != "off" && r.run != "failed"
			}
		}
		ok = ok && len(open) <= r.sc.W+r.sc.R && per["w"] <= r.sc.W && per["r"] <= r.sc.R
		if ok || i == 249 {
			r.log.Add(Ev{"e": "calm", "ctl": ctl, "open": open})
		}
		r.mu.Unlock()
		if ok {
			break
		}
		if i == 249 {
			slow.Add(1)
		}
		time.Sleep(4 * time.Millisecond)
	}
	return calm
}

// refresh waits for two refreshes of the pool; the first of them takes place wholly after the call.
func (r *routeRun) refresh(n int) {
	if r.sc.Client {
		return
	}
	r.mu.Lock()
	from, run := r.cycles, r.run
	seed := r.mem[0]
	if !r.sc.Sep {
		seed = r.mem[1]
	}
	up := seed.up
	r.mu.Unlock()
	if run != "on" || !up {
		time.Sleep(3 * r.tick())
		return
	}
	limit := time.Now().Add(6 * time.Second)
	for {
		r.mu.Lock()
		done := r.cycles >= from+n
		r.mu.Unlock()
		if done {
			r.log.Add(Ev{"e": "refreshed", "ok": true})
			return
		}
		if time.Now().After(limit) {
			hangs.Add(1)
			r.log.Add(Ev{"e": "refreshed", "ok": false})
			return
		}
		time.Sleep(time.Millisecond)
	}
}

func (r *routeRun) setUp(m int, up bool, crash bool) {
	r.mu.Lock()
	x := r.mem[m]
	if x.up == up {
		r.mu.Unlock()
		return
	}
	x.up = up
	r.log.Add(Ev{"e": "srv", "m": m, "up": up})
	var dying []*rsess
	if crash {
		for _, s := range r.open() {
			if s.m == m && !s.killed {
				dying = append(dying, s)
			}
		}
	}
	r.mu.Unlock()
	for _, s := range dying {
		r.kill(s, false)
	}
}

// idle lists the sockets for a type of use that nobody has borrowed.
func (r *routeRun) idle(t string) []*rsess {
	held := r.heldSocks()
	var out []*rsess
	for _, s := range r.open() {
		if !held[s.id] && !s.killed && (s.typ == t || s.typ == "" && canRole(r.roleAt(s.m), t)) {
			out = append(out, s)
		}
	}
	return out
}

func runRouting(sc *routeScen, seed int64) []Ev {
	r := &routeRun{sc: sc, log: &Log{}, rnd: rand.New(rand.NewSource(seed + int64(sc.ID))), good: true, run: "new",
		sess: map[int]*rsess{}, conns: map[connection.IConnection]int{}, byConn: map[int]int{}}
	r.user, r.pass = credSet[sc.Cred%len(credSet)][0], credSet[sc.Cred%len(credSet)][1]
	total := sc.Users
	if total < sc.W+sc.R+1 {
		total = sc.W + sc.R + 1
	}
	for i := 0; i < total; i++ {
		r.users = append(r.users, &routeUser{})
	}
	for i := 0; i <= sc.Members; i++ {
		m := &member{n: i, up: true}
		r.mu.Lock()
		m.srv = NewServer(nil, func(p *Peer) { r.serve(m, p) })
		r.mem = append(r.mem, m)
		r.mu.Unlock()
		defer m.srv.Close()
	}
	r.log.Add(Ev{"e": "begin", "id": sc.ID, "w": sc.W, "r": sc.R, "users": total, "members": sc.Members, "sep": sc.Sep, "slow": sc.Tick > 100})
	broken := func(what interface{}) []Ev {
		r.log.Add(Ev{"e": "broken", "detail": firstLine(fmt.Sprint(what))})
		return r.log.Take()
	}
	port := r.mem[0].srv.Port
	if !sc.Sep {
		port = r.mem[1].srv.Port
	}
	q := url.Values{"timeout": {"5s"}}
	if sc.TLS {
		q.Set("tls", "true")
		q.Set("tls_ca_cert_file", certs().ca.file)
		q.Set("tls_no_verify", "false")
	}
	auth := url.UserPassword(r.user, r.pass).String()
	if sc.Client {
		q.Set("timeout", "5")
		client, err := goBolt.NewClient(goBolt.WithConnectionString(
			fmt.Sprintf("bolt+routing://%s@127.0.0.1:%d?%s", auth, port, q.Encode())))
		if err != nil {
			return broken(err)
		}
		r.api = &clientAPI{c: client, size: sc.W + sc.R}
	} else {
		p, err := routing.NewRoutingPool(fmt.Sprintf("bolt://%s@127.0.0.1:%d?%s", auth, port, q.Encode()), sc.W+sc.R,
			r.tick(), auth, "?"+q.Encode())
		if err != nil {
			return broken(err)
		}
		r.api = directAPI{p}
	}
	together := func(fs []func()) {
		start := make(chan struct{})
		var ready sync.WaitGroup
		for _, f := range fs {
			f := f
			ready.Add(1)
			go func() {
				<-start
				ready.Done()
				f()
			}()
		}
		close(start)
		ready.Wait()
		time.Sleep(300 * time.Microsecond)
	}
	free := func() []int {
		var out []int
		for g, u := range r.users {
			if u.busy == "" && u.conn == nil {
				out = append(out, g)
			}
		}
		return out
	}
	for _, st := range sc.Steps {
		st := st
		var fs []func()
		r.mu.Lock()
		run := r.run
		r.mu.Unlock()
		switch st.K {
		case "batch":
			for g, d := range st.B {
				g, d := g, d
				u := r.users[g]
				switch {
				case d.A == "start" && (run == "new" || run == "failed"):
					fs = append(fs, func() { r.start(g) })
				case d.A == "stop" && u.conn == nil:
					fs = append(fs, func() { r.stop(g) })
				case d.A == "borrow" && u.conn == nil:
					fs = append(fs, func() { r.borrow(g, d.T) })
				case d.A == "reclaim" && u.conn != nil:
					r.use(g, d)
					fs = append(fs, func() { r.reclaim(g) })
				}
			}
		case "start":
			if run == "new" || run == "failed" {
				fs = append(fs, func() { r.start(0) })
			}
		case "stop":
			if f := free(); len(f) > 0 {
				fs = append(fs, func() { r.stop(f[0]) })
			}
		case "killw", "killr":
			t := strings.TrimPrefix(st.K, "kill")
			r.mu.Lock()
			idle := r.idle(t)
			n := r.rnd.Intn(3)
			r.mu.Unlock()
			if len(idle) > 0 {
				r.kill(idle[(st.I-1)%len(idle)], n == 0)
			}
		case "killall":
			r.mu.Lock()
			idle := append(r.idle("w"), r.idle("r")...)
			r.mu.Unlock()
			for _, s := range idle {
				r.kill(s, false)
			}
		case "roles":
			r.mu.Lock()
			r.roles = st.Roles
			r.mu.Unlock()
		case "good", "bad":
			r.mu.Lock()
			r.good = st.K == "good"
			r.mu.Unlock()
		case "down", "crash":
			r.setUp(st.I, false, st.K == "crash")
		case "up":
			r.setUp(st.I, true, false)
		case "allup":
			for i := range r.mem {
				if i > 0 {
					r.setUp(i, true, false)
				}
			}
		case "refresh":
			r.refresh(2)
		case "reclaimall":
			for g, u := range r.users {
				g := g
				if u.conn != nil {
					fs = append(fs, func() { r.reclaim(g) })
				}
			}
		case "reclaimone":
			for g, u := range r.users {
				g := g
				if u.conn != nil && len(fs) == 0 {
					fs = append(fs, func() { r.reclaim(g) })
				}
			}
		case "borrowall":
			f := free()
			for i := 0; i < sc.W && len(f) > 0; i++ {
				g := f[0]
				f = f[1:]
				fs = append(fs, func() { r.borrow(g, "w") })
			}
			for i := 0; i < sc.R+1 && len(f) > 0; i++ {
				g := f[0]
				f = f[1:]
				fs = append(fs, func() { r.borrow(g, "r") })
			}
		case "borrow":
			if f := free(); len(f) > 0 {
				t := []string{"w", "r"}[r.intn(2)]
				fs = append(fs, func() { r.borrow(f[0], t) })
			}
		case "nil":
			o, ok := guarded(hangLimit, func(o *outcome) { r.api.reclaim(nil) })
			if !ok || o.panicv != nil {
				r.log.Add(Ev{"e": map[bool]string{true: "panic", false: "hang"}[ok]})
				return r.log.Take()
			}
		case "wait":
			if !sc.Client {
				time.Sleep(4 * r.tick())
			}
		case "storm":
			if run != "on" {
				continue
			}
			var over atomic.Bool
			var chaos sync.WaitGroup
			chaos.Add(1)
			go func() {
				defer chaos.Done()
				rnd := rand.New(rand.NewSource(int64(sc.ID)))
				kinds := []string{"L", "F", "F", "R", "N"}
				for !over.Load() {
					switch rnd.Intn(6) {
					case 0, 1, 2:
						roles := make([]string, sc.Members)
						for i := range roles {
							roles[i] = kinds[rnd.Intn(len(kinds))]
						}
						r.mu.Lock()
						r.roles = roles
						r.mu.Unlock()
					case 3:
						r.mu.Lock()
						r.good = rnd.Intn(3) > 0
						r.mu.Unlock()
					case 4:
						r.setUp(1+rnd.Intn(sc.Members), rnd.Intn(3) > 0, false)
					}
					time.Sleep(time.Duration(500+rnd.Intn(6000)) * time.Microsecond)
				}
			}()
			var wg sync.WaitGroup
			for g := range r.users {
				g := g
				wg.Add(1)
				rnd := rand.New(rand.NewSource(int64(sc.ID*100 + g)))
				fs = append(fs, func() {
					defer wg.Done()
					for i := 0; i < st.I; i++ {
						r.borrow(g, []string{"w", "r"}[rnd.Intn(2)])
						r.mu.Lock()
						has := r.users[g].conn != nil
						r.mu.Unlock()
						if !has {
							time.Sleep(time.Duration(rnd.Intn(1500)) * time.Microsecond)
							continue
						}
						us := []string{"none", "none", "begin", "fail", "kill", "close"}
						r.use(g, routeDo{U: us[rnd.Intn(len(us))], RB: []string{"ok", "ok", "fail", "drop"}[rnd.Intn(4)]})
						r.reclaim(g)
					}
				})
			}
			together(fs)
			_, ok := guarded(3*hangLimit, func(o *outcome) { wg.Wait() })
			over.Store(true)
			chaos.Wait()
			fs = nil
			if !ok {
				r.settle()
				return r.log.Take()
			}
		default:
			fatal("unknown step", st.K)
		}
		if len(fs) > 0 {
			together(fs)
		}
		if !r.settle() {
			return r.log.Take()
		}
	}
	evs := append([]Ev(nil), r.log.Take()...)
	guarded(hangLimit, func(o *outcome) { r.api.stop() })
	return append(evs, Ev{"e": "end"})
}
