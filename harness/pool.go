package main

// Runs scenarios on a connection pool: batches of calls made at the same time by several users, with a server
// that ends connections, refuses new ones and comes back.

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	goBolt "github.com/mindstand/go-bolt"
	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/connection"
)

type poolDo struct {
	A  string `json:"a"`
	U  string `json:"u"`
	RB string `json:"rb"`
}

type poolStep struct {
	K string   `json:"k"`
	B []poolDo `json:"b"`
	I int      `json:"i"`
}

type poolScen struct {
	ID    int        `json:"id"`
	V     int        `json:"v"`
	N     int        `json:"n"`
	Users int        `json:"users"`
	Tmo   int        `json:"tmo"` // ms
	Down  string     `json:"down"`
	Steps []poolStep `json:"steps"`
}

// sess is the server's view of one connection.
type sess struct {
	peer   *Peer
	id     int
	tx     bool
	rb     string // fate of the next rollback
	failed bool
	killed bool
	gone   bool
}

type poolUser struct {
	busy string // the call the user is in
	conn connection.IConnection
	c    int
}

type poolRun struct {
	sc     *poolScen
	log    *Log
	rnd    *rand.Rand
	mu     sync.Mutex
	mode   string
	sess   map[int]*sess
	conns  map[connection.IConnection]int
	byConn map[int]int
	users  []*poolUser
	last   connection.IConnection
	closed bool
	bad    bool
	pool   goBolt.IDriverPool
}

func (r *poolRun) isOpen() []int {
	out := []int{}
	for id, s := range r.sess {
		if !s.gone {
			out = append(out, id)
		}
	}
	sort.Ints(out)
	return out
}

func (r *poolRun) serve(p *Peer) {
	r.mu.Lock()
	mode := r.mode
	if mode == "down" {
		mode = r.sc.Down
	}
	wait := time.Duration(r.rnd.Intn(1500)) * time.Microsecond
	s := &sess{peer: p, id: p.ID}
	r.sess[p.ID] = s
	over := len(r.isOpen()) > r.sc.N
	r.mu.Unlock()
	r.log.Add(Ev{"e": "acc", "s": p.ID})
	if over {
		go func() {
			for i := 0; i < 8; i++ {
				time.Sleep(100 * time.Millisecond)
				r.mu.Lock()
				still := len(r.isOpen()) > r.sc.N
				r.mu.Unlock()
				if !still {
					return
				}
			}
			r.log.Add(Ev{"e": "over"})
		}()
	}
	defer func() {
		r.mu.Lock()
		s.gone = true
		killed := s.killed
		if !killed {
			r.log.Add(Ev{"e": "eof", "s": s.id})
		}
		r.mu.Unlock()
	}()
	if mode == "drop" {
		p.Shut()
		p.Handshake()
		p.Read()
		return
	}
	if _, err := p.Handshake(); err != nil {
		return
	}
	time.Sleep(wait)
	switch mode {
	case "mute":
		p.Read()
		p.Read()
		return
	case "nover":
		p.Raw([]byte{0, 0, 0, 0})
		p.Read()
		return
	}
	p.Raw([]byte{0, 0, 0, byte(r.sc.V)})
	if _, err := p.Read(); err != nil {
		return
	}
	if mode == "auth" {
		p.Value(msg(sigFailure, M{"code": "Neo.ClientError.Security.Unauthorized", "message": "no"}))
		for {
			if _, err := p.Read(); err != nil {
				return
			}
			p.Value(msg(sigSuccess, M{}))
		}
	}
	p.Value(msg(sigSuccess, M{}))
	failed, control, who, rows := false, "", false, false
	for {
		payload, err := p.Read()
		if err != nil {
			return
		}
		m := describe(r.sc.V, payload, 0, look{})["m"].(string)
		v, _, _ := psDec(payload)
		st, _ := v.(*Struct)
		text := ""
		if st != nil && len(st.Fields) > 0 {
			text, _ = st.Fields[0].(string)
		}
		if failed && m != "RESET" {
			p.Value(msg(sigIgnored))
			continue
		}
		fate := "ok"
		r.mu.Lock()
		switch m {
		case "GOODBYE":
			r.mu.Unlock()
			continue
		case "RESET":
			failed, s.tx, control = false, false, ""
		case "RUN_BEGIN", "BEGIN":
			s.tx, control = true, m
		case "RUN_COMMIT", "COMMIT", "RUN_ROLLBACK", "ROLLBACK":
			control = m
			fate, s.rb = s.rb, ""
			if fate == "" {
				fate = "ok"
			}
			if fate == "ok" {
				s.tx = false
			}
		case "RUN":
			control, who, rows = "", text == "WHO", text == "ROWS"
			if text == "FAIL" {
				fate = "fail"
			}
		}
		tx := s.tx
		r.mu.Unlock()
		if m == "PULL" && control == "" && who {
			p.Value(msg(sigRecord, []interface{}{int64(s.id), tx}))
		}
		if m == "PULL" && control == "" && rows {
			for i := 0; i < 3; i++ {
				p.Value(msg(sigRecord, []interface{}{int64(i)}))
			}
		}
		switch fate {
		case "ok":
			p.Value(msg(sigSuccess, M{}))
		case "fail":
			failed = true
			p.Value(msg(sigFailure, M{"code": "Neo.ClientError.Verif.T1", "message": "no"}))
		case "drop":
			r.kill(s, false)
		case "garb":
			p.Send([]byte{0xB1, 0x70, 0x01})
		}
	}
}

// kill ends a session from the server's side.
func (r *poolRun) kill(s *sess, hard bool) {
	r.mu.Lock()
	s.killed = true
	r.log.Add(Ev{"e": "kill", "s": s.id})
	r.mu.Unlock()
	if hard {
		s.peer.Abort()
	} else {
		s.peer.Shut()
	}
}

func (r *poolRun) setMode(m string) {
	r.mu.Lock()
	r.mode = m
	r.mu.Unlock()
	r.log.Add(Ev{"e": "srv", "up": m == "ok"})
}

// held returns the users that have a connection.
func (r *poolRun) holders() []int {
	r.mu.Lock()
	defer r.mu.Unlock()
	var out []int
	for i, u := range r.users {
		if u.conn != nil && u.busy == "" {
			out = append(out, i)
		}
	}
	return out
}

func (r *poolRun) free() []int {
	r.mu.Lock()
	defer r.mu.Unlock()
	var out []int
	for i, u := range r.users {
		if u.conn == nil && u.busy == "" {
			out = append(out, i)
		}
	}
	return out
}

// call runs f for a user; f returns the fields of the "ret" event.
func (r *poolRun) call(g int, op string, c int, f func() (Ev, func())) {
	u := r.users[g]
	r.mu.Lock()
	u.busy = op
	r.mu.Unlock()
	r.log.Add(Ev{"e": "call", "g": g + 1, "op": op, "c": c})
	defer func() {
		if p := recover(); p != nil {
			r.log.Add(Ev{"e": "panic", "detail": firstLine(fmt.Sprint(p))})
			r.mu.Lock()
			r.bad = true
			r.mu.Unlock()
		}
		r.mu.Lock()
		u.busy = ""
		r.mu.Unlock()
	}()
	ret, after := f()
	ret["e"], ret["g"] = "ret", g+1
	r.log.Add(ret)
	if after != nil {
		after()
	}
}

func (r *poolRun) open(g int) {
	r.call(g, "open", 0, func() (Ev, func()) {
		mode := bolt_mode.WriteMode
		if g%2 == 1 {
			mode = bolt_mode.ReadMode
		}
		conn, err := r.pool.Open(mode)
		if err != nil || conn == nil {
			return Ev{"err": true, "c": 0}, nil
		}
		r.mu.Lock()
		c, ok := r.conns[conn]
		if !ok {
			c = len(r.conns) + 1
			r.conns[conn] = c
		}
		r.mu.Unlock()
		return Ev{"err": false, "c": c}, func() {
			rows, _, err := conn.Query("WHO", nil)
			who := Ev{"e": "who", "c": c, "s": 0, "err": true, "tx": false}
			if err == nil && len(rows) == 1 && len(rows[0]) == 2 {
				id, ok1 := rows[0][0].(int64)
				tx, ok2 := rows[0][1].(bool)
				if ok1 && ok2 {
					who["s"], who["err"], who["tx"] = int(id), false, tx
				}
			}
			r.mu.Lock()
			r.users[g].conn, r.users[g].c = conn, c
			r.byConn[c] = who["s"].(int)
			r.mu.Unlock()
			r.log.Add(who)
		}
	})
}

// use does with a connection what its user does before returning it.
func (r *poolRun) use(g int, d poolDo) {
	u := r.users[g]
	r.mu.Lock()
	s := r.sess[r.byConn[u.c]]
	n := r.rnd.Intn(6)
	r.mu.Unlock()
	if s == nil {
		return
	}
	guarded(hangLimit, func(o *outcome) {
		switch d.U {
		case "begin":
			tx, err := u.conn.Begin()
			if err == nil && n%2 == 0 {
				tx.Exec("WORK", nil)
			}
			r.mu.Lock()
			s.rb = d.RB
			if d.RB == "fail" && n == 5 {
				s.rb = "garb"
			}
			r.mu.Unlock()
		case "fail":
			if n%2 == 0 {
				u.conn.Begin()
			}
			u.conn.Exec("FAIL", nil)
		case "kill":
			r.kill(s, n == 0)
			time.Sleep(4 * time.Millisecond)
			if n == 1 {
				u.conn.Exec("WORK", nil)
			}
		case "close":
			r.log.Add(Ev{"e": "lose", "c": u.c})
			u.conn.Close()
		default:
			if n == 0 {
				u.conn.Query("ROWS", nil)
			}
		}
	})
}

func (r *poolRun) reclaim(g int) {
	u := r.users[g]
	conn, c := u.conn, u.c
	r.call(g, "reclaim", c, func() (Ev, func()) {
		r.mu.Lock()
		u.conn = nil
		r.last = conn
		r.mu.Unlock()
		err := r.pool.Reclaim(conn)
		return Ev{"err": err != nil, "c": 0}, nil
	})
}

func (r *poolRun) shut(g int) {
	r.call(g, "close", 0, func() (Ev, func()) {
		err := r.pool.Close()
		r.mu.Lock()
		r.closed = r.closed || err == nil
		r.mu.Unlock()
		return Ev{"err": err != nil, "c": 0}, nil
	})
}

// settle waits until nothing more happens, and notes what is open then.
func (r *poolRun) settle() bool {
	limit := time.Now().Add(4*time.Second + 3*time.Duration(r.sc.Tmo)*time.Millisecond)
	calm := false
	for !calm && time.Now().Before(limit) {
		r.mu.Lock()
		opens, others, held := 0, 0, 0
		for _, u := range r.users {
			switch u.busy {
			case "":
				if u.conn != nil {
					held++
				}
			case "open":
				opens++
			default:
				others++
			}
		}
		closed, bad := r.closed, r.bad
		r.mu.Unlock()
		if bad {
			return false
		}
		calm = others == 0 && (opens == 0 || (held == r.sc.N && !closed))
		if !calm {
			time.Sleep(200 * time.Microsecond)
		} else if opens > 0 {
			time.Sleep(3 * time.Millisecond)
		}
	}
	if !calm {
		hangs.Add(1)
	}
	var open []int
	for i := 0; ; i++ {
		r.mu.Lock()
		open = r.isOpen()
		ok := len(open) <= r.sc.N
		if r.closed {
			held := map[int]bool{}
			for _, u := range r.users {
				if u.conn != nil {
					held[r.byConn[u.c]] = true
				}
			}
			for _, s := range open {
				ok = ok && held[s]
			}
		}
		r.mu.Unlock()
		if ok {
			break
		}
		if i == 199 {
			slow.Add(1)
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	r.log.Add(Ev{"e": "calm", "open": open})
	return calm
}

func runPool(sc *poolScen, seed int64) []Ev {
	r := &poolRun{sc: sc, log: &Log{}, rnd: rand.New(rand.NewSource(seed + int64(sc.ID))), mode: "ok",
		sess: map[int]*sess{}, conns: map[connection.IConnection]int{}, byConn: map[int]int{}}
	total := sc.Users + 1
	for i := 0; i < total; i++ {
		r.users = append(r.users, &poolUser{})
	}
	srv := NewServer(nil, r.serve)
	defer srv.Close()
	r.log.Add(Ev{"e": "begin", "id": sc.ID, "n": sc.N, "users": total})
	broken := func(what interface{}) []Ev {
		r.log.Add(Ev{"e": "broken", "detail": firstLine(fmt.Sprint(what))})
		return r.log.Take()
	}
	client, err := goBolt.NewClient(goBolt.WithHostPort("127.0.0.1", srv.Port), goBolt.WithBasicAuth("u", "p"),
		goBolt.WithTimeout(time.Duration(sc.Tmo)*time.Millisecond))
	if err != nil {
		return broken(err)
	}
	if r.pool, err = client.NewDriverPool(sc.N); err != nil {
		return broken(err)
	}
	together := func(fs []func()) {
		start := make(chan struct{})
		var ready sync.WaitGroup
		for _, f := range fs {
			f := f
			ready.Add(1)
			go func() {
				ready.Done()
				<-start
				f()
			}()
		}
		ready.Wait()
		close(start)
		time.Sleep(100 * time.Microsecond)
	}
	// waits until the goroutines just started have registered their calls
	started := func(fs []func()) {
		var wg sync.WaitGroup
		wrapped := make([]func(), len(fs))
		for i, f := range fs {
			f := f
			wg.Add(1)
			wrapped[i] = func() { wg.Done(); f() }
		}
		together(wrapped)
		wg.Wait()
		time.Sleep(300 * time.Microsecond)
	}
	for _, st := range sc.Steps {
		var fs []func()
		switch st.K {
		case "batch":
			for g, d := range st.B {
				g, d := g, d
				r.mu.Lock()
				u := *r.users[g]
				r.mu.Unlock()
				if u.busy != "" {
					continue
				}
				switch {
				case d.A == "open" && u.conn == nil:
					fs = append(fs, func() { r.open(g) })
				case d.A == "close" && u.conn == nil:
					fs = append(fs, func() { r.shut(g) })
				case d.A == "reclaim" && u.conn != nil:
					r.use(g, d)
					fs = append(fs, func() { r.reclaim(g) })
				}
			}
		case "killidle":
			r.mu.Lock()
			held := map[int]bool{}
			for _, u := range r.users {
				if u.conn != nil {
					held[r.byConn[u.c]] = true
				}
			}
			var idle []int
			for _, id := range r.isOpen() {
				if !held[id] && !r.sess[id].killed {
					idle = append(idle, id)
				}
			}
			n := r.rnd.Intn(3)
			r.mu.Unlock()
			if len(idle) > 0 {
				r.kill(r.sess[idle[(st.I-1)%len(idle)]], n == 0)
				time.Sleep(4 * time.Millisecond)
			}
		case "ok", "down":
			r.setMode(st.K)
		case "reclaimall":
			for _, g := range r.holders() {
				g := g
				fs = append(fs, func() { r.reclaim(g) })
			}
		case "reclaimone":
			if h := r.holders(); len(h) > 0 {
				fs = append(fs, func() { r.reclaim(h[0]) })
			}
		case "openall":
			for i, g := range r.free() {
				g := g
				if i <= sc.N {
					fs = append(fs, func() { r.open(g) })
				}
			}
		case "openone":
			if f := r.free(); len(f) > 0 {
				fs = append(fs, func() { r.open(f[0]) })
			}
		case "close":
			if f := r.free(); len(f) > 0 {
				fs = append(fs, func() { r.shut(f[len(f)-1]) })
			}
		case "again":
			// returning something that is not in use changes nothing
			r.mu.Lock()
			last := r.last
			for _, u := range r.users {
				if u.conn != nil && u.conn == last {
					last = nil
				}
			}
			r.mu.Unlock()
			o, ok := guarded(hangLimit, func(o *outcome) {
				r.pool.Reclaim(nil)
				if last != nil {
					r.pool.Reclaim(last)
				}
			})
			if !ok {
				r.log.Add(Ev{"e": "hang"})
				return r.log.Take()
			}
			if o.panicv != nil {
				r.log.Add(Ev{"e": "panic", "detail": firstLine(fmt.Sprint(o.panicv))})
				return r.log.Take()
			}
		case "storm":
			for _, g := range r.free() {
				g := g
				rnd := rand.New(rand.NewSource(int64(sc.ID*100 + g)))
				fs = append(fs, func() {
					for i := 0; i < st.I; i++ {
						r.open(g)
						r.mu.Lock()
						has := r.users[g].conn != nil
						r.mu.Unlock()
						if !has {
							continue
						}
						us := []string{"none", "none", "begin", "fail", "kill", "close"}
						r.use(g, poolDo{A: "reclaim", U: us[rnd.Intn(len(us))], RB: []string{"ok", "fail", "drop"}[rnd.Intn(3)]})
						r.reclaim(g)
					}
				})
			}
			var wg sync.WaitGroup
			for i, f := range fs {
				f := f
				wg.Add(1)
				fs[i] = func() { defer wg.Done(); f() }
			}
			together(fs)
			_, ok := guarded(3*hangLimit, func(o *outcome) { wg.Wait() })
			fs = nil
			if !ok {
				r.settle()
				return r.log.Take()
			}
		default:
			fatal("unknown step", st.K)
		}
		if len(fs) > 0 {
			started(fs)
		}
		if !r.settle() {
			return r.log.Take()
		}
	}
	evs := append([]Ev(nil), r.log.Take()...)
	guarded(hangLimit, func(o *outcome) { r.pool.Close() })
	return append(evs, Ev{"e": "end"})
}
