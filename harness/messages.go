package main

// Constructs the messages of all versions and says what is in them.

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/mindstand/go-bolt/bolt_mode"
	"github.com/mindstand/go-bolt/protocol"
	"github.com/mindstand/go-bolt/structures"
	"github.com/mindstand/go-bolt/structures/messages"
)

type msgArgs struct {
	Client string      `json:"client"`
	Auth   string      `json:"auth"`
	User   string      `json:"user"`
	Pass   string      `json:"pass"`
	Realm  string      `json:"realm"`
	DB     string      `json:"db"`
	Mode   string      `json:"mode"`
	Ms     int         `json:"ms"`
	Meta   string      `json:"meta"`
	Query  string      `json:"query"`
	Params [][2]string `json:"params"`
	Auto   bool        `json:"auto"`
	N      int         `json:"n"`
	Qid    int         `json:"qid"`
}

type msgScen struct {
	ID    int     `json:"id"`
	V     int     `json:"v"`
	Op    string  `json:"op"`
	A     msgArgs `json:"a"`
	Other bool    `json:"other"` // other values than those of the scenario
	B     []int   `json:"b"`
}

// inWords says what a value is.
func inWords(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case int:
		return fmt.Sprintf("i:%d", x)
	case int64:
		return fmt.Sprintf("i:%d", x)
	case bool:
		return fmt.Sprintf("b:%v", x)
	case float64:
		return fmt.Sprintf("f:%v", x)
	case string:
		return "s:" + x
	case []interface{}:
		out := []string{}
		for _, e := range x {
			out = append(out, inWords(e))
		}
		return "[" + strings.Join(out, ",") + "]"
	case map[string]interface{}:
		out := []string{}
		for _, p := range pairsOf(x) {
			out = append(out, p[0]+"="+p[1])
		}
		return "{" + strings.Join(out, ",") + "}"
	}
	return fmt.Sprintf("%T", v)
}

func pairsOf(m map[string]interface{}) [][2]string {
	out := [][2]string{}
	for k, v := range m {
		out = append(out, [2]string{k, inWords(v)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out
}

func anyMap(rnd *rand.Rand, depth int) map[string]interface{} {
	m := map[string]interface{}{}
	for n := 1 + rnd.Intn(3); n > 0; n-- {
		var v interface{}
		switch rnd.Intn(7) {
		case 0:
			v = int64(rnd.Intn(100000) - 500)
		case 1:
			v = rnd.Intn(2) == 0
		case 2:
			v = 1.5
		case 3:
			v = []interface{}{int64(1), "a", nil}
		case 4:
			if depth > 0 {
				v = anyMap(rnd, depth-1)
			}
		case 5:
			v = "text"
		}
		m[fmt.Sprintf("k%d", rnd.Intn(6))] = v
	}
	// as from JSON or literals
	for _, k := range []string{"db", "mode", "n", "qid", "user_agent", "tx_timeout"} {
		if rnd.Intn(12) == 0 {
			m[k] = "mine"
		}
	}
	return m
}

func runMessages(sc *msgScen, seed int64) []Ev {
	log := &Log{}
	rnd := rand.New(rand.NewSource(seed*17 + int64(sc.ID)))
	log.Add(Ev{"e": "begin", "id": sc.ID})
	if sc.Op == "version" {
		b := make([]byte, len(sc.B))
		for i, x := range sc.B {
			b[i] = byte(x)
		}
		if len(b) == 0 && rnd.Intn(2) == 0 {
			b = nil
		}
		got := 0
		o, ok := guarded(hangLimit, func(o *outcome) {
			p, n, err := protocol.GetProtocol(b)
			if err == nil && p != nil {
				got = n
			}
		})
		log.Add(Ev{"e": "version", "b": sc.B, "got": got, "panic": !ok || o.panicv != nil})
		log.Add(Ev{"e": "end"})
		return log.Take()
	}
	a := sc.A
	params := map[string]interface{}{}
	var meta map[string]interface{}
	for _, p := range a.Params {
		params[p[0]] = int64(1)
	}
	if a.Meta != "{}" {
		meta = map[string]interface{}{"k": int64(1)}
	}
	if sc.Other {
		text := func(s *string) {
			if *s != "" {
				*s = strings.Map(func(r rune) rune {
					if r < ' ' {
						return 'x'
					}
					return r
				}, oddText(rnd, 1))
			}
		}
		text(&a.Client)
		text(&a.User)
		text(&a.Pass)
		text(&a.Realm)
		text(&a.DB)
		text(&a.Query)
		if len(params) > 0 {
			params = anyMap(rnd, 2)
		}
		if meta != nil {
			meta = anyMap(rnd, 2)
		}
		if a.Ms != 0 {
			a.Ms = 1 + rnd.Intn(1<<uint(rnd.Intn(31)))
		}
		if a.N > 0 {
			a.N = 1 + rnd.Intn(1<<uint(rnd.Intn(31)))
		}
		if a.Qid > 0 {
			a.Qid = 1 + rnd.Intn(1<<uint(rnd.Intn(31)))
		}
	}
	a.Params = pairsOf(params)
	a.Meta = inWords(meta)
	if meta == nil {
		a.Meta = "{}"
	}
	if len(params) == 0 && rnd.Intn(2) == 0 {
		params = nil
	}
	if meta == nil && rnd.Intn(2) == 0 {
		meta = map[string]interface{}{}
	}
	mode := bolt_mode.WriteMode
	if a.Mode == "r" {
		mode = bolt_mode.ReadMode
	}
	d := time.Duration(a.Ms) * time.Millisecond
	pd := &d
	if a.Ms == 0 && rnd.Intn(2) == 0 {
		pd = nil
	}
	var bare map[string]interface{}
	var st structures.Structure
	var payload []byte
	multi, absent := false, false
	o, ok := guarded(hangLimit, func(o *outcome) {
		var p protocol.IBoltProtocol
		if p, _, o.err = protocol.GetProtocol([]byte{0, 0, 0, byte(sc.V)}); o.err != nil {
			return
		}
		multi = p.SupportsMultiDatabase()
		token := func() map[string]interface{} {
			switch a.Auth {
			case "nil":
				return nil
			case "kerberos":
				return messages.BuildAuthTokenKerberos(a.Pass)
			case "realm":
				return messages.BuildAuthTokenBasicWithRealm(a.User, a.Pass, a.Realm)
			}
			if rnd.Intn(2) == 0 {
				return messages.BuildAuthTokenBasicWithRealm(a.User, a.Pass, "")
			}
			return messages.BuildAuthTokenBasic(a.User, a.Pass)
		}
		switch sc.Op {
		case "init":
			st = p.GetInitMessage(a.Client, token())
		case "begin":
			st = p.GetTxBeginMessage(a.DB, mode)
		case "commit":
			st = p.GetTxCommitMessage()
		case "rollback":
			st = p.GetTxRollbackMessage()
		case "run":
			st = p.GetRunMessage(a.Query, params, a.DB, mode, a.Auto)
		case "pull":
			st = p.GetPullAllMessage()
		case "discard":
			st = p.GetDiscardMessage(int64(a.Qid))
		case "discardall":
			st = p.GetDiscardAllMessage()
		case "close":
			var has bool
			if st, has = p.GetCloseMessage(); !has {
				absent = true
				return
			}
		case "reset":
			st = messages.NewResetMessage()
		case "txmeta":
			bare = messages.BuildTxMetadataWithDatabase(pd, meta, a.DB, mode, nil)
		case "txmeta0":
			bare = messages.BuildTxMetadata(pd, meta, mode, nil)
		case "autorun":
			st = messages.NewAutoCommitTxRunMessage(a.Query, params, d, meta, a.DB, mode)
		case "txrun":
			st = messages.NewUnmanagedTxRunMessage(a.Query, params)
		case "npull":
			st = messages.NewPullMessage(int64(a.N), int64(a.Qid))
		case "ndiscard":
			st = messages.NewDiscardMessage(int64(a.N), int64(a.Qid))
		case "auth":
			bare = token()
		}
		var v interface{} = st
		if st == nil {
			v = bare
		}
		if rnd.Intn(2) == 0 {
			// what others are constructed from in the meantime is of no concern
			messages.BuildTxMetadataWithDatabase(&d, map[string]interface{}{"other": true}, "other", bolt_mode.ReadMode, nil)
			p.GetRunMessage("OTHER", map[string]interface{}{"other": true}, "other", bolt_mode.ReadMode, true)
			p.GetInitMessage("OTHER", messages.BuildAuthTokenBasic("other", "other"))
		}
		payload, o.err = p.Marshal(v)
	})
	e := Ev{"e": "msg", "v": sc.V, "op": sc.Op, "a": a, "panic": !ok || o.panicv != nil, "err": ok && o.err != nil}
	sig, fs := 0, []Ev{}
	field := func(v interface{}) {
		switch x := v.(type) {
		case string:
			fs = append(fs, Ev{"t": "s", "s": x, "m": [][2]string{}})
		case map[string]interface{}:
			fs = append(fs, Ev{"t": "m", "s": "", "m": pairsOf(x)})
		default:
			fs = append(fs, Ev{"t": inWords(v), "s": "", "m": [][2]string{}})
		}
	}
	if ok && o.err == nil && o.panicv == nil && !absent {
		body := unchunk(payload)
		v, rest, err := psDec(body)
		if s, is := v.(*Struct); is && err == nil && len(rest) == 0 {
			sig = int(s.Sig)
			for _, f := range s.Fields {
				field(f)
			}
		} else if err == nil && len(rest) == 0 {
			field(v)
		} else {
			e["err"] = true
		}
	}
	e["got"] = Ev{"sig": sig, "fs": fs}
	log.Add(e)
	log.Add(Ev{"e": "multi", "v": sc.V, "got": multi})
	log.Add(Ev{"e": "end"})
	return log.Take()
}

// unchunk returns the payload of one message, or nil.
func unchunk(b []byte) []byte {
	var out []byte
	for len(b) >= 2 {
		n := int(b[0])<<8 | int(b[1])
		b = b[2:]
		if n == 0 {
			if len(b) != 0 {
				return nil
			}
			return out
		}
		if n > len(b) {
			return nil
		}
		out = append(out, b[:n]...)
		b = b[n:]
	}
	return nil
}
