package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/url"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	wwr "github.com/qbeon/webwire-go"
)

/* C11: the default session storage, C12: hostile session keys */

func init() {
	checks["C11"] = checkC11
	checks["C12"] = checkC12
	children["c11op"] = childC11Op
	children["c11storm"] = childC11Storm
	children["c11user"] = childC11User
	children["c12"] = childC12
	if len(os.Args) > 2 && os.Args[1] == "-child" && os.Args[2] == "c11op" {
		runtime.LockOSThread() // the traced thread does everything
	}
}

func checkC11(c *Ctx) {
	c.Cases("store", c.Scale(80, 1200), func(i int, r *Rng) { c11Store(r) })
	c.Cases("race", c.Scale(60, 1200), func(i int, r *Rng) { c11Race(r) })
	c.Cases("server-race", c.Scale(80, 1600), func(i int, r *Rng) { c11ServerRace(r) })
	c.Cases("partial", c.Scale(8, 120), func(i int, r *Rng) { c11Partial(r) })
	c.Cases("trace", c.Scale(16, 160), func(i int, r *Rng) { c11Trace(i, r) })
	c.Cases("storm", c.Scale(16, 320), func(i int, r *Rng) { c11Storm(r) })
	c.Cases("user", c.Scale(8, 32), func(i int, r *Rng) { c11User(i, r) })
	c.Cases("many", c.Scale(8, 160), func(i int, r *Rng) { c11Many(r) })
	c.Cases("generator", c.Scale(60, 800), func(i int, r *Rng) { c11Generator(i, r) })
}

// ssess is what's known about a stored session
type ssess struct {
	Creation time.Time
	Info     map[string]interface{}
	// bounds of the time of the last lookup (zero: equal to creation or the
	// exact time in Last)
	Lo, Hi time.Time
	Last   time.Time
}

func (s *ssess) okLast(t time.Time) bool {
	if !s.Lo.IsZero() {
		return !t.Before(s.Lo) && !t.After(s.Hi)
	}
	return t.Equal(s.Last)
}

func normMap(v map[string]interface{}) map[string]interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	return m
}

// wallNow returns the wall clock without monotonic part
func wallNow() time.Time { return time.Now().Round(0) }

func sessFiles(dir string) []string {
	l, _ := filepath.Glob(filepath.Join(dir, "*"))
	var out []string
	for _, f := range l {
		if strings.HasSuffix(f, ".wwrsess") {
			out = append(out, strings.TrimSuffix(filepath.Base(f), ".wwrsess"))
		}
	}
	sort.Strings(out)
	return out
}

// createSession creates a session on a new connection of the server
func c11Create(e *Env, cl *Client, info map[string]interface{}) (string, *ssess, error) {
	con := cl.Conn()
	var err error
	done := Go(func() { err = con.CreateSession(infoFrom(info)) })
	if !Await(e.Log, "return of CreateSession", done) {
		return "", nil, fmt.Errorf("stuck")
	}
	if err != nil {
		return "", nil, err
	}
	s := con.Session()
	if s == nil {
		return "", nil, fmt.Errorf("no session after successful creation")
	}
	return s.Key, &ssess{Creation: s.Creation, Info: normMap(info), Last: s.Creation}, nil
}

// checkRestored judges the reply to a restoration
func c11CheckReply(ref *Ref, key string, s *ssess) (string, time.Time) {
	var last time.Time
	if ref.Type != tReplyU8 && ref.Type != tReplyBin {
		return fmt.Sprintf("the stored session couldn't be restored, reply: %v", ref), last
	}
	if m := checkWire(ref.Payload, key, s.Creation, nil, s.Info); m != "" {
		return m, last
	}
	var w wireSession
	json.Unmarshal(ref.Payload, &w)
	if w.LastLookup == nil {
		return "no last lookup time in the reply", last
	}
	return "", *w.LastLookup
}

func c11CheckConn(con wwr.Connection, key string, s *ssess) string {
	if k := con.SessionKey(); k != key {
		return fmt.Sprintf("the connection has session %q instead of %q", k, key)
	}
	if !con.SessionCreation().Equal(s.Creation) {
		return fmt.Sprintf("the restored session was created at %v instead of %v", con.SessionCreation(), s.Creation)
	}
	ss := con.Session()
	if ss == nil {
		return "the connection has no session"
	}
	if got := wwr.SessionInfoToVarMap(ss.Info); !sameInfo(got, s.Info) {
		return fmt.Sprintf("the restored info is %s instead of %s", jsonNorm(got), jsonNorm(s.Info))
	}
	for f, v := range s.Info {
		if g := con.SessionInfo(f); jsonNorm(g) != jsonNorm(v) {
			return fmt.Sprintf("the restored info field %q is %s instead of %s", f, jsonNorm(g), jsonNorm(v))
		}
	}
	return ""
}

var c11Dirs int

func newDir(prefix string) string {
	c11Dirs++
	return filepath.Join(ctx.Scratch, fmt.Sprintf("%s-%d", prefix, c11Dirs))
}

// oddDir returns the name of a directory in base in one of many forms
func oddDir(base string, r *Rng) string {
	names := []string{"with spaces", "%d %s%n", "[a-z]*?", "\u00fcn\u00efc\u00f6d\u00e9", ".hidden", "x.wwrsess", "tmp", "a.b.c", "$HOME", "~", "-rf", "quo\"te's", strings.Repeat("long", 60), "line\nbreak", "back\\slash"}
	sub := filepath.Join(base, names[r.N(len(names))])
	switch r.N(12) {
	case 0, 1:
		return filepath.Join(base, "nested", "deep")
	case 2, 3, 4:
		return sub
	case 5:
		return base + "/"
	case 6:
		return filepath.Join(sub, "nested") + "//"
	case 7:
		return filepath.Dir(base) + "/./" + filepath.Base(base)
	case 8:
		if wd, err := os.Getwd(); err == nil {
			if rel, err := filepath.Rel(wd, sub); err == nil {
				return rel
			}
		}
	case 9:
		// a link to the directory
		os.MkdirAll(sub, 0750)
		if os.Symlink(sub, filepath.Join(base, "link")) == nil {
			return filepath.Join(base, "link")
		}
	}
	return base
}

// removeDir removes a directory below the scratch directory
func removeDir(dir string) {
	if strings.HasPrefix(dir, ctx.Scratch+"/") && ctx.Scratch != "" {
		os.RemoveAll(dir)
	}
}

// c11Store: random histories over several server instances on one directory
func c11Store(r *Rng) {
	dir := newDir("store")
	defer removeDir(dir)
	dir = oddDir(dir, r)
	model := map[string]*ssess{}
	closed := map[string]bool{}
	log := &EventLog{}
	bad := func(kind, f string, a ...interface{}) {
		ctx.Violate(kind, log.Dump(), f, a...)
	}
	keys := func() []string {
		var l []string
		for k := range model {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	instances := r.Range(2, 5)
	large := r.P(12)
	size := uint32(0)
	if large {
		size = 140000
	}
	for n := 0; n < instances; n++ {
		log.Add("server instance %d", n)
		e := NewEnv(EnvOpts{Memchan: r.P(50), Sessions: true, SM: wwr.NewDefaultSessionManager(dir), Log: log, BufSize: size})
		var conns []*Client
		for i := r.Range(2, 6); i > 0; i-- {
			c := e.MustDial(wwr.ConnectionOptions{})
			if c == nil {
				return
			}
			conns = append(conns, c)
		}
		restore := func(cl *Client, key string) (*Ref, time.Time, time.Time) {
			lo := wallNow()
			ref := cl.AwaitReply(sendRestore(cl, key))
			return ref, lo, wallNow()
		}
		holder := map[*Client]string{}
		for s := r.Range(4, 14); s > 0 && !ctx.Enough(); s-- {
			cl := conns[r.N(len(conns))]
			con := cl.Conn()
			switch k := r.N(10); {
			case k < 3: // create
				if holder[cl] != "" {
					continue
				}
				info := genInfo(r, 3)
				if large && r.P(70) {
					info = genLargeInfo(r, 130000)
				}
				if r.P(15) {
					info = nil
				}
				key, s, err := c11Create(e, cl, info)
				if err != nil {
					bad("creation-failed", "creating a session with the default session manager failed: %v (info %s)", err, jsonNorm(info))
					e.Shutdown()
					return
				}
				model[key] = s
				holder[cl] = key
				ctx.Eval(fmt.Sprintf("create info=%d inst=%d", len(s.Info), n))
			case k < 6: // restore a stored session
				ks := keys()
				if len(ks) == 0 {
					continue
				}
				key := ks[r.N(len(ks))]
				s := model[key]
				ref, lo, hi := restore(cl, key)
				if ref == nil {
					return
				}
				m, last := c11CheckReply(ref, key, s)
				if m == "" {
					m = c11CheckConn(con, key, s)
				}
				if m == "" && !s.okLast(last) {
					m = fmt.Sprintf("the reported last lookup %v isn't the time of the previous lookup (%v or within %v..%v)", last, s.Last, s.Lo, s.Hi)
				}
				if m != "" {
					bad("restore", "session %q created at %v, server instance %d: %s", key, s.Creation, n, m)
				}
				s.Lo, s.Hi = lo, hi
				holder[cl] = key
				ctx.Eval(fmt.Sprintf("restore info=%d inst=%d", len(s.Info), n))
			case k < 7: // simultaneous restorations
				ks := keys()
				if len(ks) == 0 {
					continue
				}
				key := ks[r.N(len(ks))]
				s := model[key]
				SetDelays(r.U64())
				lo := wallNow()
				var ids [][8]byte
				for _, c := range conns {
					ids = append(ids, sendRestore(c, key))
				}
				prev := 0
				for i, c := range conns {
					ref := c.AwaitReply(ids[i])
					if ref == nil {
						return
					}
					m, last := c11CheckReply(ref, key, s)
					if m == "" {
						m = c11CheckConn(c.Conn(), key, s)
					}
					if m == "" {
						if s.okLast(last) {
							prev++
						} else if now := wallNow(); last.Before(lo) || last.After(now) {
							m = fmt.Sprintf("the reported last lookup %v is neither the previous one nor within %v..%v", last, lo, now)
						}
					}
					if m != "" {
						bad("simultaneous-restore", "session %q, %d simultaneous restorations: %s", key, len(conns), m)
					}
					holder[c] = key
				}
				SetDelays(0)
				if prev == 0 {
					bad("simultaneous-restore", "none of %d simultaneous lookups of %q reports the previous lookup", len(conns), key)
				}
				s.Lo, s.Hi = lo, wallNow()
				ctx.Eval(fmt.Sprintf("simultaneous conns=%d info=%d", len(conns), len(s.Info)))
			case k < 8: // close
				key := holder[cl]
				if key == "" {
					continue
				}
				how := r.N(3)
				switch how {
				case 0:
					id := cl.NewID()
					cl.Send(encCloseSession(id))
					if cl.AwaitReply(id) == nil {
						return
					}
				case 1:
					if !Await(e.Log, "return of CloseSession", Go(func() { con.CloseSession() })) {
						return
					}
				default:
					if !Await(e.Log, "return of Server.CloseSession", Go(func() { e.Srv.CloseSession(key) })) {
						return
					}
					for c, k := range holder {
						if k == key {
							delete(holder, c)
						}
					}
				}
				delete(holder, cl)
				others := false
				for _, k := range holder {
					others = others || k == key
				}
				if !others {
					delete(model, key)
					closed[key] = true
				}
				ctx.Eval(fmt.Sprintf("close how=%d last=%v", how, !others))
			case k < 9: // closed and unknown sessions aren't found
				var l []string
				for k := range closed {
					l = append(l, k)
				}
				sort.Strings(l)
				key := wwr.NewDefaultSessionKeyGenerator().Generate()
				what := "unknown"
				if len(l) > 0 && r.P(80) {
					key = l[r.N(len(l))]
					what = "closed"
				}
				ref, _, _ := restore(cl, key)
				if ref == nil {
					return
				}
				if ref.Type != tReplyNotFound {
					bad("found-"+what, "the %s session %q was looked up by server instance %d, reply: %v", what, key, n, ref)
				}
				ctx.Eval("not found " + what)
			default: // reconnect
				cl.Disconnect(false)
				delete(holder, cl)
				if !Settle() { // the server has to notice it
					return
				}
				c := e.MustDial(wwr.ConnectionOptions{})
				if c == nil {
					return
				}
				for i := range conns {
					if conns[i] == cl {
						conns[i] = c
					}
				}
			}
		}
		if r.P(70) {
			if !e.Shutdown() {
				return
			}
		} else {
			for _, c := range conns {
				c.Disconnect(r.P(50))
			}
			Settle()
			defer e.Shutdown()
		}
	}
	// all stored sessions and no others are still there
	mng := wwr.NewDefaultSessionManager(dir)
	for k, s := range model {
		if m := c11Found(mng, k, s, true); m != "" {
			bad("lost", "after the last server instance: %s", m)
		}
	}
	for k := range closed {
		if res, err := mng.OnSessionLookup(k); res != nil || err != nil {
			bad("found-closed", "after the last server instance: the lookup of closed session %q returned %v, %v", k, res, err)
		}
	}
	ctx.Eval(fmt.Sprintf("history sessions=%d closed=%d instances=%d", len(model), len(closed), instances))
	ctx.Count("server instances", int64(instances))
}

func sendRestore(cl *Client, key string) [8]byte {
	id := cl.NewID()
	cl.Send(encRestore(id, key))
	return id
}

// c11Found looks a session up that must be stored
func c11Found(mng *wwr.DefaultSessionManager, key string, s *ssess, judgeLast bool) string {
	lo := wallNow()
	res, err := mng.OnSessionLookup(key)
	if err != nil {
		return fmt.Sprintf("the lookup of stored session %q failed: %v", key, err)
	}
	if res == nil {
		return fmt.Sprintf("stored session %q isn't found", key)
	}
	if !res.Creation().Equal(s.Creation) {
		return fmt.Sprintf("stored session %q has creation time %v instead of %v", key, res.Creation(), s.Creation)
	}
	if !sameInfo(res.Info(), s.Info) {
		return fmt.Sprintf("stored session %q has info %s instead of %s", key, jsonNorm(res.Info()), jsonNorm(s.Info))
	}
	if judgeLast && !s.okLast(res.LastLookup()) {
		return fmt.Sprintf("lookup of session %q reports the last lookup %v instead of %v or %v..%v", key, res.LastLookup(), s.Last, s.Lo, s.Hi)
	}
	s.Lo, s.Hi = lo, wallNow()
	return ""
}

// c11Fill stores sessions through a server and returns them
func c11Fill(dir string, r *Rng, n int) map[string]*ssess {
	e := NewEnv(EnvOpts{Memchan: true, Sessions: true, SM: wwr.NewDefaultSessionManager(dir)})
	out := map[string]*ssess{}
	for i := 0; i < n; i++ {
		c := e.MustDial(wwr.ConnectionOptions{})
		if c == nil {
			return nil
		}
		key, s, err := c11Create(e, c, genInfo(r, 3))
		if err != nil {
			ctx.Violate("creation-failed", e.Log.Dump(), "creating a session with the default session manager failed: %v", err)
			e.Shutdown()
			return nil
		}
		out[key] = s
	}
	if !e.Shutdown() {
		return nil
	}
	return out
}

func sortedKeys(m map[string]*ssess) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// c11Race: concurrent lookups of several sessions, some are closed meanwhile
func c11Race(r *Rng) {
	dir := newDir("race")
	defer removeDir(dir)
	all := c11Fill(dir, r, r.Range(1, 4))
	if all == nil {
		return
	}
	ks := sortedKeys(all)
	mng := wwr.NewDefaultSessionManager(dir)
	log := &EventLog{}
	var mu sync.Mutex
	closing := map[string]bool{}
	closedAt := map[string]bool{}
	var bads []string
	bad := func(f string, a ...interface{}) {
		mu.Lock()
		bads = append(bads, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	var dones []func() bool
	looks := int64(0)
	workers := r.Range(2, 6)
	for w := 0; w < workers; w++ {
		rr := r.Fork()
		n := rr.Range(5, 40)
		dones = append(dones, Go(func() {
			for i := 0; i < n; i++ {
				k := ks[rr.N(len(ks))]
				mu.Lock()
				before := closedAt[k]
				mu.Unlock()
				res, err := mng.OnSessionLookup(k)
				mu.Lock()
				cl := closing[k]
				looks++
				mu.Unlock()
				s := all[k]
				switch {
				case err != nil:
					bad("a concurrent lookup of %q failed: %v", k, err)
				case res == nil && !cl:
					bad("a concurrent lookup didn't find the stored session %q", k)
				case res != nil && before:
					bad("session %q was found although its closure had returned before", k)
				case res != nil && (!res.Creation().Equal(s.Creation) || !sameInfo(res.Info(), s.Info)):
					bad("a concurrent lookup returned another session: %v %s instead of %v %s", res.Creation(), jsonNorm(res.Info()), s.Creation, jsonNorm(s.Info))
				}
			}
		}))
	}
	nclose := r.Range(0, len(ks))
	closers := ks[:nclose]
	for _, k := range closers {
		k := k
		d := time.Duration(r.N(3000)) * time.Microsecond
		dones = append(dones, Go(func() {
			time.Sleep(d)
			mu.Lock()
			closing[k] = true
			mu.Unlock()
			if err := mng.OnSessionClosed(k); err != nil {
				bad("closing session %q failed: %v", k, err)
			}
			mu.Lock()
			closedAt[k] = true
			mu.Unlock()
		}))
	}
	for _, d := range dones {
		if !Await(log, "end of concurrent lookups and closures", d) {
			return
		}
	}
	mu.Lock()
	defer mu.Unlock()
	for _, b := range bads {
		ctx.Violate("concurrent-lookup", log.Dump(), "%s", b)
	}
	later := mng
	if r.P(50) {
		later = wwr.NewDefaultSessionManager(dir)
	}
	for i, k := range ks {
		if i < nclose {
			if res, err := later.OnSessionLookup(k); res != nil || err != nil {
				ctx.Violate("found-closed", nil, "session %q was closed while it was looked up concurrently, a later lookup returns %v, %v", k, res, err)
			}
		} else if m := c11Found(later, k, all[k], false); m != "" {
			ctx.Violate("lost", nil, "after concurrent lookups: %s", m)
		}
	}
	ctx.Count("concurrent lookups", looks)
	ctx.Eval(fmt.Sprintf("race workers=%d sessions=%d closed=%d", workers, len(ks), nclose))
}

// c11ServerRace: creations, closures and restorations through a server
func c11ServerRace(r *Rng) {
	dir := newDir("srvrace")
	defer removeDir(dir)
	log := &EventLog{}
	e := NewEnv(EnvOpts{Memchan: r.P(50), Sessions: true, SM: wwr.NewDefaultSessionManager(dir), Log: log})
	n := r.Range(2, 6)
	var cl []*Client
	for i := 0; i < n; i++ {
		c := e.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: -1})
		if c == nil {
			return
		}
		cl = append(cl, c)
	}
	for round := r.Range(1, 4); round > 0; round-- {
		SetDelays(r.U64())
		// the session is created and closed at the same time in some rounds
		info := genInfo(r, 2)
		var dones []func() bool
		mode := r.N(3)
		con := cl[0].Conn()
		key := ""
		var want *ssess
		var ids [][8]byte
		if mode == 0 {
			// closed during its creation
			var err error
			dones = append(dones, Go(func() { err = con.CreateSession(infoFrom(info)) }))
			id := cl[0].NewID()
			if r.P(50) {
				cl[0].Send(encCloseSession(id))
			} else {
				dones = append(dones, Go(func() { con.CloseSession() }))
			}
			for _, d := range dones {
				if !Await(log, "end of concurrent creation and closure", d) {
					return
				}
			}
			Settle()
			_ = err
		} else {
			var err error
			key, want, err = c11Create(e, cl[0], info)
			if err != nil {
				ctx.Violate("creation-failed", log.Dump(), "creating a session failed: %v", err)
				break
			}
			for _, c := range cl[1:] {
				ids = append(ids, sendRestore(c, key))
			}
			id := cl[0].NewID()
			switch r.N(3) {
			case 0:
				cl[0].Send(encCloseSession(id))
			case 1:
				dones = append(dones, Go(func() { con.CloseSession() }))
			default:
				dones = append(dones, Go(func() { e.Srv.CloseSession(key) }))
			}
			for _, d := range dones {
				if !Await(log, "end of a closure", d) {
					return
				}
			}
			for i, c := range cl[1:] {
				ref := c.AwaitReply(ids[i])
				if ref == nil {
					return
				}
				if ref.Type == tReplyNotFound {
					continue
				}
				if m, _ := c11CheckReply(ref, key, want); m != "" {
					ctx.Violate("racing-restore", log.Dump(), "restoration of %q racing with its closure: %s", key, m)
				}
			}
			Settle()
		}
		SetDelays(0)
		Settle()
		// close what's left
		for _, c := range cl {
			c := c
			if c.Conn().HasSession() {
				if !Await(log, "end of a closure", Go(func() { c.Conn().CloseSession() })) {
					return
				}
			}
		}
		Settle()
		if l := sessFiles(dir); len(l) > 0 {
			res, err := wwr.NewDefaultSessionManager(dir).OnSessionLookup(l[0])
			if res != nil || err != nil {
				ctx.Violate("found-closed", log.Dump(), "all sessions were closed (mode %d, key %q) but session %q is still stored: lookup %v, %v", mode, key, l[0], res, err)
			}
		}
		if key != "" {
			ref := cl[0].AwaitReply(sendRestore(cl[0], key))
			if ref == nil {
				return
			}
			if ref.Type != tReplyNotFound {
				ctx.Violate("found-closed", log.Dump(), "session %q was closed on all connections while being looked up, it's found afterwards: %v", key, ref)
			}
		}
		ctx.Eval(fmt.Sprintf("server race mode=%d conns=%d memchan=%v", mode, n, e.Mc != nil))
	}
	e.Shutdown()
}

/* failing and partial writes */

// the limit counts for the whole process: it's lowered for single calls while
// nothing else writes files
func withFileLimit(limit uint64, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	lim := old
	lim.Cur = limit
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

func c11Partial(r *Rng) {
	signal.Ignore(syscall.SIGXFSZ)
	dir := newDir("partial")
	defer removeDir(dir)
	all := c11Fill(dir, r, 2)
	if all == nil {
		return
	}
	ks := sortedKeys(all)
	key := ks[0]
	raw, err := os.ReadFile(filepath.Join(dir, key+".wwrsess"))
	size := 400
	if err == nil {
		size = len(raw)
	}
	if size > 600 {
		size = 600
	}
	mng := wwr.NewDefaultSessionManager(dir)
	failed := 0
	for k := 0; k <= size+1 && !ctx.Enough(); k++ {
		lo := wallNow()
		var res wwr.SessionLookupResult
		var lerr error
		withFileLimit(uint64(k), func() { res, lerr = mng.OnSessionLookup(key) })
		s := all[key]
		if lerr != nil {
			failed++
		} else if res == nil {
			ctx.Violate("partial-write", nil, "a lookup whose write failed after %d bytes didn't find the stored session %q", k, key)
		} else if !res.Creation().Equal(s.Creation) || !sameInfo(res.Info(), s.Info) {
			ctx.Violate("partial-write", nil, "a lookup whose write is limited to %d bytes returned other data", k)
		}
		// its time may have been recorded or not
		use := mng
		if k%2 == 1 {
			use = wwr.NewDefaultSessionManager(dir)
		}
		prev := *s
		res2, err2 := use.OnSessionLookup(key)
		now := wallNow()
		switch {
		case err2 != nil || res2 == nil:
			ctx.Violate("partial-write", nil, "after a lookup whose write failed after %d bytes (%v) the stored session %q can't be found anymore: %v, %v", k, lerr, key, res2, err2)
			return
		case !res2.Creation().Equal(s.Creation) || !sameInfo(res2.Info(), s.Info):
			ctx.Violate("partial-write", nil, "after a lookup whose write failed after %d bytes the session %q has changed: %v %s instead of %v %s", k, key, res2.Creation(), jsonNorm(res2.Info()), s.Creation, jsonNorm(s.Info))
			return
		default:
			ll := res2.LastLookup()
			okNew := !ll.Before(lo) && !ll.After(now)
			if lerr == nil && !okNew {
				ctx.Violate("partial-write", nil, "a successful lookup (file size limit %d) at %v wasn't recorded: %v", k, lo, ll)
			}
			if !okNew && !prev.okLast(ll) {
				ctx.Violate("partial-write", nil, "after a failed lookup the last lookup is %v", ll)
			}
		}
		s.Lo, s.Hi = lo, now
		ctx.Eval(fmt.Sprintf("file size limit %d of %d", k, size))
	}
	if m := c11Found(mng, ks[1], all[ks[1]], true); m != "" {
		ctx.Violate("lost", nil, "after failed writes of another session: %s", m)
	}
	ctx.Count("writes that failed on the file size limit", int64(failed))
}

/* crashes and failures at every system call of an operation */

type c11Result struct {
	Err   string
	Found bool
	Same  bool
	Key   string
	Sess  *ssess
}

// childC11Op: dir operation key creation info
func childC11Op(a []string) {
	dir, op, key := a[0], a[1], a[2]
	mng := wwr.NewDefaultSessionManager(dir)
	out := os.NewFile(3, "results")
	var want ssess
	json.Unmarshal([]byte(a[3]), &want)
	syscall.Access(filepath.Join(dir, "MARK-BEGIN"), 0)
	var res c11Result
	switch op {
	case "lookup":
		l, err := mng.OnSessionLookup(key)
		if err != nil {
			res.Err = err.Error()
		}
		res.Found = l != nil
		res.Same = l != nil && l.Creation().Equal(want.Creation) && sameInfo(l.Info(), want.Info)
	case "close":
		if err := mng.OnSessionClosed(key); err != nil {
			res.Err = err.Error()
		}
	case "create":
		if err := mng.OnSessionCreated(&stubConn{s: &wwr.Session{
			Key: key, Creation: want.Creation, LastLookup: want.Creation, Info: infoFrom(want.Info),
		}}); err != nil {
			res.Err = err.Error()
		}
	}
	syscall.Access(filepath.Join(dir, "MARK-END"), 0)
	json.NewEncoder(out).Encode(&res)
}

// stubConn hands a session to the creation hook
type stubConn struct {
	wwr.Connection
	s *wwr.Session
}

func (c *stubConn) Session() *wwr.Session               { return c.s.Clone() }
func (c *stubConn) SessionKey() string                  { return c.s.Key }
func (c *stubConn) HasSession() bool                    { return true }
func (c *stubConn) SessionCreation() time.Time          { return c.s.Creation }
func (c *stubConn) SessionInfo(name string) interface{} { return c.s.Info.Value(name) }

const c11Calls = "openat,open,creat,write,pwrite64,writev,rename,renameat,renameat2,unlink,unlinkat,ftruncate,truncate,fsync,fdatasync,fchmod,chmod,fchmodat,close,link,linkat,symlink,symlinkat,copy_file_range,sendfile,mkdir,mkdirat,rmdir,read,pread64,newfstatat,stat,fstat,statx,lseek,access,faccessat,faccessat2"

var c11CallName = regexp.MustCompile(`^(\w+)\(`)

// c11Exec runs the child, inject: system call, number of it, kind
func c11Exec(dir, op, key, want, inject string) (*c11Result, []string, bool) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	logf := dir + ".strace"
	defer os.Remove(logf)
	args := []string{"-o", logf, "-e", "trace=" + c11Calls, "-e", "signal=none"}
	if inject != "" {
		args = append(args, "-e", "inject="+inject)
	}
	args = append(args, exe, "-child", "c11op", dir, op, key, want)
	cmd := exec.Command("strace", args...)
	cmd.Env = append(os.Environ(), "GOGC=off", "GOMAXPROCS=2")
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	if err := cmd.Start(); err != nil {
		pw.Close()
		pr.Close()
		return nil, nil, false
	}
	pw.Close()
	out, _ := io.ReadAll(pr)
	pr.Close()
	cmd.Wait()
	var res *c11Result
	if len(out) > 0 {
		res = &c11Result{}
		if json.Unmarshal(out, res) != nil {
			res = nil
		}
	}
	b, err := os.ReadFile(logf)
	if err != nil {
		return nil, nil, false
	}
	return res, strings.Split(string(b), "\n"), true
}

func c11Trace(n int, r *Rng) {
	op := []string{"lookup", "create", "lookup", "close"}[n%4]
	fault := []string{"signal=KILL", "error=EIO", "error=ENOSPC"}[r.N(3)]
	if n%8 < 4 {
		fault = "signal=KILL"
	}
	dir := newDir("trace")
	defer removeDir(dir)
	all := c11Fill(dir, r, 2)
	if all == nil {
		return
	}
	ks := sortedKeys(all)
	prepare := func(i int) (key string, want *ssess) {
		switch op {
		case "lookup":
			return ks[0], all[ks[0]]
		case "create":
			key = fmt.Sprintf("created-%d-%d", n, i)
			return key, &ssess{Creation: wallNow(), Info: normMap(genInfo(r, 2))}
		}
		// the session to be closed
		key = fmt.Sprintf("to-close-%d-%d", n, i)
		want = &ssess{Creation: wallNow(), Info: normMap(genInfo(r, 2))}
		want.Last = want.Creation
		if err := wwr.NewDefaultSessionManager(dir).OnSessionCreated(&stubConn{s: &wwr.Session{
			Key: key, Creation: want.Creation, LastLookup: want.Creation, Info: infoFrom(want.Info),
		}}); err != nil {
			ctx.Violate("creation-failed", nil, "storing session %q failed: %v", key, err)
		}
		return
	}
	arg := func(s *ssess) string {
		b, _ := json.Marshal(s)
		return string(b)
	}
	// which system calls does the operation make?
	key, want := prepare(-1)
	lo := wallNow()
	res, lines, ok := c11Exec(dir, op, key, arg(want), "")
	if op == "lookup" {
		want.Lo, want.Hi = lo, wallNow()
	}
	if !ok || len(lines) < 3 {
		ctx.Count("system calls can't be traced here", 1)
		return
	}
	if res == nil || res.Err != "" || (op == "lookup" && !res.Same) {
		ctx.Violate("operation-failed", lines, "%s of %q without faults: %+v", op, key, res)
		return
	}
	count := map[string]int{}
	var points []string
	in := false
	for _, l := range lines {
		if strings.Contains(l, "MARK-END") {
			in = false
		}
		m := c11CallName.FindStringSubmatch(l)
		if m != nil {
			count[m[1]]++
			if in {
				points = append(points, fmt.Sprintf("%s:%d", m[1], count[m[1]]))
			}
		}
		if strings.Contains(l, "MARK-BEGIN") {
			in = true
		}
	}
	if len(points) == 0 {
		ctx.Violate("operation-failed", lines, "%s of %q made no system call", op, key)
		return
	}
	ctx.Max("system calls of one operation", int64(len(points)))
	for i, p := range points {
		if ctx.Enough() {
			return
		}
		name, num, _ := strings.Cut(p, ":")
		key, want := prepare(i)
		lo := wallNow()
		res, lines, ok := c11Exec(dir, op, key, arg(want), name+":"+fault+":when="+num)
		hi := wallNow()
		if !ok {
			ctx.Count("system calls can't be traced here", 1)
			return
		}
		if len(lines) > 40 {
			lines = lines[len(lines)-40:]
		}
		killed := res == nil
		if killed && fault != "signal=KILL" {
			ctx.Violate("crash-on-failure", lines, "%s crashed because %s %s failed (%s)", op, name, num, fault)
		}
		desc := fmt.Sprintf("%s, fault at system call %d of %d (%s, %s)", op, i+1, len(points), p, fault)
		mng := wwr.NewDefaultSessionManager(dir)
		// sessions that were stored before
		for _, k := range ks {
			s := all[k]
			prev := *s
			l, err := mng.OnSessionLookup(k)
			now := wallNow()
			if err != nil || l == nil || !l.Creation().Equal(s.Creation) || !sameInfo(l.Info(), s.Info) {
				ctx.Violate("lost", lines, "%s: stored session %q isn't intact afterwards: %v, %v", desc, k, l, err)
				return
			}
			ll := l.LastLookup()
			isNew := op == "lookup" && k == key && !ll.Before(lo) && !ll.After(hi)
			if !isNew && !prev.okLast(ll) {
				ctx.Violate("last-lookup", lines, "%s: lookup of %q reports the last lookup %v", desc, k, ll)
			}
			if op == "lookup" && k == key && res != nil && res.Err == "" && res.Found && !isNew {
				ctx.Violate("last-lookup", lines, "%s: the lookup succeeded but wasn't recorded", desc)
			}
			s.Lo, s.Hi = lo, now
			s.Lo = hi
		}
		if res != nil && op == "lookup" && res.Err == "" && res.Found && !res.Same {
			ctx.Violate("wrong-session", lines, "%s: the lookup returned other data", desc)
		}
		switch op {
		case "create":
			l, err := mng.OnSessionLookup(key)
			if res != nil && res.Err == "" && (err != nil || l == nil) {
				ctx.Violate("lost", lines, "%s: the creation of %q succeeded but the session isn't found: %v", desc, key, err)
			}
			if l != nil && (!l.Creation().Equal(want.Creation) || !sameInfo(l.Info(), want.Info)) {
				ctx.Violate("wrong-session", lines, "%s: the created session is %v %s instead of %v %s", desc, l.Creation(), jsonNorm(l.Info()), want.Creation, jsonNorm(want.Info))
			}
		case "close":
			l, err := mng.OnSessionLookup(key)
			if res != nil && res.Err == "" && l != nil {
				ctx.Violate("found-closed", lines, "%s: the closure of %q succeeded but the session is still found", desc, key)
			}
			if err != nil || (l != nil && (!l.Creation().Equal(want.Creation) || !sameInfo(l.Info(), want.Info))) {
				ctx.Violate("lost", lines, "%s: session %q is corrupt afterwards: %v %v", desc, key, l, err)
			}
			if l != nil {
				if err := mng.OnSessionClosed(key); err != nil {
					ctx.Violate("operation-failed", lines, "%s: session %q can't be closed afterwards: %v", desc, key, err)
				}
				if l, err := mng.OnSessionLookup(key); l != nil || err != nil {
					ctx.Violate("found-closed", lines, "%s: closed session %q is found: %v, %v", desc, key, l, err)
				}
			}
		}
		ctx.Count("crashes and failures at single system calls", 1)
		if killed {
			ctx.Count("processes killed at single system calls", 1)
		}
		ctx.Eval(fmt.Sprintf("trace %s %s %d/%d", op, fault, i, len(points)))
	}
}

/* kills at random moments */

// childC11Storm: dir seed; writes one line per begun and finished operation
func childC11Storm(a []string) {
	dir := a[0]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	r := NewRng(seed)
	mng := wwr.NewDefaultSessionManager(dir)
	out := os.NewFile(3, "events")
	var mu sync.Mutex
	put := func(kind, key string, s *ssess) {
		b, _ := json.Marshal(s)
		mu.Lock()
		fmt.Fprintf(out, "%s\t%s\t%s\n", kind, key, b)
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for w := 0; w < 3; w++ {
		rr := r.Fork()
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			own := map[string]*ssess{}
			for n := 0; n < 100000; n++ {
				ks := sortedKeys(own)
				switch k := rr.N(10); {
				case k < 2 || len(ks) == 0:
					key := fmt.Sprintf("k%d-%d", w, n)
					s := &ssess{Creation: wallNow(), Info: normMap(genInfo(rr, 2))}
					if rr.P(20) {
						s.Info["long"] = strings.Repeat("x", rr.Range(1000, 20000))
					}
					if err := mng.OnSessionCreated(&stubConn{s: &wwr.Session{
						Key: key, Creation: s.Creation, LastLookup: s.Creation, Info: infoFrom(s.Info)}}); err != nil {
						put("error", key, s)
						continue
					}
					put("created", key, s)
					own[key] = s
				case k < 9:
					key := ks[rr.N(len(ks))]
					res, err := mng.OnSessionLookup(key)
					if err != nil || res == nil || !res.Creation().Equal(own[key].Creation) || !sameInfo(res.Info(), own[key].Info) {
						put("error", key, own[key])
					}
				default:
					key := ks[rr.N(len(ks))]
					put("closing", key, nil)
					if err := mng.OnSessionClosed(key); err != nil {
						put("error", key, nil)
					}
					put("closed", key, nil)
					delete(own, key)
				}
			}
		}()
	}
	wg.Wait()
}

func c11Storm(r *Rng) {
	dir := newDir("storm")
	defer removeDir(dir)
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, "-child", "c11storm", dir, fmt.Sprint(r.U64()))
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	var errBuf bytes.Buffer
	cmd.Stderr = &errBuf
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	pw.Close()
	rd := bufio.NewReaderSize(pr, 1<<16)
	first, _ := rd.ReadString('\n') // the child is running
	wait := time.Duration(r.Range(1, 60000)) * time.Microsecond
	t := time.AfterFunc(wait, func() { cmd.Process.Kill() })
	rest, _ := io.ReadAll(rd)
	pr.Close()
	cmd.Wait()
	t.Stop()
	childRaces(errBuf.String())
	stored := map[string]*ssess{}
	begun := map[string]bool{}
	gone := map[string]bool{}
	n := 0
	for _, l := range strings.Split(first+string(rest), "\n") {
		f := strings.SplitN(l, "\t", 3)
		if len(f) < 3 {
			continue
		}
		n++
		switch f[0] {
		case "created":
			s := &ssess{}
			if json.Unmarshal([]byte(f[2]), s) != nil {
				continue // torn line
			}
			stored[f[1]] = s
		case "closing":
			begun[f[1]] = true
		case "closed":
			gone[f[1]] = true
		case "error":
			ctx.Violate("operation-failed", []string{l}, "an operation on session %q failed without faults", f[1])
			return
		}
	}
	mng := wwr.NewDefaultSessionManager(dir)
	for _, k := range sortedKeys(stored) {
		l, err := mng.OnSessionLookup(k)
		s := stored[k]
		switch {
		case gone[k]:
			if l != nil || err != nil {
				ctx.Violate("found-closed", nil, "session %q was closed before the process was killed, lookup: %v, %v", k, l, err)
			}
		case begun[k] && l == nil && err == nil:
		case err != nil || l == nil || !l.Creation().Equal(s.Creation) || !sameInfo(l.Info(), s.Info):
			ctx.Violate("lost", nil, "session %q was stored before the process was killed (after %v), it's lost or corrupt: %v, %v", k, wait, l, err)
		}
		ctx.Eval(fmt.Sprintf("storm gone=%v begun=%v info=%d", gone[k], begun[k], len(s.Info)))
	}
	ctx.Count("processes killed at random moments", 1)
	ctx.Count("operations before the kills", int64(n))
}

/* ordinary user */

type userReport struct {
	Problem string
	Steps   []string
}

// childC11User: directory; the server runs as an ordinary user and creates
// the session directory itself
func childC11User(a []string) {
	var rep userReport
	defer func() {
		if e := recover(); e != nil {
			rep.Problem = fmt.Sprintf("panic: %v", e)
		}
		json.NewEncoder(os.Stdout).Encode(&rep)
	}()
	ctx = &Ctx{distinct: map[uint64]struct{}{}}
	ctx.rep.Counters = map[string]int64{}
	dir, mode := a[0], a[1]
	umask, _ := strconv.ParseInt(a[2], 8, 32)
	syscall.Umask(int(umask))
	info := map[string]interface{}{"user": "x", "n": 12.5}
	var key string
	var s *ssess
	for inst := 0; inst < 3; inst++ {
		var sm wwr.SessionManager
		if mode == "explicit" {
			sm = wwr.NewDefaultSessionManager(dir)
		} // otherwise the server sets its default manager up
		e := NewEnv(EnvOpts{Memchan: true, Sessions: true, SM: sm})
		cl := e.MustDial(wwr.ConnectionOptions{})
		if cl == nil {
			rep.Problem = "no connection"
			return
		}
		if inst == 0 {
			var err error
			key, s, err = c11Create(e, cl, info)
			if err != nil {
				rep.Problem = fmt.Sprintf("the session couldn't be created: %v", err)
				return
			}
			rep.Steps = append(rep.Steps, "created")
		} else {
			ref := cl.AwaitReply(sendRestore(cl, key))
			if ref == nil {
				rep.Problem = "no reply"
				return
			}
			if m, _ := c11CheckReply(ref, key, s); m != "" {
				rep.Problem = fmt.Sprintf("server instance %d: %s", inst, m)
				return
			}
			rep.Steps = append(rep.Steps, "restored")
		}
		if inst == 2 {
			Await(e.Log, "closure", Go(func() { cl.Conn().CloseSession() }))
			if ref := cl.AwaitReply(sendRestore(cl, key)); ref == nil || ref.Type != tReplyNotFound {
				rep.Problem = fmt.Sprintf("the closed session was looked up: %v", ref)
				return
			}
			rep.Steps = append(rep.Steps, "closed")
		}
		e.Shutdown()
	}
	if len(ctx.rep.Violations) > 0 {
		rep.Problem = ctx.rep.Violations[0].Detail
	}
}

// childRaces hands race reports of a child process to the runner
func childRaces(stderr string) {
	if strings.Contains(stderr, "DATA RACE") {
		c11Dirs++
		os.WriteFile(fmt.Sprintf("race.child-%d", c11Dirs), []byte(stderr), 0644)
	}
}

const nobody = 65534

// asNobody prepares a command to run as an ordinary user
func asNobody(cmd *exec.Cmd) {
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	cmd.Dir = "/"
	cmd.Env = append(os.Environ(), "HOME=/", "TMPDIR=/nonexistent", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 log_path=stderr")
}

func c11User(i int, r *Rng) {
	if os.Getuid() != 0 {
		ctx.Count("ordinary user not available", 1)
		return
	}
	base := newDir("user")
	defer removeDir(base)
	if os.Mkdir(base, 0755) != nil || os.Chown(base, nobody, nobody) != nil {
		ctx.Count("ordinary user not available", 1)
		return
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	mode := []string{"explicit", "default"}[i/2%2]
	umask := []string{"022", "077", "027", "002"}[i%4]
	dir := filepath.Join(base, []string{"sessions", "a/b/sessions"}[r.N(2)])
	cmd := exec.Command(exe, "-child", "c11user", dir, mode, umask)
	asNobody(cmd)
	if mode == "default" {
		// the default directory lies beside the executable
		cmd.Args[0] = filepath.Join(base, "server")
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		ctx.Count("ordinary user not available", 1)
		return
	}
	cmd.Wait()
	var rep userReport
	if err := json.Unmarshal(out.Bytes(), &rep); err != nil {
		ctx.Violate("user-crash", strings.Split(errb.String(), "\n"), "a server with the default session manager crashed when run by an ordinary user: %v", err)
		return
	}
	childRaces(errb.String())
	if rep.Problem != "" {
		ctx.Violate("ordinary-user", rep.Steps, "run by an ordinary user (umask %s, %s directory): %s", umask, mode, rep.Problem)
	}
	ctx.Count("runs by an ordinary user", 1)
	ctx.Eval(fmt.Sprintf("user mode=%s umask=%s", mode, umask))
}

/* C12 */

func checkC12(c *Ctx) {
	c.Cases("keys", c.Scale(16, 64), func(i int, r *Rng) { c12Keys(i, r) })
}

type c12Reply struct {
	Type    int
	Payload string
	Closed  bool
	Probe   string
}

// childC12: a server on the directory; keys are read from the standard input
func childC12(a []string) {
	ctx = &Ctx{distinct: map[uint64]struct{}{}}
	ctx.rep.Counters = map[string]int64{}
	if len(a) > 2 && a[2] == "chdir" {
		os.Chdir(a[0])
		a[0] = "."
	}
	e := NewEnv(EnvOpts{Memchan: true, Sessions: true, SM: wwr.NewDefaultSessionManager(a[0]), LogOff: true})
	cl := e.MustDial(wwr.ConnectionOptions{})
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	enc := json.NewEncoder(os.Stdout)
	fmt.Println("ready")
	for {
		l, err := in.ReadString('\n')
		if err != nil {
			break
		}
		key, err := base64.StdEncoding.DecodeString(strings.TrimSpace(l))
		if err != nil {
			break
		}
		id := sendRestore(cl, string(key))
		var rep c12Reply
		for k := 0; ; k++ {
			if rs := cl.ReplyTo(id); len(rs) > 0 {
				rep.Type = int(rs[0].Ref.Type)
				rep.Payload = string(rs[0].Ref.Payload)
				break
			}
			if cl.ServerClosed() {
				rep.Closed = true
				break
			}
			if k > 200000 {
				rep.Probe = "no reply"
				break
			}
			time.Sleep(50 * time.Microsecond)
		}
		// another connection is still served
		if rep.Closed || cl.NumReceived() > 200 {
			cl.Disconnect(false)
			cl = e.MustDial(wwr.ConnectionOptions{})
			if cl == nil {
				rep.Probe = "the server refuses connections"
			}
		}
		if cl != nil {
			if ref := cl.Call([]byte("probe"), 0, []byte("x")); ref == nil || ref.Type != tReplyBin {
				rep.Probe = fmt.Sprintf("a request isn't answered anymore: %v", ref)
			}
			if rep.Type == tReplyBin || rep.Type == tReplyU8 {
				// leave the session, but don't close it
				cl.Disconnect(false)
				cl = e.MustDial(wwr.ConnectionOptions{})
			}
		}
		enc.Encode(&rep)
		if cl == nil {
			break
		}
	}
	e.Shutdown()
}

type fileState struct {
	Mode  os.FileMode
	Mtime time.Time
	Data  string
}

func snapshot(root string) map[string]fileState {
	out := map[string]fileState{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		s := fileState{Mode: fi.Mode()}
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s.Data = string(b)
			s.Mtime = fi.ModTime()
		}
		out[p] = s
		return nil
	})
	return out
}

// hostileKey makes a key out of the names of files in and around the directory
func hostileKey(r *Rng, valid, outer []string, root string) string {
	ups := func() string { return strings.Repeat("../", r.Range(1, 3)) }
	name := func() string {
		if r.P(50) {
			return valid[r.N(len(valid))]
		}
		return outer[r.N(len(outer))]
	}
	v := valid[r.N(len(valid))]
	switch r.N(40) {
	case 26:
		return v + string(r.Name(r.Range(1, 120)))
	case 27:
		return string(r.Name(r.Range(1, 9))) + v
	case 28:
		return v + v
	case 29:
		i := r.N(len(v))
		return v[:i] + string(r.Name(1)) + v[i+1:]
	case 30:
		i := r.N(len(v))
		return v[:i] + []string{" ", "\t", "\r", "\n", "\x01", "\x7f", ".", "\xc2\xad", "\xe2\x80\x8b", "\xff", "-", "_", "="}[r.N(13)] + v[i:]
	case 31:
		return v[:r.Range(1, len(v))]
	case 32:
		return v[r.N(len(v)):]
	case 33:
		return strings.ToLower(v)
	case 34:
		return url.PathEscape(v)
	case 35:
		u, err := url.QueryUnescape(v)
		if err != nil {
			return v + "%"
		}
		return u
	case 36:
		return strings.NewReplacer("-", "+", "_", "/", "+", "-", " ", "+").Replace(v)
	case 37:
		// one letter in the other case
		i := r.N(len(v))
		c := strings.ToUpper(v[i : i+1])
		if c == v[i:i+1] {
			c = strings.ToLower(c)
		}
		return v[:i] + c + v[i+1:]
	case 38:
		return []string{"", " ", "\n", "\x00", ".", "\ufeff"}[r.N(6)] + v + []string{"\n", "\r\n", "\t", "\x00\x00", ".", "~", ".bak", ".tmp", "\u00a0"}[r.N(9)]
	case 39:
		// decomposed and composed letters
		return strings.NewReplacer("\u00fc", "u\u0308", "u", "\u00fc", "k", "\u212a", "s", "\u017f").Replace(v)
	case 0:
		return ups() + name()
	case 1:
		return "./" + v
	case 2:
		return v + "/../" + valid[r.N(len(valid))]
	case 3:
		return "nosuch/../" + v
	case 4:
		return ups() + "sessions/" + v
	case 5:
		return "/" + v
	case 6:
		return filepath.Join(root, name())
	case 7:
		return filepath.Join(root, "sessions", v)
	case 8:
		return "../sibling/" + name()
	case 9:
		return name() + "\x00"
	case 10:
		return ups() + name() + "\x00" + string(r.Name(3))
	case 11:
		return v + ".wwrsess"
	case 12:
		return strings.Replace(ups(), "/", "\\", -1) + name()
	case 13:
		return strings.Replace(ups(), "/", "%2f", -1) + name()
	case 14:
		return "%2e%2e%2f" + name()
	case 15:
		return []string{".", "..", "...", "/", "//", "../", "./", "~", "*", "?", " ", "-", "\n", "%00", "../..", "..\\", "../.", ".wwrsess"}[r.N(18)]
	case 16:
		return v + strings.Repeat(" ", r.Range(1, 3))
	case 17:
		return strings.ToUpper(v)
	case 18:
		if len(v) < 2 {
			return v + "x"
		}
		return v[:len(v)-1]
	case 19:
		return "//" + v
	case 20:
		return v + "/"
	case 21:
		return strings.Repeat("A", r.Pick(200, 240, 246, 247, 248, 255, 256, 300, 4096, 5000))
	case 22:
		return strings.Repeat("../", r.Range(1, 3)) + strings.Repeat("x/../", r.Range(1, 300)) + name()
	case 23:
		return string(r.Bytes(r.Range(1, 40)))
	case 24:
		return "..//" + name()
	}
	// random mixture
	frag := []string{"..", "/", ".", "\\", "\x00", v, name(), "sessions", "sibling", "sub", "%2e", "é", " "}
	s := ""
	for i := r.Range(1, 8); i > 0; i-- {
		s += frag[r.N(len(frag))]
	}
	return s
}

func c12Keys(n int, r *Rng) {
	base := newDir("keys")
	defer removeDir(base)
	// ../../.. from the session directory stays within base
	root := filepath.Join(base, "l1", "l2", "l3", "root")
	dir := filepath.Join(root, "sessions")
	if err := os.MkdirAll(dir, 0777); err != nil {
		panic(err)
	}
	write := func(p, data string) {
		if err := os.MkdirAll(filepath.Dir(p), 0777); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(data), 0666); err != nil {
			panic(err)
		}
	}
	content := func(who string) string {
		b, _ := json.Marshal(map[string]interface{}{"c": "2018-01-02T03:04:05Z", "l": "2018-01-02T03:04:06Z", "i": map[string]interface{}{"who": who}})
		return string(b)
	}
	valid := []string{}
	stored := map[string]string{}
	gen := wwr.NewDefaultSessionKeyGenerator().Generate()
	keys := []string{"valid", "other", "secret", gen}
	// keys of custom generators
	more := []string{
		"Valid.Key", "with space", "a.b.c", ".hidden", "trailing.", "dash-under_score", "UPPER", "12345", "%41bc", "plus+equals=",
		"schl\u00fcssel", "\u65e5\u672c", "key.wwrsess.old", "tab\tkey", "quote\"key'", "-rf", "a,b;c:d", "k~1", "*", "q?",
		strings.Repeat("long", 25), strings.Repeat("L", 130) + "x", strings.Repeat("0123456789", 20) + "end", strings.Repeat("m", 240),
	}
	for k := r.Range(2, 5); k > 0; k-- {
		j := r.N(len(more))
		keys = append(keys, more[j])
		more = append(more[:j], more[j+1:]...)
	}
	for i, k := range keys {
		stored[k] = "stored " + k
		// a session that was stored by an earlier instance
		if err := wwr.NewDefaultSessionManager(dir).OnSessionCreated(&stubConn{s: &wwr.Session{
			Key: k, Creation: wallNow(), LastLookup: wallNow(), Info: infoFrom(map[string]interface{}{"who": stored[k]}),
		}}); err != nil {
			if i < 4 {
				ctx.Violate("creation-failed", nil, "storing session %q failed: %v", k, err)
				return
			}
			// the storage doesn't take such keys
			delete(stored, k)
			ctx.Count("keys refused by the storage", 1)
			continue
		}
		valid = append(valid, k)
	}
	outer := []string{"secret", "outer", "hidden", "valid"}
	for _, d := range []string{root, filepath.Join(root, "sibling"), filepath.Join(base, "l1", "l2", "l3"), filepath.Join(base, "l1", "l2")} {
		for _, o := range outer {
			write(filepath.Join(d, o+".wwrsess"), content("outside "+d))
			write(filepath.Join(d, o), content("outside "+d))
		}
		write(filepath.Join(d, ".wwrsess"), content("outside "+d))
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	args := []string{"-child", "c12", dir, "x"}
	if n%4 == 3 {
		args = append(args, "chdir")
	}
	cmd := exec.Command(exe, args...)
	user := "root"
	if os.Getuid() == 0 {
		filepath.Walk(base, func(p string, _ os.FileInfo, _ error) error { return os.Chown(p, nobody, nobody) })
		asNobody(cmd)
		user = "nobody"
	}
	stdin, _ := cmd.StdinPipe()
	stdout, _ := cmd.StdoutPipe()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		if user == "nobody" {
			ctx.Count("ordinary user not available", 1)
		}
		return
	}
	stop := func() {
		stdin.Close()
		cmd.Wait()
	}
	rd := bufio.NewReaderSize(stdout, 1<<16)
	if l, _ := rd.ReadString('\n'); strings.TrimSpace(l) != "ready" {
		stop()
		ctx.Violate("server-crash", strings.Split(errb.String(), "\n"), "the server with the default session manager couldn't be started (as %s): %q", user, l)
		return
	}
	// watch everything outside of the session directory
	inside := func(p string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }
	before := snapshot(base)
	watch, err := newWatch()
	if err != nil {
		ctx.Count("inotify not available", 1)
	} else {
		defer watch.close()
		for p, s := range before {
			if s.Mode.IsDir() && p != dir {
				watch.add(p)
			}
		}
		watch.drain()
	}
	ask := func(key string) (*c12Reply, bool) {
		fmt.Fprintf(stdin, "%s\n", base64.StdEncoding.EncodeToString([]byte(key)))
		l, err := rd.ReadString('\n')
		var rep c12Reply
		if err != nil || json.Unmarshal([]byte(l), &rep) != nil {
			stdin.Close()
			io.Copy(io.Discard, rd)
			cmd.Wait()
			ctx.Violate("server-crash", strings.Split(errb.String(), "\n"), "the server crashed on the restoration of key %q", key)
			return nil, false
		}
		if rep.Probe != "" {
			ctx.Violate("server-disturbed", nil, "after the restoration of key %q: %s", key, rep.Probe)
		}
		return &rep, true
	}
	good := func(key string) bool {
		rep, ok := ask(key)
		if !ok {
			return false
		}
		var w wireSession
		if rep.Type != tReplyU8 && rep.Type != tReplyBin || json.Unmarshal([]byte(rep.Payload), &w) != nil || w.Key == nil || *w.Key != key || w.Info["who"] != stored[key] {
			ctx.Violate("stored-session", nil, "the stored session %q couldn't be restored: type %d %q closed %v", key, rep.Type, rep.Payload, rep.Closed)
			return false
		}
		return true
	}
	rounds := ctx.Scale(220, 2500)
	types := map[string]int64{}
	for i := 0; i < rounds && !ctx.Enough(); i++ {
		if i%25 == 0 && !good(valid[r.N(len(valid))]) {
			break
		}
		key := hostileKey(r, valid, outer, root)
		if _, ok := stored[key]; ok {
			continue
		}
		rep, ok := ask(key)
		if !ok {
			return
		}
		switch {
		case rep.Closed && len(key) == 0:
		case rep.Closed:
			ctx.Violate("connection-closed", nil, "the connection was closed on the restoration of key %q", key)
		case rep.Type != tReplyNotFound && rep.Type != tReplyInternal:
			ctx.Violate("session-returned", nil, "the restoration of key %q, which was never stored, got a reply of type %d %q", key, rep.Type, rep.Payload)
		case len(rep.Payload) > 0:
			ctx.Violate("detail", nil, "the reply to the restoration of key %q carries %q", key, rep.Payload)
		}
		types[typeName(byte(rep.Type))]++
		if watch != nil {
			if ev := watch.drain(); len(ev) > 0 {
				ctx.Violate("outside-access", ev, "the restoration of key %q accessed files outside of the session directory: %v", key, ev)
			}
		}
		ctx.Eval(fmt.Sprintf("key %q %d", keyShape(key, valid, outer), rep.Type))
	}
	for _, k := range valid {
		if !good(k) {
			break
		}
	}
	stop()
	childRaces(errb.String())
	after := snapshot(base)
	for p, s := range before {
		if inside(p) {
			if a, ok := after[p]; !ok || (s.Mode.IsRegular() && len(a.Data) == 0) {
				ctx.Violate("stored-session", nil, "file %s was deleted or emptied", strings.TrimPrefix(p, base))
			}
			continue
		}
		a, ok := after[p]
		if !ok {
			ctx.Violate("outside-delete", nil, "%s outside of the session directory was deleted", strings.TrimPrefix(p, base))
		} else if a != s {
			ctx.Violate("outside-modify", nil, "%s outside of the session directory was modified", strings.TrimPrefix(p, base))
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok && !inside(p) {
			ctx.Violate("outside-create", nil, "%s outside of the session directory was created", strings.TrimPrefix(p, base))
		}
	}
	for t, k := range types {
		ctx.Count("replies "+t, k)
	}
	ctx.Count("servers run as "+user, 1)
}

// keyShape abstracts a key
func keyShape(k string, valid, outer []string) string {
	for _, v := range append(append([]string{}, valid...), outer...) {
		k = strings.Replace(k, v, "N", -1)
	}
	if len(k) > 24 {
		k = fmt.Sprintf("%s..%d", k[:24], len(k)/50)
	}
	return k
}

/* inotify */

type watcher struct {
	fd    int
	names map[int32]string
}

func newWatch() (*watcher, error) {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil, err
	}
	return &watcher{fd: fd, names: map[int32]string{}}, nil
}

func (w *watcher) add(p string) {
	wd, err := syscall.InotifyAddWatch(w.fd, p, syscall.IN_ACCESS|syscall.IN_MODIFY|syscall.IN_ATTRIB|
		syscall.IN_OPEN|syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO)
	if err == nil {
		w.names[int32(wd)] = p
	}
}

func (w *watcher) drain() (out []string) {
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(w.fd, buf)
		if err != nil || n <= 0 {
			return
		}
		for off := 0; off+syscall.SizeofInotifyEvent <= n; {
			ev := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[off]))
			name := strings.TrimRight(string(buf[off+syscall.SizeofInotifyEvent:off+syscall.SizeofInotifyEvent+int(ev.Len)]), "\x00")
			off += syscall.SizeofInotifyEvent + int(ev.Len)
			out = append(out, fmt.Sprintf("mask %x %s/%s", ev.Mask, w.names[ev.Wd], name))
		}
	}
}

func (w *watcher) close() { syscall.Close(w.fd) }

// createdSM records the result of the creation hook
type createdSM struct {
	wwr.SessionManager
	err error
}

func (s *createdSM) OnSessionCreated(c wwr.Connection) error {
	s.err = s.SessionManager.OnSessionCreated(c)
	return s.err
}

// c11Generator: sessions with the keys of a custom generator are stored or
// the storage reports a failure
func c11Generator(i int, r *Rng) {
	dir := newDir("generator")
	defer removeDir(dir)
	odd := []string{
		"plain", "A", "a", "with space", " ", "\t", "tab\tkey", "line\nbreak", ".", "..", "...", "-", "--", "*", "?", "%2F", "%", "~", "$HOME",
		"a/b", "/a", "a/", "../e", "..\\e", "a\\b", "a\x00b", "", "key.wwrsess", ".wwrsess", "κλειδί", "鍵", "x'\"`<>&|;", "0", "null", "{}", "[]",
		strings.Repeat("k", 200), strings.Repeat("k", 247), strings.Repeat("k", 248), strings.Repeat("k", 4000), "wwrsess", "tmp", "a.tmp", ".tmp1",
	}
	var keys []string
	for n := r.Range(1, 6); n > 0; n-- {
		k := odd[r.N(len(odd))]
		dup := false
		for _, o := range keys {
			dup = dup || o == k
		}
		if !dup {
			keys = append(keys, k)
		}
	}
	next := 0
	log := &EventLog{}
	sm := &createdSM{SessionManager: wwr.NewDefaultSessionManager(dir)}
	e := NewEnv(EnvOpts{Memchan: r.P(50), Sessions: true, SM: sm, Log: log, BufSize: 8192, KeyGen: keyGenFn(func() string {
		next++
		return keys[next-1]
	})})
	stored := map[string]*ssess{}
	for _, k := range keys {
		c := e.MustDial(wwr.ConnectionOptions{})
		if c == nil {
			return
		}
		con := c.Conn()
		info := genInfo(r, 2)
		var err error
		pan := ""
		if !Await(log, "return of CreateSession", Go(func() {
			defer func() {
				if x := recover(); x != nil {
					pan = fmt.Sprint(x)
				}
			}()
			err = con.CreateSession(infoFrom(info))
		})) {
			return
		}
		if pan != "" {
			// the key generator is expected to never generate invalid keys
			ctx.Distinct("generated_keys", fmt.Sprintf("panic %.20q", k))
			next = len(keys)
			continue
		}
		if err != nil {
			if con.HasSession() {
				ctx.Violate("session-of-failed-creation", log.Dump(), "creating session %.60q failed: %v, but the connection has a session", k, err)
			}
			continue
		}
		if sm.err != nil {
			// the session stays active but can't be restored
			ctx.Distinct("generated_keys", fmt.Sprintf("refused %.20q", k))
			continue
		}
		ctx.Distinct("generated_keys", fmt.Sprintf("accepted %.20q", k))
		if got := con.SessionKey(); got != k {
			ctx.Violate("other-key", log.Dump(), "the connection has session %q, the generated key is %q", got, k)
			return
		}
		stored[k] = &ssess{Creation: con.SessionCreation(), Info: normMap(info), Last: con.SessionCreation()}
	}
	if !e.Shutdown() {
		return
	}
	e2 := NewEnv(EnvOpts{Memchan: r.P(50), Sessions: true, SM: wwr.NewDefaultSessionManager(dir), Log: log, BufSize: 8192})
	for k, s := range stored {
		c := e2.MustDial(wwr.ConnectionOptions{})
		if c == nil {
			return
		}
		ref := c.AwaitReply(sendRestore(c, k))
		if ref == nil {
			return
		}
		m, _ := c11CheckReply(ref, k, s)
		if m == "" {
			m = c11CheckConn(c.Conn(), k, s)
		}
		if m != "" {
			ctx.Violate("generated-key", log.Dump(), "a session was created with the generated key %.60q, later: %s", k, m)
			return
		}
		if r.P(50) {
			if !Await(log, "end of a closure", Go(func() { c.Conn().CloseSession() })) {
				return
			}
			if res, err := wwr.NewDefaultSessionManager(dir).OnSessionLookup(k); res != nil || err != nil {
				ctx.Violate("found-closed", log.Dump(), "session %.60q was closed, a lookup returns %v, %v", k, res, err)
				return
			}
		}
	}
	ctx.Eval(fmt.Sprintf("generator keys=%q stored=%d", keys, len(stored)))
	e2.Shutdown()
}
