package main

import (
	"fmt"
	"sync"

	wwr "github.com/qbeon/webwire-go"
)

// sessEarlyClosure: a session is closed while the storage is still creating
// it. The storage reads the session first and writes it later, so that the
// closing hook must not be called before the creation hook has returned
func sessEarlyClosure(p string, r *Rng) {
	if r.P(40) {
		SetDelays(r.U64() | 1)
		defer SetDelays(0)
	}
	w := newSworld(p, r, true, 0)
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		if w.dial() == nil {
			return
		}
	}
	var mu sync.Mutex
	hold := make(chan struct{})
	held := 0        // creation hooks that have begun
	creating := ""   // key of the session that's being created
	finished := true // the creation hook has returned
	early := ""
	first := r.P(40) // the session is stored at the beginning, too
	put := func(s *wwr.Session) {
		w.sm.mu.Lock()
		w.sm.store[s.Key] = memSess{s.Creation, s.LastLookup, wwr.SessionInfoToVarMap(s.Info)}
		w.sm.mu.Unlock()
	}
	w.sm.Hooks(func(c wwr.Connection, _ string) error {
		s := c.Session()
		mu.Lock()
		held++
		if s != nil {
			creating, finished = s.Key, false
		}
		mu.Unlock()
		if s != nil && first {
			put(s)
		}
		<-hold
		if s != nil {
			put(s)
		}
		mu.Lock()
		finished = true
		mu.Unlock()
		return nil
	}, nil, func(key string) error {
		mu.Lock()
		if key == creating && !finished {
			early = key
		}
		mu.Unlock()
		return nil
	})
	released := false
	release := func() {
		if !released {
			released = true
			close(hold)
		}
	}
	defer release()
	place := ""
	var g *Gate
	if r.P(30) {
		place = []string{"createSession.registered", "createSession.notified"}[r.N(2)]
		g = SetGate(place, 1)
		defer g.Release()
	}
	c := w.conns[0]
	create := &sop{kind: "create", c: c}
	w.start(r, create)
	if !Settle() {
		return
	}
	var ops []*sop
	how := ""
	// (the getters might wait for the gate)
	keys := w.newKeys()
	key := ""
	if len(keys) > 0 {
		key = keys[0]
	}
	if first && g == nil && key != "" {
		// other connections restore it meanwhile
		for _, o := range w.conns[1:] {
			op := &sop{kind: "restore", c: o, key: key}
			w.start(r, op)
			ops = append(ops, op)
		}
		if !Settle() {
			return
		}
	}
	kinds := []string{"closeServer", "closeRequest", "closeKey"}
	all := append([]*sconn(nil), w.conns...)
	for i := len(all) - 1; i > 0; i-- {
		k := r.N(i + 1)
		all[i], all[k] = all[k], all[i]
	}
	for _, o := range all {
		if o != c && !first {
			continue
		}
		op := &sop{kind: kinds[r.N(3)], c: o, key: key}
		if key == "" && op.kind == "closeKey" {
			op.kind = "closeServer"
		}
		if o == c {
			how = op.kind
		}
		w.start(r, op)
		ops = append(ops, op)
		if r.P(50) && !Settle() {
			return
		}
	}
	if !Settle() {
		return
	}
	if g != nil {
		g.Release()
		if !Settle() {
			return
		}
	}
	mu.Lock()
	n0 := held
	mu.Unlock()
	ctx.Eval(fmt.Sprintf("early/%s/%s/%v/%d/%d/%v", how, place, first, n, n0, w.memch))
	release()
	for _, o := range append(ops, create) {
		if !Await(w.env.Log, o.String(), o.done) {
			return
		}
	}
	if !Settle() {
		return
	}
	// the order of the closures isn't known, close what is left
	for _, o := range w.conns {
		o := &sop{kind: "closeServer", c: o}
		w.start(r, o)
		if !Await(w.env.Log, o.String(), o.done) {
			return
		}
	}
	if !Settle() {
		return
	}
	create.mu.Lock()
	err := create.err
	create.mu.Unlock()
	if err != nil {
		w.viol("C07", "create-failed", "the creation of a session that was closed meanwhile returned %v", err)
		return
	}
	mu.Lock()
	e := early
	mu.Unlock()
	if e != "" {
		w.viol("C07", "closed-before-created", "the closing hook of session %q was called before its creation hook has returned", e)
		return
	}
	if keys = append(keys, w.newKeys()...); len(keys) != 1 {
		w.viol("C07", "creation-notifications", "1 creation succeeded, the clients were told about %d sessions", len(keys))
		return
	}
	key = keys[0]
	if d := w.sm.CreatedBy(c.cl.Conn()); d != 1 {
		w.viol("C07", "creation-hook", "the creation hook was called %s", times(d))
		return
	}
	if _, _, cl := w.sm.Calls(key); cl != 1 {
		w.viol("C07", "closure-hook", "all connections closed session %q, which was created meanwhile, but the closing hook was called %s", key, times(cl))
		return
	}
	w.sm.mu.Lock()
	_, stored := w.sm.store[key]
	w.sm.mu.Unlock()
	if stored {
		w.viol("C07", "closed-but-stored", "session %q was closed but is stored", key)
		return
	}
	w.sm.Hooks(nil, nil, nil)
	if !w.mirror("closure during the creation") {
		return
	}
	ctx.Count("closures_during_creation", 1)
	w.env.Shutdown()
}
