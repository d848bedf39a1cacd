package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

/* C22: session info handed out */

func init() { checks["C22"] = checkC22 }

func checkC22(c *Ctx) {
	c.Cases("info", c.Scale(4000, 400000), c22Info)
	c.Cases("session", c.Scale(600, 40000), c22Session)
	c.Cases("races", c.Scale(300, 20000), c22Race)
	c.Cases("server", c.Scale(400, 16000), c22Server)
}

// c22Val generates a value, typed collections included
func c22Val(r *Rng, depth int) interface{} {
	k := r.N(22)
	if depth <= 0 && k >= 10 {
		k = r.N(10)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.P(50)
	case 2:
		return string(r.Name(r.N(9)))
	case 3:
		return float64(r.N(1000)) / 8
	case 4:
		return r.N(1000) - 500
	case 5:
		return []interface{}{int8(r.N(99)), int16(-r.N(99)), int32(r.N(99)), int64(-r.N(99)), uint(r.N(9)), uint8(r.N(99)), uint16(r.N(99)), uint32(r.N(99)), r.U64(), float32(r.N(99)) / 4}[r.N(10)]
	case 6:
		return json.Number(fmt.Sprint(r.N(1000)))
	case 7:
		return ""
	case 8:
		return []interface{}{[]interface{}(nil), map[string]interface{}(nil), []string(nil), map[string]string(nil), []map[string]interface{}(nil)}[r.N(5)]
	case 9:
		return []interface{}{[]interface{}{}, map[string]interface{}{}, []string{}, map[string]int{}, []map[string]interface{}{}, [][]int{}}[r.N(6)]
	case 10, 11, 12:
		return c22Map(r, depth)
	case 13, 14, 15:
		n := r.N(5)
		l := make([]interface{}, n, n+r.N(4))
		for i := range l {
			l[i] = c22Val(r, depth-1)
		}
		return l
	case 16:
		n := r.N(5)
		l := make([]map[string]interface{}, n, n+r.N(3))
		for i := range l {
			if r.P(85) {
				l[i] = c22Map(r, depth-1)
			}
		}
		return l
	case 17:
		l := make([][]interface{}, r.N(4))
		for i := range l {
			if r.P(85) {
				l[i] = []interface{}{c22Val(r, depth-1), r.N(9)}
			}
		}
		return l
	case 18:
		m := map[string][]string{}
		for i := r.N(4); i > 0; i-- {
			if r.P(85) {
				m[c22Key(r)] = []string{string(r.Name(r.N(4))), "x"}
			} else {
				m[c22Key(r)] = nil
			}
		}
		return m
	case 19:
		m := map[string]map[string]float64{}
		for i := r.N(4); i > 0; i-- {
			m[c22Key(r)] = map[string]float64{"f": float64(r.N(100)), c22Key(r): 2}
		}
		return m
	case 20:
		m := map[string][]map[string][]interface{}{}
		for i := r.N(3); i > 0; i-- {
			m[c22Key(r)] = []map[string][]interface{}{{"d": {c22Val(r, depth-1)}}, nil, {}}
		}
		return m
	default:
		return []interface{}{
			[]string{string(r.Name(r.N(4))), "y"}, []int{r.N(9), 1, 2}, []float64{1.5, float64(r.N(9))}, []bool{true, false},
			[][]string{{"a"}, nil, {"b", string(r.Name(3))}}, [][]int{{1}, {2, 3}}, map[string]string{c22Key(r): "v", "w": ""}, map[string]int{c22Key(r): 3},
			map[string]bool{c22Key(r): true}, []byte(string(r.Name(4))), []json.Number{"1", "2"}, [][][]int{{{1}}, {{2}, nil}},
		}[r.N(12)]
	}
}

func c22Key(r *Rng) string {
	switch r.N(8) {
	case 0:
		return ""
	case 1:
		return string([]rune{rune(0x400 + r.N(50)), 'x'})
	}
	return string(r.Name(r.Range(1, 6)))
}

func c22Map(r *Rng, depth int) map[string]interface{} {
	if depth < 0 {
		depth = 0
	}
	m := map[string]interface{}{}
	for i := r.N(5); i > 0; i-- {
		m[c22Key(r)] = c22Val(r, depth-1)
	}
	return m
}

// c22Data generates the data of an info object. Equal generators give equal
// data that shares no memory
func c22Data(seed uint64) map[string]interface{} {
	r := NewRng(seed)
	switch r.N(25) {
	case 0:
		return nil
	case 1:
		return map[string]interface{}{}
	}
	if r.N(60) == 0 {
		return c22Large(r)
	}
	depth := r.Range(1, 5)
	m := map[string]interface{}{}
	for i := r.Range(1, 7); i > 0; i-- {
		m[c22Key(r)] = c22Val(r, depth)
	}
	return m
}

// c22Scribble modifies everything that's reachable from a value and returns the
// number of modifications
func c22Scribble(v reflect.Value) (n int) {
	if !v.IsValid() {
		return 0
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			n += c22Scribble(v.Elem())
		}
	case reflect.Map:
		if v.IsNil() {
			return 0
		}
		keys := v.MapKeys()
		for _, k := range keys {
			n += c22Scribble(v.MapIndex(k))
		}
		for i, k := range keys {
			if i%2 == 0 {
				v.SetMapIndex(k, reflect.Value{})
			} else {
				v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
			}
			n++
		}
		v.SetMapIndex(reflect.ValueOf("scribbled").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		n++
	case reflect.Slice:
		// beyond the length as well
		full := v
		if v.Cap() > v.Len() {
			full = v.Slice(0, v.Cap())
		}
		for i := 0; i < full.Len(); i++ {
			e := full.Index(i)
			n += c22Scribble(e)
			switch e.Kind() {
			case reflect.Interface:
				e.Set(reflect.ValueOf("scribbled"))
			case reflect.String:
				e.SetString("scribbled")
			case reflect.Int:
				e.SetInt(-7777777)
			case reflect.Float64:
				e.SetFloat(-7777777)
			case reflect.Bool:
				e.SetBool(!e.Bool())
			case reflect.Uint8:
				e.SetUint(e.Uint() ^ 0xff)
			default:
				e.Set(reflect.Zero(e.Type()))
			}
			n++
		}
		for i, j := 0, v.Len()-1; i < j; i, j = i+1, j-1 {
			a, b := v.Index(i).Interface(), v.Index(j).Interface()
			if a != nil && b != nil {
				v.Index(i).Set(reflect.ValueOf(b))
				v.Index(j).Set(reflect.ValueOf(a))
			}
		}
	}
	return n
}

func c22Mutate(v interface{}) {
	if v == nil {
		return
	}
	ctx.Count("mutations", int64(c22Scribble(reflect.ValueOf(v))))
}

// c22Same compares an info object with its expected data
func c22Same(what string, in wwr.SessionInfo, want map[string]interface{}, r *Rng) bool {
	bad := func(f string, a ...interface{}) bool {
		ctx.Violate("info", []string{fmt.Sprintf("expected data: %#v", want)}, "%s: "+f, append([]interface{}{what}, a...)...)
		return false
	}
	got := in.Fields()
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	fields := append([]string(nil), got...)
	sort.Strings(fields)
	if fmt.Sprintf("%q", fields) != fmt.Sprintf("%q", names) {
		return bad("fields %q instead of %q", fields, names)
	}
	for i := range got {
		got[i] = "scribbled" // the list belongs to the caller
	}
	for _, n := range names {
		v := in.Value(n)
		if !reflect.DeepEqual(v, want[n]) {
			return bad("field %q is %T %#v instead of %T %#v", n, v, v, want[n], want[n])
		}
		ctx.Count("values_compared", 1)
	}
	for _, n := range []string{"unknown", "", " ", "scribbled", string(r.Name(4))} {
		if _, ok := want[n]; !ok {
			if v := in.Value(n); v != nil {
				return bad("unknown field %q is %#v", n, v)
			}
		}
	}
	for _, n := range names {
		for _, x := range []string{n + " ", n + "x", " " + n} {
			if _, ok := want[x]; !ok && in.Value(x) != nil {
				return bad("unknown field %q isn't nil", x)
			}
		}
	}
	return true
}

func c22Names(m map[string]interface{}) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// c22Memory collects the mutable memory that's reachable from a value
func c22Memory(v reflect.Value, path string, set map[uintptr]string) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			c22Memory(v.Elem(), path, set)
		}
	case reflect.Ptr:
		if !v.IsNil() && v.Type().Elem().Size() > 0 {
			if _, ok := set[v.Pointer()]; !ok {
				set[v.Pointer()] = path
				c22Memory(v.Elem(), path, set)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c22Memory(v.Field(i), path+"."+v.Type().Field(i).Name, set)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		set[v.Pointer()] = path
		for _, k := range v.MapKeys() {
			c22Memory(v.MapIndex(k), path+"["+k.String()+"]", set)
		}
	case reflect.Slice:
		if v.Cap() == 0 || v.Type().Elem().Size() == 0 {
			return
		}
		set[v.Pointer()] = path
		for i := 0; i < v.Len(); i++ {
			c22Memory(v.Index(i), fmt.Sprintf("%s[%d]", path, i), set)
		}
	}
}

// c22Shared returns memory that's reachable from both values
func c22Shared(a, b interface{}) string {
	x, y := map[uintptr]string{}, map[uintptr]string{}
	c22Memory(reflect.ValueOf(a), "", x)
	c22Memory(reflect.ValueOf(b), "", y)
	ctx.Count("memory_blocks_compared", int64(len(x)))
	for p, w := range x {
		if _, ok := y[p]; ok {
			return fmt.Sprintf("%T%s", a, w)
		}
	}
	return ""
}

// c22Family is a set of info objects that must be equal to the same data
type c22Family struct {
	objs []wwr.SessionInfo
	vals []interface{} // values that were handed out and not touched
	want []interface{}
}

func (f *c22Family) step(r *Rng, data map[string]interface{}, fresh func() map[string]interface{}) {
	names := c22Names(data)
	o := f.objs[r.N(len(f.objs))]
	switch r.N(6) {
	case 0:
		if len(names) > 0 {
			c22Mutate(o.Value(names[r.N(len(names))]))
		}
	case 1:
		if len(names) > 0 {
			n := names[r.N(len(names))]
			f.vals = append(f.vals, o.Value(n))
			f.want = append(f.want, fresh()[n])
		}
	case 2:
		if len(f.objs) < 6 {
			f.objs = append(f.objs, o.Copy())
		}
	case 3:
		c22Mutate(wwr.SessionInfoToVarMap(o))
	case 4:
		c22Mutate(wwr.SessionInfoToVarMap(o.Copy()))
	case 5:
		s := wwr.Session{Key: "k", Info: o}
		cl := s.Clone()
		c22Mutate(wwr.SessionInfoToVarMap(cl.Info))
		if len(f.objs) < 6 && r.P(50) {
			f.objs = append(f.objs, cl.Info)
		}
		cl.Info = nil
	}
}

func (f *c22Family) check(what string, data map[string]interface{}, r *Rng) bool {
	for k, o := range f.objs {
		if !c22Same(fmt.Sprintf("%s (object %d)", what, k), o, data, r) {
			return false
		}
	}
	for k := 1; k < len(f.objs); k++ {
		for _, o := range f.objs[:k] {
			if sh := c22Shared(f.objs[k], o); sh != "" {
				ctx.Violate("shared", nil, "%s: an info object and its copy share memory: %s", what, sh)
				return false
			}
		}
	}
	for k := range f.vals {
		if !reflect.DeepEqual(f.vals[k], f.want[k]) {
			ctx.Violate("value", []string{fmt.Sprintf("%#v", f.want[k])}, "%s: a value handed out earlier was modified through another one, it's %#v", what, f.vals[k])
			return false
		}
	}
	return true
}

func c22Info(i int, r *Rng) {
	seed := r.U64()
	data := c22Data(seed)
	f := &c22Family{objs: []wwr.SessionInfo{wwr.GenericSessionInfoParser(c22Data(seed))}}
	ctx.Eval(fmt.Sprintf("%#v", data))
	if !f.check("initially", data, r) {
		return
	}
	for k := r.Range(2, 14); k > 0; k-- {
		f.step(r, data, func() map[string]interface{} { return c22Data(seed) })
	}
	if !f.check("after modifications of copies", data, r) {
		return
	}
	// a map made of the object equals the data
	m := wwr.SessionInfoToVarMap(f.objs[0])
	want := data
	if want == nil {
		want = map[string]interface{}{}
	}
	if !reflect.DeepEqual(m, want) {
		ctx.Violate("varmap", []string{fmt.Sprintf("%#v", want)}, "the map of an info object is %#v", m)
	}
}

// c22Session: copies of session objects
func c22Session(i int, r *Rng) {
	seed := r.U64()
	data := c22Data(seed)
	var in wwr.SessionInfo
	if r.P(90) {
		in = wwr.GenericSessionInfoParser(c22Data(seed))
	}
	t1, t2 := time.Unix(int64(r.N(1<<30)), int64(r.N(1e9))), time.Unix(int64(r.N(1<<30)), 0).UTC()
	s := &wwr.Session{Key: string(r.Name(8)), Creation: t1, LastLookup: t2, Info: in}
	orig := *s
	last := s
	for k := r.Range(1, 5); k > 0; k-- {
		c := last.Clone()
		if c == last || c == nil {
			ctx.Violate("clone", nil, "the clone of a session is the session itself or nil")
			return
		}
		same := c.Key == orig.Key && c.Creation == t1 && c.LastLookup == t2 && (c.Info == nil) == (in == nil)
		if !same {
			ctx.Violate("clone", nil, "the clone of the session %+v is %+v", orig, *c)
			return
		}
		if in != nil {
			if !c22Same("clone", c.Info, data, r) {
				return
			}
			if sh := c22Shared(c.Info, last.Info); sh != "" {
				ctx.Violate("shared", nil, "a session and its clone share memory: %s", sh)
				return
			}
			c22Mutate(wwr.SessionInfoToVarMap(c.Info))
		}
		if r.P(50) {
			last = c
			continue
		}
		c.Key, c.Creation, c.LastLookup, c.Info = "scribbled", time.Time{}, time.Time{}, nil
	}
	if s.Key != orig.Key || s.Creation != t1 || s.LastLookup != t2 {
		ctx.Violate("clone", nil, "modifying a clone modified the session")
		return
	}
	if in != nil && !c22Same("session after modifications of its clones", s.Info, data, r) {
		return
	}
	if (*wwr.Session)(nil).Clone() != nil {
		ctx.Violate("clone", nil, "the clone of no session isn't nil")
	}
	ctx.Eval(fmt.Sprintf("session %#v", data))
}

// c22Race: goroutines modify what they got, the race detector finds shared memory
func c22Race(i int, r *Rng) {
	seed := r.U64()
	data := c22Data(seed)
	names := c22Names(data)
	if len(names) == 0 {
		names = []string{"none"}
	}
	in := wwr.GenericSessionInfoParser(c22Data(seed))
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for g := 0; g < 4; g++ {
		rr := r.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			my := in
			for k := 0; k < 6; k++ {
				n := names[rr.N(len(names))]
				v := my.Value(n)
				if !reflect.DeepEqual(v, data[n]) {
					mu.Lock()
					bad = fmt.Sprintf("field %q is %#v instead of %#v", n, v, data[n])
					mu.Unlock()
				}
				c22Scribble(reflect.ValueOf(&v).Elem())
				if rr.P(40) {
					my = in.Copy()
				}
				if rr.P(20) {
					c22Scribble(reflect.ValueOf(wwr.SessionInfoToVarMap(my)))
				}
			}
		}()
	}
	wg.Wait()
	if bad != "" {
		ctx.Violate("concurrent", nil, "concurrent modifications of copies: %s", bad)
	}
	ctx.Eval(fmt.Sprintf("race %#v", data))
}

// c22Server: the same through a server
func c22Server(i int, r *Rng) {
	seed := r.U64()
	data := c22Data(seed)
	sm := NewMemSM()
	if r.P(50) {
		// a hook that modifies what it gets
		sm.Hooks(func(c wwr.Connection, key string) error {
			s := c.Session()
			if s != nil && s.Info != nil {
				c22Mutate(wwr.SessionInfoToVarMap(s.Info))
				s.Key, s.Info = "scribbled", nil
			}
			return nil
		}, nil, nil)
	}
	var lookup *c22Lookup
	var man wwr.SessionManager = sm
	restored := r.P(40)
	if restored {
		lookup = &c22Lookup{seed: seed, creation: time.Unix(int64(r.N(1<<30)), 0).UTC()}
		man = lookup
	}
	env := NewEnv(EnvOpts{Memchan: r.P(30), Sessions: true, SM: man, BufSize: 65536, LogOff: true})
	cl := env.MustDial(wwr.ConnectionOptions{ConcurrencyLimit: 1})
	if cl == nil {
		return
	}
	con := cl.Conn()
	if con.Session() != nil || con.SessionInfo("x") != nil || con.SessionKey() != "" {
		ctx.Violate("no-session", nil, "a new connection reports a session")
	}
	if restored {
		id := sendRestore(cl, "key")
		if ref := cl.AwaitReply(id); ref == nil || ref.Type != tReplyU8 {
			ctx.Violate("restoration", env.Log.Dump(), "a restoration was answered by %v", ref)
			return
		}
		if !Await(env.Log, "restored session", con.HasSession) {
			return
		}
	} else {
		var err error
		if !Await(env.Log, "creation of a session", Go(func() { err = con.CreateSession(wwr.GenericSessionInfoParser(c22Data(seed))) })) {
			return
		}
		if err != nil {
			ctx.Violate("creation", nil, "the session wasn't created: %v", err)
			return
		}
	}
	first := con.Session()
	if first == nil {
		ctx.Violate("session", nil, "no session after its creation")
		return
	}
	noInfo := restored && data == nil
	key, cre, last := first.Key, first.Creation, first.LastLookup
	for k := r.Range(2, 8); k > 0; k-- {
		s := con.Session()
		if s == nil || s.Key != key || s.Creation != cre || s.LastLookup != last || con.SessionKey() != key || con.SessionCreation() != cre {
			ctx.Violate("session", nil, "the session changed after a returned session was modified: %+v, it was %+v", s, first)
			return
		}
		if (s.Info == nil) != noInfo {
			ctx.Violate("session", nil, "session info %#v for the data %#v", s.Info, data)
			return
		}
		if !noInfo && !c22Same("Session", s.Info, data, r) {
			return
		}
		for n := range data {
			v := con.SessionInfo(n)
			if !reflect.DeepEqual(v, data[n]) {
				ctx.Violate("field", nil, "SessionInfo(%q) is %#v instead of %#v", n, v, data[n])
				return
			}
			c22Mutate(v)
		}
		for _, n := range []string{"unknown", "scribbled"} {
			if _, ok := data[n]; !ok && con.SessionInfo(n) != nil {
				ctx.Violate("field", nil, "SessionInfo of an unknown field isn't nil")
				return
			}
		}
		if !noInfo {
			if sh := c22Shared(con.Session().Info, s.Info); sh != "" {
				ctx.Violate("shared", nil, "two copies of the session share memory: %s", sh)
				return
			}
			c22Mutate(wwr.SessionInfoToVarMap(s.Info))
			c22Mutate(wwr.SessionInfoToVarMap(s.Info.Copy()))
		}
		s.Key, s.Creation, s.LastLookup, s.Info = "scribbled", time.Time{}, time.Time{}, wwr.GenericSessionInfoParser(map[string]interface{}{"scribbled": 1})
	}
	if env.Srv.SessionConnectionsNum(key) != 1 || env.Srv.ActiveSessionsNum() != 1 {
		ctx.Violate("registry", nil, "modifying a returned session changed the registry")
	}
	ctx.Eval(fmt.Sprintf("server restored=%v %#v", restored, data))
	env.Shutdown()
}

// c22Lookup is a storage that knows every key
type c22Lookup struct {
	seed     uint64
	creation time.Time
}

func (l *c22Lookup) OnSessionCreated(wwr.Connection) error { return nil }
func (l *c22Lookup) OnSessionClosed(string) error          { return nil }
func (l *c22Lookup) OnSessionLookup(string) (wwr.SessionLookupResult, error) {
	return wwr.NewSessionLookupResult(l.creation, l.creation, c22Data(l.seed)), nil
}

// c22Large generates wide and deep data
func c22Large(r *Rng) map[string]interface{} {
	n := r.Pick(127, 128, 129, 255, 256, 257, 300, 600)
	m := map[string]interface{}{}
	switch r.N(6) {
	case 0:
		for k := 0; k < n; k++ {
			m[fmt.Sprint("field ", k)] = []interface{}{k, "v"}
		}
	case 1:
		l := make([]interface{}, n)
		for k := range l {
			l[k] = map[string]interface{}{"k": k}
		}
		m["list"] = l
	case 2:
		var v interface{} = "innermost"
		for k := 0; k < n/3; k++ {
			if r.P(50) {
				v = []interface{}{k, v}
			} else {
				v = map[string]interface{}{"n": v}
			}
		}
		m["deep"] = v
	case 3:
		l := make([]int, n)
		for k := range l {
			l[k] = k * 7
		}
		m["ints"] = l
		m["matrix"] = [][]int{l[: n/2 : n/2], append([]int(nil), l...)}
		m["matrix"].([][]int)[0] = append([]int(nil), l[:n/2]...)
	case 4:
		x := map[string][]string{}
		for k := 0; k < n; k++ {
			x[fmt.Sprint(k)] = []string{"a", fmt.Sprint(k)}
		}
		m["lists"] = x
	default:
		m["text"] = strings.Repeat("0123456789", 2*n)
		m["bytes"] = []byte(strings.Repeat("x", n))
	}
	return m
}
