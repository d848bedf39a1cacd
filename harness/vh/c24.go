package main

import (
	"bufio"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"

	"aatap"

	wwr "github.com/qbeon/webwire-go"
)

/* C24: default session keys */

func init() {
	checks["C24"] = checkC24
	children["keys"] = c24Child
}

func checkC24(c *Ctx) {
	c.Cases("statistics", c.Scale(8, 80), c24Statistics)
	c.Cases("concurrent", c.Scale(16, 320), c24Concurrent)
	c.Cases("processes", c.Scale(8, 80), c24Processes)
	c.Cases("failing", c.Scale(8, 64), c24Failing)
	c.Cases("server", c.Scale(64, 2000), c24Server)
}

const c24Alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

// c24Form checks a single key
func c24Form(k string) bool {
	if k == "" {
		ctx.Violate("empty", nil, "an empty key was generated")
		return false
	}
	for _, ch := range []byte(k) {
		if !strings.ContainsRune(c24Alphabet+".~=", rune(ch)) {
			ctx.Violate("charset", []string{fmt.Sprintf("%q", k)}, "a key contains the character %q that isn't URL-safe", ch)
			return false
		}
	}
	return true
}

// c24Unique checks keys for their form and coincidences
func c24Unique(what string, keys []string, seen map[string]string) bool {
	for _, k := range keys {
		if !c24Form(k) {
			return false
		}
		if w, ok := seen[k]; ok {
			ctx.Violate("coincidence", []string{k}, "%s: a key was generated before (%s)", what, w)
			return false
		}
		seen[k] = what
	}
	ctx.Count("keys", int64(len(keys)))
	return true
}

// c24Drawn requires the bytes drawn from the secure source to cover the keys.
// Sources may be read in advance
func c24Drawn(what string, drawn int64, keys int) bool {
	ctx.Count("random_bytes_drawn", drawn)
	if need := int64(keys)*32 - 65536; drawn < need {
		ctx.Violate("source", nil, "%s: %d keys were generated of only %d bytes of the secure random source", what, keys, drawn)
		return false
	}
	return true
}

// c24Analyze looks for constant and predictable parts of keys in their order
// of creation, there have to be at least 10000 of them
func c24Analyze(what string, keys []string) bool {
	L := len(keys[0])
	for _, k := range keys {
		if len(k) < L {
			L = len(k)
		}
	}
	n := len(keys)
	// the entropy of each position
	sym := make([][]uint8, L)
	b64 := true
	total := 0.0
	nsym := make([]int, L)
	for p := 0; p < L; p++ {
		sym[p] = make([]uint8, n)
		var idx [256]int
		var cnt [256]int
		m := 0
		pad := true
		for i, k := range keys {
			ch := k[p]
			if ch != '=' {
				pad = false
			}
			if !strings.ContainsRune(c24Alphabet, rune(ch)) {
				b64 = false
			}
			if idx[ch] == 0 {
				m++
				idx[ch] = m
			}
			sym[p][i] = uint8(idx[ch] - 1)
			cnt[ch]++
		}
		nsym[p] = m
		if pad {
			continue
		}
		if m < 2 {
			ctx.Violate("constant", keys[:3], "%s: character %d of all %d keys is the same", what, p, n)
			return false
		}
		h := 0.0
		for _, c := range cnt {
			if c > 0 {
				f := float64(c) / float64(n)
				h -= f * math.Log2(f)
			}
		}
		total += h + float64(m-1)/(2*float64(n)*math.Ln2)
	}
	ctx.Max("max_millibits_per_key", int64(total*1000))
	if total < 253 {
		ctx.Violate("entropy", keys[:3], "%s: the %d characters of the keys carry about %.1f bits", what, L, total)
		return false
	}
	// linear dependencies within the bits of a key and its successor
	for _, pairs := range []bool{false, true} {
		want := 253
		if pairs {
			want *= 2
		}
		if rank, dim := c24Rank(keys, L, b64, pairs, want+400); rank < want {
			ctx.Violate("dependency", keys[:3], "%s: the %d bits of a key (with its successor: %v) have a linear rank of only %d", what, dim, pairs, rank)
			return false
		}
	}
	// dependencies between pairs of characters of a key, and of equal
	// characters of consecutive keys. Independent ones have about 0.15 bits
	N := n
	if N > 20000 {
		N = 20000
	}
	mi := func(a, b []uint8, na, nb int) float64 {
		joint := make([]int32, na*nb)
		ca, cb := make([]int32, na), make([]int32, nb)
		for i := range a {
			joint[int(a[i])*nb+int(b[i])]++
			ca[a[i]]++
			cb[b[i]]++
		}
		s := 0.0
		for x := 0; x < na; x++ {
			for y := 0; y < nb; y++ {
				if j := joint[x*nb+y]; j > 0 {
					s += float64(j) * math.Log2(float64(j)*float64(len(a))/(float64(ca[x])*float64(cb[y])))
				}
			}
		}
		return s / float64(len(a))
	}
	ent := func(p int) float64 { return math.Log2(float64(nsym[p])) }
	for p := 0; p < L; p++ {
		if nsym[p] < 2 {
			continue
		}
		for q := p + 1; q < L; q++ {
			if nsym[q] < 2 {
				continue
			}
			m := mi(sym[p][:N], sym[q][:N], nsym[p], nsym[q])
			if lim := math.Min(ent(p), ent(q)) * 0.7; m > lim {
				ctx.Violate("dependency", keys[:3], "%s: characters %d and %d of the keys share %.2f bits", what, p, q, m)
				return false
			}
		}
		if m := mi(sym[p][:N-1], sym[p][1:N], nsym[p], nsym[p]); m > ent(p)*0.7 {
			ctx.Violate("dependency", keys[:3], "%s: character %d of consecutive keys shares %.2f bits", what, p, m)
			return false
		}
	}
	return true
}

// c24Rank returns the affine rank over GF(2) of the bits of up to n keys
func c24Rank(keys []string, L int, b64, pairs bool, n int) (rank, dim int) {
	bitsOf := func(v *big.Int, k string) {
		for p := 0; p < L; p++ {
			x, w := int(k[p]), 8
			if b64 {
				x, w = strings.IndexByte(c24Alphabet, k[p]), 6
			}
			v.Lsh(v, uint(w))
			v.Or(v, big.NewInt(int64(x)))
		}
	}
	if n >= len(keys) {
		n = len(keys) - 1
	}
	var first *big.Int
	basis := map[int]*big.Int{}
	for i := 0; i < n; i++ {
		v := new(big.Int)
		bitsOf(v, keys[i])
		if pairs {
			bitsOf(v, keys[i+1])
		}
		if first == nil {
			first = v
			continue
		}
		v.Xor(v, first)
		for v.BitLen() > 0 {
			b, ok := basis[v.BitLen()]
			if !ok {
				basis[v.BitLen()] = v
				break
			}
			v.Xor(v, b)
		}
	}
	dim = L * 8
	if b64 {
		dim = L * 6
	}
	return len(basis), dim
}

// c24Repeats looks for parts of keys that occur in other keys or elsewhere in
// the same one, at any bit. Every 64 bits of up to n keys are compared, about
// one in a million such comparisons of random keys would find a coincidence
func c24Repeats(what string, keys []string, n int) bool {
	if n > len(keys) {
		n = len(keys)
	}
	type part struct {
		bits uint64
		key  int32
	}
	var parts []part
	// bits per character
	alphabet, w := c24Alphabet, 6
	{
		var used [256]bool
		for _, k := range keys {
			for _, ch := range []byte(strings.TrimRight(k, "=")) {
				used[ch] = true
			}
		}
		var all []byte
		for ch, u := range used {
			if u {
				all = append(all, byte(ch))
			}
		}
		switch {
		case len(all) <= 16:
			alphabet, w = string(all), 4
		case len(all) <= 32:
			alphabet, w = string(all), 5
		case strings.Trim(string(all), c24Alphabet) != "":
			// an unknown encoding
			return true
		}
	}
	for i, k := range keys[:n] {
		k = strings.TrimRight(k, "=")
		var bits uint64
		// the last character may be filled up with zeros
		have, end := 0, len(k)*w/8*8
		for p := 0; p < len(k); p++ {
			x := strings.IndexByte(alphabet, k[p])
			for b := w - 1; b >= 0; b-- {
				bits = bits<<1 | uint64(x>>uint(b)&1)
				if have++; have >= 64 && have <= end {
					parts = append(parts, part{bits, int32(i)})
				}
			}
		}
	}
	sort.Slice(parts, func(a, b int) bool { return parts[a].bits < parts[b].bits })
	for p := 1; p < len(parts); p++ {
		if parts[p].bits == parts[p-1].bits {
			a, b := parts[p-1].key, parts[p].key
			ctx.Violate("repeated", []string{keys[a], keys[b]}, "%s: 64 bits of key %d occur again in key %d", what, a, b)
			return false
		}
	}
	ctx.Count("key_parts_compared", int64(len(parts)))
	return true
}

func c24Statistics(i int, r *Rng) {
	gen := wwr.NewDefaultSessionKeyGenerator()
	what := "keys of one generator"
	if i%2 == 1 {
		aatap.SetMode(aatap.Short)
		defer aatap.SetMode(aatap.Normal)
		what += " with a source that returns short reads"
	}
	several := r.P(40)
	before := aatap.Drawn()
	keys := make([]string, 12000)
	for k := range keys {
		if several {
			gen = wwr.NewDefaultSessionKeyGenerator()
		}
		keys[k] = gen.Generate()
	}
	drawn := aatap.Drawn() - before
	if c24Unique(what, keys, map[string]string{}) && c24Drawn(what, drawn, len(keys)) {
		if c24Analyze(what, keys) {
			c24Repeats(what, keys, 2000)
		}
	}
	ctx.Eval(fmt.Sprintf("statistics %d", i))
	ctx.Sample("%s", keys[0])
}

// c24Many generates keys on goroutines
func c24Many(gos, each int, shared bool) [][]string {
	out := make([][]string, gos)
	one := wwr.NewDefaultSessionKeyGenerator()
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < gos; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			gen := one
			if !shared {
				gen = wwr.NewDefaultSessionKeyGenerator()
			}
			<-start
			l := make([]string, each)
			for k := range l {
				l[k] = gen.Generate()
			}
			out[g] = l
		}()
	}
	close(start)
	wg.Wait()
	return out
}

func c24Concurrent(i int, r *Rng) {
	gos, each := r.Range(2, 24), 600
	before := aatap.Drawn()
	out := c24Many(gos, each, r.P(50))
	drawn := aatap.Drawn() - before
	seen := map[string]string{}
	var all []string
	for g, l := range out {
		if !c24Unique(fmt.Sprintf("goroutine %d", g), l, seen) {
			return
		}
		all = append(all, l[:100]...)
	}
	if !c24Repeats("goroutines", all, len(all)) {
		return
	}
	c24Drawn("concurrent generation", drawn, gos*each)
	ctx.Eval(fmt.Sprintf("concurrent %d", i))
}

// c24Child: mode, goroutines, keys per goroutine
func c24Child(args []string) {
	mode, _ := strconv.Atoi(args[0])
	gos, _ := strconv.Atoi(args[1])
	each, _ := strconv.Atoi(args[2])
	w := bufio.NewWriter(os.Stdout)
	if mode == aatap.Fail {
		// some keys are generated before the failure
		gen := wwr.NewDefaultSessionKeyGenerator()
		if args[3] == "late" {
			fmt.Fprintln(w, "before", gen.Generate())
		}
		d := aatap.Drawn()
		aatap.SetMode(aatap.Fail)
		fmt.Fprintln(w, "armed", d)
		w.Flush()
		for k := 0; k < each; k++ {
			func() {
				defer func() {
					if recover() != nil {
						fmt.Fprintln(w, "panic")
						w.Flush()
					}
				}()
				fmt.Fprintln(w, "key", gen.Generate())
				w.Flush()
			}()
		}
		fmt.Fprintln(w, "end")
		w.Flush()
		return
	}
	aatap.SetMode(int32(mode))
	before := aatap.Drawn()
	for _, l := range c24Many(gos, each, false) {
		for _, k := range l {
			fmt.Fprintln(w, "key", k)
		}
	}
	fmt.Fprintln(w, "drawn", aatap.Drawn()-before)
	w.Flush()
}

func c24Processes(i int, r *Rng) {
	n := r.Range(3, 6)
	gos, each := r.Pick(1, 1, 4), 500
	outs := make([][]byte, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for p := 0; p < n; p++ {
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(os.Getenv("VH_EXE"), "-child", "keys", "0", strconv.Itoa(gos), strconv.Itoa(each))
			// other sources of randomness start from the same state
			cmd.Env = append(os.Environ(), "GODEBUG=randautoseed=0", "GOMAXPROCS=1", "GORACE=log_path="+ctx.Scratch+"/../race")
			outs[p], errs[p] = cmd.Output()
		}()
	}
	wg.Wait()
	seen := map[string]string{}
	var all []string
	for p := range outs {
		if errs[p] != nil {
			ctx.Inconclusive("child %d: %v", p, errs[p])
			return
		}
		var keys []string
		drawn := int64(-1)
		for _, l := range strings.Split(string(outs[p]), "\n") {
			if strings.HasPrefix(l, "key ") {
				keys = append(keys, l[4:])
			} else if strings.HasPrefix(l, "drawn ") {
				drawn, _ = strconv.ParseInt(l[6:], 10, 64)
			}
		}
		if drawn < 0 || len(keys) != gos*each {
			ctx.Inconclusive("child %d printed %d keys", p, len(keys))
			return
		}
		if !c24Unique(fmt.Sprintf("process %d", p), keys, seen) {
			return
		}
		all = append(all, keys[:200]...)
	}
	if !c24Repeats("processes", all, len(all)) {
		return
	}
	ctx.Count("processes", int64(n))
	ctx.Eval(fmt.Sprintf("processes %d", i))
}

// c24Failing: keys aren't generated of anything else when the source fails
func c24Failing(i int, r *Rng) {
	how := "early"
	if r.P(50) {
		how = "late"
	}
	const each = 3000
	cmd := exec.Command(os.Getenv("VH_EXE"), "-child", "keys", strconv.Itoa(aatap.Fail), "1", strconv.Itoa(each), how)
	// a crash is fine, it's what the runtime prescribes
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none", "GORACE=log_path="+ctx.Scratch+"/../race")
	out, _ := cmd.Output()
	lines := strings.Split(string(out), "\n")
	armed := int64(-1)
	var keys []string
	for _, l := range lines {
		if strings.HasPrefix(l, "armed ") {
			armed, _ = strconv.ParseInt(l[6:], 10, 64)
		}
		if strings.HasPrefix(l, "key ") {
			keys = append(keys, l[4:])
		}
	}
	if armed < 0 {
		ctx.Inconclusive("the child printed %q", out)
		return
	}
	// random bytes may have been read in advance
	if int64(len(keys))*32 > armed {
		ctx.Violate("source", keys[:1], "%d keys were generated although the secure random source fails", len(keys))
	}
	ctx.Eval(fmt.Sprintf("failing %s", how))
}

// c24Server: servers use the generator by default
func c24Server(i int, r *Rng) {
	seen := map[string]string{}
	before := aatap.Drawn()
	total := 0
	for s := 0; s < 2; s++ {
		env := NewEnv(EnvOpts{Sessions: true, SM: NewMemSM(), LogOff: true})
		var cls []*Client
		for k := 0; k < 3; k++ {
			cl := env.MustDial(wwr.ConnectionOptions{})
			if cl == nil {
				return
			}
			cls = append(cls, cl)
		}
		var mu sync.Mutex
		var keys []string
		for _, cl := range cls {
			con := cl.Conn()
			if !Await(env.Log, "sessions", Go(func() {
				for k := 0; k < 8; k++ {
					if con.CreateSession(nil) != nil {
						return
					}
					mu.Lock()
					keys = append(keys, con.SessionKey())
					mu.Unlock()
					con.CloseSession()
				}
			})) {
				return
			}
		}
		if len(keys) != 24 {
			ctx.Violate("server", nil, "%d of 24 sessions were created", len(keys))
			return
		}
		total += len(keys)
		if !c24Unique(fmt.Sprintf("server %d", s), keys, seen) {
			return
		}
		for _, k := range keys {
			if len(k) < 39 {
				ctx.Violate("length", []string{k}, "a session key of %d characters can't carry 256 bits", len(k))
				return
			}
		}
		env.Shutdown()
	}
	c24Drawn("sessions of servers", aatap.Drawn()-before, total)
	ctx.Eval(fmt.Sprintf("server %d", i))
}
