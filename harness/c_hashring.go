package main

import (
	"fmt"
	"hash/crc32"
	"sort"
	"strconv"

	"github.com/zijiren233/gencontainer/hashring"
	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
	"golang.org/x/exp/constraints"
)

// ---------------------------------------------------------------- forging keys for given CRC-32 values

// forger finds texts pre+x+suf with a given CRC-32, x being made of bytes base[i]^bits: the CRC is affine in
// the free bits, so this is a linear system over GF(2).
type forger struct {
	base  []byte // the whole text
	free  []int  // bit positions (byte*8+bit)
	c0    uint32
	basis [32]struct {
		v    uint32
		comb uint64
		ok   bool
	}
}

func newForger(base []byte, free []int) *forger {
	f := &forger{base: base, free: free, c0: crc32.ChecksumIEEE(base)}
	for i, p := range free {
		b := append([]byte{}, base...)
		b[p/8] ^= 1 << (p % 8)
		v := crc32.ChecksumIEEE(b) ^ f.c0
		comb := uint64(1) << i
		for k := 31; k >= 0 && v != 0; k-- {
			if v>>k&1 == 0 {
				continue
			}
			if !f.basis[k].ok {
				f.basis[k].v, f.basis[k].comb, f.basis[k].ok = v, comb, true
				v = 0
				break
			}
			v ^= f.basis[k].v
			comb ^= f.basis[k].comb
		}
	}
	return f
}

func (f *forger) text(target uint32) string {
	v := target ^ f.c0
	var comb uint64
	for k := 31; k >= 0; k-- {
		if v>>k&1 == 1 {
			if !f.basis[k].ok {
				panic("forger: no solution")
			}
			v ^= f.basis[k].v
			comb ^= f.basis[k].comb
		}
	}
	b := append([]byte{}, f.base...)
	for i, p := range f.free {
		if comb>>i&1 == 1 {
			b[p/8] ^= 1 << (p % 8)
		}
	}
	return string(b)
}

// forgeString: a name x such that crc32("x-rep") = target; tag makes different names.
func forgeString(tag string, rep int, target uint32) string {
	suf := "-" + strconv.Itoa(rep)
	base := []byte(tag + "aaaaaaaaaaaaaaaaaaaa" + suf)
	var free []int
	for i := 0; i < 20; i++ {
		for b := 0; b < 3; b++ {
			if len(free) < 60 {
				free = append(free, (len(tag)+i)*8+b)
			}
		}
	}
	key := fmt.Sprint(tag, "/", rep)
	f := forgers[key]
	if f == nil {
		f = newForger(base, free)
		forgers[key] = f
	}
	t := f.text(target)
	return t[:len(t)-len(suf)]
}

var forgers = map[string]*forger{}

// forgeInt: a positive int x such that crc32("x-rep") = target.
func forgeInt(lead, rep int, target uint32) int {
	suf := "-" + strconv.Itoa(rep)
	base := []byte(strconv.Itoa(lead) + "000000000000000000" + suf)
	var free []int
	for i := 1; i < 19; i++ {
		for b := 0; b < 3; b++ {
			free = append(free, i*8+b)
		}
	}
	key := fmt.Sprint("int/", lead, "/", rep)
	f := forgers[key]
	if f == nil {
		f = newForger(base, free)
		forgers[key] = f
	}
	t := f.text(target)
	n, err := strconv.Atoi(t[:19])
	if err != nil {
		panic(err)
	}
	return n
}

// ---------------------------------------------------------------- reference ring

func hrPoint[N any](n N, i int) uint32 { return crc32.ChecksumIEEE([]byte(fmt.Sprintf("%v-%d", n, i))) }

type hrRef[N constraints.Ordered] struct {
	pts   []uint32
	owner map[uint32][]N
}

func newHrRef[N constraints.Ordered](replicas int, members []N) *hrRef[N] {
	r := &hrRef[N]{owner: map[uint32][]N{}}
	for _, m := range members {
		for i := 0; i < replicas; i++ {
			h := hrPoint(m, i)
			if len(r.owner[h]) == 0 {
				r.pts = append(r.pts, h)
			}
			r.owner[h] = append(r.owner[h], m)
		}
	}
	sort.Slice(r.pts, func(i, j int) bool { return r.pts[i] < r.pts[j] })
	return r
}

func (r *hrRef[N]) owners(key N) []N {
	h := hrPoint(key, 0)
	i := sort.Search(len(r.pts), func(i int) bool { return r.pts[i] >= h })
	if i == len(r.pts) {
		i = 0
	}
	return r.owner[r.pts[i]]
}

func contains[N comparable](s []N, x N) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// hrKeys: keys covering both ends of every arc of the finest ring (all members of the universe), the ends of
// the hash space, the member names and some others.
func hrKeys[N constraints.Ordered](replicas int, u []N, forge func(target uint32) N, extra []N) []N {
	pts := map[uint32]bool{0: true, 1: true, 1<<32 - 1: true, 1<<32 - 2: true, 1 << 31: true, 1<<31 - 1: true}
	for _, m := range u {
		for i := 0; i < replicas; i++ {
			h := hrPoint(m, i)
			pts[h], pts[h-1], pts[h+1] = true, true, true
		}
	}
	var hs []uint32
	for h := range pts {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	var r []N
	for _, h := range hs {
		k := forge(h)
		if hrPoint(k, 0) != h {
			panic("forged key is wrong")
		}
		r = append(r, k)
	}
	r = append(r, u...)
	return append(r, extra...)
}

// ---------------------------------------------------------------- histories

type hrSys[N constraints.Ordered] struct {
	hr       *hashring.HashRing[N]
	in       []bool
	conf     *hrConf[N]
	prev     []N // owners before the last operation
	prevMask int
}

type hrConf[N constraints.Ordered] struct {
	id       string
	replicas int
	u        []N
	keys     []N
	ops      []hrOp
	canon    map[int][]N // owners by member mask, from rings built in one go
}

type hrOp struct {
	kind string
	args []int
	desc bool // map iteration order during the call
}

func (o hrOp) String() string { return fmt.Sprintf("%s%v desc=%v", o.kind, o.args, o.desc) }

func hrConfNew[N constraints.Ordered](id string, replicas int, u, keys []N) *hrConf[N] {
	for i := range u {
		if contains(u[:i], u[i]) {
			panic("hashring check: the universe repeats a node")
		}
	}
	c := &hrConf[N]{id: id, replicas: replicas, u: u, keys: keys, canon: map[int][]N{}}
	n := len(u)
	for _, desc := range []bool{false, true} {
		for _, k := range []string{"Add", "Remove", "Reset"} {
			c.ops = append(c.ops, hrOp{k, nil, desc})
			for a := 0; a < n; a++ {
				c.ops = append(c.ops, hrOp{k, []int{a}, desc}, hrOp{k, []int{a, a}, desc})
				for b := 0; b < n; b++ {
					if a != b {
						c.ops = append(c.ops, hrOp{k, []int{a, b}, desc})
					}
				}
			}
			var all, rev []int
			for a := 0; a < n; a++ {
				all = append(all, a)
				rev = append(rev, n-1-a)
			}
			c.ops = append(c.ops, hrOp{k, all, desc}, hrOp{k, append(rev, all...), desc})
		}
	}
	return c
}

func (y *hrSys[N]) Ops() int            { return len(y.conf.ops) }
func (y *hrSys[N]) OpName(i int) string { return y.conf.ops[i].String() }
func (y *hrSys[N]) Enabled(i int) bool  { return true }
func (y *hrSys[N]) Digest(f *FP)        { f.Root(y.hr) }

func (y *hrSys[N]) mask() int {
	m := 0
	for i, b := range y.in {
		if b {
			m |= 1 << i
		}
	}
	return m
}

func (c *hrConf[N]) members(mask int) (r []N) {
	for i, x := range c.u {
		if mask>>i&1 == 1 {
			r = append(r, x)
		}
	}
	return
}

func hrOwners[N constraints.Ordered](hr *hashring.HashRing[N], keys []N) []N {
	r := make([]N, len(keys))
	for i, k := range keys {
		r[i] = hr.GetNode(k)
	}
	return r
}

func (c *hrConf[N]) canonical(mask int) []N {
	if r, ok := c.canon[mask]; ok {
		return r
	}
	old := core.MapOrder
	core.MapOrder = core.OrderAsc
	hr := hashring.New[N](c.replicas)
	hr.AddNodes(c.members(mask)...)
	core.MapOrder = old
	r := hrOwners(hr, c.keys)
	c.canon[mask] = r
	return r
}

func (y *hrSys[N]) Do(i int) error {
	o := y.conf.ops[i]
	c := y.conf
	var args []N
	for _, a := range o.args {
		args = append(args, c.u[a])
	}
	given := append([]N{}, args...)
	old := core.MapOrder
	core.MapOrder = core.OrderAsc
	if o.desc {
		core.MapOrder = core.OrderDesc
	}
	defer func() { core.MapOrder = old }()
	switch o.kind {
	case "Add":
		if y.hr.AddNodes(args...) != y.hr {
			return fmt.Errorf("AddNodes returned another ring")
		}
		for _, a := range o.args {
			y.in[a] = true
		}
	case "Remove":
		y.hr.RemoveNodes(args...)
		for _, a := range o.args {
			y.in[a] = false
		}
	case "Reset":
		y.hr.ResetNodes(args...)
		clear(y.in)
		for _, a := range o.args {
			y.in[a] = true
		}
	}
	for i := range args {
		if args[i] != given[i] {
			return fmt.Errorf("%s changed its argument slice", o.kind)
		}
	}
	now := hrOwners(y.hr, c.keys)
	mask := y.mask()
	var err error
	switch c.id {
	case "C27":
		err = y.member(now, mask)
	case "C28":
		err = y.moves(o, now, mask)
	case "C29":
		err = y.place(now, mask)
	}
	if err != nil {
		return fmt.Errorf("replicas %d, after %v: %v", c.replicas, o, err)
	}
	y.prev, y.prevMask = now, mask
	return nil
}

func (y *hrSys[N]) member(now []N, mask int) error {
	c := y.conf
	var zero N
	ms := c.members(mask)
	want := c.canonical(mask)
	again := hrOwners(y.hr, c.keys)
	for i, k := range c.keys {
		if now[i] != again[i] {
			return fmt.Errorf("GetNode(%v) gives %v and then %v", k, now[i], again[i])
		}
		if mask == 0 {
			if now[i] != zero {
				return fmt.Errorf("GetNode(%v) on an empty ring gives %v", k, now[i])
			}
			continue
		}
		if !contains(ms, now[i]) {
			return fmt.Errorf("GetNode(%v) gives %v, members are %v", k, now[i], ms)
		}
		if now[i] != want[i] {
			return fmt.Errorf("GetNode(%v) gives %v, a ring built from %v at once gives %v", k, now[i], ms, want[i])
		}
	}
	return nil
}

func (y *hrSys[N]) moves(o hrOp, now []N, mask int) error {
	c := y.conf
	if y.prevMask == 0 || mask == 0 || o.kind == "Reset" {
		return nil
	}
	added, removed := c.members(mask&^y.prevMask), c.members(y.prevMask&^mask)
	for i, k := range c.keys {
		if now[i] == y.prev[i] {
			if contains(removed, now[i]) {
				return fmt.Errorf("key %v is still owned by the removed node %v", k, now[i])
			}
			continue
		}
		if o.kind == "Add" && !contains(added, now[i]) {
			return fmt.Errorf("adding %v moved key %v from %v to %v", added, k, y.prev[i], now[i])
		}
		if o.kind == "Remove" && !contains(removed, y.prev[i]) {
			return fmt.Errorf("removing %v moved key %v from %v to %v", removed, k, y.prev[i], now[i])
		}
	}
	// removing a member and adding it back, and adding an absent one and removing it, restore every owner
	for x := range c.u {
		other := mask ^ 1<<x
		if other == 0 {
			continue
		}
		if mask>>x&1 == 1 {
			y.hr.RemoveNodes(c.u[x])
			mid := hrOwners(y.hr, c.keys)
			y.hr.AddNodes(c.u[x])
			for i := range c.keys {
				if mid[i] == c.u[x] || (mid[i] != now[i] && now[i] != c.u[x]) {
					return fmt.Errorf("removing %v moved key %v from %v to %v", c.u[x], c.keys[i], now[i], mid[i])
				}
			}
		} else {
			y.hr.AddNodes(c.u[x])
			mid := hrOwners(y.hr, c.keys)
			y.hr.RemoveNodes(c.u[x])
			for i := range c.keys {
				if mid[i] != now[i] && mid[i] != c.u[x] {
					return fmt.Errorf("adding %v moved key %v from %v to %v", c.u[x], c.keys[i], now[i], mid[i])
				}
			}
		}
		back := hrOwners(y.hr, c.keys)
		for i := range c.keys {
			if back[i] != now[i] {
				return fmt.Errorf("after changing %v and changing it back key %v moved from %v to %v", c.u[x], c.keys[i], now[i], back[i])
			}
		}
	}
	return nil
}

func (y *hrSys[N]) place(now []N, mask int) error {
	if mask == 0 {
		return nil
	}
	c := y.conf
	ref := newHrRef(c.replicas, c.members(mask))
	for i, k := range c.keys {
		if w := ref.owners(k); !contains(w, now[i]) {
			return fmt.Errorf("key %v (hash %#x) goes to %v, its next point clockwise is of %v; members %v", k, hrPoint(k, 0), now[i], w, c.members(mask))
		}
	}
	return nil
}

func hrJob[N constraints.Ordered](id, name string, replicas int, u []N, forge func(target uint32) N, extra []N, depth int) Job {
	return Job{Name: fmt.Sprintf("%s, %d replicas, %d nodes", name, replicas, len(u)), Run: func(c *Ctx) {
		var keys []N
		if forge != nil {
			keys = hrKeys(replicas, u, forge, extra)
		} else {
			keys = append(append(keys, u...), extra...)
		}
		conf := hrConfNew(id, replicas, u, keys)
		c.BFS(Spec{Name: "hashring", Depth: depth, New: func() Sys {
			return &hrSys[N]{hr: hashring.New[N](replicas), in: make([]bool, len(u)), conf: conf}
		}})
	}}
}

// hrName prints as something else than its letters: the text of a node is what fmt prints.
type hrName string

func (n hrName) String() string { return "<" + string(n) + ">" }

func hrJobs(id string, t bool) []Job {
	fs := func(h uint32) string { return forgeString("k", 0, h) }
	fi := func(h uint32) int { return forgeInt(1, 0, h) }
	var js []Job
	n := 4
	extraS := []string{"", "a", "alpha", "0", "zzz", "a-0", "käy"}
	extraI := []int{0, -1, 1, 7, 12345, -1 << 63, 1<<63 - 1}
	depth := 1000
	for _, r := range []int{1, 2, 3, 8} {
		js = append(js, hrJob(id, "strings", r, []string{"a", "b", "node-3", ""}[:n], fs, extraS, depth))
		js = append(js, hrJob(id, "ints", r, []int{0, 1, -5, 10}[:n], fi, extraI, depth))
	}
	// nodes sharing a point: at index 0, at different indices, at the ends of the hash space
	a := "a"
	col0 := forgeString("c", 0, hrPoint(a, 0))
	col1 := forgeString("d", 1, hrPoint(a, 0))
	colx := forgeString("e", 0, hrPoint(a, 1))
	js = append(js, hrJob(id, "colliding strings", 1, []string{a, col0, forgeString("b", 0, hrPoint(a, 0)), "q"}, fs, extraS, depth))
	js = append(js, hrJob(id, "colliding strings", 2, []string{a, col0, col1, colx}, fs, extraS, depth))
	js = append(js, hrJob(id, "colliding strings", 3, []string{col1, a, colx, "b"}, fs, extraS, depth))
	js = append(js, hrJob(id, "edge points", 1, []string{forgeString("z", 0, 0), forgeString("m", 0, 1<<32-1), "a"}, fs, extraS, depth))
	js = append(js, hrJob(id, "edge points", 2, []string{forgeString("z", 0, 0), forgeString("m", 1, 1<<32-1), forgeString("n", 0, 1), "a"}, fs, extraS, depth))
	js = append(js, hrJob(id, "adjacent points", 1, []string{a, forgeString("g", 0, hrPoint(a, 0)+1), forgeString("h", 0, hrPoint(a, 0)-1)}, fs, extraS, depth))
	ia := 42
	js = append(js, hrJob(id, "colliding ints", 1, []int{ia, forgeInt(2, 0, hrPoint(ia, 0)), 3, forgeInt(3, 0, 0)}, fi, extraI, depth))
	js = append(js, hrJob(id, "colliding ints", 2, []int{ia, forgeInt(2, 0, hrPoint(ia, 1)), forgeInt(3, 1, hrPoint(ia, 0)), -9}, fi, extraI, depth))
	var floats []float64
	for i := 0; i < 200; i++ {
		floats = append(floats, float64(i)*1.37-20)
	}
	js = append(js, hrJob(id, "floats", 2, []float64{0.5, -1, 1e21}, nil, floats, depth))
	js = append(js, hrJob(id, "named with String method", 2, []hrName{"a", "b", ""}, nil, []hrName{"a-0", "k", "<a>", "zz", "0"}, depth))
	js = append(js, hrJob(id, "uint64", 3, []uint64{0, 1<<64 - 1, 1 << 63}, nil, []uint64{1, 2, 3, 1<<63 - 1, 10, 100, 1000}, depth))
	js = append(js, hrJob(id, "int8", 2, []int8{-128, 127, 0}, nil, []int8{1, -1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 100}, depth))
	// many members and points
	js = append(js, hrJob(id, "5 strings", 2, []string{"a", col0, "node-3", "", colx}, fs, extraS, depth))
	type size struct{ nodes, rep int }
	sizes := []size{{10, 20}, {30, 3}, {5, 160}, {64, 2}, {100, 1}, {3, 300}}
	for n := 1; n <= 40; n++ {
		sizes = append(sizes, size{n, 1 + n%3})
	}
	for r := 1; r <= 40; r++ {
		sizes = append(sizes, size{1 + r%3, r})
	}
	for n := 41; n <= pick(t, 130, 300); n++ {
		sizes = append(sizes, size{n, 1 + n%4})
	}
	for r := 41; r <= pick(t, 60, 300); r++ {
		sizes = append(sizes, size{1 + r%3, r})
	}
	for _, m := range sizes {
		js = append(js, Job{Name: fmt.Sprintf("large ring, %d nodes, %d replicas", m.nodes, m.rep), Run: func(c *Ctx) { hrLarge(c, id, m.nodes, m.rep, fs, a) }})
	}
	return js
}

// hrLarge: several histories leading to the same large member set.
func hrLarge(c *Ctx, id string, nodes, rep int, fs func(uint32) string, base string) {
	var u []string
	for i := 0; i < nodes; i++ {
		switch {
		case i%5 == 3:
			u = append(u, forgeString(fmt.Sprintf("x%d", i), 0, hrPoint(u[i-1], 0))) // shares a point with its predecessor
		default:
			u = append(u, fmt.Sprintf("server-%d", i))
		}
	}
	keys := hrKeys(rep, u, fs, []string{"", "a"})
	conf := hrConfNew(id, rep, u[:1], keys)
	ref := newHrRef(rep, u)
	var want []string
	build := func(kind int, members []string) *hashring.HashRing[string] {
		hr := hashring.New[string](rep)
		core.MapOrder = core.OrderAsc
		if kind%2 == 1 {
			core.MapOrder = core.OrderDesc
		}
		defer func() { core.MapOrder = core.OrderAsc }()
		switch kind / 2 {
		case 0:
			hr.AddNodes(members...)
		case 1:
			for i := len(members) - 1; i >= 0; i-- {
				hr.AddNodes(members[i])
			}
		case 2:
			for i := range members {
				hr.AddNodes(members[i], members[(i*7)%len(members)], members[i])
			}
		case 3:
			hr.ResetNodes(append([]string{"gone", "gone2"}, members...)...)
			hr.RemoveNodes("gone", "never")
			hr.RemoveNodes("gone2")
		case 4:
			hr.AddNodes(members...)
			for i := 0; i < len(members); i += 3 {
				hr.RemoveNodes(members[i])
			}
			for i := 0; i < len(members); i += 3 {
				hr.AddNodes(members[i])
			}
		}
		return hr
	}
	_ = conf
	for kind := 0; kind < 10; kind++ {
		if !c.Case(func() string { return fmt.Sprintf("%d nodes, %d replicas, history %d", nodes, rep, kind) }, func() error {
			if want == nil {
				want = hrOwners(build(0, u), keys)
			}
			hr := build(kind, u)
			now := hrOwners(hr, keys)
			for i, k := range keys {
				c.Trans++
				switch id {
				case "C27":
					if now[i] != want[i] || !contains(u, now[i]) {
						return fmt.Errorf("key %v goes to %v, in the ring built at once to %v", k, now[i], want[i])
					}
				case "C29":
					if !contains(ref.owners(k), now[i]) {
						return fmt.Errorf("key %v (hash %#x) goes to %v, its next point is of %v", k, hrPoint(k, 0), now[i], ref.owners(k))
					}
				}
			}
			if id == "C28" {
				for x := 0; x < len(u); x += 1 + len(u)/12 {
					hr.RemoveNodes(u[x])
					mid := hrOwners(hr, keys)
					hr.AddNodes(u[x])
					back := hrOwners(hr, keys)
					for i, k := range keys {
						if mid[i] == u[x] || (mid[i] != now[i] && now[i] != u[x]) {
							return fmt.Errorf("removing %v moved key %v from %v to %v", u[x], k, now[i], mid[i])
						}
						if back[i] != now[i] {
							return fmt.Errorf("removing and adding back %v moved key %v from %v to %v", u[x], k, now[i], back[i])
						}
					}
				}
			}
			return nil
		}) {
			return
		}
	}
}

func init() {
	b := "closure of all histories of AddNodes/RemoveNodes/ResetNodes calls (every grouping, duplicates, both map iteration orders) over 3-5 nodes with 1, 2, 3 and 8 replicas, including nodes forged to share points, adjacent points and points at both ends of the hash space; keys at both ends of every arc of the finest ring, forged to their exact hashes; several histories for every member count and replica count up to 40 (thorough 130) and rings up to 900 points"
	for _, id := range []string{"C27", "C28", "C29"} {
		register(&Check{ID: id, Bounds: b, Jobs: func(t bool) []Job { return hrJobs(id, t) }})
	}
}
