package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/set"
	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
	"golang.org/x/exp/constraints"
)

// bothOrders runs a job under ascending and descending map iteration.
func bothOrders(js []Job) []Job {
	var r []Job
	for _, j := range js {
		r = append(r, j)
		k := j
		k.Name += " (map order reversed)"
		run := j.Run
		k.Run = func(c *Ctx) {
			core.MapOrder = core.OrderDesc
			defer func() { core.MapOrder = core.OrderAsc }()
			run(c)
		}
		r = append(r, k)
	}
	return r
}

type setSys[T constraints.Ordered] struct {
	s   [2]set.Set[T]
	ref [2]map[T]bool
	u   []T // universe
}

const setOpsPerVal = 4 // Insert Remove ContainAndRemove Push(v)

func (y *setSys[T]) Ops() int { return 2 * (len(y.u)*setOpsPerVal + 5) }
func (y *setSys[T]) OpName(i int) string {
	n := len(y.u)*setOpsPerVal + 5
	w, i := i/n, i%n
	nm := string(rune('A' + w))
	if i < len(y.u)*setOpsPerVal {
		return fmt.Sprintf("%s.%s(%v)", nm, []string{"Insert", "Remove", "ContainAndRemove", "Push"}[i%setOpsPerVal], y.u[i/setOpsPerVal])
	}
	return nm + []string{".Clear", ".CopyFrom(other)", ".CopyFrom(self)", ".Push(all)", ".Push()"}[i-len(y.u)*setOpsPerVal]
}
func (y *setSys[T]) Enabled(i int) bool { return true }
func (y *setSys[T]) Digest(f *FP)       { f.Root(&y.s[0]); f.Root(&y.s[1]) }

func (y *setSys[T]) Do(i int) error {
	what := y.OpName(i)
	n := len(y.u)*setOpsPerVal + 5
	w, i := i/n, i%n
	s, ref := y.s[w], y.ref[w]
	var ret set.Set[T]
	if i < len(y.u)*setOpsPerVal {
		v := y.u[i/setOpsPerVal]
		had := ref[v]
		var got, want bool
		switch i % setOpsPerVal {
		case 0:
			got, want = s.Insert(v), !had
			ref[v] = true
		case 1:
			got, want = s.Remove(v), had
			delete(ref, v)
		case 2:
			got, want = s.ContainAndRemove(v), had
			delete(ref, v)
		case 3:
			ret = s.Push(v)
			ref[v] = true
		}
		if got != want {
			return fmt.Errorf("%s returned %v with %v present before", what, got, had)
		}
	} else {
		switch i - len(y.u)*setOpsPerVal {
		case 0:
			ret = s.Clear()
			clear(ref)
		case 1:
			ret = s.CopyFrom(y.s[1-w])
			for v := range y.ref[1-w] {
				ref[v] = true
			}
		case 2:
			ret = s.CopyFrom(s)
		case 3:
			all := append(append([]T{}, y.u...), y.u[0])
			ret = s.Push(all...)
			for _, v := range y.u {
				ref[v] = true
			}
		case 4:
			ret = s.Push()
		}
	}
	if ret != nil {
		if err := setIs(ret, ref, y.u); err != nil {
			return fmt.Errorf("the set returned by %s: %v", what, err)
		}
	}
	return y.check(what)
}

// setIs compares everything observable of a set with the expected members.
func setIs[T constraints.Ordered](s set.Set[T], want map[T]bool, u []T) error {
	if s.Len() != len(want) || s.IsEmpty() != (len(want) == 0) {
		return fmt.Errorf("Len %d, IsEmpty %v, want %v", s.Len(), s.IsEmpty(), want)
	}
	for _, v := range u {
		if s.Contain(v) != want[v] {
			return fmt.Errorf("Contain(%v) = %v, want members %v", v, s.Contain(v), want)
		}
	}
	sl := s.Slice()
	got := map[T]bool{}
	for _, v := range sl {
		got[v] = true
	}
	if len(sl) != len(want) || !sameSet(got, want) {
		return fmt.Errorf("Slice() = %v, want members %v", sl, want)
	}
	for stop := 0; stop <= len(want); stop++ {
		if len(want) > 12 && stop > 2 && stop < len(want) {
			continue
		}
		got := map[T]bool{}
		k := 0
		s.Range(func(v T) bool { got[v] = true; k++; return k <= stop })
		if k != min(stop+1, len(want)) || len(got) != k {
			return fmt.Errorf("Range told to stop at call %d made %d calls on a set of %d", stop+1, k, len(want))
		}
		for v := range got {
			if !want[v] {
				return fmt.Errorf("Range visits %v, which is not a member", v)
			}
		}
	}
	return nil
}

func sameSet[T comparable](a, b map[T]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for v := range a {
		if !b[v] {
			return false
		}
	}
	return true
}

func (y *setSys[T]) check(what string) error {
	for w := 0; w < 2; w++ {
		if err := setIs(y.s[w], y.ref[w], y.u); err != nil {
			return fmt.Errorf("after %s, set %c: %v", what, 'A'+w, err)
		}
	}
	// the algebra, in both directions, and on a set with itself
	for w := 0; w < 2; w++ {
		for o := 0; o < 2; o++ {
			if err := setAlgebra(y.s[w], y.s[o], y.ref[w], y.ref[o], y.u); err != nil {
				return err
			}
		}
	}
	for w := 0; w < 2; w++ {
		if err := setIs(y.s[w], y.ref[w], y.u); err != nil {
			return fmt.Errorf("after the algebra operations, set %c: %v", 'A'+w, err)
		}
	}
	return nil
}

func setAlgebra[T constraints.Ordered](a, b set.Set[T], ra, rb map[T]bool, u []T) error {
	uni, inter, diff, sym := map[T]bool{}, map[T]bool{}, map[T]bool{}, map[T]bool{}
	sub, sup := true, true
	for _, v := range u {
		x, z := ra[v], rb[v]
		if x || z {
			uni[v] = true
		}
		if x && z {
			inter[v] = true
		}
		if x && !z {
			diff[v] = true
			sub = false
		}
		if z && !x {
			sup = false
		}
		if x != z {
			sym[v] = true
		}
	}
	if g := a.IsSubSet(b); g != sub {
		return fmt.Errorf("%v.IsSubSet(%v) = %v", keysOf(ra), keysOf(rb), g)
	}
	if g := a.IsSupperSet(b); g != sup {
		return fmt.Errorf("%v.IsSupperSet(%v) = %v", keysOf(ra), keysOf(rb), g)
	}
	if g := a.Equal(b); g != (sub && sup) {
		return fmt.Errorf("%v.Equal(%v) = %v", keysOf(ra), keysOf(rb), g)
	}
	type res struct {
		name string
		s    set.Set[T]
		want map[T]bool
	}
	rs := []res{{"Union", a.Union(b), uni}, {"Union none", a.Union(), ra}, {"Union twice", a.Union(b, a, b), uni},
		{"Intersection", a.Intersection(b), inter}, {"Difference", a.Difference(b), diff}, {"SymmetricDifference", a.SymmetricDifference(b), sym}}
	if a != nil {
		rs = append(rs, res{"Clone", a.Clone(), ra})
	}
	for _, r := range rs {
		if err := setIs(r.s, r.want, u); err != nil {
			return fmt.Errorf("%s of %v and %v: %v", r.name, keysOf(ra), keysOf(rb), err)
		}
	}
	// independence: changing the results changes neither operand nor the other results
	for _, r := range rs {
		for _, v := range u {
			if r.want[v] {
				r.s.Remove(v)
			} else {
				r.s.Insert(v)
			}
		}
		if err := setIs(a, ra, u); err != nil {
			return fmt.Errorf("changing the result of %s changed the receiver: %v", r.name, err)
		}
		if err := setIs(b, rb, u); err != nil {
			return fmt.Errorf("changing the result of %s changed the argument: %v", r.name, err)
		}
	}
	return nil
}

func keysOf[T constraints.Ordered](m map[T]bool) []T {
	var r []T
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func setSpec[T constraints.Ordered](u []T) Spec {
	return Spec{Name: "set", Depth: 1000, New: func() Sys {
		return &setSys[T]{s: [2]set.Set[T]{set.New[T](), set.New[T]()}, ref: [2]map[T]bool{{}, {}}, u: u}
	}}
}

func setLadder(c *Ctx, sizes []int) {
	for _, n := range sizes {
		for _, m := range []int{0, 1, n / 2, n - 1, n, n + 1, 2 * n} {
			if m < 0 {
				continue
			}
			for _, off := range []int{0, n / 2, n} {
				if !c.Case(func() string { return fmt.Sprintf("sets of %d and %d, offset %d", n, m, off) }, func() error {
					a, b := set.New[int](), set.New[int]()
					ra, rb := map[int]bool{}, map[int]bool{}
					var u []int
					for i := -1; i <= n+m+off; i++ {
						u = append(u, i)
					}
					for i := 0; i < n; i++ {
						a.Push(i)
						ra[i] = true
					}
					for i := 0; i < m; i++ {
						b.Insert(i + off)
						rb[i+off] = true
					}
					c.Trans++
					if err := setAlgebra(a, b, ra, rb, u); err != nil {
						return err
					}
					return setAlgebra(b, a, rb, ra, u)
				}) {
					return
				}
			}
		}
	}
}

func setNil(c *Ctx) {
	u := []int{1, 2, 3}
	for mask := 0; mask < 8; mask++ {
		if !c.Case(func() string { return fmt.Sprintf("nil set with %b", mask) }, func() error {
			s, r := set.New[int](), map[int]bool{}
			for i, v := range u {
				if mask>>i&1 == 1 {
					s.Push(v)
					r[v] = true
				}
			}
			var z set.Set[int]
			if err := setIs(z, map[int]bool{}, u); err != nil {
				return err
			}
			if err := setAlgebra(s, z, r, map[int]bool{}, u); err != nil {
				return err
			}
			if err := setAlgebra(z, s, map[int]bool{}, r, u); err != nil {
				return err
			}
			if err := setIs(s.CopyFrom(z), r, u); err != nil {
				return err
			}
			if z.Remove(1) || z.ContainAndRemove(1) {
				return fmt.Errorf("removing from a nil set reports true")
			}
			return nil
		}) {
			return
		}
	}
}

// ---------------------------------------------------------------- genmap

type gmSys struct {
	m   [2]genmap.GenMap[int, int]
	ref [2]map[int]int
	nk  int
	nv  int
	ops []gmOp
}

type gmOp struct {
	kind string
	w    int
	k, v int
}

func gmNew(nk, nv int) *gmSys {
	y := &gmSys{nk: nk, nv: nv, ref: [2]map[int]int{{}, {}}}
	y.m[0] = genmap.New[int, int]()
	y.m[1] = genmap.From(map[int]int{})
	for w := 0; w < 2; w++ {
		for k := 0; k < nk; k++ {
			for _, o := range []string{"Load", "Delete", "LoadAndDelete"} {
				y.ops = append(y.ops, gmOp{o, w, k, 0})
			}
			for v := 0; v < nv; v++ {
				for _, o := range []string{"Store", "LoadOrStore", "LoadOrStoreFunc", "LoadAndStore"} {
					y.ops = append(y.ops, gmOp{o, w, k, v})
				}
			}
		}
		for _, o := range []string{"Clear", "CopyTo", "CopyToRaw", "CopyFrom", "CopyFromRaw", "CopyFromSelf"} {
			y.ops = append(y.ops, gmOp{o, w, 0, 0})
		}
		for d := 0; d < 5; d++ {
			y.ops = append(y.ops, gmOp{"DeleteFunc", w, d, 0})
		}
	}
	return y
}

func (y *gmSys) Ops() int            { return len(y.ops) }
func (y *gmSys) OpName(i int) string { return fmt.Sprintf("%+v", y.ops[i]) }
func (y *gmSys) Enabled(i int) bool  { return true }
func (y *gmSys) Digest(f *FP)        { f.Root(&y.m[0]); f.Root(&y.m[1]) }

var gmPreds = []func(k, v int) bool{
	func(k, v int) bool { return true },
	func(k, v int) bool { return false },
	func(k, v int) bool { return k == 0 },
	func(k, v int) bool { return v == 1 },
	func(k, v int) bool { return k+v == 2 },
}

func (y *gmSys) Do(i int) error {
	o := y.ops[i]
	m, ref := y.m[o.w], y.ref[o.w]
	other, oref := y.m[1-o.w], y.ref[1-o.w]
	old, had := ref[o.k]
	var gv, wv int
	var gok, wok bool
	var ret genmap.GenMap[int, int]
	switch o.kind {
	case "Load":
		gv, gok = m.Load(o.k)
		wv, wok = old, had
	case "Delete":
		ret = m.Delete(o.k)
		delete(ref, o.k)
	case "LoadAndDelete":
		gv, gok = m.LoadAndDelete(o.k)
		wv, wok = old, had
		delete(ref, o.k)
	case "Store":
		ret = m.Store(o.k, o.v)
		ref[o.k] = o.v
	case "LoadOrStore", "LoadOrStoreFunc":
		calls := 0
		if o.kind == "LoadOrStore" {
			gv, gok = m.LoadOrStore(o.k, o.v)
		} else {
			gv, gok = m.LoadOrStoreFunc(o.k, func() int { calls++; return o.v })
			if calls > 1 || (calls == 1) == had {
				return fmt.Errorf("LoadOrStoreFunc called its function %d times with the key present: %v", calls, had)
			}
		}
		if had {
			wv, wok = old, true
		} else {
			wv = o.v
			ref[o.k] = o.v
		}
	case "LoadAndStore":
		gv, gok = m.LoadAndStore(o.k, o.v)
		wv, wok = old, had
		ref[o.k] = o.v
	case "Clear":
		ret = m.Clear()
		clear(ref)
	case "CopyTo":
		ret = m.CopyTo(other)
		for k, v := range ref {
			oref[k] = v
		}
	case "CopyToRaw":
		ret = m.CopyToRaw(other.Map())
		for k, v := range ref {
			oref[k] = v
		}
	case "CopyFrom":
		ret = m.CopyFrom(other)
		for k, v := range oref {
			ref[k] = v
		}
	case "CopyFromRaw":
		ret = m.CopyFromRaw(map[int]int(other))
		for k, v := range oref {
			ref[k] = v
		}
	case "CopyFromSelf":
		ret = m.CopyFrom(m)
	case "DeleteFunc":
		m.DeleteFunc(gmPreds[o.k])
		for k, v := range ref {
			if gmPreds[o.k](k, v) {
				delete(ref, k)
			}
		}
	}
	if gv != wv || gok != wok {
		return fmt.Errorf("%s(%d, %d) returned (%d, %v), want (%d, %v)", o.kind, o.k, o.v, gv, gok, wv, wok)
	}
	if ret != nil {
		if err := gmIs(ret, ref, y.nk); err != nil {
			return fmt.Errorf("the map returned by %s: %v", o.kind, err)
		}
	}
	return y.check(o.kind)
}

func gmIs(m genmap.GenMap[int, int], want map[int]int, nk int) error {
	if m.Len() != len(want) {
		return fmt.Errorf("Len() = %d, want %d", m.Len(), len(want))
	}
	for k := -1; k <= nk; k++ {
		v, ok := m.Load(k)
		w, wok := want[k]
		if v != w || ok != wok {
			return fmt.Errorf("Load(%d) = (%d, %v), want (%d, %v)", k, v, ok, w, wok)
		}
	}
	var ks, vs []int
	for k, v := range want {
		ks, vs = append(ks, k), append(vs, v)
	}
	if !sameMultiset(m.Keys(), ks) {
		return fmt.Errorf("Keys() = %v, want %v in some order", m.Keys(), ks)
	}
	if !sameMultiset(m.Values(), vs) {
		return fmt.Errorf("Values() = %v, want %v in some order", m.Values(), vs)
	}
	for stop := 0; stop <= len(want); stop++ {
		if len(want) > 12 && stop > 2 && stop < len(want) {
			continue
		}
		seen := map[int]bool{}
		k := 0
		bad := false
		all := m.Range(func(key, v int) bool {
			w, ok := want[key]
			bad = bad || !ok || w != v || seen[key]
			seen[key] = true
			k++
			return k <= stop
		})
		if bad || k != min(stop+1, len(want)) || all != (stop >= len(want)) {
			return fmt.Errorf("Range told to stop at call %d: %d calls of %d, wrong entry %v, returned %v", stop+1, k, len(want), bad, all)
		}
	}
	return nil
}

func gmEq(a, b map[int]int, eq func(x, y int) bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !eq(v, w) {
			return false
		}
	}
	return true
}

func gmDerived(m, o genmap.GenMap[int, int], ref, oref map[int]int, nk int) error {
	for i, eq := range []func(a, b int) bool{func(a, b int) bool { return a == b }, func(a, b int) bool { return true }, func(a, b int) bool { return false }, func(a, b int) bool { return a < b }} {
		if g, w := m.EqualFunc(o, eq), gmEq(ref, oref, eq); g != w {
			return fmt.Errorf("EqualFunc #%d of %v and %v = %v, want %v", i, ref, oref, g, w)
		}
	}
	// Clone is independent, From and Map are shared
	cl := m.Clone()
	if err := gmIs(cl, ref, nk); err != nil {
		return fmt.Errorf("Clone: %v", err)
	}
	cl.Store(77, 7)
	for k := 0; k < nk; k++ {
		cl.LoadAndStore(k, 99)
	}
	if err := gmIs(m, ref, nk); err != nil {
		return fmt.Errorf("changing the clone changed the map: %v", err)
	}
	cl2 := m.Clone()
	raw := m.Map()
	f := genmap.From(raw)
	if raw != nil {
		had, hok := ref[0], false
		_, hok = ref[0]
		raw[0] = 55
		if v, ok := m.Load(0); !ok || v != 55 {
			return fmt.Errorf("Map() does not share entries with the map")
		}
		if v, ok := f.Load(0); !ok || v != 55 {
			return fmt.Errorf("From() does not share entries with its argument")
		}
		if hok {
			f.Store(0, had)
		} else {
			f.Delete(0)
		}
	}
	if err := gmIs(m, ref, nk); err != nil {
		return fmt.Errorf("a change through From(m.Map()) does not show: %v", err)
	}
	if err := gmIs(cl2, ref, nk); err != nil {
		return fmt.Errorf("changing the map changed its clone: %v", err)
	}
	return nil
}

func (y *gmSys) check(what string) error {
	for w := 0; w < 2; w++ {
		if err := gmIs(y.m[w], y.ref[w], y.nk); err != nil {
			return fmt.Errorf("after %s, map %c: %v", what, 'A'+w, err)
		}
	}
	for w := 0; w < 2; w++ {
		for o := 0; o < 2; o++ {
			if err := gmDerived(y.m[w], y.m[o], y.ref[w], y.ref[o], y.nk); err != nil {
				return fmt.Errorf("after %s, map %c: %v", what, 'A'+w, err)
			}
		}
	}
	return nil
}

func gmLadder(c *Ctx, sizes []int) {
	for _, n := range sizes {
		if !c.Case(func() string { return fmt.Sprintf("genmap with %d entries", n) }, func() error {
			m, ref := genmap.New[int, int](), map[int]int{}
			for i := 0; i < n; i++ {
				if v, l := m.LoadOrStore(i, i%5); v != i%5 || l {
					return fmt.Errorf("LoadOrStore of a new key returned (%d, %v)", v, l)
				}
				ref[i] = i % 5
			}
			if err := gmIs(m, ref, n); err != nil {
				return err
			}
			o := m.Clone()
			oref := map[int]int{}
			for k, v := range ref {
				oref[k] = v
			}
			m.DeleteFunc(func(k, v int) bool { return v == 2 || k%7 == 3 })
			for k, v := range ref {
				if v == 2 || k%7 == 3 {
					delete(ref, k)
				}
			}
			if err := gmIs(m, ref, n); err != nil {
				return fmt.Errorf("DeleteFunc: %v", err)
			}
			if err := gmDerived(m, o, ref, oref, n); err != nil {
				return err
			}
			o.CopyTo(m)
			if err := gmDerived(m, o, oref, oref, n); err != nil {
				return err
			}
			if n > 0 {
				o.Store(n/2, 1000)
				oref2 := map[int]int{}
				for k, v := range oref {
					oref2[k] = v
				}
				oref2[n/2] = 1000
				if err := gmDerived(m, o, oref, oref2, n); err != nil {
					return err
				}
			}
			return gmIs(m.Clear(), map[int]int{}, n)
		}) {
			return
		}
	}
}

func gmNil(c *Ctx) {
	c.Case(func() string { return "nil genmap" }, func() error {
		var m genmap.GenMap[int, int]
		if err := gmIs(m, nil, 2); err != nil {
			return err
		}
		if v, ok := m.LoadAndDelete(1); v != 0 || ok {
			return fmt.Errorf("LoadAndDelete on a nil map")
		}
		m.Delete(1)
		m.DeleteFunc(func(k, v int) bool { return true })
		m.Clear()
		m.CopyFrom(nil)
		if !m.EqualFunc(genmap.New[int, int](), func(a, b int) bool { return false }) {
			return fmt.Errorf("a nil map does not equal an empty one")
		}
		n := genmap.New[int, int]().Store(1, 2)
		n.CopyFrom(m)
		m.CopyTo(n)
		if err := gmIs(n, map[int]int{1: 2}, 2); err != nil {
			return err
		}
		if m.EqualFunc(n, func(a, b int) bool { return true }) {
			return fmt.Errorf("a nil map equals a non-empty one")
		}
		cl := m.Clone()
		cl.Store(3, 4)
		return gmIs(cl, map[int]int{3: 4}, 4)
	})
	c.Case(func() string { return "genmap with other types" }, func() error {
		m := genmap.New[any, []int]()
		if v, l := m.LoadOrStore("a", nil); v != nil || l {
			return fmt.Errorf("LoadOrStore(nil slice) returned (%v, %v)", v, l)
		}
		if v, l := m.LoadOrStore("a", []int{1}); v != nil || !l {
			return fmt.Errorf("LoadOrStore on a key holding nil returned (%v, %v)", v, l)
		}
		if v, l := m.LoadOrStoreFunc("a", func() []int { return []int{1} }); v != nil || !l {
			return fmt.Errorf("LoadOrStoreFunc on a key holding nil returned (%v, %v)", v, l)
		}
		if v, l := m.LoadAndStore(nil, []int{2}); v != nil || l {
			return fmt.Errorf("LoadAndStore of a new key returned (%v, %v)", v, l)
		}
		if v, l := m.LoadAndStore(nil, nil); len(v) != 1 || v[0] != 2 || !l {
			return fmt.Errorf("LoadAndStore returned (%v, %v)", v, l)
		}
		if v, l := m.LoadAndDelete("a"); v != nil || !l {
			return fmt.Errorf("LoadAndDelete of a key holding nil returned (%v, %v)", v, l)
		}
		if m.Len() != 1 {
			return fmt.Errorf("Len() = %d, want 1", m.Len())
		}
		return nil
	})
}

func init() {
	register(&Check{ID: "C22", Bounds: "closure of all histories over two sets and 3 (thorough 4) values, under two map iteration orders, all algebra on every reachable pair (also a set with itself and with nil), 4 element types; sets of up to 520 (1026) members",
		Jobs: func(t bool) []Job {
			js := []Job{
				{Name: "ints", Run: func(c *Ctx) { c.BFS(setSpec([]int{math.MinInt, 0, 3, 7}[:pick(t, 4, 4)])) }},
				{Name: "strings", Run: func(c *Ctx) { c.BFS(setSpec([]string{"", "a", "ab"})) }},
				{Name: "floats", Run: func(c *Ctx) { c.BFS(setSpec([]float64{math.Inf(-1), 0, 0.5})) }},
				{Name: "bytes", Run: func(c *Ctx) { c.BFS(setSpec([]uint8{0, 128, 255})) }},
				{Name: "nil", Run: setNil},
				{Name: "ladder", Run: func(c *Ctx) { setLadder(c, ladderShard(0, 1, pick(t, 520, 1100))) }},
			}
			if t {
				js = append(js, Job{Name: "5 ints", Run: func(c *Ctx) { c.BFS(setSpec([]int{1, 2, 3, 4, 5})) }})
			}
			return bothOrders(js)
		}})
	register(&Check{ID: "C23", Bounds: "closure of all histories over two maps with 2 keys x 3 values and 3 keys x 2 values (thorough 3x3), all methods, two map iteration orders, nil maps, maps of up to 520 (1026) entries",
		Jobs: func(t bool) []Job {
			mk := func(k, v int) Job {
				return Job{Name: fmt.Sprintf("closure %dx%d", k, v), Run: func(c *Ctx) {
					c.BFS(Spec{Name: "genmap", Depth: 1000, New: func() Sys { return gmNew(k, v) }})
				}}
			}
			js := []Job{mk(2, 3), mk(3, 2), {Name: "nil", Run: gmNil}, {Name: "ladder", Run: func(c *Ctx) { gmLadder(c, ladderShard(0, 1, pick(t, 1100, 2100))) }}}
			if t {
				js = append(js, mk(3, 3))
			}
			return bothOrders(js)
		}})
}
