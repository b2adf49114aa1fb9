package main

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"

	"github.com/zijiren233/gencontainer/vec"
)

// ---------------------------------------------------------------- C24: editing

type vecSys[T comparable] struct {
	v      *vec.Vec[T]
	ref    []T
	vals   []T
	maxLen int
	cmp    bool // equality is available
	tail   bool // the digest includes the spare capacity
	ops    []vecOp
}

type vecOp struct {
	kind string
	i, j int
	vs   []int // indices into vals; nil and self: own elements
	self bool
}

func (o vecOp) String() string {
	if o.self {
		return fmt.Sprintf("%s(%d,%d, own elements)", o.kind, o.i, o.j)
	}
	return fmt.Sprintf("%s(%d,%d,%v)", o.kind, o.i, o.j, o.vs)
}

func vecOps(nv, maxLen int, cmp bool) (ops []vecOp) {
	var lists [][]int
	lists = append(lists, nil)
	for a := 0; a < nv; a++ {
		lists = append(lists, []int{a})
	}
	lists = append(lists, []int{0, nv - 1}, []int{nv - 1, 0, 0})
	for _, l := range lists {
		ops = append(ops, vecOp{kind: "Push", vs: l})
	}
	ops = append(ops, vecOp{kind: "Push", self: true})
	for _, k := range []string{"Pop", "Reverse", "Clear", "Clip", "First", "Last", "Range"} {
		ops = append(ops, vecOp{kind: k})
	}
	if cmp {
		ops = append(ops, vecOp{kind: "Compact"})
	}
	ops = append(ops, vecOp{kind: "CompactFunc"})
	for _, n := range []int{0, 1, 3} {
		ops = append(ops, vecOp{kind: "Grow", i: n})
	}
	idx := []int{math.MinInt, -1}
	for i := 0; i <= maxLen+1; i++ {
		idx = append(idx, i)
	}
	idx = append(idx, math.MaxInt)
	for _, i := range idx {
		for _, k := range []string{"Get", "Remove", "SplitOff"} {
			ops = append(ops, vecOp{kind: k, i: i})
		}
		for a := 0; a < nv; a++ {
			ops = append(ops, vecOp{kind: "Set", i: i, vs: []int{a}})
			if cmp {
				ops = append(ops, vecOp{kind: "ConpareAndRemove", i: i, vs: []int{a}})
			}
		}
		for _, l := range lists {
			ops = append(ops, vecOp{kind: "Insert", i: i, vs: l})
		}
		ops = append(ops, vecOp{kind: "Insert", i: i, self: true})
		for _, j := range idx {
			for _, k := range []string{"Swap", "Cut", "Delete", "SliceCut"} {
				ops = append(ops, vecOp{kind: k, i: i, j: j})
			}
			for _, l := range lists {
				ops = append(ops, vecOp{kind: "Replace", i: i, j: j, vs: l})
			}
			ops = append(ops, vecOp{kind: "Replace", i: i, j: j, self: true})
		}
	}
	return
}

func (y *vecSys[T]) Ops() int            { return len(y.ops) }
func (y *vecSys[T]) OpName(i int) string { return y.ops[i].String() }
func (y *vecSys[T]) Enabled(i int) bool {
	o := y.ops[i]
	n := len(o.vs)
	if o.self {
		n = len(y.ref)
	}
	switch o.kind {
	case "Push", "Insert":
		return len(y.ref)+n <= y.maxLen
	case "Replace":
		return len(y.ref)+n <= y.maxLen || (o.i >= 0 && o.j >= o.i && o.j <= len(y.ref) && len(y.ref)-(o.j-o.i)+n <= y.maxLen)
	case "Grow":
		return y.v.Cap() <= y.maxLen+2
	}
	return true
}
func (y *vecSys[T]) Digest(f *FP) {
	f.Root(y.v)
	if y.tail {
		s := y.v.Slice()
		s = s[:cap(s)]
		f.Root(&s)
	}
}

func (y *vecSys[T]) Do(i int) error {
	o := y.ops[i]
	n := len(y.ref)
	var zero T
	var vs []T
	for _, x := range o.vs {
		vs = append(vs, y.vals[x])
	}
	arg := vs
	if o.self {
		arg = y.v.Slice()
		vs = append([]T{}, y.ref...)
	}
	in := o.i >= 0 && o.i < n
	rng := o.i >= 0 && o.j >= o.i && o.j <= n
	elem := func(e T, ok bool, want bool) error {
		if ok != want || (want && e != y.ref[o.i]) || (!want && e != zero) {
			return fmt.Errorf("%v returned (%v, %v)", o, e, ok)
		}
		return nil
	}
	del := func(i, j int) { y.ref = append(append([]T{}, y.ref[:i]...), y.ref[j:]...) }
	mustPanic := func(f func()) error {
		if !panics(f) {
			return fmt.Errorf("%v with %d elements did not panic", o, n)
		}
		return nil
	}
	var err error
	switch o.kind {
	case "Push":
		if y.v.Push(arg...) != y.v {
			return fmt.Errorf("Push returned another vector")
		}
		y.ref = append(append([]T{}, y.ref...), vs...)
	case "Pop":
		e, ok := y.v.Pop()
		o.i = n - 1
		if err = elem(e, ok, n > 0); err == nil && n > 0 {
			y.ref = y.ref[: n-1 : n-1]
		}
	case "First", "Last":
		var e T
		var ok bool
		if o.kind == "First" {
			e, ok = y.v.First()
			o.i = 0
		} else {
			e, ok = y.v.Last()
			o.i = n - 1
		}
		err = elem(e, ok, n > 0)
	case "Range":
		for stop := 0; stop <= n; stop++ {
			k, bad := 0, false
			y.v.Range(func(i int, v T) bool {
				bad = bad || i != k || k >= n || v != y.ref[k]
				k++
				return k <= stop && !bad
			})
			if bad || k != min(stop+1, n) {
				return fmt.Errorf("Range told to stop at call %d: %d calls, wrong %v", stop+1, k, bad)
			}
		}
	case "Reverse":
		y.v.Reverse()
		y.ref = append([]T{}, y.ref...)
		slices.Reverse(y.ref)
	case "Clear":
		y.v.Clear()
		y.ref = nil
	case "Clip":
		y.v.Clip()
		if y.v.Cap() != y.v.Len() {
			return fmt.Errorf("Clip leaves room for %d", y.v.Cap()-y.v.Len())
		}
	case "Grow":
		y.v.Grow(o.i)
		if y.v.Cap()-y.v.Len() < o.i {
			return fmt.Errorf("Grow(%d) leaves room for %d", o.i, y.v.Cap()-y.v.Len())
		}
	case "Compact":
		y.v.Compact()
		y.ref = slices.Compact(append([]T{}, y.ref...))
	case "CompactFunc":
		// groups of elements with the same index parity among the values
		eq := func(a, b T) bool { return slices.Index(y.vals, a)%2 == slices.Index(y.vals, b)%2 }
		y.v.CompactFunc(eq)
		y.ref = slices.CompactFunc(append([]T{}, y.ref...), eq)
	case "Get":
		e, ok := y.v.Get(o.i)
		err = elem(e, ok, in)
	case "Remove":
		e, ok := y.v.Remove(o.i)
		if err = elem(e, ok, in); err == nil && in {
			del(o.i, o.i+1)
		}
	case "ConpareAndRemove":
		e, ok := y.v.ConpareAndRemove(o.i, vs[0])
		w := in && y.ref[o.i] == vs[0]
		if err = elem(e, ok, w); err == nil && w {
			del(o.i, o.i+1)
		}
	case "Set":
		ok := y.v.Set(o.i, vs[0])
		if ok != in {
			return fmt.Errorf("%v returned %v", o, ok)
		}
		if in {
			y.ref = append([]T{}, y.ref...)
			y.ref[o.i] = vs[0]
		}
	case "Swap":
		y.v.Swap(o.i, o.j)
		if in && o.j >= 0 && o.j < n {
			y.ref = append([]T{}, y.ref...)
			y.ref[o.i], y.ref[o.j] = y.ref[o.j], y.ref[o.i]
		}
	case "SliceCut":
		s := y.v.SliceCut(o.i, o.j)
		var want []T
		if rng {
			want = y.ref[o.i:o.j]
		}
		if !slices.Equal(s, want) {
			return fmt.Errorf("%v = %v, want %v", o, s, want)
		}
	case "Cut":
		s := y.v.Cut(o.i, o.j)
		var want []T
		if rng {
			want = append(want, y.ref[o.i:o.j]...)
			del(o.i, o.j)
		}
		if !slices.Equal(s, want) {
			return fmt.Errorf("%v returned %v, want %v", o, s, want)
		}
	case "SplitOff":
		s := y.v.SplitOff(o.i)
		var want []T
		if o.i >= 0 && o.i <= n {
			want = append(want, y.ref[o.i:]...)
			del(o.i, n)
		}
		var got []T
		if s != nil {
			got = s.Slice()
		}
		if !slices.Equal(got, want) {
			return fmt.Errorf("%v returned %v, want %v", o, got, want)
		}
		if s != nil {
			s.Push(y.vals[0])
		}
	case "Delete":
		if !rng {
			err = mustPanic(func() { y.v.Delete(o.i, o.j) })
			break
		}
		y.v.Delete(o.i, o.j)
		del(o.i, o.j)
	case "Insert":
		if o.i < 0 || o.i > n {
			p := panics(func() { y.v.Insert(o.i, arg...) })
			if !p && len(vs) > 0 {
				return fmt.Errorf("%v with %d elements did not panic", o, n)
			}
			break
		}
		if y.v.Insert(o.i, arg...) != y.v {
			return fmt.Errorf("Insert returned another vector")
		}
		y.ref = slices.Concat(y.ref[:o.i:o.i], vs, y.ref[o.i:])
	case "Replace":
		if !rng {
			p := panics(func() { y.v.Replace(o.i, o.j, arg...) })
			if !p && len(vs) > 0 {
				return fmt.Errorf("%v with %d elements did not panic", o, n)
			}
			break
		}
		y.v.Replace(o.i, o.j, arg...)
		y.ref = slices.Concat(y.ref[:o.i:o.i], vs, y.ref[o.j:])
	}
	if err != nil {
		return err
	}
	if err := vecIs(y.v, y.ref); err != nil {
		return fmt.Errorf("after %v: %v", o, err)
	}
	return nil
}

func vecIs[T comparable](v *vec.Vec[T], want []T) error {
	if v.Len() != len(want) || v.IsEmpty() != (len(want) == 0) || v.Cap() < len(want) {
		return fmt.Errorf("Len %d, IsEmpty %v, Cap %d, want %v", v.Len(), v.IsEmpty(), v.Cap(), want)
	}
	if !slices.Equal(v.Slice(), want) {
		return fmt.Errorf("holds %v, want %v", v.Slice(), want)
	}
	for i := range want {
		if e, ok := v.Get(i); !ok || e != want[i] {
			return fmt.Errorf("Get(%d) = (%v, %v), want %v", i, e, ok, want[i])
		}
	}
	return nil
}

func vecSpec[T comparable](vals []T, maxLen int, cmp, tail bool, depth, maxStates int, mk func() *vec.Vec[T]) Spec {
	ops := vecOps(len(vals), maxLen, cmp)
	return Spec{Name: "vec", Depth: depth, MaxStates: maxStates, New: func() Sys {
		return &vecSys[T]{v: mk(), vals: vals, maxLen: maxLen, cmp: cmp, tail: tail, ops: ops}
	}}
}

// vecLadder: edits of long vectors at the ends, the middle and the capacity boundary.
func vecLadder(c *Ctx, sizes []int) {
	for _, n := range sizes {
		for variant := 0; variant < 3; variant++ {
			mk := func() (*vec.Vec[int], []int) {
				v := vec.New[int]()
				var ref []int
				switch variant {
				case 0:
					for i := 0; i < n; i++ {
						v.Push(i)
						ref = append(ref, i)
					}
				case 1:
					for i := 0; i < n; i++ {
						ref = append(ref, i*3%7)
					}
					v.Push(ref...).Clip()
				case 2:
					for i := 0; i < n; i++ {
						ref = append(ref, i%2)
					}
					v.Grow(2*n + 3).Push(ref...)
				}
				return v, ref
			}
			pos := []int{math.MinInt, -1, 0, 1, n / 2, n - 1, n, n + 1, math.MaxInt}
			ops := []vecOp{{kind: "Pop"}, {kind: "Reverse"}, {kind: "Clear"}, {kind: "Clip"}, {kind: "First"}, {kind: "Last"}, {kind: "Compact"}, {kind: "Grow", i: n}, {kind: "Push", self: true}, {kind: "Push", vs: []int{1, 0, 1}}}
			for _, i := range pos {
				ops = append(ops, vecOp{kind: "Get", i: i}, vecOp{kind: "Remove", i: i}, vecOp{kind: "SplitOff", i: i}, vecOp{kind: "Set", i: i, vs: []int{1}}, vecOp{kind: "ConpareAndRemove", i: i, vs: []int{1}},
					vecOp{kind: "Insert", i: i, vs: []int{1}}, vecOp{kind: "Insert", i: i, vs: []int{0, 1, 0}}, vecOp{kind: "Insert", i: i, self: true})
				for _, j := range pos {
					for _, k := range []string{"Swap", "Cut", "Delete", "SliceCut"} {
						ops = append(ops, vecOp{kind: k, i: i, j: j})
					}
					ops = append(ops, vecOp{kind: "Replace", i: i, j: j, vs: []int{1}}, vecOp{kind: "Replace", i: i, j: j, self: true}, vecOp{kind: "Replace", i: i, j: j})
				}
			}
			if !c.Case(func() string { return fmt.Sprintf("vec of %d, variant %d", n, variant) }, func() error {
				for k := range ops {
					v, ref := mk()
					y := &vecSys[int]{v: v, ref: ref, vals: []int{0, 1}, cmp: true, ops: ops}
					c.Trans++
					if err := y.Do(k); err != nil {
						return err
					}
					// and once more, on what it left
					if err := y.Do((k * 7) % len(ops)); err != nil {
						return fmt.Errorf("after %v: %v", ops[k], err)
					}
				}
				return nil
			}) {
				return
			}
		}
	}
}

// vecOwn: Push, Insert and Replace with every range of the vector's own elements, at every
// position and every spare capacity.
func vecOwn(c *Ctx, maxLen int) {
	for n := 0; n <= maxLen; n++ {
		for spare := 0; spare <= 2*n+1; spare++ {
			ok := c.Case(func() string { return fmt.Sprintf("vec of %d with room for %d more, own elements", n, spare) }, func() error {
				var ref []int
				for i := 0; i < n; i++ {
					ref = append(ref, 10+i)
				}
				mk := func() *vec.Vec[int] {
					v := vec.New[int]()
					v.Grow(n + spare).Push(ref...)
					return v
				}
				for lo := 0; lo <= n; lo++ {
					for hi := lo; hi <= n; hi++ {
						own := slices.Clone(ref[lo:hi])
						c.Trans++
						v := mk()
						if err := vecIs(v.Push(v.Slice()[lo:hi]...), slices.Concat(ref, own)); err != nil {
							return fmt.Errorf("Push of its own elements [%d:%d]: %v", lo, hi, err)
						}
						for i := 0; i <= n; i++ {
							c.Trans++
							v := mk()
							if err := vecIs(v.Insert(i, v.Slice()[lo:hi]...), slices.Concat(ref[:i], own, ref[i:])); err != nil {
								return fmt.Errorf("Insert(%d) of its own elements [%d:%d]: %v", i, lo, hi, err)
							}
							for j := i; j <= n; j++ {
								c.Trans++
								v := mk()
								v.Replace(i, j, v.Slice()[lo:hi]...)
								if err := vecIs(v, slices.Concat(ref[:i], own, ref[j:])); err != nil {
									return fmt.Errorf("Replace(%d, %d) with its own elements [%d:%d]: %v", i, j, lo, hi, err)
								}
							}
						}
					}
				}
				return nil
			})
			if !ok {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- C25: independence

// vecEdits are edits of a vector that touch its array in every way.
var vecEdits = []struct {
	name string
	f    func(v *vec.Vec[int])
}{
	{"Set all", func(v *vec.Vec[int]) {
		for i := 0; i < v.Len(); i++ {
			v.Set(i, 90+i)
		}
	}},
	{"Push", func(v *vec.Vec[int]) { v.Push(91) }},
	{"Push many", func(v *vec.Vec[int]) { v.Push(91, 92, 93, 94, 95, 96, 97, 98, 99) }},
	{"Insert front", func(v *vec.Vec[int]) { v.Insert(0, 91) }},
	{"Reverse", func(v *vec.Vec[int]) { v.Reverse() }},
	{"Remove and push", func(v *vec.Vec[int]) { v.Remove(0); v.Push(91, 92) }},
	{"Cut and push", func(v *vec.Vec[int]) { v.Cut(0, v.Len()); v.Push(91, 92, 93) }},
	{"Clear and push", func(v *vec.Vec[int]) { v.Clear().Push(91, 92, 93, 94) }},
	{"Sort descending", func(v *vec.Vec[int]) {
		v.SortFunc(func(a, b int) bool { return a > b }, func(a, b int) bool { return a == b })
	}},
	{"Pop and push", func(v *vec.Vec[int]) { v.Pop(); v.Push(91) }},
	{"Replace all", func(v *vec.Vec[int]) { v.Replace(0, v.Len(), 91, 92, 93) }},
	{"Delete and grow", func(v *vec.Vec[int]) {
		if v.Len() > 0 {
			v.Delete(0, 1)
		}
		v.Grow(1).Push(91)
	}},
	{"Swap ends", func(v *vec.Vec[int]) { v.Swap(0, v.Len()-1) }},
	{"write through Slice", func(v *vec.Vec[int]) {
		s := v.Slice()
		for i := range s {
			s[i] = 93
		}
		_ = append(s, 94)
	}},
}

// vecMakers lead to vectors with given contents and different spare capacity.
var vecMakers = []func(vals []int) *vec.Vec[int]{
	func(vals []int) *vec.Vec[int] { return vec.New[int]().Push(vals...).Clip() },
	func(vals []int) *vec.Vec[int] { return vec.New[int]().Grow(20).Push(vals...) },
	func(vals []int) *vec.Vec[int] {
		v := vec.New[int]()
		for _, x := range vals {
			v.Push(x)
		}
		return v
	},
	func(vals []int) *vec.Vec[int] {
		v := vec.New[int]().Push(7, 8, 9).Push(vals...).Push(5, 6)
		v.Delete(v.Len()-2, v.Len())
		v.Cut(0, 3)
		return v
	},
	func(vals []int) *vec.Vec[int] {
		v := vec.New[int]().Push(vals...)
		v.Push(1, 2, 3, 4)
		return v.SplitOff(len(vals)).Clear().Push(vals...)
	},
}

type derived struct {
	name string
	make func(v *vec.Vec[int], i, j int) (*vec.Vec[int], []int)
	cuts bool // removes [i, j) from the vector
}

var vecDerived = []derived{
	{"Clone", func(v *vec.Vec[int], i, j int) (*vec.Vec[int], []int) { return v.Clone(), nil }, false},
	{"CloneToSlice", func(v *vec.Vec[int], i, j int) (*vec.Vec[int], []int) { return nil, v.CloneToSlice() }, false},
	{"SplitOff", func(v *vec.Vec[int], i, j int) (*vec.Vec[int], []int) { return v.SplitOff(i), nil }, true},
	{"Cut", func(v *vec.Vec[int], i, j int) (*vec.Vec[int], []int) { return nil, v.Cut(i, j) }, true},
}

func vecIndep(vals []int, maker, d, i, j, edit int) error {
	v := vecMakers[maker](vals)
	if err := vecIs(v, vals); err != nil {
		return err
	}
	D := vecDerived[d]
	want, rest := append([]int{}, vals...), append([]int{}, vals...)
	if D.cuts {
		want = append([]int{}, vals[i:j]...)
		rest = slices.Concat(vals[:i:i], vals[j:])
	}
	dv, ds := D.make(v, i, j)
	get := func() []int {
		if dv != nil {
			return dv.Slice()
		}
		return ds
	}
	what := fmt.Sprintf("%s(%d,%d) of %v (maker %d)", D.name, i, j, vals, maker)
	if !slices.Equal(get(), want) {
		return fmt.Errorf("%s = %v, want %v", what, get(), want)
	}
	if !slices.Equal(v.Slice(), rest) {
		return fmt.Errorf("%s leaves %v, want %v", what, v.Slice(), rest)
	}
	e := vecEdits[edit]
	// edit the original
	e.f(v)
	if !slices.Equal(get(), want) {
		return fmt.Errorf("%s, then %s on the original: the result became %v, was %v", what, e.name, get(), want)
	}
	// edit the result
	v2 := vecMakers[maker](vals)
	dv, ds = D.make(v2, i, j)
	if dv != nil {
		e.f(dv)
	} else {
		for k := range ds {
			ds[k] = 77
		}
		ds = append(ds, 78, 79)
		for k := range ds[:cap(ds)] {
			ds[:cap(ds)][k] = 80
		}
	}
	if !slices.Equal(v2.Slice(), rest) {
		return fmt.Errorf("%s, then %s on the result: the original became %v, was %v", what, e.name, v2.Slice(), rest)
	}
	// both, in turn, and two results of one vector
	v3 := vecMakers[maker](vals)
	dv, ds = D.make(v3, i, j)
	dv2, ds2 := v3.Clone(), v3.CloneToSlice()
	e.f(v3)
	e.f(dv2)
	if !slices.Equal(get(), want) || !slices.Equal(ds2, rest) {
		return fmt.Errorf("%s, then edits of the original and of a clone: results %v and %v, want %v and %v", what, get(), ds2, want, rest)
	}
	return nil
}

// vecArgs: values passed in are copied.
func vecArgs(vals []int, maker, op, i, j, spare, edit int) error {
	v := vecMakers[maker](vals)
	args := make([]int, 0, 3+spare)
	args = append(args, 41, 42, 43)
	var want []int
	name := ""
	switch op {
	case 0:
		v.Push(args...)
		want = slices.Concat(vals, args)
		name = "Push"
	case 1:
		v.Insert(i, args...)
		want = slices.Concat(vals[:i:i], args, vals[i:])
		name = "Insert"
	case 2:
		v.Replace(i, j, args...)
		want = slices.Concat(vals[:i:i], args, vals[j:])
		name = "Replace"
	}
	for k := range args[:cap(args)] {
		args[:cap(args)][k] = -1
	}
	if !slices.Equal(v.Slice(), want) {
		return fmt.Errorf("%s(%d,%d) into %v (maker %d), then changing the argument slice: the vector is %v, want %v", name, i, j, vals, maker, v.Slice(), want)
	}
	vecEdits[edit].f(v)
	for k := range args[:cap(args)] {
		if args[:cap(args)][k] != -1 {
			return fmt.Errorf("%s into %v (maker %d), then %s: the argument slice changed", name, vals, maker, vecEdits[edit].name)
		}
	}
	return nil
}

func vecIndepEnum(c *Ctx, n int, shard, shards int) {
	k := 0
	for maker := range vecMakers {
		for len := 0; len <= n; len++ {
			vals := make([]int, len)
			for i := range vals {
				vals[i] = i + 1
			}
			for edit := range vecEdits {
				for i := 0; i <= len; i++ {
					for j := i; j <= len; j++ {
						for d := range vecDerived {
							if (d < 2 && (i > 0 || j > 0)) || (d == 2 && j != len) {
								continue
							}
							k++
							if k%shards != shard {
								continue
							}
							if !c.Case(func() string {
								return fmt.Sprintf("%s(%d,%d) of %d elements, maker %d, edit %s", vecDerived[d].name, i, j, len, maker, vecEdits[edit].name)
							}, func() error { return vecIndep(vals, maker, d, i, j, edit) }) {
								return
							}
						}
						for op := 0; op < 3; op++ {
							if (op == 0 && (i > 0 || j > 0)) || (op == 1 && j != i) {
								continue
							}
							for _, spare := range []int{0, 5} {
								k++
								if k%shards != shard {
									continue
								}
								if !c.Case(func() string {
									return fmt.Sprintf("argument of op %d (%d,%d) with %d elements, maker %d, edit %s", op, i, j, len, maker, vecEdits[edit].name)
								}, func() error { return vecArgs(vals, maker, op, i, j, spare, edit) }) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

// vecCmpKept: the comparison functions of Clone and SplitOff results behave like the original's.
func vecCmpKept(c *Ctx) {
	type P struct{ a, b int }
	vals := []P{{1, 1}, {1, 2}, {2, 1}}
	for conf := 0; conf < 4; conf++ {
		for how := 0; how < 2; how++ {
			if !c.Case(func() string { return fmt.Sprintf("comparison functions, configuration %d, derived %d", conf, how) }, func() error {
				lessA := func(x, y P) bool { return x.a > y.a }
				eqA := func(x, y P) bool { return x.a == y.a }
				v := vec.New(vec.WithCmpLess(lessA), vec.WithCmpEqual(eqA))
				switch conf {
				case 1:
					v = vec.New[P]().SetCmpLess(lessA).SetCmpEqual(eqA)
				case 2:
					v = vec.New(vec.WithCmpLess(func(x, y P) bool { return false }), vec.WithCmpEqual(func(x, y P) bool { return false })).SetCmpLess(lessA).SetCmpEqual(eqA)
				case 3:
					v = vec.New(vec.WithCmpLess(lessA), vec.WithCmpEqual(eqA)).Clone()
				}
				v.Push(vals...)
				d := v.Clone()
				if how == 1 {
					d = v.SplitOff(0)
				}
				for _, x := range vals {
					for _, y := range vals {
						if d.CmpLess(x, y) != lessA(x, y) || d.CmpEqual(x, y) != eqA(x, y) {
							return fmt.Errorf("the derived vector compares %v and %v differently", x, y)
						}
					}
				}
				d.SortStable()
				if !slices.Equal(d.Slice(), []P{{2, 1}, {1, 1}, {1, 2}}) {
					return fmt.Errorf("the derived vector sorts to %v", d.Slice())
				}
				if d.Search(P{1, 9}) != 1 || !d.Contains(P{2, 7}) || d.Contains(P{3, 1}) {
					return fmt.Errorf("the derived vector searches with another equality")
				}
				return nil
			}) {
				return
			}
		}
	}
	c.Case(func() string { return "detected comparison functions" }, func() error {
		v := vec.New[string]().Push("a10", "a9")
		for _, d := range []*vec.Vec[string]{v.Clone(), v.Clone().Clone(), v.Clone().SplitOff(0)} {
			if d.Sort(); !slices.Equal(d.Slice(), []string{"a9", "a10"}) {
				return fmt.Errorf("the derived vector sorts to %v", d.Slice())
			}
			if d.Search("a10") != 1 {
				return fmt.Errorf("the derived vector does not find its element")
			}
		}
		return nil
	})
	// types with no detectable order can be cloned and split too
	c.Case(func() string { return "no comparison functions" }, func() error {
		v := vec.New[rwKeyS]().Push(rwKeyS{1, "a"}, rwKeyS{2, "b"})
		d := v.Clone()
		s := v.SplitOff(1)
		if d.Len() != 2 || s.Len() != 1 || v.Len() != 1 {
			return fmt.Errorf("lengths %d %d %d", d.Len(), s.Len(), v.Len())
		}
		return nil
	})
}

// ---------------------------------------------------------------- C26: order

// vecOrder checks every order- and equality-based method on one sequence.
type ordCase[T any] struct {
	name     string
	vals     []T // the alphabet
	less, eq func(a, b T) bool
	nan      func(a T) bool // values unequal to themselves
	set      func(v *vec.Vec[T]) *vec.Vec[T]
}

func vecOrderCheck[T any](o *ordCase[T], ids []int, targets []int) error {
	mk := func() *vec.Vec[T] {
		v := vec.New[T]()
		if o.set != nil {
			v = o.set(v)
		}
		for _, i := range ids {
			v.Push(o.vals[i])
		}
		return v
	}
	in := make([]T, len(ids))
	hasNaN := false
	for k, i := range ids {
		in[k] = o.vals[i]
		hasNaN = hasNaN || (o.nan != nil && o.nan(in[k]))
	}
	// identity of elements: position in the alphabet, found through DeepEqual-free comparison of bits
	idOf := func(x T) int {
		for i := range o.vals {
			if sameBits(x, o.vals[i]) {
				return i
			}
		}
		return -1
	}
	idsOf := func(s []T) (r []int) {
		for _, x := range s {
			r = append(r, idOf(x))
		}
		return
	}
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s %v: %s", o.name, show(in), fmt.Sprintf(f, a...))
	}
	sorted := true
	for i := 1; i < len(in); i++ {
		if o.less(in[i], in[i-1]) {
			sorted = false
		}
	}
	if g := mk().IsSorted(); g != sorted {
		return fail("IsSorted() = %v", g)
	}
	if g := mk().IsSortedFunc(o.less, o.eq); g != sorted {
		return fail("IsSortedFunc() = %v", g)
	}
	rless := func(a, b T) bool { return o.less(b, a) }
	stable := append([]int{}, ids...)
	sort.SliceStable(stable, func(i, j int) bool { return o.less(o.vals[stable[i]], o.vals[stable[j]]) })
	rstable := append([]int{}, ids...)
	sort.SliceStable(rstable, func(i, j int) bool { return o.less(o.vals[rstable[j]], o.vals[rstable[i]]) })
	for k, f := range []func(v *vec.Vec[T]) *vec.Vec[T]{
		func(v *vec.Vec[T]) *vec.Vec[T] { return v.Sort() },
		func(v *vec.Vec[T]) *vec.Vec[T] { return v.SortStable() },
		func(v *vec.Vec[T]) *vec.Vec[T] { return v.SortFunc(o.less, o.eq) },
		func(v *vec.Vec[T]) *vec.Vec[T] { return v.SortStableFunc(o.less, o.eq) },
		func(v *vec.Vec[T]) *vec.Vec[T] { return v.SortFunc(rless, o.eq) },
		func(v *vec.Vec[T]) *vec.Vec[T] { return v.SortStableFunc(rless, o.eq) },
	} {
		name := []string{"Sort", "SortStable", "SortFunc", "SortStableFunc", "SortFunc reversed", "SortStableFunc reversed"}[k]
		v := mk()
		if f(v) != v {
			return fail("%s returned another vector", name)
		}
		got := idsOf(v.Slice())
		want := stable
		less := o.less
		if k >= 4 {
			want, less = rstable, rless
		}
		if k%2 == 1 {
			if !slices.Equal(got, want) {
				return fail("%s gave %v, want %v", name, show(v.Slice()), want)
			}
			continue
		}
		if !sameMultiset(got, ids) {
			return fail("%s gave %v, which is not a permutation", name, show(v.Slice()))
		}
		for i := 1; i < len(got); i++ {
			if less(o.vals[got[i]], o.vals[got[i-1]]) {
				return fail("%s gave %v, which is not ordered", name, show(v.Slice()))
			}
		}
	}
	// searching
	for _, t := range targets {
		x := o.vals[t]
		isNaN := o.nan != nil && o.nan(x)
		v := mk()
		first, all := -1, []int(nil)
		for i := range in {
			if o.eq(in[i], x) {
				if first < 0 {
					first = i
				}
				all = append(all, i)
			}
		}
		if !isNaN {
			if g := v.Search(x); g != first {
				return fail("Search(%v) = %d, want %d", show1(x), g, first)
			}
			if g := v.SearchFunc(func(y T) bool { return o.eq(y, x) }); g != first {
				return fail("SearchFunc(%v) = %d, want %d", show1(x), g, first)
			}
			if g := v.SearchAll(x); !slices.Equal(g, all) {
				return fail("SearchAll(%v) = %v, want %v", show1(x), g, all)
			}
			if g := v.SearchAllFunc(func(y T) bool { return o.eq(y, x) }); !slices.Equal(g, all) {
				return fail("SearchAllFunc(%v) = %v, want %v", show1(x), g, all)
			}
			if g := v.Contains(x); g != (first >= 0) {
				return fail("Contains(%v) = %v", show1(x), g)
			}
			if g := v.ContainsFunc(func(y T) bool { return o.eq(y, x) }); g != (first >= 0) {
				return fail("ContainsFunc(%v) = %v", show1(x), g)
			}
		}
		v.SortStable()
		pos := 0
		for pos < len(in) && o.less(o.vals[stable[pos]], x) {
			pos++
		}
		g, found := v.BinarySearch(x)
		if g != pos || (!isNaN && found != (first >= 0)) {
			return fail("sorted, BinarySearch(%v) = (%d, %v), want (%d, %v)", show1(x), g, found, pos, first >= 0)
		}
		g, found = v.BinarySearchFunc(x, func(val, t T) int {
			if o.less(val, t) {
				return -1
			}
			if o.less(t, val) {
				return 1
			}
			return 0
		})
		if g != pos || (!isNaN && found != (first >= 0)) {
			return fail("sorted, BinarySearchFunc(%v) = (%d, %v), want (%d, %v)", show1(x), g, found, pos, first >= 0)
		}
		if !slices.Equal(idsOf(v.Slice()), stable) {
			return fail("searching changed the vector")
		}
	}
	if len(in) > 0 {
		for k, x := range []T{mk().Min(), mk().MinFunc(o.less, o.eq), mk().Max(), mk().MaxFunc(o.less, o.eq)} {
			name := []string{"Min", "MinFunc", "Max", "MaxFunc"}[k]
			id := idOf(x)
			if !slices.Contains(ids, id) {
				return fail("%s gave %v, which is not an element", name, show1(x))
			}
			for _, y := range in {
				if (k < 2 && o.less(y, x)) || (k >= 2 && o.less(x, y)) {
					return fail("%s gave %v although %v is an element", name, show1(x), show1(y))
				}
			}
		}
	}
	v := mk()
	for i := range in {
		for j := range in {
			if v.Less(i, j) != o.less(in[i], in[j]) || v.CmpLess(in[i], in[j]) != o.less(in[i], in[j]) {
				return fail("Less(%d, %d) = %v", i, j, v.Less(i, j))
			}
			if v.Equal(i, j) != o.eq(in[i], in[j]) || v.CmpEqual(in[i], in[j]) != o.eq(in[i], in[j]) {
				return fail("Equal(%d, %d) = %v", i, j, v.Equal(i, j))
			}
		}
	}
	if !hasNaN {
		var want []int
		for k, i := range ids {
			if k == 0 || !o.eq(o.vals[i], o.vals[want[len(want)-1]]) {
				want = append(want, i)
			}
		}
		// Compact keeps the first of each run
		if got := idsOf(mk().Compact().Slice()); !slices.Equal(got, want) {
			return fail("Compact gave %v", show(mk().Compact().Slice()))
		}
		v := mk()
		v.CompactFunc(o.eq)
		if got := idsOf(v.Slice()); !slices.Equal(got, want) {
			return fail("CompactFunc gave %v", show(v.Slice()))
		}
	}
	return nil
}

// vecCompareCheck checks Compare and the equality methods on a pair.
func vecCompareCheck[T any](o *ordCase[T], a, b []int) error {
	mk := func(ids []int) *vec.Vec[T] {
		v := vec.New[T]()
		if o.set != nil {
			v = o.set(v)
		}
		for _, i := range ids {
			v.Push(o.vals[i])
		}
		return v
	}
	want := 0
	eq := len(a) == len(b)
	for i := 0; i < len(a) && i < len(b); i++ {
		x, y := o.vals[a[i]], o.vals[b[i]]
		if !o.eq(x, y) {
			eq = false
		}
		if want == 0 {
			if o.less(x, y) {
				want = -1
			} else if o.less(y, x) {
				want = 1
			}
		}
	}
	if want == 0 {
		want = sign(len(a) - len(b))
	}
	va, vb := mk(a), mk(b)
	fail := func(what string, got any) error {
		return fmt.Errorf("%s: %s of %v and %v = %v", o.name, what, show(va.Slice()), show(vb.Slice()), got)
	}
	if g := va.Compare(*vb); sign(g) != want {
		return fail("Compare", g)
	}
	if g := va.CompareFunc(*vb, o.less, o.eq); sign(g) != want {
		return fail("CompareFunc", g)
	}
	for _, g := range []bool{va.EqualVec(*vb), va.EqualSlice(vb.Slice()), va.EqualVecFunc(*vb, o.eq), va.EqualSliceFunc(vb.Slice(), o.eq)} {
		if g != eq {
			return fail("an equality method", g)
		}
	}
	return nil
}

func sign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func sameBits(a, b any) bool {
	switch x := a.(type) {
	case float64:
		return math.Float64bits(x) == math.Float64bits(b.(float64))
	case myFlo:
		return math.Float32bits(float32(x)) == math.Float32bits(float32(b.(myFlo)))
	case float32:
		return math.Float32bits(x) == math.Float32bits(b.(float32))
	}
	return a == b // pointers: identity
}

func show1(x any) string {
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Pointer && !v.IsNil() {
		return fmt.Sprintf("&%v", v.Elem())
	}
	return fmt.Sprintf("%#v", x)
}

func show[T any](s []T) string {
	r := "["
	for i, x := range s {
		if i > 0 {
			r += " "
		}
		if i > 40 {
			return r + "...]"
		}
		r += show1(x)
	}
	return r + "]"
}

func vecOrderEnum[T any](o ordCase[T], n int, cmpN int) func(c *Ctx) {
	return func(c *Ctx) {
		targets := make([]int, len(o.vals))
		for i := range targets {
			targets[i] = i
		}
		seqsUpTo(n, len(o.vals), func(s []int) bool {
			return c.Case(func() string { return fmt.Sprintf("%s %v", o.name, s) }, func() error { return vecOrderCheck(&o, s, targets) })
		})
		var plain []int
		for i := range o.vals {
			if o.nan == nil || !o.nan(o.vals[i]) {
				plain = append(plain, i)
			}
		}
		seqsUpTo(cmpN, len(plain), func(a []int) bool {
			return seqsUpTo(cmpN, len(plain), func(b []int) bool {
				x, y := make([]int, len(a)), make([]int, len(b))
				for i := range a {
					x[i] = plain[a[i]]
				}
				for i := range b {
					y[i] = plain[b[i]]
				}
				return c.Case(func() string { return fmt.Sprintf("%s compare %v %v", o.name, x, y) }, func() error { return vecCompareCheck(&o, x, y) })
			})
		})
	}
}

func vecOrderLong[T any](o ordCase[T], maxN int) func(c *Ctx) {
	return func(c *Ctx) {
		k := len(o.vals)
		for _, n := range ladderSizes {
			if n > maxN {
				break
			}
			for p, pat := range patterns(n) {
				ids := make([]int, n)
				for i, x := range pat {
					ids[i] = ((x % k) + k) % k
					if p == 0 || p == 6 {
						ids[i] = i * k / max(n, 1)
					}
					if p == 1 {
						ids[i] = k - 1 - i*k/max(n, 1)
					}
				}
				if !c.Case(func() string { return fmt.Sprintf("%s long %d pattern %d", o.name, n, p) }, func() error {
					return vecOrderCheck(&o, ids, []int{0, k / 2, k - 1})
				}) {
					return
				}
				if p > 0 && n > 0 && o.nan == nil {
					alt := append([]int{}, ids...)
					alt[n-1] = (alt[n-1] + 1) % k
					if !c.Case(func() string { return fmt.Sprintf("%s long compare %d pattern %d", o.name, n, p) }, func() error {
						for _, b := range [][]int{ids, alt, ids[:n-1]} {
							if err := vecCompareCheck(&o, ids, b); err != nil {
								return err
							}
							if err := vecCompareCheck(&o, b, ids); err != nil {
								return err
							}
						}
						return nil
					}) {
						return
					}
				}
			}
		}
	}
}

func natural[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | float32 | float64](name string, vals []T) ordCase[T] {
	return ordCase[T]{name: name, vals: vals,
		less: func(a, b T) bool { return a < b || (a != a && b == b) }, eq: func(a, b T) bool { return a == b }, nan: func(a T) bool { return a != a }}
}

func pointers[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | float32 | float64](name string, vals []T) ordCase[*T] {
	var ps []*T
	for _, v := range vals {
		p := new(T)
		*p = v
		ps = append(ps, p)
	}
	return ordCase[*T]{name: name, vals: ps,
		less: func(a, b *T) bool { return *a < *b || (*a != *a && *b == *b) }, eq: func(a, b *T) bool { return *a == *b }, nan: func(a *T) bool { return *a != *a }}
}

func natLess(a, b string) bool {
	for a != "" && b != "" {
		da, db := digits(a), digits(b)
		if da > 0 && db > 0 {
			if da != db {
				return da < db // no leading zeros in the alphabet
			}
			if a[:da] != b[:db] {
				return a[:da] < b[:db]
			}
			a, b = a[da:], b[db:]
			continue
		}
		if a[0] != b[0] {
			return a[0] < b[0]
		}
		a, b = a[1:], b[1:]
	}
	return a == "" && b != ""
}

func digits(s string) (n int) {
	for n < len(s) && s[n] >= '0' && s[n] <= '9' {
		n++
	}
	return
}

type myInt int
type myStr string
type myFlo float32
type kv struct{ k, id int }

func init() {
	register(&Check{ID: "C24", Bounds: "closure of all edits (all index arguments from below to beyond the ends, extreme ints, own elements) of vectors up to length 6 (thorough 7) over 2 values, with every reachable capacity, and up to length 4 (thorough 5) with the contents of the spare capacity told apart; every range of its own elements pushed, inserted and replaced in vectors up to 12 (thorough 16) elements with every spare capacity; other element types; vectors of up to 1026 elements",
		Jobs: func(t bool) []Job {
			js := []Job{
				{Name: "ints", Run: func(c *Ctx) {
					c.BFS(vecSpec([]int{1, 2}, pick(t, 6, 7), true, false, 1000, pick(t, 1000000, 6000000), func() *vec.Vec[int] { return vec.New[int]() }))
				}},
				{Name: "ints with spare contents", Run: func(c *Ctx) {
					c.BFS(vecSpec([]int{1, 2}, pick(t, 4, 5), true, true, 1000, pick(t, 600000, 4000000), func() *vec.Vec[int] { return vec.New[int]() }))
				}},
				{Name: "strings", Run: func(c *Ctx) {
					c.BFS(vecSpec([]string{"", "x"}, 3, true, false, 1000, 100000, func() *vec.Vec[string] { return vec.New[string]() }))
				}},
				{Name: "structs without order", Run: func(c *Ctx) {
					c.BFS(vecSpec([]rwKeyS{{}, {1, "x"}}, 3, false, false, 1000, 100000, func() *vec.Vec[rwKeyS] { return vec.New[rwKeyS]() }))
				}},
				{Name: "structs with equality", Run: func(c *Ctx) {
					c.BFS(vecSpec([]rwKeyS{{}, {1, "x"}}, 3, true, false, 1000, 100000, func() *vec.Vec[rwKeyS] {
						return vec.New(vec.WithCmpEqual(func(a, b rwKeyS) bool { return a == b }))
					}))
				}},
				{Name: "zero vector", Run: func(c *Ctx) {
					c.BFS(vecSpec([]int{0, 2}, 3, true, false, 1000, 100000, func() *vec.Vec[int] { return &vec.Vec[int]{} }))
				}},
				{Name: "three values", Run: func(c *Ctx) {
					c.BFS(vecSpec([]int8{0, -1, 5}, 3, true, false, 1000, 100000, func() *vec.Vec[int8] { return vec.New[int8]() }))
				}},
			}
			js = append(js, Job{Name: "own elements", Run: func(c *Ctx) { vecOwn(c, pick(t, 12, 16)) }})
			for i := 0; i < 6; i++ {
				js = append(js, Job{Name: fmt.Sprintf("ladder/%d", i), Run: func(c *Ctx) { vecLadder(c, ladderShard(i, 6, pick(t, 1100, 2100))) }})
			}
			return js
		}})
	register(&Check{ID: "C25", Bounds: "every derived object of vectors up to 9 (thorough 14) elements with five capacity histories, every cut, followed by each of 14 edits of either side; argument slices with and without spare capacity",
		Jobs: func(t bool) []Job {
			var js []Job
			for i := 0; i < 4; i++ {
				js = append(js, Job{Name: fmt.Sprintf("independence/%d", i), Run: func(c *Ctx) { vecIndepEnum(c, pick(t, 9, 14), i, 4) }})
			}
			js = append(js, Job{Name: "comparison functions", Run: vecCmpKept})
			js = append(js, Job{Name: "long", Run: func(c *Ctx) {
				for _, n := range ladderSizes {
					if n < 6 || n > pick(t, 1100, 2100) {
						continue
					}
					vals := make([]int, n)
					for i := range vals {
						vals[i] = i + 1
					}
					for maker := range vecMakers {
						for d := range vecDerived {
							for edit := range vecEdits {
								for _, ij := range [][2]int{{0, n}, {1, n}, {n / 2, n}, {n - 1, n}, {n, n}} {
									if !c.Case(func() string {
										return fmt.Sprintf("%s of %d elements, maker %d, edit %s", vecDerived[d].name, n, maker, vecEdits[edit].name)
									}, func() error { return vecIndep(vals, maker, d, ij[0], ij[1], edit) }) {
										return
									}
								}
							}
						}
					}
				}
			}})
			return js
		}})
	register(&Check{ID: "C26", Bounds: "all sequences up to length 4-5 (thorough 5-7) over the alphabets of 14 element types (every integer width with its extremes, floats with NaN, infinities and both zeros, naturally ordered strings, pointers, named types, explicit functions), every target; all pairs up to length 3 (4) for comparison; patterned sequences up to 1026",
		Jobs: func(t bool) []Job {
			n, m := pick(t, 5, 7), pick(t, 3, 4)
			long := pick(t, 1100, 2100)
			nan := math.NaN()
			var js []Job
			add := func(name string, short, lng func(c *Ctx)) {
				js = append(js, Job{Name: name, Run: short}, Job{Name: name + " long", Run: lng})
			}
			i1 := natural("int", []int{math.MinInt, -1, 0, math.MaxInt})
			add("int", vecOrderEnum(i1, n, m), vecOrderLong(i1, long))
			i8 := natural("int8", []int8{-128, -1, 0, 127})
			add("int8", vecOrderEnum(i8, n, m), vecOrderLong(i8, long/3))
			i16 := natural("int16", []int16{-32768, 300, 32767})
			add("int16", vecOrderEnum(i16, n, m), vecOrderLong(i16, 40))
			i32 := natural("int32", []int32{math.MinInt32, 70000, math.MaxInt32})
			add("int32", vecOrderEnum(i32, n, m), vecOrderLong(i32, 40))
			i64 := natural("int64", []int64{math.MinInt64, -5e9, 5e9, math.MaxInt64})
			add("int64", vecOrderEnum(i64, n, m), vecOrderLong(i64, 40))
			u := natural("uint", []uint{0, 1, 1 << 63, math.MaxUint})
			add("uint", vecOrderEnum(u, n, m), vecOrderLong(u, 40))
			u8 := natural("uint8", []uint8{0, 127, 128, 255})
			add("uint8", vecOrderEnum(u8, n, m), vecOrderLong(u8, 40))
			u16 := natural("uint16", []uint16{0, 300, 65535})
			add("uint16", vecOrderEnum(u16, n, m), vecOrderLong(u16, 40))
			u32 := natural("uint32", []uint32{0, 1 << 31, math.MaxUint32})
			add("uint32", vecOrderEnum(u32, n, m), vecOrderLong(u32, 40))
			u64 := natural("uint64", []uint64{0, 1 << 63, 1<<63 - 1, math.MaxUint64})
			add("uint64", vecOrderEnum(u64, n, m), vecOrderLong(u64, 40))
			f64 := natural("float64", []float64{nan, math.Inf(-1), math.Copysign(0, -1), 0, 0.5, math.Inf(1)})
			add("float64", vecOrderEnum(f64, n, m), vecOrderLong(f64, long/3))
			f32 := natural("float32", []float32{float32(nan), -1.5, math.SmallestNonzeroFloat32, math.MaxFloat32})
			add("float32", vecOrderEnum(f32, n, m), vecOrderLong(f32, 40))
			st := ordCase[string]{name: "string", vals: []string{"", "a", "a1", "a2", "a10", "a2b", "9", "10"}, less: natLess, eq: func(a, b string) bool { return a == b }}
			add("string", vecOrderEnum(st, pick(t, 4, 5), pick(t, 2, 3)), vecOrderLong(st, long/3))
			pi := pointers("*int", []int{3, -1, 3, math.MaxInt})
			add("*int", vecOrderEnum(pi, n, m), vecOrderLong(pi, 130))
			pf := pointers("*float64", []float64{nan, -2, 0.25})
			add("*float64", vecOrderEnum(pf, n, m), vecOrderLong(pf, 40))
			pu := pointers("*uint8", []uint8{200, 3, 3})
			add("*uint8", vecOrderEnum(pu, n, m), vecOrderLong(pu, 40))
			var ps []*string
			for _, s := range []string{"a10", "a9", "b"} {
				ps = append(ps, &s)
			}
			pst := ordCase[*string]{name: "*string", vals: ps, less: func(a, b *string) bool { return natLess(*a, *b) }, eq: func(a, b *string) bool { return *a == *b }}
			add("*string", vecOrderEnum(pst, n, m), vecOrderLong(pst, 40))
			mi := ordCase[myInt]{name: "named int", vals: []myInt{-2, 0, 7}, less: func(a, b myInt) bool { return a < b }, eq: func(a, b myInt) bool { return a == b }}
			add("named int", vecOrderEnum(mi, n, m), vecOrderLong(mi, 40))
			ms := ordCase[myStr]{name: "named string", vals: []myStr{"z9", "z10", ""}, less: func(a, b myStr) bool { return natLess(string(a), string(b)) }, eq: func(a, b myStr) bool { return a == b }}
			add("named string", vecOrderEnum(ms, n, m), vecOrderLong(ms, 40))
			// explicit functions: by key, ties told apart by id, so stability shows
			kvs := ordCase[kv]{name: "keyed pairs", vals: []kv{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}}, less: func(a, b kv) bool { return a.k < b.k }, eq: func(a, b kv) bool { return a.k == b.k }}
			kvs.set = func(v *vec.Vec[kv]) *vec.Vec[kv] { return v.SetCmpLess(kvs.less).SetCmpEqual(kvs.eq) }
			add("keyed pairs", vecOrderEnum(kvs, pick(t, 5, 6), m), vecOrderLong(kvs, long))
			dsc := ordCase[int]{name: "descending ints", vals: []int{1, 2, 3}, less: func(a, b int) bool { return a > b }, eq: func(a, b int) bool { return a == b }}
			dsc.set = func(v *vec.Vec[int]) *vec.Vec[int] { return v.SetCmpLess(dsc.less) } // equality detected
			add("descending ints", vecOrderEnum(dsc, pick(t, 5, 7), m), vecOrderLong(dsc, 130))
			return js
		}})
}
