package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/zijiren233/gencontainer/dllist"
)

// ---------------------------------------------------------------- one or two lists next to plain slices

type dlElem struct {
	e    *dllist.Element[int]
	v    int
	list int // -1: in no list
}

const (
	dlPushFront = iota
	dlPushBack
	dlClear
	dlInsBefore
	dlInsAfter
	dlRemove
	dlMoveFront
	dlMoveBack
	dlMoveBefore
	dlMoveAfter
	dlSwap
	dlERemove
	dlEInsAfter
	dlEInsBefore
	dlSetValue
	dlPushBackList
	dlPushFrontList
	dlPushBackListTo
	dlPushFrontListTo
	dlSort
)

var dlKind = []string{"PushFront", "PushBack", "Clear", "InsertBefore", "InsertAfter", "Remove", "MoveToFront", "MoveToBack", "MoveBefore", "MoveAfter", "Swap", "Element.Remove", "Element.InsertAfter", "Element.InsertBefore", "set Value", "PushBackList", "PushFrontList", "PushBackListTo", "PushFrontListTo", "Sort"}

type dlOp struct{ kind, l, a, b int }

type dlSys struct {
	L      [2]*dllist.Dllist[int]
	nl     int
	seq    [2][]int
	el     []dlElem
	max    int
	ops    []dlOp
	valMod int
}

func dlNew(nl, max int, zero, bulk bool, valMod int) *dlSys {
	s := &dlSys{nl: nl, max: max, valMod: valMod}
	for i := 0; i < nl; i++ {
		if zero {
			s.L[i] = &dllist.Dllist[int]{}
		} else {
			s.L[i] = dllist.New[int]()
		}
	}
	for l := 0; l < nl; l++ {
		for _, k := range []int{dlPushFront, dlPushBack, dlClear} {
			s.ops = append(s.ops, dlOp{kind: k, l: l})
		}
		for a := 0; a < max; a++ {
			for _, k := range []int{dlInsBefore, dlInsAfter, dlRemove, dlMoveFront, dlMoveBack} {
				s.ops = append(s.ops, dlOp{kind: k, l: l, a: a})
			}
			for b := 0; b < max; b++ {
				for _, k := range []int{dlMoveBefore, dlMoveAfter, dlSwap} {
					s.ops = append(s.ops, dlOp{kind: k, l: l, a: a, b: b})
				}
			}
			if l == 0 {
				for _, k := range []int{dlERemove, dlEInsAfter, dlEInsBefore, dlSetValue} {
					s.ops = append(s.ops, dlOp{kind: k, a: a})
				}
			}
		}
		if bulk {
			for o := 0; o < nl; o++ {
				s.ops = append(s.ops, dlOp{kind: dlPushBackList, l: l, b: o}, dlOp{kind: dlPushFrontList, l: l, b: o})
				for a := 0; a < max; a++ {
					s.ops = append(s.ops, dlOp{kind: dlPushBackListTo, l: l, a: a, b: o}, dlOp{kind: dlPushFrontListTo, l: l, a: a, b: o})
				}
			}
			s.ops = append(s.ops, dlOp{kind: dlSort, l: l, b: 0}, dlOp{kind: dlSort, l: l, b: 1})
		}
	}
	return s
}

func (s *dlSys) Ops() int { return len(s.ops) }

func (s *dlSys) OpName(i int) string {
	o := s.ops[i]
	n := string(rune('A' + o.l))
	switch o.kind {
	case dlPushFront, dlPushBack, dlClear:
		return fmt.Sprintf("%s.%s", n, dlKind[o.kind])
	case dlERemove, dlEInsAfter, dlEInsBefore, dlSetValue:
		return fmt.Sprintf("%s(e%d)", dlKind[o.kind], o.a)
	case dlPushBackList, dlPushFrontList:
		return fmt.Sprintf("%s.%s(%c)", n, dlKind[o.kind], 'A'+o.b)
	case dlPushBackListTo, dlPushFrontListTo:
		return fmt.Sprintf("%s.%s(%c, e%d)", n, dlKind[o.kind], 'A'+o.b, o.a)
	case dlMoveBefore, dlMoveAfter, dlSwap:
		return fmt.Sprintf("%s.%s(e%d, e%d)", n, dlKind[o.kind], o.a, o.b)
	case dlSort:
		return fmt.Sprintf("%s.Sort(%d)", n, o.b)
	}
	return fmt.Sprintf("%s.%s(e%d)", n, dlKind[o.kind], o.a)
}

func (s *dlSys) Enabled(i int) bool {
	o := s.ops[i]
	if o.kind >= dlInsBefore && o.kind != dlPushBackList && o.kind != dlPushFrontList && o.kind != dlSort && o.a >= len(s.el) {
		return false
	}
	switch o.kind {
	case dlPushFront, dlPushBack, dlInsBefore, dlInsAfter, dlEInsAfter, dlEInsBefore:
		return len(s.el) < s.max
	case dlMoveBefore, dlMoveAfter, dlSwap:
		return o.b < len(s.el)
	case dlPushBackList, dlPushFrontList, dlPushBackListTo, dlPushFrontListTo:
		return len(s.el)+len(s.seq[o.b]) <= s.max
	case dlSort:
		return len(s.seq[o.l]) < 2 || len(s.el)+len(s.seq[o.l]) <= s.max
	}
	return true
}

func (s *dlSys) Digest(f *FP) {
	f.u(uint64(len(s.el)))
	for i := 0; i < s.nl; i++ {
		f.Root(s.L[i])
	}
	for i := range s.el {
		f.Root(s.el[i].e)
	}
}

func (s *dlSys) pos(a int) int {
	for i, x := range s.seq[s.el[a].list] {
		if x == a {
			return i
		}
	}
	return -1
}

func (s *dlSys) insAt(l, p, x int) {
	q := append([]int{}, s.seq[l][:p]...)
	q = append(q, x)
	s.seq[l] = append(q, s.seq[l][p:]...)
	s.el[x].list = l
}

func (s *dlSys) del(a int) {
	l, p := s.el[a].list, s.pos(a)
	s.seq[l] = append(append([]int{}, s.seq[l][:p]...), s.seq[l][p+1:]...)
	s.el[a].list = -1
}

func (s *dlSys) value() int {
	n := len(s.el) + 1
	if s.valMod > 0 {
		n = n*7%s.valMod + 1
	}
	return n
}

// created registers the element a call returned.
func (s *dlSys) created(what string, e *dllist.Element[int], v, l, p int) error {
	if e == nil {
		return fmt.Errorf("%s returned nil", what)
	}
	for i := range s.el {
		if s.el[i].e == e {
			return fmt.Errorf("%s returned an element that was handed out before", what)
		}
	}
	s.el = append(s.el, dlElem{e, v, -1})
	s.insAt(l, p, len(s.el)-1)
	return nil
}

var dlLess = []func(a, b int) bool{func(a, b int) bool { return a < b }, func(a, b int) bool { return a%2 > b%2 }}

func (s *dlSys) Do(i int) error {
	o := s.ops[i]
	l := s.L[o.l]
	var a, b *dlElem
	if o.a < len(s.el) {
		a = &s.el[o.a]
	}
	if o.b < len(s.el) {
		b = &s.el[o.b]
	}
	what := s.OpName(i)
	v := s.value()
	own := a != nil && a.list == o.l
	switch o.kind {
	case dlPushFront:
		if err := s.created(what, l.PushFront(v), v, o.l, 0); err != nil {
			return err
		}
	case dlPushBack:
		if err := s.created(what, l.PushBack(v), v, o.l, len(s.seq[o.l])); err != nil {
			return err
		}
	case dlClear:
		if r := l.Clear(); r != l {
			return fmt.Errorf("Clear returned another list")
		}
		for _, x := range s.seq[o.l] {
			s.el[x].list = -1
		}
		s.seq[o.l] = nil
	case dlInsBefore, dlInsAfter, dlEInsAfter, dlEInsBefore:
		var e *dllist.Element[int]
		target := o.l
		switch o.kind {
		case dlInsBefore:
			e = l.InsertBefore(v, a.e)
		case dlInsAfter:
			e = l.InsertAfter(v, a.e)
		case dlEInsAfter:
			e = a.e.InsertAfter(v)
			target, own = a.list, a.list >= 0
		case dlEInsBefore:
			e = a.e.InsertBefore(v)
			target, own = a.list, a.list >= 0
		}
		if !own {
			if e != nil {
				return fmt.Errorf("%s with an element that is not in the list returned an element", what)
			}
			break
		}
		p := s.pos(o.a)
		if o.kind == dlInsAfter || o.kind == dlEInsAfter {
			p++
		}
		if err := s.created(what, e, v, target, p); err != nil {
			return err
		}
	case dlRemove, dlERemove:
		var r int
		if o.kind == dlRemove {
			r = l.Remove(a.e)
		} else {
			r = a.e.Remove()
			own = a.list >= 0
		}
		if r != a.v {
			return fmt.Errorf("%s returned %d, the element holds %d", what, r, a.v)
		}
		if own {
			s.del(o.a)
		}
	case dlMoveFront, dlMoveBack:
		if o.kind == dlMoveFront {
			l.MoveToFront(a.e)
		} else {
			l.MoveToBack(a.e)
		}
		if own {
			s.del(o.a)
			p := 0
			if o.kind == dlMoveBack {
				p = len(s.seq[o.l])
			}
			s.insAt(o.l, p, o.a)
		}
	case dlMoveBefore, dlMoveAfter:
		if o.kind == dlMoveBefore {
			l.MoveBefore(a.e, b.e)
		} else {
			l.MoveAfter(a.e, b.e)
		}
		if own && b.list == o.l && a != b {
			s.del(o.a)
			p := s.pos(o.b)
			if o.kind == dlMoveAfter {
				p++
			}
			s.insAt(o.l, p, o.a)
		}
	case dlSwap:
		l.Swap(a.e, b.e)
		if own && b.list == o.l && a != b {
			p, q := s.pos(o.a), s.pos(o.b)
			n := append([]int{}, s.seq[o.l]...)
			n[p], n[q] = n[q], n[p]
			s.seq[o.l] = n
		}
	case dlSetValue:
		if a.v < 100 {
			a.e.Value = a.v + 100
			a.v += 100
		}
	case dlPushBackList, dlPushFrontList, dlPushBackListTo, dlPushFrontListTo:
		other := s.L[o.b]
		src := append([]int{}, s.seq[o.b]...)
		p := 0
		switch o.kind {
		case dlPushBackList:
			p = len(s.seq[o.l])
			l.PushBackList(other)
		case dlPushFrontList:
			l.PushFrontList(other)
		case dlPushBackListTo:
			l.PushBackListTo(other, a.e)
		case dlPushFrontListTo:
			l.PushFrontListTo(other, a.e)
		}
		if o.kind == dlPushBackListTo || o.kind == dlPushFrontListTo {
			if !own {
				break
			}
			p = s.pos(o.a) + 1 // "next to the mark": after it, or before it, decided by what is found
			if f, ok := s.at(l, s.pos(o.a)); len(src) > 0 && ok && f != a.e {
				p--
			}
		}
		// the new elements, found by walking the list
		n := append([]int{}, s.seq[o.l][:p]...)
		rest := append([]int{}, s.seq[o.l][p:]...)
		for k, x := range src {
			e, ok := s.at(l, p+k)
			if !ok {
				return fmt.Errorf("%s: the list has no element %d afterwards", what, p+k)
			}
			for i := range s.el {
				if s.el[i].e == e {
					return fmt.Errorf("%s: expected a new element at %d, found e%d", what, p+k, i)
				}
			}
			s.el = append(s.el, dlElem{e, s.el[x].v, o.l})
			n = append(n, len(s.el)-1)
		}
		s.seq[o.l] = append(n, rest...)
	case dlSort:
		before := s.vals(o.l)
		l.Sort(dlLess[o.b])
		if err := s.resorted(what, o.l, before, dlLess[o.b]); err != nil {
			return err
		}
	}
	return s.check(what)
}

func (s *dlSys) vals(l int) []int {
	var r []int
	for _, x := range s.seq[l] {
		r = append(r, s.el[x].v)
	}
	return r
}

// resorted takes over the order Sort left: same values, ordered; elements no longer in the list count as
// removed.
func (s *dlSys) resorted(what string, l int, before []int, less func(a, b int) bool) error {
	n := len(before)
	var es []*dllist.Element[int]
	e := s.L[l].Front()
	for ; e != nil && len(es) <= n; e = e.Next() {
		es = append(es, e)
	}
	var got []int
	for _, e := range es {
		got = append(got, e.Value)
	}
	if err := sortedPerm(before, got, less); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	for _, x := range s.seq[l] {
		s.el[x].list = -1
	}
	s.seq[l] = nil
	for _, e := range es {
		k := -1
		for i := range s.el {
			if s.el[i].e == e {
				k = i
			}
		}
		if k < 0 {
			s.el = append(s.el, dlElem{e, e.Value, l})
			k = len(s.el) - 1
		}
		s.el[k].list = l
		s.el[k].v = e.Value
		s.seq[l] = append(s.seq[l], k)
	}
	return nil
}

func sortedPerm(before, got []int, less func(a, b int) bool) error {
	a, b := append([]int{}, before...), append([]int{}, got...)
	sort.Ints(a)
	sort.Ints(b)
	if len(a) != len(b) {
		return fmt.Errorf("sorting %v gave %v", before, got)
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Errorf("sorting %v gave %v", before, got)
		}
	}
	for i := 1; i < len(got); i++ {
		if less(got[i], got[i-1]) {
			return fmt.Errorf("sorting %v gave %v, which is not ordered", before, got)
		}
	}
	return nil
}

// at walks to position i.
func (s *dlSys) at(l *dllist.Dllist[int], i int) (*dllist.Element[int], bool) {
	e := l.Front()
	for ; i > 0 && e != nil; i-- {
		e = e.Next()
	}
	return e, e != nil
}

func (s *dlSys) check(what string) error {
	for l := 0; l < s.nl; l++ {
		want := make([]dlElem, len(s.seq[l]))
		for i, x := range s.seq[l] {
			want[i] = s.el[x]
		}
		if err := dlCheckList(s.L[l], want, true); err != nil {
			return fmt.Errorf("after %s, list %c: %v (expected values %v)", what, 'A'+l, err, s.vals(l))
		}
	}
	for i := range s.el {
		if e := &s.el[i]; e.list < 0 {
			if e.e.Next() != nil || e.e.Prev() != nil {
				return fmt.Errorf("after %s, e%d is in no list but has a Next or Prev", what, i)
			}
			if e.e.Value != e.v {
				return fmt.Errorf("after %s, e%d lost its value", what, i)
			}
		}
	}
	return nil
}

// dlCheckList compares everything observable of a list with the expected sequence.
func dlCheckList(l *dllist.Dllist[int], want []dlElem, all bool) error {
	n := len(want)
	if l.Len() != n {
		return fmt.Errorf("Len() = %d, want %d", l.Len(), n)
	}
	e := l.Front()
	for i := 0; i < n; i++ {
		if e == nil {
			return fmt.Errorf("forward traversal ends after %d of %d elements", i, n)
		}
		if e != want[i].e || e.Value != want[i].v {
			return fmt.Errorf("forward traversal finds value %d at %d", e.Value, i)
		}
		e = e.Next()
	}
	if e != nil {
		return fmt.Errorf("forward traversal goes on after %d elements", n)
	}
	e = l.Back()
	for i := n - 1; i >= 0; i-- {
		if e == nil {
			return fmt.Errorf("backward traversal ends early, at %d", i)
		}
		if e != want[i].e {
			return fmt.Errorf("backward traversal finds value %d at %d", e.Value, i)
		}
		e = e.Prev()
	}
	if e != nil {
		return fmt.Errorf("backward traversal goes on after %d elements", n)
	}
	sl := l.Slice()
	if len(sl) != n {
		return fmt.Errorf("Slice() has %d elements, want %d", len(sl), n)
	}
	for i, v := range sl {
		if v != want[i].v {
			return fmt.Errorf("Slice() = %v", sl)
		}
	}
	stops := n
	if !all && n > 40 {
		stops = 2
	}
	for stop := 0; stop <= stops; stop++ {
		if stop == stops {
			stop = n
		}
		k := 0
		bad := -1
		done := l.Range(func(e *dllist.Element[int]) bool {
			if k >= n || e != want[k].e {
				bad = k
				return false
			}
			k++
			return k <= stop
		})
		wantK := min(stop+1, n)
		if bad >= 0 || k != wantK || done != (stop >= n) {
			return fmt.Errorf("Range stopped at the call %d: visited %d, wrong at %d, returned %v", stop+1, k, bad, done)
		}
	}
	var idx []int
	if all || n <= 130 {
		for i := 0; i < n; i++ {
			idx = append(idx, i)
		}
	} else {
		idx = []int{0, 1, 2, n/2 - 2, n/2 - 1, n / 2, n/2 + 1, n/2 + 2, n - 2, n - 1}
	}
	for _, i := range idx {
		if e := l.Get(i); e != want[i].e {
			return fmt.Errorf("Get(%d) gives another element", i)
		}
	}
	for _, i := range []int{-1, n, n + 1, math.MinInt, math.MaxInt} {
		if l.Get(i) != nil {
			return fmt.Errorf("Get(%d) is not nil with %d elements", i, n)
		}
	}
	if all {
		for i := 0; i < n; i++ {
			k := i
			ok := true
			want[i].e.Range(func(e *dllist.Element[int]) bool {
				if k >= n || e != want[k].e {
					ok = false
					return false
				}
				k++
				return true
			})
			if !ok || k != n {
				return fmt.Errorf("Element.Range from %d visited %d elements", i, k-i)
			}
			k = 0
			want[i].e.Range(func(e *dllist.Element[int]) bool { k++; return false })
			if k != 1 {
				return fmt.Errorf("Element.Range does not stop when told to")
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- long lists

func dlLadder(c *Ctx, sizes []int) {
	for _, n := range sizes {
		for _, zero := range []bool{false, true} {
			if !c.Case(func() string { return fmt.Sprintf("dllist with %d elements, zero list %v", n, zero) }, func() error {
				s := dlNew(1, 0, zero, false, 0)
				l := s.L[0]
				var want []dlElem
				step := func(what string) error {
					c.Trans++
					if err := dlCheckList(l, want, false); err != nil {
						return fmt.Errorf("%d elements, after %s: %v", n, what, err)
					}
					return nil
				}
				ins := func(p, v int, e *dllist.Element[int]) {
					want = append(want, dlElem{})
					copy(want[p+1:], want[p:])
					want[p] = dlElem{e, v, 0}
				}
				if err := step("nothing"); err != nil {
					return err
				}
				for i := 0; i < n; i++ {
					switch {
					case i%3 == 0:
						ins(0, i, l.PushFront(i))
					case i%3 == 1:
						ins(len(want), i, l.PushBack(i))
					default:
						m := len(want) / 2
						ins(m, i, l.InsertBefore(i, want[m].e))
					}
				}
				if err := step("filling"); err != nil {
					return err
				}
				move := func(from, to int) { // remove from, insert so that it ends at index to
					x := want[from]
					want = append(want[:from], want[from+1:]...)
					want = append(want, dlElem{})
					copy(want[to+1:], want[to:])
					want[to] = x
				}
				pos := map[int]bool{}
				for _, p := range []int{0, 1, n / 3, n / 2, n - 2, n - 1} {
					if p >= 0 && p < n {
						pos[p] = true
					}
				}
				for p := range n {
					if !pos[p] {
						continue
					}
					l.MoveToFront(want[p].e)
					move(p, 0)
					if err := step("MoveToFront"); err != nil {
						return err
					}
					l.MoveToBack(want[p].e)
					move(p, n-1)
					if err := step("MoveToBack"); err != nil {
						return err
					}
					for q := range n {
						if !pos[q] {
							continue
						}
						l.Swap(want[p].e, want[q].e)
						want[p], want[q] = want[q], want[p]
						if err := step(fmt.Sprintf("Swap(%d,%d)", p, q)); err != nil {
							return err
						}
						if p == q {
							continue
						}
						l.MoveBefore(want[p].e, want[q].e)
						if p < q {
							move(p, q-1)
						} else {
							move(p, q)
						}
						if err := step(fmt.Sprintf("MoveBefore(%d,%d)", p, q)); err != nil {
							return err
						}
						l.MoveAfter(want[p].e, want[q].e)
						if p < q {
							move(p, q)
						} else {
							move(p, q+1)
						}
						if err := step(fmt.Sprintf("MoveAfter(%d,%d)", p, q)); err != nil {
							return err
						}
					}
				}
				var gone []dlElem
				for k := 0; len(want) > n/3; k++ {
					p := (k * 7) % len(want)
					x := want[p]
					var r int
					if k%2 == 0 {
						r = l.Remove(x.e)
					} else {
						r = x.e.Remove()
					}
					if r != x.v {
						return fmt.Errorf("Remove returned %d, want %d", r, x.v)
					}
					want = append(want[:p], want[p+1:]...)
					gone = append(gone, x)
				}
				if err := step("removing two thirds"); err != nil {
					return err
				}
				gone = append(gone, want...)
				l.Clear()
				want = nil
				for _, x := range gone {
					if x.e.Next() != nil || x.e.Prev() != nil || l.Remove(x.e) != x.v || l.InsertAfter(1, x.e) != nil || l.InsertBefore(1, x.e) != nil {
						return fmt.Errorf("an element that left the list of %d is still tied to it", n)
					}
				}
				if err := step("Clear"); err != nil {
					return err
				}
				ins(0, 5, l.PushBack(5))
				ins(0, 6, l.PushFront(6))
				return step("refilling")
			}) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- bulk operations and Sort

// seqsUpTo enumerates all sequences over 0..vals-1 of length at most n.
func seqsUpTo(n, vals int, f func(s []int) bool) bool {
	var rec func(s []int) bool
	rec = func(s []int) bool {
		if !f(s) {
			return false
		}
		if len(s) == n {
			return true
		}
		for v := 0; v < vals; v++ {
			if !rec(append(s[:len(s):len(s)], v)) {
				return false
			}
		}
		return true
	}
	return rec(nil)
}

func permutations(n int, f func(p []int) bool) bool {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			return f(p)
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			if !rec(k + 1) {
				return false
			}
			p[k], p[i] = p[i], p[k]
		}
		return true
	}
	return rec(0)
}

var dlOrders = []struct {
	name string
	less func(a, b int) bool
}{
	{"<", func(a, b int) bool { return a < b }},
	{">", func(a, b int) bool { return a > b }},
	{"by remainder mod 2", func(a, b int) bool { return a%2 < b%2 }},
	{"nothing less", func(a, b int) bool { return false }},
}

func dlSortCase(vals []int, k int, zero bool) error {
	l := dllist.New[int]()
	if zero {
		l = &dllist.Dllist[int]{}
	}
	var old []*dllist.Element[int]
	for _, v := range vals {
		old = append(old, l.PushBack(v))
	}
	less := dlOrders[k].less
	l.Sort(less)
	var want []dlElem
	for e := l.Front(); e != nil; e = e.Next() {
		want = append(want, dlElem{e, e.Value, 0})
		if len(want) > len(vals) {
			break
		}
	}
	var got []int
	in := map[*dllist.Element[int]]bool{}
	for _, w := range want {
		got = append(got, w.v)
		in[w.e] = true
	}
	if err := sortedPerm(vals, got, less); err != nil {
		return fmt.Errorf("order %s: %v", dlOrders[k].name, err)
	}
	for _, e := range old {
		if !in[e] && (e.Next() != nil || e.Prev() != nil || l.InsertAfter(1, e) != nil) {
			return fmt.Errorf("an element dropped by Sort is still tied to the list")
		}
	}
	if err := dlCheckList(l, want, len(vals) < 12); err != nil {
		return fmt.Errorf("after Sort (%s) of %v: %v", dlOrders[k].name, vals, err)
	}
	want = append(want, dlElem{l.PushBack(-5), -5, 0})
	want = append([]dlElem{{l.PushFront(-6), -6, 0}}, want...)
	if err := dlCheckList(l, want, len(vals) < 12); err != nil {
		return fmt.Errorf("after Sort (%s) of %v and two pushes: %v", dlOrders[k].name, vals, err)
	}
	return nil
}

func patterns(n int) [][]int {
	var r [][]int
	mk := func(f func(i int) int) {
		s := make([]int, n)
		for i := range s {
			s[i] = f(i)
		}
		r = append(r, s)
	}
	mk(func(i int) int { return i })
	mk(func(i int) int { return n - i })
	mk(func(i int) int { return 7 })
	mk(func(i int) int { return i % 2 })
	mk(func(i int) int { return i * 7919 % 101 })
	mk(func(i int) int { return -(i * 31 % 17) })
	mk(func(i int) int {
		if i < n/2 {
			return i
		}
		return n - i
	})
	mk(func(i int) int {
		switch i % 5 {
		case 0:
			return math.MinInt
		case 1:
			return math.MaxInt
		}
		return i
	})
	return r
}

// dlBulkCase: the bulk operation k from lists with the given values, mark at m (or -1: a detached mark, or
// -2: a mark in the other list, -3: a mark removed by Clear).
func dlBulkCase(av, bv []int, kind int, self bool, m int, zero bool) error {
	s := dlNew(2, 0, zero, false, 0)
	push := func(l, v int) {
		e := s.L[l].PushBack(v)
		s.el = append(s.el, dlElem{e, v, -1})
		s.insAt(l, len(s.seq[l]), len(s.el)-1)
	}
	for _, v := range av {
		push(0, v)
	}
	for _, v := range bv {
		push(1, v)
	}
	o := dlOp{kind: kind, l: 0, b: 1}
	if self {
		o.b = 0
	}
	switch {
	case m >= 0:
		o.a = s.seq[0][m]
	case m == -1:
		push(0, 99)
		o.a = len(s.el) - 1
		s.L[0].Remove(s.el[o.a].e)
		s.del(o.a)
	case m == -2:
		push(1, 99)
		o.a = len(s.el) - 1
	case m == -3:
		o.a = s.seq[0][0]
		s.L[0].Clear()
		for _, x := range s.seq[0] {
			s.el[x].list = -1
		}
		s.seq[0] = nil
	}
	s.ops = []dlOp{o}
	if err := s.check("setup"); err != nil {
		return err
	}
	if err := s.Do(0); err != nil {
		return err
	}
	// the lists stay usable and independent
	push(0, 7)
	push(1, 8)
	return s.check("the bulk operation and two pushes")
}

func dlBulkEnum(c *Ctx, n int, shard, shards int) {
	k := 0
	seqsUpTo(n, 2, func(a []int) bool {
		return seqsUpTo(n, 2, func(b []int) bool {
			k++
			if k%shards != shard {
				return true
			}
			av, bv := append([]int{}, a...), append([]int{}, b...)
			for i := range av {
				av[i] += 10 * (i + 1)
			}
			for i := range bv {
				bv[i] += 1000 * (i + 1)
			}
			for kind := dlPushBackList; kind <= dlPushFrontListTo; kind++ {
				for _, self := range []bool{false, true} {
					marks := []int{0}
					if kind >= dlPushBackListTo {
						marks = []int{-1, -2}
						if len(a) > 0 {
							marks = append(marks, -3)
						}
						for i := range a {
							marks = append(marks, i)
						}
					} else if len(a) == 0 {
						marks = []int{-2}
					}
					for _, m := range marks {
						for _, zero := range []bool{false, true} {
							if !c.Case(func() string {
								return fmt.Sprintf("%s of %v (self %v) into %v, mark %d, zero lists %v", dlKind[kind], bv, self, av, m, zero)
							}, func() error { return dlBulkCase(av, bv, kind, self, m, zero) }) {
								return false
							}
						}
					}
				}
			}
			return true
		})
	})
}

func init() {
	register(&Check{ID: "C15", Bounds: "closure of every editing history over one list and up to 5 (thorough 6) elements, new and zero list; edits at the ends, middle and thirds of lists of up to 1026 elements",
		Jobs: func(t bool) []Job {
			var js []Job
			for _, zero := range []bool{false, true} {
				js = append(js, Job{Name: fmt.Sprintf("closure zero=%v", zero), Run: func(c *Ctx) {
					c.BFS(Spec{Name: "dllist", Depth: 1000, New: func() Sys { return dlNew(1, pick(t, 5, 6), zero, false, 0) }})
				}})
			}
			for i := 0; i < 5; i++ {
				js = append(js, Job{Name: fmt.Sprintf("ladder/%d", i), Run: func(c *Ctx) { dlLadder(c, ladderShard(i, 5, pick(t, 1100, 2100))) }})
			}
			js = append(js, Job{Name: "duplicate values", Run: func(c *Ctx) {
				c.BFS(Spec{Name: "dllist dup", Depth: pick(t, 7, 100), New: func() Sys { return dlNew(1, 5, false, false, 2) }})
			}})
			return js
		}})
	register(&Check{ID: "C16", Bounds: "closure of every editing history over two lists and up to 4 (thorough 5) elements, every operation with every element including removed, cleared and foreign ones",
		Jobs: func(t bool) []Job {
			var js []Job
			for _, zero := range []bool{false, true} {
				js = append(js, Job{Name: fmt.Sprintf("two lists zero=%v", zero), Run: func(c *Ctx) {
					c.BFS(Spec{Name: "dllist two lists", Depth: 1000, New: func() Sys { return dlNew(2, pick(t, 4, 5), zero, false, 0) }})
				}})
				js = append(js, Job{Name: fmt.Sprintf("bulk and sort zero=%v", zero), Run: func(c *Ctx) {
					c.BFS(Spec{Name: "dllist two lists, bulk", Depth: pick(t, 6, 1000), New: func() Sys { return dlNew(2, pick(t, 4, 5), zero, true, 0) }})
				}})
			}
			for i := 0; i < 3; i++ {
				js = append(js, Job{Name: fmt.Sprintf("ladder/%d", i), Run: func(c *Ctx) { dlLadder(c, ladderShard(i, 3, pick(t, 520, 1100))) }})
			}
			return js
		}})
	register(&Check{ID: "C17", Bounds: "all four bulk operations on all pairs of lists of up to 3 (thorough 5) elements, every mark, self and other, new and zero lists; Sort of all sequences over 4 values up to length 6 (8) and over 2 values up to length 12 (15), all permutations up to 7 (8), and patterned lists up to 1026, under four orders; closure of histories mixing bulk operations, Sort and edits",
		Jobs: func(t bool) []Job {
			var js []Job
			sh := pick(t, 4, 16)
			for i := 0; i < sh; i++ {
				js = append(js, Job{Name: fmt.Sprintf("bulk/%d", i), Run: func(c *Ctx) { dlBulkEnum(c, pick(t, 3, 5), i, sh) }})
			}
			for o := range dlOrders {
				js = append(js, Job{Name: fmt.Sprintf("sort all sequences/%d", o), Run: func(c *Ctx) {
					seqsUpTo(pick(t, 6, 8), 4, func(s []int) bool {
						return c.Case(func() string { return fmt.Sprintf("Sort %v order %d", s, o) }, func() error { return dlSortCase(s, o, len(s)%2 == 0) })
					})
					seqsUpTo(pick(t, 12, 15), 2, func(s []int) bool {
						return len(s) < 7 || c.Case(func() string { return fmt.Sprintf("Sort %v order %d", s, o) }, func() error { return dlSortCase(s, o, len(s)%2 == 0) })
					})
					for n := 5; n <= pick(t, 7, 8); n++ {
						permutations(n, func(s []int) bool {
							return c.Case(func() string { return fmt.Sprintf("Sort %v order %d", s, o) }, func() error { return dlSortCase(s, o, n%2 == 0) })
						})
					}
				}})
				js = append(js, Job{Name: fmt.Sprintf("sort long/%d", o), Run: func(c *Ctx) {
					for _, n := range ladderSizes {
						if n > pick(t, 1100, 2100) {
							break
						}
						for p, s := range patterns(n) {
							if !c.Case(func() string { return fmt.Sprintf("Sort pattern %d of %d, order %d", p, n, o) }, func() error { return dlSortCase(s, o, p%2 == 0) }) {
								return
							}
						}
					}
				}})
			}
			for _, zero := range []bool{false, true} {
				js = append(js, Job{Name: fmt.Sprintf("mixed histories zero=%v", zero), Run: func(c *Ctx) {
					c.BFS(Spec{Name: "dllist bulk and sort", Depth: pick(t, 6, 1000), New: func() Sys { return dlNew(2, pick(t, 4, 5), zero, true, 3) }})
				}})
			}
			js = append(js, Job{Name: "bulk long", Run: func(c *Ctx) {
				for _, n := range ladderSizes {
					if n > pick(t, 260, 520) || n == 0 {
						continue
					}
					av, bv := patterns(n)[0], patterns(n/2 + 1)[1]
					for kind := dlPushBackList; kind <= dlPushFrontListTo; kind++ {
						for _, m := range []int{0, n / 2, n - 1} {
							for _, self := range []bool{false, true} {
								if !c.Case(func() string { return fmt.Sprintf("%s with %d elements", dlKind[kind], n) }, func() error { return dlBulkCase(av, bv, kind, self, m, false) }) {
									return
								}
							}
						}
					}
				}
			}})
			return js
		}})
}

func ladderShard(i, n, max int) (r []int) {
	for j, x := range ladderSizes {
		if j%n == i && x <= max {
			r = append(r, x)
		}
	}
	return
}
