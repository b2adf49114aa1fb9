package main

import (
	stdring "container/ring"
	"fmt"

	"github.com/zijiren233/gencontainer/ring"
)

// rgSys is a set of ring elements next to the same elements of the standard container/ring.
type rgSys struct {
	g       []*ring.Ring[int]
	s       []*stdring.Ring
	touched []bool // may be inspected without changing a lazily initialised element
	ops     []rgOp
}

type rgOp struct {
	kind string
	a, n int
}

func rgNew(conf []int) *rgSys { // conf: sizes; 0 is a zero-value element
	y := &rgSys{}
	for _, n := range conf {
		if n == 0 {
			y.g = append(y.g, &ring.Ring[int]{})
			y.s = append(y.s, &stdring.Ring{})
			y.touched = append(y.touched, false)
			continue
		}
		g, s := ring.New[int](n), stdring.New(n)
		for i := 0; i < n; i++ {
			y.g = append(y.g, g)
			y.s = append(y.s, s)
			y.touched = append(y.touched, true)
			g, s = g.Next(), s.Next()
		}
	}
	k := len(y.g)
	for i := range y.g {
		y.g[i].Value = i + 1
		y.s[i].Value = i + 1
	}
	for a := 0; a < k; a++ {
		for b := -1; b < k; b++ {
			y.ops = append(y.ops, rgOp{"Link", a, b})
		}
		for _, n := range []int{-1 << 63, -k - 1, -1, 0, 1, 2, 3, k - 1, k, k + 1, 2*k + 1} {
			y.ops = append(y.ops, rgOp{"Unlink", a, n})
			if n != -1<<63 {
				y.ops = append(y.ops, rgOp{"Move", a, n})
			}
		}
		for _, o := range []string{"Next", "Prev", "Len", "Do"} {
			y.ops = append(y.ops, rgOp{o, a, 0})
		}
	}
	return y
}

func (y *rgSys) Ops() int { return len(y.ops) }
func (y *rgSys) OpName(i int) string {
	o := y.ops[i]
	return fmt.Sprintf("e%d.%s(%d)", o.a, o.kind, o.n)
}
func (y *rgSys) Enabled(i int) bool { return true }
func (y *rgSys) Digest(f *FP) {
	for i := range y.g {
		f.Root(y.g[i])
	}
}

func (y *rgSys) gi(e *ring.Ring[int]) int {
	for i := range y.g {
		if y.g[i] == e {
			return i
		}
	}
	if e == nil {
		return -1
	}
	return -2
}

func (y *rgSys) si(e *stdring.Ring) int {
	for i := range y.s {
		if y.s[i] == e {
			return i
		}
	}
	return -1
}

func (y *rgSys) Do(i int) error {
	o := y.ops[i]
	g, s := y.g[o.a], y.s[o.a]
	var rg *ring.Ring[int]
	var rs *stdring.Ring
	isElem := true
	switch o.kind {
	case "Link":
		if o.n < 0 {
			rg, rs = g.Link(nil), s.Link(nil)
		} else {
			rg, rs = g.Link(y.g[o.n]), s.Link(y.s[o.n])
			y.touched[o.n] = true
		}
		y.touched[o.a] = true
	case "Unlink":
		rg, rs = g.Unlink(o.n), s.Unlink(o.n)
		if o.n > 0 {
			y.touched[o.a] = true
		}
	case "Move":
		rg, rs = g.Move(o.n), s.Move(o.n)
		y.touched[o.a] = true
	case "Next":
		rg, rs = g.Next(), s.Next()
		y.touched[o.a] = true
	case "Prev":
		rg, rs = g.Prev(), s.Prev()
		y.touched[o.a] = true
	case "Len", "Do":
		isElem = false
		y.touched[o.a] = true
	}
	if isElem && y.gi(rg) != y.si(rs) {
		return fmt.Errorf("%s returned element %d, container/ring returns %d", y.OpName(i), y.gi(rg), y.si(rs))
	}
	return y.check(y.OpName(i))
}

func (y *rgSys) check(what string) error {
	for i := range y.g {
		if !y.touched[i] {
			continue
		}
		g, s := y.g[i], y.s[i]
		if g.Value != i+1 {
			return fmt.Errorf("after %s element %d has value %d", what, i, g.Value)
		}
		if a, b := y.gi(g.Next()), y.si(s.Next()); a != b {
			return fmt.Errorf("after %s Next of element %d is %d, in container/ring %d", what, i, a, b)
		}
		if a, b := y.gi(g.Prev()), y.si(s.Prev()); a != b {
			return fmt.Errorf("after %s Prev of element %d is %d, in container/ring %d", what, i, a, b)
		}
	}
	for i := range y.g {
		if !y.touched[i] {
			continue
		}
		g, s := y.g[i], y.s[i]
		if a, b := g.Len(), s.Len(); a != b {
			return fmt.Errorf("after %s Len from element %d is %d, in container/ring %d", what, i, a, b)
		}
		var ga, sa []int
		g.Do(func(v int) { ga = append(ga, v) })
		s.Do(func(v any) { sa = append(sa, v.(int)) })
		if fmt.Sprint(ga) != fmt.Sprint(sa) {
			return fmt.Errorf("after %s Do from element %d visits %v, in container/ring %v", what, i, ga, sa)
		}
	}
	return nil
}

func rgLadder(c *Ctx, sizes []int) {
	for _, n := range sizes {
		if !c.Case(func() string { return fmt.Sprintf("ring of %d", n) }, func() error {
			if n == 0 {
				for _, k := range []int{0, -1, -1 << 63} {
					if ring.New[int](k) != nil {
						return fmt.Errorf("New(%d) is not nil", k)
					}
				}
				var r *ring.Ring[int]
				if r.Len() != 0 {
					return fmt.Errorf("Len of a nil ring is %d", r.Len())
				}
				r.Do(func(int) { panic("Do of a nil ring calls the function") })
				return nil
			}
			for _, k := range []int{0, 1, 2, n / 2, n - 1, n, n + 1, 2 * n, 3*n + 2} {
				g, s := ring.New[int](n), stdring.New(n)
				y := &rgSys{}
				for i := 0; i < n; i++ {
					g.Value, s.Value = i+1, i+1
					y.g, y.s, y.touched = append(y.g, g), append(y.s, s), append(y.touched, true)
					g, s = g.Next(), s.Next()
				}
				eq := func(what string, a *ring.Ring[int], b *stdring.Ring) error {
					c.Trans++
					if (a == nil) != (b == nil) {
						return fmt.Errorf("%s on a ring of %d: nil %v, want %v", what, n, a == nil, b == nil)
					}
					if a == nil {
						return nil
					}
					p, q := a, b
					for i := 0; i <= 2*n+2; i++ {
						if p.Value != q.Value.(int) {
							return fmt.Errorf("%s on a ring of %d: element %d forward is %d, in container/ring %d", what, n, i, p.Value, q.Value)
						}
						p, q = p.Next(), q.Next()
					}
					p, q = a, b
					for i := 0; i <= 2*n+2; i++ {
						if p.Value != q.Value.(int) {
							return fmt.Errorf("%s on a ring of %d: element %d backward is %d, in container/ring %d", what, n, i, p.Value, q.Value)
						}
						p, q = p.Prev(), q.Prev()
					}
					if a.Len() != b.Len() {
						return fmt.Errorf("%s on a ring of %d: Len %d, in container/ring %d", what, n, a.Len(), b.Len())
					}
					cnt := 0
					a.Do(func(int) { cnt++ })
					if cnt != b.Len() {
						return fmt.Errorf("%s: Do calls the function %d times for %d elements", what, cnt, b.Len())
					}
					return nil
				}
				if err := eq("New", g, s); err != nil {
					return err
				}
				if err := eq("Move", g.Move(k), s.Move(k)); err != nil {
					return err
				}
				if err := eq("Move", g.Move(-k), s.Move(-k)); err != nil {
					return err
				}
				x, z := g.Unlink(k), s.Unlink(k)
				if err := eq("Unlink", x, z); err != nil {
					return err
				}
				if err := eq("after Unlink", g, s); err != nil {
					return err
				}
				if x != nil {
					if err := eq("Link", g.Move(1).Link(x), s.Move(1).Link(z)); err != nil {
						return err
					}
					if err := eq("after Link", g, s); err != nil {
						return err
					}
				}
			}
			return nil
		}) {
			return
		}
	}
}

func init() {
	register(&Check{ID: "C21", Bounds: "closure of all calls over up to 6 (thorough 7) elements in every initial grouping of zero-value and New elements, compared with container/ring after every call; rings up to 1026 elements",
		Jobs: func(t bool) []Job {
			var js []Job
			confs := [][]int{{1}, {0}, {2}, {0, 0}, {0, 0, 0}, {1, 0}, {3, 2}, {4, 0}, {5}, {2, 2, 0}, {1, 1, 1, 0, 0}, {3, 0, 1}, {0, 0, 0, 0}}
			if t {
				confs = append(confs, []int{6}, []int{3, 3}, []int{3, 2, 1}, []int{2, 2, 0, 0}, []int{0, 0, 0, 0, 0}, []int{4, 3}, []int{7}, []int{3, 2, 0, 0})
			}
			for _, cf := range confs {
				js = append(js, Job{Name: fmt.Sprintf("rings %v", cf), Run: func(c *Ctx) {
					c.BFS(Spec{Name: "ring", Depth: 1000, New: func() Sys { return rgNew(cf) }})
				}})
			}
			js = append(js, Job{Name: "ladder", Run: func(c *Ctx) { rgLadder(c, ladderShard(0, 1, pick(t, 1100, 2100))) }})
			return js
		}})
}
