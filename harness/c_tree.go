package main

import (
	"fmt"
	"strings"

	"github.com/zijiren233/gencontainer/tree"
)

type tNode = tree.Node[int]

// trShape is the model: parent and children by index, -1 for none.
type trShape struct{ par, l, r []int }

func trEmpty(n int) *trShape {
	s := &trShape{}
	for i := 0; i < n; i++ {
		s.par, s.l, s.r = append(s.par, -1), append(s.l, -1), append(s.r, -1)
	}
	return s
}

func (s *trShape) inSub(root, x int) bool {
	for ; x >= 0; x = s.par[x] {
		if x == root {
			return true
		}
	}
	return false
}

func (s *trShape) sibling(x int) int {
	p := s.par[x]
	if p < 0 {
		return -1
	}
	if s.l[p] == x {
		return s.r[p]
	}
	return s.l[p]
}

func (s *trShape) depth(x int) int {
	d := 0
	for _, c := range []int{s.l[x], s.r[x]} {
		if c >= 0 {
			d = max(d, s.depth(c)+1)
		}
	}
	return d
}

func (s *trShape) pre(x int) []int {
	r := []int{x}
	for _, c := range []int{s.l[x], s.r[x]} {
		if c >= 0 {
			r = append(r, s.pre(c)...)
		}
	}
	return r
}

func (s *trShape) level(x int) (r []int) {
	r = []int{x}
	for i := 0; i < len(r); i++ {
		for _, c := range []int{s.l[r[i]], s.r[r[i]]} {
			if c >= 0 {
				r = append(r, c)
			}
		}
	}
	return r
}

// trCheckLinks compares the real pointers and values with the shape.
func trCheckLinks(n []*tNode, s *trShape) error {
	at := func(i int) *tNode {
		if i < 0 {
			return nil
		}
		return n[i]
	}
	for i, x := range n {
		if x.Val != i+1 {
			return fmt.Errorf("node %d has value %d", i, x.Val)
		}
		if x.Parent != at(s.par[i]) {
			return fmt.Errorf("node %d: wrong Parent, want %d", i, s.par[i])
		}
		if x.Left != at(s.l[i]) || x.Right != at(s.r[i]) {
			return fmt.Errorf("node %d: wrong children, want %d and %d", i, s.l[i], s.r[i])
		}
	}
	return nil
}

// trCheckRel checks every relation method for every node and pair of distinct nodes.
func trCheckRel(n []*tNode, s *trShape, idx []int) error {
	for _, i := range idx {
		x := n[i]
		p := s.par[i]
		sib, gp, unc := s.sibling(i), -1, -1
		if p >= 0 {
			gp = s.par[p]
			unc = s.sibling(p)
		}
		layer := 0
		for q := p; q >= 0; q = s.par[q] {
			layer++
		}
		at := func(k int) *tNode {
			if k < 0 {
				return nil
			}
			return n[k]
		}
		b := func(name string, got, want bool) error {
			if got != want {
				return fmt.Errorf("node %d: %s = %v", i, name, got)
			}
			return nil
		}
		for _, e := range []error{
			b("IsRoot", x.IsRoot(), p < 0), b("IsLeaf", x.IsLeaf(), s.l[i] < 0 && s.r[i] < 0),
			b("IsLeft", x.IsLeft(), p >= 0 && s.l[p] == i), b("IsRight", x.IsRight(), p >= 0 && s.r[p] == i),
			b("HasLeft", x.HasLeft(), s.l[i] >= 0), b("HasRight", x.HasRight(), s.r[i] >= 0),
			b("HasChild", x.HasChild(), s.l[i] >= 0 || s.r[i] >= 0), b("HasBothChild", x.HasBothChild(), s.l[i] >= 0 && s.r[i] >= 0),
			b("HasParent", x.HasParent(), p >= 0), b("HasSibling", x.HasSibling(), sib >= 0),
			b("HasUncle", x.HasUncle(), unc >= 0), b("HasGrandparent", x.HasGrandparent(), gp >= 0),
			b("Sibling is right", x.Sibling() == at(sib), true), b("Uncle is right", x.Uncle() == at(unc), true),
			b("Grandparent is right", x.Grandparent() == at(gp), true),
		} {
			if e != nil {
				return e
			}
		}
		if g := x.Layer(); g != layer {
			return fmt.Errorf("node %d: Layer() = %d, want %d", i, g, layer)
		}
		if g, w := x.MaxDepth(), s.depth(i); g != w {
			return fmt.Errorf("node %d: MaxDepth() = %d, want %d", i, g, w)
		}
		for _, j := range idx {
			if i == j {
				continue
			}
			y := n[j]
			b := func(name string, got, want bool) error {
				if got != want {
					return fmt.Errorf("node %d: %s(node %d) = %v", i, name, j, got)
				}
				return nil
			}
			for _, e := range []error{
				b("IsLeftRelation", x.IsLeftRelation(y), s.l[i] == j), b("IsRightRelation", x.IsRightRelation(y), s.r[i] == j),
				b("IsChildRelation", x.IsChildRelation(y), s.par[j] == i), b("IsUncleRelation", x.IsUncleRelation(y), unc == j),
				b("IsSiblingRelation", x.IsSiblingRelation(y), sib == j), b("IsGrandparentRelation", x.IsGrandparentRelation(y), gp == j),
				b("IsAncestorRelation", x.IsAncestorRelation(y), s.inSub(i, j)), b("IsDescendantRelation", x.IsDescendantRelation(y), s.inSub(i, j)),
			} {
				if e != nil {
					return e
				}
			}
		}
	}
	return nil
}

type trSys struct {
	n []*tNode
	s *trShape
}

func trNew(k int) *trSys {
	y := &trSys{s: trEmpty(k)}
	for i := 0; i < k; i++ {
		y.n = append(y.n, tree.NewNode(i+1))
	}
	return y
}

func (y *trSys) Ops() int { return len(y.n) * (len(y.n) + 1) * 2 }
func (y *trSys) dec(i int) (right bool, a, b int) {
	right = i%2 == 1
	i /= 2
	return right, i / (len(y.n) + 1), i%(len(y.n)+1) - 1
}
func (y *trSys) OpName(i int) string {
	r, a, b := y.dec(i)
	if r {
		return fmt.Sprintf("n%d.SetRight(n%d)", a, b)
	}
	return fmt.Sprintf("n%d.SetLeft(n%d)", a, b)
}
func (y *trSys) Enabled(i int) bool {
	r, a, b := y.dec(i)
	if b >= 0 && ((r && y.s.r[a] == b) || (!r && y.s.l[a] == b)) {
		return true // the child that is already there, set again
	}
	return b < 0 || (y.s.par[b] < 0 && !y.s.inSub(b, a))
}
func (y *trSys) Digest(f *FP) {
	for _, x := range y.n {
		f.Root(x)
	}
}
func (y *trSys) Do(i int) error {
	r, a, b := y.dec(i)
	var x, old *tNode
	if b >= 0 {
		x = y.n[b]
	}
	side := y.s.l
	if r {
		old = y.n[a].SetRight(x)
		side = y.s.r
	} else {
		old = y.n[a].SetLeft(x)
	}
	w := side[a]
	if w >= 0 {
		y.s.par[w] = -1
	}
	side[a] = b
	if b >= 0 {
		y.s.par[b] = a
	}
	if (w < 0 && old != nil) || (w >= 0 && old != y.n[w]) {
		return fmt.Errorf("%s returned a wrong node, want %d", y.OpName(i), w)
	}
	if err := trCheckLinks(y.n, y.s); err != nil {
		return fmt.Errorf("after %s: %v", y.OpName(i), err)
	}
	idx := make([]int, len(y.n))
	for i := range idx {
		idx[i] = i
	}
	if err := trCheckRel(y.n, y.s, idx); err != nil {
		return fmt.Errorf("after %s: %v", y.OpName(i), err)
	}
	return nil
}

// trMake builds the real tree of a shape, by fields (the public structure), children linked by SetLeft/SetRight.
func trMake(s *trShape) []*tNode {
	var n []*tNode
	for i := range s.par {
		n = append(n, tree.NewNode(i+1))
	}
	for i := range s.par {
		if s.l[i] >= 0 {
			n[i].SetLeft(n[s.l[i]])
		}
		if s.r[i] >= 0 {
			n[i].SetRight(n[s.r[i]])
		}
	}
	return n
}

// trShapes enumerates all binary trees with n nodes (node 0 is the root, preorder numbering).
func trShapes(n int, f func(s *trShape) bool) bool {
	s := trEmpty(n)
	// fill(base, size, k): lay out a subtree of size nodes at base, then continue with k
	var fill func(base, size int, k func() bool) bool
	fill = func(base, size int, k func() bool) bool {
		if size == 0 {
			return k()
		}
		for left := 0; left < size; left++ {
			s.l[base], s.r[base] = -1, -1
			if left > 0 {
				s.l[base] = base + 1
				s.par[base+1] = base
			}
			right := size - 1 - left
			if right > 0 {
				s.r[base] = base + 1 + left
				s.par[base+1+left] = base
			}
			if !fill(base+1, left, func() bool { return fill(base+1+left, right, k) }) {
				return false
			}
		}
		return true
	}
	return fill(0, n, func() bool { return f(s) })
}

func trTraversals(n []*tNode, s *trShape, starts []int) error {
	for _, st := range starts {
		for round := 0; round < 2; round++ {
			for _, w := range []struct {
				name string
				got  []*tNode
				want []int
			}{{"TraversalBFS", n[st].TraversalBFS(), s.level(st)}, {"TraversalDFS", n[st].TraversalDFS(), s.pre(st)}} {
				if len(w.got) != len(w.want) {
					return fmt.Errorf("%s from node %d yields %d nodes, want %d", w.name, st, len(w.got), len(w.want))
				}
				for i := range w.got {
					if w.got[i] != n[w.want[i]] {
						return fmt.Errorf("%s from node %d: position %d is not node %d", w.name, st, i, w.want[i])
					}
				}
				for i := range w.got { // the result is the caller's
					w.got[i] = nil
				}
			}
		}
	}
	return trCheckLinks(n, s)
}

func trChain(n int, mode int) *trShape {
	s := trEmpty(n)
	for i := 0; i+1 < n; i++ {
		side := s.l
		if mode == 1 || (mode == 2 && i%2 == 1) || (mode == 3 && i%3 != 0) {
			side = s.r
		}
		side[i] = i + 1
		s.par[i+1] = i
	}
	return s
}

func trComplete(n int) *trShape {
	s := trEmpty(n)
	for i := 0; i < n; i++ {
		if c := 2*i + 1; c < n {
			s.l[i], s.par[c] = c, i
		}
		if c := 2*i + 2; c < n {
			s.r[i], s.par[c] = c, i
		}
	}
	return s
}

func trBuild[T comparable](n int, mk func(int) T) error {
	vals := make([]T, n)
	for i := range vals {
		vals[i] = mk(i)
	}
	root := tree.BuildTree(vals)
	if n == 0 {
		if root != nil {
			return fmt.Errorf("BuildTree of nothing is not nil")
		}
		return nil
	}
	s := trComplete(n)
	nodes := make([]*tree.Node[T], n)
	nodes[0] = root
	for i := 0; i < n; i++ {
		x := nodes[i]
		if x == nil {
			return fmt.Errorf("BuildTree of %d values: node %d is missing", n, i)
		}
		if x.Val != mk(i) {
			return fmt.Errorf("BuildTree of %d values: node %d has value %v", n, i, x.Val)
		}
		if (x.Left != nil) != (s.l[i] >= 0) || (x.Right != nil) != (s.r[i] >= 0) {
			return fmt.Errorf("BuildTree of %d values: node %d has the wrong children", n, i)
		}
		if x.Left != nil {
			nodes[s.l[i]] = x.Left
		}
		if x.Right != nil {
			nodes[s.r[i]] = x.Right
		}
		if (i == 0 && x.Parent != nil) || (i > 0 && x.Parent != nodes[(i-1)/2]) {
			return fmt.Errorf("BuildTree of %d values: node %d has the wrong Parent", n, i)
		}
	}
	for i, v := range vals {
		if v != mk(i) {
			return fmt.Errorf("BuildTree changed its argument")
		}
	}
	for _, w := range []struct {
		name string
		got  []*tree.Node[T]
		want []int
	}{{"TraversalBFS", root.TraversalBFS(), s.level(0)}, {"TraversalDFS", root.TraversalDFS(), s.pre(0)}} {
		if len(w.got) != n {
			return fmt.Errorf("%s of a tree of %d yields %d nodes", w.name, n, len(w.got))
		}
		for i := range w.got {
			if w.got[i] != nodes[w.want[i]] {
				return fmt.Errorf("%s of a tree of %d: position %d is wrong", w.name, n, i)
			}
		}
	}
	draw := root.DrawTree()
	lines := strings.Split(strings.TrimSuffix(draw, "\n"), "\n")
	k := 0
	for lv := 0; k < n; lv++ {
		if lv >= len(lines) {
			return fmt.Errorf("DrawTree of %d values has %d lines: %q", n, len(lines), draw)
		}
		fs := strings.Fields(lines[lv])
		for j := 0; j < 1<<lv && k < n; j++ {
			if j >= len(fs) || fs[j] != fmt.Sprint(mk(k)) {
				return fmt.Errorf("DrawTree of %d values: line %d is %q", n, lv, lines[lv])
			}
			k++
		}
		if k == n && (lv+1 != len(lines)) || len(fs) > 1<<lv {
			return fmt.Errorf("DrawTree of %d values has more than its levels: %q", n, draw)
		}
	}
	return nil
}

func init() {
	register(&Check{ID: "C30", Bounds: "closure of all SetLeft/SetRight histories over 4 and 5 (thorough 6) nodes, all relations of all pairs after every call; all binary shapes up to 9 (11) nodes; chains of up to 1026 nodes",
		Jobs: func(t bool) []Job {
			var js []Job
			for k := 1; k <= pick(t, 5, 6); k++ {
				js = append([]Job{{Name: fmt.Sprintf("closure %d nodes", k), Run: func(c *Ctx) {
					c.BFS(Spec{Name: "tree", Depth: 1000, New: func() Sys { return trNew(k) }})
				}}}, js...)
			}
			js = append(js, Job{Name: "shapes", Run: func(c *Ctx) {
				for n := 1; n <= pick(t, 9, 11); n++ {
					idx := make([]int, n)
					for i := range idx {
						idx[i] = i
					}
					trShapes(n, func(s *trShape) bool {
						return c.Case(func() string { return fmt.Sprintf("shape %+v", *s) }, func() error {
							x := trMake(s)
							if err := trCheckLinks(x, s); err != nil {
								return err
							}
							return trCheckRel(x, s, idx)
						})
					})
				}
			}}, Job{Name: "chains", Run: func(c *Ctx) {
				for _, n := range ladderSizes {
					if n == 0 || n > pick(t, 1100, 2100) {
						continue
					}
					for mode := 0; mode < 5; mode++ {
						if !c.Case(func() string { return fmt.Sprintf("chain of %d, mode %d", n, mode) }, func() error {
							s := trComplete(n)
							if mode < 4 {
								s = trChain(n, mode)
							}
							x := trMake(s)
							var idx []int
							for i := 0; i < n; i++ {
								if n <= 40 || i < 3 || i >= n-3 || i == n/2 || i == n/2+1 {
									idx = append(idx, i)
								}
							}
							if err := trCheckLinks(x, s); err != nil {
								return err
							}
							return trCheckRel(x, s, idx)
						}) {
							return
						}
					}
				}
			}})
			return js
		}})
	register(&Check{ID: "C31", Bounds: "traversals from every node of all binary shapes up to 11 (thorough 13) nodes and of chains and complete trees up to 1026 nodes; BuildTree and DrawTree for every size up to 1030 and around the powers of two up to 4096, ints and strings",
		Jobs: func(t bool) []Job {
			var js []Job
			for n := pick(t, 11, 13); n >= 1; n-- {
				js = append(js, Job{Name: fmt.Sprintf("shapes of %d", n), Run: func(c *Ctx) {
					idx := make([]int, n)
					for i := range idx {
						idx[i] = i
					}
					trShapes(n, func(s *trShape) bool {
						return c.Case(func() string { return fmt.Sprintf("shape %+v", *s) }, func() error { return trTraversals(trMake(s), s, idx) })
					})
				}})
			}
			js = append(js, Job{Name: "chains", Run: func(c *Ctx) {
				for _, n := range ladderSizes {
					if n == 0 || n > pick(t, 1100, 2100) {
						continue
					}
					for mode := 0; mode < 5; mode++ {
						if !c.Case(func() string { return fmt.Sprintf("chain of %d, mode %d", n, mode) }, func() error {
							s := trComplete(n)
							if mode < 4 {
								s = trChain(n, mode)
							}
							return trTraversals(trMake(s), s, []int{0, n / 2, n - 1})
						}) {
							return
						}
					}
				}
			}}, Job{Name: "build and draw", Run: func(c *Ctx) {
				for n := 0; n <= pick(t, 1030, 1030); n++ {
					if !c.Case(func() string { return fmt.Sprintf("BuildTree of %d ints", n) }, func() error { return trBuild(n, func(i int) int { return i*3 - 5 }) }) {
						return
					}
					if !c.Case(func() string { return fmt.Sprintf("BuildTree of %d equal ints", n) }, func() error { return trBuild(n, func(i int) int { return 0 }) }) {
						return
					}
					if !c.Case(func() string { return fmt.Sprintf("BuildTree of %d strings", n) }, func() error { return trBuild(n, func(i int) string { return fmt.Sprintf("s%d", i%7) }) }) {
						return
					}
				}
				for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096} {
					if !c.Case(func() string { return fmt.Sprintf("BuildTree of %d ints", n) }, func() error { return trBuild(n, func(i int) int { return i }) }) {
						return
					}
				}
			}})
			return js
		}})
}
