package main

import (
	"fmt"
	"math"

	"github.com/zijiren233/gencontainer/vec"
)

type myU8 uint8
type myU64 uint64
type myI64 int64
type myF64 float64

func namedOrd[T ~int64 | ~uint8 | ~uint64 | ~float32 | ~float64](name string, vals []T) ordCase[T] {
	return ordCase[T]{name: name, vals: vals,
		less: func(a, b T) bool { return a < b || (a != a && b == b) }, eq: func(a, b T) bool { return a == b }, nan: func(a T) bool { return a != a }}
}

func namedPtr[T ~int64 | ~uint8 | ~uint64 | ~float32 | ~float64](name string, vals []T) ordCase[*T] {
	var ps []*T
	for _, v := range vals {
		p := new(T)
		*p = v
		ps = append(ps, p)
	}
	return ordCase[*T]{name: name, vals: ps,
		less: func(a, b *T) bool { return *a < *b || (*a != *a && *b == *b) }, eq: func(a, b *T) bool { return *a == *b }, nan: func(a *T) bool { return *a != *a }}
}

// vecFuncsReplaced: the functions set last are the ones used, whatever was detected or set before and however often.
func vecFuncsReplaced(c *Ctx) {
	asc := func(a, b int) bool { return a < b }
	desc := func(a, b int) bool { return a > b }
	mod := func(a, b int) bool { return a%3 < b%3 }
	eq := func(a, b int) bool { return a == b }
	eqMod := func(a, b int) bool { return a%3 == b%3 }
	type pair struct {
		name     string
		less, eq func(a, b int) bool
	}
	ps := []pair{{"detected", nil, nil}, {"<", asc, eq}, {">", desc, eq}, {"mod 3", mod, eqMod}}
	for _, p := range ps {
		for _, q := range ps[1:] {
			for use := 0; use < 2; use++ {
				for n := 0; n <= 7; n++ {
					if !c.Case(func() string {
						return fmt.Sprintf("functions %s, then %s, used between: %d, %d elements", p.name, q.name, use, n)
					}, func() error {
						c.Trans++
						v := vec.New[int]()
						if p.less != nil {
							v = vec.New(vec.WithCmpLess(p.less), vec.WithCmpEqual(p.eq))
						}
						for i := 0; i < n; i++ {
							v.Push(i * 5 % 7)
						}
						if use == 1 {
							v.Sort()
							v.Contains(3)
						}
						v.SetCmpLess(q.less).SetCmpEqual(q.eq)
						v.Sort()
						d := v.Slice()
						for i := 1; i < len(d); i++ {
							if q.less(d[i], d[i-1]) {
								return fmt.Errorf("Sort uses another order: %v", d)
							}
						}
						if !v.IsSorted() {
							return fmt.Errorf("IsSorted() = false after Sort")
						}
						for t := 0; t < 9; t++ {
							want := false
							for _, x := range d {
								want = want || q.eq(x, t)
							}
							if v.Contains(t) != want {
								return fmt.Errorf("Contains(%d) = %v in %v", t, !want, d)
							}
							if v.CmpLess(t, 4) != q.less(t, 4) || v.CmpEqual(t, 4) != q.eq(t, 4) {
								return fmt.Errorf("CmpLess or CmpEqual is not the one set")
							}
						}
						return nil
					}) {
						return
					}
				}
			}
		}
	}
}

// vecHardStrings: single inputs of the natural order.
func vecHardStrings(c *Ctx) {
	sorted := func(a, b string) func() error {
		return func() error {
			v := vec.New[string]().Push(b, a).Sort()
			if err := eqSlice("sorted", v.Slice(), []string{a, b}); err != nil {
				return fmt.Errorf("Sort of [%q %q] gives %q", b, a, v.Slice())
			}
			return nil
		}
	}
	c.Named("natural-digits-beyond-uint64", sorted("9", "18446744073709551616"))
	c.Named("natural-leading-zero-before-text", sorted("1", "01c"))
	c.Named("natural-leading-zero", sorted("a1b", "a01c"))
	c.Named("natural-leading-zero-number", sorted("007", "10"))
}

func init() {
	extraJobs["C26"] = append(extraJobs["C26"], func(t bool) []Job {
		n, m := pick(t, 4, 6), pick(t, 3, 4)
		nan := math.NaN()
		var js []Job
		add := func(name string, short, lng func(c *Ctx)) {
			js = append(js, Job{Name: name, Run: short}, Job{Name: name + " long", Run: lng})
		}
		s1 := ordCase[string]{name: "strings 2", vals: []string{"9999999999999999999", "10000000000000000000", "18446744073709551615", "a10b2", "a10b10", "a9b10", "x"}, less: natLess, eq: func(a, b string) bool { return a == b }}
		add("strings 2", vecOrderEnum(s1, pick(t, 4, 5), pick(t, 2, 3)), vecOrderLong(s1, 40))
		s2 := ordCase[string]{name: "strings 3", vals: []string{"é", "z", "日9", "日10", "A", " ", "a-1", "a-12"}, less: natLess, eq: func(a, b string) bool { return a == b }}
		add("strings 3", vecOrderEnum(s2, pick(t, 4, 5), pick(t, 2, 3)), vecOrderLong(s2, 40))
		a := natural("int64 close", []int64{math.MaxInt64 - 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1})
		add("int64 close", vecOrderEnum(a, n, m), vecOrderLong(a, 40))
		b := natural("uint64 close", []uint64{math.MaxUint64 - 1, math.MaxUint64, 1<<53 + 1, 1 << 53})
		add("uint64 close", vecOrderEnum(b, n, m), vecOrderLong(b, 40))
		d := natural("float64 close", []float64{1, math.Nextafter(1, 2), 1e300, math.MaxFloat64, -math.SmallestNonzeroFloat64})
		add("float64 close", vecOrderEnum(d, n, m), vecOrderLong(d, 40))
		e := pointers("*int64", []int64{math.MaxInt64 - 1, math.MaxInt64, math.MinInt64})
		add("*int64", vecOrderEnum(e, n, m), vecOrderLong(e, 40))
		f := pointers("*uint64", []uint64{math.MaxUint64 - 1, math.MaxUint64, 0, 1 << 63})
		add("*uint64", vecOrderEnum(f, n, m), vecOrderLong(f, 40))
		g := pointers("*float32", []float32{float32(nan), -1, float32(math.Inf(1))})
		add("*float32", vecOrderEnum(g, n, m), vecOrderLong(g, 40))
		h := pointers("*int8", []int8{-128, 127, 0})
		add("*int8", vecOrderEnum(h, n, m), vecOrderLong(h, 40))
		i := pointers("*int16", []int16{-32768, 32767, 256})
		add("*int16", vecOrderEnum(i, n, m), vecOrderLong(i, 40))
		j := pointers("*int32", []int32{math.MinInt32, math.MaxInt32, 65536})
		add("*int32", vecOrderEnum(j, n, m), vecOrderLong(j, 40))
		k := pointers("*uint", []uint{0, math.MaxUint, 1 << 63})
		add("*uint", vecOrderEnum(k, n, m), vecOrderLong(k, 40))
		l := pointers("*uint16", []uint16{0, 65535, 256})
		add("*uint16", vecOrderEnum(l, n, m), vecOrderLong(l, 40))
		o := pointers("*uint32", []uint32{0, math.MaxUint32, 65536})
		add("*uint32", vecOrderEnum(o, n, m), vecOrderLong(o, 40))
		p := namedOrd("named uint8", []myU8{0, 128, 255})
		add("named uint8", vecOrderEnum(p, n, m), vecOrderLong(p, 40))
		q := namedOrd("named uint64", []myU64{0, 1 << 63, math.MaxUint64})
		add("named uint64", vecOrderEnum(q, n, m), vecOrderLong(q, 40))
		r := namedOrd("named int64", []myI64{math.MinInt64, -1, math.MaxInt64})
		add("named int64", vecOrderEnum(r, n, m), vecOrderLong(r, 40))
		s := namedOrd("named float32", []myFlo{myFlo(nan), -1, 0.5})
		add("named float32", vecOrderEnum(s, n, m), vecOrderLong(s, 40))
		u := namedPtr("pointer to named float64", []myF64{myF64(nan), -1, 0.5})
		add("pointer to named float64", vecOrderEnum(u, n, m), vecOrderLong(u, 40))
		w := namedPtr("pointer to named uint64", []myU64{math.MaxUint64, 2, 1 << 63})
		add("pointer to named uint64", vecOrderEnum(w, n, m), vecOrderLong(w, 40))
		js = append(js, Job{Name: "single strings", Run: vecHardStrings})
		js = append(js, Job{Name: "functions replaced", Run: vecFuncsReplaced})
		return js
	})
}
