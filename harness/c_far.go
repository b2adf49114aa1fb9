package main

import (
	"fmt"
	"math"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

// farDeadlines: SetExpiration to instants from year 1 to year 9999 in several zones, and AddExpiration adding up beyond
// what nanoseconds can hold; each method judges the entry by the instant, whatever its distance.
func farDeadlines(c *Ctx) {
	zones := []*time.Location{time.UTC, time.FixedZone("east", 14*3600), time.FixedZone("west", -12*3600-1800)}
	now := func() time.Time { return time.Unix(0, core.ClockNow()) }
	check := func(e *synccache.Entry[int], sc *synccache.SyncCache[int, int], live bool, method int) error {
		if e.IsExpired() == live {
			return fmt.Errorf("IsExpired() = %v", !live)
		}
		got := false
		switch method {
		case 0:
			_, got = sc.Load(1)
		case 1:
			_, got = sc.LoadOrStore(1, 2, time.Hour)
		case 2:
			_, got = sc.LoadAndDelete(1)
		case 3:
			got = sc.CompareValueAndDelete(1, 7)
		case 4:
			sc.Range(func(int, *synccache.Entry[int]) bool { got = true; return true })
		}
		if got != live {
			return fmt.Errorf("method %d finds the entry: %v, want %v", method, got, live)
		}
		return nil
	}
	store := func(d time.Duration) (*synccache.Entry[int], *synccache.SyncCache[int, int]) {
		sc := &synccache.SyncCache[int, int]{}
		sc.Store(1, 7, d)
		var e *synccache.Entry[int]
		e, ok := sc.Load(1)
		if !ok {
			panic("entry not there")
		}
		return e, sc
	}
	var dates []time.Time
	for _, y := range []int{1, 2, 100, 1000, 1582, 1600, 1676, 1677, 1678, 1700, 1900, 1901, 1902, 1968, 1969, 1970, 1971, 2000, 2037, 2038, 2039, 2105, 2106, 2107, 2261, 2262, 2263, 2300, 2500, 3000, 5000, 9998, 9999, 20000, 100000} {
		for _, m := range []time.Month{1, 7, 12} {
			dates = append(dates, time.Date(y, m, 19, 3, 14, 7, 999999999, time.UTC))
		}
	}
	dates = append(dates, time.Time{}, time.Unix(1<<31-1, 0), time.Unix(1<<31, 0), time.Unix(1<<32, 0), time.Unix(math.MaxInt64/1000000000, 0), time.Unix(math.MaxInt64/1000000000+1, 0), time.Unix(-1<<31, 0), time.Unix(math.MinInt64/1000000000-1, 0), time.Unix(0, 0), time.UnixMilli(1), time.UnixMilli(-1))
	for _, d := range dates {
		for z, loc := range zones {
			for method := 0; method < 5; method++ {
				if !c.Case(func() string { return fmt.Sprintf("SetExpiration(%v), method %d", d.In(loc), method) }, func() error {
					c.Trans++
					e, sc := store(time.Hour)
					diff := d.Sub(now()) // saturates
					if diff > -time.Second && diff < time.Second {
						return nil
					}
					e.SetExpiration(d.In(loc))
					if z == 1 && diff > 2*time.Hour { // and some time later
						core.AdvanceQuiet(int64(time.Hour))
					}
					return check(e, sc, diff > 0, method)
				}) {
					return
				}
			}
		}
	}
	const big = time.Duration(math.MaxInt64)
	for _, steps := range [][]time.Duration{
		{big}, {big, big}, {big, big, big, big}, {big, -big, -2 * time.Hour}, {-big}, {-big, -big}, {-big, -big, big}, {-big, -big, big, big, time.Hour}, {math.MinInt64}, {math.MinInt64, big, 2 * time.Hour},
		{math.MinInt64, math.MinInt64, big, big, big}, {big / 2, big / 2, big / 2}, {-time.Hour, -time.Hour, 3 * time.Hour}, {time.Hour, -3 * time.Hour},
	} {
		for method := 0; method < 5; method++ {
			if !c.Case(func() string { return fmt.Sprintf("AddExpiration %v, method %d", steps, method) }, func() error {
				c.Trans++
				e, sc := store(time.Hour)
				left := int64(time.Hour / ms)
				for _, s := range steps {
					e.AddExpiration(s)
					left += int64(s / ms)
				}
				if left > -1000 && left < 1000 {
					return fmt.Errorf("the case is too close to call")
				}
				return check(e, sc, left > 0, method)
			}) {
				return
			}
		}
	}
}

func init() {
	extraJobs["C06"] = append(extraJobs["C06"], func(t bool) []Job { return []Job{{Name: "far deadlines", Run: farDeadlines}} })
}
