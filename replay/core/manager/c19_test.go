package manager

import (
	"runtime"
	"sort"
	"testing"
	"time"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/rp"
)

type vrIdleWorld struct {
	*vrWorld
	before  map[vrRT]map[string]bool // in force when the cleaner started
	used    map[vrRT]map[string]bool // looked up within the period
	started time.Time
}

func vrNames(w *vrWorld) []*vrLookup {
	var all []*vrLookup
	for _, t := range vrTypes[:4] {
		var ns []string
		for n := range w.fold[t] {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			all = append(all, &vrLookup{t: t, name: n})
		}
	}
	return all
}

// real sweeps over many managers at once: what is idle goes and is unsubscribed, what is used stays; an evicted name
// can be looked up again.
func TestReplay_C19_sweep(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	r := rp.New(t)
	var ws []*vrIdleWorld
	for k := 0; k < r.N(80); k++ {
		w := &vrIdleWorld{vrWorld: vrNewWorld(r, r.Chance(30), true), before: map[vrRT]map[string]bool{}, used: map[vrRT]map[string]bool{}}
		for s := 20 + r.Intn(40); s >= 0 && !w.dead; s-- {
			w.step(50, 50, 5, 2, 0)
		}
		for len(w.pending) > 0 && !w.dead {
			w.cancelOne()
		}
		w.quiet("C02 C03")
		if w.sendBad && !w.dead {
			w.breakStream(0)
		}
		if w.dead {
			w.close()
			continue
		}
		ws = append(ws, w)
	}
	time.Sleep(500 * time.Millisecond)
	for _, w := range ws {
		for _, l := range vrNames(w.vrWorld) {
			if w.before[l.t] == nil {
				w.before[l.t] = map[string]bool{}
			}
			w.before[l.t][l.name] = true
		}
		w.started = time.Now()
		go w.m.cleaner()
	}
	time.Sleep(10 * time.Second)
	for _, w := range ws {
		// an update is not a use
		for k := r.Intn(3); k > 0 && !w.dead; k-- {
			w.push(w.response(rp.Pick(r, vrTypes[:4]...), 0))
		}
		for _, l := range vrNames(w.vrWorld) {
			if w.dead || r.Chance(50) {
				continue
			}
			if w.used[l.t] == nil {
				w.used[l.t] = map[string]bool{}
			}
			w.used[l.t][l.name] = true
			w.lookup(l.t, l.name)
		}
		w.quiet("C03")
	}
	if d := 31*time.Second - time.Since(ws[0].started); d > 0 {
		time.Sleep(d)
	}
	time.Sleep(300 * time.Millisecond)
	for _, w := range ws {
		if w.dead {
			w.close()
			continue
		}
		r.Case()
		w.note("sweep")
		vrSettle()
		last := map[vrRT]*vrReq{}
		for _, s := range w.sv.since(w.at) {
			w.at++
			if t, ok := vrTypeOf(s.req.TypeUrl); ok {
				last[t] = s.req
			}
		}
		gone := []*vrLookup{}
		for _, l := range vrNames(w.vrWorld) {
			w.m.mu.RLock()
			_, in := w.m.cache[l.t][l.name]
			w.m.mu.RUnlock()
			reserved := l.t == xdsresource.ListenerType && l.name == xdsresource.ReservedLdsResourceName
			must := w.before[l.t][l.name] && !w.used[l.t][l.name] && !reserved
			switch {
			case reserved && !in:
				w.bad("C19", "the reserved listener was removed by a sweep")
			case w.used[l.t][l.name] && !in:
				w.bad("C19", "%s %q was looked up 21 s before the sweep, and removed by it", vrName[l.t], l.name)
			case must && in:
				w.bad("C19", "%s %q was not looked up for more than 30 s, and is not removed by the sweep", vrName[l.t], l.name)
			}
			if !in {
				gone = append(gone, l)
				delete(w.fold[l.t], l.name)
			}
		}
		for _, l := range gone {
			q := last[l.t]
			if q == nil {
				w.bad("C19", "%s %q was removed, and no request was sent", vrName[l.t], l.name)
				continue
			}
			for _, n := range q.ResourceNames {
				if n == l.name {
					w.bad("C19", "%s %q was removed, and the last request still names it", vrName[l.t], l.name)
				}
			}
		}
		for t, q := range last {
			have := map[string]bool{}
			for _, n := range q.ResourceNames {
				have[n] = true
			}
			for n := range w.watched[t] {
				keep := w.used[t][n] || t == xdsresource.ListenerType && n == xdsresource.ReservedLdsResourceName
				if keep && w.fold[t][n] != "" && !have[n] {
					w.bad("C19", "%s %q is used, and the request after the sweep does not name it", vrName[t], n)
				}
			}
			w.watched[t] = have
		}
		// looked up again
		if len(gone) > 0 && !w.dead {
			l := gone[r.Intn(len(gone))]
			n := w.at
			w.lookup(l.t, l.name)
			if !w.dead && w.at == n {
				w.bad("C19", "the lookup of the evicted %s %q does not subscribe again", vrName[l.t], l.name)
			}
			for k := 0; k < 3 && !w.dead; k++ {
				w.push(w.response(l.t, 0))
			}
		}
		w.close()
	}
}
