package manager

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/rp"
)

// vrWatcher is a registered handler: the newest content of every name it has completed for.
type vrWatcher struct {
	mu    sync.Mutex
	t     vrRT
	seen  map[string]int
	since time.Time
	n     atomic.Int64
}

func vrNum(t vrRT, res interface{}) int {
	n, err := strconv.Atoi(strings.TrimPrefix(vrID(t, res), "id-"))
	if err != nil {
		return -1
	}
	return n
}

func (h *vrWatcher) handle(res map[string]xdsresource.Resource) {
	if h.n.Add(1)%8 == 0 {
		time.Sleep(20 * time.Microsecond) // a handler may take its time
	} else {
		runtime.Gosched()
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	for n, x := range res {
		if id := vrNum(h.t, x); id > h.seen[n] {
			h.seen[n] = id
		}
	}
}

// Lookups, responses, direct updates, registrations, evictions, dumps and stream failures at once. The content of
// every name only grows, so a lookup must not return less than what some lookup that ended before it began returned,
// nor more than what the handlers have completed for.
func TestReplay_C07_mix(t *testing.T) {
	r := rp.New(t)
	dir := t.TempDir()
	for k := 0; k < r.N(12) && !r.Failed(); k++ {
		r.Case()
		if !r.Within(40*time.Second, "a mix of lookups, updates, registrations, evictions, dumps and reconnects does not end (deadlock)", func() { vrMix(r, fmt.Sprintf("%s/dump%d", dir, k)) }) {
			return
		}
	}
}

func vrMix(r *rp.R, dump string) {
	var last sync.Map // the names of the last request of a type on a stream
	sv := &vrServer{}
	sv.onSend = func(s *vrStream, req *vrReq) { last.Store(fmt.Sprint(s.idx, req.TypeUrl), req.ResourceNames) }
	sc := &XDSServerConfig{SvrAddr: "fake", SvrName: "fake", NDSNotRequired: true, LDSNotRequired: true, FetchXDSTimeout: 10 * time.Second}
	cfg := &BootstrapConfig{configNamespace: "default", nodeDomain: "cluster.local", xdsSvrCfg: sc}
	m := vrManager(sc)
	m.opts.DumpPath = dump
	c, err := newXdsClient(cfg, sv, m)
	if err != nil {
		r.Fail("no client: %v", err)
		return
	}
	m.client = c
	types := []vrRT{xdsresource.RouteConfigType, xdsresource.ClusterType, xdsresource.EndpointsType}
	names := []string{"a", "b", "c"}
	var (
		ids     int64
		stop    = make(chan struct{})
		wg, ops sync.WaitGroup
		hmu     sync.Mutex
		hs      []*vrWatcher
		maxSeen sync.Map // type/name -> *int64
	)
	bg := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					f()
				}
			}
		}()
	}
	register := func(t vrRT) {
		h := &vrWatcher{t: t, seen: map[string]int{}}
		m.RegisterXDSUpdateHandler(t, h.handle)
		hmu.Lock()
		h.since = time.Now()
		hs = append(hs, h)
		hmu.Unlock()
	}
	for _, t := range types {
		register(t)
		for _, n := range names {
			maxSeen.Store(fmt.Sprint(t, n), new(int64))
		}
	}
	// the control plane: answers and pushes
	var smu sync.Mutex // one response at a time: the content of a name never decreases on a stream
	push := func(t vrRT, d time.Duration) {
		smu.Lock()
		defer smu.Unlock()
		st := sv.last()
		if st == nil {
			return
		}
		if len(st.in) > 1 {
			return
		}
		v, _ := last.Load(fmt.Sprint(st.idx, vrURL[t]))
		ns, _ := v.([]string)
		id := int(atomic.AddInt64(&ids, 1))
		var rs []*anypb.Any
		for _, n := range ns {
			rs = append(rs, vrResource(t, n, id))
		}
		select {
		case st.in <- vrItem{resp: &discoveryv3.DiscoveryResponse{TypeUrl: vrURL[t], VersionInfo: fmt.Sprint(id), Nonce: fmt.Sprintf("%d-%d", st.idx, id), Resources: rs}}:
		case <-time.After(d):
		}
	}
	rnd := func() func(int) int {
		seed := uint64(r.Int63()) | 1
		return func(n int) int {
			seed ^= seed << 13
			seed ^= seed >> 7
			seed ^= seed << 17
			return int(seed>>33) % n
		}
	}
	{
		g := rnd()
		bg(func() {
			push(types[g(2)], 2*time.Millisecond)
			time.Sleep(time.Duration(300+g(1000)) * time.Microsecond)
		})
	}
	{ // endpoints are updated directly
		g := rnd()
		bg(func() {
			id := int(atomic.AddInt64(&ids, 1))
			up := map[string]xdsresource.Resource{}
			for _, n := range names {
				if g(3) != 0 {
					up[n] = &xdsresource.EndpointsResource{Localities: []*xdsresource.Locality{{Endpoints: []*xdsresource.Endpoint{}}}}
					res, err := xdsresource.UnmarshalEDS([]*anypb.Any{vrResource(xdsresource.EndpointsType, n, id)})
					if err != nil {
						r.Fail("%v", err)
						return
					}
					up[n] = res[n]
				}
			}
			m.UpdateResource(xdsresource.EndpointsType, up, fmt.Sprint(id))
			time.Sleep(time.Duration(200+g(600)) * time.Microsecond)
		})
	}
	{
		g := rnd()
		bg(func() {
			hmu.Lock()
			n := len(hs)
			hmu.Unlock()
			if n < 5 {
				register(types[g(3)])
			}
			m.Dump()
			time.Sleep(time.Duration(500+g(1500)) * time.Microsecond)
		})
	}
	{
		g := rnd()
		bg(func() {
			t, n := types[g(2)], names[g(3)]
			m.mu.Lock()
			delete(m.meta[t], n)
			if m.cache[t] != nil {
				delete(m.cache[t], n)
			}
			m.client.Watch(t, n, true)
			m.mu.Unlock()
			time.Sleep(time.Duration(5000+g(10000)) * time.Microsecond)
		})
	}
	{
		g := rnd()
		bg(func() {
			time.Sleep(time.Duration(15000+g(20000)) * time.Microsecond)
			smu.Lock()
			st := sv.last()
			select {
			case st.in <- vrItem{err: errors.New("stream broken")}:
			case <-time.After(time.Millisecond):
			}
			smu.Unlock()
		})
	}
	end := time.Now().Add(400 * time.Millisecond)
	for w := 0; w < 4; w++ {
		g := rnd()
		ops.Add(1)
		go func() {
			defer ops.Done()
			for i := 0; i < 80 && !r.Failed() && time.Now().Before(end); i++ {
				t, n := types[g(3)], names[g(3)]
				v, _ := maxSeen.Load(fmt.Sprint(t, n))
				mx := v.(*int64)
				before := atomic.LoadInt64(mx)
				d := 5 * time.Second
				short := g(5) == 0
				if short {
					d = time.Duration(g(1500)) * time.Microsecond
				}
				ctx, cancel := context.WithTimeout(context.Background(), d)
				start := time.Now()
				res, err := m.Get(ctx, t, n)
				cancel()
				if err != nil {
					if !short && time.Since(start) < d {
						r.Fail("lookup of %s %q fails before its deadline: %v", vrName[t], n, err)
					}
					if res != nil {
						r.Fail("a value and an error")
					}
					continue
				}
				id := vrNum(t, res)
				if id < 0 {
					r.Fail("lookup of %s %q returns %v", vrName[t], n, res)
					return
				}
				if int64(id) < before {
					r.Fail("lookup of %s %q returns the content %d after another lookup had returned %d", vrName[t], n, id, before)
					return
				}
				hmu.Lock()
				l := append([]*vrWatcher{}, hs...)
				hmu.Unlock()
				for _, h := range l {
					if h.t != t || !h.since.Before(start) {
						continue
					}
					h.mu.Lock()
					s := h.seen[n]
					h.mu.Unlock()
					if s < id {
						r.Fail("lookup of %s %q returns the content %d before a handler completed for it (it has completed for %d)", vrName[t], n, id, s)
						return
					}
				}
				for {
					o := atomic.LoadInt64(mx)
					if o >= int64(id) || atomic.CompareAndSwapInt64(mx, o, int64(id)) {
						break
					}
				}
			}
		}()
	}
	ops.Wait()
	close(stop)
	wg.Wait()
	c.close()
	close(m.closeCh)
	select {
	case sv.last().in <- vrItem{err: errors.New("end")}:
	default:
	}
}
