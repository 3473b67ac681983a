package manager

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/codes"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/rp"
)

// Lookups go on while a stream fails, the next one is opened and the sender is still busy with the old one: no nonce
// of the old stream reaches the new one, which ends up with the whole interest set.
func TestReplay_C04_opening(t *testing.T) {
	r := rp.New(t)
	for k := 0; k < r.N(150) && !r.Failed(); k++ {
		r.Case()
		if !r.Within(20*time.Second, "reconnecting does not end", func() { vrOpening(r) }) {
			return
		}
	}
}

func vrOpening(r *rp.R) {
	sv := &vrServer{}
	gate := make(chan struct{})
	var inSend, sendEnd int32
	stuck := r.Chance(70)
	sv.onSend = func(s *vrStream, req *vrReq) {
		if s.idx == 0 && strings.Contains(strings.Join(req.ResourceNames, " "), "stuck") {
			atomic.StoreInt32(&inSend, 1)
			<-gate
			atomic.StoreInt32(&sendEnd, 1)
		}
	}
	opening, opened := make(chan struct{}), make(chan struct{})
	sv.onOpen = func(n int) {
		if n == 1 {
			close(opening)
			<-opened
		}
	}
	sc := &XDSServerConfig{SvrAddr: "fake", SvrName: "fake", NDSNotRequired: true, LDSNotRequired: true, FetchXDSTimeout: 20 * time.Second}
	m := vrManager(sc)
	c, err := newXdsClient(&BootstrapConfig{configNamespace: "default", nodeDomain: "cluster.local", xdsSvrCfg: sc}, sv, m)
	if err != nil {
		r.Fail("no client: %v", err)
		return
	}
	m.client = c
	defer func() { c.close(); sv.last().in <- vrItem{err: errors.New("end")} }()
	types := []vrRT{xdsresource.RouteConfigType, xdsresource.ClusterType}
	want := map[vrRT]map[string]bool{}
	get := func(t vrRT, name string) {
		if want[t] == nil {
			want[t] = map[string]bool{}
		}
		want[t][name] = true
		go func() { _, _ = m.Get(context.Background(), t, name) }()
	}
	isLast := func(stream int, t vrRT) (vrSent, bool) {
		sv.mu.Lock()
		defer sv.mu.Unlock()
		for i := len(sv.log) - 1; i >= 0; i-- {
			if sv.log[i].stream == stream && sv.log[i].req.TypeUrl == vrURL[t] {
				return sv.log[i], true
			}
		}
		return vrSent{}, false
	}
	names := func(t vrRT) string {
		var l []string
		for n := range want[t] {
			l = append(l, n)
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	reqNames := func(q *vrReq) string {
		l := append([]string{}, q.ResourceNames...)
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	hist := ""
	version := map[vrRT]string{}
	for _, t := range types {
		if r.Chance(80) {
			get(t, "a")
			if !vrUntil(vrSlow, func() bool { s, ok := isLast(0, t); return ok && reqNames(s.req) == names(t) }) {
				r.Fail("a lookup that misses is not followed by a request")
				return
			}
			nonce := fmt.Sprintf("s0-%d", t)
			version[t] = fmt.Sprintf("v%d", t)
			sv.last().in <- vrItem{resp: &discoveryv3.DiscoveryResponse{TypeUrl: vrURL[t], VersionInfo: version[t], Nonce: nonce, Resources: []*anypb.Any{vrResource(t, "a", 1)}}}
			if !vrUntil(vrSlow, func() bool { s, ok := isLast(0, t); return ok && s.req.ResponseNonce == nonce }) {
				r.Fail("a response is not acknowledged")
				return
			}
			hist += vrName[t] + " acknowledged; "
		}
	}
	if stuck {
		get(rp.Pick(r, types...), "stuck")
		if !vrUntil(vrSlow, func() bool { return atomic.LoadInt32(&inSend) == 1 }) {
			r.Fail("a lookup that misses is not followed by a request")
			return
		}
		hist += "the sender is stuck on the stream; "
	}
	change := func(when string) {
		for i, n := 0, r.Intn(4); i < n; i++ {
			t := rp.Pick(r, types...)
			if name := rp.Pick(r, "a", "b", "c"); r.Chance(25) && want[t][name] {
				m.mu.Lock() // as the cleaner does
				delete(m.meta[t], name)
				if m.cache[t] != nil {
					delete(m.cache[t], name)
				}
				c.Watch(t, name, true)
				m.mu.Unlock()
				delete(want[t], name)
				hist += fmt.Sprintf("%s %q evicted %s; ", vrName[t], name, when)
			} else {
				n := len(want[t])
				get(t, fmt.Sprintf("x%d-%s", i, when))
				if len(want[t]) > n {
					hist += fmt.Sprintf("%s lookup %s; ", vrName[t], when)
				}
				if !vrUntil(vrSlow, func() bool {
					c.mu.Lock()
					defer c.mu.Unlock()
					return c.watchedResource[t][fmt.Sprintf("x%d-%s", i, when)]
				}) {
					r.Fail("a lookup does not subscribe while the stream is down: " + hist)
				}
			}
		}
	}
	change("before")
	sv.last().in <- vrItem{err: errors.New("stream broken")}
	hist += "the stream fails; "
	select {
	case <-opening:
	case <-time.After(vrSlow):
		r.Fail("no new stream is opened: " + hist)
	}
	change("opening")
	if r.Failed() {
		return
	}
	if r.Chance(50) {
		close(gate)
		close(opened)
	} else {
		close(opened)
		vrSettle()
		change("opened")
		close(gate)
	}
	ok := vrUntil(vrSlow, func() bool {
		for t := range want {
			s, ok := isLast(1, t)
			if !ok || reqNames(s.req) != names(t) {
				return false
			}
		}
		return true
	})
	time.Sleep(time.Millisecond)
	for _, s := range sv.since(0) {
		if s.stream == 1 && s.req.ResponseNonce != "" {
			r.Fail("the nonce %q, which the first stream issued, is sent on the second one: %s", s.req.ResponseNonce, hist)
			return
		}
	}
	for t := range want {
		s, has := isLast(1, t)
		if !has || reqNames(s.req) != names(t) || !ok {
			r.Fail("the last %s request on the new stream is not the interest set %q: %v; %s", vrName[t], names(t), s.req, hist)
			return
		}
		if s.req.VersionInfo != version[t] {
			r.Fail("the %s request on the new stream carries the version %q, %q was accepted last: %s", vrName[t], s.req.VersionInfo, version[t], hist)
			return
		}
	}
}

// An authentication failure, at any moment, stops the client; lookups return all the same.
func TestReplay_C04_stop(t *testing.T) {
	r := rp.New(t)
	for k := 0; k < r.N(20) && !r.Failed(); k++ {
		r.Case()
		sv := &vrServer{}
		sc := &XDSServerConfig{SvrAddr: "fake", SvrName: "fake", NDSNotRequired: true, LDSNotRequired: true, FetchXDSTimeout: 300 * time.Millisecond}
		m := vrManager(sc)
		c, err := newXdsClient(&BootstrapConfig{configNamespace: "default", nodeDomain: "cluster.local", xdsSvrCfg: sc}, sv, m)
		if err != nil {
			r.Fail("no client: %v", err)
			return
		}
		m.client = c
		done := make(chan error, 16)
		get := func(name string) {
			go func() {
				res, err := m.Get(context.Background(), xdsresource.ClusterType, name)
				if err == nil && vrID(xdsresource.ClusterType, res) != "id-1" {
					err = fmt.Errorf("bad value %v", res)
				}
				if (err == nil) != (name == "a") {
					done <- fmt.Errorf("lookup of %q: %v, %v", name, res, err)
					return
				}
				done <- nil
			}()
		}
		get("a")
		vrUntil(vrSlow, func() bool { return sv.nlog() > 0 })
		sv.last().in <- vrItem{resp: &discoveryv3.DiscoveryResponse{TypeUrl: vrURL[xdsresource.ClusterType], VersionInfo: "v", Nonce: "n", Resources: []*anypb.Any{vrResource(xdsresource.ClusterType, "a", 1)}}}
		n := 1
		before := r.Intn(3)
		for i := 0; i < before; i++ {
			get(fmt.Sprint("before", i))
			n++
		}
		if !vrUntil(vrSlow, func() bool { _, ok := m.getFromCache(xdsresource.ClusterType, "a"); return ok }) {
			r.Fail("a response is not applied")
			return
		}
		streams := len(sv.streams)
		sv.last().in <- vrItem{err: status.Err(codes.Unauthenticated, "rejected")}
		if r.Chance(50) {
			vrSettle()
		}
		for i := 0; i < 4; i++ {
			get(rp.Pick(r, "a", fmt.Sprint("after", i)))
			n++
		}
		end := time.After(5 * time.Second)
		for ; n > 0 && !r.Failed(); n-- {
			select {
			case err := <-done:
				if err != nil {
					r.Fail("after an authentication failure: %v", err)
				}
			case <-end:
				r.Fail("a lookup does not return after an authentication failure")
			}
		}
		sv.mu.Lock()
		if len(sv.streams) != streams {
			r.Fail("a stream is opened after an authentication failure")
		}
		sv.mu.Unlock()
	}
}
