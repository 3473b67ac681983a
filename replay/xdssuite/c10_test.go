package xdssuite

import (
	"context"
	"errors"
	"fmt"
	"testing"

	"google.golang.org/protobuf/proto"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/rp"
	"github.com/kitex-contrib/xds/zzverif/xg"
)

// Resolution of generated clusters and load assignments against their messages.
func TestReplay_C10_resolve(t *testing.T) {
	r := rp.New(t)
	m := vrInstall()
	for k := 0; k < r.N(3000) && !r.Failed(); k++ {
		m.reset()
		eds := []string{"e1", "e2", "c1", "missing"}
		var es []proto.Message
		las := map[string][][]xg.Ep{}
		for _, n := range []string{"e1", "e2", "c1", "c2"} {
			if n[0] == 'c' && r.Chance(40) {
				continue
			}
			a := xg.Assignment(r, n)
			las[n] = xg.Localities(a)
			es = append(es, a)
		}
		res, err := xdsresource.UnmarshalEDS(vrPack(es...))
		if err != nil {
			r.Fail("UnmarshalEDS: %v on %v", err, es)
			return
		}
		for n, v := range res {
			m.set(xdsresource.EndpointsType, n, v)
		}
		broken := r.Chance(10)
		if broken {
			for n := range las {
				m.set(xdsresource.EndpointsType, n, errors.New("timeout"))
			}
			las = nil
		}
		cl := xg.Cluster(r, rp.Pick(r, "c1", "c2"), eds)
		cres, err := xdsresource.UnmarshalCDS(vrPack(cl))
		if err != nil {
			r.Fail("UnmarshalCDS: %v on %v", err, cl)
			return
		}
		for n, v := range cres {
			m.set(xdsresource.ClusterType, n, v)
		}
		want := xg.Flat(xg.Localities(cl.LoadAssignment))
		if len(cl.GetLoadAssignment().GetEndpoints()) == 0 {
			want = xg.Flat(las[xg.EDSName(cl)])
		}
		ask := rp.Pick(r, cl.Name, cl.Name, cl.Name, "unknown")
		if ask == "unknown" {
			want = nil
		}
		r.Case()
		resolver := NewXDSResolver()
		r.Guard("Resolve", func() {
			got, err := resolver.Resolve(context.Background(), ask)
			desc := fmt.Sprintf("cluster %v (asked for %q), load assignments %v broken=%v", cl, ask, las, broken)
			if len(want) == 0 {
				if err == nil {
					r.Fail("no endpoints but no error: %+v; %s", got, desc)
				}
				return
			}
			if err != nil {
				r.Fail("%d endpoints expected, error %v; %s", len(want), err, desc)
				return
			}
			if !got.Cacheable || got.CacheKey != ask {
				r.Fail("cacheable=%v key=%q; %s", got.Cacheable, got.CacheKey, desc)
			}
			if len(got.Instances) != len(want) {
				r.Fail("%d instances for %d endpoints; %s", len(got.Instances), len(want), desc)
				return
			}
			for i, in := range got.Instances {
				a := in.Address()
				// a zero weight falls back to the library's default weight
				w := int(want[i].Weight)
				if a.Network() != "tcp" || a.String() != want[i].Addr || (w != 0 && in.Weight() != w) {
					r.Fail("instance %d is %s/%s weight %d, want %+v; %s", i, a.Network(), a.String(), in.Weight(), want[i], desc)
					return
				}
			}
		})
	}
}

// The target of a call is its routed cluster.
func TestReplay_C10_target(t *testing.T) {
	r := rp.New(t)
	m := vrInstall()
	m.reset()
	resolver := NewXDSResolver()
	for _, n := range []string{"c1", "", "outbound|80||svc"} {
		r.Case()
		_, to := vrCall("", "svc", "m", "svc", "m", false)
		_ = to.SetTag(RouterClusterKey, n)
		if got := resolver.Target(context.Background(), to); got != n {
			r.Fail("target of a call routed to %q is %q", n, got)
		}
	}
}
