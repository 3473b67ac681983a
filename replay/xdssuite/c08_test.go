package xdssuite

import (
	"fmt"
	"testing"

	v3routepb "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	"google.golang.org/protobuf/proto"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/rp"
	"github.com/kitex-contrib/xds/zzverif/xg"
)

// Routing decisions of the real router for generated listeners and tables, against the reference matcher.
func TestReplay_C08_route(t *testing.T) {
	r := rp.New(t)
	m := vrInstall()
	router := NewXDSRouter(vrMeta())
	for k := 0; k < r.N(2500) && !r.Failed(); k++ {
		m.reset()
		s := &xg.Seq{}
		names := []string{"t1", "t2", "missing"}
		tables := map[string]*v3routepb.RouteConfiguration{}
		var ms []proto.Message
		for _, n := range names[:2] {
			tables[n] = xg.RouteConfig(r, s, n)
			ms = append(ms, tables[n])
		}
		rds, err := xdsresource.UnmarshalRDS(vrPack(ms...))
		if err != nil {
			r.Fail("UnmarshalRDS: %v on %v", err, ms)
			return
		}
		for n, v := range rds {
			m.set(xdsresource.RouteConfigType, n, v)
		}
		l := xg.OutboundListener(r, s, "dest", names)
		lds, err := xdsresource.UnmarshalLDS(vrPack(l.PB))
		if err != nil {
			r.Fail("UnmarshalLDS: %v on %v", err, l.PB)
			return
		}
		for n, v := range lds {
			m.set(xdsresource.ListenerType, n, v)
		}
		for c := 0; c < 6; c++ {
			r.Case()
			pkg, svc, method := rp.Pick(r, xg.Pkgs...), rp.Pick(r, xg.Svcs...), rp.Pick(r, xg.Methods...)
			toMethod := rp.Pick(r, method, method, rp.Pick(r, xg.Methods...))
			grpc := r.Chance(40)
			md := xg.MD(r)
			ri, _ := vrCall(pkg, svc, method, "dest", toMethod, grpc)
			want := xg.Route(l, func(n string) *v3routepb.RouteConfiguration { return tables[n] }, grpc, pkg, svc, method, toMethod, md)
			desc := func() string {
				return fmt.Sprintf("call %s.%s/%s (to method %q) grpc=%v md=%v listener=%v t1=%v t2=%v", pkg, svc, method, toMethod, grpc, md, l.PB, tables["t1"], tables["t2"])
			}
			r.Guard("Route", func() {
				res, err := router.Route(vrCtx(md), ri)
				if want == nil {
					if err == nil {
						r.Fail("nothing matches but cluster %q was picked; %s", res.ClusterPicked, desc())
					}
					return
				}
				total := uint64(0)
				for _, w := range want.Clusters {
					total += uint64(w.Weight)
				}
				if len(want.Clusters) == 0 || (len(want.Clusters) > 1 && total == 0) {
					if err == nil {
						r.Fail("the matched route selects no cluster but %q was picked; %s", res.ClusterPicked, desc())
					}
					return
				}
				if err != nil {
					r.Fail("route to %v expected, error %v; %s", vrNames(want.Clusters), err, desc())
					return
				}
				ok := false
				for _, w := range want.Clusters {
					ok = ok || w.Name == res.ClusterPicked
				}
				if !ok {
					r.Fail("expected one of %v, picked %q; %s", vrNames(want.Clusters), res.ClusterPicked, desc())
				} else if res.RPCTimeout != want.Timeout {
					r.Fail("expected timeout %v, got %v; %s", want.Timeout, res.RPCTimeout, desc())
				}
			})
		}
	}
}

// Every header condition alone, on every value.
func TestReplay_C08_headers(t *testing.T) {
	r := rp.New(t)
	for k := 0; k < r.N(20000) && !r.Failed(); k++ {
		r.Case()
		hs := xg.Headers(r)
		md := xg.MD(r)
		ms := xdsresource.BuildMatchers(hs)
		r.Guard("Matchers.Match", func() {
			if got, want := ms.Match(md), xg.HeadersHold(hs, md); got != want {
				r.Fail("conditions %v on %v: got %v want %v", hs, md, got, want)
			}
		})
	}
}
