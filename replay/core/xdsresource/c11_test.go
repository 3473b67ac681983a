package xdsresource

import (
	"fmt"
	"testing"

	v3routepb "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/zzverif/rp"
	"github.com/kitex-contrib/xds/zzverif/xg"
)

func TestReplay_C11_routes(t *testing.T) {
	r := rp.New(t)
	for k := 0; k < r.N(1500) && !r.Failed(); k++ {
		r.Case()
		s := &xg.Seq{}
		var raw []*anypb.Any
		var pbs []*v3routepb.RouteConfiguration
		for n := r.Intn(5); n > 0; n-- {
			rc := xg.RouteConfig(r, s, fmt.Sprintf("t%d", n))
			vrVary(r, s, rc)
			pbs = append(pbs, rc)
			raw = append(raw, xg.Any(rc))
		}
		r.Guard("UnmarshalRDS", func() {
			got, err := UnmarshalRDS(raw)
			if err != nil || len(got) != len(pbs) {
				r.Fail("UnmarshalRDS: %d resources, error %v; want %d", len(got), err, len(pbs))
				return
			}
			for _, pb := range pbs {
				g, ok := got[pb.Name].(*RouteConfigResource)
				if !ok {
					r.Fail("route table %s is lost", pb.Name)
					return
				}
				if m := vrTable(r, g, pb); m != "" {
					r.Fail("route table %v: %s", pb, m)
					return
				}
			}
		})
	}
}

// vrVary adds what the shared generator leaves out: large tables, large weights, several headers on one name.
func vrVary(r *rp.R, s *xg.Seq, rc *v3routepb.RouteConfiguration) {
	for _, vh := range rc.VirtualHosts {
		if r.Chance(10) {
			for n := r.Intn(20); n > 0; n-- {
				vh.Routes = append(vh.Routes, xg.HTTPRoute(r, s))
			}
		}
		for _, rt := range vh.Routes {
			if r.Chance(20) {
				h := xg.Header(r)
				for n := r.Intn(5); n > 0; n-- {
					g := xg.Header(r)
					g.Name = h.Name
					rt.Match.Headers = append(rt.Match.Headers, g)
				}
			}
			if wc := rt.GetRoute().GetWeightedClusters(); wc != nil && r.Chance(20) {
				for n := r.Intn(12); n > 0; n-- {
					wc.Clusters = append(wc.Clusters, &v3routepb.WeightedCluster_ClusterWeight{Name: fmt.Sprintf("x%d", r.Intn(4)), Weight: xg.U32(r)})
				}
			}
			if p := rt.GetRoute().GetRetryPolicy(); p != nil && r.Chance(50) {
				p.NumRetries = xg.U32(r)
				p.PerTryTimeout, p.PerTryIdleTimeout = xg.Duration(r), xg.Duration(r)
				if p.RetryBackOff != nil {
					p.RetryBackOff.BaseInterval, p.RetryBackOff.MaxInterval = xg.Duration(r), xg.Duration(r)
				}
				for _, h := range p.RetriableHeaders {
					if e, ok := h.GetStringMatch().GetMatchPattern().(*v3matcher.StringMatcher_Exact); ok && r.Chance(40) {
						e.Exact = rp.Pick(r, "a, b", ",", "m1,,m2", "0.30001", "1", "-0.5", " 0.1", "NaN", "Get")
					}
				}
			}
			if r.Chance(5) {
				// an action the client does not forward
				rt.Action = &v3routepb.Route_DirectResponse{DirectResponse: &v3routepb.DirectResponseAction{Status: 404}}
			}
		}
	}
}

func TestReplay_C11_listeners(t *testing.T) {
	r := rp.New(t)
	for k := 0; k < r.N(1500) && !r.Failed(); k++ {
		r.Case()
		s := &xg.Seq{}
		var raw []*anypb.Any
		var ls []*xg.Lis
		for n := r.Intn(4); n > 0; n-- {
			l := xg.Listener(r, s, fmt.Sprintf("10.0.0.%d_80", n), []string{"t1", "t2"})
			ls = append(ls, l)
			raw = append(raw, xg.Any(l.PB))
		}
		r.Guard("UnmarshalLDS", func() {
			got, err := UnmarshalLDS(raw)
			if err != nil || len(got) != len(ls) {
				r.Fail("UnmarshalLDS: %d resources, error %v; want %d", len(got), err, len(ls))
				return
			}
			for _, l := range ls {
				if m := vrListener(r, got[l.PB.Name], l); m != "" {
					r.Fail("listener %v: %s", l.PB, m)
					return
				}
			}
		})
	}
}

// Header conditions of thrift and HTTP routes, regular expressions included.
func TestReplay_C11_matchers(t *testing.T) {
	r := rp.New(t)
	for k := 0; k < r.N(20000) && !r.Failed(); k++ {
		r.Case()
		hs := xg.Headers(r)
		if r.Chance(30) && len(hs) > 0 {
			for n := r.Intn(4); n > 0; n-- {
				g := xg.Header(r)
				g.Name = hs[0].Name
				hs = append(hs, g)
			}
		}
		md := xg.MD(r)
		r.Guard("BuildMatchers", func() {
			rm := &HTTPRouteMatch{Headers: BuildMatchers(hs)}
			if got, want := rm.MatchMeta(md), xg.HeadersHold(hs, md); got != want {
				r.Fail("conditions %v on %v: got %v want %v", hs, md, got, want)
			}
			tm := &ThriftRouteMatch{Tags: BuildMatchers(hs)}
			if got, want := tm.MatchMeta(md), xg.HeadersHold(hs, md); got != want {
				r.Fail("thrift conditions %v on %v: got %v want %v", hs, md, got, want)
			}
		})
	}
}

var _ = v3thrift.Route{}
