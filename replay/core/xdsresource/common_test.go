package xdsresource

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpointpb "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3routepb "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"

	"github.com/kitex-contrib/xds/zzverif/rp"
	"github.com/kitex-contrib/xds/zzverif/xg"
)

func vrClusters(got []*WeightedCluster, want []xg.W) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d clusters, want %d", len(got), len(want))
	}
	for i, w := range want {
		if got[i] == nil || got[i].Name != w.Name || got[i].Weight != w.Weight {
			return fmt.Sprintf("cluster %d is %+v, want %+v", i, got[i], w)
		}
	}
	return ""
}

func vrPathOK(ps interface{}, p string) bool {
	switch x := ps.(type) {
	case *v3routepb.RouteMatch_Path:
		return x.Path == p
	case *v3routepb.RouteMatch_Prefix:
		return x.Prefix == "/"
	}
	return false
}

// vrRoute compares a decoded HTTP route with its message.
func vrRoute(r *rp.R, got *Route, pb *v3routepb.Route) string {
	if got == nil || got.Match == nil {
		return "no route"
	}
	paths := []string{"", "/", "/svc", "/svc/get", "/pkg.svc/get", "/pkg.svc/Get", "/a.b.echo/put"}
	if p := pb.Match.GetPath(); p != "" {
		paths = append(paths, p, p+"x")
	}
	for _, p := range paths {
		// an empty exact path never equals a call's path
		if p == "" {
			continue
		}
		if got.Match.MatchPath(p) != vrPathOK(pb.Match.PathSpecifier, p) {
			return fmt.Sprintf("path condition %v on %q", pb.Match.PathSpecifier, p)
		}
	}
	if m, ok := got.Match.(*HTTPRouteMatch); ok {
		if m.Path != pb.Match.GetPath() || m.Prefix != pb.Match.GetPrefix() {
			return fmt.Sprintf("path %q prefix %q, want %q %q", m.Path, m.Prefix, pb.Match.GetPath(), pb.Match.GetPrefix())
		}
	}
	for k := 0; k < 12; k++ {
		md := xg.MD(r)
		if got.Match.MatchMeta(md) != xg.HeadersHold(pb.Match.Headers, md) {
			return fmt.Sprintf("header conditions %v on %v", pb.Match.Headers, md)
		}
	}
	if s := vrClusters(got.WeightedClusters, xg.RouteClusters(pb)); s != "" {
		return s
	}
	if want := xg.D(pb.GetRoute().GetTimeout()); got.Timeout != want {
		return fmt.Sprintf("timeout %v, want %v", got.Timeout, want)
	}
	return vrRetry(&got.RetryPolicy, pb.GetRoute().GetRetryPolicy())
}

func vrRetry(got *RetryPolicy, pb *v3routepb.RetryPolicy) string {
	var want RetryPolicy
	if pb != nil {
		want.RetryOn = pb.RetryOn
		want.NumRetries = int(pb.NumRetries.GetValue())
		want.PerTryTimeout = xg.D(pb.PerTryTimeout)
		want.PerTryIdleTimeout = xg.D(pb.PerTryIdleTimeout)
		if b := pb.RetryBackOff; b != nil {
			want.RetryBackOff = &RetryBackOff{BaseInterval: xg.D(b.BaseInterval), MaxInterval: xg.D(b.MaxInterval)}
		}
		for _, h := range pb.RetriableHeaders {
			v := h.GetStringMatch().GetExact()
			if v == "" {
				continue
			}
			switch h.Name {
			case "kitexRetryErrorRate":
				if f, err := strconv.ParseFloat(v, 64); err == nil {
					want.CBErrorRate = f
				}
			case "kitexRetryMethods":
				want.Methods = strings.Split(v, ",")
			}
		}
	}
	g := *got
	if len(g.Methods) == 0 {
		g.Methods = nil
	}
	if math.IsNaN(g.CBErrorRate) && math.IsNaN(want.CBErrorRate) {
		g.CBErrorRate, want.CBErrorRate = 0, 0
	}
	if !reflect.DeepEqual(g, want) {
		return fmt.Sprintf("retry policy %+v (back-off %+v), want %+v (back-off %+v) for %v", g, g.RetryBackOff, want, want.RetryBackOff, pb)
	}
	return ""
}

func vrTable(r *rp.R, got *RouteConfigResource, pb *v3routepb.RouteConfiguration) string {
	if got == nil || got.HTTPRouteConfig == nil {
		return "no HTTP route table"
	}
	if got.ThriftRouteConfig != nil {
		return "a thrift route table out of nowhere"
	}
	vs := got.HTTPRouteConfig.VirtualHosts
	if len(vs) != len(pb.VirtualHosts) {
		return fmt.Sprintf("%d virtual hosts, want %d", len(vs), len(pb.VirtualHosts))
	}
	for i, vh := range pb.VirtualHosts {
		if vs[i] == nil || vs[i].Name != vh.Name || len(vs[i].Routes) != len(vh.Routes) {
			return fmt.Sprintf("virtual host %d is %+v, want %s with %d routes", i, vs[i], vh.Name, len(vh.Routes))
		}
		for j, rt := range vh.Routes {
			if s := vrRoute(r, vs[i].Routes[j], rt); s != "" {
				return fmt.Sprintf("virtual host %d route %d: %s", i, j, s)
			}
		}
	}
	return ""
}

func vrThrift(r *rp.R, got *RouteConfigResource, rs []*v3thrift.Route) string {
	if got == nil || got.ThriftRouteConfig == nil {
		return "no thrift route table"
	}
	if len(got.ThriftRouteConfig.Routes) != len(rs) {
		return fmt.Sprintf("%d thrift routes, want %d", len(got.ThriftRouteConfig.Routes), len(rs))
	}
	for i, p := range rs {
		g := got.ThriftRouteConfig.Routes[i]
		if g == nil || g.Match == nil {
			return "no thrift route"
		}
		if m := p.Match.GetMethodName(); p.Match.GetServiceName() == "" {
			for _, c := range []string{"get", "Get", "put", "other", m} {
				if g.Match.MatchPath(c) != (m == "" || m == c) {
					return fmt.Sprintf("thrift route %d: method condition %q on %q", i, m, c)
				}
			}
		}
		for k := 0; k < 8; k++ {
			md := xg.MD(r)
			if g.Match.MatchMeta(md) != xg.HeadersHold(p.Match.Headers, md) {
				return fmt.Sprintf("thrift route %d: conditions %v on %v", i, p.Match.Headers, md)
			}
		}
		if s := vrClusters(g.WeightedClusters, xg.ThriftClusters(p)); s != "" {
			return fmt.Sprintf("thrift route %d: %s", i, s)
		}
	}
	return ""
}

func vrListener(r *rp.R, got *ListenerResource, l *xg.Lis) string {
	if got == nil {
		return "no listener"
	}
	if len(got.NetworkFilters) != len(l.Filters) {
		return fmt.Sprintf("%d network filters, want %d", len(got.NetworkFilters), len(l.Filters))
	}
	for i, w := range l.Filters {
		g := got.NetworkFilters[i]
		if g == nil || g.RoutePort != w.Port {
			return fmt.Sprintf("filter %d is %+v, want port %d", i, g, w.Port)
		}
		if (g.FilterType == NetworkFilterTypeThrift) != w.Thrift {
			return fmt.Sprintf("filter %d is of type %v", i, g.FilterType)
		}
		if w.Thrift {
			if s := vrThrift(r, g.InlineRouteConfig, w.Routes); s != "" {
				return fmt.Sprintf("filter %d: %s", i, s)
			}
			continue
		}
		if g.RouteConfigName != w.RDS {
			return fmt.Sprintf("filter %d: route table %q, want %q", i, g.RouteConfigName, w.RDS)
		}
		if g.InlineRouteConfig == nil {
			return fmt.Sprintf("filter %d: the bucket is lost", i)
		}
		if b := (xg.Bucket{Max: g.InlineRouteConfig.MaxTokens, Fill: g.InlineRouteConfig.TokensPerFill}); b != w.Bucket {
			return fmt.Sprintf("filter %d: bucket %+v, want %+v", i, b, w.Bucket)
		}
		if w.Inline != nil {
			if s := vrTable(r, g.InlineRouteConfig, w.Inline); s != "" {
				return fmt.Sprintf("filter %d: inline table: %s", i, s)
			}
		} else if g.InlineRouteConfig.HTTPRouteConfig != nil {
			return fmt.Sprintf("filter %d: an inline table out of nowhere", i)
		}
	}
	return ""
}

func vrEndpoints(got *EndpointsResource, want [][]xg.Ep) string {
	if got == nil {
		if len(want) == 0 {
			return ""
		}
		return "no endpoints"
	}
	if len(got.Localities) != len(want) {
		return fmt.Sprintf("%d localities, want %d", len(got.Localities), len(want))
	}
	for i, w := range want {
		if got.Localities[i] == nil || len(got.Localities[i].Endpoints) != len(w) {
			return fmt.Sprintf("locality %d is %+v, want %+v", i, got.Localities[i], w)
		}
		for j, e := range w {
			g := got.Localities[i].Endpoints[j]
			if g == nil || g.Addr() == nil || g.Addr().Network() != "tcp" || g.Addr().String() != e.Addr || g.Weight() != e.Weight {
				return fmt.Sprintf("locality %d endpoint %d is %+v, want %+v", i, j, g, e)
			}
		}
	}
	return ""
}

// vrSpice adds odd but well-formed endpoints.
func vrSpice(r *rp.R, c *v3endpointpb.ClusterLoadAssignment) {
	if c == nil {
		return
	}
	for _, l := range c.Endpoints {
		if r.Chance(10) {
			for n := r.Intn(15); n > 0; n-- {
				l.LbEndpoints = append(l.LbEndpoints, &v3endpointpb.LbEndpoint{LoadBalancingWeight: xg.U32(r),
					HostIdentifier: &v3endpointpb.LbEndpoint_Endpoint{Endpoint: &v3endpointpb.Endpoint{Address: &v3core.Address{Address: &v3core.Address_SocketAddress{
						SocketAddress: &v3core.SocketAddress{Address: fmt.Sprintf("10.1.%d.%d", r.Intn(256), r.Intn(256)), PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: uint32(r.Intn(65536))}}}}}}})
			}
		}
		if r.Chance(5) {
			l.LbEndpoints = append(l.LbEndpoints, &v3endpointpb.LbEndpoint{})
		}
		if r.Chance(20) && len(l.LbEndpoints) > 0 {
			// the same endpoint twice
			l.LbEndpoints = append(l.LbEndpoints, l.LbEndpoints[r.Intn(len(l.LbEndpoints))])
		}
	}
}
