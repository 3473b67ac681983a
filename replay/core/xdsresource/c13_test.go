package xdsresource

import (
	"fmt"
	"testing"

	udpatypev1 "github.com/cncf/xds/go/udpa/type/v1"
	v3clusterpb "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3endpointpb "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listenerpb "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3routepb "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	ratelimitv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3httppb "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	nds "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/zzverif/rp"
	"github.com/kitex-contrib/xds/zzverif/xg"
)

// The reference validity of a resource.

func vrBadRoutes(rc *v3routepb.RouteConfiguration) bool {
	for _, vh := range rc.GetVirtualHosts() {
		for _, rt := range vh.GetRoutes() {
			if rt.GetMatch() == nil || rt.GetAction() == nil {
				return true
			}
		}
	}
	return false
}

func vrBadChain(fc *v3listenerpb.FilterChain) bool {
	for _, f := range fc.GetFilters() {
		tc := f.GetTypedConfig()
		switch tc.GetTypeUrl() {
		case ThriftProxyTypeURL:
			tp := &v3thrift.ThriftProxy{}
			if proto.Unmarshal(tc.GetValue(), tp) != nil {
				return true
			}
			for _, rt := range tp.GetRouteConfig().GetRoutes() {
				if rt.GetMatch() == nil || rt.GetRoute() == nil {
					return true
				}
			}
		case HTTPConnManagerTypeURL:
			h := &v3httppb.HttpConnectionManager{}
			if proto.Unmarshal(tc.GetValue(), h) != nil {
				return true
			}
			if rc := h.GetRouteConfig(); rc != nil && vrBadRoutes(rc) {
				return true
			}
			if rds := h.GetRds(); rds != nil && rds.RouteConfigName == "" {
				return true
			}
		}
	}
	return false
}

// vrRateBad: a rate-limit filter that cannot be decoded (1), or one that may be skipped because the bucket was found already (2)
func vrRateBad(fc *v3listenerpb.FilterChain) int {
	worst := 0
	for _, f := range fc.GetFilters() {
		tc := f.GetTypedConfig()
		if tc.GetTypeUrl() != HTTPConnManagerTypeURL {
			continue
		}
		h := &v3httppb.HttpConnectionManager{}
		if proto.Unmarshal(tc.GetValue(), h) != nil {
			continue
		}
		bucket := false
		for _, hf := range h.HttpFilters {
			c := hf.GetTypedConfig()
			switch c.GetTypeUrl() {
			case RateLimitTypeURL:
				l := &ratelimitv3.LocalRateLimit{}
				if proto.Unmarshal(c.GetValue(), l) != nil {
					if bucket {
						worst = 2
					} else {
						return 1
					}
				} else if l.TokenBucket != nil {
					bucket = true
				}
			case TypedStructTypeURL:
				s := &udpatypev1.TypedStruct{}
				if proto.Unmarshal(c.GetValue(), s) != nil {
					if bucket {
						worst = 2
					} else {
						return 1
					}
				} else if s.GetValue().GetFields()["token_bucket"] != nil {
					bucket = true
				}
			}
		}
	}
	return worst
}

const (
	vrGood = iota
	vrBad
	vrEither // the property says nothing
)

func vrValid(kind string, a *anypb.Any) int {
	url := map[string]string{"lds": ListenerTypeURL, "rds": RouteTypeURL, "cds": ClusterTypeURL, "eds": EndpointTypeURL, "nds": NameTableTypeURL}[kind]
	if a.GetTypeUrl() != url {
		return vrBad
	}
	b := a.GetValue()
	switch kind {
	case "lds":
		l := &v3listenerpb.Listener{}
		if proto.Unmarshal(b, l) != nil {
			return vrBad
		}
		fcs := append([]*v3listenerpb.FilterChain{}, l.FilterChains...)
		if l.DefaultFilterChain != nil {
			fcs = append(fcs, l.DefaultFilterChain)
		}
		v := vrGood
		for _, fc := range fcs {
			if vrBadChain(fc) {
				return vrBad
			}
			switch vrRateBad(fc) {
			case 1:
				return vrBad
			case 2:
				v = vrEither
			}
		}
		return v
	case "rds":
		rc := &v3routepb.RouteConfiguration{}
		if proto.Unmarshal(b, rc) != nil || vrBadRoutes(rc) {
			return vrBad
		}
	case "cds":
		if proto.Unmarshal(b, &v3clusterpb.Cluster{}) != nil {
			return vrBad
		}
	case "eds":
		if proto.Unmarshal(b, &v3endpointpb.ClusterLoadAssignment{}) != nil {
			return vrBad
		}
	case "nds":
		if proto.Unmarshal(b, &nds.NameTable{}) != nil {
			return vrBad
		}
	}
	return vrGood
}

func vrDecode(kind string, raw []*anypb.Any) (int, error) {
	switch kind {
	case "lds":
		m, err := UnmarshalLDS(raw)
		return len(m), err
	case "rds":
		m, err := UnmarshalRDS(raw)
		return len(m), err
	case "cds":
		m, err := UnmarshalCDS(raw)
		return len(m), err
	case "eds":
		m, err := UnmarshalEDS(raw)
		return len(m), err
	}
	_, err := UnmarshalNDS(raw)
	return 0, err
}

func vrDraw(r *rp.R, kind string, s *xg.Seq) proto.Message {
	name := fmt.Sprintf("n%d", r.Intn(4))
	if r.Chance(10) {
		name = ""
	}
	switch kind {
	case "lds":
		return xg.Listener(r, s, name, []string{"t1", "t2"}).PB
	case "rds":
		return xg.RouteConfig(r, s, name)
	case "cds":
		c := xg.Cluster(r, name, []string{"e1"})
		vrSpice(r, c.LoadAssignment)
		return c
	case "eds":
		a := xg.Assignment(r, name)
		vrSpice(r, a)
		return a
	}
	return xg.NameTable(r)
}

// vrHurtRoutes drops parts of routes.
func vrHurtRoutes(r *rp.R, rc *v3routepb.RouteConfiguration) {
	for _, vh := range rc.GetVirtualHosts() {
		for i, rt := range vh.Routes {
			switch r.Intn(14) {
			case 0:
				rt.Match = nil
			case 1:
				rt.Action = nil
			case 2:
				rt.Action = &v3routepb.Route_Route{Route: &v3routepb.RouteAction{}}
			case 3:
				rt.Match = &v3routepb.RouteMatch{}
			case 4:
				vh.Routes[i] = &v3routepb.Route{}
			case 5:
				rt.GetRoute().ClusterSpecifier = &v3routepb.RouteAction_WeightedClusters{WeightedClusters: &v3routepb.WeightedCluster{Clusters: []*v3routepb.WeightedCluster_ClusterWeight{{}}}}
			case 6:
				rt.GetRoute().ClusterSpecifier = &v3routepb.RouteAction_ClusterHeader{ClusterHeader: "x"}
			case 7:
				rt.Match.Headers = append(rt.Match.Headers, &v3routepb.HeaderMatcher{}, &v3routepb.HeaderMatcher{Name: "x", HeaderMatchSpecifier: &v3routepb.HeaderMatcher_StringMatch{}})
			case 8:
				rt.GetRoute().RetryPolicy = &v3routepb.RetryPolicy{RetriableHeaders: []*v3routepb.HeaderMatcher{{}}, RetryBackOff: &v3routepb.RetryPolicy_RetryBackOff{}}
			case 9:
				rt.Match.Headers = append(rt.Match.Headers, &v3routepb.HeaderMatcher{Name: "x", HeaderMatchSpecifier: &v3routepb.HeaderMatcher_SafeRegexMatch{}})
			}
		}
	}
}

func vrHurtChain(r *rp.R, fc *v3listenerpb.FilterChain) {
	if fc == nil {
		return
	}
	for _, f := range fc.Filters {
		tc := f.GetTypedConfig()
		if tc == nil {
			continue
		}
		switch tc.TypeUrl {
		case ThriftProxyTypeURL:
			tp := &v3thrift.ThriftProxy{}
			if proto.Unmarshal(tc.Value, tp) != nil {
				continue
			}
			for _, rt := range tp.GetRouteConfig().GetRoutes() {
				switch r.Intn(10) {
				case 0:
					rt.Match = nil
				case 1:
					rt.Route = nil
				case 2:
					rt.Route = &v3thrift.RouteAction{}
				case 3:
					rt.Match = &v3thrift.RouteMatch{}
				}
			}
			if r.Chance(10) {
				tp.RouteConfig = nil
			}
			f.ConfigType = &v3listenerpb.Filter_TypedConfig{TypedConfig: xg.Any(tp)}
		case HTTPConnManagerTypeURL:
			h := &v3httppb.HttpConnectionManager{}
			if proto.Unmarshal(tc.Value, h) != nil {
				continue
			}
			if rc := h.GetRouteConfig(); rc != nil && r.Chance(50) {
				vrHurtRoutes(r, rc)
			}
			switch r.Intn(12) {
			case 0:
				h.RouteSpecifier = nil
			case 1:
				h.RouteSpecifier = &v3httppb.HttpConnectionManager_Rds{Rds: &v3httppb.Rds{}}
			case 2:
				h.RouteSpecifier = &v3httppb.HttpConnectionManager_ScopedRoutes{ScopedRoutes: &v3httppb.ScopedRoutes{}}
			case 3:
				h.HttpFilters = append([]*v3httppb.HttpFilter{{Name: "x", ConfigType: &v3httppb.HttpFilter_TypedConfig{TypedConfig: &anypb.Any{TypeUrl: rp.Pick(r, RateLimitTypeURL, TypedStructTypeURL), Value: vrJunk(r)}}}}, h.HttpFilters...)
			case 4:
				h.HttpFilters = append(h.HttpFilters, &v3httppb.HttpFilter{Name: "x", ConfigType: &v3httppb.HttpFilter_TypedConfig{TypedConfig: &anypb.Any{}}})
			case 5:
				h.RouteSpecifier = &v3httppb.HttpConnectionManager_RouteConfig{RouteConfig: &v3routepb.RouteConfiguration{}}
			}
			f.ConfigType = &v3listenerpb.Filter_TypedConfig{TypedConfig: xg.Any(h)}
		}
		if r.Chance(6) {
			f.GetTypedConfig().Value = vrMutate(r, f.GetTypedConfig().Value)
		}
		if r.Chance(3) {
			f.ConfigType = &v3listenerpb.Filter_TypedConfig{TypedConfig: &anypb.Any{}}
		}
	}
}

func vrHurt(r *rp.R, m proto.Message) {
	switch p := m.(type) {
	case *v3routepb.RouteConfiguration:
		vrHurtRoutes(r, p)
		if r.Chance(5) {
			p.VirtualHosts = append(p.VirtualHosts, &v3routepb.VirtualHost{})
		}
	case *v3listenerpb.Listener:
		for _, fc := range p.FilterChains {
			vrHurtChain(r, fc)
		}
		vrHurtChain(r, p.DefaultFilterChain)
	case *v3clusterpb.Cluster:
		switch r.Intn(5) {
		case 0:
			p.LoadAssignment = &v3endpointpb.ClusterLoadAssignment{}
		case 1:
			p.LoadAssignment = &v3endpointpb.ClusterLoadAssignment{Endpoints: []*v3endpointpb.LocalityLbEndpoints{{}, {LbEndpoints: []*v3endpointpb.LbEndpoint{{}}}}}
		case 2:
			p.LbPolicy = v3clusterpb.Cluster_LbPolicy(r.Intn(20))
		case 3:
			p.ClusterDiscoveryType = &v3clusterpb.Cluster_Type{Type: v3clusterpb.Cluster_DiscoveryType(r.Intn(9))}
		}
	case *nds.NameTable:
		if r.Chance(30) {
			p.Table["x"] = &nds.NameTable_NameInfo{}
		}
	}
}

func vrJunk(r *rp.R) []byte {
	b := make([]byte, r.Intn(12))
	r.Read(b)
	return b
}

func vrMutate(r *rp.R, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + r.Intn(3); n > 0; n-- {
		switch {
		case len(b) == 0 || r.Chance(10):
			b = append(b, byte(r.Intn(256)))
		case r.Chance(20):
			b = b[:r.Intn(len(b))]
		case r.Chance(30):
			i := r.Intn(len(b))
			b = append(b[:i:i], b[i+1:]...)
		default:
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
	}
	return b
}

func TestReplay_C13_decoders(t *testing.T) {
	r := rp.New(t)
	kinds := []string{"lds", "rds", "cds", "eds", "nds"}
	urls := []string{ListenerTypeURL, RouteTypeURL, ClusterTypeURL, EndpointTypeURL, NameTableTypeURL, HTTPConnManagerTypeURL, "", "x"}
	for k := 0; k < r.N(25000) && !r.Failed(); k++ {
		r.Case()
		kind := kinds[r.Intn(len(kinds))]
		s := &xg.Seq{}
		var raw []*anypb.Any
		for n := rp.Pick(r, 0, 1, 1, 1, 2, 3); n > 0; n-- {
			src := kind
			if r.Chance(3) {
				src = kinds[r.Intn(len(kinds))]
			}
			m := vrDraw(r, src, s)
			if r.Chance(60) {
				vrHurt(r, m)
			}
			a := xg.Any(m)
			if r.Chance(15) {
				a.Value = vrMutate(r, a.Value)
			}
			if r.Chance(3) {
				a.TypeUrl = urls[r.Intn(len(urls))]
			}
			if r.Chance(2) {
				a = &anypb.Any{TypeUrl: a.TypeUrl}
			}
			if r.Chance(2) {
				a.Value = vrJunk(r)
			}
			if r.Chance(1) {
				a = nil
			}
			raw = append(raw, a)
		}
		want := vrGood
		for _, a := range raw {
			switch vrValid(kind, a) {
			case vrBad:
				want = vrBad
			case vrEither:
				if want == vrGood {
					want = vrEither
				}
			}
		}
		if kind == "nds" && len(raw) == 0 {
			want = vrBad
		}
		r.Guard(fmt.Sprintf("decoding the %s response %v", kind, raw), func() {
			_, err := vrDecode(kind, raw)
			if want == vrBad && err == nil {
				r.Fail("%s response %v is not reported as an error", kind, raw)
			}
			if want == vrGood && err != nil {
				r.Fail("well-formed %s response %v is reported as an error: %v", kind, raw, err)
			}
		})
	}
}
