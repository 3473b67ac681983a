// Package xg generates control-plane messages and evaluates them with an independent reference semantics.
package xg

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	udpatypev1 "github.com/cncf/xds/go/udpa/type/v1"
	v3clusterpb "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpointpb "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listenerpb "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3routepb "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	ratelimitv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3httppb "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	v3type "github.com/envoyproxy/go-control-plane/envoy/type/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	nds "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/zzverif/rp"
)

// Type URLs of the protocol, spelled out independently of the implementation.
const (
	prefix      = "type.googleapis.com/"
	ListenerURL = prefix + "envoy.config.listener.v3.Listener"
	RouteURL    = prefix + "envoy.config.route.v3.RouteConfiguration"
	ClusterURL  = prefix + "envoy.config.cluster.v3.Cluster"
	EndpointURL = prefix + "envoy.config.endpoint.v3.ClusterLoadAssignment"
	NameURL     = prefix + "istio.networking.nds.v1.NameTable"
)

// Any packs a message.
func Any(m proto.Message) *anypb.Any {
	a, err := anypb.New(m)
	if err != nil {
		panic(err)
	}
	if _, ok := m.(*nds.NameTable); ok {
		a.TypeUrl = NameURL
	}
	return a
}

func pick[T any](r *rp.R, vs ...T) T { return rp.Pick(r, vs...) }

// ---------------------------------------------------------------- header conditions

var keys = []string{"env", "Env", "x-canary", "user", "uid", ""}
var vals = []string{"", "a", "prod", "prod-1", "gray", "gray/x", "abc", "Prod", "0", "10", "a\nb"}

// Header draws a header condition.
func Header(r *rp.R) *v3routepb.HeaderMatcher {
	k := pick(r, keys...)
	v := pick(r, vals...)
	sm := &v3matcher.StringMatcher{}
	switch r.Intn(6) {
	case 0, 1:
		sm.MatchPattern = &v3matcher.StringMatcher_Exact{Exact: v}
	case 2, 3:
		if len(v) > 0 {
			v = v[:r.Intn(len(v)+1)]
		}
		sm.MatchPattern = &v3matcher.StringMatcher_Prefix{Prefix: v}
	default:
		re := pick(r, "^a", "a", "prod(-[0-9]+)?", "^$", "", "[0-9]+$", "gray|abc", "(", "[", "*a", "(?i)PROD", ".*", "(?!a)b", "a{2,1}")
		sm.MatchPattern = &v3matcher.StringMatcher_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: re}}
	}
	return &v3routepb.HeaderMatcher{Name: k, HeaderMatchSpecifier: &v3routepb.HeaderMatcher_StringMatch{StringMatch: sm}}
}

// Headers draws a list of conditions.
func Headers(r *rp.R) []*v3routepb.HeaderMatcher {
	var hs []*v3routepb.HeaderMatcher
	for n := pick(r, 0, 0, 0, 1, 1, 2, 3); n > 0; n-- {
		hs = append(hs, Header(r))
	}
	return hs
}

// MD draws the metadata of a call.
func MD(r *rp.R) map[string]string {
	md := map[string]string{}
	for n := r.Intn(5); n > 0; n-- {
		k := pick(r, keys...)
		if k != "" {
			md[k] = pick(r, vals...)
		}
	}
	return md
}

// HeadersHold is the reference: every condition holds; a condition on an absent key is false.
func HeadersHold(hs []*v3routepb.HeaderMatcher, md map[string]string) bool {
	for _, h := range hs {
		sm, ok := h.HeaderMatchSpecifier.(*v3routepb.HeaderMatcher_StringMatch)
		if !ok {
			continue
		}
		v, present := md[h.Name]
		if !present {
			return false
		}
		switch p := sm.StringMatch.MatchPattern.(type) {
		case *v3matcher.StringMatcher_Exact:
			if v != p.Exact {
				return false
			}
		case *v3matcher.StringMatcher_Prefix:
			if len(v) < len(p.Prefix) || v[:len(p.Prefix)] != p.Prefix {
				return false
			}
		case *v3matcher.StringMatcher_SafeRegex:
			re, err := regexp.Compile(p.SafeRegex.Regex)
			if err != nil || !re.MatchString(v) {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- routes

// Seq numbers the clusters of generated routes, so that every route is recognisable by its clusters.
type Seq struct{ n int }

func (s *Seq) next(p string) string { s.n++; return fmt.Sprintf("%s-%d", p, s.n) }

// Duration draws a protobuf duration (nil included).
func Duration(r *rp.R) *durationpb.Duration {
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		return &durationpb.Duration{}
	case 2:
		return &durationpb.Duration{Nanos: int32(r.Intn(1000000000))}
	case 3:
		return &durationpb.Duration{Seconds: int64(r.Intn(100)), Nanos: 1}
	}
	return durationpb.New(time.Duration(r.Intn(20000)) * time.Millisecond)
}

// D is the reference value of a protobuf duration.
func D(d *durationpb.Duration) time.Duration {
	if d == nil {
		return 0
	}
	return time.Duration(d.Seconds)*time.Second + time.Duration(d.Nanos)
}

func U32(r *rp.R) *wrapperspb.UInt32Value {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return wrapperspb.UInt32(0)
	case 2:
		return wrapperspb.UInt32(r.U32())
	}
	return wrapperspb.UInt32(uint32(r.Intn(10) + 1))
}

// Retry draws a retry policy (nil included).
func Retry(r *rp.R) *v3routepb.RetryPolicy {
	if r.Chance(40) {
		return nil
	}
	p := &v3routepb.RetryPolicy{RetryOn: pick(r, "", "5xx", "gateway-error"), PerTryTimeout: smallDur(r), PerTryIdleTimeout: smallDur(r)}
	if r.Chance(80) {
		p.NumRetries = wrapperspb.UInt32(uint32(r.Intn(6)))
	}
	if r.Chance(60) {
		p.RetryBackOff = &v3routepb.RetryPolicy_RetryBackOff{BaseInterval: smallDur(r), MaxInterval: smallDur(r)}
		if r.Chance(20) {
			p.RetryBackOff.MaxInterval = p.RetryBackOff.BaseInterval
		}
	}
	exact := func(k, v string) {
		p.RetriableHeaders = append(p.RetriableHeaders, &v3routepb.HeaderMatcher{Name: k, HeaderMatchSpecifier: &v3routepb.HeaderMatcher_StringMatch{
			StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: v}}}})
	}
	if r.Chance(40) {
		exact("kitexRetryErrorRate", pick(r, "0.1", "0.2", "0.3", "0", "1e-2", "x", ""))
	}
	if r.Chance(40) {
		exact("kitexRetryMethods", pick(r, "m1", "m1,m2", "Get,Put,Del", "", "m1,m1"))
	}
	if r.Chance(20) {
		exact("other", "v")
	}
	if r.Chance(20) {
		p.RetriableHeaders = append(p.RetriableHeaders, &v3routepb.HeaderMatcher{Name: "kitexRetryMethods", HeaderMatchSpecifier: &v3routepb.HeaderMatcher_PresentMatch{PresentMatch: true}})
	}
	return p
}

func smallDur(r *rp.R) *durationpb.Duration {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return &durationpb.Duration{Nanos: int32(r.Intn(3000000))}
	}
	return durationpb.New(time.Duration(r.Intn(300)) * time.Millisecond)
}

// Paths that calls and routes draw from.
var Pkgs = []string{"", "pkg", "a.b"}
var Svcs = []string{"svc", "Svc", "echo"}
var Methods = []string{"get", "Get", "put", ""}

func path(r *rp.R) string {
	switch r.Intn(10) {
	case 0:
		return ""
	case 1:
		return "/"
	case 2:
		return "/" + pick(r, Svcs...)
	}
	return FullPath(pick(r, Pkgs...), pick(r, Svcs...), pick(r, Methods...))
}

// FullPath is /<package>.<service>/<method>.
func FullPath(pkg, svc, method string) string {
	if pkg == "" {
		return "/" + svc + "/" + method
	}
	return "/" + pkg + "." + svc + "/" + method
}

// HTTPRoute draws a route.
func HTTPRoute(r *rp.R, s *Seq) *v3routepb.Route {
	m := &v3routepb.RouteMatch{Headers: Headers(r)}
	switch r.Intn(10) {
	case 0, 1, 2, 3, 4:
		m.PathSpecifier = &v3routepb.RouteMatch_Path{Path: path(r)}
	case 5, 6, 7:
		m.PathSpecifier = &v3routepb.RouteMatch_Prefix{Prefix: "/"}
	case 8:
		m.PathSpecifier = &v3routepb.RouteMatch_Prefix{Prefix: pick(r, "", "/pkg.svc", "/p", path(r))}
	}
	a := &v3routepb.RouteAction{Timeout: Duration(r), RetryPolicy: Retry(r)}
	switch r.Intn(6) {
	case 0, 1, 2:
		a.ClusterSpecifier = &v3routepb.RouteAction_Cluster{Cluster: s.next("c")}
	case 3, 4:
		wc := &v3routepb.WeightedCluster{}
		for n := r.Intn(4); n > 0; n-- {
			wc.Clusters = append(wc.Clusters, &v3routepb.WeightedCluster_ClusterWeight{Name: s.next("w"), Weight: U32(r)})
		}
		a.ClusterSpecifier = &v3routepb.RouteAction_WeightedClusters{WeightedClusters: wc}
	case 5:
		a.ClusterSpecifier = &v3routepb.RouteAction_Cluster{Cluster: s.next("d")}
	}
	return &v3routepb.Route{Name: pick(r, "", "r1"), Match: m, Action: &v3routepb.Route_Route{Route: a}}
}

// RouteConfig draws a route table.
func RouteConfig(r *rp.R, s *Seq, name string) *v3routepb.RouteConfiguration {
	rc := &v3routepb.RouteConfiguration{Name: name}
	for n := pick(r, 0, 1, 1, 2, 3); n > 0; n-- {
		vh := &v3routepb.VirtualHost{Name: fmt.Sprintf("vh%d", n), Domains: []string{pick(r, "*", "svc", "other")}}
		for k := pick(r, 0, 1, 2, 3, 4); k > 0; k-- {
			vh.Routes = append(vh.Routes, HTTPRoute(r, s))
		}
		rc.VirtualHosts = append(rc.VirtualHosts, vh)
	}
	return rc
}

// ThriftRoute draws a thrift-proxy route.
func ThriftRoute(r *rp.R, s *Seq) *v3thrift.Route {
	m := &v3thrift.RouteMatch{Headers: Headers(r), MatchSpecifier: &v3thrift.RouteMatch_MethodName{MethodName: pick(r, Methods...)}}
	a := &v3thrift.RouteAction{}
	if r.Chance(60) {
		a.ClusterSpecifier = &v3thrift.RouteAction_Cluster{Cluster: s.next("t")}
	} else {
		wc := &v3thrift.WeightedCluster{}
		for n := r.Intn(4); n > 0; n-- {
			wc.Clusters = append(wc.Clusters, &v3thrift.WeightedCluster_ClusterWeight{Name: s.next("tw"), Weight: U32(r)})
		}
		a.ClusterSpecifier = &v3thrift.RouteAction_WeightedClusters{WeightedClusters: wc}
	}
	return &v3thrift.Route{Match: m, Route: a}
}

// ---------------------------------------------------------------- listeners

// Bucket is a token bucket expected from an HTTP connection manager.
type Bucket struct{ Max, Fill uint32 }

// RateFilters draws the HTTP filters of a connection manager and the bucket they mean.
func RateFilters(r *rp.R) ([]*v3httppb.HttpFilter, Bucket) {
	var fs []*v3httppb.HttpFilter
	var b Bucket
	done := false
	add := func(n string, m proto.Message) {
		fs = append(fs, &v3httppb.HttpFilter{Name: n, ConfigType: &v3httppb.HttpFilter_TypedConfig{TypedConfig: Any(m)}})
	}
	for n := r.Intn(4); n > 0; n-- {
		switch r.Intn(6) {
		case 0:
			fs = append(fs, &v3httppb.HttpFilter{Name: "router"})
		case 1:
			add("other", &v3routepb.RouteConfiguration{Name: "x"})
		case 2:
			add("ratelimit", &ratelimitv3.LocalRateLimit{StatPrefix: "x"})
		case 3:
			mx, fl := uint32(r.Intn(2000)), U32(r)
			add("ratelimit", &ratelimitv3.LocalRateLimit{TokenBucket: &v3type.TokenBucket{MaxTokens: mx, TokensPerFill: fl}})
			if !done {
				done = true
				b = Bucket{mx, fl.GetValue()}
			}
		case 4:
			mx, fl := uint32(r.Intn(2000)), uint32(r.Intn(2000))
			st, _ := structpb.NewStruct(map[string]interface{}{"token_bucket": map[string]interface{}{"max_tokens": float64(mx), "tokens_per_fill": float64(fl)}})
			add("ts", &udpatypev1.TypedStruct{TypeUrl: "x", Value: st})
			if !done {
				done = true
				b = Bucket{mx, fl}
			}
		case 5:
			m := pick(r, map[string]interface{}{"a": "b"}, map[string]interface{}{"token_bucket": map[string]interface{}{"fill_interval": "1s"}})
			st, _ := structpb.NewStruct(m)
			add("ts", &udpatypev1.TypedStruct{TypeUrl: "x", Value: st})
		}
	}
	return fs, b
}

// Lis describes a generated listener and what it means.
type Lis struct {
	PB      *v3listenerpb.Listener
	Filters []Filter // in order
}

// Filter is a network filter that the client supports.
type Filter struct {
	Thrift  bool
	Port    uint32
	RDS     string                        // name of the route table ("" without)
	HasName bool                          // an RDS reference (no inline table)
	Inline  *v3routepb.RouteConfiguration // inline HTTP table
	Routes  []*v3thrift.Route             // thrift routes
	Bucket  Bucket
}

// HCM builds an HTTP connection manager filter.
func HCM(r *rp.R, s *Seq, rdsNames []string) (*v3listenerpb.Filter, Filter) {
	fs, b := RateFilters(r)
	h := &v3httppb.HttpConnectionManager{HttpFilters: fs}
	f := Filter{Bucket: b}
	if r.Chance(60) && len(rdsNames) > 0 {
		n := rdsNames[r.Intn(len(rdsNames))]
		h.RouteSpecifier = &v3httppb.HttpConnectionManager_Rds{Rds: &v3httppb.Rds{RouteConfigName: n}}
		f.RDS, f.HasName = n, true
	} else {
		n := ""
		if len(rdsNames) > 0 && r.Chance(70) {
			n = rdsNames[r.Intn(len(rdsNames))]
		}
		rc := RouteConfig(r, s, n)
		h.RouteSpecifier = &v3httppb.HttpConnectionManager_RouteConfig{RouteConfig: rc}
		f.RDS, f.Inline = n, rc
	}
	return &v3listenerpb.Filter{Name: "hcm", ConfigType: &v3listenerpb.Filter_TypedConfig{TypedConfig: Any(h)}}, f
}

// TP builds a thrift proxy filter.
func TP(r *rp.R, s *Seq) (*v3listenerpb.Filter, Filter) {
	f := Filter{Thrift: true}
	for n := pick(r, 0, 1, 2, 3); n > 0; n-- {
		f.Routes = append(f.Routes, ThriftRoute(r, s))
	}
	t := &v3thrift.ThriftProxy{RouteConfig: &v3thrift.RouteConfiguration{Name: "tr", Routes: f.Routes}}
	if len(f.Routes) == 0 && r.Chance(30) {
		t.RouteConfig = nil
	}
	return &v3listenerpb.Filter{Name: "tp", ConfigType: &v3listenerpb.Filter_TypedConfig{TypedConfig: Any(t)}}, f
}

// Chain draws a filter chain; one filter of each supported kind at most when single.
func Chain(r *rp.R, s *Seq, rdsNames []string, single bool) (*v3listenerpb.FilterChain, []Filter) {
	fc := &v3listenerpb.FilterChain{}
	port := uint32(0)
	switch r.Intn(4) {
	case 0:
		fc.FilterChainMatch = &v3listenerpb.FilterChainMatch{}
	case 1, 2:
		port = uint32(pick(r, 80, 8080, 9090, 0))
		fc.FilterChainMatch = &v3listenerpb.FilterChainMatch{DestinationPort: wrapperspb.UInt32(port)}
	}
	var out []Filter
	other := func() {
		if r.Chance(30) {
			fc.Filters = append(fc.Filters, &v3listenerpb.Filter{Name: "o", ConfigType: &v3listenerpb.Filter_TypedConfig{TypedConfig: Any(&v3routepb.RouteConfiguration{Name: "x"})}})
		}
		if r.Chance(10) {
			fc.Filters = append(fc.Filters, &v3listenerpb.Filter{Name: "none"})
		}
	}
	n := r.Intn(3)
	if single {
		n = 2
	}
	for i := 0; i < n; i++ {
		other()
		var pb *v3listenerpb.Filter
		var f Filter
		if single {
			if i == 0 && r.Chance(50) {
				pb, f = TP(r, s)
			} else if i == 1 && r.Chance(92) {
				pb, f = HCM(r, s, rdsNames)
			} else {
				continue
			}
		} else if r.Chance(35) {
			pb, f = TP(r, s)
		} else {
			pb, f = HCM(r, s, rdsNames)
		}
		f.Port = port
		fc.Filters = append(fc.Filters, pb)
		out = append(out, f)
	}
	other()
	return fc, out
}

// Listener draws a listener with any number of chains.
func Listener(r *rp.R, s *Seq, name string, rdsNames []string) *Lis {
	l := &Lis{PB: &v3listenerpb.Listener{Name: name}}
	for n := r.Intn(4); n > 0; n-- {
		fc, fs := Chain(r, s, rdsNames, false)
		l.PB.FilterChains = append(l.PB.FilterChains, fc)
		l.Filters = append(l.Filters, fs...)
	}
	if r.Chance(40) {
		fc, fs := Chain(r, s, rdsNames, false)
		l.PB.DefaultFilterChain = fc
		l.Filters = append(l.Filters, fs...)
	}
	return l
}

// OutboundListener draws a listener with at most one filter of each kind.
func OutboundListener(r *rp.R, s *Seq, name string, rdsNames []string) *Lis {
	fc, fs := Chain(r, s, rdsNames, true)
	l := &Lis{PB: &v3listenerpb.Listener{Name: name}, Filters: fs}
	if r.Chance(50) {
		l.PB.FilterChains = []*v3listenerpb.FilterChain{fc}
	} else {
		l.PB.DefaultFilterChain = fc
	}
	return l
}

// ---------------------------------------------------------------- reference routing

// W is a weighted cluster.
type W struct {
	Name   string
	Weight uint32
}

// Picked is the route that the reference selects.
type Picked struct {
	Clusters []W
	Timeout  time.Duration
}

// RouteClusters is the cluster list of an HTTP route.
func RouteClusters(rt *v3routepb.Route) []W {
	switch c := rt.GetRoute().GetClusterSpecifier().(type) {
	case *v3routepb.RouteAction_Cluster:
		return []W{{c.Cluster, 1}}
	case *v3routepb.RouteAction_WeightedClusters:
		var out []W
		for _, w := range c.WeightedClusters.Clusters {
			out = append(out, W{w.Name, w.Weight.GetValue()})
		}
		return out
	}
	return nil
}

// ThriftClusters is the cluster list of a thrift route.
func ThriftClusters(rt *v3thrift.Route) []W {
	switch c := rt.GetRoute().GetClusterSpecifier().(type) {
	case *v3thrift.RouteAction_Cluster:
		return []W{{c.Cluster, 1}}
	case *v3thrift.RouteAction_WeightedClusters:
		var out []W
		for _, w := range c.WeightedClusters.Clusters {
			out = append(out, W{w.Name, w.Weight.GetValue()})
		}
		return out
	}
	return nil
}

// MatchTable is the first route of a table that matches the call.
func MatchTable(rc *v3routepb.RouteConfiguration, p string, md map[string]string) *Picked {
	for _, vh := range rc.GetVirtualHosts() {
		for _, rt := range vh.Routes {
			ok := false
			switch ps := rt.Match.PathSpecifier.(type) {
			case *v3routepb.RouteMatch_Path:
				ok = ps.Path == p
			case *v3routepb.RouteMatch_Prefix:
				ok = ps.Prefix == "/"
			}
			if ok && HeadersHold(rt.Match.Headers, md) {
				return &Picked{RouteClusters(rt), D(rt.GetRoute().GetTimeout())}
			}
		}
	}
	return nil
}

// Route is the reference routing decision for a listener with at most one filter of each kind.
func Route(l *Lis, table func(string) *v3routepb.RouteConfiguration, grpc bool, pkg, svc, method, toMethod string, md map[string]string) *Picked {
	var h, t *Filter
	for i := range l.Filters {
		if l.Filters[i].Thrift {
			t = &l.Filters[i]
		} else {
			h = &l.Filters[i]
		}
	}
	if t != nil && !grpc {
		for _, rt := range t.Routes {
			m := rt.Match.GetMethodName()
			if (m == "" || m == toMethod) && HeadersHold(rt.Match.Headers, md) {
				return &Picked{ThriftClusters(rt), 0}
			}
		}
	}
	if h == nil {
		return nil
	}
	p := FullPath(pkg, svc, method)
	if h.Inline != nil {
		if m := MatchTable(h.Inline, p, md); m != nil {
			return m
		}
	}
	if rc := table(h.RDS); rc != nil {
		return MatchTable(rc, p, md)
	}
	return nil
}

// ---------------------------------------------------------------- clusters and endpoints

// Assignment draws a load assignment.
func Assignment(r *rp.R, name string) *v3endpointpb.ClusterLoadAssignment {
	c := &v3endpointpb.ClusterLoadAssignment{ClusterName: name}
	for n := pick(r, 0, 1, 1, 2, 3); n > 0; n-- {
		le := &v3endpointpb.LocalityLbEndpoints{Priority: uint32(r.Intn(2))}
		for k := pick(r, 0, 1, 2, 3); k > 0; k-- {
			sa := &v3core.SocketAddress{Address: pick(r, "10.0.0.1", "10.0.0.2", "fe80::1", "::1", "host", "127.0.0.1"),
				PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: uint32(pick(r, 0, 80, 8080, 65535, r.Intn(70000)))}}
			le.LbEndpoints = append(le.LbEndpoints, &v3endpointpb.LbEndpoint{
				HostIdentifier:      &v3endpointpb.LbEndpoint_Endpoint{Endpoint: &v3endpointpb.Endpoint{Address: &v3core.Address{Address: &v3core.Address_SocketAddress{SocketAddress: sa}}}},
				LoadBalancingWeight: U32(r), HealthStatus: v3core.HealthStatus(r.Intn(4)),
			})
		}
		c.Endpoints = append(c.Endpoints, le)
	}
	return c
}

// Ep is an expected endpoint.
type Ep struct {
	Addr   string
	Weight uint32
}

// Localities is the reference meaning of a load assignment.
func Localities(c *v3endpointpb.ClusterLoadAssignment) [][]Ep {
	var out [][]Ep
	for _, le := range c.GetEndpoints() {
		eps := []Ep{}
		for _, e := range le.LbEndpoints {
			sa := e.GetEndpoint().GetAddress().GetSocketAddress()
			h := sa.GetAddress()
			if strings.Contains(h, ":") {
				h = "[" + h + "]"
			}
			eps = append(eps, Ep{fmt.Sprintf("%s:%d", h, sa.GetPortValue()), e.LoadBalancingWeight.GetValue()})
		}
		out = append(out, eps)
	}
	return out
}

// Flat concatenates the localities.
func Flat(ls [][]Ep) []Ep {
	var out []Ep
	for _, l := range ls {
		out = append(out, l...)
	}
	return out
}

// Cluster draws a cluster.
func Cluster(r *rp.R, name string, eds []string) *v3clusterpb.Cluster {
	c := &v3clusterpb.Cluster{Name: name, LbPolicy: pick(r, v3clusterpb.Cluster_ROUND_ROBIN, v3clusterpb.Cluster_RING_HASH)}
	c.ClusterDiscoveryType = &v3clusterpb.Cluster_Type{Type: pick(r, v3clusterpb.Cluster_EDS, v3clusterpb.Cluster_LOGICAL_DNS, v3clusterpb.Cluster_STATIC)}
	if r.Chance(60) {
		c.EdsClusterConfig = &v3clusterpb.Cluster_EdsClusterConfig{}
		if r.Chance(70) && len(eds) > 0 {
			c.EdsClusterConfig.ServiceName = eds[r.Intn(len(eds))]
		}
	}
	if r.Chance(35) {
		c.LoadAssignment = Assignment(r, name)
	}
	if r.Chance(60) {
		c.OutlierDetection = &v3clusterpb.OutlierDetection{FailurePercentageThreshold: U32(r), FailurePercentageRequestVolume: U32(r)}
	}
	return c
}

// EDSName is the name of the load assignment a cluster refers to.
func EDSName(c *v3clusterpb.Cluster) string {
	if n := c.GetEdsClusterConfig().GetServiceName(); n != "" {
		return n
	}
	return c.Name
}

// NameTable draws a name table.
func NameTable(r *rp.R) *nds.NameTable {
	t := &nds.NameTable{Table: map[string]*nds.NameTable_NameInfo{}}
	for n := r.Intn(5); n > 0; n-- {
		i := &nds.NameTable_NameInfo{}
		for k := r.Intn(3); k > 0; k-- {
			i.Ips = append(i.Ips, fmt.Sprintf("10.0.%d.%d", r.Intn(3), r.Intn(5)))
		}
		t.Table[fmt.Sprintf("svc%d.ns.svc.cluster.local", r.Intn(5))] = i
	}
	return t
}
