package xdsresource

import (
	udpatypev1 "github.com/cncf/xds/go/udpa/type/v1"
	v3listenerpb "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3routepb "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	ratelimitv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3httppb "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift_proxy "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/vspec"
)

// errors collected by the decoders are errors
func invErrSlice(errs []error) bool {
	return vspec.Forall(0, len(errs), func(i int) bool { return errs[i] != nil })
}

func invErrMap(made map[string]error) bool {
	return vspec.All(nil, func(k string) bool { e, in := made[k]; return !in || e != nil })
}

// ---- thrift routes

func specThriftClusters(a *v3thrift_proxy.RouteAction, ws []*WeightedCluster) bool {
	switch cs := a.GetClusterSpecifier().(type) {
	case *v3thrift_proxy.RouteAction_Cluster:
		return len(ws) == 1 && ws[0] != nil && ws[0].Name == cs.Cluster && ws[0].Weight == 1
	case *v3thrift_proxy.RouteAction_WeightedClusters:
		pcs := cs.WeightedClusters.GetClusters()
		return len(ws) == len(pcs) && (vcC < 0 || vcC >= len(pcs) || ws[vcC] != nil && ws[vcC].Name == pcs[vcC].GetName() && ws[vcC].Weight == pcs[vcC].GetWeight().GetValue())
	}
	return len(ws) == 0
}

func specThriftMatch(p *v3thrift_proxy.Route, r *Route) bool {
	if r == nil {
		return false
	}
	m, ok := r.Match.(*ThriftRouteMatch)
	if !ok || m == nil {
		return false
	}
	return m.Method == p.GetMatch().GetMethodName() && m.ServiceName == p.GetMatch().GetServiceName() &&
		vspec.Ident(m.Tags) == vspec.Ident(vspec.Fn[Matchers]("matchers", p.GetMatch().GetHeaders()))
}

func specThriftRest(p *v3thrift_proxy.Route, r *Route) bool {
	return r != nil && specThriftClusters(p.GetRoute(), r.WeightedClusters) && r.Timeout == 0 && r.RetryPolicy.NumRetries == 0
}

func specBadThrift(p *v3thrift_proxy.Route) bool { return p.GetMatch() == nil || p.GetRoute() == nil }

func specPBThrift() bool {
	return vspec.All(nil, func(c *v3thrift_proxy.RouteConfiguration) bool {
		return c == nil || vspec.Forall(0, len(c.Routes), func(i int) bool { return c.Routes[i] != nil })
	}) && vspec.All(nil, func(c *v3thrift_proxy.WeightedCluster) bool {
		return c == nil || vspec.Forall(0, len(c.Clusters), func(i int) bool { return c.Clusters[i] != nil })
	}) && vspec.All(nil, func(o *v3thrift_proxy.RouteAction_WeightedClusters) bool {
		return o == nil || o.WeightedClusters != nil
	})
}

func invThMatch(own int, tp *v3thrift_proxy.ThriftProxy, made []*Route) bool {
	rs := tp.GetRouteConfig().GetRoutes()
	return own <= vcJ || vcJ < 0 || vcJ >= len(rs) || len(made) != len(rs) || specThriftMatch(rs[vcJ], made[vcJ])
}

func invThRest(own int, tp *v3thrift_proxy.ThriftProxy, made []*Route) bool {
	rs := tp.GetRouteConfig().GetRoutes()
	return own <= vcJ || vcJ < 0 || vcJ >= len(rs) || len(made) != len(rs) || specThriftRest(rs[vcJ], made[vcJ])
}

func invThGood(own int, tp *v3thrift_proxy.ThriftProxy) bool {
	rs := tp.GetRouteConfig().GetRoutes()
	return own <= vcJ || vcJ < 0 || vcJ >= len(rs) || !specBadThrift(rs[vcJ])
}

func invThClusters(own int, wcs *v3thrift_proxy.WeightedCluster, made []*WeightedCluster) bool {
	pcs := wcs.GetClusters()
	return own <= vcC || vcC < 0 || vcC >= len(pcs) || len(made) != len(pcs) ||
		made[vcC] != nil && made[vcC].Name == pcs[vcC].GetName() && made[vcC].Weight == pcs[vcC].GetWeight().GetValue()
}

//govc:prop C11 C13
//govc:use modelBuildMatchers = github.com/kitex-contrib/xds/core/xdsresource.BuildMatchers
//govc:loops invThMatch invThRest invThGood invThClusters
func VC_C11_thrift(a *anypb.Any, j, c int) {
	vspec.Requires(a != nil)
	vspec.Assume("decoded messages have no nil elements", specPBThrift())
	vcJ, vcC = j, c
	tp, ok := vspec.Decode[v3thrift_proxy.ThriftProxy](a.GetValue())
	rs := tp.GetRouteConfig().GetRoutes()
	out, err := unmarshalThriftProxy(a)
	vspec.Ensures("C11 C13", "what is not an encoding of its type is an error", ok || err != nil)
	if !ok {
		return
	}
	vspec.Ensures("C11 C13", "well-formed routes are not an error", err == nil || vspec.Exists(0, len(rs), func(i int) bool { return specBadThrift(rs[i]) }))
	if 0 <= j && j < len(rs) {
		vspec.Ensures("C11 C13", "a route without match or action is an error", !specBadThrift(rs[j]) || err != nil)
	}
	if err != nil {
		return
	}
	vspec.Ensures("C11", "a thrift route table and nothing else", out != nil && out.ThriftRouteConfig != nil && out.HTTPRouteConfig == nil && out.MaxTokens == 0 && out.TokensPerFill == 0)
	rt := out.ThriftRouteConfig.Routes
	vspec.Ensures("C11", "every route is there", len(rt) == len(rs))
	if j < 0 || j >= len(rs) || len(rt) != len(rs) {
		return
	}
	vspec.Ensures("C11", "every route keeps its conditions, in order", specThriftMatch(rs[j], rt[j]))
	vspec.Ensures("C11", "every route keeps its clusters, in order", specThriftRest(rs[j], rt[j]))
}

// ---- the rate-limit bucket

var vcHCM *v3httppb.HttpConnectionManager

// what a filter says: 0 nothing, 1 a bucket, 2 it cannot be decoded
func specLimit(f *v3httppb.HttpFilter) (kind int, max, fill uint32) {
	tc := f.GetTypedConfig()
	if tc == nil {
		return 0, 0, 0
	}
	switch tc.GetTypeUrl() {
	case RateLimitTypeURL:
		l, ok := vspec.Decode[ratelimitv3.LocalRateLimit](tc.GetValue())
		if !ok {
			return 2, 0, 0
		}
		if l.GetTokenBucket() == nil {
			return 0, 0, 0
		}
		return 1, l.GetTokenBucket().GetMaxTokens(), l.GetTokenBucket().GetTokensPerFill().GetValue()
	case TypedStructTypeURL:
		s, ok := vspec.Decode[udpatypev1.TypedStruct](tc.GetValue())
		if !ok {
			return 2, 0, 0
		}
		b, ok := s.GetValue().GetFields()["token_bucket"]
		if !ok {
			return 0, 0, 0
		}
		m, ok := b.GetStructValue().GetFields()["max_tokens"]
		if !ok {
			return 0, 0, 0
		}
		t, ok := b.GetStructValue().GetFields()["tokens_per_fill"]
		if !ok {
			return 0, 0, 0
		}
		return 1, uint32(m.GetNumberValue()), uint32(t.GetNumberValue())
	}
	return 0, 0, 0
}

func specSays(f *v3httppb.HttpFilter) int {
	k, _, _ := specLimit(f)
	return k
}

func invBucket(own int, hcm *v3httppb.HttpConnectionManager) bool {
	return vspec.Forall(0, own, func(k int) bool { return k >= len(hcm.GetHttpFilters()) || specSays(hcm.GetHttpFilters()[k]) == 0 })
}

// The bucket is that of the first filter that has one, wherever it sits.
//
//govc:prop C11 C13
//govc:loops invBucket
func VC_C11_bucket(hcm *v3httppb.HttpConnectionManager, h int) {
	vspec.Requires(hcm != nil)
	fs := hcm.GetHttpFilters()
	vspec.Assume("decoded messages have no nil elements", vspec.Forall(0, len(fs), func(i int) bool { return fs[i] != nil }))
	max, fill, err := getLocalRateLimitFromHttpConnectionManager(hcm)
	vspec.Ensures("C11", "no bucket without a rate-limit filter", !vspec.Forall(0, len(fs), func(k int) bool { return specSays(fs[k]) == 0 }) || err == nil && max == 0 && fill == 0)
	if h < 0 || h >= len(fs) || specSays(fs[h]) == 0 || vspec.Exists(0, h, func(k int) bool { return specSays(fs[k]) != 0 }) {
		return
	}
	k, m, t := specLimit(fs[h])
	vspec.Ensures("C11 C13", "a filter that cannot be decoded is an error", (k == 2) == (err != nil))
	vspec.Ensures("C11", "the bucket of the first rate-limit filter", k != 1 || max == m && fill == t)
}

// ---- HTTP connection managers

func modelBucket(hcm *v3httppb.HttpConnectionManager) (uint32, uint32, error) {
	if err := vspec.Fn[error]("limitErr", hcm.GetHttpFilters()); err != nil {
		return 0, 0, err
	}
	return vspec.Fn[uint32]("limitMax", hcm.GetHttpFilters()), vspec.Fn[uint32]("limitFill", hcm.GetHttpFilters()), nil
}

// unmarshalRouteConfig by its contract; the result is a new object
func modelTable(rc *v3routepb.RouteConfiguration) (*RouteConfigResource, error) {
	if err := vspec.Fn[error]("tableErr", rc.GetVirtualHosts()); err != nil {
		return nil, err
	}
	return &RouteConfigResource{HTTPRouteConfig: vspec.Fn[*HTTPRouteConfig]("hosts", rc.GetVirtualHosts())}, nil
}

//govc:prop C11 C13
//govc:use modelBucket = github.com/kitex-contrib/xds/core/xdsresource.getLocalRateLimitFromHttpConnectionManager
//govc:use modelTable = github.com/kitex-contrib/xds/core/xdsresource.unmarshalRouteConfig
func VC_C11_hcm(a *anypb.Any) {
	vspec.Requires(a != nil)
	hcm, ok := vspec.Decode[v3httppb.HttpConnectionManager](a.GetValue())
	name, out, err := unmarshallHTTPConnectionManager(a)
	vspec.Ensures("C11 C13", "what is not an encoding of its type is an error", ok || err != nil)
	if !ok {
		return
	}
	lerr := vspec.Fn[error]("limitErr", hcm.GetHttpFilters())
	vspec.Ensures("C11 C13", "an undecodable rate limit is an error", lerr == nil || err != nil)
	if lerr != nil {
		return
	}
	max, fill := vspec.Fn[uint32]("limitMax", hcm.GetHttpFilters()), vspec.Fn[uint32]("limitFill", hcm.GetHttpFilters())
	if rc := hcm.GetRouteConfig(); rc != nil {
		terr := vspec.Fn[error]("tableErr", rc.GetVirtualHosts())
		vspec.Ensures("C11 C13", "a bad inline table, and only that, is an error", (terr == nil) == (err == nil))
		if err != nil {
			return
		}
		vspec.Ensures("C11", "the inline table", out != nil && out.HTTPRouteConfig == vspec.Fn[*HTTPRouteConfig]("hosts", rc.GetVirtualHosts()))
		vspec.Ensures("C11", "the name of the inline table", name == rc.GetName())
		vspec.Ensures("C11", "the bucket", out.MaxTokens == max && out.TokensPerFill == fill)
		return
	}
	if _, is := hcm.GetRouteSpecifier().(*v3httppb.HttpConnectionManager_Rds); is {
		n := hcm.GetRds().GetRouteConfigName()
		vspec.Ensures("C11 C13", "a nameless route table, and only that, is an error", (n != "") == (err == nil))
		if err != nil {
			return
		}
		vspec.Ensures("C11", "the name of the route table", name == n)
	} else {
		vspec.Ensures("C11", "no name without a route table", err != nil || name == "")
		if err != nil {
			return
		}
	}
	vspec.Ensures("C11", "the bucket", out != nil && out.MaxTokens == max && out.TokensPerFill == fill && out.HTTPRouteConfig == nil && out.ThriftRouteConfig == nil)
}

// ---- filter chains

func modelThrift(a *anypb.Any) (*RouteConfigResource, error) {
	if err := vspec.Fn[error]("thriftErr", a); err != nil {
		return nil, err
	}
	return vspec.Fn[*RouteConfigResource]("thrift", a), nil
}

func modelHCM(a *anypb.Any) (string, *RouteConfigResource, error) {
	if err := vspec.Fn[error]("hcmErr", a); err != nil {
		return "", nil, err
	}
	return vspec.Fn[string]("hcmName", a), vspec.Fn[*RouteConfigResource]("hcm", a), nil
}

// the kind of a network filter: 1 thrift, 2 HTTP, 0 another; bad ones are counted as nothing
func specKind(f *v3listenerpb.Filter) int {
	switch f.GetTypedConfig().GetTypeUrl() {
	case ThriftProxyTypeURL:
		return 1
	case HTTPConnManagerTypeURL:
		return 2
	}
	return 0
}

func specBadFilter(f *v3listenerpb.Filter) bool {
	switch specKind(f) {
	case 1:
		return vspec.Fn[error]("thriftErr", f.GetTypedConfig()) != nil
	case 2:
		return vspec.Fn[error]("hcmErr", f.GetTypedConfig()) != nil
	}
	return false
}

// the number of network filters the client understands among the first n
//
//govc:rec
func specKnown(fs []*v3listenerpb.Filter, n int) int {
	if n <= 0 {
		return 0
	}
	if specKind(fs[n-1]) != 0 && !specBadFilter(fs[n-1]) {
		return specKnown(fs, n-1) + 1
	}
	return specKnown(fs, n-1)
}

func specNetFilter(f *v3listenerpb.Filter, port uint32, n *NetworkFilter) bool {
	if n == nil || n.RoutePort != port {
		return false
	}
	a := f.GetTypedConfig()
	if specKind(f) == 1 {
		return n.FilterType == NetworkFilterTypeThrift && n.RouteConfigName == "" && n.InlineRouteConfig == vspec.Fn[*RouteConfigResource]("thrift", a)
	}
	return n.FilterType == NetworkFilterTypeHTTP && n.RouteConfigName == vspec.Fn[string]("hcmName", a) && n.InlineRouteConfig == vspec.Fn[*RouteConfigResource]("hcm", a)
}

func invChainErrs(own int, fc *v3listenerpb.FilterChain, errs []error) bool {
	fs := fc.GetFilters()
	return (len(errs) == 0) == vspec.Forall(0, own, func(k int) bool { return k >= len(fs) || !specBadFilter(fs[k]) })
}

func invChainLen(own int, fc *v3listenerpb.FilterChain, out []*NetworkFilter) bool {
	return own <= len(fc.GetFilters()) && len(out) == specKnown(fc.GetFilters(), own)
}

func invChain(own int, fc *v3listenerpb.FilterChain, out []*NetworkFilter) bool {
	fs := fc.GetFilters()
	if vcJ < 0 || vcJ >= own || vcJ >= len(fs) || specKind(fs[vcJ]) == 0 || specBadFilter(fs[vcJ]) {
		return true
	}
	p := specKnown(fs, vcJ)
	return 0 <= p && p < len(out) && specNetFilter(fs[vcJ], fc.GetFilterChainMatch().GetDestinationPort().GetValue(), out[p])
}

func invKnownPos(own int, fc *v3listenerpb.FilterChain) bool {
	return own > len(fc.GetFilters()) || specKnown(fc.GetFilters(), own) >= 0
}

//govc:prop C11 C13
//govc:use modelThrift = github.com/kitex-contrib/xds/core/xdsresource.unmarshalThriftProxy
//govc:use modelHCM = github.com/kitex-contrib/xds/core/xdsresource.unmarshallHTTPConnectionManager
//govc:loops invErrSlice invChainErrs invChainLen invChain invKnownPos
func VC_C11_chain(fc *v3listenerpb.FilterChain, j int) {
	vspec.Requires(fc != nil)
	vcJ = j
	fs := fc.GetFilters()
	vspec.Assume("decoded messages have no nil elements", vspec.Forall(0, len(fs), func(i int) bool { return fs[i] != nil }) &&
		vspec.All(nil, func(o *v3listenerpb.Filter_TypedConfig) bool { return o == nil || o.TypedConfig != nil }))
	out, err := unmarshalFilterChain(fc)
	vspec.Ensures("C11 C13", "an error exactly when some filter is bad", (err == nil) == vspec.Forall(0, len(fs), func(k int) bool { return !specBadFilter(fs[k]) }))
	vspec.Ensures("C11", "one filter for each one understood", len(out) == specKnown(fs, len(fs)))
	if j < 0 || j >= len(fs) || specKind(fs[j]) == 0 || specBadFilter(fs[j]) {
		return
	}
	p := specKnown(fs, j)
	vspec.Ensures("C11", "every filter is preserved, in order, with the chain's port", 0 <= p && p < len(out) && specNetFilter(fs[j], fc.GetFilterChainMatch().GetDestinationPort().GetValue(), out[p]))
}

// ---- listeners

func modelChain(fc *v3listenerpb.FilterChain) ([]*NetworkFilter, error) {
	return vspec.Fn[[]*NetworkFilter]("chain", fc), vspec.Fn[error]("chainErr", fc)
}

// the number of filters of the first n chains that decode
//
//govc:rec
func specChainOff(fcs []*v3listenerpb.FilterChain, n int) int {
	if n <= 0 {
		return 0
	}
	if vspec.Fn[error]("chainErr", fcs[n-1]) != nil {
		return specChainOff(fcs, n-1)
	}
	return specChainOff(fcs, n-1) + len(vspec.Fn[[]*NetworkFilter]("chain", fcs[n-1]))
}

func specLDSFor(a *anypb.Any, name string) bool {
	l, ok := vspec.Decode[v3listenerpb.Listener](a.GetValue())
	return a.GetTypeUrl() == ListenerTypeURL && ok && l.GetName() == name
}

// the listener is that of the message: filter vcJ of chain vcI, and filter vcJ of the default chain
func specLisLen(l *v3listenerpb.Listener, r *ListenerResource) bool {
	if r == nil {
		return false
	}
	fcs, d := l.GetFilterChains(), l.GetDefaultFilterChain()
	n := specChainOff(fcs, len(fcs))
	if d == nil {
		return len(r.NetworkFilters) == n
	}
	return len(r.NetworkFilters) == n+len(vspec.Fn[[]*NetworkFilter]("chain", d))
}

func specLisChain(l *v3listenerpb.Listener, r *ListenerResource) bool {
	fcs := l.GetFilterChains()
	if vcI < 0 || vcI >= len(fcs) || vspec.Fn[error]("chainErr", fcs[vcI]) != nil {
		return true
	}
	c := vspec.Fn[[]*NetworkFilter]("chain", fcs[vcI])
	if vcJ < 0 || vcJ >= len(c) {
		return true
	}
	p := specChainOff(fcs, vcI) + vcJ
	return 0 <= p && p < len(r.NetworkFilters) && r.NetworkFilters[p] == c[vcJ]
}

func specLisDefault(l *v3listenerpb.Listener, r *ListenerResource) bool {
	d := l.GetDefaultFilterChain()
	if d == nil {
		return true
	}
	c := vspec.Fn[[]*NetworkFilter]("chain", d)
	if vcJ < 0 || vcJ >= len(c) {
		return true
	}
	p := specChainOff(l.GetFilterChains(), len(l.GetFilterChains())) + vcJ
	return 0 <= p && p < len(r.NetworkFilters) && r.NetworkFilters[p] == c[vcJ]
}

func invLisErrs(own int, l *v3listenerpb.Listener, errs []error) bool {
	fcs := l.GetFilterChains()
	return (len(errs) == 0) == vspec.Forall(0, own, func(k int) bool { return k >= len(fcs) || vspec.Fn[error]("chainErr", fcs[k]) == nil })
}

func invLisLen(own int, l *v3listenerpb.Listener, out []*NetworkFilter) bool {
	return own <= len(l.GetFilterChains()) && len(out) == specChainOff(l.GetFilterChains(), own) && len(out) >= 0
}

func invLis(own int, l *v3listenerpb.Listener, out []*NetworkFilter) bool {
	fcs := l.GetFilterChains()
	if vcI < 0 || vcI >= own || vcI >= len(fcs) || vspec.Fn[error]("chainErr", fcs[vcI]) != nil {
		return true
	}
	c := vspec.Fn[[]*NetworkFilter]("chain", fcs[vcI])
	if vcJ < 0 || vcJ >= len(c) {
		return true
	}
	p := specChainOff(fcs, vcI) + vcJ
	return 0 <= p && p < len(out) && out[p] == c[vcJ]
}

// resource vcK is bad for its type, its bytes, chain vcI or the default chain
func specLDSBadAt(a *anypb.Any) bool {
	if a.GetTypeUrl() != ListenerTypeURL {
		return true
	}
	l, ok := vspec.Decode[v3listenerpb.Listener](a.GetValue())
	if !ok || l.GetDefaultFilterChain() != nil && vspec.Fn[error]("chainErr", l.GetDefaultFilterChain()) != nil {
		return true
	}
	fcs := l.GetFilterChains()
	return 0 <= vcI && vcI < len(fcs) && vspec.Fn[error]("chainErr", fcs[vcI]) != nil
}

func invLDSErr(own int, raw []*anypb.Any, made map[string]error, errs []error) bool {
	return vcK < 0 || vcK >= own || vcK >= len(raw) || !specLDSBadAt(raw[vcK]) || len(made) > 0 || len(errs) > 0
}

func invLisErrAt(own int, l *v3listenerpb.Listener, errs []error) bool {
	fcs := l.GetFilterChains()
	return vcI < 0 || vcI >= own || vcI >= len(fcs) || vspec.Fn[error]("chainErr", fcs[vcI]) == nil || len(errs) > 0
}

func invLDSKeys(own int, raw []*anypb.Any, made map[string]*ListenerResource) bool {
	_, in := made[vcHKey]
	return in == vspec.Exists(0, own, func(k int) bool { return k < len(raw) && specLDSFor(raw[k], vcHKey) })
}

func invLDS(own int, raw []*anypb.Any, made map[string]*ListenerResource) bool {
	r := made[vcHKey]
	if vcK < 0 || vcK >= own || vcK >= len(raw) || !specLDSFor(raw[vcK], vcHKey) {
		return true
	}
	l, _ := vspec.Decode[v3listenerpb.Listener](raw[vcK].GetValue())
	return vspec.Exists(vcK+1, own, func(k int) bool { return k < len(raw) && specLDSFor(raw[k], vcHKey) }) || specLisLen(l, r) && specLisChain(l, r) && specLisDefault(l, r)
}

//govc:prop C11 C13
//govc:use modelChain = github.com/kitex-contrib/xds/core/xdsresource.unmarshalFilterChain
//govc:loops invErrSlice invErrMap invLisErrs invLisLen invLis invLisErrAt invLDSErr invLDSKeys invLDS
func VC_C11_lds(raw []*anypb.Any, k, i, j int, name string) {
	vspec.Assume("decoded messages have no nil elements", vspec.Forall(0, len(raw), func(i int) bool { return raw[i] != nil }) &&
		vspec.All(nil, func(l *v3listenerpb.Listener) bool {
			return l == nil || vspec.Forall(0, len(l.FilterChains), func(i int) bool { return l.FilterChains[i] != nil })
		}))
	vcK, vcI, vcJ, vcHKey = k, i, j, name
	ret, err := UnmarshalLDS(raw)
	vspec.Ensures("C11 C13", "a bad resource is an error", k < 0 || k >= len(raw) || !specLDSBadAt(raw[k]) || err != nil)
	if err != nil {
		return
	}
	r, in := ret[name]
	vspec.Ensures("C11", "keyed by their own names, none lost", in == vspec.Exists(0, len(raw), func(i int) bool { return specLDSFor(raw[i], name) }))
	if k < 0 || k >= len(raw) || !specLDSFor(raw[k], name) || vspec.Exists(k+1, len(raw), func(i int) bool { return specLDSFor(raw[i], name) }) {
		return
	}
	l, _ := vspec.Decode[v3listenerpb.Listener](raw[k].GetValue())
	vspec.Ensures("C11", "exactly the filters of the listener's chains", specLisLen(l, r))
	vspec.Ensures("C11", "the filters of every chain, in order", specLisChain(l, r))
	vspec.Ensures("C11", "the filters of the default chain, last", specLisDefault(l, r))
}

// whether some chain failed to decode, recorded by modelChainBad
var vcChainBad bool

// unmarshalFilterChain by its contract
func modelChainBad(fc *v3listenerpb.FilterChain) ([]*NetworkFilter, error) {
	err := vspec.Fn[error]("chainErr", fc)
	if err != nil {
		vcChainBad = true
	}
	return vspec.Fn[[]*NetworkFilter]("chain", fc), err
}

func invNoErrs(errs []error) bool { return len(errs) == 0 || vcChainBad }

func invNoErrMap(made map[string]error) bool { return len(made) == 0 || vcChainBad }

// A response whose resources are all well formed is not an error.
//
//govc:prop C11 C13
//govc:use modelChainBad = github.com/kitex-contrib/xds/core/xdsresource.unmarshalFilterChain
//govc:loops invErrSlice invErrMap invNoErrs invNoErrMap
func VC_C11_ldsGood(raw []*anypb.Any) {
	vspec.Assume("decoded messages have no nil elements", vspec.Forall(0, len(raw), func(i int) bool { return raw[i] != nil }) &&
		vspec.All(nil, func(l *v3listenerpb.Listener) bool {
			return l == nil || vspec.Forall(0, len(l.FilterChains), func(i int) bool { return l.FilterChains[i] != nil })
		}))
	vspec.Requires(vspec.Forall(0, len(raw), func(i int) bool {
		_, ok := vspec.Decode[v3listenerpb.Listener](raw[i].GetValue())
		return raw[i].GetTypeUrl() == ListenerTypeURL && ok
	}))
	vcChainBad = false
	_, err := UnmarshalLDS(raw)
	vspec.Ensures("C11 C13", "only a bad resource is an error", err == nil || vcChainBad)
}
