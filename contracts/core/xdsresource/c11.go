package xdsresource

import (
	"regexp"
	"strconv"
	"strings"

	v3routepb "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/vspec"
)

// ---- header conditions

var (
	vcVal  string // an arbitrary header value
	vcHKey string // an arbitrary header name
)

// a header condition the client supports
func specSupported(h *v3routepb.HeaderMatcher) bool {
	switch p := h.GetStringMatch().GetMatchPattern().(type) {
	case *v3matcher.StringMatcher_Exact, *v3matcher.StringMatcher_Prefix:
		return true
	case *v3matcher.StringMatcher_SafeRegex:
		return p.SafeRegex != nil
	}
	return false
}

// and what it means for a value
func specHolds(h *v3routepb.HeaderMatcher, v string) bool {
	switch p := h.GetStringMatch().GetMatchPattern().(type) {
	case *v3matcher.StringMatcher_Exact:
		return v == p.Exact
	case *v3matcher.StringMatcher_Prefix:
		return strings.HasPrefix(v, p.Prefix)
	case *v3matcher.StringMatcher_SafeRegex:
		re, err := regexp.Compile(p.SafeRegex.Regex)
		return err == nil && re.MatchString(v)
	}
	return false
}

// what a matcher means: for the elementary ones this is VC_C08_matchers
func specMeans(m Matcher, v string) bool {
	switch p := m.(type) {
	case ExactMatcher:
		return vspec.Fn[bool]("cond", m, v) == (v == string(p))
	case PrefixMatcher:
		return vspec.Fn[bool]("cond", m, v) == strings.HasPrefix(v, string(p))
	case *RegexMatcher:
		return vspec.Fn[bool]("cond", m, v) == p.re.MatchString(v)
	case neverMatcher:
		return !vspec.Fn[bool]("cond", m, v)
	}
	return true
}

func modelAdd(ms Matchers, key string, m Matcher) {
	if key != vcHKey {
		n := vspec.Any[Matcher]("added")
		vspec.Assume("contract of add (VC_C11_add)", n != nil)
		ms[key] = n
		return
	}
	vspec.Assume("the elementary conditions mean what VC_C08_matchers shows", specMeans(m, vcVal))
	prev, ok := ms[key]
	n := vspec.Any[Matcher]("added")
	vspec.Assume("contract of add (VC_C11_add)", n != nil && vspec.Fn[bool]("cond", n, vcVal) == (vspec.Fn[bool]("cond", m, vcVal) && (!ok || vspec.Fn[bool]("cond", prev, vcVal))))
	ms[key] = n
}

//govc:prop C11 C13
//govc:loops invAllMatch
func VC_C11_add(ms Matchers, key, other string, m Matcher, v string) {
	vspec.Requires(ms != nil && m != nil)
	prev, ok := ms[key]
	vspec.Requires(!ok || prev != nil)
	o, had := ms[other]
	ms.add(key, m)
	n, in := ms[key]
	o2, has := ms[other]
	vspec.Ensures("C11", "other names keep their conditions", other == key || had == has && o2 == o)
	vspec.Ensures("C11", "there is a condition on the name", in && n != nil)
	if !ok {
		vspec.Ensures("C11", "a first condition is kept as it is", n == m)
		return
	}
	am, all := n.(allMatcher)
	vspec.Ensures("C11", "further conditions are conjoined", all)
	vspec.Ensures("C11", "all the conditions on a name are required", am.Match(v) == (vspec.Fn[bool]("cond", m, v) && vspec.Fn[bool]("cond", prev, v)))
}

func invBM(own int, hs []*v3routepb.HeaderMatcher, ms Matchers) bool {
	m, in := ms[vcHKey]
	some := vspec.Exists(0, own, func(j int) bool { return hs[j].Name == vcHKey && specSupported(hs[j]) })
	all := vspec.Forall(0, own, func(j int) bool {
		return !(hs[j].Name == vcHKey && specSupported(hs[j])) || specHolds(hs[j], vcVal)
	})
	return in == some && (!in || m != nil && vspec.Fn[bool]("cond", m, vcVal) == all)
}

// The condition on a name holds for a value exactly when every supported header condition on that name does.
//
//govc:prop C11 C13
//govc:use modelAdd = (github.com/kitex-contrib/xds/core/xdsresource.Matchers).add
//govc:loops invBM
func VC_C11_matchers(hs []*v3routepb.HeaderMatcher, key, val string) {
	vspec.Assume("decoded messages have no nil elements", vspec.Forall(0, len(hs), func(i int) bool { return hs[i] != nil }))
	vcHKey, vcVal = key, val
	ms := BuildMatchers(hs)
	m, in := ms[key]
	some := vspec.Exists(0, len(hs), func(j int) bool { return hs[j].Name == key && specSupported(hs[j]) })
	all := vspec.Forall(0, len(hs), func(j int) bool {
		return !(hs[j].Name == key && specSupported(hs[j])) || specHolds(hs[j], val)
	})
	vspec.Ensures("C11", "exactly the names with a supported condition are conditioned", in == some)
	vspec.Ensures("C11", "every header condition is preserved", !in || m != nil && vspec.Fn[bool]("cond", m, val) == all)
}

// ---- routes

func modelBuildMatchers(hs []*v3routepb.HeaderMatcher) Matchers {
	return vspec.Fn[Matchers]("matchers", hs)
}

var (
	vcK, vcI, vcJ, vcC, vcH, vcHM int                    // arbitrary resource, virtual host, route, cluster, retriable headers
	vcPol                         *v3routepb.RetryPolicy // the retry policy of the arbitrary route
	vcRC                          *v3routepb.RouteConfiguration
	vcVH                          *v3routepb.VirtualHost
	vcRt                          *v3routepb.Route
	vcRes                         Resource
)

// the clusters of a route, by position
func specClusters(a *v3routepb.RouteAction, ws []*WeightedCluster) bool {
	switch cs := a.GetClusterSpecifier().(type) {
	case *v3routepb.RouteAction_Cluster:
		return len(ws) == 1 && ws[0] != nil && ws[0].Name == cs.Cluster && ws[0].Weight == 1
	case *v3routepb.RouteAction_WeightedClusters:
		pcs := cs.WeightedClusters.GetClusters()
		return len(ws) == len(pcs) && (vcC < 0 || vcC >= len(pcs) || ws[vcC] != nil && ws[vcC].Name == pcs[vcC].GetName() && ws[vcC].Weight == pcs[vcC].GetWeight().GetValue())
	}
	return len(ws) == 0
}

// the value of a retriable header the client understands
func specExact(h *v3routepb.HeaderMatcher) string { return h.GetStringMatch().GetExact() }

func specRateHeader(h *v3routepb.HeaderMatcher) bool {
	_, err := strconv.ParseFloat(specExact(h), 64)
	return h.GetName() == cBErrorRateKey && specExact(h) != "" && err == nil
}

func specMethodsHeader(h *v3routepb.HeaderMatcher) bool {
	return h.GetName() == retryMethods && specExact(h) != ""
}

// the value of the last rate header (vcH) among the first n; the default when there is none (vcH < 0)
func specRate(hs []*v3routepb.HeaderMatcher, n int, rate float64) bool {
	if vcH < 0 {
		return vspec.Same(rate, 0)
	}
	if vcH >= n {
		return true
	}
	v, _ := strconv.ParseFloat(specExact(hs[vcH]), 64)
	return vspec.Same(rate, v)
}

func specMethods(hs []*v3routepb.HeaderMatcher, n int, ms []string) bool {
	if vcHM < 0 {
		return len(ms) == 0
	}
	if vcHM >= n {
		return true
	}
	want := strings.Split(specExact(hs[vcHM]), ",")
	return len(ms) == len(want) && (vcC < 0 || vcC >= len(want) || ms[vcC] == want[vcC])
}

// vcH and vcHM are the positions of the last rate and methods headers of policy p, or negative when it has none
// (every finite list has such a position)
func specLast(p *v3routepb.RetryPolicy) bool {
	hs := p.GetRetriableHeaders()
	n := len(hs)
	if vcH >= n || vcHM >= n {
		return false
	}
	if vcH >= 0 && !specRateHeader(hs[vcH]) || vcHM >= 0 && !specMethodsHeader(hs[vcHM]) {
		return false
	}
	return vspec.Forall(0, n, func(k int) bool {
		return (k <= vcH || !specRateHeader(hs[k])) && (k <= vcHM || !specMethodsHeader(hs[k]))
	})
}

func specRetry(p *v3routepb.RetryPolicy, o *RetryPolicy) bool {
	if p == nil {
		return o.RetryOn == "" && o.NumRetries == 0 && o.PerTryTimeout == 0 && o.PerTryIdleTimeout == 0 && o.RetryBackOff == nil
	}
	b := p.GetRetryBackOff()
	return o.RetryOn == p.GetRetryOn() && o.NumRetries == int(p.GetNumRetries().GetValue()) &&
		o.PerTryTimeout == p.GetPerTryTimeout().AsDuration() && o.PerTryIdleTimeout == p.GetPerTryIdleTimeout().AsDuration() &&
		(b == nil) == (o.RetryBackOff == nil) &&
		(b == nil || o.RetryBackOff.BaseInterval == b.GetBaseInterval().AsDuration() && o.RetryBackOff.MaxInterval == b.GetMaxInterval().AsDuration())
}

func specRetryRate(p *v3routepb.RetryPolicy, o *RetryPolicy) bool {
	if p == nil {
		return vspec.Same(o.CBErrorRate, 0)
	}
	return specRate(p.GetRetriableHeaders(), len(p.GetRetriableHeaders()), o.CBErrorRate)
}

func specRetryMethods(p *v3routepb.RetryPolicy, o *RetryPolicy) bool {
	if p == nil {
		return len(o.Methods) == 0
	}
	return specMethods(p.GetRetriableHeaders(), len(p.GetRetriableHeaders()), o.Methods)
}

func specRouteMatch(p *v3routepb.Route, r *Route) bool {
	if r == nil {
		return false
	}
	m, ok := r.Match.(*HTTPRouteMatch)
	if !ok || m == nil || m.Headers == nil && vspec.Fn[Matchers]("matchers", p.GetMatch().GetHeaders()) != nil {
		return false
	}
	return m.Path == p.GetMatch().GetPath() && m.Prefix == p.GetMatch().GetPrefix() && vspec.Ident(m.Headers) == vspec.Ident(vspec.Fn[Matchers]("matchers", p.GetMatch().GetHeaders()))
}

func specRouteClusters(p *v3routepb.Route, r *Route) bool {
	if r == nil {
		return false
	}
	a := p.GetRoute()
	if a == nil {
		return len(r.WeightedClusters) == 0 && r.Timeout == 0
	}
	return specClusters(a, r.WeightedClusters) && r.Timeout == a.GetTimeout().AsDuration()
}

func specRouteRetry(p *v3routepb.Route, r *Route) bool {
	return r != nil && specRetry(p.GetRoute().GetRetryPolicy(), &r.RetryPolicy)
}

func specRouteRate(p *v3routepb.Route, r *Route) bool {
	return r != nil && specRetryRate(p.GetRoute().GetRetryPolicy(), &r.RetryPolicy)
}

func specRouteMethods(p *v3routepb.Route, r *Route) bool {
	return r != nil && specRetryMethods(p.GetRoute().GetRetryPolicy(), &r.RetryPolicy)
}

// decoded messages are complete: no nil elements in repeated fields, no nil members in oneofs
func specPBRoutes() bool {
	return vspec.All(nil, func(v *v3routepb.VirtualHost) bool {
		return v == nil || vspec.Forall(0, len(v.Routes), func(i int) bool { return v.Routes[i] != nil })
	}) && vspec.All(nil, func(c *v3routepb.RouteConfiguration) bool {
		return c == nil || vspec.Forall(0, len(c.VirtualHosts), func(i int) bool { return c.VirtualHosts[i] != nil })
	}) && vspec.All(nil, func(c *v3routepb.WeightedCluster) bool {
		return c == nil || vspec.Forall(0, len(c.Clusters), func(i int) bool { return c.Clusters[i] != nil })
	}) && vspec.All(nil, func(c *v3routepb.RetryPolicy) bool {
		return c == nil || vspec.Forall(0, len(c.RetriableHeaders), func(i int) bool { return c.RetriableHeaders[i] != nil })
	}) && vspec.All(nil, func(o *v3routepb.RouteAction_WeightedClusters) bool { return o == nil || o.WeightedClusters != nil }) &&
		vspec.All(nil, func(o *v3routepb.Route_Route) bool { return o == nil || o.Route != nil })
}

func invRtMatch(own int, rs []*v3routepb.Route, made []*Route) bool {
	return own <= vcJ || vcJ < 0 || vcJ >= len(rs) || len(made) != len(rs) || specRouteMatch(rs[vcJ], made[vcJ])
}

func invRtClus(own int, rs []*v3routepb.Route, made []*Route) bool {
	return own <= vcJ || vcJ < 0 || vcJ >= len(rs) || len(made) != len(rs) || specRouteClusters(rs[vcJ], made[vcJ])
}

func invRtRetry(own int, rs []*v3routepb.Route, made []*Route) bool {
	return own <= vcJ || vcJ < 0 || vcJ >= len(rs) || len(made) != len(rs) || specRouteRetry(rs[vcJ], made[vcJ])
}

func invRtRate(own int, rs []*v3routepb.Route, made []*Route) bool {
	return own <= vcJ || vcJ < 0 || vcJ >= len(rs) || len(made) != len(rs) || specRouteRate(rs[vcJ], made[vcJ])
}

func invRtMethods(own int, rs []*v3routepb.Route, made []*Route) bool {
	return own <= vcJ || vcJ < 0 || vcJ >= len(rs) || len(made) != len(rs) || specRouteMethods(rs[vcJ], made[vcJ])
}

func specBadRoute(r *v3routepb.Route) bool { return r.GetMatch() == nil || r.GetAction() == nil }

func invRtGood(own int, rs []*v3routepb.Route) bool {
	return own <= vcJ || vcJ < 0 || vcJ >= len(rs) || !specBadRoute(rs[vcJ])
}

func specBadAmong(rs []*v3routepb.Route) bool {
	return vspec.Exists(0, len(rs), func(i int) bool { return specBadRoute(rs[i]) })
}

func invRtClusters(own int, wcs *v3routepb.WeightedCluster, made []*WeightedCluster) bool {
	pcs := wcs.GetClusters()
	return own <= vcC || vcC < 0 || vcC >= len(pcs) || len(made) != len(pcs) ||
		made[vcC] != nil && made[vcC].Name == pcs[vcC].GetName() && made[vcC].Weight == pcs[vcC].GetWeight().GetValue()
}

func invRtHeaders(own int, p *v3routepb.RetryPolicy, r *Route) bool {
	hs := p.GetRetriableHeaders()
	return p != vcPol || p == nil || r == nil || own > len(hs) || specRate(hs, own, r.RetryPolicy.CBErrorRate) && specMethods(hs, own, r.RetryPolicy.Methods)
}

//govc:prop C11 C13
//govc:use modelBuildMatchers = github.com/kitex-contrib/xds/core/xdsresource.BuildMatchers
//govc:loops invRtMatch invRtClus invRtRetry invRtRate invRtMethods invRtGood invRtClusters invRtHeaders
func VC_C11_routes(rs []*v3routepb.Route, j, c, h, h2 int) {
	vspec.Assume("decoded messages have no nil elements", specPBRoutes() && vspec.Forall(0, len(rs), func(i int) bool { return rs[i] != nil }))
	vcJ, vcC, vcH, vcHM = j, c, h, h2
	vspec.Requires(0 <= j && j < len(rs))
	vcPol = rs[j].GetRoute().GetRetryPolicy()
	vspec.Requires(specLast(vcPol))
	out, err := unmarshalRoutes(rs)
	vspec.Ensures("C11 C13", "a route without match or action is an error", !specBadRoute(rs[j]) || err != nil)
	vspec.Ensures("C11 C13", "well-formed routes are not an error", err == nil || specBadAmong(rs))
	vspec.Ensures("C11", "every route is there", err != nil || len(out) == len(rs))
	if err != nil || len(out) != len(rs) {
		return
	}
	vspec.Ensures("C11", "every route keeps its conditions, in order", specRouteMatch(rs[j], out[j]))
	vspec.Ensures("C11", "every route keeps its clusters and timeout, in order", specRouteClusters(rs[j], out[j]))
	vspec.Ensures("C11", "every route keeps its retry policy, in order", specRouteRetry(rs[j], out[j]))
	vspec.Ensures("C11", "every route keeps its error rate ceiling, in order", specRouteRate(rs[j], out[j]))
	vspec.Ensures("C11", "every route keeps its retried methods, in order", specRouteMethods(rs[j], out[j]))
}

// ---- route configurations

// unmarshalRoutes by its contract (VC_C11_routes): the routes are those of the list, or an error
func modelRoutes(rs []*v3routepb.Route) ([]*Route, error) {
	if err := vspec.Fn[error]("routesErr", rs); err != nil {
		return nil, err
	}
	return vspec.Fn[[]*Route]("routes", rs), nil
}

func invVHosts(own int, rc *v3routepb.RouteConfiguration, made []*VirtualHost) bool {
	vhs := rc.GetVirtualHosts()
	return own <= vcI || vcI < 0 || vcI >= len(vhs) || len(made) != len(vhs) || specVHost(vhs[vcI], made[vcI])
}

func invVHostsGood(own int, rc *v3routepb.RouteConfiguration) bool {
	vhs := rc.GetVirtualHosts()
	return vspec.Forall(0, own, func(i int) bool { return i >= len(vhs) || vspec.Fn[error]("routesErr", vhs[i].GetRoutes()) == nil })
}

func specVHost(p *v3routepb.VirtualHost, v *VirtualHost) bool {
	return v != nil && v.Name == p.GetName() && vspec.Ident(v.Routes) == vspec.Ident(vspec.Fn[[]*Route]("routes", p.GetRoutes())) && len(v.Routes) == len(vspec.Fn[[]*Route]("routes", p.GetRoutes()))
}

//govc:prop C11 C13
//govc:use modelRoutes = github.com/kitex-contrib/xds/core/xdsresource.unmarshalRoutes
//govc:loops invVHosts invVHostsGood
func VC_C11_routeConfig(rc *v3routepb.RouteConfiguration, i int) {
	vspec.Assume("decoded messages have no nil elements", specPBRoutes())
	vspec.Requires(rc != nil)
	vcI = i
	vhs := rc.GetVirtualHosts()
	out, err := unmarshalRouteConfig(rc)
	vspec.Ensures("C11 C13", "an error exactly when some virtual host has a bad route", (err == nil) == vspec.Forall(0, len(vhs), func(j int) bool { return vspec.Fn[error]("routesErr", vhs[j].GetRoutes()) == nil }))
	if err != nil {
		return
	}
	vspec.Ensures("C11", "an HTTP route table, and nothing else", out != nil && out.HTTPRouteConfig != nil && out.ThriftRouteConfig == nil && out.MaxTokens == 0 && out.TokensPerFill == 0)
	vspec.Ensures("C11", "as many virtual hosts", len(out.HTTPRouteConfig.VirtualHosts) == len(vhs))
	vspec.Ensures("C11", "every virtual host is preserved, in order", i < 0 || i >= len(vhs) || specVHost(vhs[i], out.HTTPRouteConfig.VirtualHosts[i]))
}

func modelRouteConfig(rc *v3routepb.RouteConfiguration) (*RouteConfigResource, error) {
	if err := vspec.Fn[error]("tableErr", rc.GetVirtualHosts()); err != nil {
		return nil, err
	}
	t := vspec.Fn[*RouteConfigResource]("table", rc.GetVirtualHosts())
	vspec.Assume("contract of unmarshalRouteConfig (VC_C11_routeConfig)", t != nil)
	return t, nil
}

func specRDSBad(a *anypb.Any) bool {
	if a.GetTypeUrl() != RouteTypeURL {
		return true
	}
	rc, ok := vspec.Decode[v3routepb.RouteConfiguration](a.GetValue())
	return !ok || vspec.Fn[error]("tableErr", rc.GetVirtualHosts()) != nil
}

func specRDSFor(a *anypb.Any, name string) bool {
	rc, _ := vspec.Decode[v3routepb.RouteConfiguration](a.GetValue())
	return !specRDSBad(a) && rc.GetName() == name
}

func specRDSTable(a *anypb.Any) *RouteConfigResource {
	rc, _ := vspec.Decode[v3routepb.RouteConfiguration](a.GetValue())
	return vspec.Fn[*RouteConfigResource]("table", rc.GetVirtualHosts())
}

func invRDSErr(own int, raw []*anypb.Any, made map[string]error, errs []error) bool {
	return (len(made) == 0 && len(errs) == 0) == vspec.Forall(0, own, func(k int) bool { return k >= len(raw) || !specRDSBad(raw[k]) })
}

func invRDS(own int, raw []*anypb.Any, made map[string]Resource) bool {
	r, in := made[vcHKey]
	if in != vspec.Exists(0, own, func(k int) bool { return k < len(raw) && specRDSFor(raw[k], vcHKey) }) {
		return false
	}
	if vcK < 0 || vcK >= own || vcK >= len(raw) || !specRDSFor(raw[vcK], vcHKey) {
		return true
	}
	t, ok := r.(*RouteConfigResource)
	return vspec.Exists(vcK+1, own, func(k int) bool { return k < len(raw) && specRDSFor(raw[k], vcHKey) }) || ok && t == specRDSTable(raw[vcK])
}

//govc:prop C11 C13
//govc:use modelRouteConfig = github.com/kitex-contrib/xds/core/xdsresource.unmarshalRouteConfig
//govc:loops invErrSlice invErrMap invRDSErr invRDS
func VC_C11_rds(raw []*anypb.Any, k int, name string) {
	vspec.Assume("decoded messages have no nil elements", vspec.Forall(0, len(raw), func(i int) bool { return raw[i] != nil }))
	vcK, vcHKey = k, name
	ret, err := UnmarshalRDS(raw)
	vspec.Ensures("C11 C13", "an error exactly when some resource is bad", (err == nil) == vspec.Forall(0, len(raw), func(i int) bool { return !specRDSBad(raw[i]) }))
	if err != nil {
		return
	}
	r, in := ret[name]
	vspec.Ensures("C11", "keyed by their own names, none lost", in == vspec.Exists(0, len(raw), func(i int) bool { return specRDSFor(raw[i], name) }))
	if k < 0 || k >= len(raw) || !specRDSFor(raw[k], name) || vspec.Exists(k+1, len(raw), func(i int) bool { return specRDSFor(raw[i], name) }) {
		return
	}
	t, ok := r.(*RouteConfigResource)
	vspec.Ensures("C11", "the table of the resource with the name", ok && t == specRDSTable(raw[k]))
}
