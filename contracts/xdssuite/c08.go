package xdssuite

import (
	"context"

	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/transport"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"
)

// What the resource manager answers: some value and some error for every kind and name. Nothing is
// assumed: the value may be missing or of another kind even when there is no error.
//
//govc:extern (github.com/kitex-contrib/xds/xdssuite.XDSResourceManager).Get
func modelGet(m XDSResourceManager, ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error) {
	return specRes(rt, name), specResErr(rt, name)
}

func specRes(rt xdsresource.ResourceType, name string) interface{} {
	return vspec.Fn[interface{}]("res", int(rt), name)
}

func specResErr(rt xdsresource.ResourceType, name string) error {
	return vspec.Fn[error]("reserr", int(rt), name)
}

// The conditions of one route are under contract in core/xdsresource (VC_C08_http, VC_C08_thrift).
//
//govc:extern (github.com/kitex-contrib/xds/core/xdsresource.RouteMatch).MatchPath
func modelMatchPath(m xdsresource.RouteMatch, path string) bool {
	return vspec.Fn[bool]("matchpath", m, path)
}

//govc:extern (github.com/kitex-contrib/xds/core/xdsresource.RouteMatch).MatchMeta
func modelMatchMeta(m xdsresource.RouteMatch, md map[string]string) bool {
	return vspec.Fn[bool]("matchmeta", m, md)
}

var (
	vcPath   string
	vcMethod string
	vcMD     map[string]string
	vcUp     bool
)

//govc:extern func:func(context.Context) map[string]string
func modelExtract(ctx context.Context) map[string]string {
	vcUp = true
	return vcMD
}

//govc:extern github.com/bytedance/gopkg/cloud/metainfo.GetAllValues
func modelAllValues(ctx context.Context) map[string]string {
	return vcMD
}

func specHit(r *xdsresource.Route, path string) bool {
	return r.Match != nil && vspec.Fn[bool]("matchpath", r.Match, path) && vspec.Fn[bool]("matchmeta", r.Match, vcMD)
}

// The first route, from index i on, whose conditions hold.
//
//govc:rec
func specFirst(rs []*xdsresource.Route, path string, i int) *xdsresource.Route {
	if i >= len(rs) {
		return nil
	}
	if specHit(rs[i], path) {
		return rs[i]
	}
	return specFirst(rs, path, i+1)
}

// The first route of the first virtual host, from index i on, that has one.
//
//govc:rec
func specFirstVH(vs []*xdsresource.VirtualHost, path string, i int) *xdsresource.Route {
	if i >= len(vs) {
		return nil
	}
	if r := specFirst(vs[i].Routes, path, 0); r != nil {
		return r
	}
	return specFirstVH(vs, path, i+1)
}

// The last filter of the given type among the first i.
//
//govc:rec
func specFilter(fs []*xdsresource.NetworkFilter, t xdsresource.NetworkFilterType, i int) *xdsresource.NetworkFilter {
	if i <= 0 {
		return nil
	}
	if fs[i-1].FilterType == t {
		return fs[i-1]
	}
	return specFilter(fs, t, i-1)
}

func invFirst(rs []*xdsresource.Route, i int) bool {
	return specFirst(rs, vcPath, i) == specFirst(rs, vcPath, 0) && 0 <= i && i <= len(rs)
}

func invFirstThrift(rs []*xdsresource.Route, i int) bool {
	return specFirst(rs, vcMethod, i) == specFirst(rs, vcMethod, 0) && 0 <= i && i <= len(rs)
}

func invFirstVH(vs []*xdsresource.VirtualHost, i int) bool {
	return specFirstVH(vs, vcPath, i) == specFirstVH(vs, vcPath, 0) && 0 <= i && i <= len(vs)
}

func invFilterHTTP(fs []*xdsresource.NetworkFilter, i int, f *xdsresource.NetworkFilter) bool {
	return f == specFilter(fs, xdsresource.NetworkFilterTypeHTTP, i)
}

func invFilterThrift(fs []*xdsresource.NetworkFilter, i int, f *xdsresource.NetworkFilter) bool {
	return f == specFilter(fs, xdsresource.NetworkFilterTypeThrift, i)
}

func specHTTPRoute(c *xdsresource.RouteConfigResource) *xdsresource.Route {
	if c == nil || c.HTTPRouteConfig == nil {
		return nil
	}
	return specFirstVH(c.HTTPRouteConfig.VirtualHosts, vcPath, 0)
}

func specThriftRoute(c *xdsresource.RouteConfigResource) *xdsresource.Route {
	if c == nil || c.ThriftRouteConfig == nil {
		return nil
	}
	return specFirst(c.ThriftRouteConfig.Routes, vcMethod, 0)
}

// The route the control plane's configuration designates for the call, nil when there is none.
func specRoute(ln string, grpc bool) *xdsresource.Route {
	if specResErr(xdsresource.ListenerType, ln) != nil {
		return nil
	}
	l, ok := specRes(xdsresource.ListenerType, ln).(*xdsresource.ListenerResource)
	if !ok || l == nil {
		return nil
	}
	hf := specFilter(l.NetworkFilters, xdsresource.NetworkFilterTypeHTTP, len(l.NetworkFilters))
	tf := specFilter(l.NetworkFilters, xdsresource.NetworkFilterTypeThrift, len(l.NetworkFilters))
	if !grpc && tf != nil {
		if r := specThriftRoute(tf.InlineRouteConfig); r != nil {
			return r
		}
	}
	if hf == nil {
		return nil
	}
	if r := specHTTPRoute(hf.InlineRouteConfig); r != nil {
		return r
	}
	if specResErr(xdsresource.RouteConfigType, hf.RouteConfigName) != nil {
		return nil
	}
	c, ok := specRes(xdsresource.RouteConfigType, hf.RouteConfigName).(*xdsresource.RouteConfigResource)
	if !ok {
		return nil
	}
	return specHTTPRoute(c)
}

var vcPicked *xdsresource.Route

// pickCluster is under contract in VC_C09_*; here only which route it is given, and that it answers a name or an error.
func modelPick(route *xdsresource.Route) (string, error) {
	vspec.Ensures("C15", "a cluster is only picked from a route", route != nil)
	vcPicked = route
	return vspec.Fn[string]("picked", route), vspec.Fn[error]("pickederr", route)
}

// Route: the route used is the designated one; no route, or a failing selection, is an error; the result is the
// picked cluster and the timeout of that route. Exactly one of result and error is present, and nothing panics
// whatever the control plane supplies or withholds.
//
//govc:prop C15 C08
//govc:use modelPick = github.com/kitex-contrib/xds/xdssuite.pickCluster
//govc:loops invFirst invFirstThrift invFirstVH invFilterHTTP invFilterThrift
func VC_C08_route(r *XDSRouter, ctx context.Context, ri rpcinfo.RPCInfo) {
	vspec.Requires(r != nil && r.manager != nil && r.opts != nil && r.opts.routerMetaExtractor != nil)
	vspec.Requires(ri != nil && ri.To() != nil && ri.Invocation() != nil && ri.Config() != nil)
	vspec.Assume("published routing objects satisfy the object invariants the decoders establish (C11)", xdsresource.VInvRouting())
	inv := ri.Invocation()
	if inv.PackageName() == "" {
		vcPath = "/" + inv.ServiceName() + "/" + inv.MethodName()
	} else {
		vcPath = "/" + inv.PackageName() + "." + inv.ServiceName() + "/" + inv.MethodName()
	}
	vcMethod = ri.To().Method()
	vcMD = vspec.Any[map[string]string]("md")
	vcPicked = nil
	want := specRoute(ri.To().ServiceName(), ri.Config().TransportProtocol() == transport.GRPC)
	res, err := r.Route(ctx, ri)
	vspec.Ensures("C08", "no matching route is an error", want != nil || err != nil)
	vspec.Ensures("C08", "the route used is the designated one", err != nil || vcPicked == want)
	vspec.Ensures("C08", "a matching route is used", want == nil || vcPicked == want)
	vspec.Ensures("C08", "the result is the cluster and the timeout of the route", err != nil || res != nil && res.ClusterPicked == vspec.Fn[string]("picked", want) && res.RPCTimeout == want.Timeout)
	vspec.Ensures("C15", "a failing cluster selection is an error", want == nil || vspec.Fn[error]("pickederr", want) == nil || err != nil)
	vspec.Ensures("C15", "a successful cluster selection is not an error", want == nil || vspec.Fn[error]("pickederr", want) != nil || err == nil)
	vspec.Ensures("C15", "a result or an error", (res == nil) == (err != nil))
}
