package xdssuite

import (
	"context"
	"time"

	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"

	"github.com/kitex-contrib/xds/vspec"
)

// The state of one call: the destination tag and its lock, the timeout, and whether the call was passed on.
var (
	vcTag     string
	vcTagOK   bool
	vcLocked  bool
	vcTO      time.Duration
	vcTOSet   bool
	vcChanges int
	vcNext    int
	vcNextOK  bool
	vcRouted  *RouteResult
	vcRouteEr error
	vcRouteN  int
	vcCause   error
	vcBasic   interface{}
	vcWrapped error
)

func modelTag(e rpcinfo.EndpointInfo, key string) (string, bool) {
	if key == RouterClusterKey {
		return vcTag, vcTagOK
	}
	return vspec.Fn[string]("tag", e, key), vspec.Fn[bool]("tagok", e, key)
}

func modelSetTag(r remoteinfo.RemoteInfo, key, val string) error {
	vcChanges++
	if key == RouterClusterKey {
		if vcLocked {
			return vspec.Fn[error]("locked")
		}
		vcTag, vcTagOK = val, true
	}
	return nil
}

func modelForceSetTag(r remoteinfo.RemoteInfo, key, val string) {
	vcChanges++
	if key == RouterClusterKey {
		vcTag, vcTagOK = val, true
	}
}

func modelSetTagLock(r remoteinfo.RemoteInfo, key string) {
	vcChanges++
	if key == RouterClusterKey {
		vcLocked = true
	}
}

// A client call's destination is a RemoteInfo.
func modelAsRemote(e rpcinfo.EndpointInfo) remoteinfo.RemoteInfo {
	r := vspec.Fn[remoteinfo.RemoteInfo]("asremote", e)
	vspec.Assume("the destination of a client call is a RemoteInfo", r != nil)
	return r
}

func modelAsMutable(c rpcinfo.RPCConfig) rpcinfo.MutableRPCConfig {
	r := vspec.Fn[rpcinfo.MutableRPCConfig]("asmutable", c)
	vspec.Assume("the configuration of a client call is mutable", r != nil)
	return r
}

func modelSetTimeout(c rpcinfo.MutableRPCConfig, to time.Duration) error {
	vcChanges++
	vcTO, vcTOSet = to, true
	return nil
}

// Route is under contract in VC_C08_route: a result or an error, never both, never neither.
func modelRoute(r *XDSRouter, ctx context.Context, ri rpcinfo.RPCInfo) (*RouteResult, error) {
	vspec.Ensures("C15", "the router is initialised", r != nil && r.manager != nil && r.opts != nil && r.opts.routerMetaExtractor != nil && ri != nil)
	vcRouteN++
	return vcRouted, vcRouteEr
}

func modelRPCInfo(ctx context.Context) rpcinfo.RPCInfo { return vspec.Fn[rpcinfo.RPCInfo]("ri", ctx) }

func modelWithCause(be error, cause error) error {
	vcCause = cause
	vcBasic = be
	vcWrapped = vspec.Fn[error]("withcause", be, cause)
	vspec.Assume("WithCause returns an error", vcWrapped != nil)
	return vcWrapped
}

func vcReset() {
	vcTag, vcTagOK = vspec.Any[string]("tag"), vspec.Any[bool]("tagged")
	vcLocked = vspec.Any[bool]("locked")
	vspec.Assume("the destination tag is only locked once it is set", !vcLocked || vcTagOK)
	vcTO, vcTOSet, vcChanges, vcNext, vcNextOK, vcRouteN = 0, false, 0, 0, false, 0
	vcCause, vcWrapped, vcBasic = nil, nil, nil
	vcRouted, vcRouteEr = vspec.Any[*RouteResult]("res"), vspec.Any[error]("reserr")
	vspec.Assume("Route returns a result or an error (VC_C08_route)", (vcRouted == nil) == (vcRouteEr != nil))
}

// The routing step: an undecided call is routed, tagged, locked and given the route's timeout before it is passed
// on exactly once; a decided one is passed on unchanged; an error is a routing error and nothing is passed on.
//
//govc:use modelTag = (github.com/cloudwego/kitex/pkg/rpcinfo.EndpointInfo).Tag
//govc:use modelSetTag = (github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo.RemoteInfo).SetTag
//govc:use modelForceSetTag = (github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo.RemoteInfo).ForceSetTag
//govc:use modelSetTagLock = (github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo.RemoteInfo).SetTagLock
//govc:use modelAsRemote = github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo.AsRemoteInfo
//govc:use modelAsMutable = github.com/cloudwego/kitex/pkg/rpcinfo.AsMutableRPCConfig
//govc:use modelSetTimeout = (github.com/cloudwego/kitex/pkg/rpcinfo.MutableRPCConfig).SetRPCTimeout
//govc:use modelRoute = (*github.com/kitex-contrib/xds/xdssuite.XDSRouter).Route
//govc:use modelRPCInfo = github.com/cloudwego/kitex/pkg/rpcinfo.GetRPCInfo
//govc:use modelWithCause = (*github.com/cloudwego/kitex/pkg/kerrors.basicError).WithCause
func VC_C15_middleware(ctx context.Context, req, resp interface{}) {
	vspec.Requires(xdsResourceManager != nil && xdsResourceManager.manager != nil)
	vspec.Requires(kerrors.ErrRoute != nil && kerrors.ErrNoDestService != nil)
	mw := NewXDSRouterMiddleware()
	ri := modelRPCInfo(ctx)
	vspec.Requires(ri != nil && ri.Config() != nil)
	dest := ri.To()
	vcReset()
	tag0, tagged0, locked0 := vcTag, vcTagOK, vcLocked
	nextErr := vspec.Any[error]("nexterr")
	var next endpoint.Endpoint = func(c context.Context, a, b interface{}) error {
		vcNext++
		vcNextOK = c == ctx && a == req && b == resp && vcTagOK && (tagged0 || vcLocked && vcTag == vcRouted.ClusterPicked && vcTOSet && vcTO == vcRouted.RPCTimeout)
		return nextErr
	}
	err := mw(next)(ctx, req, resp)
	switch {
	case dest == nil:
		vspec.Ensures("C15", "no destination: an error, the call is not passed on", err != nil && vcNext == 0)
	case tagged0:
		vspec.Ensures("C15", "a decided call is passed on once", vcNext == 1 && vcNextOK && err == nextErr)
		vspec.Ensures("C15", "a decided call is not changed", vcChanges == 0 && vcTag == tag0 && vcTagOK == tagged0 && vcLocked == locked0 && !vcTOSet)
	case vcRouteEr != nil:
		vspec.Ensures("C15", "a failing route is an error", err != nil)
		vspec.Ensures("C15", "a failing route is a routing error", err == vcWrapped)
		vspec.Ensures("C15", "a failing route is a routing error (kind)", vcBasic == interface{}(kerrors.ErrRoute))
		vspec.Ensures("C15", "a failing route is not passed on", vcNext == 0 && !vcTagOK)
	default:
		vspec.Ensures("C15", "a routed call is passed on exactly once", vcNext == 1 && err == nextErr)
		vspec.Ensures("C15", "destination, lock and timeout are set before the call is passed on", vcNextOK)
		vspec.Ensures("C15", "destination, lock and timeout stay", vcTagOK && vcLocked && vcTag == vcRouted.ClusterPicked && vcTOSet && vcTO == vcRouted.RPCTimeout)
	}
}

// The retry key: the same decision when it is consulted first; never panics.
//
//govc:use modelTag = (github.com/cloudwego/kitex/pkg/rpcinfo.EndpointInfo).Tag
//govc:use modelSetTag = (github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo.RemoteInfo).SetTag
//govc:use modelForceSetTag = (github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo.RemoteInfo).ForceSetTag
//govc:use modelSetTagLock = (github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo.RemoteInfo).SetTagLock
//govc:use modelAsRemote = github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo.AsRemoteInfo
//govc:use modelAsMutable = github.com/cloudwego/kitex/pkg/rpcinfo.AsMutableRPCConfig
//govc:use modelSetTimeout = (github.com/cloudwego/kitex/pkg/rpcinfo.MutableRPCConfig).SetRPCTimeout
//govc:use modelRoute = (*github.com/kitex-contrib/xds/xdssuite.XDSRouter).Route
func VC_C15_retrykey(rs *retrySuite, ctx context.Context, ri rpcinfo.RPCInfo) {
	vspec.Requires(rs != nil && rs.router != nil && rs.router.manager != nil && rs.router.opts != nil && rs.router.opts.routerMetaExtractor != nil)
	vcReset()
	tag0, tagged0, locked0 := vcTag, vcTagOK, vcLocked
	key := rs.genRetryServiceKey(ctx, ri)
	switch {
	case ri == nil || ri.To() == nil:
		vspec.Ensures("C15", "no call information: no retry key", key == "" && vcChanges == 0)
	case tagged0:
		vspec.Ensures("C15", "a decided call keeps its decision", key == tag0 && vcChanges == 0 && vcTag == tag0 && vcLocked == locked0 && vcTagOK)
	case vcRouteEr != nil:
		vspec.Ensures("C15", "a failing route leaves the call undecided", key == "" && !vcTagOK && !vcTOSet)
	default:
		vspec.Ensures("C15", "the retry key decides the call", vcTagOK && vcLocked && vcTag == vcRouted.ClusterPicked && vcTOSet && vcTO == vcRouted.RPCTimeout)
	}
}

// A router and a resolver can be built once the manager is set.
func VC_C15_build() {
	vspec.Requires(xdsResourceManager != nil && xdsResourceManager.manager != nil)
	r := NewXDSRouter()
	vspec.Ensures("C15", "the router uses the manager", r != nil && r.manager == xdsResourceManager.manager && r.opts != nil && r.opts.routerMetaExtractor != nil)
	v := NewXDSResolver()
	vspec.Ensures("C15", "the resolver uses the manager", v != nil && v.manager == xdsResourceManager.manager)
}
