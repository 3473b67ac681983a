package xdssuite

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/utils"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/rp"
)

// vrWorld fills the manager with what the control plane supplies or withholds; it returns the clusters a call may be
// routed to (nil when routing must fail) and the timeout.
func vrWorld(r *rp.R, m *vrManager) ([]string, time.Duration, string) {
	m.reset()
	lt, rt := xdsresource.ListenerType, xdsresource.RouteConfigType
	var clusters []string
	to := time.Duration(r.Intn(5000)) * time.Millisecond
	switch r.Intn(6) {
	case 0:
		to = 0
	case 1:
		to = rp.Pick(r, 1, 999*time.Microsecond, 1500*time.Microsecond, 24*time.Hour)
	}
	route := &xdsresource.Route{Match: &xdsresource.HTTPRouteMatch{Prefix: "/"}, Timeout: to}
	kind := r.Intn(5)
	switch kind {
	case 0:
	case 1:
		route.WeightedClusters = []*xdsresource.WeightedCluster{{Name: "c1", Weight: uint32(r.Intn(2))}}
		clusters = []string{"c1"}
	case 2:
		route.WeightedClusters = []*xdsresource.WeightedCluster{{Name: "c1", Weight: 0}, {Name: "c2", Weight: 0}}
	default:
		route.WeightedClusters = []*xdsresource.WeightedCluster{{Name: "c1", Weight: 1}, {Name: "c2", Weight: 3}, {Name: "c3"}}
		clusters = []string{"c1", "c2"}
	}
	table := &xdsresource.RouteConfigResource{HTTPRouteConfig: &xdsresource.HTTPRouteConfig{VirtualHosts: []*xdsresource.VirtualHost{{Routes: []*xdsresource.Route{route}}}}}
	f := &xdsresource.NetworkFilter{FilterType: xdsresource.NetworkFilterTypeHTTP, RouteConfigName: "t"}
	lis := &xdsresource.ListenerResource{NetworkFilters: []*xdsresource.NetworkFilter{f}}
	m.set(lt, "dest", lis)
	what := r.Intn(18)
	ok := false
	switch what {
	case 0, 1, 2, 3:
		m.set(rt, "t", table)
		ok = true
	case 4, 5:
		f.InlineRouteConfig = table
		ok = true
	case 6:
		m.set(rt, "t", errors.New("timeout"))
	case 7:
		m.set(lt, "dest", errors.New("timeout"))
	case 8:
		m.set(lt, "dest", nil)
	case 9:
		m.set(lt, "dest", (*xdsresource.ListenerResource)(nil))
	case 10:
		m.set(lt, "dest", table)
	case 11:
		lis.NetworkFilters = nil
		m.set(rt, "t", table)
	case 12:
		m.set(rt, "t", nil)
	case 13:
		m.set(rt, "t", (*xdsresource.RouteConfigResource)(nil))
	case 14:
		m.set(rt, "t", lis)
	case 15:
		m.set(rt, "t", &xdsresource.RouteConfigResource{})
	case 16:
		route.Match = &xdsresource.HTTPRouteMatch{Path: "/none"}
		m.set(rt, "t", table)
	case 17:
		table.HTTPRouteConfig.VirtualHosts = nil
		m.set(rt, "t", table)
	}
	if !ok {
		clusters = nil
	}
	return clusters, to, fmt.Sprintf("scenario %d/%d", what, kind)
}

// The routing middleware: decides once, fails closed.
func TestReplay_C15_middleware(t *testing.T) {
	r := rp.New(t)
	m := vrInstall()
	for k := 0; k < r.N(4000) && !r.Failed(); k++ {
		r.Case()
		clusters, timeout, desc := vrWorld(r, m)
		mw := NewXDSRouterMiddleware(vrMeta())
		calls := 0
		var ri rpcinfo.RPCInfo
		req, resp := new(int), new(int)
		nextErr := rp.Pick[error](r, nil, errors.New("next failed"), kerrors.ErrRPCTimeout)
		var seenTag string
		var seenTo time.Duration
		ep := mw(func(ctx context.Context, rq, rs interface{}) error {
			calls++
			if rpcinfo.GetRPCInfo(ctx) != ri || rq != interface{}(req) || rs != interface{}(resp) {
				r.Fail("%s: the call is not passed on as it is", desc)
			}
			seenTag, _ = ri.To().Tag(RouterClusterKey)
			seenTo = ri.Config().RPCTimeout()
			return nextErr
		})
		_, to := vrCall("p", "s", "m", "dest", "m", false)
		decided := r.Chance(25)
		if decided {
			_ = to.SetTag(RouterClusterKey, rp.Pick(r, "already", ""))
		}
		nilDest := !decided && r.Chance(5)
		old := time.Duration(r.Intn(3)) * time.Second
		cfg := rpcinfo.NewRPCConfig()
		_ = rpcinfo.AsMutableRPCConfig(cfg).SetRPCTimeout(old)
		if nilDest {
			ri = rpcinfo.NewRPCInfo(nil, nil, rpcinfo.NewInvocation("s", "m", "p"), cfg, nil)
		} else {
			ri = rpcinfo.NewRPCInfo(nil, to, rpcinfo.NewInvocation("s", "m", "p"), cfg, nil)
		}
		before, _ := to.Tag(RouterClusterKey)
		ctx := rpcinfo.NewCtxWithRPCInfo(vrCtx(nil), ri)
		r.Guard(desc, func() {
			err := ep(ctx, req, resp)
			tag, has := to.Tag(RouterClusterKey)
			switch {
			case nilDest:
				if err == nil || calls != 0 {
					r.Fail("%s: no destination, err=%v calls=%d", desc, err, calls)
				}
			case decided:
				if calls != 1 || err != nextErr || tag != before || seenTo != old || len(m.gets) != 0 {
					r.Fail("%s: decided destination %q: calls=%d err=%v tag=%q timeout=%v lookups=%v", desc, before, calls, err, tag, seenTo, m.gets)
				}
			case clusters == nil:
				if calls != 0 || err == nil || !errors.Is(err, kerrors.ErrRoute) {
					r.Fail("%s: routing fails, calls=%d err=%v", desc, calls, err)
				}
				if has || ri.Config().RPCTimeout() != old {
					r.Fail("%s: routing fails but tag=%q timeout=%v", desc, tag, ri.Config().RPCTimeout())
				}
			default:
				if calls != 1 || err != nextErr {
					r.Fail("%s: calls=%d err=%v", desc, calls, err)
					return
				}
				ok := false
				for _, c := range clusters {
					ok = ok || c == seenTag
				}
				if !ok || seenTo != timeout {
					r.Fail("%s: tag %q (want one of %v) timeout %v (want %v)", desc, seenTag, clusters, seenTo, timeout)
				}
				_ = to.SetTag(RouterClusterKey, "changed")
				if now, _ := to.Tag(RouterClusterKey); now != seenTag {
					r.Fail("%s: the destination is not locked", desc)
				}
			}
		})
	}
}

// The retry key computation: same routing, never panics, decides once.
func TestReplay_C15_retrykey(t *testing.T) {
	r := rp.New(t)
	m := vrInstall()
	for k := 0; k < r.N(3000) && !r.Failed(); k++ {
		r.Case()
		clusters, timeout, desc := vrWorld(r, m)
		match := r.Chance(50)
		opts := &client.Options{}
		r.Guard(desc, func() {
			NewRetryPolicy(vrMeta(), WithMatchRetryMethod(match)).F(opts, &utils.Slice{})
			var ri rpcinfo.RPCInfo
			var to interface {
				Tag(string) (string, bool)
				SetTag(string, string) error
			}
			x, rem := vrCall("p", "s", "m", "dest", "m", false)
			ri, to = x, rem
			old := ri.Config().RPCTimeout()
			decided := r.Chance(25)
			if decided {
				_ = to.SetTag(RouterClusterKey, "already")
			}
			call := func(ctx context.Context, _ retry.Retryer) (rpcinfo.RPCInfo, interface{}, error) { return ri, nil, nil }
			if r.Chance(5) {
				_, _, _ = opts.RetryContainer.WithRetryIfNeeded(vrCtx(nil), nil, call, nil, nil)
				return
			}
			_, _, _ = opts.RetryContainer.WithRetryIfNeeded(vrCtx(nil), nil, call, ri, nil)
			tag, has := to.Tag(RouterClusterKey)
			switch {
			case decided:
				if tag != "already" || ri.Config().RPCTimeout() != old || len(m.gets) != 0 {
					r.Fail("%s: decided destination changed: %q %v lookups=%v", desc, tag, ri.Config().RPCTimeout(), m.gets)
				}
			case clusters == nil:
				if has || ri.Config().RPCTimeout() != old {
					r.Fail("%s: routing fails but tag=%q timeout=%v", desc, tag, ri.Config().RPCTimeout())
				}
			default:
				ok := false
				for _, c := range clusters {
					ok = ok || c == tag
				}
				if !ok || ri.Config().RPCTimeout() != timeout {
					r.Fail("%s: tag %q (want one of %v) timeout %v (want %v)", desc, tag, clusters, ri.Config().RPCTimeout(), timeout)
				}
				_ = to.SetTag(RouterClusterKey, "changed")
				if now, _ := to.Tag(RouterClusterKey); now != tag {
					r.Fail("%s: the destination is not locked", desc)
				}
			}
		})
	}
}

// The resolver never panics.
func TestReplay_C15_resolver(t *testing.T) {
	r := rp.New(t)
	m := vrInstall()
	ct, et := xdsresource.ClusterType, xdsresource.EndpointsType
	cs := []interface{}{nil, (*xdsresource.ClusterResource)(nil), errors.New("x"), &xdsresource.EndpointsResource{}, &xdsresource.ClusterResource{}, &xdsresource.ClusterResource{EndpointName: "e"},
		&xdsresource.ClusterResource{InlineEndpoints: &xdsresource.EndpointsResource{}}, &xdsresource.ClusterResource{InlineEndpoints: &xdsresource.EndpointsResource{Localities: []*xdsresource.Locality{{}}}}}
	es := []interface{}{nil, (*xdsresource.EndpointsResource)(nil), errors.New("x"), &xdsresource.ClusterResource{}, &xdsresource.EndpointsResource{}, &xdsresource.EndpointsResource{Localities: []*xdsresource.Locality{{}, {}}}}
	for i, c := range cs {
		for j, e := range es {
			r.Case()
			m.reset()
			m.set(ct, "c", c)
			m.set(et, "e", e)
			m.set(et, "", e)
			r.Guard(fmt.Sprintf("Resolve with cluster case %d endpoints case %d", i, j), func() {
				if res, err := NewXDSResolver().Resolve(context.Background(), "c"); err == nil {
					r.Fail("cluster case %d endpoints case %d: empty success %+v", i, j, res)
				}
			})
		}
	}
}
