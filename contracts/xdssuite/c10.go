package xdssuite

import (
	"context"

	"github.com/cloudwego/kitex/pkg/discovery"
	"github.com/cloudwego/kitex/pkg/rpcinfo"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"
)

//govc:extern github.com/cloudwego/kitex/pkg/discovery.NewInstance
func modelNewInstance(network, address string, weight int, tags map[string]string) discovery.Instance {
	return vspec.Fn[discovery.Instance]("instance", network, address, weight, tags)
}

func specInstance(e *xdsresource.Endpoint) discovery.Instance {
	return vspec.Fn[discovery.Instance]("instance", e.Addr().Network(), e.Addr().String(), int(e.Weight()), e.Meta())
}

// Number of endpoints in the first i localities.
//
//govc:rec
func specOff(ls []*xdsresource.Locality, i int) int {
	if i <= 0 {
		return 0
	}
	return specOff(ls, i-1) + len(ls[i-1].Endpoints)
}

func invConcatLen(ls []*xdsresource.Locality, i int, eps []*xdsresource.Endpoint) bool {
	return len(eps) == specOff(ls, i)
}

func invOffRange(ls []*xdsresource.Locality, i int) bool {
	return vspec.Forall(0, i, func(a int) bool {
		return 0 <= specOff(ls, a) && specOff(ls, a)+len(ls[a].Endpoints) <= specOff(ls, i)
	})
}

func invConcat(ls []*xdsresource.Locality, i int, eps []*xdsresource.Endpoint) bool {
	return vspec.Forall(0, i, func(a int) bool {
		return vspec.Forall(0, len(ls[a].Endpoints), func(j int) bool {
			return eps[specOff(ls, a)+j] == ls[a].Endpoints[j]
		})
	})
}

func invNonNil(eps []*xdsresource.Endpoint) bool {
	return vspec.Forall(0, len(eps), func(j int) bool { return eps[j] != nil })
}

func invInstances(eps []*xdsresource.Endpoint, i int, is []discovery.Instance) bool {
	return vspec.Forall(0, i, func(j int) bool { return is[j] == specInstance(eps[j]) })
}

func specAssignment(desc string) *xdsresource.EndpointsResource {
	if specResErr(xdsresource.ClusterType, desc) != nil {
		return nil
	}
	c, ok := specRes(xdsresource.ClusterType, desc).(*xdsresource.ClusterResource)
	if !ok || c == nil {
		return nil
	}
	if c.InlineEndpoints != nil {
		return c.InlineEndpoints
	}
	if specResErr(xdsresource.EndpointsType, c.EndpointName) != nil {
		return nil
	}
	e, ok := specRes(xdsresource.EndpointsType, c.EndpointName).(*xdsresource.EndpointsResource)
	if !ok {
		return nil
	}
	return e
}

// Resolve: the endpoints of the cluster's load assignment, localities concatenated in order; an error when there
// is none; cacheable under the cluster name. Never panics whatever the control plane supplies or withholds.
//
//govc:prop C10 C15
//govc:loops invConcatLen invOffRange invConcat invNonNil invInstances
func VC_C10_resolve(r *XDSResolver, ctx context.Context, desc string) {
	vspec.Requires(r != nil && r.manager != nil)
	vspec.Assume("published endpoint objects satisfy the object invariants the decoders establish (C12)", xdsresource.VInvCluster())
	want := specAssignment(desc)
	res, err := r.Resolve(ctx, desc)
	if want == nil || len(want.Localities) == 0 {
		vspec.Ensures("C10", "no load assignment is an error", err != nil)
		return
	}
	ls := want.Localities
	n := len(ls)
	total := specOff(ls, n)
	vspec.Ensures("C10", "a load assignment without endpoints is an error", total != 0 || err != nil)
	vspec.Ensures("C10", "a load assignment with endpoints is not an error", total == 0 || err == nil)
	vspec.Ensures("C10", "as many instances as endpoints", err != nil || len(res.Instances) == total)
	vspec.Ensures("C10", "cacheable under the cluster name", err != nil || res.Cacheable && res.CacheKey == desc)
	vspec.Ensures("C10", "address, weight and tags of every endpoint, localities in order", err != nil || vspec.Forall(0, n, func(a int) bool {
		return vspec.Forall(0, len(ls[a].Endpoints), func(j int) bool {
			return res.Instances[specOff(ls, a)+j] == specInstance(ls[a].Endpoints[j])
		})
	}))
}

// Target is the routed cluster.
func VC_C10_target(r *XDSResolver, ctx context.Context, t rpcinfo.EndpointInfo) {
	vspec.Requires(r != nil && t != nil)
	d, ok := t.Tag(RouterClusterKey)
	vspec.Ensures("C10", "the target is the routed cluster", !ok || r.Target(ctx, t) == d)
}
