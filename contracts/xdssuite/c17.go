package xdssuite

import (
	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/retry"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"
)

// ---- retry policies
//
// Installed policies are observed pointwise at vcRKey, an arbitrary policy key chosen before the update. What the
// tables in force derive is the least relation closed under the rules of specRetryRules; the contracts are proved
// for every relation closed under them.

var (
	vcRKey   string
	vcRIn    bool // a policy is installed under vcRKey
	vcRWas   bool // ... before the update
	vcRSound bool // and it is derived from a table in force
	vcRRes   map[string]xdsresource.Resource

	// an arbitrary reference to a cluster: table, virtual host, route, cluster and, when vcOM >= 0, method
	vcOTab                 *xdsresource.RouteConfigResource
	vcOVH                  *xdsresource.VirtualHost
	vcORt                  *xdsresource.Route
	vcOName                string
	vcOI, vcOJ, vcOC, vcOM int
)

type specBackOff struct {
	typ                    retry.BackOffType
	hasFix, hasMin, hasMax bool
	fix, min, max          float64
}

func specDerives(key string, attempts int, totalMS uint32, rate float64, b specBackOff) bool {
	return vspec.Fn[bool]("retry-derives", key, attempts, totalMS, rate, b.typ, b.hasFix, b.hasMin, b.hasMax, b.fix, b.min, b.max)
}

func specDerivesKey(key string) bool { return vspec.Fn[bool]("retry-key", key) }

func specRouteBackOff(o *xdsresource.RetryBackOff) specBackOff {
	zero := vspec.Fn[float64]("no-item")
	if o == nil {
		return specBackOff{typ: retry.NoneBackOffType, fix: zero, min: zero, max: zero}
	}
	if o.MaxInterval > o.BaseInterval {
		return specBackOff{typ: retry.RandomBackOffType, hasMin: true, hasMax: true, fix: zero, min: float64(o.BaseInterval.Milliseconds()), max: float64(o.MaxInterval.Milliseconds())}
	}
	return specBackOff{typ: retry.FixedBackOffType, hasFix: true, fix: float64(o.BaseInterval.Milliseconds()), min: zero, max: zero}
}

func specPolicyBackOff(o *retry.BackOffPolicy) specBackOff {
	zero := vspec.Fn[float64]("no-item")
	b := specBackOff{typ: o.BackOffType, fix: zero, min: zero, max: zero}
	if v, ok := o.CfgItems[retry.FixMSBackOffCfgKey]; ok {
		b.hasFix, b.fix = true, v
	}
	if v, ok := o.CfgItems[retry.MinMSBackOffCfgKey]; ok {
		b.hasMin, b.min = true, v
	}
	if v, ok := o.CfgItems[retry.MaxMSBackOffCfgKey]; ok {
		b.hasMax, b.max = true, v
	}
	return b
}

// the policy a route configures for the destination key
func specRouteDerives(key string, rt *xdsresource.Route) bool {
	p := rt.RetryPolicy
	return specDerivesKey(key) && specDerives(key, p.NumRetries, uint32(p.PerTryTimeout.Milliseconds())*uint32(p.NumRetries), p.CBErrorRate, specRouteBackOff(p.RetryBackOff))
}

// the objects of the tables in force (published objects are never modified, so the rules are stated per object)
func specTableIn(t *xdsresource.RouteConfigResource) bool {
	return vspec.Fn[bool]("table-in-force", t)
}
func specHostIn(v *xdsresource.VirtualHost) bool { return vspec.Fn[bool]("host-in-force", v) }
func specRouteIn(r *xdsresource.Route) bool      { return vspec.Fn[bool]("route-in-force", r) }

func specRetryRules() bool {
	return vspec.All(nil, func(rt *xdsresource.Route) bool {
		return rt == nil || !specRouteIn(rt) || vspec.Forall(0, len(rt.WeightedClusters), func(c int) bool {
			n := rt.WeightedClusters[c].Name
			return specRouteDerives(n, rt) && vspec.Forall(0, len(rt.RetryPolicy.Methods), func(m int) bool {
				return specRouteDerives(n+"|"+rt.RetryPolicy.Methods[m], rt)
			})
		})
	})
}

func specInForce(res map[string]xdsresource.Resource) bool {
	return vspec.All(nil, func(k string) bool {
		t, ok := res[k].(*xdsresource.RouteConfigResource)
		return !ok || specTableIn(t)
	}) && vspec.All(nil, func(t *xdsresource.RouteConfigResource) bool {
		return t == nil || !specTableIn(t) || t.HTTPRouteConfig == nil || vspec.Forall(0, len(t.HTTPRouteConfig.VirtualHosts), func(i int) bool {
			return specHostIn(t.HTTPRouteConfig.VirtualHosts[i])
		})
	}) && vspec.All(nil, func(v *xdsresource.VirtualHost) bool {
		return v == nil || !specHostIn(v) || vspec.Forall(0, len(v.Routes), func(j int) bool { return specRouteIn(v.Routes[j]) })
	})
}

// Within the range of the field the 32-bit product is attempts times the per-try timeout.
func VC_C17_duration(ms int64, attempts int) {
	vspec.Requires(0 <= ms && ms < 1<<32 && 0 <= attempts && attempts < 1<<32)
	n := int64(attempts)
	vspec.Requires(ms*n < 1<<32)
	vspec.Ensures("C17", "the total duration is attempts times the per-try timeout", int64(uint32(ms)*uint32(attempts)) == ms*n)
}

//govc:extern (*github.com/cloudwego/kitex/pkg/retry.Container).NotifyPolicyChange
func modelNotifyPolicy(rc *retry.Container, key string, p retry.Policy) {
	if key == vcRKey {
		vcRIn = true
		f := p.FailurePolicy
		vcRSound = p.Enable && p.Type == retry.FailureType && f != nil && !f.RetrySameNode && f.BackOffPolicy != nil &&
			specDerivesKey(key) && specDerives(key, f.StopPolicy.MaxRetryTimes, f.StopPolicy.MaxDurationMS, f.StopPolicy.CBPolicy.ErrorRate, specPolicyBackOff(f.BackOffPolicy))
	}
}

//govc:extern (*github.com/cloudwego/kitex/pkg/retry.Container).DeletePolicy
func modelDeletePolicy(rc *retry.Container, key string) {
	if key == vcRKey {
		vcRIn = false
	}
}

//govc:extern (*github.com/cloudwego/kitex/pkg/retry.Policy).DeepCopy
func modelPolicyDeepCopy(p *retry.Policy) *retry.Policy { return p }

func specRLast(rc *retrySuite) map[string]struct{} {
	m, _ := rc.lastPolicies.Load().(map[string]struct{})
	return m
}

// while the tables are walked: what this run derived for vcRKey is installed, and everything else is as before
func invRThis(made map[string]struct{}) bool {
	_, in := made[vcRKey]
	if in {
		return vcRIn && vcRSound
	}
	return vcRIn == vcRWas
}

func invRGone(last, made map[string]struct{}, seen vspec.Set[string]) bool {
	_, was := last[vcRKey]
	_, in := made[vcRKey]
	if in {
		return vcRIn && vcRSound
	}
	return was == vcRWas && vcRIn == (vcRWas && !seen.Has(vcRKey))
}

func invRLast(last map[string]struct{}) bool {
	_, was := last[vcRKey]
	return was == vcRWas
}

// the objects the loops walk belong to tables in force
func invRInVH(v *xdsresource.VirtualHost) bool { return specHostIn(v) }
func invRInRt(r *xdsresource.Route) bool       { return specRouteIn(r) }

// After an update exactly the derived keys have a policy, and every policy installed is one a route in force derives.
//
//govc:loops invRThis invRLast invRGone invRInVH invRInRt
//govc:seconds 60
func VC_C17_sound(rc *retrySuite, res map[string]xdsresource.Resource, key string) {
	vspec.Requires(rc != nil && rc.Container != nil)
	vcRKey, vcRRes = key, res
	vcRIn, vcRSound = vspec.Any[bool]("in"), vspec.Any[bool]("sound")
	v := rc.lastPolicies.Load()
	_, isMap := v.(map[string]struct{})
	vspec.Requires(v == nil || isMap)
	_, was := specRLast(rc)[key]
	vspec.Requires(vcRIn == was)
	vcRWas = was
	vspec.Assume("published routing objects satisfy the object invariants the decoders establish (C11)", xdsresource.VInvRouting())
	vspec.Assume("published route tables are not nil pointers", vspec.All(nil, func(k string) bool {
		t, ok := res[k].(*xdsresource.RouteConfigResource)
		return !ok || t != nil
	}))
	vspec.Requires(specInForce(res))
	vspec.Requires(specRetryRules())
	updateRetryPolicy(rc, res)
	_, now := specRLast(rc)[key]
	vspec.Ensures("C17", "the installed policies are recorded", vcRIn == now)
	vspec.Ensures("C17", "every installed policy is derived from a table in force", !vcRIn || vcRSound)
}

func specRDone(made map[string]struct{}) bool {
	_, in := made[vcRKey]
	return in && vcRIn
}

func invRTab(made map[string]struct{}, seen vspec.Set[string]) bool {
	return !seen.Has(vcOName) || specRDone(made)
}

func invRVH(made map[string]struct{}, own int, t *xdsresource.RouteConfigResource) bool {
	return t != vcOTab || own <= vcOI || specRDone(made)
}

func invRRt(made map[string]struct{}, own int, v *xdsresource.VirtualHost) bool {
	return v != vcOVH || own <= vcOJ || specRDone(made)
}

func invRCl(made map[string]struct{}, own int, rt *xdsresource.Route) bool {
	return rt != vcORt || own <= vcOC || specRDone(made)
}

func invRMe(made map[string]struct{}, own int, rt *xdsresource.Route, c *xdsresource.WeightedCluster) bool {
	return vcOM < 0 || rt != vcORt || c != rt.WeightedClusters[vcOC] || own <= vcOM || specRDone(made)
}

// done stays done
func keepRDone(made map[string]struct{}) bool { return specRDone(made) }

// Every cluster (and cluster|method) that a table in force references has a policy after the update.
//
//govc:loops invRTab invRVH invRRt invRCl invRMe keepRDone
//govc:seconds 60
func VC_C17_complete(rc *retrySuite, res map[string]xdsresource.Resource, name string, i, j, c, m int) {
	vspec.Requires(rc != nil && rc.Container != nil)
	t, ok := res[name].(*xdsresource.RouteConfigResource)
	vspec.Requires(ok && t != nil && t.HTTPRouteConfig != nil)
	vspec.Assume("published routing objects satisfy the object invariants the decoders establish (C11)", xdsresource.VInvRouting())
	vs := t.HTTPRouteConfig.VirtualHosts
	vspec.Requires(0 <= i && i < len(vs))
	vspec.Requires(0 <= j && j < len(vs[i].Routes))
	rt := vs[i].Routes[j]
	vspec.Requires(0 <= c && c < len(rt.WeightedClusters) && m >= -1 && m < len(rt.RetryPolicy.Methods))
	vcOName, vcOTab, vcOVH, vcORt, vcOI, vcOJ, vcOC, vcOM = name, t, vs[i], rt, i, j, c, m
	vcRKey = rt.WeightedClusters[c].Name
	if m >= 0 {
		vcRKey = vcRKey + "|" + rt.RetryPolicy.Methods[m]
	}
	vcRIn = vspec.Any[bool]("in")
	v := rc.lastPolicies.Load()
	_, isMap := v.(map[string]struct{})
	vspec.Requires(v == nil || isMap)
	vspec.Assume("published route tables are not nil pointers", vspec.All(nil, func(k string) bool {
		t, ok := res[k].(*xdsresource.RouteConfigResource)
		return !ok || t != nil
	}))
	updateRetryPolicy(rc, res)
	vspec.Ensures("C17", "every referenced destination has a policy", vcRIn)
}

var (
	vcRetryRes map[string]xdsresource.Resource
	vcRetrySet *retrySuite
	vcRetryN   int
	vcRetryC   *retry.Container
)

func modelNewRetryContainer(opts ...retry.ContainerOption) *retry.Container {
	c := vspec.Any[*retry.Container]("container")
	vspec.Assume("NewRetryContainer returns a container", c != nil)
	return c
}

func modelWithRetryContainer(c *retry.Container) client.Option {
	vcRetryC = c
	return vspec.Any[client.Option]("opt")
}

func modelUpdateRetryPolicy(rc *retrySuite, res map[string]xdsresource.Resource) {
	vcRetrySet, vcRetryRes = rc, res
	vcRetryN++
}

// A new retry suite registers for route-table updates; what it registers applies every update to the container the
// client uses.
//
//govc:use modelRegister = (github.com/kitex-contrib/xds/xdssuite.XDSResourceManager).RegisterXDSUpdateHandler
//govc:use modelNewRetryContainer = github.com/cloudwego/kitex/pkg/retry.NewRetryContainer
//govc:use modelWithRetryContainer = github.com/cloudwego/kitex/client.WithRetryContainer
//govc:use modelUpdateRetryPolicy = github.com/kitex-contrib/xds/xdssuite.updateRetryPolicy
func VC_C17_wiring(res map[string]xdsresource.Resource, name string) {
	vspec.Requires(xdsResourceManager != nil && xdsResourceManager.manager != nil)
	vcRegN, vcRetryN = 0, 0
	NewRetryPolicy()
	vspec.Ensures("C17", "the suite registers for route-table updates", vcRegN == 1 && vcRegType == xdsresource.RouteConfigType && vcReg != nil)
	vcReg(res)
	vspec.Ensures("C17", "every update is applied to the container the client uses", vcRetryN == 1 && vcRetrySet != nil && vcRetrySet.Container != nil && vcRetrySet.Container == vcRetryC)
	a, ok := vcRetryRes[name]
	b, ok2 := res[name]
	vspec.Ensures("C17", "the update is applied as it is", ok == ok2 && (!ok || a == b))
}
