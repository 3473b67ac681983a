package xdssuite

import (
	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/rpcinfo"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"
)

// The configuration of the breaker suite, per destination: what UpdateServiceCBConfig last stored.
var vcCB map[string]circuitbreak.CBConfig

//govc:extern (*github.com/cloudwego/kitex/pkg/circuitbreak.CBSuite).UpdateServiceCBConfig
func modelUpdateCB(s *circuitbreak.CBSuite, key string, cfg circuitbreak.CBConfig) {
	vcCB[key] = cfg
}

// The cluster's outlier detection, nil when it configures nothing.
func specOutlier(res map[string]xdsresource.Resource, k string) *xdsresource.OutlierDetection {
	v, ok := res[k]
	if !ok {
		return nil
	}
	c, ok := v.(*xdsresource.ClusterResource)
	if !ok || c == nil {
		return nil
	}
	return c.OutlierDetection
}

func specCB(o *xdsresource.OutlierDetection) circuitbreak.CBConfig {
	if o.FailurePercentageThreshold != 0 && o.FailurePercentageRequestVolume != 0 {
		return circuitbreak.CBConfig{Enable: true, ErrRate: float64(o.FailurePercentageThreshold) / 100, MinSample: int64(o.FailurePercentageRequestVolume)}
	}
	return circuitbreak.CBConfig{}
}

func specSameCB(a, b circuitbreak.CBConfig) bool {
	return a.Enable == b.Enable && (!a.Enable || vspec.Same(a.ErrRate, b.ErrRate) && a.MinSample == b.MinSample)
}

var vcRes map[string]xdsresource.Resource

func invPolicies(ps map[string]circuitbreak.CBConfig, seen vspec.Set[string]) bool {
	return vspec.All(nil, func(k string) bool {
		c, ok := ps[k]
		o := specOutlier(vcRes, k)
		return ok == (seen.Has(k) && o != nil) && (!ok || specSameCB(c, specCB(o)))
	})
}

// what updateCircuitPolicy hands over
var vcHandedN int
var vcHanded map[string]circuitbreak.CBConfig

// One accepted cluster update is turned into exactly the derived configurations.
//
//govc:loops invPolicies
func VC_C16_derive(res map[string]xdsresource.Resource) {
	vspec.Assume("published cluster resources are not nil pointers", vspec.All(nil, func(k string) bool {
		c, ok := res[k].(*xdsresource.ClusterResource)
		return !ok || c != nil
	}))
	vcRes = res
	vcHandedN = 0
	updateCircuitPolicy(res, func(m map[string]circuitbreak.CBConfig) {
		vcHandedN++
		vcHanded = vspec.CopyMap(m)
	})
	vspec.Ensures("C16", "the configurations are handed over once", vcHandedN == 1)
	vspec.Ensures("C16", "exactly the clusters with outlier detection are configured, as derived", vspec.All(nil, func(k string) bool {
		c, ok := vcHanded[k]
		o := specOutlier(res, k)
		return ok == (o != nil) && (!ok || specSameCB(c, specCB(o)))
	}))
}

// the configurations handed over and the state before
var (
	vcCfgs map[string]circuitbreak.CBConfig
	vcOld  map[string]circuitbreak.CBConfig
	vcLast map[string]struct{}
)

// The argument is pointwise: vcK is an arbitrary destination, chosen before the update.
var vcK string

func invApplied(np map[string]struct{}, seen vspec.Set[string]) bool {
	_, in := np[vcK]
	c, ok := vcCfgs[vcK]
	g, has := vcCB[vcK]
	o, had := vcOld[vcK]
	if seen.Has(vcK) {
		return in && ok && has && specSameCB(g, c)
	}
	return !in && has == had && (!has || specSameCB(g, o))
}

func invNP(np map[string]struct{}) bool {
	_, in := np[vcK]
	_, ok := vcCfgs[vcK]
	return in == ok
}

func invDisabled(seen vspec.Set[string]) bool {
	c, ok := vcCfgs[vcK]
	g, has := vcCB[vcK]
	o, had := vcOld[vcK]
	if ok {
		return has && specSameCB(g, c)
	}
	if seen.Has(vcK) {
		return has && !g.Enable
	}
	return has == had && (!has || specSameCB(g, o))
}

func specLast(cb *circuitBreaker) map[string]struct{} {
	m, _ := cb.lastPolicies.Load().(map[string]struct{})
	return m
}

// Invariant of the breaker: a destination that is enabled was configured by the previous update, and what the
// previous update configured the suite knows.
func specInvCB(cb *circuitBreaker, k string) bool {
	l := specLast(cb)
	g, has := vcCB[k]
	_, in := l[k]
	return (!has || !g.Enable || in) && (!in || has)
}

// Applying the configurations of an update: they are in force, every other destination that an earlier update had
// configured is disabled, and no other destination is touched.
//
//govc:loops invApplied invNP invDisabled
func VC_C16_apply(cb *circuitBreaker, cfgs map[string]circuitbreak.CBConfig, k string) {
	vcCB = vspec.CopyMap(vspec.Any[map[string]circuitbreak.CBConfig]("cb"))
	vcK = k
	vspec.Requires(cb != nil && cb.cb != nil && vcCB != nil)
	vspec.Requires(specInvCB(cb, k))
	v := cb.lastPolicies.Load()
	_, isMap := v.(map[string]struct{})
	vspec.Requires(v == nil || isMap)
	vcCfgs = cfgs
	vcOld = vspec.CopyMap(vcCB)
	cb.updateAllCircuitConfigs(cfgs)
	c, ok := cfgs[k]
	g, has := vcCB[k]
	_, had := vcOld[k]
	vspec.Ensures("C16", "the configurations of the latest update are in force", !ok || has && specSameCB(g, c))
	vspec.Ensures("C16", "every other destination is disabled", ok || !has || !g.Enable)
	vspec.Ensures("C16", "no unconfigured destination is touched", ok || has == had)
	vspec.Ensures("C16", "the invariant of the breaker is kept", specInvCB(cb, k))
	_, isMap = cb.lastPolicies.Load().(map[string]struct{})
	vspec.Ensures("C16", "the configured destinations are recorded", isMap)
}

var (
	vcRegN    int
	vcRegType xdsresource.ResourceType
	vcReg     xdsresource.XDSUpdateHandler
	vcSuite   *circuitbreak.CBSuite
	vcBound   *circuitbreak.CBSuite
	vcCBRes   map[string]xdsresource.Resource
	vcCBUpd   func(map[string]circuitbreak.CBConfig)
)

func modelRegister(m XDSResourceManager, rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler) {
	vcRegN++
	vcRegType = rt
	vcReg = h
}

func modelNewCBSuite(f circuitbreak.GenServiceCBKeyFunc, opts ...circuitbreak.CBSuiteOption) *circuitbreak.CBSuite {
	vcSuite = vspec.Any[*circuitbreak.CBSuite]("suite")
	vspec.Assume("NewCBSuite returns a suite", vcSuite != nil)
	return vcSuite
}

func modelWithCircuitBreaker(s *circuitbreak.CBSuite) client.Option {
	vcBound = s
	return vspec.Any[client.Option]("opt")
}

func modelServiceMW(s *circuitbreak.CBSuite) endpoint.Middleware {
	vcBound = s
	return nil
}

func modelWithInstanceMW(mw endpoint.Middleware) client.Option {
	return vspec.Any[client.Option]("opt")
}

// VC_C16_derive is the contract of updateCircuitPolicy; the wiring only has to call it with the update and with
// the update function of the breaker that is bound.
func modelUpdateCircuitPolicy(res map[string]xdsresource.Resource, h func(map[string]circuitbreak.CBConfig)) {
	vcCBRes = res
	h(vcCfgs)
}

func modelUpdateAll(cb *circuitBreaker, m map[string]circuitbreak.CBConfig) {
	vspec.Ensures("C16", "the breaker that is updated is the one the client uses", cb != nil && cb.cb != nil && cb.cb == vcBound)
	vspec.Ensures("C16", "the derived configurations are applied", vspec.All(nil, func(k string) bool {
		a, ok := m[k]
		b, ok2 := vcCfgs[k]
		return ok == ok2 && (!ok || a == b)
	}))
	vcHandedN++
}

// A new breaker registers for cluster updates; what it registers applies every update to the suite the client uses.
//
//govc:use modelRegister = (github.com/kitex-contrib/xds/xdssuite.XDSResourceManager).RegisterXDSUpdateHandler
//govc:use modelNewCBSuite = github.com/cloudwego/kitex/pkg/circuitbreak.NewCBSuite
//govc:use modelWithCircuitBreaker = github.com/cloudwego/kitex/client.WithCircuitBreaker
//govc:use modelServiceMW = (*github.com/cloudwego/kitex/pkg/circuitbreak.CBSuite).ServiceCBMW
//govc:use modelWithInstanceMW = github.com/cloudwego/kitex/client.WithInstanceMW
//govc:use modelUpdateCircuitPolicy = github.com/kitex-contrib/xds/xdssuite.updateCircuitPolicy
//govc:use modelUpdateAll = (*github.com/kitex-contrib/xds/xdssuite.circuitBreaker).updateAllCircuitConfigs
func VC_C16_wiring(service bool, res map[string]xdsresource.Resource) {
	vspec.Requires(xdsResourceManager != nil && xdsResourceManager.manager != nil)
	vcRegN, vcHandedN = 0, 0
	NewCircuitBreaker(WithServiceCircuitBreak(service))
	vspec.Ensures("C16", "the breaker registers for cluster updates", vcRegN == 1 && vcRegType == xdsresource.ClusterType && vcReg != nil)
	vspec.Ensures("C16", "the client uses the breaker", vcBound != nil && vcBound == vcSuite)
	vcReg(res)
	vspec.Ensures("C16", "the update is applied once", vcHandedN == 1)
	vspec.Ensures("C16", "the update is applied as it is", vspec.All(nil, func(k string) bool {
		a, ok := vcCBRes[k]
		b, ok2 := res[k]
		return ok == ok2 && (!ok || a == b)
	}))
}

// The breaker's key of a call is its routed cluster.
func VC_C16_key(ri rpcinfo.RPCInfo) {
	vspec.Requires(ri == nil || ri.To() != nil)
	k := genCBServiceKey(ri)
	if ri == nil {
		vspec.Ensures("C16", "no call information, no key", k == "")
		return
	}
	t, ok := ri.To().Tag(RouterClusterKey)
	vspec.Ensures("C16", "the key is the routed cluster", !ok || k == t)
}
