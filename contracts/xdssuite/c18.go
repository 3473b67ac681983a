package xdssuite

import (
	"math"

	"github.com/cloudwego/kitex/pkg/limit"
	"github.com/cloudwego/kitex/server"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"
)

// ---- server rate limit
//
// A filter speaks for a port when it carries an inline table and that port. The filter that decides a port is the
// last HTTP filter speaking for it; without any, the first thrift filter does.

var (
	vcFs []*xdsresource.NetworkFilter
	vcJ  int    // the filter that decides vcPj
	vcPj uint32 // port
	vcPa uint32 // a port no filter speaks for, when vcHasPa
	// (an arbitrary port otherwise)
	vcPb             uint32
	vcHasPj, vcHasPa bool

	vcPushN    int
	vcPushTo   limit.Updater
	vcPushQPS  int
	vcPushConn int
	vcPushOpt  *limit.Option
	vcLimOpt   *limit.Option
)

func specSpeaks(f *xdsresource.NetworkFilter, port uint32) bool {
	return f.InlineRouteConfig != nil && f.RoutePort == port
}

func specDecides(fs []*xdsresource.NetworkFilter, j int, port uint32) bool {
	if !(0 <= j && j < len(fs) && specSpeaks(fs[j], port)) {
		return false
	}
	if fs[j].FilterType != xdsresource.NetworkFilterTypeThrift {
		return vspec.Forall(j+1, len(fs), func(k int) bool {
			return !specSpeaks(fs[k], port) || fs[k].FilterType == xdsresource.NetworkFilterTypeThrift
		})
	}
	return vspec.Forall(0, j, func(k int) bool { return !specSpeaks(fs[k], port) }) &&
		vspec.Forall(0, len(fs), func(k int) bool {
			return !specSpeaks(fs[k], port) || fs[k].FilterType == xdsresource.NetworkFilterTypeThrift
		})
}

func specSilent(fs []*xdsresource.NetworkFilter, port uint32) bool {
	return vspec.Forall(0, len(fs), func(k int) bool { return !specSpeaks(fs[k], port) })
}

func specLimit(tokens uint32) int {
	if tokens == 0 {
		return math.MaxInt
	}
	return int(tokens)
}

//govc:extern (github.com/cloudwego/kitex/pkg/limit.Updater).UpdateLimit
func modelUpdateLimit(u limit.Updater, o *limit.Option) bool {
	vcPushN++
	vcPushTo, vcPushOpt = u, o
	vcPushQPS, vcPushConn = o.MaxQPS, o.MaxConnections
	return vspec.Any[bool]("updated")
}

func invLDecided(made map[uint32]uint32, own int) bool {
	if !vcHasPj {
		return true
	}
	v, in := made[vcPj]
	if own > vcJ {
		return in && v == vcFs[vcJ].InlineRouteConfig.TokensPerFill
	}
	return vcFs[vcJ].FilterType != xdsresource.NetworkFilterTypeThrift || !in
}

func invLSilent(made map[uint32]uint32) bool {
	_, a := made[vcPa]
	_, b := made[vcPb]
	return !vcHasPa || !a && !b
}

// After a listener update the limit is the one of the deciding filter, and a running server is told.
//
//govc:loops invLDecided invLSilent
func VC_C18_update(l *limiter, res map[string]xdsresource.Resource, j int, which int) {
	vspec.Requires(l != nil && l.opt != nil)
	vspec.Assume("published routing objects satisfy the object invariants the decoders establish (C11)", xdsresource.VInvRouting())
	lis, ok := res[xdsresource.ReservedLdsResourceName].(*xdsresource.ListenerResource)
	has := ok && lis != nil
	vcHasPj, vcHasPa = false, false
	if has {
		vcFs = lis.NetworkFilters
	}
	vcJ = j
	want := math.MaxInt
	vspec.Requires(0 <= which && which <= 2)
	switch which {
	case 0: // no inbound listener
		vspec.Requires(!has)
	case 1: // a filter decides the service port
		vspec.Requires(has && specDecides(vcFs, j, l.port))
		vcHasPj, vcPj = true, l.port
		want = specLimit(vcFs[j].InlineRouteConfig.TokensPerFill)
	case 2: // none does; one decides the chain without a port
		vspec.Requires(has && l.port != xdsresource.DefaultServerPort && specSilent(vcFs, l.port) && specDecides(vcFs, j, xdsresource.DefaultServerPort))
		vcHasPj, vcPj = true, xdsresource.DefaultServerPort
		vcHasPa, vcPa, vcPb = true, l.port, l.port
		want = specLimit(vcFs[j].InlineRouteConfig.TokensPerFill)
	}
	u, run := l.updater.Load().(limit.Updater)
	vspec.Requires(l.updater.Load() == nil || run)
	vcPushN = 0
	l.listenerUpdater(res)
	vspec.Ensures("C18", "the limit follows the inbound listener", l.opt.MaxQPS == want)
	vspec.Ensures("C18", "the connection limit is not restricted", l.opt.MaxConnections == math.MaxInt)
	vspec.Ensures("C18", "a running server is told", !run || vcPushN == 1 && vcPushTo == u && vcPushOpt == l.opt && vcPushQPS == want && vcPushConn == math.MaxInt)
	vspec.Ensures("C18", "the server's updater is kept", l.updater.Load() == limit.Updater(nil) == !run && (!run || l.updater.Load() == u))
}

// Neither the service port nor the chain without a port is spoken for: unlimited.
//
//govc:loops invLSilent
func VC_C18_silent(l *limiter, res map[string]xdsresource.Resource) {
	vspec.Requires(l != nil && l.opt != nil)
	vspec.Assume("published routing objects satisfy the object invariants the decoders establish (C11)", xdsresource.VInvRouting())
	lis, ok := res[xdsresource.ReservedLdsResourceName].(*xdsresource.ListenerResource)
	vspec.Requires(ok && lis != nil)
	vspec.Requires(specSilent(lis.NetworkFilters, l.port) && specSilent(lis.NetworkFilters, xdsresource.DefaultServerPort))
	_, run := l.updater.Load().(limit.Updater)
	vspec.Requires(l.updater.Load() == nil || run)
	vcPushN = 0
	vcHasPa, vcPa, vcPb = true, l.port, xdsresource.DefaultServerPort
	l.listenerUpdater(res)
	vspec.Ensures("C18", "no chain speaks for the port: the limit is lifted", l.opt.MaxQPS == math.MaxInt && l.opt.MaxConnections == math.MaxInt)
	vspec.Ensures("C18", "a running server is told", !run || vcPushN == 1 && vcPushQPS == math.MaxInt)
}

func modelWithLimit(o *limit.Option) server.Option {
	vcLimOpt = o
	return vspec.Any[server.Option]("opt")
}

func modelGetLimiterPolicy(up map[string]xdsresource.Resource) map[uint32]uint32 {
	return vspec.Any[map[uint32]uint32]("tokens")
}

// A new limiter registers for listener updates and hands its option to the server; once the server has given its
// updater it is told the current limit and every later one.
//
//govc:use modelRegister = (github.com/kitex-contrib/xds/xdssuite.XDSResourceManager).RegisterXDSUpdateHandler
//govc:use modelWithLimit = github.com/cloudwego/kitex/server.WithLimit
//govc:use modelGetLimiterPolicy = github.com/kitex-contrib/xds/xdssuite.getLimiterPolicy
func VC_C18_wiring(res, res2 map[string]xdsresource.Resource, u limit.Updater, early bool) {
	vspec.Requires(xdsResourceManager != nil && xdsResourceManager.manager != nil && u != nil)
	_, isU := interface{}(u).(limit.Updater)
	vspec.Requires(isU)
	vcRegN, vcPushN = 0, 0
	NewLimiter()
	vspec.Ensures("C18", "the limiter registers for listener updates", vcRegN == 1 && vcRegType == xdsresource.ListenerType && vcReg != nil)
	vspec.Ensures("C18", "the server uses the limiter's option", vcLimOpt != nil && vcLimOpt.UpdateControl != nil)
	if early {
		vcReg(res)
	}
	vcLimOpt.UpdateControl(u)
	vspec.Ensures("C18", "the server starts from the current limit", vcPushN == 1 && vcPushTo == u && vcPushQPS == vcLimOpt.MaxQPS && vcPushConn == vcLimOpt.MaxConnections)
	vcReg(res2)
	vspec.Ensures("C18", "every later change is pushed", vcPushN == 2 && vcPushTo == u && vcPushQPS == vcLimOpt.MaxQPS && vcPushConn == math.MaxInt)
}
