package manager

import (
	"time"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"
)

// ---- eviction
//
// One sweep is everything the cleaner does between taking the lock of the manager and waiting again. The state of
// an arbitrary resource (vcRT, vcName) when the lock is taken is arbitrary; what the sweep does with it is stated
// when the cleaner waits again.

var (
	vcSwept  bool
	vcHadM   bool // there was an entry
	vcAccOk  bool
	vcAcc    time.Time
	vcT0     time.Time // the beginning of the sweep
	vcUnsubN int
	vcUnsubB bool
	vcTickN  int
	vcTickD  time.Duration
	vcTick   *time.Ticker
	vcStop   bool
	vcLate   bool // it was idle when it was unsubscribed
	vcMt     *xdsresource.ResourceMeta
)

//govc:extern time.NewTicker
func modelTicker(d time.Duration) *time.Ticker {
	vcTickN++
	vcTickD = d
	vcTick = &time.Ticker{C: vspec.Any[chan time.Time]("ticker")}
	return vcTick
}

//govc:extern (*time.Ticker).Stop
func modelTickerStop(t *time.Ticker) {}

// Watch by its contract (VC_C03_watch)
func modelUnwatch(c *xdsClient, rt xdsresource.ResourceType, name string, remove bool) {
	if !remove || c != vcM.client {
		vcUnsubB = true
	}
	if rt == vcRT && name == vcName {
		vcUnsubN++
		vcLate = specIdle(time.Now())
	}
}

// the state of the resource when the lock is taken
func relySweep(m *xdsResourceManager) {
	mm := vspec.Any[map[string]*xdsresource.ResourceMeta]("rely")
	cm := vspec.Any[map[string]xdsresource.Resource]("rely")
	vspec.Requires(mm != nil && vspec.Fn[xdsresource.ResourceType]("ownerMeta", vspec.Ident(mm)) == vcRT)
	vspec.Requires(cm != nil && vspec.Fn[xdsresource.ResourceType]("ownerCache", vspec.Ident(cm)) == vcRT)
	m.meta[vcRT] = mm
	m.cache[vcRT] = cm
	vcMt, vcHadM = mm[vcName]
	vspec.Requires(!vcHadM || vcMt != nil)
	vcAccOk = false
	if vcHadM {
		vcAcc, vcAccOk = vcMt.LastAccessTime.Load().(time.Time)
	}
	vcOldR, vcHadR = cm[vcName]
	vcUnsubN, vcUnsubB = 0, false
	vcSwept, vcT0 = true, time.Now()
}

func specReserved() bool {
	return vcRT == xdsresource.ListenerType && vcName == xdsresource.ReservedLdsResourceName
}

func specIdle(at time.Time) bool { return vcAccOk && at.Sub(vcAcc) > 30*time.Second }

// the resource is as it was
func invKeptMeta() bool {
	mt, ok := vcM.meta[vcRT][vcName]
	return !vcSwept || vcUnsubN != 0 || ok == vcHadM && (!ok || mt == vcMt)
}

func invKeptRes() bool {
	r, in := vcM.cache[vcRT][vcName]
	return !vcSwept || vcUnsubN != 0 || in == vcHadR && (!in || r == vcOldR)
}

// the resource is gone, and unsubscribed
func invGoneMeta() bool {
	_, ok := vcM.meta[vcRT][vcName]
	return !vcSwept || vcUnsubN == 0 || !ok && vcUnsubN == 1
}

func invGoneRes() bool {
	_, in := vcM.cache[vcRT][vcName]
	return !vcSwept || vcUnsubN == 0 || !in
}

// only what was idle goes
func invGoneIdle() bool {
	return !vcSwept || vcUnsubN == 0 || vcHadM && !specReserved() && vcLate
}

func invUnsub() bool { return !vcUnsubB && vcUnsubN >= 0 }

func specMust() bool { return vcSwept && vcHadM && !specReserved() && specIdle(vcT0) }

func invSweepOuter(seen vspec.Set[xdsresource.ResourceType]) bool {
	return !specMust() || !seen.Has(vcRT) || vcUnsubN != 0
}

func invSweepInner(seen vspec.Set[string], outer vspec.Set[xdsresource.ResourceType], rt xdsresource.ResourceType) bool {
	return !specMust() || !(rt == vcRT && seen.Has(vcName)) || vcUnsubN != 0
}

func invSweepPast(outer vspec.Set[xdsresource.ResourceType], rt xdsresource.ResourceType) bool {
	return !specMust() || !(rt != vcRT && outer.Has(vcRT)) || vcUnsubN != 0
}

// the types do not share their maps
func invSweepApart() bool {
	return vspec.All(nil, func(t xdsresource.ResourceType) bool {
		mt, ok := vcM.meta[t]
		return !ok || mt != nil && vspec.Fn[xdsresource.ResourceType]("ownerMeta", vspec.Ident(mt)) == t
	}) && vspec.All(nil, func(t xdsresource.ResourceType) bool {
		c, ok := vcM.cache[t]
		return !ok || c != nil && vspec.Fn[xdsresource.ResourceType]("ownerCache", vspec.Ident(c)) == t
	})
}

func invSweepDone() bool { return !specMust() || vcUnsubN != 0 }

// the cleaner waits
func awaitSweep() {
	vspec.Ensures("C19", "the cleaner wakes up every period, or stops", vcTickN == 1 && vcTickD == 30*time.Second && vspec.Waiting(vcTick.C) && vspec.Waiting(vcM.closeCh))
	vspec.Ensures("C19", "what is not unsubscribed keeps its entry", invKeptMeta())
	vspec.Ensures("C19", "what is not unsubscribed stays in the cache", invKeptRes())
	vspec.Ensures("C19", "what is unsubscribed has no entry, and is unsubscribed once", invGoneMeta())
	vspec.Ensures("C19", "what is unsubscribed leaves the cache", invGoneRes())
	vspec.Ensures("C19", "only idle resources are unsubscribed, never a reserved one", invGoneIdle() && invUnsub())
	vspec.Ensures("C19", "what is idle is unsubscribed", !specMust() || vcUnsubN == 1)
	vcSwept = false
	vspec.MayClose(vcM.closeCh)
}

//govc:prop C19
//govc:nopanic
//govc:conc
//govc:interfere relySweep
//govc:await awaitSweep
//govc:loops invKeptMeta invKeptRes invGoneMeta invGoneRes invGoneIdle invUnsub invSweepOuter invSweepInner invSweepPast invSweepDone invSweepApart
//govc:use modelUnwatch = (*github.com/kitex-contrib/xds/core/manager.xdsClient).Watch
func VC_C19_sweep(m *xdsResourceManager, rt, other xdsresource.ResourceType, name string) {
	vspec.Requires(m != nil && m.cache != nil && m.meta != nil && m.client != nil && m.closeCh != nil)
	vcM, vcRT, vcName = m, rt, name
	vcSwept, vcTickN, vcUnsubN, vcUnsubB = false, 0, 0, false
	vspec.Requires(invSweepApart() && m.meta[rt] != nil && m.cache[rt] != nil)
	m.cleaner()
	vspec.Ensures("C19", "the cleaner stops only when the manager is closed", vspec.Closed(m.closeCh))
}
