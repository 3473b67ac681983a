package manager

import (
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"
)

// ---- what accepting an update does (UpdateResource)
//
// The statements are pointwise: vcName is an arbitrary resource name and vcIdx an arbitrary position in the list
// of registered handlers, both chosen before the update.

var (
	vcM     *xdsResourceManager
	vcRT    xdsresource.ResourceType
	vcUp    map[string]xdsresource.Resource
	vcName  string
	vcIdx   int
	vcOldR  xdsresource.Resource
	vcHadR  bool
	vcNf    *notifier
	vcCalls int // handler calls so far

	vcSeenFn  int
	vcSeenHas bool
	vcSeenR   xdsresource.Resource
	vcEarly   bool // the cache still had the old value when the handler ran
	vcOther   xdsresource.ResourceType
	vcOldO    xdsresource.Resource
	vcHadO    bool
)

//govc:extern func:func(map[string]github.com/kitex-contrib/xds/core/xdsresource.Resource)
func modelHandler(f func(map[string]xdsresource.Resource), res map[string]xdsresource.Resource) {
	if vcCalls == vcIdx {
		vcSeenFn = vspec.Ident(f)
		vcSeenR, vcSeenHas = res[vcName]
		r, ok := vcM.cache[vcRT][vcName]
		vcEarly = ok == vcHadR && (!ok || r == vcOldR)
	}
	vcCalls++
}

// the resource in force under vcName after the update
func specAfter() (xdsresource.Resource, bool) {
	r, ok := vcUp[vcName]
	if ok {
		return r, true
	}
	if vcRT == xdsresource.ListenerType || vcRT == xdsresource.ClusterType {
		return nil, false
	}
	return vcOldR, vcHadR
}

func invMCalls(i int) bool { return vcCalls == i }

func invMSeen(i int, hs []xdsresource.XDSUpdateHandler) bool {
	if vcIdx < 0 || vcIdx >= i {
		return true
	}
	r, ok := specAfter()
	return vcEarly && vcSeenFn == vspec.Ident(hs[vcIdx]) && vcSeenHas == ok && (!ok || vcSeenR == r)
}

func invMUntouched() bool {
	r, ok := vcM.cache[vcRT][vcName]
	return ok == vcHadR && (!ok || r == vcOldR)
}

// copying the cache and the update into one view
func invMCopyOld(all map[string]xdsresource.Resource, seen vspec.Set[string]) bool {
	r, ok := all[vcName]
	return ok == (seen.Has(vcName) && vcHadR) && (!ok || r == vcOldR)
}

func invMCopyUp(all map[string]xdsresource.Resource, seen vspec.Set[string]) bool {
	r, ok := all[vcName]
	u, in := vcUp[vcName]
	if in && seen.Has(vcName) {
		return ok && r == u
	}
	return ok == vcHadR && (!ok || r == vcOldR)
}

// storing the update
func invMStore(seen vspec.Set[string]) bool {
	r, ok := vcM.cache[vcRT][vcName]
	u, in := vcUp[vcName]
	if in && seen.Has(vcName) {
		return ok && r == u
	}
	return ok == vcHadR && (!ok || r == vcOldR)
}

// distinct types never share a map (vcOther is an arbitrary other type), and no map of the manager is the update
func specApart(m *xdsResourceManager) bool {
	c, ok := m.cache[vcRT]
	mt, ok2 := m.meta[vcRT]
	return m.cache != nil && m.meta != nil && m.notifierMap != nil && (!ok || c != nil) && (!ok2 || mt != nil) &&
		(c == nil || vspec.Ident(c) != vspec.Ident(vcUp)) &&
		(vcRT == vcOther || (c == nil || vspec.Ident(c) != vspec.Ident(m.cache[vcOther])) && (mt == nil || vspec.Ident(mt) != vspec.Ident(m.meta[vcOther])))
}

func invMApart() bool { return specApart(vcM) }

func invMOther() bool {
	r, ok := vcM.cache[vcOther][vcName]
	return vcRT == vcOther || ok == vcHadO && (!ok || r == vcOldO)
}

func invMMeta() bool {
	return vspec.All(nil, func(k string) bool { mt, ok := vcM.meta[vcRT][k]; return !ok || mt != nil })
}

// dropping what a full update omits
func invMDrop(seen vspec.Set[string]) bool {
	r, ok := vcM.cache[vcRT][vcName]
	u, in := vcUp[vcName]
	if in {
		return ok && r == u
	}
	if seen.Has(vcName) {
		return !ok
	}
	return ok == vcHadR && (!ok || r == vcOldR)
}

// Every waiting notifier is open and belongs to one name.
func specNotifiers(m *xdsResourceManager, rt xdsresource.ResourceType) bool {
	return vspec.All(nil, func(k string) bool {
		nf, ok := m.notifierMap[rt][k]
		return !ok || nf != nil && nf.ch != nil && !vspec.Closed(nf.ch) && vspec.Fn[string]("owner", vspec.Ident(nf.ch)) == k && vspec.Fn[string]("owner2", vspec.Ident(nf)) == k
	})
}

func invMNf() bool { return specNotifiers(vcM, vcRT) }

func invMDelivered(seen vspec.Set[string]) bool {
	u, in := vcUp[vcName]
	nf, ok := vcM.notifierMap[vcRT][vcName]
	if vcNf == nil {
		return !ok
	}
	if in && seen.Has(vcName) {
		return !ok && vspec.Closed(vcNf.ch) && vcNf.err == nil && vcNf.res == u
	}
	return ok && nf == vcNf && !vspec.Closed(nf.ch)
}

// An accepted update: every registered handler is called once, in order, before the cache changes, with what is in
// force after the update; then the cache is the fold step; lookups that wait for a delivered name are woken with
// the resource and no other.
//
//govc:prop C01 C06 C07 C16 C17 C18
//govc:loops invMCalls invMSeen invMUntouched invMCopyOld invMCopyUp invMStore invMApart invMOther invMMeta invMDrop invMNf invMDelivered
//govc:seconds 60
func VC_MGR_update(m *xdsResourceManager, rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string, name string, idx int, other xdsresource.ResourceType) {
	vspec.Requires(m != nil)
	vcM, vcRT, vcUp, vcName, vcIdx, vcOther, vcCalls = m, rt, up, name, idx, other, 0
	vspec.Requires(specApart(m))
	vspec.Requires(specNotifiers(m, rt))
	vspec.Requires(invMMeta())
	vcOldO, vcHadO = m.cache[other][name]
	vcOldR, vcHadR = m.cache[rt][name]
	vcNf = m.notifierMap[rt][name]
	hs := m.xdsHandlers[rt]
	vspec.Requires(vspec.Forall(0, len(hs), func(i int) bool { return hs[i] != nil }))
	m.UpdateResource(rt, up, version)
	want, has := specAfter()
	in := idx >= 0 && idx < len(hs)
	vspec.Ensures("C16 C17 C18", "every handler is called exactly once", vcCalls == len(hs))
	vspec.Ensures("C16 C17 C18", "handlers are called in the order of registration", !in || vcSeenFn == vspec.Ident(hs[idx]))
	vspec.Ensures("C16 C17 C18", "handlers see what is in force after the update", !in || vcSeenHas == has && (!has || vcSeenR == want))
	vspec.Ensures("C07", "handlers run before the resource can be looked up", !in || vcEarly)
	got, ok := m.cache[rt][name]
	vspec.Ensures("C01", "the cache is the fold step", ok == has && (!has || got == want))
	vspec.Ensures("C01", "other types are not touched", invMOther())
	u, sent := up[name]
	nf, waiting := m.notifierMap[rt][name]
	vspec.Ensures("C06", "waiting lookups of a delivered name are woken with it", vcNf == nil || !sent || !waiting && vspec.Closed(vcNf.ch) && vcNf.err == nil && vcNf.res == u)
	vspec.Ensures("C06", "lookups of other names keep waiting", vcNf == nil || sent || waiting && nf == vcNf && !vspec.Closed(nf.ch))
	vspec.Ensures("C01", "the maps stay apart", specApart(m))
}

// A handler that registers is kept, after the earlier ones, and sees what is in force.
//
//govc:prop C16 C17 C18
func VC_MGR_register(m *xdsResourceManager, rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler, name string, idx int) {
	vspec.Requires(m != nil && h != nil && m.xdsHandlers != nil)
	vcM, vcRT, vcName, vcIdx, vcCalls = m, rt, name, 0, 0
	vcOldR, vcHadR = m.cache[rt][name]
	old := m.xdsHandlers[rt]
	n := len(old)
	vspec.Requires(0 <= idx && idx < n)
	at := vspec.Ident(old[idx])
	_, any := m.cache[rt]
	m.RegisterXDSUpdateHandler(rt, h)
	hs := m.xdsHandlers[rt]
	vspec.Ensures("C16 C17 C18", "the handler is kept after the earlier ones", len(hs) == n+1 && vspec.Ident(hs[n]) == vspec.Ident(h) && vspec.Ident(hs[idx]) == at)
	vspec.Ensures("C16 C17 C18", "the new handler sees the current state", vcCalls <= 1 && (!any || vcCalls == 1) &&
		(vcCalls == 0 || vcSeenFn == vspec.Ident(h) && vcSeenHas == vcHadR && (!vcSeenHas || vcSeenR == vcOldR)))
	r, ok := m.cache[rt][name]
	vspec.Ensures("C16 C17 C18", "registration changes no resource", ok == vcHadR && (!ok || r == vcOldR))
}

//govc:prop C16 C17 C18
func VC_MGR_registerFirst(m *xdsResourceManager, rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler) {
	vspec.Requires(m != nil && h != nil && m.xdsHandlers != nil)
	vcM, vcRT, vcIdx, vcCalls = m, rt, 0, 0
	vspec.Requires(len(m.xdsHandlers[rt]) == 0)
	m.RegisterXDSUpdateHandler(rt, h)
	hs := m.xdsHandlers[rt]
	vspec.Ensures("C16 C17 C18", "the first handler is kept", len(hs) == 1 && vspec.Ident(hs[0]) == vspec.Ident(h))
}
