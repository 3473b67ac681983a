package manager

import (
	"context"
	"time"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"
)

// ---- lookups
//
// The statements are about one arbitrary name vcName of the type vcRT. Whenever the lookup takes the lock of the
// manager, and while it waits, other goroutines may have run: relyMgr is what they may have done to the state of the
// name, restricted only by the invariant of the manager (a cached resource is of the kind of its type; the notifier
// that is registered for a name is open and counts the lookups that wait for it; a notifier is notified at most
// once, together with its removal).

var (
	vcMine   *notifier // the notifier this lookup waits for
	vcCurR   xdsresource.Resource
	vcCurH   bool      // what the cache held when the lock was last taken
	vcRegN   *notifier // what was registered then
	vcRegW   int
	vcWatchN int
	vcWatchB bool
	vcCtx    context.Context
	vcCtxP   context.Context
	vcCtxN   int
	vcDur    time.Duration
	vcGet    bool
	vcWaits  int
)

// a resource of the kind of the type
func specKind(rt xdsresource.ResourceType, r any) bool {
	switch rt {
	case xdsresource.ListenerType:
		v, ok := r.(*xdsresource.ListenerResource)
		return ok && v != nil
	case xdsresource.RouteConfigType:
		v, ok := r.(*xdsresource.RouteConfigResource)
		return ok && v != nil
	case xdsresource.ClusterType:
		v, ok := r.(*xdsresource.ClusterResource)
		return ok && v != nil
	case xdsresource.EndpointsType:
		v, ok := r.(*xdsresource.EndpointsResource)
		return ok && v != nil
	}
	return false
}

// Watch by its contract (VC_C03_watch): it does not touch the manager
func modelWatch(c *xdsClient, rt xdsresource.ResourceType, name string, remove bool) {
	vcWatchN++
	if rt != vcRT || name != vcName || remove || c != vcM.client {
		vcWatchB = true
	}
}

//govc:extern context.WithTimeout
func modelTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	vcCtxN++
	vcCtxP, vcDur = parent, d
	vcCtx = vspec.Any[context.Context]("rely")
	vspec.Requires(vcCtx != nil)
	return vcCtx, func() {}
}

// what other goroutines may do to the state of the name
func relyMgr(m *xdsResourceManager) {
	if vspec.Any[bool]("rely") {
		r := vspec.Any[xdsresource.Resource]("rely")
		vspec.Requires(specKind(vcRT, r))
		if m.cache[vcRT] == nil {
			m.cache[vcRT] = make(map[string]xdsresource.Resource)
		}
		m.cache[vcRT][vcName] = r
	} else {
		delete(m.cache[vcRT], vcName)
	}
	mine := vcMine
	if mine != nil && !vspec.Closed(mine.ch) {
		if vspec.Any[bool]("rely") {
			// it is delivered
			mine.err = vspec.Any[error]("rely")
			mine.res = vspec.Any[xdsresource.Resource]("rely")
			vspec.Requires(mine.err != nil || specKind(vcRT, mine.res))
			close(mine.ch)
		} else {
			// others join and give up
			mine.waiters = vspec.Any[int]("rely")
			vspec.Requires(mine.waiters >= 1)
		}
	}
	if mine == nil || vspec.Closed(mine.ch) {
		if vspec.Any[bool]("rely") {
			n := &notifier{ch: make(chan struct{}), waiters: vspec.Any[int]("rely")}
			vspec.Requires(n.waiters >= 1)
			if m.notifierMap[vcRT] == nil {
				m.notifierMap[vcRT] = make(map[string]*notifier)
			}
			m.notifierMap[vcRT][vcName] = n
		} else {
			delete(m.notifierMap[vcRT], vcName)
		}
	}
	vcCurR, vcCurH = m.cache[vcRT][vcName]
	vcRegN = m.notifierMap[vcRT][vcName]
	if vcRegN != nil {
		vcRegW = vcRegN.waiters
	} else {
		vcRegW = 0
	}
}

// the lookup blocks
func awaitGet() {
	vcWaits++
	vspec.Ensures("C05", "a lookup waits at most until its deadline", vcCtxN == 1 && vspec.Waiting(vcCtx.Done()))
	n := vcM.notifierMap[vcRT][vcName]
	vspec.Ensures("C05 C06", "a lookup waits once", vcWaits == 1)
	vspec.Ensures("C06", "a waiting lookup is registered, with the lookups that wait already", n != nil && !vspec.Closed(n.ch) && (vcRegN == nil || n == vcRegN) && n.waiters == vcRegW+1)
	vspec.Ensures("C06", "it waits for its notifier", vspec.Waiting(n.ch))
	vspec.Ensures("C01 C06", "only missing resources are waited for", !vcCurH)
	vspec.Ensures("C03", "the first lookup that misses subscribes", vcWatchN == 1 && vcRegN == nil || vcWatchN == 0 && vcRegN != nil)
	vcMine = n
	vspec.MayClose(vcCtx.Done())
	relyMgr(vcM)
}

// A lookup.
//
//govc:prop C01 C03 C05 C06 C07
//govc:conc
//govc:interfere relyMgr
//govc:await awaitGet
//govc:use modelWatch = (*github.com/kitex-contrib/xds/core/manager.xdsClient).Watch
func VC_C05_get(m *xdsResourceManager, ctx context.Context, rt xdsresource.ResourceType, name, other string) {
	vspec.Requires(m != nil && m.cache != nil && m.meta != nil && m.notifierMap != nil && m.opts != nil && m.opts.XDSSvrConfig != nil && ctx != nil)
	vspec.Requires(invMetaVal(m, rt, name))
	nm, typ := m.notifierMap[rt]
	cm, typ2 := m.cache[rt]
	vspec.Requires((!typ || nm != nil) && (!typ2 || cm != nil))
	vcM, vcRT, vcName = m, rt, name
	vcMine, vcWatchN, vcWatchB, vcCtxN, vcWaits = nil, 0, false, 0, 0
	vcCurH, vcRegN, vcRegW = false, nil, 0
	vcOldR, vcHadR = m.cache[rt][other]
	on := m.notifierMap[rt][other]
	res, err := m.Get(ctx, rt, name)
	vspec.Ensures("C05", "a value or an error", (err == nil) == (res != nil))
	vspec.Ensures("C05", "the value is of the kind requested", err != nil || specKind(rt, res))
	if specURL(rt) == "" {
		vspec.Ensures("C05", "an unknown kind is rejected at once", err != nil && vcWaits == 0 && vcWatchN == 0)
	}
	vspec.Ensures("C03 C05", "only the missing name is subscribed", !vcWatchB && vcWatchN <= 1 && (vcWaits == 1 || vcWatchN == 0))
	vspec.Ensures("C05", "the deadline is that of the caller and the fetch timeout", vcWaits == 0 || vspec.Ident(vcCtxP) == vspec.Ident(ctx) && vcDur == m.opts.XDSSvrConfig.GetFetchXDSTimeout())
	got := vcWaits == 1 && vspec.Closed(vcMine.ch)
	vspec.Ensures("C06", "a delivered resource is returned", !got || vcMine.err != nil || err == nil)
	vspec.Ensures("C01 C07", "the value is in force, or was when it was delivered", err != nil || vcCurH && res == vcCurR || got && res == vcMine.res)
	vspec.Ensures("C01 C05 C07", "what is cached is found without waiting", vcWaits == 1 || vcCurH || specURL(rt) == "")
	if vcWaits == 1 && !got {
		vspec.Ensures("C05", "a lookup that gives up fails", err != nil)
		vspec.Ensures("C06", "other lookups of the name keep waiting", vcRegN == vcMine && (vcRegW == 1 || m.notifierMap[rt][name] == vcMine && vcMine.waiters == vcRegW-1))
	} else if specURL(rt) != "" {
		vspec.Ensures("C06", "the lookups that wait are not disturbed", m.notifierMap[rt][name] == vcRegN && (vcRegN == nil || vcRegN.waiters == vcRegW && !vspec.Closed(vcRegN.ch)))
	}
	r, ok := m.cache[rt][other]
	vspec.Ensures("C06 C07", "no other name is affected", other == name || ok == vcHadR && (!ok || r == vcOldR) && m.notifierMap[rt][other] == on)
}

func invMetaVal(m *xdsResourceManager, rt xdsresource.ResourceType, name string) bool {
	mt, ok := m.meta[rt][name]
	if !ok {
		return true
	}
	return mt != nil && specTimeOrNone(mt.LastAccessTime.Load())
}

func specTimeOrNone(v any) bool {
	if v == nil {
		return true
	}
	_, ok := v.(time.Time)
	return ok
}
