package manager

import (
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"
)

// ---- the lock discipline
//
// Every access to a guarded field, or to a map reached through it, happens while its lock is held (for writing, if it
// writes); locks are acquired in the order manager, client, resolver; nothing blocks while a lock is held. The
// obligations are generated at every access, acquisition and blocking operation of the functions below.
//
//govc:guard xdsResourceManager cache mu
//govc:guard xdsResourceManager meta mu
//govc:guard xdsResourceManager notifierMap mu
//govc:guard xdsResourceManager xdsHandlers mu
//govc:guard xdsClient watchedResource mu
//govc:guard xdsClient versionMap mu
//govc:guard xdsClient nonceMap mu
//govc:guard xdsClient overflow mu
//govc:guard ndsResolver lookupTable mu
//govc:rank xdsResourceManager mu 1
//govc:rank xdsClient mu 2
//govc:rank ndsResolver mu 3
//govc:prop C07
//govc:conc
//govc:nopanic
func VC_C07_watch(c *xdsClient, rt xdsresource.ResourceType, name string, remove bool) {
	vspec.Requires(c != nil && vspec.Held() == 0)
	c.Watch(rt, name, remove)
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}

// a lookup that misses subscribes under the lock of the manager
//
//govc:prop C07
//govc:conc
//govc:nopanic
func VC_C07_watchLocked(m *xdsResourceManager, rt xdsresource.ResourceType, name string, remove bool) {
	vspec.Requires(m != nil && m.client != nil)
	m.mu.Lock()
	m.client.Watch(rt, name, remove)
	vspec.Ensures("C07", "the locks are as before", vspec.Held() == 1 && vspec.Locked(&m.mu) == 2)
}

//govc:prop C07
//govc:conc
//govc:nopanic
func VC_C07_ack(c *xdsClient, rt xdsresource.ResourceType, nonce, version string, err error) {
	vspec.Requires(c != nil)
	c.updateAndACK(rt, nonce, version, err)
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}

// ---- responses: the callees by their lock contract

// updateAndACK takes the lock of the client (VC_C07_ack)
func modelAckLock(c *xdsClient, rt xdsresource.ResourceType, nonce, version string, err error) {
	vspec.Ensures("C07", "the client is not locked when a response is acknowledged", vspec.Locked(&c.mu) == 0)
}

// updateResource wants the lock of the manager (VC_C07_update)
func modelUpdateLock(m *xdsResourceManager, rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
	vspec.Ensures("C07", "the manager is locked when its resources are updated", vspec.Locked(&m.mu) == 2)
}

func modelDecAny(raw []*anypb.Any) (map[string]xdsresource.Resource, error) {
	return vspec.Any[map[string]xdsresource.Resource]("dec"), vspec.Any[error]("dec")
}

//govc:prop C07
//govc:conc
//govc:nopanic
//govc:use modelAckLock = (*github.com/kitex-contrib/xds/core/manager.xdsClient).updateAndACK
//govc:use modelUpdateLock = (*github.com/kitex-contrib/xds/core/manager.xdsResourceManager).updateResource
//govc:use modelDecAny = github.com/kitex-contrib/xds/core/xdsresource.UnmarshalRDS
//govc:use modelDecAny = github.com/kitex-contrib/xds/core/xdsresource.UnmarshalCDS
//govc:use modelDecAny = github.com/kitex-contrib/xds/core/xdsresource.UnmarshalEDS
func VC_C07_merge(c *xdsClient, resp *discoveryv3.DiscoveryResponse, which int) {
	vspec.Requires(c != nil && resp != nil && c.resourceUpdater != nil)
	switch which {
	case 0:
		_ = c.handleRDS(resp)
	case 1:
		_ = c.handleCDS(resp)
	case 2:
		_ = c.handleEDS(resp)
	}
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}

//govc:prop C07
//govc:conc
//govc:nopanic
//govc:use modelAckLock = (*github.com/kitex-contrib/xds/core/manager.xdsClient).updateAndACK
//govc:use modelUpdateLock = (*github.com/kitex-contrib/xds/core/manager.xdsResourceManager).updateResource
//govc:use modelLDS = github.com/kitex-contrib/xds/core/xdsresource.UnmarshalLDS
//govc:use modelNDS = github.com/kitex-contrib/xds/core/xdsresource.UnmarshalNDS
func VC_C07_listeners(c *xdsClient, resp *discoveryv3.DiscoveryResponse, nds bool) {
	vspec.Requires(c != nil && resp != nil && c.resourceUpdater != nil && c.cipResolver != nil && c.config != nil)
	if nds {
		_ = c.handleNDS(resp)
	} else {
		_ = c.handleLDS(resp)
	}
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}

// a handler of responses takes its locks itself
func modelHandLock(c *xdsClient, resp *discoveryv3.DiscoveryResponse) error {
	vspec.Ensures("C07", "nothing is locked when a response is handled", vspec.Held() == 0)
	return vspec.Any[error]("handled")
}

//govc:prop C07
//govc:conc
//govc:nopanic
//govc:use modelHandLock = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleLDS
//govc:use modelHandLock = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleRDS
//govc:use modelHandLock = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleCDS
//govc:use modelHandLock = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleEDS
//govc:use modelHandLock = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleNDS
func VC_C07_response(c *xdsClient, resp *discoveryv3.DiscoveryResponse) {
	vspec.Requires(c != nil && resp != nil)
	_ = c.handleResponse(resp)
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}

// ---- streams

func modelConnectLock(c *xdsClient) (ADSStream, error) {
	vspec.Ensures("C07", "nothing is locked while a stream is opened", vspec.Held() == 0)
	return vspec.Any[ADSStream]("open"), vspec.Any[error]("open")
}

//govc:prop C07
//govc:conc
//govc:nopanic
//govc:use modelConnectLock = (*github.com/kitex-contrib/xds/core/manager.xdsClient).connect
func VC_C07_reconnect(c *xdsClient) {
	vspec.Requires(c != nil)
	_, _ = c.reconnect()
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}

// a blocked Send must not hold a lock
func modelSendLock(s ADSStream, req *discoveryv3.DiscoveryRequest) error {
	vspec.Ensures("C07", "nothing is locked while a request is sent", vspec.Held() == 0)
	return vspec.Any[error]("send")
}

//govc:prop C07
//govc:conc
//govc:nopanic
//govc:use modelSendLock = (github.com/kitex-contrib/xds/core/manager.ADSStream).Send
func VC_C07_resubscribe(c *xdsClient, as ADSStream) {
	vspec.Requires(c != nil && as != nil)
	_ = c.reqWhenReconnect(as)
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}

func modelResubLock(c *xdsClient, as ADSStream) error {
	vspec.Ensures("C07", "nothing is locked when the subscriptions are repeated", vspec.Held() == 0)
	return vspec.Any[error]("resub")
}

//govc:prop C07
//govc:conc
//govc:nopanic
//govc:use modelSendLock = (github.com/kitex-contrib/xds/core/manager.ADSStream).Send
//govc:use modelResubLock = (*github.com/kitex-contrib/xds/core/manager.xdsClient).reqWhenReconnect
func VC_C07_sender(c *xdsClient, as ADSStream) {
	vspec.Requires(c != nil)
	c.sender(as)
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}

func modelWatchLock(c *xdsClient, rt xdsresource.ResourceType, name string, remove bool) {
	vspec.Ensures("C07", "the client is not locked when the subscriptions change", vspec.Locked(&c.mu) == 0)
}

//govc:prop C07
//govc:conc
//govc:nopanic
//govc:use modelWatchLock = (*github.com/kitex-contrib/xds/core/manager.xdsClient).Watch
func VC_C07_warmup(c *xdsClient) {
	vspec.Requires(c != nil && c.config != nil && c.config.xdsSvrCfg != nil && c.cipResolver != nil)
	c.warmup()
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}

// ---- the name table

//govc:prop C07
//govc:conc
//govc:nopanic
func VC_C07_resolver(r *ndsResolver, up map[string][]string, host string) {
	vspec.Requires(r != nil)
	_, _ = r.lookupHost(host)
	r.updateLookupTable(up)
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}

//govc:prop C07
//govc:conc
//govc:nopanic
func VC_C07_resolve(c *xdsClient, host string) {
	vspec.Requires(c != nil && c.cipResolver != nil && c.config != nil)
	_ = c.resolveAddr(host)
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}

// ---- the manager

func modelHandlerLock(f func(map[string]xdsresource.Resource), res map[string]xdsresource.Resource) {}

//govc:prop C07
//govc:conc
//govc:nopanic
//govc:use modelHandlerLock = func:func(map[string]github.com/kitex-contrib/xds/core/xdsresource.Resource)
func VC_C07_update(m *xdsResourceManager, rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string, h xdsresource.XDSUpdateHandler) {
	vspec.Requires(m != nil)
	m.UpdateResource(rt, up, version)
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
	m.RegisterXDSUpdateHandler(rt, h)
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}

//govc:prop C07
//govc:conc
//govc:nopanic
func VC_C07_dump(m *xdsResourceManager) {
	vspec.Requires(m != nil && m.opts != nil)
	m.Dump()
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}

//govc:prop C07
//govc:conc
//govc:nopanic
//govc:use modelWatchLock = (*github.com/kitex-contrib/xds/core/manager.xdsClient).Watch
func VC_C07_sweep(m *xdsResourceManager) {
	vspec.Requires(m != nil && m.client != nil)
	m.cleaner()
	vspec.Ensures("C07", "the locks are released", vspec.Held() == 0)
}
