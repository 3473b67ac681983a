package manager

import (
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"

	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/types/known/anypb"
)

// ---- requests (C02, C03, C04)

// a type other than the five of the protocol has no URL
func specURL(rt xdsresource.ResourceType) string {
	switch rt {
	case xdsresource.ListenerType:
		return xdsresource.ListenerTypeURL
	case xdsresource.RouteConfigType:
		return xdsresource.RouteTypeURL
	case xdsresource.ClusterType:
		return xdsresource.ClusterTypeURL
	case xdsresource.EndpointsType:
		return xdsresource.EndpointTypeURL
	case xdsresource.NameTableType:
		return xdsresource.NameTableTypeURL
	}
	return ""
}

// the tables of the package agree with the protocol
func specTables() bool {
	return xdsresource.ResourceTypeToURL != nil && vspec.All(nil, func(t xdsresource.ResourceType) bool {
		u, ok := xdsresource.ResourceTypeToURL[t]
		return ok == (specURL(t) != "") && u == specURL(t)
	}) && xdsresource.ResourceURLToType != nil && vspec.All(nil, func(u string) bool {
		t, ok := xdsresource.ResourceURLToType[u]
		if u == "" {
			return !ok
		}
		return ok == (u == xdsresource.ListenerTypeURL || u == xdsresource.RouteTypeURL || u == xdsresource.ClusterTypeURL || u == xdsresource.EndpointTypeURL || u == xdsresource.NameTableTypeURL) &&
			(!ok || specURL(t) == u)
	})
}

var (
	vcRes   map[string]bool
	vcReq   *discoveryv3.DiscoveryRequest
	vcSendN int
	vcSendC *xdsClient
	vcPrepN int
)

// copying the names of the set: vcName is an arbitrary name, vcIdx an arbitrary position
func invNamesFrom(rNames []string) bool {
	return vcIdx < 0 || vcIdx >= len(rNames) || specIn(vcRes, rNames[vcIdx])
}

func invNamesAll(rNames []string, seen vspec.Set[string]) bool {
	return !seen.Has(vcName) || vspec.Exists(0, len(rNames), func(i int) bool { return rNames[i] == vcName })
}

func specIn(res map[string]bool, n string) bool {
	_, ok := res[n]
	return ok
}

// a request carries the names of the set, no others, and what it is given
//
//govc:prop C02 C03 C04 C20
//govc:loops invNamesFrom invNamesAll
func VC_C03_request(c *xdsClient, rt xdsresource.ResourceType, version, nonce string, res map[string]bool, name string, i int) {
	vspec.Requires(c != nil && c.config != nil)
	vcRes, vcName, vcIdx = res, name, i
	req := c.prepareRequest(rt, version, nonce, res)
	vspec.Ensures("C03 C04", "every subscribed name is requested", req != nil && (!specIn(res, name) || vspec.Exists(0, len(req.ResourceNames), func(k int) bool { return req.ResourceNames[k] == name })))
	vspec.Ensures("C03 C04", "only subscribed names are requested", i < 0 || i >= len(req.ResourceNames) || specIn(res, req.ResourceNames[i]))
	vspec.Ensures("C03 C20", "the request identifies the node", req.Node == c.config.node)
	vspec.Ensures("C02 C04", "the version and the nonce", req.VersionInfo == version && req.ResponseNonce == nonce)
	vspec.Ensures("C02 C03", "no error unless set by the caller", req.ErrorDetail == nil)
	vspec.Ensures("C02 C03 C04", "the URL of the type", req.TypeUrl == xdsresource.ResourceTypeToURL[rt])
}

// prepareRequest by its contract: a new request whose names are those of the set
func modelPrepare(c *xdsClient, rt xdsresource.ResourceType, version, nonce string, res map[string]bool) *discoveryv3.DiscoveryRequest {
	vcPrepN++
	vcRes = res
	return &discoveryv3.DiscoveryRequest{VersionInfo: version, Node: c.config.node, TypeUrl: xdsresource.ResourceTypeToURL[rt], ResponseNonce: nonce}
}

// sendRequest by its contract
func modelSendReq(c *xdsClient, req *discoveryv3.DiscoveryRequest) {
	vcSendN++
	vcReq, vcSendC = req, c
}

// Queueing a request: it is the last of the queue (channel, then overflow) unless the client is stopped.
//
//govc:prop C02 C03 C04
func VC_C03_queue(c *xdsClient, req *discoveryv3.DiscoveryRequest, i int) {
	vspec.Requires(c != nil && req != nil && c.reqCh != nil && c.closeCh != nil && !vspec.Closed(c.reqCh))
	n, over := vspec.SentN(c.reqCh), c.overflow
	k := len(over)
	stopped := vspec.Closed(c.closeCh)
	var at *discoveryv3.DiscoveryRequest
	if i >= 0 && i < k {
		at = over[i]
	}
	c.sendRequest(req)
	stopped = stopped || vspec.Closed(c.closeCh)
	inCh := vspec.SentN(c.reqCh) == n+1 && len(c.overflow) == k && vspec.SentAt[*discoveryv3.DiscoveryRequest](c.reqCh, n) == req
	inOver := vspec.SentN(c.reqCh) == n && len(c.overflow) == k+1 && c.overflow[k] == req
	none := vspec.SentN(c.reqCh) == n && len(c.overflow) == k
	vspec.Ensures("C02 C03 C04", "the request is queued once, unless the client is stopped", inCh || inOver || none && stopped)
	vspec.Ensures("C02 C03 C04", "requests keep their order", !inCh || k == 0)
	vspec.Ensures("C02 C03 C04", "earlier requests are kept", i < 0 || i >= k || c.overflow[i] == at)
}

//govc:prop C03
//govc:use modelPrepare = (*github.com/kitex-contrib/xds/core/manager.xdsClient).prepareRequest
//govc:use modelSendReq = (*github.com/kitex-contrib/xds/core/manager.xdsClient).sendRequest
func VC_C03_watch(c *xdsClient, rt, other xdsresource.ResourceType, name, n string, remove bool) {
	vspec.Requires(c != nil && c.config != nil && c.watchedResource != nil)
	ws := c.watchedResource[rt]
	vspec.Requires(other == rt || ws == nil || c.watchedResource[other] == nil || vspec.Ident(ws) != vspec.Ident(c.watchedResource[other]))
	vcSendN, vcPrepN = 0, 0
	was := specIn(c.watchedResource[other], n)
	ver, nonce := c.versionMap[rt], c.nonceMap[rt]
	c.Watch(rt, name, remove)
	is := specIn(c.watchedResource[other], n)
	vspec.Ensures("C03", "the set changes by the name only", is == (was && !(other == rt && n == name) || other == rt && n == name && !remove))
	_, typ := c.watchedResource[rt]
	vspec.Ensures("C03", "the type is subscribed", typ && c.watchedResource[rt] != nil)
	vspec.Ensures("C03", "the change is followed by one request for the whole set", vcSendN == 1 && vcPrepN == 1 && vcSendC == c && vspec.Ident(vcRes) == vspec.Ident(c.watchedResource[rt]))
	vspec.Ensures("C03", "the request of the type carries the current version and nonce", vcReq.TypeUrl == xdsresource.ResourceTypeToURL[rt] && vcReq.VersionInfo == ver && vcReq.ResponseNonce == nonce && vcReq.Node == c.config.node && vcReq.ErrorDetail == nil)
}

// Acknowledging a response.
//
//govc:prop C02 C03
//govc:use modelPrepare = (*github.com/kitex-contrib/xds/core/manager.xdsClient).prepareRequest
//govc:use modelSendReq = (*github.com/kitex-contrib/xds/core/manager.xdsClient).sendRequest
func VC_C02_ack(c *xdsClient, rt, other xdsresource.ResourceType, nonce, version string, err error, n string) {
	vspec.Requires(c != nil && c.config != nil && c.versionMap != nil && c.nonceMap != nil && vspec.Ident(c.versionMap) != vspec.Ident(c.nonceMap))
	vspec.Assume("the error of a rejected response has a text", err == nil || err.Error() != "")
	vcSendN, vcPrepN = 0, 0
	oldV, oldN := c.versionMap[other], c.nonceMap[other]
	was := specIn(c.watchedResource[other], n)
	c.updateAndACK(rt, nonce, version, err)
	if other == rt && err == nil {
		vspec.Ensures("C02", "the version of an accepted response is the last accepted one", c.versionMap[other] == version)
	} else {
		vspec.Ensures("C02", "no other version changes", c.versionMap[other] == oldV)
	}
	if other == rt {
		vspec.Ensures("C02", "the nonce is the last one received", c.nonceMap[other] == nonce)
	} else {
		vspec.Ensures("C02", "no other nonce changes", c.nonceMap[other] == oldN)
	}
	vspec.Ensures("C02 C03", "the subscriptions do not change", specIn(c.watchedResource[other], n) == was)
	vspec.Ensures("C02", "exactly one request", vcSendN == 1 && vcPrepN == 1 && vcSendC == c)
	vspec.Ensures("C03", "with the names of the type", vspec.Ident(vcRes) == vspec.Ident(c.watchedResource[rt]))
	vspec.Ensures("C02", "of the type, echoing the nonce", vcReq.TypeUrl == xdsresource.ResourceTypeToURL[rt] && vcReq.ResponseNonce == nonce && vcReq.Node == c.config.node)
	vspec.Ensures("C02", "with the last accepted version", vcReq.VersionInfo == c.versionMap[rt])
	vspec.Ensures("C02", "error detail exactly on a rejection", (vcReq.ErrorDetail != nil) == (err != nil))
}

// ---- responses

var (
	vcAckN   int
	vcAckT   xdsresource.ResourceType
	vcAckNo  string
	vcAckV   string
	vcAckErr error
	vcAckC   *xdsClient
	vcHandN  int
	vcHandT  xdsresource.ResourceType
	vcHandR  *discoveryv3.DiscoveryResponse
	vcBindN  int
	vcTabN   int
	vcTab    map[string][]string
	vcOrder  bool // the name table changed before the listeners were bound
)

// updateAndACK by its contract (VC_C02_ack)
func modelAck(c *xdsClient, rt xdsresource.ResourceType, nonce, version string, err error) {
	vcAckN++
	vcAckC, vcAckT, vcAckNo, vcAckV, vcAckErr = c, rt, nonce, version, err
}

func modelBind(c *xdsClient) { vcBindN++; vcOrder = vcTabN == 1 }

func modelTabUp(r *ndsResolver, up map[string][]string) {
	vcTabN++
	vcTab = up
}

func specAcked(c *xdsClient, rt xdsresource.ResourceType, resp *discoveryv3.DiscoveryResponse, err error) bool {
	return vcAckN == 1 && vcAckC == c && vcAckT == rt && vcAckNo == resp.GetNonce() && vcAckV == resp.GetVersionInfo() && (vcAckErr == nil) == (err == nil)
}

// ---- listeners and the name table

//govc:prop C01 C02 C14
//govc:use modelAck = (*github.com/kitex-contrib/xds/core/manager.xdsClient).updateAndACK
//govc:use modelBind = (*github.com/kitex-contrib/xds/core/manager.xdsClient).updateListeners
//govc:use modelLDS = github.com/kitex-contrib/xds/core/xdsresource.UnmarshalLDS
func VC_C02_lds(c *xdsClient, resp *discoveryv3.DiscoveryResponse) {
	vspec.Requires(c != nil && resp != nil && c.inboundInitRequestCh != nil && (c.closedInboundInitCh.Load() || !vspec.Closed(c.inboundInitRequestCh)))
	vcAckN, vcBindN, vcUpN = 0, 0, 0
	old, oldV, ready := c.lastLDS, c.lastLDSVersion, c.closedInboundInitCh.Load()
	err := c.handleLDS(resp)
	res, bad := vspec.Fn[map[string]*xdsresource.ListenerResource]("lds", resp.Resources), vspec.Fn[error]("ldsErr", resp.Resources)
	vspec.Ensures("C02", "acknowledged once, as decoded", specAcked(c, xdsresource.ListenerType, resp, bad))
	if bad != nil {
		vspec.Ensures("C02", "a rejected response changes nothing", err != nil && vcBindN == 0 && vcUpN == 0 && vspec.Ident(c.lastLDS) == vspec.Ident(old) && c.lastLDSVersion == oldV && c.closedInboundInitCh.Load() == ready)
		return
	}
	vspec.Ensures("C01 C14", "an accepted response is bound to the watched names", err == nil && vcBindN == 1 && vspec.Ident(c.lastLDS) == vspec.Ident(res) && c.lastLDSVersion == resp.GetVersionInfo())
	vspec.Ensures("C02", "the client is ready for inbound traffic", c.closedInboundInitCh.Load() && (ready || vspec.Closed(c.inboundInitRequestCh)))
}

func modelLDS(raw []*anypb.Any) (map[string]*xdsresource.ListenerResource, error) {
	return vspec.Fn[map[string]*xdsresource.ListenerResource]("lds", raw), vspec.Fn[error]("ldsErr", raw)
}

func modelNDS(raw []*anypb.Any) (*xdsresource.NDSResource, error) {
	if err := vspec.Fn[error]("ndsErr", raw); err != nil {
		return nil, err
	}
	return &xdsresource.NDSResource{NameTable: vspec.Fn[map[string][]string]("nds", raw)}, nil
}

//govc:prop C02 C14
//govc:use modelAck = (*github.com/kitex-contrib/xds/core/manager.xdsClient).updateAndACK
//govc:use modelBind = (*github.com/kitex-contrib/xds/core/manager.xdsClient).updateListeners
//govc:use modelTabUp = (*github.com/kitex-contrib/xds/core/manager.ndsResolver).updateLookupTable
//govc:use modelNDS = github.com/kitex-contrib/xds/core/xdsresource.UnmarshalNDS
func VC_C02_nds(c *xdsClient, resp *discoveryv3.DiscoveryResponse) {
	vspec.Requires(c != nil && resp != nil && c.cipResolver != nil && c.config != nil && c.config.xdsSvrCfg != nil)
	vcAckN, vcBindN, vcTabN, vcUpN, vcOrder = 0, 0, 0, 0, false
	had := c.lastLDS != nil
	err := c.handleNDS(resp)
	tab, bad := vspec.Fn[map[string][]string]("nds", resp.Resources), vspec.Fn[error]("ndsErr", resp.Resources)
	vspec.Ensures("C02", "acknowledged once, as decoded", specAcked(c, xdsresource.NameTableType, resp, bad))
	if bad != nil {
		vspec.Ensures("C02", "a rejected name table changes nothing", err != nil && vcTabN == 0 && vcBindN == 0 && vcUpN == 0)
		return
	}
	vspec.Ensures("C14", "the name table is replaced", err == nil && vcTabN == 1 && vspec.Ident(vcTab) == vspec.Ident(tab))
	vspec.Ensures("C14", "the listeners are bound again, by the new table", !had || c.config.xdsSvrCfg.NDSNotRequired || vcBindN == 1 && vcOrder)
}

// ---- the types that merge by name or replace the set

var vcDec map[string]xdsresource.Resource

func modelDec(raw []*anypb.Any) (map[string]xdsresource.Resource, error) {
	if err := vspec.Fn[error]("decErr", raw); err != nil {
		return nil, err
	}
	return vcDec, nil
}

// dropping what is not watched
func invFilter(seen vspec.Set[string]) bool {
	r, ok := vcDec[vcName]
	if seen.Has(vcName) {
		return ok == (vcHadR && specIn(vcC.watchedResource[vcRT], vcName)) && (!ok || r == vcOldR)
	}
	return ok == vcHadR && (!ok || r == vcOldR)
}

// what a response of the type does with the resource called vcName
func specStored(c *xdsClient, resp *discoveryv3.DiscoveryResponse, err error) {
	bad := vspec.Fn[error]("decErr", resp.Resources)
	vspec.Ensures("C02", "acknowledged once, as decoded", specAcked(c, vcRT, resp, bad))
	if bad != nil {
		vspec.Ensures("C02", "a rejected response changes nothing", err != nil && vcUpN == 0)
		return
	}
	vspec.Ensures("C01", "an accepted response updates the cache once", err == nil && vcUpN == 1 && vcGotT == vcRT && vcGotM == c.resourceUpdater && vcGotV == resp.GetVersionInfo())
	vspec.Ensures("C01", "with the watched resources it carries, no others", vcGotH == (vcHadR && specIn(c.watchedResource[vcRT], vcName)) && (!vcGotH || vcGotR == vcOldR))
}

//govc:prop C01 C02
//govc:use modelAck = (*github.com/kitex-contrib/xds/core/manager.xdsClient).updateAndACK
//govc:use modelUpdate = (*github.com/kitex-contrib/xds/core/manager.xdsResourceManager).updateResource
//govc:use modelDec = github.com/kitex-contrib/xds/core/xdsresource.UnmarshalRDS
//govc:loops invFilter
func VC_C02_rds(c *xdsClient, resp *discoveryv3.DiscoveryResponse, dec map[string]xdsresource.Resource, name string) {
	vspec.Requires(c != nil && resp != nil && c.resourceUpdater != nil && dec != nil)
	vcAckN, vcUpN, vcC, vcRT, vcDec, vcName = 0, 0, c, xdsresource.RouteConfigType, dec, name
	vcOldR, vcHadR = dec[name]
	specStored(c, resp, c.handleRDS(resp))
}

//govc:prop C01 C02
//govc:use modelAck = (*github.com/kitex-contrib/xds/core/manager.xdsClient).updateAndACK
//govc:use modelUpdate = (*github.com/kitex-contrib/xds/core/manager.xdsResourceManager).updateResource
//govc:use modelDec = github.com/kitex-contrib/xds/core/xdsresource.UnmarshalCDS
//govc:loops invFilter
func VC_C02_cds(c *xdsClient, resp *discoveryv3.DiscoveryResponse, dec map[string]xdsresource.Resource, name string) {
	vspec.Requires(c != nil && resp != nil && c.resourceUpdater != nil && dec != nil)
	vcAckN, vcUpN, vcC, vcRT, vcDec, vcName = 0, 0, c, xdsresource.ClusterType, dec, name
	vcOldR, vcHadR = dec[name]
	specStored(c, resp, c.handleCDS(resp))
}

//govc:prop C01 C02
//govc:use modelAck = (*github.com/kitex-contrib/xds/core/manager.xdsClient).updateAndACK
//govc:use modelUpdate = (*github.com/kitex-contrib/xds/core/manager.xdsResourceManager).updateResource
//govc:use modelDec = github.com/kitex-contrib/xds/core/xdsresource.UnmarshalEDS
//govc:loops invFilter
func VC_C02_eds(c *xdsClient, resp *discoveryv3.DiscoveryResponse, dec map[string]xdsresource.Resource, name string) {
	vspec.Requires(c != nil && resp != nil && c.resourceUpdater != nil && dec != nil)
	vcAckN, vcUpN, vcC, vcRT, vcDec, vcName = 0, 0, c, xdsresource.EndpointsType, dec, name
	vcOldR, vcHadR = dec[name]
	specStored(c, resp, c.handleEDS(resp))
}

// ---- dispatch

func modelHandLDS(c *xdsClient, resp *discoveryv3.DiscoveryResponse) error {
	return modelHand(xdsresource.ListenerType, resp)
}

func modelHandRDS(c *xdsClient, resp *discoveryv3.DiscoveryResponse) error {
	return modelHand(xdsresource.RouteConfigType, resp)
}

func modelHandCDS(c *xdsClient, resp *discoveryv3.DiscoveryResponse) error {
	return modelHand(xdsresource.ClusterType, resp)
}

func modelHandEDS(c *xdsClient, resp *discoveryv3.DiscoveryResponse) error {
	return modelHand(xdsresource.EndpointsType, resp)
}

func modelHandNDS(c *xdsClient, resp *discoveryv3.DiscoveryResponse) error {
	return modelHand(xdsresource.NameTableType, resp)
}

func modelHand(t xdsresource.ResourceType, resp *discoveryv3.DiscoveryResponse) error {
	vcHandN++
	vcHandT, vcHandR = t, resp
	return vspec.Fn[error]("handled", resp)
}

//govc:prop C01 C02
//govc:use modelHandLDS = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleLDS
//govc:use modelHandRDS = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleRDS
//govc:use modelHandCDS = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleCDS
//govc:use modelHandEDS = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleEDS
//govc:use modelHandNDS = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleNDS
//govc:use modelAck = (*github.com/kitex-contrib/xds/core/manager.xdsClient).updateAndACK
//govc:use modelSendReq = (*github.com/kitex-contrib/xds/core/manager.xdsClient).sendRequest
//govc:use modelUpdate = (*github.com/kitex-contrib/xds/core/manager.xdsResourceManager).updateResource
func VC_C02_response(c *xdsClient, resp *discoveryv3.DiscoveryResponse, rt xdsresource.ResourceType, n string) {
	vspec.Requires(c != nil && resp != nil)
	vcHandN, vcAckN, vcSendN, vcUpN = 0, 0, 0, 0
	vspec.Ensures("C01 C02", "the tables of types and URLs are those of the protocol", specTables())
	url := resp.GetTypeUrl()
	oldV, oldN := c.versionMap[rt], c.nonceMap[rt]
	was := specIn(c.watchedResource[rt], n)
	_, typ := c.watchedResource[rt]
	err := c.handleResponse(resp)
	vspec.Ensures("C02", "only the handler of the type acts", vcHandN <= 1 && vcAckN == 0 && vcSendN == 0 && vcUpN == 0 && c.versionMap[rt] == oldV && c.nonceMap[rt] == oldN && specIn(c.watchedResource[rt], n) == was)
	if url != "" && specURL(rt) == url && typ {
		vspec.Ensures("C01 C02", "a response of a subscribed type is handled by its handler", vcHandN == 1 && vcHandT == rt && vcHandR == resp && err == vspec.Fn[error]("handled", resp))
	}
	if url != "" && specURL(rt) == url && !typ {
		vspec.Ensures("C02", "a response of a type that was never subscribed is dropped", vcHandN == 0)
	}
	if url != xdsresource.ListenerTypeURL && url != xdsresource.RouteTypeURL && url != xdsresource.ClusterTypeURL && url != xdsresource.EndpointTypeURL && url != xdsresource.NameTableTypeURL {
		vspec.Ensures("C02", "a response of an unknown type is dropped", vcHandN == 0)
	}
}

// what is not a response is dropped
//
//govc:prop C02
//govc:use modelHandLDS = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleLDS
//govc:use modelHandRDS = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleRDS
//govc:use modelHandCDS = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleCDS
//govc:use modelHandEDS = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleEDS
//govc:use modelHandNDS = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleNDS
func VC_C02_noResponse(c *xdsClient, msg string) {
	vspec.Requires(c != nil)
	vcHandN = 0
	_ = c.handleResponse(nil)
	err := c.handleResponse(msg)
	vspec.Ensures("C02", "what is not a response is dropped", vcHandN == 0 && err != nil)
}
