package manager

import (
	"context"

	"github.com/cenkalti/backoff/v4"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"
)

// ---- streams

var (
	vcCl     *xdsClient
	vcOpenN  int
	vcOpenB  bool
	vcStream ADSStream // the stream in use
	vcOverN2 int
)

// ---- opening a stream

//govc:extern (github.com/kitex-contrib/xds/core/manager.ADSClient).StreamAggregatedResources
func modelOpen(a ADSClient, ctx context.Context) (ADSStream, error) {
	vcOpenN++
	if vcCl != nil && a != vcCl.adsClient {
		vcOpenB = true
	}
	if err := vspec.Any[error]("open"); err != nil {
		return nil, err
	}
	vcStream = vspec.Any[ADSStream]("open")
	vspec.Requires(vcStream != nil)
	return vcStream, nil
}

// backoff.Retry tries until it succeeds, or gives up with an error. What it keeps of the failing attempts before the
// last two does not differ from what it keeps of the last failing one.
//
//govc:extern github.com/cenkalti/backoff/v4.Retry
func modelRetry(op backoff.Operation, b backoff.BackOff) error {
	if vspec.Any[bool]("retry") {
		err := op()
		vspec.Requires(err != nil)
	}
	err := op()
	return err
}

//govc:extern (*github.com/cenkalti/backoff/v4.ExponentialBackOff).Reset
func modelBackoffReset(b *backoff.ExponentialBackOff) {}

//govc:extern (github.com/cenkalti/backoff/v4.BackOff).Reset
func modelBackOffReset(b backoff.BackOff) {}

//govc:prop C04
func VC_C04_connect(c *xdsClient) {
	vspec.Requires(c != nil && c.adsClient != nil && c.connectBackoff != nil)
	vcCl, vcOpenN, vcOpenB, vcStream = c, 0, false, nil
	as, err := c.connect()
	vspec.Ensures("C04", "a stream or an error", (as != nil) == (err == nil))
	vspec.Ensures("C04", "the stream is the one that was opened", err != nil || as == vcStream)
	vspec.Ensures("C04", "streams are opened with the client", vcOpenN >= 1 && !vcOpenB)
}

// ---- a new stream

// connect by its contract (VC_C04_connect)
func modelConnect(c *xdsClient) (ADSStream, error) {
	vcOpenN++
	vcStream = vspec.Any[ADSStream]("open")
	err := vspec.Any[error]("open")
	vspec.Requires((vcStream != nil) == (err == nil))
	return vcStream, err
}

// clearRequestCh by its contract (VC_C04_clear): it drops the requests that are queued at that moment. Others are queued
// meanwhile unless the lock is held.
func modelClear(ch chan *discoveryv3.DiscoveryRequest, n int) {
	if ch == vcCl.reqCh && n >= len(ch) {
		vcStaleCh = vspec.Held() == 0 && vcCl.nonceMap[vcRT] != ""
	}
}

var (
	vcStaleCh   bool // a request with a nonce of the old stream may be in the channel
	vcStaleOver bool // or, unless it is empty, in the overflow
)

// While the lock is free lookups and evictions queue requests with the nonces of the nonce map. Only this goroutine
// changes that map.
func relyReconnect(c *xdsClient) {
	vcStaleOver = vcStaleOver && len(c.overflow) > 0
	if c.nonceMap[vcRT] != "" {
		vcStaleCh, vcStaleOver = true, true
	}
	c.overflow = vspec.Any[[]*discoveryv3.DiscoveryRequest]("rely")
}

// the new stream is handed over
func awaitHand() {
	vcOverN2++
	_, has := vcCl.nonceMap[vcRT]
	vspec.Ensures("C04", "no nonce of the old stream is left when the new stream is handed over", !has)
	vspec.Ensures("C04", "no request with a nonce of the old stream is left when the new stream is handed over", !vcStaleCh && !(vcStaleOver && len(vcCl.overflow) > 0))
	vspec.Ensures("C04", "the handing over waits for the sender or for the stop of the client", vspec.Waiting(vcCl.streamCh) && vspec.Waiting(vcCl.closeCh) && vspec.Held() == 0)
	vspec.MayClose(vcCl.closeCh)
}

//govc:extern (github.com/kitex-contrib/xds/core/manager.ADSStream).Close
func modelStreamClose(s ADSStream) error {
	vcClosedN++
	vcClosedS = vspec.Ident(s)
	return vspec.Any[error]("close")
}

var (
	vcClosedN int
	vcClosedS int
)

//govc:prop C04
//govc:nopanic
//govc:interfere relyReconnect
//govc:await awaitHand
//govc:use modelConnect = (*github.com/kitex-contrib/xds/core/manager.xdsClient).connect
//govc:use modelClear = github.com/kitex-contrib/xds/core/manager.clearRequestCh
func VC_C04_reconnect(c *xdsClient, rt xdsresource.ResourceType, name string) {
	vspec.Requires(c != nil && c.reqCh != nil && c.streamCh != nil && c.closeCh != nil && c.resourceUpdater != nil)
	vcCl, vcRT, vcName = c, rt, name
	vcOpenN, vcOverN2, vcStaleCh, vcStaleOver = 0, 0, true, true
	n := vspec.SentN(c.streamCh)
	ver, sub := c.versionMap[rt], specIn(c.watchedResource[rt], name)
	r, in := c.resourceUpdater.cache[rt][name]
	as, err := c.reconnect()
	vspec.Ensures("C04", "a stream or an error", (as != nil) == (err == nil) && vcOpenN == 1)
	vspec.Ensures("C04", "the sender gets the new stream", err != nil || as == vcStream && vcOverN2 == 1 && vspec.SentN(c.streamCh) == n+1 && vspec.SentAt[ADSStream](c.streamCh, n) == as)
	vspec.Ensures("C04", "a stream that is opened is handed over unless the client is stopped", err == nil || vcStream == nil || vspec.Closed(c.closeCh))
	vspec.Ensures("C04", "the versions are kept", c.versionMap[rt] == ver)
	vspec.Ensures("C04", "the subscriptions are kept", specIn(c.watchedResource[rt], name) == sub)
	r2, in2 := c.resourceUpdater.cache[rt][name]
	vspec.Ensures("C04", "what is cached is kept", in2 == in && (!in || r2 == r))
}

// ---- dropping the queued requests

var vcBase int

// every iteration takes one
func invCleared(ch chan *discoveryv3.DiscoveryRequest, ownI int, length int) bool {
	return vspec.SentN(ch)-vspec.RecvN(ch) <= length-ownI
}

//govc:prop C04
//govc:loops invCleared
func VC_C04_clear(c *xdsClient) {
	vspec.Requires(c != nil && c.reqCh != nil && !vspec.Closed(c.reqCh))
	c.mu.Lock()
	clearRequestCh(c.reqCh, len(c.reqCh))
	vspec.Ensures("C04", "all queued requests are dropped", vspec.SentN(c.reqCh)-vspec.RecvN(c.reqCh) <= 0)
	c.mu.Unlock()
}

// ---- the overflow

var (
	vcOver  []*discoveryv3.DiscoveryRequest
	vcOverN int
	vcAt    *discoveryv3.DiscoveryRequest
)

// request vcIdx is in the channel or still in the overflow, at its place
func invRefill() bool {
	k := vspec.SentN(vcCl.reqCh) - vcBase
	if k < 0 || k > vcOverN || len(vcCl.overflow) != vcOverN-k {
		return false
	}
	if vcIdx < k {
		return vspec.SentAt[*discoveryv3.DiscoveryRequest](vcCl.reqCh, vcBase+vcIdx) == vcAt
	}
	return vcCl.overflow[vcIdx-k] == vcAt
}

//govc:prop C04
//govc:loops invRefill
func VC_C04_refill(c *xdsClient, i int) {
	vspec.Requires(c != nil && c.reqCh != nil && !vspec.Closed(c.reqCh) && 0 <= i && i < len(c.overflow))
	vcCl, vcIdx, vcOver, vcOverN, vcAt = c, i, c.overflow, len(c.overflow), c.overflow[i]
	vcBase = vspec.SentN(c.reqCh)
	c.refillRequestCh()
	vspec.Ensures("C03 C04", "requests move to the channel in order, none is lost or doubled", invRefill())
}

// ---- requesting everything again

var (
	vcPreq    *discoveryv3.DiscoveryRequest // the request for the type vcRT
	vcPos     int
	vcPrepRT  int
	vcPrepB   bool
	vcSentRT  bool
	vcSentB   bool
	vcSendErr bool
)

func modelPrepareRe(c *xdsClient, rt xdsresource.ResourceType, version, nonce string, res map[string]bool) *discoveryv3.DiscoveryRequest {
	req := &discoveryv3.DiscoveryRequest{VersionInfo: version, ResponseNonce: nonce}
	if nonce != "" {
		vcPrepB = true
	}
	if rt == vcRT {
		if c != vcCl || vspec.Held() == 0 || version != vcCl.versionMap[vcRT] || vspec.Ident(res) != vspec.Ident(vcCl.watchedResource[vcRT]) || vcPrepRT != 0 {
			vcPrepB = true
		}
		vcPrepRT++
		vcPreq, vcPos = req, vcPrepN
	}
	vcPrepN++
	return req
}

func modelSendRe(as ADSStream, req *discoveryv3.DiscoveryRequest) error {
	if as != vcStream {
		vcSentB = true
	}
	if req == vcPreq {
		vcSentRT = true
	}
	err := vspec.Any[error]("send")
	if err != nil {
		vcSendErr = true
	}
	return err
}

func invResubLen(reqs []*discoveryv3.DiscoveryRequest) bool { return len(reqs) == vcPrepN }

func invResubSeen(seen vspec.Set[xdsresource.ResourceType]) bool {
	return vcPrepRT == 0 && !seen.Has(vcRT) || vcPrepRT == 1 && seen.Has(vcRT)
}

func invResubPrep() bool { return !vcPrepB && vcPrepN >= 0 }

func invResubKept(reqs []*discoveryv3.DiscoveryRequest) bool {
	return vcPrepRT == 0 || vcPos >= 0 && vcPos < len(reqs) && reqs[vcPos] == vcPreq
}

func invResubSent(reqs []*discoveryv3.DiscoveryRequest, ownI int) bool {
	return !vcSentB && !vcSendErr && (vcPrepRT == 0 || ownI <= vcPos || vcSentRT)
}

//govc:prop C04
//govc:nopanic
//govc:loops invResubLen invResubSeen invResubPrep invResubKept invResubSent
//govc:use modelPrepareRe = (*github.com/kitex-contrib/xds/core/manager.xdsClient).prepareRequest
//govc:use modelSendRe = (github.com/kitex-contrib/xds/core/manager.ADSStream).Send
func VC_C04_resubscribe(c *xdsClient, as ADSStream, rt xdsresource.ResourceType) {
	vspec.Requires(c != nil && as != nil && c.config != nil)
	vcCl, vcRT, vcStream = c, rt, as
	vcPreq, vcPos, vcPrepN, vcPrepRT, vcPrepB, vcSentRT, vcSentB, vcSendErr = nil, 0, 0, 0, false, false, false, false
	_, sub := c.watchedResource[rt]
	err := c.reqWhenReconnect(as)
	vspec.Ensures("C04", "every subscribed type is requested again on the new stream", err != nil || !sub || vcPrepRT == 1 && vcSentRT)
	vspec.Ensures("C04", "with its whole set, the last accepted version and an empty nonce, read at one moment", !vcPrepB && (sub || vcPrepRT == 0))
	vspec.Ensures("C04", "nothing is sent on another stream", !vcSentB)
	vspec.Ensures("C04", "a failure is reported", (err != nil) == vcSendErr)
}

// ---- the sender

var (
	vcDead    bool // a send on the stream in use failed
	vcTookN   int
	vcGotN    int
	vcSentCnt int
	vcLastReq *discoveryv3.DiscoveryRequest
	vcRefillN int
	vcResubN  int
)

func modelSendTo(as ADSStream, req *discoveryv3.DiscoveryRequest) error {
	if as != vcStream || vspec.Held() != 0 {
		vcSentB = true
	}
	vcSentCnt++
	vcLastReq = req
	err := vspec.Any[error]("send")
	if err != nil {
		vcDead = true
	}
	return err
}

// reqWhenReconnect by its contract (VC_C04_resubscribe)
func modelResub(c *xdsClient, as ADSStream) error {
	if c != vcCl || vspec.RecvN(c.streamCh) == 0 || as != vspec.SentAt[ADSStream](c.streamCh, vspec.RecvN(c.streamCh)-1) {
		vcSentB = true
	}
	vspec.Requires(as != nil) // VC_C04_reconnect
	vcResubN++
	vcStream, vcDead = as, false
	err := vspec.Any[error]("send")
	if err != nil {
		vcDead = true
	}
	return err
}

// refillRequestCh by its contract (VC_C04_refill)
func modelRefill(c *xdsClient) { vcRefillN++ }

// the sender uses the stream that was handed to it last, until a send on it fails
func invSender(cur ADSStream) bool { return cur != nil && cur == vcStream || cur == nil && vcDead }

func invSenderTook() bool {
	return vspec.RecvN(vcCl.reqCh) == vcTookN || vcDead || vcSentCnt >= 1 && vcLastReq == vspec.SentAt[*discoveryv3.DiscoveryRequest](vcCl.reqCh, vspec.RecvN(vcCl.reqCh)-1)
}

func invSenderRefill() bool { return vspec.RecvN(vcCl.reqCh) == vcTookN || vcRefillN >= 1 }

func invSenderResub() bool { return vspec.RecvN(vcCl.streamCh) == vcGotN || vcResubN >= 1 }

func invSenderGood() bool {
	return !vcSentB && !vspec.Closed(vcCl.reqCh) && !vspec.Closed(vcCl.streamCh)
}

func awaitSender() {
	vspec.Ensures("C04 C03", "the sender takes requests and new streams, and stops with the client", vspec.Waiting(vcCl.closeCh) && vspec.Waiting(vcCl.reqCh) && vspec.Waiting(vcCl.streamCh) && vspec.Held() == 0)
	vspec.Ensures("C04 C02 C03", "a request that is taken is sent, unless the stream is broken", invSenderTook())
	vspec.Ensures("C04 C03", "requests move up when one is taken", invSenderRefill())
	vspec.Ensures("C04", "everything is requested again on a new stream", invSenderResub())
	vspec.Ensures("C04", "requests are sent on the stream that was handed over last only", !vcSentB)
	vspec.MayClose(vcCl.closeCh)
	vcTookN, vcGotN = vspec.RecvN(vcCl.reqCh), vspec.RecvN(vcCl.streamCh)
	vcSentCnt, vcRefillN, vcResubN = 0, 0, 0
}

//govc:prop C04 C03 C02
//govc:nopanic
//govc:await awaitSender
//govc:loops invSender invSenderTook invSenderRefill invSenderResub invSenderGood
//govc:use modelSendTo = (github.com/kitex-contrib/xds/core/manager.ADSStream).Send
//govc:use modelResub = (*github.com/kitex-contrib/xds/core/manager.xdsClient).reqWhenReconnect
//govc:use modelRefill = (*github.com/kitex-contrib/xds/core/manager.xdsClient).refillRequestCh
func VC_C04_sender(c *xdsClient, as ADSStream) {
	vspec.Requires(c != nil && as != nil && c.reqCh != nil && c.streamCh != nil && c.closeCh != nil && !vspec.Closed(c.reqCh) && !vspec.Closed(c.streamCh))
	vspec.Requires(vspec.Ident(c.streamCh) != vspec.Ident(c.reqCh) && vspec.Ident(c.closeCh) != vspec.Ident(c.reqCh) && vspec.Ident(c.closeCh) != vspec.Ident(c.streamCh)) // their types differ
	vcCl, vcStream, vcDead, vcSentB = c, as, false, false
	vcTookN, vcGotN = vspec.RecvN(c.reqCh), vspec.RecvN(c.streamCh)
	vcSentCnt, vcRefillN, vcResubN = 0, 0, 0
	c.sender(as)
	vspec.Ensures("C04", "the sender stops with the client only", vspec.Closed(c.closeCh))
}

// ---- the stop

// close by its contract (VC_C04_close)
func modelCloseCl(c *xdsClient) {
	if !vspec.Closed(c.closeCh) {
		close(c.closeCh)
	}
}

//govc:prop C04 C05
func VC_C04_close(ch chan struct{}) {
	vspec.Requires(ch != nil && !vspec.Closed(ch))
	c := &xdsClient{closeCh: ch}
	c.close()
	vspec.Ensures("C04", "the client is stopped", vspec.Closed(ch))
	c.close()
}

// ---- the receiver

var (
	vcResp   *discoveryv3.DiscoveryResponse
	vcPend   bool // a response waits to be handled
	vcFail   bool // receiving failed, and the stream has not been replaced
	vcFailE  error
	vcReconN int
	vcRecvB  bool
)

// IsAuthError by its contract (VC_C04_auth): it depends on the error only
func modelIsAuth(err error) bool { return vspec.Fn[bool]("isAuth", vspec.Ident(err)) }

func specNextRecv(as ADSStream) {
	vspec.Ensures("C01 C02 C04", "every response is handled", !vcPend)
	vspec.Ensures("C04", "a stream that fails is closed, and replaced if possible", !vcFail || vcReconN >= 1 && vcClosedN >= 1 && vcClosedS == vspec.Ident(vcStream))
	vspec.Ensures("C04", "nothing is received after an authentication failure", !vcFail || !modelIsAuth(vcFailE))
	vspec.Ensures("C04", "the receiver stops with the client", !vspec.Closed(vcCl.closeCh))
	vspec.Ensures("C04", "responses are received from the stream in use", as == vcStream && vspec.Held() == 0)
}

func modelRecv(as ADSStream) (*discoveryv3.DiscoveryResponse, error) {
	specNextRecv(as)
	vspec.MayClose(vcCl.closeCh)
	vcClosedN, vcReconN = 0, 0
	if err := vspec.Any[error]("recv"); err != nil {
		vcFail, vcFailE = true, err
		return nil, err
	}
	vcFail = false
	vcResp = vspec.Any[*discoveryv3.DiscoveryResponse]("recv")
	vspec.Requires(vcResp != nil)
	vcPend = true
	return vcResp, nil
}

// handleResponse by its contract
func modelHandle(c *xdsClient, msg interface{}) error {
	resp, ok := msg.(*discoveryv3.DiscoveryResponse)
	if !ok || resp != vcResp || !vcPend || c != vcCl {
		vcRecvB = true
	}
	vcPend = false
	return vspec.Any[error]("handle")
}

// reconnect by its contract (VC_C04_reconnect)
func modelReconnect(c *xdsClient) (ADSStream, error) {
	if !vcFail || c != vcCl || modelIsAuth(vcFailE) || vcClosedN == 0 || vcClosedS != vspec.Ident(vcStream) {
		vcRecvB = true
	}
	vcReconN++
	if err := vspec.Any[error]("open"); err != nil {
		return nil, err
	}
	vcStream = vspec.Any[ADSStream]("open")
	vspec.Requires(vcStream != nil)
	vcFail = false
	return vcStream, nil
}

func invReceiver(cur ADSStream) bool { return cur == vcStream && cur != nil }

func invReceived() bool {
	return !vcPend && !vcRecvB && (!vcFail || vcReconN >= 1 && vcClosedN >= 1 && vcClosedS == vspec.Ident(vcStream) && !modelIsAuth(vcFailE))
}

//govc:prop C04 C01 C02
//govc:nopanic
//govc:loops invReceiver invReceived
//govc:use modelRecv = (github.com/kitex-contrib/xds/core/manager.ADSStream).Recv
//govc:use modelHandle = (*github.com/kitex-contrib/xds/core/manager.xdsClient).handleResponse
//govc:use modelReconnect = (*github.com/kitex-contrib/xds/core/manager.xdsClient).reconnect
//govc:use modelCloseCl = (*github.com/kitex-contrib/xds/core/manager.xdsClient).close
//govc:use modelIsAuth = github.com/kitex-contrib/xds/core/manager/auth.IsAuthError
func VC_C04_receiver(c *xdsClient, as ADSStream) {
	vspec.Requires(c != nil && as != nil && c.closeCh != nil)
	vcCl, vcStream, vcPend, vcFail, vcRecvB = c, as, false, false, false
	vcClosedN, vcReconN = 0, 0
	c.receiver(as)
	vspec.Ensures("C04", "the receiver stops with the client only, and stops the client after an authentication failure", vspec.Closed(c.closeCh))
	vspec.Ensures("C01 C02 C04", "responses are handled once each, streams are replaced when they fail", !vcRecvB && !vcPend)
}

// ---- start-up

var (
	vcStartS ADSStream
	vcStartR ADSStream
	vcStartN int
	vcWarmN  int
	vcWarmB  bool
)

func modelStartSender(c *xdsClient, as ADSStream) {
	vcStartN++
	vcStartS = as
}

func modelStartReceiver(c *xdsClient, as ADSStream) {
	vcStartN++
	vcStartR = as
}

// warmup by its contract (VC_C04_warmup)
func modelWarm(c *xdsClient) {
	vcWarmN++
	if vcStartN != 2 {
		vcWarmB = true
	}
}

//govc:prop C04 C05
//govc:use modelConnect = (*github.com/kitex-contrib/xds/core/manager.xdsClient).connect
//govc:use modelStartSender = (*github.com/kitex-contrib/xds/core/manager.xdsClient).sender
//govc:use modelStartReceiver = (*github.com/kitex-contrib/xds/core/manager.xdsClient).receiver
//govc:use modelWarm = (*github.com/kitex-contrib/xds/core/manager.xdsClient).warmup
//govc:use modelCloseCl = (*github.com/kitex-contrib/xds/core/manager.xdsClient).close
func VC_C04_run(c *xdsClient) {
	vspec.Requires(c != nil && c.closeCh != nil)
	vcCl, vcStartN, vcWarmN, vcWarmB, vcOpenN = c, 0, 0, false, 0
	c.run()
	if vcStream == nil {
		vspec.Ensures("C04 C05", "without a stream the client is stopped", vspec.Closed(c.closeCh) && vcStartN == 0)
	} else {
		vspec.Ensures("C04", "the sender and the receiver use the stream", vcStartN == 2 && vcStartS == vcStream && vcStartR == vcStream)
		vspec.Ensures("C04", "then the first subscriptions are made", vcWarmN == 1 && !vcWarmB)
	}
}

var (
	vcWatchNDS int
	vcWatchLDS int
	vcWaitNDS  int
	vcWaitLDS  int
)

func modelWatchWarm(c *xdsClient, rt xdsresource.ResourceType, name string, remove bool) {
	if remove || c != vcCl {
		vcWarmB = true
	}
	if rt == xdsresource.NameTableType {
		vcWatchNDS++
	}
	if rt == xdsresource.ListenerType && name == xdsresource.ReservedLdsResourceName {
		vcWatchLDS++
	}
}

func awaitWarm() {
	vspec.Ensures("C04 C05", "the start-up does not outlive the client", vspec.Waiting(vcCl.closeCh) && vspec.Held() == 0)
	if vspec.Waiting(vcCl.cipResolver.initRequestCh) {
		vcWaitNDS++
		vspec.Ensures("C04", "the name table is waited for after it is subscribed", vcWatchNDS >= 1)
	} else {
		vspec.Ensures("C04", "the inbound listener is waited for after it is subscribed", vspec.Waiting(vcCl.inboundInitRequestCh) && vcWatchLDS >= 1)
		vcWaitLDS++
	}
	vspec.MayClose(vcCl.closeCh)
}

//govc:prop C04 C05 C14
//govc:await awaitWarm
//govc:use modelWatchWarm = (*github.com/kitex-contrib/xds/core/manager.xdsClient).Watch
func VC_C04_warmup(c *xdsClient) {
	vspec.Requires(c != nil && c.closeCh != nil && c.config != nil && c.config.xdsSvrCfg != nil && c.cipResolver != nil && c.cipResolver.initRequestCh != nil && c.inboundInitRequestCh != nil && c.cipResolver.initRequestCh != c.inboundInitRequestCh && c.cipResolver.initRequestCh != c.closeCh && c.inboundInitRequestCh != c.closeCh)
	vcCl, vcWarmB = c, false
	vcWatchNDS, vcWatchLDS, vcWaitNDS, vcWaitLDS = 0, 0, 0, 0
	c.warmup()
	nds, lds := !c.config.xdsSvrCfg.NDSNotRequired, !c.config.xdsSvrCfg.LDSNotRequired
	vspec.Ensures("C04 C14", "the name table is subscribed and waited for", !vcWarmB && (vspec.Closed(c.closeCh) || !nds || vcWatchNDS == 1 && vspec.Closed(c.cipResolver.initRequestCh)))
	vspec.Ensures("C04", "the inbound listener is subscribed and waited for", vspec.Closed(c.closeCh) || !lds || vcWatchLDS == 1 && vspec.Closed(c.inboundInitRequestCh))
	vspec.Ensures("C04", "nothing else is subscribed", (nds || vcWatchNDS == 0) && (lds || vcWatchLDS == 0))
}
