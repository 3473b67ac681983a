package manager

import (
	"context"
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/cloudwego/kitex/client/callopt"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/codes"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status"
	v3clusterpb "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpointpb "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listenerpb "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3routepb "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3httppb "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	nds "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/rp"
	"github.com/kitex-contrib/xds/zzverif/xg"
)

type (
	vrRT  = xdsresource.ResourceType
	vrReq = discoveryv3.DiscoveryRequest
)

var vrTypes = []vrRT{xdsresource.ListenerType, xdsresource.RouteConfigType, xdsresource.ClusterType, xdsresource.EndpointsType, xdsresource.NameTableType}

var vrURL = map[vrRT]string{
	xdsresource.ListenerType:    "type.googleapis.com/envoy.config.listener.v3.Listener",
	xdsresource.RouteConfigType: "type.googleapis.com/envoy.config.route.v3.RouteConfiguration",
	xdsresource.ClusterType:     "type.googleapis.com/envoy.config.cluster.v3.Cluster",
	xdsresource.EndpointsType:   "type.googleapis.com/envoy.config.endpoint.v3.ClusterLoadAssignment",
	xdsresource.NameTableType:   "type.googleapis.com/istio.networking.nds.v1.NameTable",
}

var vrName = map[vrRT]string{xdsresource.ListenerType: "LDS", xdsresource.RouteConfigType: "RDS", xdsresource.ClusterType: "CDS", xdsresource.EndpointsType: "EDS", xdsresource.NameTableType: "NDS"}

func vrTypeOf(url string) (vrRT, bool) {
	for t, u := range vrURL {
		if u == url {
			return t, true
		}
	}
	return 0, false
}

// ---- a scripted control plane

type vrSent struct {
	stream int
	req    *vrReq
	failed bool
}

type vrItem struct {
	resp *discoveryv3.DiscoveryResponse
	err  error
}

type vrServer struct {
	ADSClient
	mu       sync.Mutex
	streams  []*vrStream
	log      []vrSent
	openErrs int // the next stream creations that fail
	opens    int
	openErr  error
	onSend   func(s *vrStream, req *vrReq) // called without the lock, before the request is logged
	onOpen   func(n int)                   // called without the lock, before stream n is opened
}

type vrStream struct {
	ADSStream
	idx     int
	sv      *vrServer
	in      chan vrItem
	waiting int // calls of Recv so far
	failN   int // the next sends that fail
	closed  bool
	issued  map[string]bool
}

func (s *vrServer) StreamAggregatedResources(ctx context.Context, opts ...callopt.Option) (ADSStream, error) {
	if f := s.onOpen; f != nil {
		s.mu.Lock()
		n := len(s.streams)
		s.mu.Unlock()
		f(n)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.opens++
	if s.openErrs > 0 {
		s.openErrs--
		if s.openErr != nil {
			return nil, s.openErr
		}
		return nil, errors.New("cannot open the stream")
	}
	st := &vrStream{idx: len(s.streams), sv: s, in: make(chan vrItem, 64), issued: map[string]bool{}}
	s.streams = append(s.streams, st)
	return st, nil
}

func (s *vrStream) Send(req *vrReq) error {
	req = proto.Clone(req).(*vrReq)
	if f := s.sv.onSend; f != nil {
		f(s, req)
	}
	s.sv.mu.Lock()
	defer s.sv.mu.Unlock()
	if s.failN > 0 {
		s.failN--
		s.sv.log = append(s.sv.log, vrSent{s.idx, req, true})
		return errors.New("send failed")
	}
	s.sv.log = append(s.sv.log, vrSent{s.idx, req, false})
	return nil
}

func (s *vrStream) Recv() (*discoveryv3.DiscoveryResponse, error) {
	s.sv.mu.Lock()
	s.waiting++
	s.sv.mu.Unlock()
	it := <-s.in
	return it.resp, it.err
}

func (s *vrStream) Close() error {
	s.sv.mu.Lock()
	defer s.sv.mu.Unlock()
	s.closed = true
	return nil
}

func (s *vrServer) last() *vrStream {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.streams) == 0 {
		return nil
	}
	return s.streams[len(s.streams)-1]
}

func (s *vrServer) nlog() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.log) }

func (s *vrServer) since(n int) []vrSent {
	s.mu.Lock()
	defer s.mu.Unlock()
	if n > len(s.log) {
		return nil
	}
	return append([]vrSent{}, s.log[n:]...)
}

// vrUntil waits for a condition.
func vrUntil(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for i := 0; ; i++ {
		if f() {
			return true
		}
		runtime.Gosched()
		if i > 2000 {
			if time.Now().After(end) {
				return f()
			}
			time.Sleep(50 * time.Microsecond)
		}
	}
}

// vrSettle lets every runnable goroutine go on
func vrSettle() {
	for i := 0; i < 50; i++ {
		runtime.Gosched()
	}
	if runtime.GOMAXPROCS(0) > 1 {
		time.Sleep(300 * time.Microsecond)
	}
}

const vrSlow = 3 * time.Second

// ---- resources with a recognisable content

func vrListener(name string, id int) *anypb.Any {
	hcm := xg.Any(&v3httppb.HttpConnectionManager{RouteSpecifier: &v3httppb.HttpConnectionManager_Rds{Rds: &v3httppb.Rds{RouteConfigName: fmt.Sprintf("id-%d", id)}}})
	return xg.Any(&v3listenerpb.Listener{Name: name, FilterChains: []*v3listenerpb.FilterChain{{Filters: []*v3listenerpb.Filter{{Name: "hcm", ConfigType: &v3listenerpb.Filter_TypedConfig{TypedConfig: hcm}}}}}})
}

func vrResource(t vrRT, name string, id int) *anypb.Any {
	switch t {
	case xdsresource.ListenerType:
		return vrListener(name, id)
	case xdsresource.RouteConfigType:
		return xg.Any(&v3routepb.RouteConfiguration{Name: name, VirtualHosts: []*v3routepb.VirtualHost{{Name: fmt.Sprintf("id-%d", id), Domains: []string{"*"}}}})
	case xdsresource.ClusterType:
		return xg.Any(&v3clusterpb.Cluster{Name: name, ClusterDiscoveryType: &v3clusterpb.Cluster_Type{Type: v3clusterpb.Cluster_EDS}, EdsClusterConfig: &v3clusterpb.Cluster_EdsClusterConfig{ServiceName: fmt.Sprintf("id-%d", id)}})
	case xdsresource.EndpointsType:
		return xg.Any(&v3endpointpb.ClusterLoadAssignment{ClusterName: name, Endpoints: []*v3endpointpb.LocalityLbEndpoints{{LbEndpoints: []*v3endpointpb.LbEndpoint{{HostIdentifier: &v3endpointpb.LbEndpoint_Endpoint{Endpoint: &v3endpointpb.Endpoint{
			Address: &v3core.Address{Address: &v3core.Address_SocketAddress{SocketAddress: &v3core.SocketAddress{Address: fmt.Sprintf("id-%d", id), PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: 80}}}}}}}}}}})
	}
	return nil
}

// vrID is the content of a decoded resource, "" if it is not of the type.
func vrID(t vrRT, res interface{}) string {
	switch t {
	case xdsresource.ListenerType:
		if l, ok := res.(*xdsresource.ListenerResource); ok && l != nil && len(l.NetworkFilters) == 1 {
			return l.NetworkFilters[0].RouteConfigName
		}
	case xdsresource.RouteConfigType:
		if c, ok := res.(*xdsresource.RouteConfigResource); ok && c != nil && c.HTTPRouteConfig != nil && len(c.HTTPRouteConfig.VirtualHosts) == 1 {
			return c.HTTPRouteConfig.VirtualHosts[0].Name
		}
	case xdsresource.ClusterType:
		if c, ok := res.(*xdsresource.ClusterResource); ok && c != nil {
			return c.EndpointName
		}
	case xdsresource.EndpointsType:
		if e, ok := res.(*xdsresource.EndpointsResource); ok && e != nil && len(e.Localities) == 1 && len(e.Localities[0].Endpoints) == 1 {
			return strings.TrimSuffix(e.Localities[0].Endpoints[0].Addr().String(), ":80")
		}
	}
	return ""
}

// ---- names, as the property defines them

func vrFQDN(host, ns, domain string) string {
	if strings.Contains(host, ".svc.") {
		return host
	}
	switch n := strings.Count(host, ".") + 1; {
	case n == 1:
		return host + "." + ns + ".svc." + domain
	case n == 2:
		return host + ".svc." + domain
	case n == 3:
		if strings.HasSuffix(host, ".svc") {
			return host + "." + domain
		}
		return host
	}
	return host + "." + ns + ".svc." + domain
}

func vrLookupHost(tab map[string][]string, host, ns, domain string) string {
	find := func(h string) string {
		for k, ips := range tab {
			if strings.EqualFold(k, h) && len(ips) > 0 {
				return ips[0]
			}
		}
		return ""
	}
	l := strings.ToLower(host)
	if ip := find(vrFQDN(l, ns, domain)); ip != "" {
		return ip
	}
	return find(l)
}

func vrListenerName(tab map[string][]string, name, ns, domain string) string {
	host, port := name, "80"
	switch strings.Count(name, ":") {
	case 0:
	case 1:
		i := strings.Index(name, ":")
		host, port = name[:i], name[i+1:]
	default:
		return ""
	}
	if ip := vrLookupHost(tab, host, ns, domain); ip != "" {
		return ip + "_" + port
	}
	return ""
}

// ---- the client under test and what it should do

type vrLookup struct {
	t      vrRT
	name   string
	cancel context.CancelFunc
	done   chan struct{}
	res    interface{}
	err    error
	pan    interface{}
}

type vrWorld struct {
	r    *rp.R
	sv   *vrServer
	m    *xdsResourceManager
	c    *xdsClient
	cfg  *BootstrapConfig
	nds  bool
	ns   string
	dom  string
	tags map[string]bool // properties that were violated
	dead bool
	log  []string
	seq  int

	watched  map[vrRT]map[string]bool
	fold     map[vrRT]map[string]string
	version  map[vrRT]string
	nonce    map[vrRT]string
	table    map[string][]string
	lds      map[string]string // listener name -> content of the last accepted response
	pending  []*vrLookup
	starting bool
	sendBad  bool // the current stream refuses requests
	at       int  // the requests checked so far
	ldsVer   string
}

// bad reports a violation of the properties; the history ends.
func (w *vrWorld) bad(props, format string, a ...interface{}) {
	if w.dead {
		return
	}
	w.dead = true
	if os.Getenv("VERIF_LOG") != "" {
		fmt.Printf("%s: %s; %v\n", props, fmt.Sprintf(format, a...), w.log)
	}
	for _, p := range strings.Fields(props) {
		if p == w.r.Prop {
			l := w.log
			if len(l) > 25 {
				l = append([]string{"..."}, l[len(l)-25:]...)
			}
			w.r.Fail("%s; history: %s", fmt.Sprintf(format, a...), strings.Join(l, "; "))
			return
		}
	}
}

func (w *vrWorld) note(f string, a ...interface{}) { w.log = append(w.log, fmt.Sprintf(f, a...)) }

func vrManager(cfg *XDSServerConfig) *xdsResourceManager {
	return &xdsResourceManager{
		cache:       map[vrRT]map[string]xdsresource.Resource{},
		meta:        make(map[vrRT]map[string]*xdsresource.ResourceMeta),
		notifierMap: make(map[vrRT]map[string]*notifier),
		opts:        NewOptions([]Option{{F: func(o *Options) { o.XDSSvrConfig = cfg }}}),
		closeCh:     make(chan struct{}),
		xdsHandlers: make(map[vrRT][]xdsresource.XDSUpdateHandler),
	}
}

// vrNewWorld starts a client against the scripted control plane and completes the start-up.
func vrNewWorld(r *rp.R, nds, lds bool) *vrWorld {
	w := &vrWorld{r: r, sv: &vrServer{}, nds: nds, ns: rp.Pick(r, "default", "ns1"), dom: rp.Pick(r, "cluster.local", "example.org"),
		watched: map[vrRT]map[string]bool{}, fold: map[vrRT]map[string]string{}, version: map[vrRT]string{}, nonce: map[vrRT]string{}}
	sc := &XDSServerConfig{SvrAddr: "fake", SvrName: "fake", NDSNotRequired: !nds, LDSNotRequired: !lds, FetchXDSTimeout: 20 * time.Second}
	w.cfg = &BootstrapConfig{configNamespace: w.ns, nodeDomain: w.dom, node: &v3core.Node{Id: fmt.Sprintf("sidecar~node-%d", r.Intn(1000))}, xdsSvrCfg: sc}
	w.m = vrManager(sc)
	done := make(chan struct{})
	go func() {
		defer close(done)
		c, err := newXdsClient(w.cfg, w.sv, w.m)
		if err == nil {
			w.c = c
			w.m.client = c
		}
	}()
	if !vrUntil(vrSlow, func() bool { return w.sv.last() != nil && w.idle(1) }) {
		w.bad("C04 C05", "the client does not start")
		return w
	}
	w.starting = true
	if nds {
		w.watch(xdsresource.NameTableType, "")
		w.expect("C03", w.reqFor(xdsresource.NameTableType, false))
		w.push(w.tableResponse())
	}
	if lds {
		w.watch(xdsresource.ListenerType, xdsresource.ReservedLdsResourceName)
		w.expect("C03", w.reqFor(xdsresource.ListenerType, false))
		w.push(w.response(xdsresource.ListenerType, 0))
	}
	w.starting = false
	if w.dead {
		return w
	}
	select {
	case <-done:
	case <-time.After(vrSlow):
		w.bad("C04 C05", "the start-up does not end when the control plane has answered")
	}
	if w.c == nil {
		w.bad("C04 C05", "no client")
	}
	return w
}

func (w *vrWorld) close() {
	if w.c != nil {
		w.c.close()
	}
	close(w.m.closeCh)
	for _, l := range w.pending {
		l.cancel()
	}
	// let the receiver go
	s := w.sv.last()
	if s != nil {
		s.in <- vrItem{err: status.Err(codes.Unauthenticated, "closed")}
	}
}

// idle: the receiver waits on the current stream for the nth time
func (w *vrWorld) idle(n int) bool {
	s := w.sv.last()
	w.sv.mu.Lock()
	defer w.sv.mu.Unlock()
	return s.waiting >= n
}

func (w *vrWorld) watch(t vrRT, n string) bool {
	if w.watched[t] == nil {
		w.watched[t] = map[string]bool{}
	}
	if w.watched[t][n] {
		return false
	}
	w.watched[t][n] = true
	return true
}

func keysOf(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// reqFor is the request that the state calls for.
func (w *vrWorld) reqFor(t vrRT, nack bool) *vrReq {
	q := &vrReq{TypeUrl: vrURL[t], VersionInfo: w.version[t], ResponseNonce: w.nonce[t], ResourceNames: keysOf(w.watched[t]), Node: w.cfg.node}
	if nack {
		q.ErrorDetail = nil
	}
	return q
}

func vrShow(q *vrReq) string {
	t, _ := vrTypeOf(q.TypeUrl)
	return fmt.Sprintf("%s v=%q n=%q %q err=%v", vrName[t], q.VersionInfo, q.ResponseNonce, q.ResourceNames, q.ErrorDetail != nil)
}

// compare two requests; the properties that the difference violates
func vrDiff(got, want *vrReq, nack bool) (string, string) {
	g := append([]string{}, got.ResourceNames...)
	sort.Strings(g)
	w := append([]string{}, want.ResourceNames...)
	sort.Strings(w)
	switch {
	case got.TypeUrl != want.TypeUrl:
		return "C02 C03 C04", "type"
	case strings.Join(g, "\x00") != strings.Join(w, "\x00") || len(g) != len(w):
		return "C03 C04", "names"
	case !proto.Equal(got.Node, want.Node):
		return "C03 C20", "node"
	case got.ResponseNonce != want.ResponseNonce:
		return "C02 C04", "nonce"
	case got.VersionInfo != want.VersionInfo:
		return "C02 C04", "version"
	case (got.ErrorDetail != nil) != nack:
		return "C02", "error detail"
	case nack && got.ErrorDetail.GetMessage() == "":
		return "C02", "empty error detail"
	}
	return "", ""
}

// expect waits for exactly one request on the current stream.
func (w *vrWorld) expect(props string, want *vrReq, nack ...bool) {
	if w.dead {
		return
	}
	if w.sendBad {
		w.at = w.sv.nlog()
		return
	}
	na := len(nack) > 0 && nack[0]
	if !vrUntil(vrSlow, func() bool { return w.sv.nlog() > w.at }) {
		w.bad(props, "no request, want %s", vrShow(want))
		return
	}
	got := w.sv.since(w.at)[0]
	w.at++
	w.judge(got, want, na)
}

func (w *vrWorld) judge(got vrSent, want *vrReq, nack bool) {
	if got.stream != w.sv.last().idx {
		w.bad("C02 C03 C04", "the request %s was sent on stream %d, the live one is %d", vrShow(got.req), got.stream, w.sv.last().idx)
		return
	}
	if p, what := vrDiff(got.req, want, nack); p != "" {
		w.bad(p, "the request is {%s}, want {%s err=%v}: %s", vrShow(got.req), vrShow(want), nack, what)
	}
}

// quiet checks that nothing more was sent.
func (w *vrWorld) quiet(props string) {
	if w.dead || w.starting {
		return
	}
	vrSettle()
	if l := w.sv.since(w.at); len(l) > 0 && !w.sendBad {
		w.bad(props, "unexpected request %s", vrShow(l[0].req))
	}
	w.at = w.sv.nlog()
}

// deliver hands a response to the receiver and waits until it was processed.
func (w *vrWorld) deliver(resp *discoveryv3.DiscoveryResponse) bool {
	s := w.sv.last()
	w.sv.mu.Lock()
	n := s.waiting
	w.sv.mu.Unlock()
	s.in <- vrItem{resp: resp}
	if !vrUntil(vrSlow, func() bool { return w.idle(n + 1) }) {
		w.bad("C04 C05 C07", "the receiver does not come back for the next response")
		return false
	}
	return true
}

func (w *vrWorld) get(t vrRT, name string) *vrLookup {
	ctx, cancel := context.WithCancel(context.Background())
	l := &vrLookup{t: t, name: name, cancel: cancel, done: make(chan struct{})}
	go func() {
		defer close(l.done)
		defer func() { l.pan = recover() }()
		l.res, l.err = w.m.Get(ctx, t, name)
	}()
	return l
}

func (l *vrLookup) finished() bool {
	select {
	case <-l.done:
		return true
	default:
		return false
	}
}

// result checks what a finished lookup returned; want "" is an error
func (w *vrWorld) result(l *vrLookup, want string, props string) {
	l.cancel()
	switch {
	case l.pan != nil:
		w.bad("C05", "lookup of %s %q panics: %v", vrName[l.t], l.name, l.pan)
	case l.err == nil && (l.res == nil || reflect.ValueOf(l.res).Kind() == reflect.Ptr && reflect.ValueOf(l.res).IsNil()):
		w.bad("C05", "lookup of %s %q returns neither a value nor an error", vrName[l.t], l.name)
	case l.err != nil && l.res != nil:
		w.bad("C05", "lookup of %s %q returns a value and an error", vrName[l.t], l.name)
	case want == "" && l.err == nil:
		w.bad("C01 C05", "lookup of %s %q returns %q, want an error", vrName[l.t], l.name, vrID(l.t, l.res))
	case want != "" && l.err != nil:
		w.bad(props+" C01", "lookup of %s %q fails: %v, want %q", vrName[l.t], l.name, l.err, want)
	case want != "" && vrID(l.t, l.res) != want:
		w.bad("C01 C05", "lookup of %s %q returns %q (%T), want %q", vrName[l.t], l.name, vrID(l.t, l.res), l.res, want)
	}
}

// bind gives the watched listeners their content from the last accepted response
func (w *vrWorld) bind() {
	f := map[string]string{}
	for n := range w.watched[xdsresource.ListenerType] {
		ln := n
		if w.nds && n != xdsresource.ReservedLdsResourceName {
			ln = vrListenerName(w.table, n, w.ns, w.dom)
		}
		if id, ok := w.lds[ln]; ok && ln != "" {
			f[n] = id
		}
	}
	w.fold[xdsresource.ListenerType] = f
}

// after an accepted change: waiting lookups whose resource is there return
func (w *vrWorld) wake(t vrRT) {
	var rest []*vrLookup
	for _, l := range w.pending {
		id, ok := w.fold[l.t][l.name]
		if l.t != t || !ok {
			rest = append(rest, l)
			continue
		}
		l := l
		if !vrUntil(vrSlow, l.finished) {
			w.bad("C06 C01", "the waiting lookup of %s %q is not woken by the response that supplies it", vrName[t], l.name)
			return
		}
		w.result(l, id, "C06")
	}
	w.pending = rest
	vrSettle()
	for _, l := range w.pending {
		if l.finished() {
			w.bad("C05 C06", "the waiting lookup of %s %q ended early: %v, %v", vrName[l.t], l.name, l.res, l.err)
			return
		}
	}
}

type vrResp struct {
	*discoveryv3.DiscoveryResponse
	t    vrRT
	good bool
	ids  map[string]string // name -> content
	tab  map[string][]string
	kind string
}

func (w *vrWorld) newResp(t vrRT) *vrResp {
	w.seq++
	return &vrResp{DiscoveryResponse: &discoveryv3.DiscoveryResponse{TypeUrl: vrURL[t], VersionInfo: fmt.Sprintf("v%d", w.seq), Nonce: fmt.Sprintf("n%d", w.seq)}, t: t, good: true, ids: map[string]string{}}
}

var vrHosts = []string{"svca", "svcb", "svca.ns1", "Svcb.ns2", "svca.ns1.svc", "svca.default.svc.cluster.local", "svcc.ns1.svc.example.org", "www.example.com", "a.b.c.d", "org.acme.Greeter.api", "SVCA"}

func (w *vrWorld) lookupName(t vrRT) string {
	r := w.r
	switch t {
	case xdsresource.ListenerType:
		n := rp.Pick(r, vrHosts...)
		if !w.nds && r.Chance(50) {
			return fmt.Sprintf("10.0.0.%d_80", r.Intn(3))
		}
		switch {
		case r.Chance(40):
			n += fmt.Sprintf(":%d", rp.Pick(r, 80, 8080))
		case r.Chance(5):
			n += ":80:80"
		}
		if r.Chance(3) {
			n = xdsresource.ReservedLdsResourceName
		}
		return n
	case xdsresource.RouteConfigType:
		return fmt.Sprintf("route-%d", r.Intn(5))
	case xdsresource.ClusterType:
		return fmt.Sprintf("cluster-%d", r.Intn(5))
	}
	return fmt.Sprintf("eds-%d", r.Intn(5))
}

func (w *vrWorld) tableResponse() *vrResp {
	r := w.r
	p := w.newResp(xdsresource.NameTableType)
	p.tab = map[string][]string{}
	n := &nds.NameTable{Table: map[string]*nds.NameTable_NameInfo{}}
	used := map[string]bool{}
	for k := r.Intn(9); k > 0; k-- {
		h := rp.Pick(r, vrHosts...)
		if r.Chance(75) {
			h = vrFQDN(strings.ToLower(h), w.ns, w.dom)
		}
		if r.Chance(15) {
			h = strings.ToUpper(h[:1]) + h[1:]
		}
		if used[strings.ToLower(h)] {
			continue
		}
		used[strings.ToLower(h)] = true
		var ips []string
		for k := rp.Pick(r, 1, 1, 2, 3, 0); k > 0; k-- {
			ips = append(ips, fmt.Sprintf("10.0.0.%d", r.Intn(4)))
		}
		p.tab[h] = ips
		n.Table[h] = &nds.NameTable_NameInfo{Ips: ips}
	}
	p.Resources = append(p.Resources, xg.Any(n))
	return p
}

// response draws a response of the type; badChance is the chance of a response that must be rejected
func (w *vrWorld) response(t vrRT, badChance int) *vrResp {
	r := w.r
	var p *vrResp
	if t == xdsresource.NameTableType {
		p = w.tableResponse()
	} else {
		p = w.newResp(t)
		k := 1 + r.Intn(5)
		if r.Chance(15) {
			k = 0
		}
		for ; k > 0; k-- {
			var n string
			switch {
			case t == xdsresource.ListenerType && w.nds:
				n = fmt.Sprintf("10.0.0.%d_%d", r.Intn(4), rp.Pick(r, 80, 80, 8080))
				if r.Chance(30) {
					n = xdsresource.ReservedLdsResourceName
				}
				if r.Chance(5) {
					n = w.lookupName(t) // never a binding by itself
				}
			case t == xdsresource.ListenerType && r.Chance(20):
				n = xdsresource.ReservedLdsResourceName
			default:
				n = w.lookupName(t)
			}
			if _, dup := p.ids[n]; dup {
				continue
			}
			w.seq++
			p.ids[n] = fmt.Sprintf("id-%d", w.seq)
			p.Resources = append(p.Resources, vrResource(t, n, w.seq))
		}
	}
	if r.Chance(badChance) {
		p.good = false
		k := 0
		if len(p.Resources) > 0 {
			k = r.Intn(len(p.Resources) + 1)
		}
		var b *anypb.Any
		switch r.Intn(3) {
		case 0:
			b = &anypb.Any{TypeUrl: vrURL[t], Value: []byte{0xff, 0xff, 0xff, 0x01}}
			p.kind = "garbage"
		case 1:
			o := vrTypes[(int(t)+1+r.Intn(3))%4]
			if o == t {
				o = vrTypes[(int(t)+1)%4]
			}
			b = vrResource(o, "other", 1)
			if b == nil || b.TypeUrl == vrURL[t] {
				b = &anypb.Any{TypeUrl: "type.googleapis.com/some.Other"}
			}
			p.kind = "wrong type"
		default:
			b = &anypb.Any{TypeUrl: "type.googleapis.com/some.Other", Value: []byte{8, 1}}
			p.kind = "unknown type"
		}
		p.Resources = append(p.Resources[:k:k], append([]*anypb.Any{b}, p.Resources[k:]...)...)
	}
	return p
}

// push delivers a response and checks what the client does with it.
func (w *vrWorld) push(p *vrResp) {
	if w.dead {
		return
	}
	_, typ := w.watched[p.t]
	w.note("push %s %s %s good=%v %v%v", vrName[p.t], p.VersionInfo, p.Nonce, p.good, p.ids, p.tab)
	w.quiet("C02 C03")
	if !w.deliver(p.DiscoveryResponse) {
		return
	}
	if !typ {
		w.quiet("C02")
		w.checkAll("C02 C01")
		return
	}
	w.nonce[p.t] = p.Nonce
	if p.good {
		w.version[p.t] = p.VersionInfo
	}
	w.expect("C02", w.reqFor(p.t, !p.good), !p.good)
	w.quiet("C02")
	if !p.good {
		w.checkAll("C02")
		return
	}
	switch p.t {
	case xdsresource.NameTableType:
		w.table = p.tab
		if w.lds != nil && w.nds {
			w.bind()
			w.wake(xdsresource.ListenerType)
		}
	case xdsresource.ListenerType:
		w.lds = p.ids
		w.bind()
		w.wake(p.t)
	default:
		f := w.fold[p.t]
		if f == nil || p.t == xdsresource.ClusterType {
			f = map[string]string{}
		}
		for n, id := range p.ids {
			if w.watched[p.t][n] {
				f[n] = id
			}
		}
		w.fold[p.t] = f
		w.wake(p.t)
	}
	props := "C01"
	if p.t == xdsresource.ListenerType || p.t == xdsresource.NameTableType {
		props = "C01 C14"
	}
	w.checkAll(props)
}

// checkAll compares the cache and the acknowledged versions with the fold.
func (w *vrWorld) checkAll(props string) {
	if w.dead {
		return
	}
	for _, t := range vrTypes {
		w.m.mu.RLock()
		got := map[string]string{}
		for n, r := range w.m.cache[t] {
			got[n] = vrID(t, r)
		}
		w.m.mu.RUnlock()
		for n := range got {
			if _, ok := w.fold[t][n]; !ok {
				w.bad(props, "the cache holds %s %q = %q, which is not in force (%v)", vrName[t], n, got[n], w.fold[t])
				return
			}
		}
		for n, id := range w.fold[t] {
			if got[n] != id {
				w.bad(props, "the cache holds %q for %s %q, want %q", got[n], vrName[t], n, id)
				return
			}
		}
		if w.c != nil && (w.c.version(t) != w.version[t] || w.c.nonce(t) != w.nonce[t]) {
			w.bad("C02 C04", "%s: version %q nonce %q, want %q %q", vrName[t], w.c.version(t), w.c.nonce(t), w.version[t], w.nonce[t])
			return
		}
	}
}

// lookup is one lookup; a miss stays pending.
func (w *vrWorld) lookup(t vrRT, n string) {
	if w.dead {
		return
	}
	w.note("get %s %q", vrName[t], n)
	w.quiet("C02 C03")
	if id, ok := w.fold[t][n]; ok {
		l := w.get(t, n)
		if !vrUntil(vrSlow, l.finished) {
			w.bad("C01 C05", "lookup of the cached %s %q does not return", vrName[t], n)
			return
		}
		w.result(l, id, "C05")
		w.quiet("C03")
		return
	}
	first := true
	for _, l := range w.pending {
		if l.t == t && l.name == n {
			first = false
		}
	}
	l := w.get(t, n)
	w.pending = append(w.pending, l)
	if w.watch(t, n) {
		w.expect("C03", w.reqFor(t, false))
	} else if first {
		// the name is subscribed already: asking again is allowed
		vrSettle()
		for _, s := range w.sv.since(w.at) {
			w.at++
			w.judge(s, w.reqFor(t, false), false)
		}
	}
	w.quiet("C03")
	if l.finished() {
		w.bad("C05 C01", "lookup of %s %q, which is not in force, returns %v, %v", vrName[t], n, l.res, l.err)
	}
}

func (w *vrWorld) cancelOne() {
	if len(w.pending) == 0 || w.dead {
		return
	}
	k := w.r.Intn(len(w.pending))
	l := w.pending[k]
	w.pending = append(w.pending[:k:k], w.pending[k+1:]...)
	w.note("cancel %s %q", vrName[l.t], l.name)
	l.cancel()
	if !vrUntil(vrSlow, l.finished) {
		w.bad("C05", "a cancelled lookup of %s %q does not return", vrName[l.t], l.name)
		return
	}
	w.result(l, "", "C05")
	vrSettle()
	for _, l := range w.pending {
		if l.finished() {
			w.bad("C06", "the cancellation of another caller ended the lookup of %s %q: %v", vrName[l.t], l.name, l.err)
		}
	}
	w.quiet("C03")
}

// evict does what a sweep does to an idle resource.
func (w *vrWorld) evict() {
	var all []*vrLookup
	for _, t := range vrTypes[:4] {
		var ns []string
		for n := range w.fold[t] {
			if n != xdsresource.ReservedLdsResourceName {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			all = append(all, &vrLookup{t: t, name: n})
		}
	}
	if w.dead || len(all) == 0 {
		return
	}
	l := all[w.r.Intn(len(all))]
	w.note("evict %s %q", vrName[l.t], l.name)
	w.quiet("C02 C03")
	w.m.mu.Lock()
	delete(w.m.meta[l.t], l.name)
	delete(w.m.cache[l.t], l.name)
	w.m.client.Watch(l.t, l.name, true)
	w.m.mu.Unlock()
	delete(w.fold[l.t], l.name)
	delete(w.watched[l.t], l.name)
	w.expect("C03", w.reqFor(l.t, false))
	w.quiet("C03")
	w.checkAll("C03")
}

// breakStream fails the stream; the client opens a new one and asks for everything again.
func (w *vrWorld) breakStream(openErrs int) {
	if w.dead {
		return
	}
	w.note("stream fails, %d failed attempts", openErrs)
	w.quiet("C02 C03")
	s := w.sv.last()
	w.sv.mu.Lock()
	w.sv.openErrs = openErrs
	w.sv.mu.Unlock()
	s.in <- vrItem{err: errors.New("stream broken")}
	if !vrUntil(vrSlow, func() bool { return w.sv.last() != s && w.idle(1) }) {
		w.bad("C04", "no new stream is opened and read after the failure")
		return
	}
	w.sv.mu.Lock()
	if !s.closed {
		w.sv.mu.Unlock()
		w.bad("C04", "the failed stream is not closed")
		return
	}
	w.sv.mu.Unlock()
	w.sendBad = false
	w.nonce = map[vrRT]string{}
	n := 0
	for range w.watched {
		n++
	}
	if !vrUntil(vrSlow, func() bool { return w.sv.nlog() >= w.at+n }) {
		w.bad("C04", "%d requests on the new stream, want one for each of the %d subscribed types", w.sv.nlog()-w.at, n)
		return
	}
	seen := map[vrRT]bool{}
	for _, q := range w.sv.since(w.at)[:n] {
		w.at++
		t, _ := vrTypeOf(q.req.TypeUrl)
		if seen[t] {
			w.bad("C04", "%s is requested twice on the new stream", vrName[t])
		}
		seen[t] = true
		if _, ok := w.watched[t]; !ok {
			w.bad("C04 C03", "%s is requested but not subscribed", vrName[t])
			return
		}
		w.judge(q, w.reqFor(t, false), false)
	}
	w.quiet("C04")
	w.checkAll("C04")
}

// failSend makes the next request fail: the stream then refuses requests until it breaks.
func (w *vrWorld) failSend() {
	if w.dead || w.sendBad {
		return
	}
	w.note("sending fails")
	w.quiet("C02 C03")
	s := w.sv.last()
	w.sv.mu.Lock()
	s.failN = 1 << 30
	w.sv.mu.Unlock()
	w.sendBad = true
}

func (w *vrWorld) stepTypes() []vrRT { return vrTypes[:4] }

// step is one random event of the history.
func (w *vrWorld) step(pPush, pGet, pCancel, pBreak, badChance int) {
	r := w.r
	if r.Chance(4) {
		w.evict()
		return
	}
	switch x := r.Intn(pPush + pGet + pCancel + pBreak); {
	case x < pPush:
		if r.Chance(5) {
			p := w.newResp(xdsresource.ListenerType)
			p.TypeUrl = "type.googleapis.com/envoy.config.core.v3.Unknown"
			w.note("push of an unknown type")
			w.quiet("C02 C03")
			if w.deliver(p.DiscoveryResponse) {
				w.quiet("C02")
				w.checkAll("C02")
			}
			return
		}
		t := rp.Pick(r, vrTypes...)
		w.push(w.response(t, badChance))
	case x < pPush+pGet:
		t := rp.Pick(r, w.stepTypes()...)
		w.lookup(t, w.lookupName(t))
	case x < pPush+pGet+pCancel:
		w.cancelOne()
	default:
		if r.Chance(30) {
			w.failSend()
			return
		}
		n := 0
		if r.Chance(30) {
			n = 1 + r.Intn(2)
			if w.c != nil {
				w.c.connectBackoff = backoff.NewConstantBackOff(100 * time.Microsecond)
			}
		}
		w.breakStream(n)
	}
}
