package xdsresource

import (
	"net"
	"strconv"

	v3clusterpb "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3endpointpb "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	"google.golang.org/protobuf/types/known/anypb"

	dnsProto "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/vspec"
)

//govc:pure net.JoinHostPort

//govc:extern github.com/cloudwego/kitex/pkg/utils.NewNetAddr
func modelNewNetAddr(network, address string) net.Addr {
	a := vspec.Fn[net.Addr]("netaddr", network, address)
	vspec.Assume("NewNetAddr yields an address", a != nil)
	return a
}

// ---- load assignments

func specEndpoint(p *v3endpointpb.LbEndpoint, e *Endpoint) bool {
	if e == nil {
		return false
	}
	sa := p.GetEndpoint().GetAddress().GetSocketAddress()
	want := net.JoinHostPort(sa.GetAddress(), strconv.Itoa(int(sa.GetPortValue())))
	return e.Addr() == vspec.Fn[net.Addr]("netaddr", "tcp", want) && e.Weight() == p.GetLoadBalancingWeight().GetValue()
}

func specLocality(p *v3endpointpb.LocalityLbEndpoints, l *Locality) bool {
	if l == nil || len(l.Endpoints) != len(p.GetLbEndpoints()) {
		return false
	}
	return vcJ < 0 || vcJ >= len(l.Endpoints) || specEndpoint(p.GetLbEndpoints()[vcJ], l.Endpoints[vcJ])
}

func invLocs(own int, cla *v3endpointpb.ClusterLoadAssignment, made []*Locality) bool {
	ls := cla.GetEndpoints()
	return own <= vcI || vcI < 0 || vcI >= len(ls) || len(made) != len(ls) || specLocality(ls[vcI], made[vcI])
}

func invLocEps(own int, leps *v3endpointpb.LocalityLbEndpoints, made []*Endpoint) bool {
	es := leps.GetLbEndpoints()
	return own <= vcJ || vcJ < 0 || vcJ >= len(es) || len(made) != len(es) || specEndpoint(es[vcJ], made[vcJ])
}

func specPBEndpoints() bool {
	return vspec.All(nil, func(c *v3endpointpb.ClusterLoadAssignment) bool {
		return c == nil || vspec.Forall(0, len(c.Endpoints), func(i int) bool { return c.Endpoints[i] != nil })
	}) && vspec.All(nil, func(c *v3endpointpb.LocalityLbEndpoints) bool {
		return c == nil || vspec.Forall(0, len(c.LbEndpoints), func(i int) bool { return c.LbEndpoints[i] != nil })
	})
}

//govc:prop C12 C13
//govc:loops invLocs invLocEps
func VC_C12_assignment(cla *v3endpointpb.ClusterLoadAssignment, i, j int) {
	vspec.Assume("decoded messages have no nil elements", specPBEndpoints())
	vcI, vcJ = i, j
	ls := cla.GetEndpoints()
	out, err := parseClusterLoadAssignment(cla)
	vspec.Ensures("C12 C13", "a load assignment is never an error", err == nil)
	if len(ls) == 0 {
		vspec.Ensures("C12", "no localities", out == nil || len(out.Localities) == 0)
		return
	}
	vspec.Ensures("C12", "every locality is there", out != nil && len(out.Localities) == len(ls))
	vspec.Ensures("C12", "localities and endpoints in order, with address, port and weight", i < 0 || i >= len(ls) || specLocality(ls[i], out.Localities[i]))
}

// the contract of parseClusterLoadAssignment: a function of the localities
func modelAssignment(cla *v3endpointpb.ClusterLoadAssignment) (*EndpointsResource, error) {
	if cla == nil || len(cla.GetEndpoints()) == 0 {
		if vspec.Any[bool]("empty") {
			return &EndpointsResource{}, nil
		}
		return nil, nil
	}
	return vspec.Fn[*EndpointsResource]("assignment", cla.GetEndpoints()), nil
}

// r is the assignment of the message
func specAssigned(c *v3endpointpb.ClusterLoadAssignment, r *EndpointsResource) bool {
	if len(c.GetEndpoints()) == 0 {
		return r == nil || len(r.Localities) == 0
	}
	return r == vspec.Fn[*EndpointsResource]("assignment", c.GetEndpoints())
}

func specEDSBad(a *anypb.Any) bool {
	_, ok := vspec.Decode[v3endpointpb.ClusterLoadAssignment](a.GetValue())
	return a.GetTypeUrl() != EndpointTypeURL || !ok
}

func specEDSFor(a *anypb.Any, name string) bool {
	c, _ := vspec.Decode[v3endpointpb.ClusterLoadAssignment](a.GetValue())
	return !specEDSBad(a) && c.GetClusterName() == name
}

func specEDSRes(a *anypb.Any, r Resource) bool {
	c, _ := vspec.Decode[v3endpointpb.ClusterLoadAssignment](a.GetValue())
	e, ok := r.(*EndpointsResource)
	return ok && e != nil && specAssigned(c, e)
}

func invEDSErr(own int, raw []*anypb.Any, made map[string]error, errs []error) bool {
	return (len(made) == 0 && len(errs) == 0) == vspec.Forall(0, own, func(k int) bool { return k >= len(raw) || !specEDSBad(raw[k]) })
}

func invEDSKeys(own int, raw []*anypb.Any, made map[string]Resource) bool {
	_, in := made[vcHKey]
	return in == vspec.Exists(0, own, func(k int) bool { return k < len(raw) && specEDSFor(raw[k], vcHKey) })
}

func invEDS(own int, raw []*anypb.Any, made map[string]Resource) bool {
	r := made[vcHKey]
	if vcK < 0 || vcK >= own || vcK >= len(raw) || !specEDSFor(raw[vcK], vcHKey) {
		return true
	}
	return vspec.Exists(vcK+1, own, func(k int) bool { return k < len(raw) && specEDSFor(raw[k], vcHKey) }) || specEDSRes(raw[vcK], r)
}

//govc:prop C12 C13
//govc:use modelAssignment = github.com/kitex-contrib/xds/core/xdsresource.parseClusterLoadAssignment
//govc:loops invErrSlice invErrMap invEDSErr invEDSKeys invEDS
func VC_C12_eds(raw []*anypb.Any, k int, name string) {
	vspec.Assume("decoded messages have no nil elements", vspec.Forall(0, len(raw), func(i int) bool { return raw[i] != nil }))
	vspec.Assume("contract of parseClusterLoadAssignment (VC_C12_assignment)", vspec.All(nil, func(a *anypb.Any) bool {
		c, _ := vspec.Decode[v3endpointpb.ClusterLoadAssignment](a.GetValue())
		return len(c.GetEndpoints()) == 0 || vspec.Fn[*EndpointsResource]("assignment", c.GetEndpoints()) != nil
	}))
	vcK, vcHKey = k, name
	ret, err := UnmarshalEDS(raw)
	vspec.Ensures("C12 C13", "an error exactly when some resource is bad", (err == nil) == vspec.Forall(0, len(raw), func(i int) bool { return !specEDSBad(raw[i]) }))
	if err != nil {
		return
	}
	r, in := ret[name]
	vspec.Ensures("C12", "keyed by their own names, none lost", in == vspec.Exists(0, len(raw), func(i int) bool { return specEDSFor(raw[i], name) }))
	if k < 0 || k >= len(raw) || !specEDSFor(raw[k], name) || vspec.Exists(k+1, len(raw), func(i int) bool { return specEDSFor(raw[i], name) }) {
		return
	}
	vspec.Ensures("C12", "the load assignment with the name", specEDSRes(raw[k], r))
}

// ---- clusters

func specType(c *v3clusterpb.Cluster, r *ClusterResource) bool {
	switch c.GetType() {
	case v3clusterpb.Cluster_EDS:
		return r.DiscoveryType == ClusterDiscoveryTypeEDS
	case v3clusterpb.Cluster_LOGICAL_DNS:
		return r.DiscoveryType == ClusterDiscoveryTypeLogicalDNS
	case v3clusterpb.Cluster_STATIC:
		return r.DiscoveryType == ClusterDiscoveryTypeStatic
	}
	return true // the client has no name for the others
}

func specPolicy(c *v3clusterpb.Cluster, r *ClusterResource) bool {
	switch c.GetLbPolicy() {
	case v3clusterpb.Cluster_ROUND_ROBIN:
		return r.LbPolicy == ClusterLbRoundRobin
	case v3clusterpb.Cluster_RING_HASH:
		return r.LbPolicy == ClusterLbRingHash
	}
	return true
}

func specService(c *v3clusterpb.Cluster, r *ClusterResource) bool {
	if n := c.GetEdsClusterConfig().GetServiceName(); n != "" {
		return r.EndpointName == n
	}
	return r.EndpointName == c.GetName()
}

func specOutlier(c *v3clusterpb.Cluster, r *ClusterResource) bool {
	o := c.GetOutlierDetection()
	if o == nil {
		return r.OutlierDetection == nil
	}
	return r.OutlierDetection != nil && r.OutlierDetection.FailurePercentageThreshold == o.GetFailurePercentageThreshold().GetValue() &&
		r.OutlierDetection.FailurePercentageRequestVolume == o.GetFailurePercentageRequestVolume().GetValue()
}

func specCluster(c *v3clusterpb.Cluster, r *ClusterResource) bool {
	return r != nil && specType(c, r) && specPolicy(c, r) && specService(c, r) && specOutlier(c, r) && specAssigned(c.GetLoadAssignment(), r.InlineEndpoints)
}

//govc:prop C12 C13
//govc:use modelAssignment = github.com/kitex-contrib/xds/core/xdsresource.parseClusterLoadAssignment
func VC_C12_cluster(a *anypb.Any) {
	vspec.Requires(a != nil)
	c, ok := vspec.Decode[v3clusterpb.Cluster](a.GetValue())
	name, r, err := unmarshalCluster(a)
	vspec.Ensures("C12 C13", "an error exactly when it is no cluster", (err == nil) == (a.GetTypeUrl() == ClusterTypeURL && ok))
	if err != nil {
		return
	}
	vspec.Ensures("C12", "its own name", name == c.GetName())
	vspec.Ensures("C12", "a resource", r != nil)
	vspec.Ensures("C12", "its discovery type", specType(c, r))
	vspec.Ensures("C12", "its load-balancing policy", specPolicy(c, r))
	vspec.Ensures("C12", "its EDS service name, the cluster name by default", specService(c, r))
	vspec.Ensures("C12", "its outlier detection", specOutlier(c, r))
	vspec.Ensures("C12", "its inline endpoints", specAssigned(c.GetLoadAssignment(), r.InlineEndpoints))
}

// unmarshalCluster by its contract
func modelCluster(a *anypb.Any) (string, *ClusterResource, error) {
	c, ok := vspec.Decode[v3clusterpb.Cluster](a.GetValue())
	if a.GetTypeUrl() != ClusterTypeURL || !ok {
		e := vspec.Any[error]("err")
		vspec.Assume("an error", e != nil)
		return vspec.Any[string]("name"), nil, e
	}
	r := vspec.Any[*ClusterResource]("cluster")
	vspec.Assume("contract of unmarshalCluster (VC_C12_cluster)", specCluster(c, r))
	return c.GetName(), r, nil
}

func specCDSBad(a *anypb.Any) bool {
	_, ok := vspec.Decode[v3clusterpb.Cluster](a.GetValue())
	return a.GetTypeUrl() != ClusterTypeURL || !ok
}

func specCDSFor(a *anypb.Any, name string) bool {
	c, _ := vspec.Decode[v3clusterpb.Cluster](a.GetValue())
	return !specCDSBad(a) && c.GetName() == name
}

func specCDSRes(a *anypb.Any, r Resource) bool {
	c, _ := vspec.Decode[v3clusterpb.Cluster](a.GetValue())
	e, ok := r.(*ClusterResource)
	return ok && specCluster(c, e)
}

func invCDSErr(own int, raw []*anypb.Any, made map[string]error, errs []error) bool {
	return (len(made) == 0 && len(errs) == 0) == vspec.Forall(0, own, func(k int) bool { return k >= len(raw) || !specCDSBad(raw[k]) })
}

func invCDSKeys(own int, raw []*anypb.Any, made map[string]Resource) bool {
	_, in := made[vcHKey]
	return in == vspec.Exists(0, own, func(k int) bool { return k < len(raw) && specCDSFor(raw[k], vcHKey) })
}

func invCDS(own int, raw []*anypb.Any, made map[string]Resource) bool {
	r := made[vcHKey]
	if vcK < 0 || vcK >= own || vcK >= len(raw) || !specCDSFor(raw[vcK], vcHKey) {
		return true
	}
	return vspec.Exists(vcK+1, own, func(k int) bool { return k < len(raw) && specCDSFor(raw[k], vcHKey) }) || specCDSRes(raw[vcK], r)
}

//govc:prop C12 C13
//govc:use modelCluster = github.com/kitex-contrib/xds/core/xdsresource.unmarshalCluster
//govc:loops invErrSlice invErrMap invCDSErr invCDSKeys invCDS
func VC_C12_cds(raw []*anypb.Any, k int, name string) {
	vspec.Assume("decoded messages have no nil elements", vspec.Forall(0, len(raw), func(i int) bool { return raw[i] != nil }))
	vcK, vcHKey = k, name
	ret, err := UnmarshalCDS(raw)
	vspec.Ensures("C12 C13", "an error exactly when some resource is bad", (err == nil) == vspec.Forall(0, len(raw), func(i int) bool { return !specCDSBad(raw[i]) }))
	if err != nil {
		return
	}
	r, in := ret[name]
	vspec.Ensures("C12", "keyed by their own names, none lost", in == vspec.Exists(0, len(raw), func(i int) bool { return specCDSFor(raw[i], name) }))
	if k < 0 || k >= len(raw) || !specCDSFor(raw[k], name) || vspec.Exists(k+1, len(raw), func(i int) bool { return specCDSFor(raw[i], name) }) {
		return
	}
	vspec.Ensures("C12", "the cluster with the name", specCDSRes(raw[k], r))
}

// ---- the name table

func specNDSBad(a *anypb.Any) bool {
	_, ok := vspec.Decode[dnsProto.NameTable](a.GetValue())
	return a.GetTypeUrl() != NameTableTypeURL || !ok
}

func specHost(a *anypb.Any) (*dnsProto.NameTable_NameInfo, bool) {
	t, _ := vspec.Decode[dnsProto.NameTable](a.GetValue())
	i, in := t.Table[vcHKey]
	return i, in
}

func specHas(a *anypb.Any) bool { _, in := specHost(a); return in }

func specIPs(a *anypb.Any, ips []string) bool {
	i, _ := specHost(a)
	return len(ips) == len(i.GetIps()) && (vcI < 0 || vcI >= len(ips) || ips[vcI] == i.GetIps()[vcI])
}

func invNDSGood(own int, raw []*anypb.Any) bool {
	return vcK < 0 || vcK >= own || vcK >= len(raw) || !specNDSBad(raw[vcK])
}

func invNDSKeys(own int, raw []*anypb.Any, made map[string][]string) bool {
	_, in := made[vcHKey]
	return in == vspec.Exists(0, own, func(k int) bool { return k < len(raw) && specHas(raw[k]) })
}

func invNDS(own int, raw []*anypb.Any, made map[string][]string) bool {
	if vcK < 0 || vcK >= own || vcK >= len(raw) || !specHas(raw[vcK]) {
		return true
	}
	return vspec.Exists(vcK+1, own, func(k int) bool { return k < len(raw) && specHas(raw[k]) }) || specIPs(raw[vcK], made[vcHKey])
}

func invNDSInner(seen vspec.Set[string], t *dnsProto.NameTable, made map[string][]string) bool {
	i, in := t.Table[vcHKey]
	if !in || !seen.Has(vcHKey) {
		return true
	}
	ips, is := made[vcHKey]
	return is && len(ips) == len(i.GetIps()) && (vcI < 0 || vcI >= len(ips) || ips[vcI] == i.GetIps()[vcI])
}

func keepNDSIn(made map[string][]string) bool { _, in := made[vcHKey]; return in }

func keepNDSOut(seen vspec.Set[string], t *dnsProto.NameTable, made map[string][]string) bool {
	_, in := made[vcHKey]
	_, has := t.Table[vcHKey]
	return !in || has && seen.Has(vcHKey)
}

func keepNDSIPs(seen vspec.Set[string], t *dnsProto.NameTable, raw []*anypb.Any, made map[string][]string) bool {
	_, has := t.Table[vcHKey]
	return has && seen.Has(vcHKey) || vcK >= 0 && vcK < len(raw) && specIPs(raw[vcK], made[vcHKey])
}

//govc:prop C12 C13
//govc:loops invNDSGood invNDSKeys invNDS invNDSInner keepNDSIn keepNDSOut keepNDSIPs
func VC_C12_nds(raw []*anypb.Any, k, i int, host string) {
	vspec.Assume("decoded messages have no nil elements", vspec.Forall(0, len(raw), func(i int) bool { return raw[i] != nil }) &&
		vspec.All(nil, func(t *dnsProto.NameTable) bool {
			return t == nil || vspec.All(nil, func(h string) bool { v, in := t.Table[h]; return !in || v != nil })
		}))
	vcK, vcI, vcHKey = k, i, host
	res, err := UnmarshalNDS(raw)
	vspec.Ensures("C12 C13", "an empty response is an error", len(raw) > 0 || err != nil)
	vspec.Ensures("C12 C13", "a bad resource is an error", k < 0 || k >= len(raw) || !specNDSBad(raw[k]) || err != nil)
	vspec.Ensures("C12 C13", "only a bad resource is an error", err == nil || len(raw) == 0 || vspec.Exists(0, len(raw), func(i int) bool { return specNDSBad(raw[i]) }))
	if err != nil {
		return
	}
	ips, in := res.NameTable[host]
	vspec.Ensures("C12", "every host is there and no other", in == vspec.Exists(0, len(raw), func(i int) bool { return specHas(raw[i]) }))
	if k < 0 || k >= len(raw) || !specHas(raw[k]) || vspec.Exists(k+1, len(raw), func(i int) bool { return specHas(raw[i]) }) {
		return
	}
	vspec.Ensures("C12", "its addresses, in order", specIPs(raw[k], ips))
}
