package xdsresource

import (
	"fmt"
	"reflect"
	"testing"

	v3clusterpb "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3endpointpb "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	"google.golang.org/protobuf/types/known/anypb"

	nds "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/zzverif/rp"
	"github.com/kitex-contrib/xds/zzverif/xg"
)

func TestReplay_C12_clusters(t *testing.T) {
	r := rp.New(t)
	for k := 0; k < r.N(3000) && !r.Failed(); k++ {
		r.Case()
		var raw []*anypb.Any
		var cs []*v3clusterpb.Cluster
		for n := r.Intn(6); n > 0; n-- {
			c := xg.Cluster(r, fmt.Sprintf("c%d", n), []string{"e1", "e2", "c1", "c2"})
			vrSpice(r, c.LoadAssignment)
			if r.Chance(5) {
				c.ClusterDiscoveryType = nil
			}
			cs = append(cs, c)
			raw = append(raw, xg.Any(c))
		}
		r.Guard("UnmarshalCDS", func() {
			got, err := UnmarshalCDS(raw)
			if err != nil || len(got) != len(cs) {
				r.Fail("UnmarshalCDS: %d resources, error %v; want %d", len(got), err, len(cs))
				return
			}
			for _, c := range cs {
				g, ok := got[c.Name].(*ClusterResource)
				if !ok || g == nil {
					r.Fail("cluster %s is lost", c.Name)
					return
				}
				if m := vrCluster(g, c); m != "" {
					r.Fail("cluster %v: %s", c, m)
					return
				}
			}
		})
	}
}

func vrCluster(g *ClusterResource, c *v3clusterpb.Cluster) string {
	want := ClusterDiscoveryTypeEDS
	switch c.GetType() {
	case v3clusterpb.Cluster_LOGICAL_DNS:
		want = ClusterDiscoveryTypeLogicalDNS
	case v3clusterpb.Cluster_STATIC:
		want = ClusterDiscoveryTypeStatic
	}
	if g.DiscoveryType != want {
		return fmt.Sprintf("discovery type %v, want %v", g.DiscoveryType, want)
	}
	lb := ClusterLbRoundRobin
	if c.LbPolicy == v3clusterpb.Cluster_RING_HASH {
		lb = ClusterLbRingHash
	}
	if g.LbPolicy != lb {
		return fmt.Sprintf("load-balancing policy %v, want %v", g.LbPolicy, lb)
	}
	if n := xg.EDSName(c); g.EndpointName != n {
		return fmt.Sprintf("EDS service name %q, want %q", g.EndpointName, n)
	}
	var od *OutlierDetection
	if o := c.OutlierDetection; o != nil {
		od = &OutlierDetection{FailurePercentageThreshold: o.FailurePercentageThreshold.GetValue(), FailurePercentageRequestVolume: o.FailurePercentageRequestVolume.GetValue()}
	}
	if !reflect.DeepEqual(g.OutlierDetection, od) {
		return fmt.Sprintf("outlier detection %+v, want %+v", g.OutlierDetection, od)
	}
	return vrEndpoints(g.InlineEDS(), xg.Localities(c.LoadAssignment))
}

func TestReplay_C12_endpoints(t *testing.T) {
	r := rp.New(t)
	for k := 0; k < r.N(3000) && !r.Failed(); k++ {
		r.Case()
		var raw []*anypb.Any
		var cs []*v3endpointpb.ClusterLoadAssignment
		for n := r.Intn(6); n > 0; n-- {
			c := xg.Assignment(r, fmt.Sprintf("e%d", n))
			vrSpice(r, c)
			cs = append(cs, c)
			raw = append(raw, xg.Any(c))
		}
		r.Guard("UnmarshalEDS", func() {
			got, err := UnmarshalEDS(raw)
			if err != nil || len(got) != len(cs) {
				r.Fail("UnmarshalEDS: %d resources, error %v; want %d", len(got), err, len(cs))
				return
			}
			for _, c := range cs {
				g, ok := got[c.ClusterName].(*EndpointsResource)
				if !ok {
					r.Fail("load assignment %s is lost", c.ClusterName)
					return
				}
				if m := vrEndpoints(g, xg.Localities(c)); m != "" {
					r.Fail("load assignment %v: %s", c, m)
					return
				}
			}
		})
	}
}

func TestReplay_C12_nametable(t *testing.T) {
	r := rp.New(t)
	for k := 0; k < r.N(3000) && !r.Failed(); k++ {
		r.Case()
		want := map[string][]string{}
		var raw []*anypb.Any
		for n := 1 + r.Intn(2)*r.Intn(2); n > 0; n-- {
			nt := xg.NameTable(r)
			if r.Chance(30) {
				nt.Table[rp.Pick(r, "Svc.Ns.svc.cluster.local", "svc1.ns.svc.cluster.local.", "x", "")] = &nds.NameTable_NameInfo{Ips: []string{"10.0.0.9", "10.0.0.1", "10.0.0.9"}, Registry: "Kubernetes"}
			}
			for h, i := range nt.Table {
				if _, dup := want[h]; dup {
					delete(nt.Table, h) // ambiguous
					continue
				}
				want[h] = i.Ips
			}
			raw = append(raw, xg.Any(nt))
		}
		r.Guard("UnmarshalNDS", func() {
			got, err := UnmarshalNDS(raw)
			if err != nil || got == nil || len(got.NameTable) != len(want) {
				r.Fail("UnmarshalNDS: %+v, error %v; want %v", got, err, want)
				return
			}
			for h, ips := range want {
				g, ok := got.NameTable[h]
				if !ok || len(g) != len(ips) || len(g) > 0 && !reflect.DeepEqual(g, ips) {
					r.Fail("addresses of %q are %v, want %v", h, g, ips)
				}
			}
		})
	}
}
