package xdssuite

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/utils"
	v3routepb "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/rp"
)

// vrPol is the observable content of a failure-retry policy.
type vrPol struct {
	Times int
	MS    uint32
	Rate  float64
	Typ   retry.BackOffType
	Items string
}

func vrItems(m map[retry.BackOffCfgKey]float64) string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%s=%v", k, v))
	}
	return strings.Join(rp.SortStrs(out), ",")
}

func vrPolicies(c *retry.Container) (map[string]vrPol, string) {
	out := map[string]vrPol{}
	d, _ := c.Dump().(map[string]interface{})
	for k, v := range d {
		e, ok := v.(map[string]interface{})
		if !ok {
			continue
		}
		p, _ := e["failure_retry"].(*retry.FailurePolicy)
		if e["enable"] != true || p == nil {
			return nil, fmt.Sprintf("%s: not an enabled failure-retry policy: %v", k, e)
		}
		if p.RetrySameNode {
			return nil, k + ": retries the same node"
		}
		o := vrPol{Times: p.StopPolicy.MaxRetryTimes, MS: p.StopPolicy.MaxDurationMS, Rate: p.StopPolicy.CBPolicy.ErrorRate, Typ: retry.NoneBackOffType}
		if p.BackOffPolicy != nil {
			o.Typ, o.Items = p.BackOffPolicy.BackOffType, vrItems(p.BackOffPolicy.CfgItems)
		}
		out[k] = o
	}
	return out, ""
}

// vrRetryRoute draws a route with a retry policy Kitex accepts, and what it configures.
func vrRetryRoute(r *rp.R, cluster func() string) (*v3routepb.Route, map[string]vrPol) {
	act := &v3routepb.RouteAction{}
	var names []string
	if r.Chance(50) {
		n := cluster()
		names = append(names, n)
		act.ClusterSpecifier = &v3routepb.RouteAction_Cluster{Cluster: n}
	} else {
		ws := &v3routepb.WeightedCluster{}
		for i := 0; i < 1+r.Intn(3); i++ {
			n := cluster()
			names = append(names, n)
			ws.Clusters = append(ws.Clusters, &v3routepb.WeightedCluster_ClusterWeight{Name: n, Weight: wrapperspb.UInt32(uint32(r.Intn(5)))})
		}
		act.ClusterSpecifier = &v3routepb.RouteAction_WeightedClusters{WeightedClusters: ws}
	}
	w := vrPol{Rate: 0.1, Typ: retry.NoneBackOffType}
	var methods []string
	if r.Chance(80) {
		p := &v3routepb.RetryPolicy{RetryOn: "5xx"}
		if r.Chance(85) {
			w.Times = r.Intn(6)
			p.NumRetries = wrapperspb.UInt32(uint32(w.Times))
		}
		if r.Chance(80) {
			ms := rp.Pick(r, int64(0), 1, 10, 100, 250, 999, 1000, 1500, 60000, int64(r.Intn(100000)))
			p.PerTryTimeout = durationpb.New(time.Duration(ms) * time.Millisecond)
			w.MS = uint32(ms * int64(w.Times))
		}
		if r.Chance(30) {
			p.PerTryIdleTimeout = durationpb.New(time.Duration(r.Intn(100)) * time.Millisecond)
		}
		exact := func(k, v string) {
			p.RetriableHeaders = append(p.RetriableHeaders, &v3routepb.HeaderMatcher{Name: k, HeaderMatchSpecifier: &v3routepb.HeaderMatcher_StringMatch{
				StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: v}}}})
		}
		if r.Chance(30) {
			exact("other", "0.2")
		}
		if r.Chance(50) {
			s := rp.Pick(r, "0.1", "0.2", "0.25", "0.3", "0.01", "1e-2")
			w.Rate, _ = strconv.ParseFloat(s, 64)
			exact("kitexRetryErrorRate", s)
		}
		if r.Chance(50) {
			methods = rp.Pick(r, []string{"m1"}, []string{"m1", "m2"}, []string{"Get", "Put", "Del"})
			exact("kitexRetryMethods", strings.Join(methods, ","))
		}
		if r.Chance(70) {
			base := int64(1 + r.Intn(200))
			b := &v3routepb.RetryPolicy_RetryBackOff{BaseInterval: durationpb.New(time.Duration(base) * time.Millisecond)}
			w.Typ, w.Items = retry.FixedBackOffType, vrItems(map[retry.BackOffCfgKey]float64{retry.FixMSBackOffCfgKey: float64(base)})
			switch r.Intn(5) {
			case 0:
			case 1:
				b.MaxInterval = durationpb.New(time.Duration(base) * time.Millisecond)
			case 2:
				b.MaxInterval = durationpb.New(time.Duration(base/2) * time.Millisecond)
			default:
				max := base + 1 + int64(r.Intn(300))
				b.MaxInterval = durationpb.New(time.Duration(max) * time.Millisecond)
				w.Typ, w.Items = retry.RandomBackOffType, vrItems(map[retry.BackOffCfgKey]float64{retry.MinMSBackOffCfgKey: float64(base), retry.MaxMSBackOffCfgKey: float64(max)})
			}
			p.RetryBackOff = b
		}
		act.RetryPolicy = p
	}
	out := map[string]vrPol{}
	for _, n := range names {
		out[n] = w
		for _, m := range methods {
			out[n+"|"+m] = w
		}
	}
	return &v3routepb.Route{Match: &v3routepb.RouteMatch{PathSpecifier: &v3routepb.RouteMatch_Prefix{Prefix: "/"}}, Action: &v3routepb.Route_Route{Route: act}}, out
}

type vrTable struct {
	res  xdsresource.Resource
	pols map[string][]vrPol
}

func vrRetryTable(r *rp.R, name string, cluster func() string) (*v3routepb.RouteConfiguration, map[string][]vrPol) {
	rc := &v3routepb.RouteConfiguration{Name: name}
	pols := map[string][]vrPol{}
	for i := 0; i < r.Intn(3); i++ {
		vh := &v3routepb.VirtualHost{Name: fmt.Sprintf("vh%d", i)}
		for j := 0; j < r.Intn(4); j++ {
			rt, w := vrRetryRoute(r, cluster)
			vh.Routes = append(vh.Routes, rt)
			for k, p := range w {
				pols[k] = append(pols[k], p)
			}
		}
		rc.VirtualHosts = append(rc.VirtualHosts, vh)
	}
	return rc, pols
}

// After every update the container holds exactly the policies of the tables in force.
func TestReplay_C17_config(t *testing.T) {
	r := rp.New(t)
	m := vrInstall()
	for k := 0; k < r.N(3000); k++ {
		r.Case()
		m.reset()
		opts := &client.Options{}
		NewRetryPolicy().F(opts, &utils.Slice{})
		if opts.RetryContainer == nil {
			r.Fail("no retry container is bound to the client")
			return
		}
		cached := map[string]vrTable{}
		shared := r.Chance(40)
		seq := 0
		var log []string
		for s := 0; s < 1+r.Intn(7); s++ {
			for i := 0; i < r.Intn(4); i++ {
				name := fmt.Sprintf("t%d", r.Intn(4))
				base := seq
				seq += 10
				rc, pols := vrRetryTable(r, name, func() string {
					if shared || r.Chance(30) {
						return rp.Pick(r, "a", "b", "c") + name
					}
					seq++
					return fmt.Sprintf("c%d", base+r.Intn(10))
				})
				if r.Chance(10) {
					// the same cluster in two tables
					rt, w := vrRetryRoute(r, func() string { return "common" })
					rc.VirtualHosts = append(rc.VirtualHosts, &v3routepb.VirtualHost{Name: "x", Routes: []*v3routepb.Route{rt}})
					for k, p := range w {
						pols[k] = append(pols[k], p)
					}
				}
				one, err := xdsresource.UnmarshalRDS(vrPack(rc))
				if err != nil || one[name] == nil {
					r.Fail("a well-formed table was rejected: %v", err)
					return
				}
				cached[name] = vrTable{one[name], pols}
			}
			if r.Chance(10) {
				// tables without an HTTP part
				cached["empty"] = vrTable{&xdsresource.RouteConfigResource{}, nil}
			}
			if r.Chance(15) {
				for n := range cached {
					delete(cached, n) // withdrawn
					break
				}
			}
			view := map[string]xdsresource.Resource{}
			want := map[string][]vrPol{}
			for n, t := range cached {
				view[n] = t.res
				for k, p := range t.pols {
					want[k] = append(want[k], p...)
				}
			}
			log = append(log, fmt.Sprintf("%v", want))
			m.fire(xdsresource.RouteConfigType, view)
			got, msg := vrPolicies(opts.RetryContainer)
			if msg != "" {
				r.Fail("tables in force %v: %s", want, msg)
				return
			}
			for n, ws := range want {
				g, ok := got[n]
				hit := false
				for _, w := range ws {
					hit = hit || reflect.DeepEqual(g, w)
				}
				if !ok || !hit {
					r.Fail("updates %v: the policy of %s is %+v (%v), want %+v", log, n, g, ok, ws)
					return
				}
			}
			for n := range got {
				if len(want[n]) == 0 {
					r.Fail("updates %v: a policy is left for %s, which no table in force references", log, n)
					return
				}
			}
		}
	}
}
