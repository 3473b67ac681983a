package xdssuite

import (
	"context"
	"errors"
	"fmt"
	"testing"

	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/utils"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/rp"
	"github.com/kitex-contrib/xds/zzverif/xg"
)

type vrCB struct {
	enable bool
	rate   float64
	min    int64
}

// what the latest update configures
func vrDerived(up map[string]xdsresource.Resource) map[string]vrCB {
	out := map[string]vrCB{}
	for k, v := range up {
		c, ok := v.(*xdsresource.ClusterResource)
		if !ok || c.OutlierDetection == nil {
			continue
		}
		o := c.OutlierDetection
		w := vrCB{}
		if o.FailurePercentageThreshold != 0 && o.FailurePercentageRequestVolume != 0 {
			w = vrCB{true, float64(o.FailurePercentageThreshold) / 100, int64(o.FailurePercentageRequestVolume)}
		}
		out[k] = w
	}
	return out
}

func vrClusters(r *rp.R) map[string]xdsresource.Resource {
	up := map[string]xdsresource.Resource{}
	names := []string{"c0", "c1", "c2", "c3", "outbound|80||a.b.svc.cluster.local"}
	for _, n := range names {
		switch r.Intn(5) {
		case 0:
			continue
		case 1:
			up[n] = &xdsresource.ClusterResource{}
		default:
			up[n] = &xdsresource.ClusterResource{OutlierDetection: &xdsresource.OutlierDetection{
				FailurePercentageThreshold:     rp.Pick(r, uint32(0), 1, 10, 33, 50, 100),
				FailurePercentageRequestVolume: rp.Pick(r, uint32(0), 1, 5, 100, 4000000000),
			}}
		}
	}
	return up
}

func vrSuiteDump(s *circuitbreak.CBSuite) map[string]circuitbreak.CBConfig {
	out := map[string]circuitbreak.CBConfig{}
	d, _ := s.Dump().(map[string]interface{})
	d, _ = d["cb_config"].(map[string]interface{})
	svc, _ := d["service"].(map[string]interface{})
	for k, v := range svc {
		if c, ok := v.(circuitbreak.CBConfig); ok {
			out[k] = c
		}
	}
	return out
}

// The configuration of the suite follows the latest update.
func TestReplay_C16_config(t *testing.T) {
	r := rp.New(t)
	m := vrInstall()
	for k := 0; k < r.N(300); k++ {
		r.Case()
		m.reset()
		opts := &client.Options{}
		NewCircuitBreaker(WithServiceCircuitBreak(true)).F(opts, &utils.Slice{})
		if opts.CBSuite == nil {
			r.Fail("no suite is bound to the client")
			return
		}
		ever := map[string]bool{}
		steps := 1 + r.Intn(6)
		var log []string
		for s := 0; s < steps; s++ {
			up := vrClusters(r)
			if r.Chance(10) {
				up = map[string]xdsresource.Resource{}
			}
			m.fire(xdsresource.ClusterType, up)
			want := vrDerived(up)
			log = append(log, fmt.Sprintf("%v", want))
			got := vrSuiteDump(opts.CBSuite)
			for n := range want {
				ever[n] = true
			}
			for n := range ever {
				w := want[n]
				g, ok := got[n]
				if !ok {
					r.Fail("updates %v: %s has no configuration (the default would apply)", log, n)
					return
				}
				if g.Enable != w.enable || g.Enable && (g.ErrRate != w.rate || g.MinSample != w.min) {
					r.Fail("updates %v: %s is configured as %+v, want %+v", log, n, g, w)
					return
				}
			}
			for n := range got {
				if !ever[n] {
					r.Fail("updates %v: %s was never configured but is in the suite", log, n)
					return
				}
			}
		}
	}
}

// The decoded outlier detection of a pushed cluster ends in the suite.
func TestReplay_C16_decoded(t *testing.T) {
	r := rp.New(t)
	m := vrInstall()
	opts := &client.Options{}
	NewCircuitBreaker(WithServiceCircuitBreak(true)).F(opts, &utils.Slice{})
	ever := map[string]bool{}
	for k := 0; k < r.N(200); k++ {
		r.Case()
		var cs []string
		type wt struct{ th, vol uint32 }
		want := map[string]vrCB{}
		pbs := vrPack()
		for i := 0; i < 1+r.Intn(3); i++ {
			n := fmt.Sprintf("k%d", r.Intn(4))
			dup := false
			for _, c := range cs {
				dup = dup || c == n
			}
			if dup {
				continue
			}
			cs = append(cs, n)
			c := xg.Cluster(r, n, nil)
			pbs = append(pbs, xg.Any(c))
			if o := c.GetOutlierDetection(); o != nil {
				w := vrCB{}
				th, vol := o.GetFailurePercentageThreshold().GetValue(), o.GetFailurePercentageRequestVolume().GetValue()
				if th != 0 && vol != 0 {
					w = vrCB{true, float64(th) / 100, int64(vol)}
				}
				want[n] = w
			}
		}
		up, err := xdsresource.UnmarshalCDS(pbs)
		if err != nil {
			r.Fail("well-formed clusters rejected: %v", err)
			return
		}
		m.fire(xdsresource.ClusterType, up)
		got := vrSuiteDump(opts.CBSuite)
		for n := range want {
			ever[n] = true
		}
		for n := range ever {
			w, g := want[n], got[n]
			if g.Enable != w.enable || g.Enable && (g.ErrRate != w.rate || g.MinSample != w.min) {
				r.Fail("%s is configured as %+v, want %+v", n, g, w)
				return
			}
		}
	}
}

// The breaker of either kind opens for the routed cluster the update enabled, and not for a disabled one.
func TestReplay_C16_effect(t *testing.T) {
	r := rp.New(t)
	m := vrInstall()
	for _, service := range []bool{true, false} {
		for k := 0; k < r.N(8); k++ {
			r.Case()
			m.reset()
			opts := &client.Options{}
			NewCircuitBreaker(WithServiceCircuitBreak(service)).F(opts, &utils.Slice{})
			var mw endpoint.Middleware
			if service {
				mw = opts.CBSuite.ServiceCBMW()
			} else {
				if len(opts.IMWBs) != 1 {
					r.Fail("the instance middleware of the breaker is not installed")
					return
				}
				mw = opts.IMWBs[0](context.Background())
			}
			on := r.Chance(50)
			th := uint32(0)
			if on {
				th = 50
			}
			m.fire(xdsresource.ClusterType, map[string]xdsresource.Resource{"dest": &xdsresource.ClusterResource{OutlierDetection: &xdsresource.OutlierDetection{FailurePercentageThreshold: th, FailurePercentageRequestVolume: 10}}})
			if r.Chance(30) {
				on = false
				m.fire(xdsresource.ClusterType, map[string]xdsresource.Resource{"other": &xdsresource.ClusterResource{}})
			}
			called := 0
			ep := mw(func(ctx context.Context, req, resp interface{}) error {
				called++
				return kerrors.ErrRemoteOrNetwork.WithCause(errors.New("down"))
			})
			for i := 0; i < 60; i++ {
				ri, to := vrCall("p", "S", "m", "svc", "m", false)
				_ = to.SetTag(RouterClusterKey, "dest")
				_ = ep(rpcinfo.NewCtxWithRPCInfo(context.Background(), ri), nil, nil)
			}
			if on && called == 60 {
				r.Fail("service=%v: the breaker never opened after 60 failures (volume 10, threshold 50)", service)
				return
			}
			if !on && called != 60 {
				r.Fail("service=%v: a disabled breaker stopped %d of 60 calls", service, 60-called)
				return
			}
		}
	}
}
