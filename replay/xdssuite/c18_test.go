package xdssuite

import (
	"fmt"
	"math"
	"testing"

	"github.com/cloudwego/kitex/pkg/limit"
	"github.com/cloudwego/kitex/pkg/utils"
	"github.com/cloudwego/kitex/server"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/rp"
	"github.com/kitex-contrib/xds/zzverif/xg"
)

type vrPush struct{ qps, conn int }

type vrUpdater struct{ pushes []vrPush }

func (u *vrUpdater) UpdateLimit(o *limit.Option) bool {
	u.pushes = append(u.pushes, vrPush{o.MaxQPS, o.MaxConnections})
	return true
}

// vrLimits lists the limits the filters of the inbound listener may mean for the port.
func vrLimits(fs []xg.Filter, port uint32) []int {
	lim := func(n uint32) int {
		if n == 0 {
			return math.MaxInt
		}
		return int(n)
	}
	for _, p := range []uint32{port, 0} {
		var out []int
		thrift := false
		for _, f := range fs {
			if f.Port == p && !f.Thrift {
				out = append(out, lim(f.Bucket.Fill))
			}
			thrift = thrift || f.Port == p && f.Thrift
		}
		if len(out) == 0 && thrift {
			out = append(out, math.MaxInt)
		}
		if len(out) > 0 {
			return out
		}
	}
	return []int{math.MaxInt}
}

func vrHas(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func vrServerLimit(os ...Option) (*limit.Option, string) {
	so := NewServerSuite(os...).Options()
	o := &server.Options{}
	for _, f := range so {
		f.F(o, &utils.Slice{})
	}
	if o.Limit.Limits == nil || o.Limit.Limits.UpdateControl == nil {
		return nil, "the server has no limit option"
	}
	return o.Limit.Limits, ""
}

// The limit follows the decoded inbound listener, whenever the server starts.
func TestReplay_C18_limit(t *testing.T) {
	r := rp.New(t)
	m := vrInstall()
	for k := 0; k < r.N(1500); k++ {
		r.Case()
		m.reset()
		port := rp.Pick(r, uint32(0), 80, 8080, 9090)
		var os []Option
		if port != 0 || r.Chance(50) {
			os = append(os, WithServicePort(port))
		}
		o, msg := vrServerLimit(os...)
		if msg != "" {
			r.Fail("%s", msg)
			return
		}
		var u *vrUpdater
		start := r.Intn(5)
		want := []int(nil)
		var log []string
		seq := &xg.Seq{}
		for s := 0; s < 1+r.Intn(7); s++ {
			if s == start {
				u = &vrUpdater{}
				o.UpdateControl(u)
				if len(u.pushes) != 1 || u.pushes[0].qps != o.MaxQPS || u.pushes[0].conn != o.MaxConnections || want != nil && !vrHas(want, o.MaxQPS) {
					r.Fail("port %d, %v: a starting server is told %v, want one of %v", port, log, u.pushes, want)
					return
				}
			}
			n := 0
			if u != nil {
				n = len(u.pushes)
			}
			up := map[string]xdsresource.Resource{}
			if r.Chance(50) {
				up["outbound"] = &xdsresource.ListenerResource{NetworkFilters: []*xdsresource.NetworkFilter{{RoutePort: port, InlineRouteConfig: &xdsresource.RouteConfigResource{TokensPerFill: 77777}}}}
			}
			want = []int{math.MaxInt}
			switch r.Intn(8) {
			case 0:
				log = append(log, "no inbound listener")
			case 1:
				var none *xdsresource.ListenerResource
				up[xdsresource.ReservedLdsResourceName] = none
				log = append(log, "nil")
			default:
				l := xg.Listener(r, seq, xdsresource.ReservedLdsResourceName, []string{"rds"})
				for i := 0; i < 3 && len(l.Filters) == 0; i++ {
					l = xg.Listener(r, seq, xdsresource.ReservedLdsResourceName, []string{"rds"})
				}
				res, err := xdsresource.UnmarshalLDS(vrPack(l.PB))
				if err != nil || res[xdsresource.ReservedLdsResourceName] == nil {
					r.Fail("a well-formed listener was rejected: %v", err)
					return
				}
				up[xdsresource.ReservedLdsResourceName] = res[xdsresource.ReservedLdsResourceName]
				want = vrLimits(l.Filters, port)
				var d []string
				for _, f := range l.Filters {
					d = append(d, fmt.Sprintf("{port %d thrift %v fill %d}", f.Port, f.Thrift, f.Bucket.Fill))
				}
				log = append(log, fmt.Sprint(d))
			}
			m.fire(xdsresource.ListenerType, up)
			if !vrHas(want, o.MaxQPS) || o.MaxConnections != math.MaxInt {
				r.Fail("port %d, %v: the limit is %d QPS, %d connections; want one of %v QPS and no connection limit", port, log, o.MaxQPS, o.MaxConnections, want)
				return
			}
			if u != nil {
				if len(u.pushes) == n {
					r.Fail("port %d, %v: the running server was not told", port, log)
					return
				}
				if p := u.pushes[len(u.pushes)-1]; p.qps != o.MaxQPS || p.conn != math.MaxInt {
					r.Fail("port %d, %v: the running server was told %v, want %d", port, log, p, o.MaxQPS)
					return
				}
			}
		}
	}
}
