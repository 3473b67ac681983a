package manager

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/rp"
)

func vrBareManager() *xdsResourceManager {
	return &xdsResourceManager{
		cache:       map[xdsresource.ResourceType]map[string]xdsresource.Resource{},
		meta:        make(map[xdsresource.ResourceType]map[string]*xdsresource.ResourceMeta),
		notifierMap: make(map[xdsresource.ResourceType]map[string]*notifier),
		opts:        NewOptions(nil),
		xdsHandlers: make(map[xdsresource.ResourceType][]xdsresource.XDSUpdateHandler),
	}
}

func vrRes(r *rp.R, rt xdsresource.ResourceType) xdsresource.Resource {
	switch rt {
	case xdsresource.ListenerType:
		return &xdsresource.ListenerResource{NetworkFilters: []*xdsresource.NetworkFilter{{RoutePort: uint32(r.Int31()), InlineRouteConfig: &xdsresource.RouteConfigResource{TokensPerFill: uint32(r.Int31())}}}}
	case xdsresource.RouteConfigType:
		return &xdsresource.RouteConfigResource{TokensPerFill: uint32(r.Int31())}
	case xdsresource.ClusterType:
		return &xdsresource.ClusterResource{EndpointName: fmt.Sprint(r.Int63())}
	}
	return &xdsresource.EndpointsResource{Localities: []*xdsresource.Locality{}}
}

// Every registered handler sees, at every accepted update, what is in force after it; a handler that registers late
// sees the current state.
func vrHandlerViews(t *testing.T, rt xdsresource.ResourceType) {
	r := rp.New(t)
	full := rt == xdsresource.ListenerType || rt == xdsresource.ClusterType
	other := xdsresource.EndpointsType
	for k := 0; k < r.N(300); k++ {
		r.Case()
		m := vrBareManager()
		type view struct {
			n int
			m map[string]xdsresource.Resource
		}
		var hs []*view
		want := map[string]xdsresource.Resource{}
		updates := 0
		var log []string
		check := func(h *view, i int) bool {
			if len(want) == 0 && len(h.m) == 0 {
				return true
			}
			if !reflect.DeepEqual(h.m, want) {
				r.Fail("%v: handler %d sees %v, in force are %v", log, i, names(h.m), names(want))
				return false
			}
			return true
		}
		for s := 0; s < 1+r.Intn(8); s++ {
			if r.Chance(35) {
				h := &view{}
				hs = append(hs, h)
				log = append(log, "register")
				m.RegisterXDSUpdateHandler(rt, func(res map[string]xdsresource.Resource) {
					h.n++
					h.m = map[string]xdsresource.Resource{}
					for k, v := range res {
						h.m[k] = v
					}
				})
				if updates > 0 && h.n == 0 {
					r.Fail("%v: a handler registered after %d updates was not called with the current state", log, updates)
					return
				}
				if !check(h, len(hs)-1) {
					return
				}
				continue
			}
			if r.Chance(20) {
				n := 0
				for _, h := range hs {
					n += h.n
				}
				m.UpdateResource(other, map[string]xdsresource.Resource{"e": vrRes(r, other)}, "v")
				for _, h := range hs {
					n -= h.n
				}
				if n != 0 {
					r.Fail("a handler was called for an update of another type")
					return
				}
				continue
			}
			up := map[string]xdsresource.Resource{}
			pool := []string{"a", "b", "c", "d"}
			if rt == xdsresource.ListenerType {
				pool = []string{"a", "b", xdsresource.ReservedLdsResourceName}
			}
			for _, n := range pool {
				if r.Chance(45) {
					up[n] = vrRes(r, rt)
				}
			}
			if full {
				want = map[string]xdsresource.Resource{}
			}
			for n, v := range up {
				want[n] = v
			}
			log = append(log, fmt.Sprintf("update%v", names(up)))
			before := make([]int, len(hs))
			for i, h := range hs {
				before[i] = h.n
			}
			if len(up) > 0 {
				updates++
			}
			m.UpdateResource(rt, up, fmt.Sprint(s))
			for i, h := range hs {
				if h.n == before[i] {
					r.Fail("%v: handler %d was not called", log, i)
					return
				}
				if !check(h, i) {
					return
				}
			}
		}
	}
}

func names(m map[string]xdsresource.Resource) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	return rp.SortStrs(out)
}

func TestReplay_C16_manager(t *testing.T) { vrHandlerViews(t, xdsresource.ClusterType) }
func TestReplay_C17_manager(t *testing.T) { vrHandlerViews(t, xdsresource.RouteConfigType) }
func TestReplay_C18_manager(t *testing.T) { vrHandlerViews(t, xdsresource.ListenerType) }
