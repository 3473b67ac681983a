package xdssuite

import (
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"
)

// The draw: any value of [0,n); the contract records n and the value drawn.
var (
	vcDrawN   uint64
	vcDraw    uint64
	vcDrawCnt int
)

//govc:extern github.com/bytedance/gopkg/lang/fastrand.Uint64n
func modelUint64n(n uint64) uint64 {
	r := vspec.Any[uint64]("draw")
	vspec.Assume("fastrand.Uint64n(n) < n", r < n)
	vcDrawN = n
	vcDraw = r
	vcDrawCnt++
	return r
}

//govc:extern github.com/bytedance/gopkg/lang/fastrand.Uint32n
func modelUint32n(n uint32) uint32 {
	r := vspec.Any[uint32]("draw")
	vspec.Assume("fastrand.Uint32n(n) < n", r < n)
	vcDrawN = uint64(n)
	vcDraw = uint64(r)
	vcDrawCnt++
	return r
}

//govc:extern github.com/bytedance/gopkg/lang/fastrand.Intn
func modelIntn(n int) int {
	r := vspec.Any[int]("draw")
	vspec.Assume("0 <= fastrand.Intn(n) < n", 0 <= r && r < n)
	vcDrawN = uint64(n)
	vcDraw = uint64(r)
	vcDrawCnt++
	return r
}

// Cumulative weight of the first i clusters.
//
//govc:rec
func specCum(cs []*xdsresource.WeightedCluster, i int) int {
	if i <= 0 {
		return 0
	}
	return specCum(cs, i-1) + int(cs[i-1].Weight)
}

func invCum(cs []*xdsresource.WeightedCluster, i int, acc uint64) bool {
	return int(acc) == specCum(cs, i) && int(acc) <= i*(1<<32)
}

func invBelowDraw(acc uint64) bool { return acc <= vcDraw }

// pickCluster draws once, uniformly from [0,total), and returns the cluster that owns the draw: cluster i owns
// the weight_i values [cum(i), cum(i+1)).
//
//govc:loops invCum invBelowDraw
func VC_C09_pick(route *xdsresource.Route) {
	vspec.Requires(route != nil)
	cs := route.WeightedClusters
	vspec.Requires(vspec.Forall(0, len(cs), func(i int) bool { return cs[i] != nil }))
	vspec.Requires(len(cs) >= 2)
	vspec.Requires(len(cs) < 1<<31)
	n := len(cs)
	vcDrawCnt = 0
	name, err := pickCluster(route)
	total := specCum(cs, n)
	vspec.Ensures("C09", "zero total weight is an error", total != 0 || err != nil)
	vspec.Ensures("C09", "a non-zero total weight is never an error", total == 0 || err == nil)
	vspec.Ensures("C09", "one uniform draw over the total weight", total == 0 || (vcDrawCnt == 1 && int(vcDrawN) == total))
	vspec.Ensures("C09", "the result owns the draw", err != nil || vspec.Exists(0, n, func(i int) bool {
		return cs[i].Name == name && specCum(cs, i) <= int(vcDraw) && int(vcDraw) < specCum(cs, i)+int(cs[i].Weight)
	}))
}

// A single listed cluster is always chosen.
func VC_C09_single(route *xdsresource.Route) {
	vspec.Requires(route != nil)
	cs := route.WeightedClusters
	vspec.Requires(len(cs) == 1 && cs[0] != nil)
	name, err := pickCluster(route)
	vspec.Ensures("C09", "a single cluster is always chosen", err == nil && name == cs[0].Name)
}

// A route without clusters is an error.
func VC_C09_none(route *xdsresource.Route) {
	vspec.Requires(route != nil && len(route.WeightedClusters) == 0)
	_, err := pickCluster(route)
	vspec.Ensures("C09", "a route without clusters is an error", err != nil)
}
