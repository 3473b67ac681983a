package xdssuite

import (
	"fmt"
	"math"
	"testing"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/rp"
)

// Exact support and frequency of the weighted choice.
func TestReplay_C09_pick(t *testing.T) {
	r := rp.New(t)
	fixed := [][]uint32{{}, {0}, {1}, {7}, {0, 0}, {0, 1}, {1, 0}, {1, 1}, {0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}, {1, 2, 3}, {100, 0}, {0, 100}, {50, 50}, {10, 90},
		{1, 99}, {99, 1}, {100}, {1 << 31, 1 << 31}, {1<<32 - 1, 1}, {1<<32 - 1, 1<<32 - 1}, {1, 1<<32 - 1}, {0, 1<<32 - 1, 1<<32 - 1, 2}, {3000000000, 2000000000, 1000000000}, {1, 1, 1, 1, 1, 1, 1, 1}, {0, 5, 0, 5, 0}, {20, 30, 0, 50}}
	n := r.N(60)
	for k := 0; k < len(fixed)+n; k++ {
		var ws []uint32
		if k < len(fixed) {
			ws = fixed[k]
		} else {
			m := 2 + r.Intn(5)
			for i := 0; i < m; i++ {
				if r.Chance(50) {
					ws = append(ws, uint32(r.Intn(5)))
				} else {
					ws = append(ws, r.U32())
				}
			}
		}
		checkWeights(r, ws)
	}
}

func checkWeights(r *rp.R, ws []uint32) {
	r.Case()
	route := &xdsresource.Route{}
	total := 0.0
	for i, w := range ws {
		route.WeightedClusters = append(route.WeightedClusters, &xdsresource.WeightedCluster{Name: fmt.Sprintf("c%d", i), Weight: w})
		total += float64(w)
	}
	draws := 4000
	cnt := map[string]int{}
	for d := 0; d < draws; d++ {
		name, err := pickCluster(route)
		switch {
		case len(ws) == 0 || (total == 0 && len(ws) > 1):
			if err == nil {
				r.Fail("weights %v: no error, picked %q", ws, name)
				return
			}
			return
		case err != nil:
			r.Fail("weights %v: error %v", ws, err)
			return
		}
		cnt[name]++
	}
	if len(ws) == 1 {
		if cnt["c0"] != draws {
			r.Fail("single cluster not always chosen: %v", cnt)
		}
		return
	}
	seen := 0
	for i, w := range ws {
		c := cnt[fmt.Sprintf("c%d", i)]
		seen += c
		p := float64(w) / total
		if w == 0 && c > 0 {
			r.Fail("weights %v: cluster %d of weight 0 picked %d times of %d", ws, i, c, draws)
			return
		}
		dev := math.Abs(float64(c) - p*float64(draws))
		if dev > 12*math.Sqrt(float64(draws)*p*(1-p))+12 {
			r.Fail("weights %v: cluster %d picked %d times of %d, expected about %.0f", ws, i, c, draws, p*float64(draws))
			return
		}
	}
	if seen != draws {
		r.Fail("weights %v: picked names outside the route: %v", ws, cnt)
	}
}
