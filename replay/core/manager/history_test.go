package manager

import (
	"runtime"
	"testing"

	"github.com/kitex-contrib/xds/zzverif/rp"
)

// vrHistories runs random histories against the scripted control plane and compares every step with what the
// properties prescribe; only differences that concern the property under test are reported.
func vrHistories(t *testing.T, n, steps, pPush, pGet, pCancel, pBreak, badChance int) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	r := rp.New(t)
	dead := 0
	for k := 0; k < r.N(n) && !r.Failed() && dead < 12; k++ {
		r.Case()
		w := vrNewWorld(r, r.Chance(65), r.Chance(75))
		for s := r.Intn(steps); s >= 0 && !w.dead; s-- {
			w.step(pPush, pGet, pCancel, pBreak, badChance)
		}
		w.quiet("C02 C03")
		if w.dead {
			dead++ // the history ended because of another property
		}
		w.close()
	}
}

func TestReplay_C01_history(t *testing.T) { vrHistories(t, 3000, 60, 50, 40, 5, 5, 10) }

func TestReplay_C02_history(t *testing.T) { vrHistories(t, 3000, 60, 60, 30, 3, 7, 35) }

func TestReplay_C03_history(t *testing.T) { vrHistories(t, 3000, 60, 30, 50, 10, 10, 10) }

func TestReplay_C04_history(t *testing.T) { vrHistories(t, 3000, 60, 35, 30, 5, 30, 10) }

func TestReplay_C05_history(t *testing.T) { vrHistories(t, 3000, 60, 40, 40, 15, 5, 10) }

func TestReplay_C06_history(t *testing.T) { vrHistories(t, 3000, 60, 40, 40, 15, 5, 5) }

func TestReplay_C14_history(t *testing.T) { vrHistories(t, 3000, 60, 50, 45, 2, 3, 5) }
