package xdssuite

import "github.com/kitex-contrib/xds/vspec"

//govc:guard singletonManager manager RWMutex
//govc:prop C07
//govc:conc
func VC_C07_singleton(m XDSResourceManager) {
	vspec.Requires(xdsResourceManager != nil)
	_ = XDSInited()
	vspec.Ensures("C07", "the lock is released", vspec.Held() == 0)
	_ = xdsResourceManager.getManager()
	vspec.Ensures("C07", "the lock is released", vspec.Held() == 0)
	_ = SetXDSResourceManager(m)
	vspec.Ensures("C07", "the lock is released", vspec.Held() == 0)
}
