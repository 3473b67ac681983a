package xdssuite

import "github.com/kitex-contrib/xds/vspec"

// setting the manager again keeps the first one
//
//govc:prop C20
func VC_C20_set(g *singletonManager, a, b XDSResourceManager) {
	vspec.Requires(g != nil && a != nil && b != nil)
	xdsResourceManager = g
	old := g.manager
	was := XDSInited()
	vspec.Ensures("C20", "initialised means that there is a manager", was == (old != nil))
	e1 := SetXDSResourceManager(a)
	first := g.getManager()
	vspec.Ensures("C20", "the first manager is kept", e1 == nil && XDSInited() && (old != nil && first == old || old == nil && first == a))
	e2 := SetXDSResourceManager(b)
	vspec.Ensures("C20", "a later one does not replace it", e2 == nil && XDSInited() && g.getManager() == first)
}
