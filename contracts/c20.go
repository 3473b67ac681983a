package xds

import (
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/vspec"
	"github.com/kitex-contrib/xds/xdssuite"
)

var (
	vcInited bool
	vcNewN   int
	vcNewBC  *manager.BootstrapConfig
	vcNewLen int
	vcNewE   error
	vcNewM   *manager.VerifManager
	vcSetN   int
	vcSetM   xdssuite.XDSResourceManager
	vcSetE   error
)

// XDSInited and SetXDSResourceManager by their contract (VC_C20_set)
func modelInited() bool { return vcInited }

func modelSet(m xdssuite.XDSResourceManager) error {
	vcSetN++
	vcSetM = m
	return vcSetE
}

// NewXDSResourceManager by its contract (VC_C20_manager)
func modelNew(bc *manager.BootstrapConfig, opts ...manager.Option) (*manager.VerifManager, error) {
	vcNewN++
	vcNewBC, vcNewLen = bc, len(opts)
	if vcNewE != nil {
		return nil, vcNewE
	}
	return vcNewM, nil
}

//govc:prop C20
//govc:use modelInited = github.com/kitex-contrib/xds/xdssuite.XDSInited
//govc:use modelSet = github.com/kitex-contrib/xds/xdssuite.SetXDSResourceManager
//govc:use modelNew = github.com/kitex-contrib/xds/core/manager.NewXDSResourceManager
func VC_C20_init(opts []manager.Option, set, built error, m *manager.VerifManager) {
	vspec.Requires(m != nil)
	vcInited = vspec.Any[bool]("inited")
	vcSetE, vcNewE, vcNewM = set, built, m
	vcSetN, vcNewN = 0, 0
	err := Init(opts...)
	vspec.Ensures("C20", "a second initialisation builds and sets nothing", !vcInited || err == nil && vcSetN == 0 && vcNewN == 0)
	vspec.Ensures("C20", "the first one builds a manager from the environment, once", vcInited || vcNewN == 1 && vcNewBC == nil && vcNewLen == len(opts))
	vspec.Ensures("C20", "a failure is reported, and nothing is set", vcInited || built == nil || err == built && vcSetN == 0)
	vspec.Ensures("C20", "the manager is set", vcInited || built != nil || vcSetN == 1)
	vspec.Ensures("C20", "the manager that is set is the one that was built", vcInited || built != nil || vcSetM == xdssuite.XDSResourceManager(m))
	vspec.Ensures("C20", "a failure to set it is reported", vcInited || built != nil || err == set)
}
