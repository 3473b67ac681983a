package auth

import (
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/codes"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status"
	"github.com/kitex-contrib/xds/vspec"
)

var (
	vcStat *status.Status
	vcStOk bool
	vcCode codes.Code
)

// the status of the error, and its code, are what the library says
//
//govc:extern github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status.FromError
func modelFromError(err error) (*status.Status, bool) { return vcStat, vcStOk }

//govc:extern (*github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status.Status).Code
func modelCode(s *status.Status) codes.Code {
	if s == vcStat {
		return vcCode
	}
	return vspec.Any[codes.Code]("code")
}

//govc:prop C04
func VC_C04_auth(err error, s *status.Status, ok bool, code codes.Code) {
	vcStat, vcStOk, vcCode = s, ok, code
	vspec.Requires(!ok || s != nil)
	got := IsAuthError(err)
	vspec.Ensures("C04", "the errors with the code Unauthenticated are authentication failures, no others", got == (ok && code == codes.Unauthenticated))
}
