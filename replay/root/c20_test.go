package xds

import (
	"context"
	"os"
	"testing"
	"time"

	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/xdssuite"
	"github.com/kitex-contrib/xds/zzverif/rp"
)

type vrStub struct{ handlers int }

func (s *vrStub) Get(ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error) {
	return nil, nil
}

func (s *vrStub) RegisterXDSUpdateHandler(rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler) {
	s.handlers++
}

// without the identity of the pod there is no manager; a second initialisation keeps the first manager.
func TestReplay_C20_init(t *testing.T) {
	r := rp.New(t)
	keys := []string{"POD_NAMESPACE", "POD_NAME", "INSTANCE_IP"}
	opt := func() []manager.Option {
		return []manager.Option{{F: func(o *manager.Options) {
			o.DumpPath = t.TempDir() + "/dump"
			o.XDSSvrConfig = &manager.XDSServerConfig{SvrName: "istiod", SvrAddr: "127.0.0.1:1", NDSNotRequired: true, LDSNotRequired: true}
		}}}
	}
	set := func(v string, miss int) {
		for i, k := range keys {
			if i == miss {
				os.Unsetenv(k)
			} else {
				os.Setenv(k, v)
			}
		}
	}
	defer func() {
		for _, k := range keys {
			os.Unsetenv(k)
		}
	}()
	call := func() (err error) {
		done := make(chan struct{})
		go func() {
			defer close(done)
			err = Init(opt()...)
		}()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			r.Fail("Init does not return")
		}
		return err
	}
	for i := range keys {
		set("v", i)
		r.Case()
		if err := call(); err == nil {
			r.Fail("Init without %s: no error", keys[i])
		}
		if xdssuite.XDSInited() {
			r.Fail("Init without %s: a manager is in place", keys[i])
			return
		}
	}
	a, b := &vrStub{}, &vrStub{}
	if err := xdssuite.SetXDSResourceManager(a); err != nil || !xdssuite.XDSInited() {
		r.Fail("the manager is not set: %v", err)
	}
	_ = xdssuite.SetXDSResourceManager(b)
	set("v", -1)
	err := call()
	r.Case()
	_ = xdssuite.NewCircuitBreaker()
	if err != nil || a.handlers == 0 || b.handlers != 0 {
		r.Fail("initialising twice: error %v, handlers registered with the first manager %d, with the second %d", err, a.handlers, b.handlers)
	}
	set("v", 0)
	r.Case()
	if err := call(); err != nil {
		r.Fail("initialising again when a manager is in place: %v", err)
	}
}
