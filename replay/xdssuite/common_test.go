package xdssuite

import (
	"context"
	"errors"
	"sync"

	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	"github.com/cloudwego/kitex/transport"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/xg"
)

// vrManager is a manager the tests control; it is installed once.
type vrManager struct {
	mu       sync.Mutex
	res      map[xdsresource.ResourceType]map[string]interface{}
	gets     [][2]string
	handlers map[xdsresource.ResourceType][]xdsresource.XDSUpdateHandler
}

func (m *vrManager) reset() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.res = map[xdsresource.ResourceType]map[string]interface{}{}
	m.gets = nil
	m.handlers = map[xdsresource.ResourceType][]xdsresource.XDSUpdateHandler{}
}

func (m *vrManager) set(rt xdsresource.ResourceType, name string, v interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.res[rt] == nil {
		m.res[rt] = map[string]interface{}{}
	}
	m.res[rt][name] = v
}

func (m *vrManager) Get(ctx context.Context, rt xdsresource.ResourceType, name string) (interface{}, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.gets = append(m.gets, [2]string{xdsresource.ResourceTypeToName[rt], name})
	v, ok := m.res[rt][name]
	if !ok {
		return nil, errors.New("not found")
	}
	if e, ok := v.(error); ok {
		return nil, e
	}
	return v, nil
}

func (m *vrManager) RegisterXDSUpdateHandler(rt xdsresource.ResourceType, h xdsresource.XDSUpdateHandler) {
	m.mu.Lock()
	m.handlers[rt] = append(m.handlers[rt], h)
	m.mu.Unlock()
}

func (m *vrManager) fire(rt xdsresource.ResourceType, up map[string]xdsresource.Resource) {
	m.mu.Lock()
	hs := append([]xdsresource.XDSUpdateHandler{}, m.handlers[rt]...)
	m.mu.Unlock()
	for _, h := range hs {
		h(up)
	}
}

var vrMgr = &vrManager{}

func vrInstall() *vrManager {
	vrMgr.reset()
	_ = SetXDSResourceManager(vrMgr)
	return vrMgr
}

func vrPack(ms ...proto.Message) []*anypb.Any {
	var out []*anypb.Any
	for _, m := range ms {
		out = append(out, xg.Any(m))
	}
	return out
}

// vrCall builds the RPCInfo of a call.
func vrCall(pkg, svc, method, toSvc, toMethod string, grpc bool) (rpcinfo.RPCInfo, remoteinfo.RemoteInfo) {
	to := remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: toSvc, Method: toMethod}, toMethod)
	cfg := rpcinfo.NewRPCConfig()
	if grpc {
		_ = rpcinfo.AsMutableRPCConfig(cfg).SetTransportProtocol(transport.GRPC)
	}
	return rpcinfo.NewRPCInfo(nil, to, rpcinfo.NewInvocation(svc, method, pkg), cfg, nil), to
}

type vrMD struct{}

func vrCtx(md map[string]string) context.Context {
	return context.WithValue(context.Background(), vrMD{}, md)
}

// vrMeta hands the metadata of vrCtx to the router.
func vrMeta() Option {
	return WithRouterMetaExtractor(func(ctx context.Context) map[string]string {
		md, _ := ctx.Value(vrMD{}).(map[string]string)
		return md
	})
}

func vrNames(ws []xg.W) []string {
	var out []string
	for _, w := range ws {
		out = append(out, w.Name)
	}
	return out
}
