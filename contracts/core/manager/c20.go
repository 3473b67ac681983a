package manager

import (
	"strings"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/structpb"
)

// ---- the identity of the node

var (
	vcMetaKey string
	vcJSON    string
	vcJSONN   int
	vcJSONE   bool
	vcIn      *structpb.Value // what the user gave for vcMetaKey
	vcInOk    bool
	vcInS     string
	vcMeta    *structpb.Struct
	vcMetaA   string
	vcMetaB   string
	vcMetaC   string
	vcListed  bool
)

// the environment does not change meanwhile
//
//govc:extern os.Getenv
func modelGetenv(key string) string { return vspec.Fn[string]("env", key) }

// protojson fills the message, or fails
//
//govc:extern google.golang.org/protobuf/encoding/protojson.Unmarshal
func modelProtoJSON(b []byte, m proto.Message) error {
	vcJSONN++
	vcJSON = string(b)
	if s, ok := m.(*structpb.Struct); ok {
		f := vspec.Any[map[string]*structpb.Value]("json")
		s.Fields = f
		vcIn, vcInOk = f[vcMetaKey]
		if vcMetaKey == "INSTANCE_IPS" {
			vspec.Requires(!vcInOk || vcIn != nil)
			vcInS = vcIn.GetStringValue()
			vspec.Requires(!vcInOk || f != nil)
		}
	}
	if err := vspec.Any[error]("json"); err != nil {
		vcJSONE = true
		return err
	}
	return nil
}

// no element so far is the address
func invContains(es []string, ip string, ownI int) bool {
	return !vspec.Exists(0, ownI, func(i int) bool { return es[i] == ip })
}

//govc:prop C20
//govc:native
//govc:loops invContains
func VC_C20_contains(list, ip string) {
	got := containsIP(list, ip)
	es := strings.Split(list, ",")
	vspec.Ensures("C20", "an address is in the list if it is one of its elements", got == vspec.Exists(0, len(es), func(i int) bool { return es[i] == ip }))
}

// containsIP by its contract (VC_C20_contains)
func modelContains(list, ip string) bool {
	return vspec.Fn[bool]("listed", list, ip)
}

//govc:prop C20
//govc:use modelContains = github.com/kitex-contrib/xds/core/manager.containsIP
func VC_C20_meta(envs, version, ip, key string) {
	vcMetaKey, vcJSONN, vcJSONE, vcJSON = key, 0, false, ""
	vcIn, vcInOk, vcInS = nil, false, ""
	got := parseMetaEnvs(envs, version, ip)
	vspec.Ensures("C20", "there is metadata", got != nil)
	v, ok := got.Fields[key]
	if envs == "" || vcJSONE {
		vspec.Ensures("C20", "without metadata the version of Istio is sent, and nothing else", ok == (key == "ISTIO_VERSION") && (!ok || v.GetStringValue() == version))
		return
	}
	vspec.Ensures("C20", "the metadata is read once", vcJSONN == 1)
	vspec.Ensures("C20", "what the user gave is read", vcJSON == envs)
	vspec.Ensures("C20", "the metadata is what the user gave", ok == vcInOk && (key == "INSTANCE_IPS" || !ok || v == vcIn))
	if key == "INSTANCE_IPS" && vcInOk {
		s := v.GetStringValue()
		vspec.Ensures("C20", "the address of the pod is one of the addresses", vcInS == "" && s == ip || vcInS != "" && (s == vcInS+","+ip || s == vcInS && modelContains(vcInS, ip)))
	}
}

// parseMetaEnvs by its contract (VC_C20_meta)
func modelMeta(envs, version, ip string) *structpb.Struct {
	vcMetaA, vcMetaB, vcMetaC = envs, version, ip
	vcMeta = vspec.Any[*structpb.Struct]("meta")
	vspec.Requires(vcMeta != nil)
	return vcMeta
}

//govc:prop C20 C14
//govc:use modelMeta = github.com/kitex-contrib/xds/core/manager.parseMetaEnvs
func VC_C20_bootstrap(config *XDSServerConfig) {
	vspec.Requires(config != nil)
	ns, name, ip := modelGetenv("POD_NAMESPACE"), modelGetenv("POD_NAME"), modelGetenv("INSTANCE_IP")
	domain := modelGetenv("KITEX_XDS_DOMAIN")
	if domain == "" {
		domain = "cluster.local"
	}
	svr, addr, auth, nds, lds, d := config.SvrName, config.SvrAddr, config.XDSAuth, config.NDSNotRequired, config.LDSNotRequired, config.FetchXDSTimeout
	bc, err := newBootstrapConfig(config)
	vspec.Ensures("C20", "without the namespace, the name or the address of the pod there is no configuration", (err != nil) == (ns == "" || name == "" || ip == ""))
	vspec.Ensures("C20", "a configuration or an error", (bc != nil) == (err == nil))
	if err != nil {
		return
	}
	vspec.Ensures("C20", "the identity of the node", bc.node != nil && bc.node.Id == "sidecar~"+ip+"~"+name+"."+ns+"~"+ns+".svc."+domain)
	vspec.Ensures("C20", "the metadata of the node", bc.node.Metadata == vcMeta && vcMetaA == modelGetenv("KITEX_XDS_METAS") && vcMetaB == modelGetenv("ISTIO_VERSION") && vcMetaC == ip)
	over := vcMeta.Fields["NAMESPACE"].GetStringValue()
	vspec.Ensures("C14 C20", "the namespace of the metadata comes first", over != "" && bc.configNamespace == over || over == "" && bc.configNamespace == ns)
	vspec.Ensures("C14 C20", "the domain", bc.nodeDomain == domain)
	vspec.Ensures("C20", "the server configuration is kept", bc.xdsSvrCfg == config && config.SvrName == svr && config.SvrAddr == addr && config.XDSAuth == auth && config.NDSNotRequired == nds && config.LDSNotRequired == lds && (d == 0 || config.FetchXDSTimeout == d))
}

// ---- construction

var (
	vcBoot   *BootstrapConfig
	vcBootE  error
	vcBootN  int
	vcInitN  int
	vcInitB  *BootstrapConfig
	vcInitM  *xdsResourceManager
	vcInitC  *xdsClient
	vcCleanN int
	vcCleanM *xdsResourceManager
)

func modelOptions(opts []Option) *Options {
	o := &Options{XDSSvrConfig: vspec.Any[*XDSServerConfig]("opts")}
	vspec.Requires(o.XDSSvrConfig != nil)
	return o
}

// newBootstrapConfig by its contract (VC_C20_bootstrap)
func modelBoot(config *XDSServerConfig) (*BootstrapConfig, error) {
	vcBootN++
	vcBootE = vspec.Any[error]("boot")
	vcBoot = vspec.Any[*BootstrapConfig]("boot")
	vspec.Requires((vcBootE == nil) == (vcBoot != nil))
	return vcBoot, vcBootE
}

func modelInitClient(bc *BootstrapConfig, m *xdsResourceManager) (*xdsClient, error) {
	vcInitN++
	vcInitB, vcInitM = bc, m
	vcInitC = vspec.Any[*xdsClient]("client")
	err := vspec.Any[error]("client")
	vspec.Requires((err == nil) == (vcInitC != nil))
	return vcInitC, err
}

func modelCleaner(m *xdsResourceManager) {
	vcCleanN++
	vcCleanM = m
}

//govc:prop C20 C19
//govc:use modelOptions = github.com/kitex-contrib/xds/core/manager.NewOptions
//govc:use modelBoot = github.com/kitex-contrib/xds/core/manager.newBootstrapConfig
//govc:use modelInitClient = github.com/kitex-contrib/xds/core/manager.initXDSClient
//govc:use modelCleaner = (*github.com/kitex-contrib/xds/core/manager.xdsResourceManager).cleaner
func VC_C20_manager(bc *BootstrapConfig, opts []Option) {
	vcBootN, vcInitN, vcCleanN = 0, 0, 0
	m, err := NewXDSResourceManager(bc, opts...)
	vspec.Ensures("C20", "a manager or an error", (m != nil) == (err == nil))
	if bc == nil && vcBootE != nil {
		vspec.Ensures("C20", "no client is built without a configuration", err != nil && vcInitN == 0 && vcCleanN == 0)
	}
	if err == nil {
		want := bc
		if bc == nil {
			want = vcBoot
		}
		vspec.Ensures("C20", "the client uses the configuration", vcInitN == 1 && vcInitB == want && vcInitM == m && m.client == vcInitC && vcInitC != nil)
		vspec.Ensures("C19", "idle resources are looked for", vcCleanN == 1 && vcCleanM == m && m.closeCh != nil && m.cache != nil && m.meta != nil && m.notifierMap != nil && m.xdsHandlers != nil && m.opts != nil)
	}
}

var vcRunN int

func modelRun(c *xdsClient) { vcRunN++ }

//govc:prop C20 C04
//govc:use modelRun = (*github.com/kitex-contrib/xds/core/manager.xdsClient).run
func VC_C20_client(bc *BootstrapConfig, ac ADSClient, m *xdsResourceManager, rt xdsresource.ResourceType) {
	vspec.Requires(bc != nil && ac != nil && m != nil)
	vcRunN = 0
	c, err := newXdsClient(bc, ac, m)
	vspec.Ensures("C20", "the client", err == nil && c != nil && c.config == bc && c.adsClient == ac && c.resourceUpdater == m && vcRunN == 1)
	_, w := c.watchedResource[rt]
	_, n := c.nonceMap[rt]
	_, v := c.versionMap[rt]
	vspec.Ensures("C04", "a new client has no subscription, version or nonce", c.watchedResource != nil && c.nonceMap != nil && c.versionMap != nil && !w && !n && !v)
	vspec.Ensures("C04", "a new stream is handed over, not queued", c.streamCh != nil && cap(c.streamCh) == 0)
	vspec.Ensures("C04", "the channels", c.reqCh != nil && cap(c.reqCh) > 0 && c.closeCh != nil && c.inboundInitRequestCh != nil && c.connectBackoff != nil && c.cipResolver != nil && c.cipResolver.initRequestCh != nil && len(c.overflow) == 0)
}

// for the contract of Init, in another package
type VerifManager = xdsResourceManager

// ---- the client of the control plane

var (
	vcAdsN int
	vcAdsC *XDSServerConfig
	vcAdsE error
	vcAds  ADSClient
	vcXdsN int
	vcXdsB *BootstrapConfig
	vcXdsM *xdsResourceManager
	vcXdsA ADSClient
	vcXds  *xdsClient
)

func modelNewADS(cfg *XDSServerConfig) (ADSClient, error) {
	vcAdsN++
	vcAdsC = cfg
	if vcAdsE != nil {
		return nil, vcAdsE
	}
	return vcAds, nil
}

// newXdsClient by its contract (VC_C20_client)
func modelNewXds(bc *BootstrapConfig, ac ADSClient, m *xdsResourceManager) (*xdsClient, error) {
	vcXdsN++
	vcXdsB, vcXdsA, vcXdsM = bc, ac, m
	return vcXds, nil
}

//govc:prop C20
//govc:use modelNewADS = github.com/kitex-contrib/xds/core/manager.newADSClient
//govc:use modelNewXds = github.com/kitex-contrib/xds/core/manager.newXdsClient
func VC_C20_initClient(bc *BootstrapConfig, m *xdsResourceManager, ac ADSClient, x *xdsClient, e error) {
	vspec.Requires(bc != nil && m != nil && ac != nil && x != nil)
	vcAdsN, vcXdsN, vcAdsE, vcAds, vcXds = 0, 0, e, ac, x
	c, err := initXDSClient(bc, m)
	vspec.Ensures("C20", "the connection is to the configured server", vcAdsN == 1 && vcAdsC == bc.xdsSvrCfg)
	vspec.Ensures("C20", "without a connection there is no client", e == nil || err != nil && c == nil && vcXdsN == 0)
	vspec.Ensures("C20", "one client is built", e != nil || err == nil && c == x && vcXdsN == 1 && vcXdsB == bc && vcXdsA == ac && vcXdsM == m)
}
