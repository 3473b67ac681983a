package manager

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/structpb"

	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/zzverif/rp"
)

var vrEnvKeys = []string{"POD_NAMESPACE", "POD_NAME", "INSTANCE_IP", "ISTIO_VERSION", "KITEX_XDS_METAS", "KITEX_XDS_DOMAIN"}

// the identity of the node in every request, whatever the environment
func TestReplay_C20_node(t *testing.T) {
	r := rp.New(t)
	saved := map[string]string{}
	for _, k := range vrEnvKeys {
		saved[k] = os.Getenv(k)
	}
	defer func() {
		for k, v := range saved {
			os.Setenv(k, v)
		}
	}()
	for k := 0; k < r.N(1500) && !t.Failed(); k++ {
		r.Case()
		ip := rp.Pick(r, "10.0.0.1", "10.0.0.11", "1.10.0.0", "10.0.0.1", "fe80::1")
		env := map[string]string{
			"POD_NAMESPACE": rp.Pick(r, "default", "ns1", "a.b", "default", "ns1", ""), "POD_NAME": rp.Pick(r, "pod", "pod~x", "p-1", "pod", ""),
			"INSTANCE_IP": ip, "ISTIO_VERSION": rp.Pick(r, "", "1.13.5"), "KITEX_XDS_DOMAIN": rp.Pick(r, "", "example.org"),
		}
		if r.Intn(12) == 0 {
			env["INSTANCE_IP"] = ""
		}
		user := map[string]*structpb.Value{}
		raw := ""
		switch r.Intn(6) {
		case 0:
		case 1:
			raw = rp.Pick(r, "{", "not json", `{"A": }`, `[1]`)
		default:
			for _, key := range []string{"ISTIO_VERSION", "NAMESPACE", "LABEL", "N"} {
				if r.Intn(2) == 0 {
					user[key] = structpb.NewStringValue(rp.Pick(r, "", "x", "ns2", "1.2.3"))
				}
			}
			if r.Intn(4) == 0 {
				user["N"] = structpb.NewNumberValue(3)
			}
			if r.Intn(3) != 0 {
				var ips []string
				for j := r.Intn(4); j > 0; j-- {
					ips = append(ips, rp.Pick(r, "10.0.0.1", "10.0.0.11", "110.0.0.1", "10.0.0.2", "10.0.0", "fe80::1", "fe80::12"))
				}
				user["INSTANCE_IPS"] = structpb.NewStringValue(strings.Join(ips, ","))
			}
			b, err := protojson.Marshal(&structpb.Struct{Fields: user})
			if err != nil {
				t.Fatal(err)
			}
			raw = string(b)
		}
		env["KITEX_XDS_METAS"] = raw
		for n, v := range env {
			if v == "" && r.Intn(2) == 0 {
				os.Unsetenv(n)
			} else {
				os.Setenv(n, v)
			}
		}
		desc := func() string {
			var l []string
			for _, n := range vrEnvKeys {
				l = append(l, fmt.Sprintf("%s=%q", n, env[n]))
			}
			sort.Strings(l)
			return strings.Join(l, " ")
		}
		sc := &XDSServerConfig{SvrName: "istiod", SvrAddr: "127.0.0.1:1", NDSNotRequired: true, LDSNotRequired: true, FetchXDSTimeout: 20 * time.Second}
		bc, err := newBootstrapConfig(sc)
		if env["POD_NAMESPACE"] == "" || env["POD_NAME"] == "" || env["INSTANCE_IP"] == "" {
			if err == nil {
				r.Fail("no error with %s", desc())
			}
			continue
		}
		if err != nil {
			r.Fail("error %v with %s", err, desc())
			continue
		}
		dom := env["KITEX_XDS_DOMAIN"]
		if dom == "" {
			dom = "cluster.local"
		}
		ns := env["POD_NAMESPACE"]
		id := "sidecar~" + ip + "~" + env["POD_NAME"] + "." + ns + "~" + ns + ".svc." + dom
		over := ns
		if v := user["NAMESPACE"].GetStringValue(); v != "" {
			over = v
		}
		if got, want := bc.tryExpandFQDN("svc"), "svc."+over+".svc."+dom; got != want {
			r.Fail("the name svc expands to %q, want %q, with %s", got, want, desc())
		}
		m := vrManager(sc)
		sv := &vrServer{}
		c, err := newXdsClient(bc, sv, m)
		if err != nil {
			r.Fail("no client: %v", err)
			continue
		}
		m.client = c
		c.Watch(xdsresource.ClusterType, "a", false)
		if !vrUntil(vrSlow, func() bool { return sv.nlog() >= 1 }) {
			r.Fail("no request for a new subscription")
			return
		}
		sv.last().in <- vrItem{resp: &discoveryv3.DiscoveryResponse{TypeUrl: vrURL[xdsresource.ClusterType], VersionInfo: "1", Nonce: "n"}}
		vrUntil(vrSlow, func() bool { return sv.nlog() >= 2 })
		if r.Intn(3) == 0 {
			n := sv.nlog()
			sv.last().in <- vrItem{err: fmt.Errorf("broken")}
			vrUntil(vrSlow, func() bool { return sv.nlog() > n })
		}
		for _, s := range sv.since(0) {
			nd := s.req.GetNode()
			if nd.GetId() != id {
				r.Fail("the node of the request is %q, want %q", nd.GetId(), id)
			}
			fs := nd.GetMetadata().GetFields()
			if len(user) == 0 && raw != "{}" {
				if v := fs["ISTIO_VERSION"]; v == nil || v.GetStringValue() != env["ISTIO_VERSION"] {
					r.Fail("ISTIO_VERSION is %v without metadata, with %s", v, desc())
				}
			}
			for k, v := range user {
				g := fs[k]
				if k != "INSTANCE_IPS" {
					if g == nil || !proto.Equal(g, v) {
						r.Fail("metadata %s is %v, want %v", k, g, v)
					}
					continue
				}
				in := false
				have := map[string]bool{}
				for _, e := range strings.Split(g.GetStringValue(), ",") {
					in = in || e == ip
					have[e] = true
				}
				if !in {
					r.Fail("the address %s is not an element of INSTANCE_IPS %q, with %s", ip, g.GetStringValue(), desc())
				}
				for _, e := range strings.Split(v.GetStringValue(), ",") {
					if e != "" && !have[e] {
						r.Fail("%s was dropped from INSTANCE_IPS: %q, with %s", e, g.GetStringValue(), desc())
					}
				}
			}
		}
		c.close()
		close(m.closeCh)
		if s := sv.last(); s != nil {
			s.in <- vrItem{err: fmt.Errorf("end")}
		}
	}
}
