package manager

import (
	"strings"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/vspec"
)

// ---- names of services and listeners (C14)

// the fully qualified name of a host
func specFQDN(host, ns, domain string) string {
	parts := strings.Split(host, ".")
	if strings.Contains(host, ".svc.") {
		return host
	}
	switch len(parts) {
	case 1:
		return host + "." + ns + ".svc." + domain
	case 2:
		return host + ".svc." + domain
	case 3:
		if parts[2] == "svc" {
			return host + "." + domain
		}
		return host
	}
	return host + "." + ns + ".svc." + domain
}

//govc:prop C14
//govc:native
func VC_C14_expand(bc *BootstrapConfig, host string) {
	vspec.Requires(bc != nil)
	got := bc.tryExpandFQDN(host)
	vspec.Ensures("C14", "the fully qualified name", got == specFQDN(host, bc.configNamespace, bc.nodeDomain))
	vspec.Ensures("C14", "qualified names are unchanged", !strings.Contains(host, ".svc.") || got == host)
	// qualified names are unchanged, so expanding again changes nothing
	vspec.Ensures("C14", "the result is qualified or the host itself", strings.Contains(got, ".svc.") || got == host)
}

// ---- the name table

var (
	vcHost  string // the host asked for, in lower case
	vcKey   string // an arbitrary host of the table
	vcTabUp map[string][]string
)

func specSameIPs(a, b []string) bool {
	return len(a) == len(b) && (vcIdx < 0 || vcIdx >= len(a) || a[vcIdx] == b[vcIdx])
}

// storing a name table that spells the host in one way only, or in lower case among others
func invTable(made map[string][]string, seen vspec.Set[string]) bool {
	ips, ok := made[vcHost]
	_, in := vcTabUp[vcKey]
	if !in || strings.ToLower(vcKey) != vcHost || strings.ToLower(vcHost) != vcHost || !specSpells() {
		return true
	}
	return ok == seen.Has(vcKey) && (!ok || specSameIPs(ips, vcTabUp[vcKey]))
}

// vcKey is the spelling that counts
func specSpells() bool {
	return vcKey == vcHost || vspec.All(nil, func(k string) bool {
		_, in := vcTabUp[k]
		return k == vcKey || !in || strings.ToLower(k) != vcHost
	})
}

func specNoSpelling() bool {
	return vspec.All(nil, func(k string) bool {
		_, in := vcTabUp[k]
		return !in || strings.ToLower(k) != vcHost
	})
}

func invTableNone(made map[string][]string) bool {
	_, ok := made[vcHost]
	return !ok || !specNoSpelling()
}

//govc:prop C14
//govc:loops invTable invTableNone
func VC_C14_table(r *ndsResolver, up map[string][]string, host, key string, idx int) {
	vspec.Requires(r != nil && (r.closed || r.initRequestCh != nil && !vspec.Closed(r.initRequestCh)))
	vcHost, vcKey, vcTabUp, vcIdx = strings.ToLower(host), key, up, idx
	r.updateLookupTable(up)
	got, ok := r.lookupHost(vcHost)
	ips, in := up[key]
	if in && strings.ToLower(key) == vcHost && specSpells() {
		vspec.Ensures("C14", "the addresses of the current name table", ok && specSameIPs(got, ips))
	}
	vspec.Ensures("C14", "hosts the name table does not have are not resolved", !ok || !specNoSpelling())
	r.updateLookupTable(nil)
	_, ok = r.lookupHost(vcHost)
	vspec.Ensures("C14", "a new name table replaces the old one", !ok)
}

// ---- resolving a host

// tryExpandFQDN by its contract
func modelExpand(bc *BootstrapConfig, host string) string {
	return vspec.Fn[string]("fqdn", bc.configNamespace, bc.nodeDomain, host)
}

func specFirst(r *ndsResolver, name string) string {
	if ips, ok := r.lookupTable[name]; ok && len(ips) > 0 {
		return ips[0]
	}
	return ""
}

//govc:prop C14
//govc:use modelExpand = (*github.com/kitex-contrib/xds/core/manager.BootstrapConfig).tryExpandFQDN
func VC_C14_resolve(c *xdsClient, host string) {
	vspec.Requires(c != nil && c.config != nil && c.cipResolver != nil)
	got := c.resolveAddr(host)
	lower := strings.ToLower(host)
	fqdn := strings.ToLower(vspec.Fn[string]("fqdn", c.config.configNamespace, c.config.nodeDomain, lower))
	// name tables may hold an empty list, never an empty address
	vspec.Assume("the name table holds no empty address", vspec.All(nil, func(k string) bool {
		ips, ok := c.cipResolver.lookupTable[k]
		return !ok || len(ips) == 0 || ips[0] != ""
	}))
	if w := specFirst(c.cipResolver, fqdn); w != "" {
		vspec.Ensures("C14", "the first address of the fully qualified name", got == w)
		return
	}
	vspec.Ensures("C14", "else the first address of the literal host, else none", got == specFirst(c.cipResolver, lower))
}

// resolveAddr by its contract
func modelResolve(c *xdsClient, host string) string {
	return vspec.Fn[string]("address", vspec.Ident(c.cipResolver.lookupTable), host)
}

//govc:prop C14
//govc:use modelResolve = (*github.com/kitex-contrib/xds/core/manager.xdsClient).resolveAddr
//govc:native
func VC_C14_listenerName(c *xdsClient, name string) {
	vspec.Requires(c != nil && c.cipResolver != nil)
	got, err := c.getListenerName(name)
	parts := strings.Split(name, ":")
	if len(parts) > 2 {
		vspec.Ensures("C14", "only host or host:port", err != nil)
		return
	}
	port := "80"
	if len(parts) == 2 {
		port = parts[1]
	}
	ip := vspec.Fn[string]("address", vspec.Ident(c.cipResolver.lookupTable), parts[0])
	vspec.Ensures("C14", "hosts without an address have no listener", (err != nil) == (ip == ""))
	vspec.Ensures("C14", "ip_port", err != nil || got == ip+"_"+port)
}

// ---- binding listeners to the watched names

var (
	vcC    *xdsClient
	vcLds  map[string]*xdsresource.ListenerResource
	vcUpN  int
	vcGotM *xdsResourceManager
	vcGotT xdsresource.ResourceType
	vcGotV string
	vcGotR xdsresource.Resource
	vcGotH bool
	vcLock bool
)

// updateResource by its contract (VC_MGR_update): records what is handed over under vcName
func modelUpdate(m *xdsResourceManager, rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
	vcUpN++
	vcGotM, vcGotT, vcGotV = m, rt, version
	vcGotR, vcGotH = up[vcName]
}

// getListenerName by its contract
func modelListenerName(c *xdsClient, name string) (string, error) {
	return vspec.Fn[string]("lname", vspec.Ident(c.cipResolver.lookupTable), name), vspec.Fn[error]("lnameErr", vspec.Ident(c.cipResolver.lookupTable), name)
}

// the listener that vcName is bound to
func specBound() (*xdsresource.ListenerResource, bool) {
	if _, watched := vcC.watchedResource[xdsresource.ListenerType][vcName]; !watched {
		return nil, false
	}
	if vcC.config.xdsSvrCfg.NDSNotRequired || vcName == xdsresource.ReservedLdsResourceName {
		r, ok := vcLds[vcName]
		return r, ok
	}
	ln, err := modelListenerName(vcC, vcName)
	if err != nil || ln == "" {
		return nil, false
	}
	r, ok := vcLds[ln]
	return r, ok
}

func invBind(made map[string]xdsresource.Resource, seen vspec.Set[string]) bool {
	r, ok := made[vcName]
	w, has := specBound()
	l, is := r.(*xdsresource.ListenerResource)
	return ok == (has && seen.Has(vcName)) && (!ok || is && l == w)
}

//govc:prop C14 C01
//govc:use modelUpdate = (*github.com/kitex-contrib/xds/core/manager.xdsResourceManager).updateResource
//govc:use modelListenerName = (*github.com/kitex-contrib/xds/core/manager.xdsClient).getListenerName
//govc:loops invBind
func VC_C14_bind(c *xdsClient, name string) {
	vspec.Requires(c != nil && c.config != nil && c.config.xdsSvrCfg != nil && c.cipResolver != nil && c.resourceUpdater != nil)
	vcC, vcLds, vcName, vcUpN = c, c.lastLDS, name, 0
	version := c.lastLDSVersion
	c.updateListeners()
	w, has := specBound()
	l, is := vcGotR.(*xdsresource.ListenerResource)
	vspec.Ensures("C14 C01", "the cache is updated once, with the listeners of the last accepted response", vcUpN == 1 && vcGotT == xdsresource.ListenerType && vcGotM == c.resourceUpdater && vcGotV == version)
	vspec.Ensures("C14 C01", "a watched name is bound to the listener the name table designates, other names to none", vcGotH == has && (!has || is && l == w))
}
