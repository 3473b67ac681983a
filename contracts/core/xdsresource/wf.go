package xdsresource

import "github.com/kitex-contrib/xds/vspec"

// Object invariants of decoded resources: what the decoders establish (C11, C12) and the consumers rely on. Each
// is stated for every published object of its type.

func VInvRoute(r *Route) bool {
	return r == nil || r.Match != nil && vspec.Forall(0, len(r.WeightedClusters), func(i int) bool { return r.WeightedClusters[i] != nil })
}

func VInvVirtualHost(v *VirtualHost) bool {
	return v == nil || vspec.Forall(0, len(v.Routes), func(i int) bool { return v.Routes[i] != nil })
}

func VInvHTTP(c *HTTPRouteConfig) bool {
	return c == nil || vspec.Forall(0, len(c.VirtualHosts), func(i int) bool { return c.VirtualHosts[i] != nil })
}

func VInvThrift(c *ThriftRouteConfig) bool {
	return c == nil || vspec.Forall(0, len(c.Routes), func(i int) bool { return c.Routes[i] != nil })
}

func VInvListener(l *ListenerResource) bool {
	return l == nil || vspec.Forall(0, len(l.NetworkFilters), func(i int) bool { return l.NetworkFilters[i] != nil })
}

func VInvLocality(l *Locality) bool {
	return l == nil || vspec.Forall(0, len(l.Endpoints), func(i int) bool { return l.Endpoints[i] != nil })
}

func VInvEndpoint(e *Endpoint) bool { return e == nil || e.Addr() != nil }

func VInvEndpoints(e *EndpointsResource) bool {
	return e == nil || vspec.Forall(0, len(e.Localities), func(i int) bool { return e.Localities[i] != nil })
}

// VInvRouting holds of every published routing object.
func VInvRouting() bool {
	return vspec.All(nil, VInvRoute) && vspec.All(nil, VInvVirtualHost) && vspec.All(nil, VInvHTTP) &&
		vspec.All(nil, VInvThrift) && vspec.All(nil, VInvListener)
}

// VInvCluster holds of every published endpoint object.
func VInvCluster() bool {
	return vspec.All(nil, VInvEndpoint) && vspec.All(nil, VInvLocality) && vspec.All(nil, VInvEndpoints)
}
