From 8656cfd734b18dac21c468a2995a828a954522a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 01/27] fix: scan every HTTP filter for the local rate limit,
 not only the first one

getLocalRateLimitFromHttpConnectionManager returned 0,0 after looking at the
first HTTP filter, so a rate-limit filter anywhere else in the chain was lost.
---
 core/xdsresource/lds.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index 0959008..f9b2581 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -281,7 +281,6 @@ func getLocalRateLimitFromHttpConnectionManager(hcm *v3httppb.HttpConnectionMana
 				return uint32(maxTokens.GetNumberValue()), uint32(tokensPerfill.GetNumberValue()), nil
 			}
 		}
-		return 0, 0, nil
 	}
 	return 0, 0, nil
 }
-- 
2.43.0


From 6aef5d5c4d08c4593718565c641afd1c79325d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 02/27] fix: decode the retry back-off base interval from
 base_interval

BaseInterval was filled from max_interval, so every back-off decoded as fixed
at the maximum interval.
---
 core/xdsresource/rds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/xdsresource/rds.go b/core/xdsresource/rds.go
index dd7f71a..0e6c852 100644
--- a/core/xdsresource/rds.go
+++ b/core/xdsresource/rds.go
@@ -214,7 +214,7 @@ func unmarshalRoutes(rs []*v3routepb.Route) ([]*Route, error) {
 				}
 				if backoff := retryPolicy.GetRetryBackOff(); backoff != nil {
 					route.RetryPolicy.RetryBackOff = &RetryBackOff{
-						BaseInterval: backoff.GetMaxInterval().AsDuration(),
+						BaseInterval: backoff.GetBaseInterval().AsDuration(),
 						MaxInterval:  backoff.GetMaxInterval().AsDuration(),
 					}
 				}
-- 
2.43.0


From 54d8fe7dc7714c8e907ccee16410c2ff4488105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 03/27] fix: keep the destination port of thrift filter chains

A thrift-proxy filter lost the destination port of its filter chain (it always
decoded to port 0), and its absent bucket then overrode the bucket of the chain
without a port in the server limiter.
---
 core/xdsresource/lds.go | 1 +
 xdssuite/limiter.go     | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index f9b2581..70175cf 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -130,6 +130,7 @@ func unmarshalFilterChain(fc *v3listenerpb.FilterChain) ([]*NetworkFilter, error
 				}
 				filters = append(filters, &NetworkFilter{
 					FilterType:        NetworkFilterTypeThrift,
+					RoutePort:         matchPort,
 					InlineRouteConfig: r,
 				})
 			}
diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index c0ec63e..a67eb92 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -55,6 +55,10 @@ func getLimiterPolicy(up map[string]xdsresource.Resource) map[uint32]uint32 {
 	tpfs := make(map[uint32]uint32)
 	for _, lis := range lds.NetworkFilters {
 		if lis.InlineRouteConfig != nil {
+			if _, ok := tpfs[lis.RoutePort]; ok && lis.FilterType == xdsresource.NetworkFilterTypeThrift {
+				// a thrift proxy carries no token bucket, it must not hide the one of its chain.
+				continue
+			}
 			tpfs[lis.RoutePort] = lis.InlineRouteConfig.TokensPerFill
 		}
 	}
-- 
2.43.0


From bfe88a5fc56d533bbcc22da427888c9d3232c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 04/27] fix: keep the rate limit of connection managers without
 a supported route specifier

The bucket decoded from the HTTP filters was dropped when the connection manager
had neither RDS nor an inline route table (e.g. scoped routes).
---
 core/xdsresource/lds.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/xdsresource/lds.go b/core/xdsresource/lds.go
index 70175cf..d5cba0f 100644
--- a/core/xdsresource/lds.go
+++ b/core/xdsresource/lds.go
@@ -241,7 +241,10 @@ func unmarshallHTTPConnectionManager(rawResources *anypb.Any) (string, *RouteCon
 		inlineRouteConfig.TokensPerFill = tokensPerfill
 		return httpConnMng.GetRouteConfig().GetName(), inlineRouteConfig, nil
 	}
-	return "", nil, nil
+	return "", &RouteConfigResource{
+		MaxTokens:     maxTokens,
+		TokensPerFill: tokensPerfill,
+	}, nil
 }
 
 func getLocalRateLimitFromHttpConnectionManager(hcm *v3httppb.HttpConnectionManager) (uint32, uint32, error) {
-- 
2.43.0


From c18c318435484f6cc9dad1d60dcba69cf64123b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 05/27] fix: require all header conditions that name the same
 header

Matchers is keyed by header name, so when a route listed several conditions on
one header only the last one was kept.
---
 core/xdsresource/matcher.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index cbd56ef..b6b67ef 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -45,6 +45,18 @@ func (rm *RegexMatcher) Match(other string) bool {
 	return rm.re.MatchString(other)
 }
 
+// allMatcher holds when every one of its matchers holds.
+type allMatcher []Matcher
+
+func (am allMatcher) Match(other string) bool {
+	for _, m := range am {
+		if !m.Match(other) {
+			return false
+		}
+	}
+	return true
+}
+
 type Matcher interface {
 	Match(string) bool
 }
@@ -60,20 +72,28 @@ func (ms Matchers) Match(other map[string]string) bool {
 	return true
 }
 
+// add adds one more condition on the given key, conditions on the same key are all required.
+func (ms Matchers) add(key string, m Matcher) {
+	if prev, ok := ms[key]; ok {
+		m = allMatcher{prev, m}
+	}
+	ms[key] = m
+}
+
 // BuildMatchers build matcher set from headers
 func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
-	ms := map[string]Matcher{}
+	ms := Matchers{}
 	for _, header := range headers {
 		switch hm := header.GetHeaderMatchSpecifier().(type) {
 		case *v3.HeaderMatcher_StringMatch:
 			switch p := hm.StringMatch.GetMatchPattern().(type) {
 			case *v3matcher.StringMatcher_Exact:
 				if p.Exact != "" {
-					ms[header.Name] = ExactMatcher(p.Exact)
+					ms.add(header.Name, ExactMatcher(p.Exact))
 				}
 			case *v3matcher.StringMatcher_Prefix:
 				if p.Prefix != "" {
-					ms[header.Name] = PrefixMatcher(p.Prefix)
+					ms.add(header.Name, PrefixMatcher(p.Prefix))
 				}
 			case *v3matcher.StringMatcher_SafeRegex:
 				// only support google re2
@@ -83,9 +103,9 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
 						continue
 					}
-					ms[header.Name] = &RegexMatcher{
+					ms.add(header.Name, &RegexMatcher{
 						re: re2,
-					}
+					})
 				}
 			}
 		}
-- 
2.43.0


From 04bc6902bd520757c89fd3e811d316b10f0fd25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 06/27] fix: keep header conditions with an empty pattern

An empty exact, prefix or regex condition still demands that the header is
present (and, for exact, empty); dropping it made the route match calls without
the header.
---
 core/xdsresource/matcher.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index b6b67ef..60abaf8 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -88,16 +88,12 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 		case *v3.HeaderMatcher_StringMatch:
 			switch p := hm.StringMatch.GetMatchPattern().(type) {
 			case *v3matcher.StringMatcher_Exact:
-				if p.Exact != "" {
-					ms.add(header.Name, ExactMatcher(p.Exact))
-				}
+				ms.add(header.Name, ExactMatcher(p.Exact))
 			case *v3matcher.StringMatcher_Prefix:
-				if p.Prefix != "" {
-					ms.add(header.Name, PrefixMatcher(p.Prefix))
-				}
+				ms.add(header.Name, PrefixMatcher(p.Prefix))
 			case *v3matcher.StringMatcher_SafeRegex:
 				// only support google re2
-				if p.SafeRegex != nil && p.SafeRegex.Regex != "" {
+				if p.SafeRegex != nil {
 					re2, err := regexp.Compile(p.SafeRegex.Regex)
 					if err != nil {
 						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
-- 
2.43.0


From 6b8b39131ebeba4d9a4882d2205ee1baa24f5936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 07/27] fix: a header regex that does not compile never matches

The condition was skipped, which turned a restricted route into one that matches
every call.
---
 core/xdsresource/matcher.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/xdsresource/matcher.go b/core/xdsresource/matcher.go
index 60abaf8..f548e22 100644
--- a/core/xdsresource/matcher.go
+++ b/core/xdsresource/matcher.go
@@ -57,6 +57,13 @@ func (am allMatcher) Match(other string) bool {
 	return true
 }
 
+// neverMatcher never holds.
+type neverMatcher struct{}
+
+func (neverMatcher) Match(string) bool {
+	return false
+}
+
 type Matcher interface {
 	Match(string) bool
 }
@@ -96,7 +103,9 @@ func BuildMatchers(headers []*v3.HeaderMatcher) Matchers {
 				if p.SafeRegex != nil {
 					re2, err := regexp.Compile(p.SafeRegex.Regex)
 					if err != nil {
-						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:", p.SafeRegex.Regex, err)
+						klog.Warnf("KITEX: [XDS] compile regexp %s failed when BuildMatchers,  err:%s", p.SafeRegex.Regex, err)
+						// a condition that can not be evaluated never holds
+						ms.add(header.Name, neverMatcher{})
 						continue
 					}
 					ms.add(header.Name, &RegexMatcher{
-- 
2.43.0


From ea12483c019d2f7fa73e99ca7dcecf137e2b1e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 08/27] fix: pick weighted clusters proportionally and without
 overflow

The draw is in [0,total), so cluster i owns the draws with prefix(i) <= t <
prefix(i+1). Comparing with >= gave every cluster but the last one draw of its
neighbour, so a leading zero-weight cluster received traffic. Totals above
MaxInt32 made Int31n panic and totals above MaxUint32 wrapped around.
---
 xdssuite/router.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index e6ccd8f..c91b6e7 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -218,16 +218,19 @@ func pickCluster(route *xdsresource.Route) (string, error) {
 	if len(wcs) == 1 {
 		return wcs[0].Name, nil
 	}
-	currWeight := uint32(0)
-	totalWeight := calTotalWeight(wcs)
+	// the sum of the weights may exceed the range of uint32
+	currWeight, totalWeight := uint64(0), uint64(0)
+	for _, wc := range wcs {
+		totalWeight += uint64(wc.Weight)
+	}
 	if totalWeight <= 0 {
 		js, _ := route.MarshalJSON()
 		return "", fmt.Errorf("total weight of route is invalid (<= 0), route: %s", js)
 	}
-	targetWeight := uint32(fastrand.Int31n(int32(totalWeight)))
+	targetWeight := fastrand.Uint64n(totalWeight)
 	for _, wc := range wcs {
-		currWeight += wc.Weight
-		if currWeight >= targetWeight {
+		currWeight += uint64(wc.Weight)
+		if currWeight > targetWeight {
 			return wc.Name, nil
 		}
 	}
-- 
2.43.0


From 20148d22a947ea873a11a576c51ae65d67e1f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 09/27] fix: resolving a cluster without endpoints is an error

A load assignment whose localities are all empty resolved to an empty success,
and a lookup that yields no usable resource panicked in the type assertion.
---
 xdssuite/resolver.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xdssuite/resolver.go b/xdssuite/resolver.go
index 0d73e8f..6d03856 100644
--- a/xdssuite/resolver.go
+++ b/xdssuite/resolver.go
@@ -75,7 +75,10 @@ func (r *XDSResolver) getEndpoints(ctx context.Context, desc string) ([]*xdsreso
 	if err != nil {
 		return nil, err
 	}
-	cluster := res.(*xdsresource.ClusterResource)
+	cluster, ok := res.(*xdsresource.ClusterResource)
+	if !ok || cluster == nil {
+		return nil, fmt.Errorf("no cluster resource for cluster: %s", desc)
+	}
 	var endpoints *xdsresource.EndpointsResource
 	if cluster.InlineEndpoints != nil {
 		endpoints = cluster.InlineEndpoints
@@ -84,8 +87,8 @@ func (r *XDSResolver) getEndpoints(ctx context.Context, desc string) ([]*xdsreso
 		if err != nil {
 			return nil, err
 		}
-		cla := resource.(*xdsresource.EndpointsResource)
-		endpoints = cla
+		// a missing load assignment is reported as no endpoints below
+		endpoints, _ = resource.(*xdsresource.EndpointsResource)
 	}
 
 	if endpoints == nil || len(endpoints.Localities) == 0 {
@@ -96,6 +99,9 @@ func (r *XDSResolver) getEndpoints(ctx context.Context, desc string) ([]*xdsreso
 	for _, locality := range endpoints.Localities {
 		eps = append(eps, locality.Endpoints...)
 	}
+	if len(eps) == 0 {
+		return nil, fmt.Errorf("no endpoints for cluster: %s", desc)
+	}
 	return eps, nil
 }
 
-- 
2.43.0


From 1aecc7b1423453eccffccbabdc31b7b03c492e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 10/27] fix: routing fails with an error when a lookup yields
 no usable resource

The unchecked type assertions panicked on a nil listener or route table.
---
 xdssuite/router.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index c91b6e7..0e68c04 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -117,7 +117,10 @@ func (r *XDSRouter) matchRoute(ctx context.Context, ri rpcinfo.RPCInfo) (*xdsres
 	if err != nil {
 		return nil, fmt.Errorf("get listener failed: %v", err)
 	}
-	listener := lds.(*xdsresource.ListenerResource)
+	listener, ok := lds.(*xdsresource.ListenerResource)
+	if !ok || listener == nil {
+		return nil, fmt.Errorf("get listener failed: no listener resource for %s", ln)
+	}
 
 	var thriftFilter, httpFilter *xdsresource.NetworkFilter
 	for _, f := range listener.NetworkFilters {
@@ -156,7 +159,10 @@ func (r *XDSRouter) matchRoute(ctx context.Context, ri rpcinfo.RPCInfo) (*xdsres
 	if err != nil {
 		return nil, fmt.Errorf("get route failed: %v", err)
 	}
-	rcfg := rds.(*xdsresource.RouteConfigResource)
+	rcfg, ok := rds.(*xdsresource.RouteConfigResource)
+	if !ok || rcfg == nil {
+		return nil, fmt.Errorf("get route failed: no route resource for %s", httpFilter.RouteConfigName)
+	}
 	rt := matchHTTPRoute(md, ri, rcfg)
 	if rt != nil {
 		return rt, nil
-- 
2.43.0


From 115adbbb8fd094ac3561f56df84841777ffd1c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 11/27] fix: check the destination before reading its tag in
 the router middleware

The nil check came after the first use, so a call without a destination panicked
instead of failing with ErrNoDestService.
---
 xdssuite/router.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xdssuite/router.go b/xdssuite/router.go
index 0e68c04..5abfb1b 100644
--- a/xdssuite/router.go
+++ b/xdssuite/router.go
@@ -44,15 +44,15 @@ func NewXDSRouterMiddleware(opts ...Option) endpoint.Middleware {
 	return func(next endpoint.Endpoint) endpoint.Endpoint {
 		return func(ctx context.Context, request, response interface{}) error {
 			ri := rpcinfo.GetRPCInfo(ctx)
-			_, exist := ri.To().Tag(RouterClusterKey)
-			if exist {
-				return next(ctx, request, response)
-			}
-
 			dest := ri.To()
 			if dest == nil {
 				return kerrors.ErrNoDestService
 			}
+			_, exist := dest.Tag(RouterClusterKey)
+			if exist {
+				return next(ctx, request, response)
+			}
+
 			res, err := router.Route(ctx, ri)
 			if err != nil {
 				return kerrors.ErrRoute.WithCause(err)
-- 
2.43.0


From 38c50142a78d5faa5a83dd94da37af767210b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 12/27] fix: a load assignment without endpoints decodes to an
 empty resource

It was stored as a nil *EndpointsResource, so a lookup returned neither a value
nor an error.
---
 core/xdsresource/eds.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/xdsresource/eds.go b/core/xdsresource/eds.go
index 019f5bd..4d1f167 100644
--- a/core/xdsresource/eds.go
+++ b/core/xdsresource/eds.go
@@ -122,6 +122,10 @@ func UnmarshalEDS(rawResources []*anypb.Any) (map[string]Resource, error) {
 			errMap[cla.ClusterName] = err
 			continue
 		}
+		if endpoints == nil {
+			// the load assignment was supplied, but it lists no endpoints
+			endpoints = &EndpointsResource{}
+		}
 		ret[cla.ClusterName] = endpoints
 	}
 	if len(errMap) == 0 && len(errSlice) == 0 {
-- 
2.43.0


From 038141f29d82fb88c5c933e8808fbc628a173197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 13/27] fix: decode every resource of a name-table response

Only the first resource was looked at: a wrong type or a corrupt payload in a
later slot was acknowledged, and its hosts were lost.
---
 core/xdsresource/nds.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/core/xdsresource/nds.go b/core/xdsresource/nds.go
index 008591f..1d2407b 100644
--- a/core/xdsresource/nds.go
+++ b/core/xdsresource/nds.go
@@ -33,17 +33,18 @@ func UnmarshalNDS(rawResources []*anypb.Any) (*NDSResource, error) {
 	if len(rawResources) < 1 {
 		return nil, fmt.Errorf("no NDS resource found in the response")
 	}
-	r := rawResources[0]
-	if r.GetTypeUrl() != NameTableTypeURL {
-		return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
-	}
-	nt := &dnsProto.NameTable{}
-	if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
-		return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
-	}
 	res := make(map[string][]string)
-	for k, v := range nt.Table {
-		res[k] = v.Ips
+	for _, r := range rawResources {
+		if r.GetTypeUrl() != NameTableTypeURL {
+			return nil, fmt.Errorf("invalid nameTable resource type: %s", r.GetTypeUrl())
+		}
+		nt := &dnsProto.NameTable{}
+		if err := proto.Unmarshal(r.GetValue(), nt); err != nil {
+			return nil, fmt.Errorf("unmarshal NameTable failed: %s", err)
+		}
+		for k, v := range nt.Table {
+			res[k] = v.Ips
+		}
 	}
 
 	return &NDSResource{
-- 
2.43.0


From e9a4b1e72846bb430e0e13caad88d89dea3d293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 14/27] fix: do not cache a placeholder for listeners missing
 from the response

Without NDS (and for the reserved inbound listener) every watched listener was
stored, absent ones as a nil *ListenerResource, so a lookup of a listener the
control plane never supplied succeeded with a nil value.
---
 core/manager/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index c338e34..4bfebbb 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -482,8 +482,8 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 			if lis, ok := res[ln]; ok {
 				filteredRes[n] = lis
 			}
-		} else {
-			filteredRes[n] = res[n]
+		} else if lis, ok := res[n]; ok {
+			filteredRes[n] = lis
 		}
 	}
 	c.mu.RUnlock()
-- 
2.43.0


From 330c424827f82776d0dc04d85f171752ccc1d829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 15/27] fix: compare INSTANCE_IPS elements, not substrings

A pod IP that is a substring of a listed one (10.0.0.1 in 10.0.0.12) was taken
as present and never added.
---
 core/manager/bootstrap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/manager/bootstrap.go b/core/manager/bootstrap.go
index e96fd75..0f16a72 100644
--- a/core/manager/bootstrap.go
+++ b/core/manager/bootstrap.go
@@ -117,7 +117,7 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 		existips := ips.GetStringValue()
 		if existips == "" {
 			existips = podIP
-		} else if !strings.Contains(existips, podIP) {
+		} else if !containsIP(existips, podIP) {
 			existips = existips + "," + podIP
 		}
 		pbmeta.Fields[IstioMetaInstanceIPs] = &structpb.Value{
@@ -127,6 +127,16 @@ func parseMetaEnvs(envs, istioVersion, podIP string) *structpb.Struct {
 	return pbmeta
 }
 
+// containsIP reports whether ip is an element of the comma separated list.
+func containsIP(list, ip string) bool {
+	for _, e := range strings.Split(list, ",") {
+		if e == ip {
+			return true
+		}
+	}
+	return false
+}
+
 func nodeId(podIP, podName, namespace, nodeDomain string) string {
 	//"sidecar~" + podIP + "~" + podName + "." + namespace + "~" + namespace + ".svc." + domain,
 	return fmt.Sprintf("sidecar~%s~%s.%s~%s.svc.%s", podIP, podName, namespace, namespace, nodeDomain)
-- 
2.43.0


From 031de8003e8ab1273eff9d32e040536fdabe18f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 16/27] fix: do not lose a limit update that races with
 installing the updater

An update arriving between UpdateLimit and Store in UpdateControl was neither
seen by the one nor pushed by the other, and both sides accessed the option
without synchronisation.
---
 xdssuite/limiter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xdssuite/limiter.go b/xdssuite/limiter.go
index a67eb92..a7af1b8 100644
--- a/xdssuite/limiter.go
+++ b/xdssuite/limiter.go
@@ -18,6 +18,7 @@ package xdssuite
 
 import (
 	"math"
+	"sync"
 	"sync/atomic"
 
 	"github.com/cloudwego/kitex/pkg/klog"
@@ -69,12 +70,16 @@ type limiter struct {
 	updater atomic.Value
 	opt     *limit.Option
 	port    uint32
+	// mu orders the updates of opt and their delivery to the updater.
+	mu sync.Mutex
 }
 
 func (l *limiter) updateHandler(changed *limit.Option) {
 	if changed == nil {
 		return
 	}
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	l.opt.MaxConnections = changed.MaxConnections
 	l.opt.MaxQPS = changed.MaxQPS
 	u := l.updater.Load()
@@ -120,6 +125,8 @@ func NewLimiter(opts ...Option) server.Option {
 	}
 
 	l.opt.UpdateControl = func(u limit.Updater) {
+		l.mu.Lock()
+		defer l.mu.Unlock()
 		u.UpdateLimit(l.opt)
 		l.updater.Store(u)
 	}
-- 
2.43.0


From 82c53199d4b73783fcf996032b32a83452e7faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 17/27] fix: evict cached resources that were never looked up

LastAccessTime was only set by a lookup that hits, and the cleaner skips entries
without one, so a resource that arrived after its lookup had timed out stayed
cached and subscribed forever.
---
 core/manager/manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 5581bba..ceb47ac 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -259,11 +259,14 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 			mt.Version = version
 			mt.UpdateTime = updateTime
 		} else {
-			m.meta[rType][name] = &xdsresource.ResourceMeta{
+			mt = &xdsresource.ResourceMeta{
 				Version:        version,
 				UpdateTime:     updateTime,
 				LastAccessTime: atomic.Value{},
 			}
+			// a resource that is never looked up is idle since it was cached
+			mt.LastAccessTime.Store(updateTime)
+			m.meta[rType][name] = mt
 		}
 	}
 }
-- 
2.43.0


From 3ee18925158db3c8d2ccab361142dc0d35797ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 18/27] fix: pass update handlers all resources in force, not
 only a partial update

RDS and EDS responses may list a part of the resources. The retry handler got
only that part and removed the policies of every table the response omitted.
---
 core/manager/manager.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index ceb47ac..9e52aea 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -271,6 +271,22 @@ func (m *xdsResourceManager) updateMeta(rType xdsresource.ResourceType, version
 	}
 }
 
+// resourcesAfter returns all the resources of the type that are in force after the update. A partial
+// update does not affect the resources it omits.
+func (m *xdsResourceManager) resourcesAfter(rt xdsresource.ResourceType, up map[string]xdsresource.Resource) map[string]xdsresource.Resource {
+	if rt.RequireFullADSResponse() {
+		return up
+	}
+	all := make(map[string]xdsresource.Resource, len(m.cache[rt])+len(up))
+	for name, res := range m.cache[rt] {
+		all[name] = res
+	}
+	for name, res := range up {
+		all[name] = res
+	}
+	return all
+}
+
 // the routeConfigName
 
 // UpdateResource is invoked by client to update the cache
@@ -282,7 +298,7 @@ func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
 		for _, handler := range handlers {
-			handler(up)
+			handler(m.resourcesAfter(rt, up))
 		}
 	}
 
-- 
2.43.0


From 1a7c1398648dba841d0a3c464b361086f94bd804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 19/27] fix: a lookup returns the delivered resource or an
 error, whatever other callers do

Get returned neither a value nor an error when the resource was removed between
the wake-up and the second cache read; it missed a resource cached between the
first look and the registration; a caller that timed out removed the notifier
other callers were still waiting for; and it reported a timeout although the
resource had been delivered.
---
 core/manager/manager.go | 58 +++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/core/manager/manager.go b/core/manager/manager.go
index 9e52aea..7ba6c37 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -57,6 +57,11 @@ type xdsResourceManager struct {
 type notifier struct {
 	ch  chan struct{}
 	err error
+	// res is the resource that was delivered with the notification.
+	res xdsresource.Resource
+	// waiters is the number of lookups that registered and have not given up, guarded by
+	// the lock of the manager.
+	waiters int
 }
 
 func (n *notifier) notify(err error) {
@@ -109,6 +114,11 @@ func initXDSClient(bootstrapConfig *BootstrapConfig, m *xdsResourceManager) (*xd
 func (m *xdsResourceManager) getFromCache(rType xdsresource.ResourceType, rName string) (interface{}, bool) {
 	m.mu.RLock()
 	defer m.mu.RUnlock()
+	return m.lookup(rType, rName)
+}
+
+// lookup is getFromCache for callers that hold the lock
+func (m *xdsResourceManager) lookup(rType xdsresource.ResourceType, rName string) (interface{}, bool) {
 	if ms, ok1 := m.meta[rType]; ok1 {
 		if mt, ok2 := ms[rName]; ok2 {
 			mt.LastAccessTime.Store(time.Now())
@@ -151,6 +161,11 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 
 	// Fetch resource via client and wait for the update
 	m.mu.Lock()
+	// the resource may have been cached since the first look
+	if res, ok = m.lookup(rType, rName); ok {
+		m.mu.Unlock()
+		return res, nil
+	}
 	// Setup channel for this resource
 	if _, ok := m.notifierMap[rType]; !ok {
 		m.notifierMap[rType] = make(map[string]*notifier)
@@ -162,6 +177,7 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 		// only send one request for this resource
 		m.client.Watch(rType, rName, false)
 	}
+	nf.waiters++
 	m.mu.Unlock()
 	// Set fetch timeout
 	ctx, cancel := context.WithTimeout(ctx, m.opts.XDSSvrConfig.GetFetchXDSTimeout())
@@ -169,21 +185,40 @@ func (m *xdsResourceManager) Get(ctx context.Context, rType xdsresource.Resource
 
 	select {
 	case <-nf.ch:
-		// error in the notifier
-		if nf.err != nil {
-			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
-				xdsresource.ResourceTypeToName[rType], rName, nf.err.Error())
+	case <-ctx.Done():
+		if m.giveUp(rType, rName, nf) {
+			return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
+				xdsresource.ResourceTypeToName[rType], rName)
 		}
-		res, _ = m.getFromCache(rType, rName)
+		// the resource was delivered before this lookup gave up
+	}
+	// error in the notifier
+	if nf.err != nil {
+		return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] failed, error=%s",
+			xdsresource.ResourceTypeToName[rType], rName, nf.err.Error())
+	}
+	if res, ok = m.getFromCache(rType, rName); ok {
 		return res, nil
-	case <-ctx.Done():
-		// remove the notifier if timeout.
-		m.mu.Lock()
+	}
+	// the resource has been removed since it was delivered
+	return nf.res, nil
+}
+
+// giveUp withdraws one lookup from the notifier. It returns false if the notifier was notified before.
+// The notifier is only removed when no other lookup waits for it.
+func (m *xdsResourceManager) giveUp(rType xdsresource.ResourceType, rName string, nf *notifier) bool {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	select {
+	case <-nf.ch:
+		return false
+	default:
+	}
+	nf.waiters--
+	if nf.waiters == 0 {
 		delete(m.notifierMap[rType], rName)
-		m.mu.Unlock()
-		return nil, fmt.Errorf("[XDS] manager, fetch %s resource[%s] timeout",
-			xdsresource.ResourceTypeToName[rType], rName)
 	}
+	return true
 }
 
 // cleaner cleans the expired cache periodically
@@ -311,6 +346,7 @@ func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[
 			continue
 		}
 		if nf, exist := m.notifierMap[rt][name]; exist {
+			nf.res = res
 			nf.notify(nil)
 			delete(m.notifierMap[rt], name)
 		}
-- 
2.43.0


From 96115a3c96164d9c70d0b508cf24d19086f2dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 20/27] fix: filter a response and update the cache under one
 lock

An eviction between the subscription filter and UpdateResource put the resource
back although it was no longer subscribed: later lookups hit the stale entry and
never subscribed again.
---
 core/manager/client.go  | 20 ++++++++++++++++----
 core/manager/manager.go |  4 ++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 4bfebbb..26d8fd3 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -470,6 +470,9 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 	// returned listener name is in the format of ${clusterIP}_${port}
 	// which should be converted into to the listener name, in the form of ${fqdn}_${port}, watched by the xds client.
 	// we need to filter the response.
+	// no eviction may happen between the filter and the update
+	c.resourceUpdater.mu.Lock()
+	defer c.resourceUpdater.mu.Unlock()
 	c.mu.RLock()
 	filteredRes := make(map[string]xdsresource.Resource)
 	for n := range c.watchedResource[xdsresource.ListenerType] {
@@ -488,7 +491,7 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ListenerType, filteredRes, resp.GetVersionInfo())
+	c.resourceUpdater.updateResource(xdsresource.ListenerType, filteredRes, resp.GetVersionInfo())
 
 	if c.closedInboundInitCh.CompareAndSwap(false, true) {
 		klog.Info("KITEX: [xds] receive inbound init request")
@@ -505,6 +508,9 @@ func (c *xdsClient) handleRDS(resp *discoveryv3.DiscoveryResponse) error {
 		return err
 	}
 
+	// no eviction may happen between the filter and the update
+	c.resourceUpdater.mu.Lock()
+	defer c.resourceUpdater.mu.Unlock()
 	// filter the resources that are not in the watched list
 	c.mu.RLock()
 	for name := range res {
@@ -515,7 +521,7 @@ func (c *xdsClient) handleRDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.RouteConfigType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateResource(xdsresource.RouteConfigType, res, resp.GetVersionInfo())
 	return nil
 }
 
@@ -527,6 +533,9 @@ func (c *xdsClient) handleCDS(resp *discoveryv3.DiscoveryResponse) error {
 		return fmt.Errorf("handle cluster failed: %s", err)
 	}
 
+	// no eviction may happen between the filter and the update
+	c.resourceUpdater.mu.Lock()
+	defer c.resourceUpdater.mu.Unlock()
 	// filter the resources that are not in the watched list
 	c.mu.RLock()
 	for name := range res {
@@ -536,7 +545,7 @@ func (c *xdsClient) handleCDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.ClusterType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateResource(xdsresource.ClusterType, res, resp.GetVersionInfo())
 	return nil
 }
 
@@ -548,6 +557,9 @@ func (c *xdsClient) handleEDS(resp *discoveryv3.DiscoveryResponse) error {
 		return fmt.Errorf("handle endpoint failed: %s", err)
 	}
 
+	// no eviction may happen between the filter and the update
+	c.resourceUpdater.mu.Lock()
+	defer c.resourceUpdater.mu.Unlock()
 	// filter the resources that are not in the watched list
 	c.mu.RLock()
 	for name := range res {
@@ -557,7 +569,7 @@ func (c *xdsClient) handleEDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.UpdateResource(xdsresource.EndpointsType, res, resp.GetVersionInfo())
+	c.resourceUpdater.updateResource(xdsresource.EndpointsType, res, resp.GetVersionInfo())
 	return nil
 }
 
diff --git a/core/manager/manager.go b/core/manager/manager.go
index 7ba6c37..c2208e9 100644
--- a/core/manager/manager.go
+++ b/core/manager/manager.go
@@ -328,7 +328,11 @@ func (m *xdsResourceManager) resourcesAfter(rt xdsresource.ResourceType, up map[
 func (m *xdsResourceManager) UpdateResource(rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	m.updateResource(rt, up, version)
+}
 
+// updateResource is UpdateResource for callers that hold the lock
+func (m *xdsResourceManager) updateResource(rt xdsresource.ResourceType, up map[string]xdsresource.Resource, version string) {
 	// should update xds updater first, as it may affect the traffic when the
 	// policy is updated at the first time.
 	if handlers, ok := m.xdsHandlers[rt]; ok {
-- 
2.43.0


From 1f17e11a55405cc721639d7a7dd953a4e4f1e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 21/27] fix: closing the client twice concurrently must not
 panic

Close and an authentication failure could both find closeCh open and close it.
---
 core/manager/client.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 26d8fd3..0221873 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -129,7 +129,8 @@ type xdsClient struct {
 	resourceUpdater *xdsResourceManager
 
 	// channel for stop
-	closeCh chan struct{}
+	closeCh   chan struct{}
+	closeOnce sync.Once
 	// indicates ready for listener
 	inboundInitRequestCh chan struct{}
 	closedInboundInitCh  atomic.Bool
@@ -341,11 +342,9 @@ func (c *xdsClient) run() {
 
 // close the xdsClient
 func (c *xdsClient) close() {
-	select {
-	case <-c.closeCh:
-	default:
+	c.closeOnce.Do(func() {
 		close(c.closeCh)
-	}
+	})
 }
 
 // connect construct a new stream that connects to the xds server
-- 
2.43.0


From e483c833bf28634dcff0685ef120f608d1a7ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 22/27] fix: queueing a request must not block while holding
 the locks

Once the sender had stopped (authentication rejection, close, failed connect) or
was stalled, the request channel filled up and Watch blocked forever with the
locks of the client and of the manager held, so every later lookup hung past its
deadline, and a reconnecting sender that needs the lock deadlocked with it.
---
 core/manager/client.go | 43 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 0221873..bd2ad23 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -120,9 +120,11 @@ type xdsClient struct {
 	nonceMap map[xdsresource.ResourceType]string
 
 	// adsClient is a kitex client using grpc protocol that can communicate with xds server.
-	adsClient      ADSClient
-	streamCh       chan ADSStream
-	reqCh          chan *discoveryv3.DiscoveryRequest
+	adsClient ADSClient
+	streamCh  chan ADSStream
+	reqCh     chan *discoveryv3.DiscoveryRequest
+	// overflow holds the requests that did not fit in reqCh, in order, guarded by mu.
+	overflow       []*discoveryv3.DiscoveryRequest
 	connectBackoff backoff.BackOff
 
 	// resourceUpdater is used to update the resource update to the cache.
@@ -235,6 +237,7 @@ func (c *xdsClient) sender(as ADSStream) {
 				continue
 			}
 		case req := <-c.reqCh:
+			c.refillRequestCh()
 			if currStream != nil {
 				err := currStream.Send(req)
 				if err != nil {
@@ -331,6 +334,7 @@ func (c *xdsClient) run() {
 	as, err := c.connect()
 	if err != nil {
 		klog.Errorf("[XDS] client, failed to connect the xDS Server, error=%s", err.Error())
+		c.close()
 		return
 	}
 
@@ -379,6 +383,7 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 	c.mu.Lock()
 	c.nonceMap = make(map[xdsresource.ResourceType]string)
 	clearRequestCh(c.reqCh, len(c.reqCh))
+	c.overflow = nil
 	c.mu.Unlock()
 
 	// notify others to use the new stream
@@ -401,9 +406,37 @@ func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	return nil
 }
 
+// sendRequest queues the request for the sender, it must be called with the lock held and never blocks.
 func (c *xdsClient) sendRequest(req *discoveryv3.DiscoveryRequest) {
-	// put the req to the channel
-	c.reqCh <- req
+	select {
+	case <-c.closeCh:
+		// nobody will send it
+		return
+	default:
+	}
+	if len(c.overflow) == 0 {
+		// put the req to the channel
+		select {
+		case c.reqCh <- req:
+			return
+		default:
+		}
+	}
+	c.overflow = append(c.overflow, req)
+}
+
+// refillRequestCh moves the overflowed requests to the channel, in order.
+func (c *xdsClient) refillRequestCh() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	for len(c.overflow) > 0 {
+		select {
+		case c.reqCh <- c.overflow[0]:
+			c.overflow = c.overflow[1:]
+		default:
+			return
+		}
+	}
 }
 
 func (c *xdsClient) resolveAddr(host string) string {
-- 
2.43.0


From 7b9af92124e02259261afc2e07f9fd463e21e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 23/27] fix: do not wait for the warm-up responses of a stopped
 client

An authentication rejection during start-up stops the client, but the warm-up
kept waiting forever for responses that can not arrive.
---
 core/manager/client.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index bd2ad23..635d43b 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -305,14 +305,22 @@ func (c *xdsClient) ldsRequired() bool {
 func (c *xdsClient) ndsWarmup() {
 	// watch the NameTable when init the xds client
 	c.Watch(xdsresource.NameTableType, "", false)
-	<-c.cipResolver.initRequestCh
+	select {
+	case <-c.cipResolver.initRequestCh:
+	case <-c.closeCh:
+		return
+	}
 	klog.Infof("KITEX: [XDS] nds, warmup done")
 }
 
 func (c *xdsClient) listenerWarmup() {
 	// watch the Listener when init the xds client, it is used for inbound side.
 	c.Watch(xdsresource.ListenerType, xdsresource.ReservedLdsResourceName, false)
-	<-c.inboundInitRequestCh
+	select {
+	case <-c.inboundInitRequestCh:
+	case <-c.closeCh:
+		return
+	}
 	klog.Infof("KITEX: [XDS] lds, warmup done")
 }
 
-- 
2.43.0


From 705495fc5bdb23919172d2341e7aed59cac86514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 24/27] fix: hand a new stream over to the sender before
 reading from it

streamCh was buffered: the receiver could process a response of the new stream
while the sender still used the old one, and its ACK, carrying a nonce of the new
stream, went out on the old stream. The hand-over also hung when the client had
been closed.
---
 core/manager/client.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 635d43b..66491ca 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -153,7 +153,7 @@ func newXdsClient(bCfg *BootstrapConfig, ac ADSClient, updater *xdsResourceManag
 		resourceUpdater:      updater,
 		closeCh:              make(chan struct{}),
 		inboundInitRequestCh: make(chan struct{}),
-		streamCh:             make(chan ADSStream, 1),
+		streamCh:             make(chan ADSStream),
 		reqCh:                make(chan *discoveryv3.DiscoveryRequest, 1024),
 	}
 	cli.run()
@@ -394,8 +394,14 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 	c.overflow = nil
 	c.mu.Unlock()
 
-	// notify others to use the new stream
-	c.streamCh <- as
+	// hand the new stream to the sender, it must have left the old stream before any response of
+	// the new one is acknowledged.
+	select {
+	case c.streamCh <- as:
+	case <-c.closeCh:
+		as.Close()
+		return nil, fmt.Errorf("client is closed")
+	}
 	return as, nil
 }
 
-- 
2.43.0


From 0ac79d1986d6f3d282c48a477cec1986a9525c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:46 +0000
Subject: [PATCH 25/27] fix: do not send on a stream while holding the client
 lock

reqWhenReconnect sent with the lock held: when the new stream stalled, every
lookup blocked on the lock past its deadline. The nonce of these requests is empty
by definition, also if the server has already pushed something on the new stream.
---
 core/manager/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 66491ca..51d11ab 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -409,9 +409,13 @@ func (c *xdsClient) reconnect() (ADSStream, error) {
 func (c *xdsClient) reqWhenReconnect(as ADSStream) error {
 	// send new requests for all watched resources when reqWhenReconnect
 	c.mu.Lock()
-	defer c.mu.Unlock()
+	reqs := make([]*discoveryv3.DiscoveryRequest, 0, len(c.watchedResource))
 	for rType, res := range c.watchedResource {
-		req := c.prepareRequest(rType, c.versionMap[rType], c.nonceMap[rType], res)
+		// the first request of a stream has no nonce
+		reqs = append(reqs, c.prepareRequest(rType, c.versionMap[rType], "", res))
+	}
+	c.mu.Unlock()
+	for _, req := range reqs {
 		if err := as.Send(req); err != nil {
 			// return err if send failed
 			return err
-- 
2.43.0


From 44c9faaf6be4c7ac4fcbe31d72aa22a9bcdbcc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 26/27] fix: compare host names case-insensitively on both
 sides

The requested host was lower-cased but the hosts of the name table, the namespace
and the domain were not, so a host the table lists in mixed case never resolved.
---
 core/manager/client.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 51d11ab..11fe95c 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -95,7 +95,16 @@ func (r *ndsResolver) updateLookupTable(up map[string][]string) {
 		close(r.initRequestCh)
 		r.closed = true
 	}
-	r.lookupTable = up
+	// host names are compared case-insensitively, the lower-case spelling wins if there are several.
+	table := make(map[string][]string, len(up))
+	for host, ips := range up {
+		lower := strings.ToLower(host)
+		if _, ok := up[lower]; ok && lower != host {
+			continue
+		}
+		table[lower] = ips
+	}
+	r.lookupTable = table
 }
 
 // xdsClient communicates with the control plane to perform xds resource discovery.
@@ -470,7 +479,7 @@ func (c *xdsClient) resolveAddr(host string) string {
 	// 4. service with more than 4 parts, such as dubbo interface org.cloudwego.kitex.samples.api.greetprovider, invoke twice always.
 	// FIXME: format as <serviceName>.<namespace> is not supported.
 	// TODO: if it leads to performance issue, use cache to improve it.
-	fqdn := c.config.tryExpandFQDN(host)
+	fqdn := strings.ToLower(c.config.tryExpandFQDN(host))
 	cip, ok := c.cipResolver.lookupHost(fqdn)
 	if ok && len(cip) > 0 {
 		return cip[0]
-- 
2.43.0


From 817a601a022d280565baeda7d6219d9a6b3628fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 27/27] fix: bind the listeners again when the name table
 changes

Listeners were only bound to the watched names when an LDS response arrived, so
after a name-table update lookups kept being served by the listener of the old
address, or failed although the current table designates a known listener.
---
 core/manager/client.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/core/manager/client.go b/core/manager/client.go
index 11fe95c..05b5d24 100644
--- a/core/manager/client.go
+++ b/core/manager/client.go
@@ -128,6 +128,11 @@ type xdsClient struct {
 	// nonceMap stores the nonce of the recent response.
 	nonceMap map[xdsresource.ResourceType]string
 
+	// lastLDS is the content of the last accepted LDS response, which is bound to the watched names
+	// again when the name table changes. It is only used by the receiver.
+	lastLDS        map[string]*xdsresource.ListenerResource
+	lastLDSVersion string
+
 	// adsClient is a kitex client using grpc protocol that can communicate with xds server.
 	adsClient ADSClient
 	streamCh  chan ADSStream
@@ -526,6 +531,19 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 		return err
 	}
 
+	c.lastLDS, c.lastLDSVersion = res, resp.GetVersionInfo()
+	c.updateListeners()
+
+	if c.closedInboundInitCh.CompareAndSwap(false, true) {
+		klog.Info("KITEX: [xds] receive inbound init request")
+		close(c.inboundInitRequestCh)
+	}
+	return nil
+}
+
+// updateListeners binds the listeners of the last accepted response to the watched names and updates the cache.
+func (c *xdsClient) updateListeners() {
+	res := c.lastLDS
 	// returned listener name is in the format of ${clusterIP}_${port}
 	// which should be converted into to the listener name, in the form of ${fqdn}_${port}, watched by the xds client.
 	// we need to filter the response.
@@ -550,13 +568,7 @@ func (c *xdsClient) handleLDS(resp *discoveryv3.DiscoveryResponse) error {
 	}
 	c.mu.RUnlock()
 	// update to cache
-	c.resourceUpdater.updateResource(xdsresource.ListenerType, filteredRes, resp.GetVersionInfo())
-
-	if c.closedInboundInitCh.CompareAndSwap(false, true) {
-		klog.Info("KITEX: [xds] receive inbound init request")
-		close(c.inboundInitRequestCh)
-	}
-	return nil
+	c.resourceUpdater.updateResource(xdsresource.ListenerType, filteredRes, c.lastLDSVersion)
 }
 
 // handleRDS handles the rds response
@@ -639,6 +651,10 @@ func (c *xdsClient) handleNDS(resp *discoveryv3.DiscoveryResponse) error {
 		return err
 	}
 	c.cipResolver.updateLookupTable(nt.NameTable)
+	// the listeners are bound by the name table
+	if c.lastLDS != nil && c.ndsRequired() {
+		c.updateListeners()
+	}
 	return err
 }
 
-- 
2.43.0

