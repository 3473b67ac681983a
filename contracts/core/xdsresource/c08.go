package xdsresource

import (
	"regexp"
	"strings"

	"github.com/kitex-contrib/xds/vspec"
)

// The meaning of one header condition; VC_C08_matcher shows it for every kind of matcher.
//
//govc:extern (github.com/kitex-contrib/xds/core/xdsresource.Matcher).Match
func modelMatch(m Matcher, s string) bool { return vspec.Fn[bool]("cond", m, s) }

func specConds(ms Matchers, md map[string]string) bool {
	return vspec.All(vdomMatchers(ms), func(k string) bool {
		m, has := ms[k]
		if !has {
			return true
		}
		v, ok := md[k]
		return ok && vspec.Fn[bool]("cond", m, v)
	})
}

func vdomMatchers(ms Matchers) []string {
	if vspec.Symbolic() {
		return nil
	}
	var ks []string
	for k := range ms {
		ks = append(ks, k)
	}
	return ks
}

func invConds(seen vspec.Set[string], ms Matchers, md map[string]string) bool {
	return vspec.All(nil, func(k string) bool {
		if !seen.Has(k) {
			return true
		}
		v, ok := md[k]
		return ok && vspec.Fn[bool]("cond", ms[k], v)
	})
}

// An HTTP route's path condition: the exact path, or the catch-all prefix; its header conditions all hold, a
// condition on an absent key being false.
//
//govc:loops invConds
func VC_C08_http(rm *HTTPRouteMatch, path string, md map[string]string) {
	vspec.Requires(rm != nil)
	vspec.Requires(vspec.All(nil, func(k string) bool { m, ok := rm.Headers[k]; return !ok || m != nil }))
	vspec.Ensures("C08", "the path condition of an HTTP route", rm.MatchPath(path) == (rm.Path != "" && rm.Path == path || rm.Path == "" && rm.Prefix == "/"))
	vspec.Ensures("C08", "every header condition of an HTTP route", rm.MatchMeta(md) == specConds(rm.Headers, md))
}

//govc:loops invConds
func VC_C08_thrift(tm *ThriftRouteMatch, method string, md map[string]string) {
	vspec.Requires(tm != nil)
	vspec.Requires(vspec.All(nil, func(k string) bool { m, ok := tm.Tags[k]; return !ok || m != nil }))
	vspec.Ensures("C08", "the method condition of a Thrift route", tm.MatchPath(method) == (tm.Method == "" || tm.Method == method))
	vspec.Ensures("C08", "every header condition of a Thrift route", tm.MatchMeta(md) == specConds(tm.Tags, md))
}

func invAllMatch(am allMatcher, i int, s string) bool {
	return vspec.Forall(0, i, func(j int) bool { return vspec.Fn[bool]("cond", am[j], s) })
}

// The header conditions.
//
//govc:loops invAllMatch
func VC_C08_matchers(p PrefixMatcher, e ExactMatcher, re *regexp.Regexp, am allMatcher, s string) {
	vspec.Requires(re != nil)
	vspec.Requires(vspec.Forall(0, len(am), func(i int) bool { return am[i] != nil }))
	vspec.Ensures("C08", "prefix condition", p.Match(s) == strings.HasPrefix(s, string(p)))
	vspec.Ensures("C08", "exact condition", e.Match(s) == (s == string(e)))
	vspec.Ensures("C08", "regular expression condition", (&RegexMatcher{re: re}).Match(s) == re.MatchString(s))
	vspec.Ensures("C08", "conjunction of conditions", am.Match(s) == vspec.Forall(0, len(am), func(i int) bool { return vspec.Fn[bool]("cond", am[i], s) }))
	vspec.Ensures("C08", "a condition that can not be evaluated never holds", !neverMatcher{}.Match(s))
}
