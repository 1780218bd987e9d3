From f8d1504a20eb0adac55b5830c95fc1cd1102f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 01/36] fix: report recursive lookups as an error

WithKey, which detects recursive lookups, was never called. A key whose value
refers to itself, directly or via other keys, caused a stack overflow that
terminated the process.
---
 session/invocation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/session/invocation.go b/session/invocation.go
index e1233b8..78039dd 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -241,6 +241,10 @@ func (ic *ivContext) invokeWithLocation(dh api.DataProvider, location api.Locati
 }
 
 func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
+	return ic.WithKey(key, func() dgo.Value { return ic.lookup(key, options) })
+}
+
+func (ic *ivContext) lookup(key api.Key, options dgo.Map) dgo.Value {
 	rootKey := key.Root()
 	if rootKey == `lookup_options` {
 		return ic.WithInvalidKey(key, func() dgo.Value {
-- 
2.43.0


From 791460396c0a645ed9d06ca8eaef812d85968d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 02/36] fix: report variables that refer to themselves as an
 error

The interpolation of a variable with a value that refers back to the same
variable caused a stack overflow that terminated the process.
---
 session/interpolate.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/session/interpolate.go b/session/interpolate.go
index 565b8c7..c87183e 100644
--- a/session/interpolate.go
+++ b/session/interpolate.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 	"github.com/lyraproj/dgo/vf"
 	"github.com/lyraproj/hiera/api"
 )
@@ -157,10 +158,24 @@ func (ic *ivContext) InterpolateString(str string, allowMethods bool) (dgo.Value
 	}), true
 }
 
+// enterVariable notes that the named variable is being resolved and returns the function to call once that is
+// done. It panics when the resolution of the variable is already in progress.
+func (ic *ivContext) enterVariable(name string) func() {
+	expr := `%{` + name + `}`
+	if util.ContainsString(ic.nameStack, expr) {
+		panic(fmt.Errorf(`recursive interpolation detected in [%s]`, strings.Join(ic.nameStack, `, `)))
+	}
+	ic.nameStack = append(ic.nameStack, expr)
+	return func() {
+		ic.nameStack = ic.nameStack[:len(ic.nameStack)-1]
+	}
+}
+
 // InterpolateInScope resolves a key expression in the invocation scope
 func (ic *ivContext) InterpolateInScope(expr string, allowMethods bool) dgo.Value {
 	key := api.NewKey(expr)
 	if val := ic.Scope().Get(key.Root()); val != nil {
+		defer ic.enterVariable(key.Root())()
 		val, _ = ic.doInterpolate(val, allowMethods)
 		return key.Dig(ic, val)
 	}
-- 
2.43.0


From 56d67ea9326b286f442961867da3656427f85b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 03/36] fix: a failed load of a Hiera configuration must not
 block later lookups

The lock that represents a configuration being loaded was left behind, and held,
when the load failed. All subsequent lookups in the session then waited for it
forever.
---
 session/invocation.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index 78039dd..32dd09a 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -94,13 +94,24 @@ func (ic *ivContext) Config(configPath string, moduleName string) api.ResolvedCo
 			// The loaded value is a lock. Wait for new config to be stored in place of
 			// this lock
 			lock.RLock()
-			val, _ := sc.Load(cp)
-			conf = val.(api.Config)
+			val, ok := sc.Load(cp)
 			lock.RUnlock()
+			if !ok {
+				// The load that was waited for failed. Try again
+				return ic.Config(configPath, moduleName)
+			}
+			conf = val.(api.Config)
 		} else {
 			conf = lv.(api.Config)
 		}
 	} else {
+		defer func() {
+			if conf == nil {
+				// Load failed. Don't leave the lock behind. It would block subsequent attempts forever.
+				sc.Delete(lc)
+				myLock.Unlock()
+			}
+		}()
 		conf = config.New(configPath)
 		sc.Store(cp, conf)
 		myLock.Unlock()
-- 
2.43.0


From 3a5771bf1f9c386ba6deb2dc4293af3b029724d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 04/36] fix: pass the provider context, not the invocation, to
 data_dig functions

All lookups that used a data_dig function failed.
---
 internal/datadigprovider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datadigprovider.go b/internal/datadigprovider.go
index 9f621d3..72384d4 100644
--- a/internal/datadigprovider.go
+++ b/internal/datadigprovider.go
@@ -44,7 +44,7 @@ func (dh *dataDigProvider) loadFunction(ic api.Invocation) (pf hiera.DataDig) {
 	he := dh.hierarchyEntry
 	if f, ok := ic.LoadFunction(he); ok {
 		return func(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
-			return f.(dgo.Function).Call(vf.Values(ic, key))[0]
+			return f.(dgo.Function).Call(vf.MutableValues(pc, key))[0]
 		}
 	}
 	ic.ReportText(func() string { return fmt.Sprintf(`unresolved function '%s'`, he.Function().Name()) })
-- 
2.43.0


From 9227bf6d8dcdd58b47693a8c69beac07969335f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 05/36] fix: interpolated lookups must have lookup options of
 their own

A lookup made by an interpolation used, or replaced, the merge strategy and the
lookup options of the lookup that it was a part of.
---
 session/invocation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/session/invocation.go b/session/invocation.go
index 32dd09a..4b99b96 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -256,6 +256,13 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 }
 
 func (ic *ivContext) lookup(key api.Key, options dgo.Map) dgo.Value {
+	if ic.mode != topLevelMode {
+		// This lookup stems from an interpolation made by another lookup. It must neither use nor alter the lookup
+		// options and the merge strategy of that lookup.
+		lic := *ic
+		lic.mode = topLevelMode
+		ic = &lic
+	}
 	rootKey := key.Root()
 	if rootKey == `lookup_options` {
 		return ic.WithInvalidKey(key, func() dgo.Value {
-- 
2.43.0


From 1016f8a6955ea3f53b4914cb3211eea6895ae08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 06/36] fix: don't parse the root of a key a second time

The root of a quoted key, such as 'a.b' or '1', was parsed again by the lookup
functions and was then either treated as a key with several segments or rejected.
---
 api/key.go                  | 6 ++++++
 provider/configlookupkey.go | 2 +-
 provider/muxlookupkey.go    | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/api/key.go b/api/key.go
index 5104384..1d87d0a 100644
--- a/api/key.go
+++ b/api/key.go
@@ -48,6 +48,12 @@ func NewKey(str string) Key {
 	return &key{str, parseUnquoted(b, str, str, []interface{}{})}
 }
 
+// NewRootKey returns a Key with one single part which is the given string, regardless of what characters
+// it contains.
+func NewRootKey(root string) Key {
+	return &key{root, []interface{}{root}}
+}
+
 var keyType = tf.NewNamed(`hiera.key`,
 	func(v dgo.Value) dgo.Value {
 		return NewKey(v.String())
diff --git a/provider/configlookupkey.go b/provider/configlookupkey.go
index 21139f2..d2abd51 100644
--- a/provider/configlookupkey.go
+++ b/provider/configlookupkey.go
@@ -20,7 +20,7 @@ func ConfigLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 func ConfigLookupKeyAt(sc api.ServerContext, configPath, key, moduleName string) dgo.Value {
 	ic := sc.Invocation()
 	cfg := ic.Config(configPath, moduleName)
-	k := api.NewKey(key)
+	k := api.NewRootKey(key)
 	if ic.LookupOptionsMode() {
 		return cfg.LookupOptions(k)
 	}
diff --git a/provider/muxlookupkey.go b/provider/muxlookupkey.go
index 02995bf..61bf7c3 100644
--- a/provider/muxlookupkey.go
+++ b/provider/muxlookupkey.go
@@ -43,7 +43,7 @@ func MuxLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc = sc.ForData()
 	args.Set(0, sc)
 	ic = sc.Invocation()
-	return ic.WithLookup(api.NewKey(key), func() dgo.Value {
+	return ic.WithLookup(api.NewRootKey(key), func() dgo.Value {
 		ic.SetMergeStrategy(sc.Option(`merge`), luOpts)
 		return ic.LookupAndConvertData(func() dgo.Value {
 			return ic.MergeStrategy().MergeLookup(spv, ic, luFunc)
-- 
2.43.0


From 4997e25c8fd57c77a2d25b15b26ed0055ec13fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 07/36] fix: a quoted key segment is a string also when it is
 followed by another segment

The quotes of a segment were only considered when the segment was last in the
key. The second segment of "a.'1'.b" became an index and "'1'.b" was rejected.
---
 api/key.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api/key.go b/api/key.go
index 1d87d0a..a0af29d 100644
--- a/api/key.go
+++ b/api/key.go
@@ -185,6 +185,12 @@ func parseQuoted(b *bytes.Buffer, q rune, key, part string, parts []interface{})
 			if i == len(part)-1 {
 				return append(parts, b.String())
 			}
+			if part[i+1] == '.' {
+				// The quoted segment is a string regardless of what it contains
+				parts = append(parts, b.String())
+				b.Reset()
+				return parseUnquoted(b, key, part[i+2:], parts)
+			}
 			return parseUnquoted(b, key, part[i+1:], parts)
 		}
 		_, _ = b.WriteRune(c)
-- 
2.43.0


From 645bc8dcfc1569d16e99cdab1017514803e38f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 08/36] fix: REST requests must not share the memory that holds
 their variables

The variables of a request were appended to the slice that holds the variables
given when the server was started. Concurrent requests then overwrote each
other's variables when that slice had spare capacity.
---
 hieraserver/rest/rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index da49da3..5816ad4 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -133,7 +133,7 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}
 		opts.Merge = params.Get(`merge`)
 		opts.Type = params.Get(`type`)
-		opts.Variables = append(opts.Variables, params[`var`]...)
+		opts.Variables = append(opts.Variables[:len(opts.Variables):len(opts.Variables)], params[`var`]...)
 		opts.RenderAs = `json`
 		out := bytes.Buffer{}
 		if hiera.LookupAndRender(ctx, &opts, []string{key}, &out) {
-- 
2.43.0


From c2a1ff96ae107e8edcd50e64bec6281e97a5abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:37 +0000
Subject: [PATCH 09/36] fix: concurrent loads of functions from the same plugin

Lookups that concurrently made first use of a plugin could panic with 'attempt
to override entry' or 'namespace already defined'.
---
 session/session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/session/session.go b/session/session.go
index 2ee9d34..6c5359e 100644
--- a/session/session.go
+++ b/session/session.go
@@ -32,6 +32,7 @@ type session struct {
 	vars     map[string]interface{}
 	scope    dgo.Keyed
 	loader   dgo.Loader
+	loadLock sync.Mutex
 }
 
 const hieraCacheKey = `Hiera::Cache`
@@ -154,6 +155,10 @@ func (s *session) Loader() dgo.Loader {
 }
 
 func (s *session) LoadFunction(he api.Entry) (fn dgo.Function, ok bool) {
+	// The namespaces and the functions of a plugin must be added to the loaders by one go routine at a time
+	s.loadLock.Lock()
+	defer s.loadLock.Unlock()
+
 	n := he.Function().Name()
 	l := s.Loader()
 	fn, ok = l.Namespace(`function`).Get(n).(dgo.Function)
-- 
2.43.0


From 78ec1c8d99b61ddd7a8c4a55fbdce125a36ebd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 10/36] fix: don't share an unsynchronized map of modules
 between lookups

The map of loaded modules is kept in the cache of the session and was read and
updated by concurrent lookups without synchronization.
---
 provider/modulelookupkey.go | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index 1b9f94a..fe716cd 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -27,11 +27,12 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	if ci := strings.Index(key, `::`); ci > 0 {
 		modName := strings.ToLower(key[:ci])
 		var mp dgo.Function
-		mpm := moduleProviders(sc)
-		if f := mpm.Get(modName); f != nil {
+		cacheKey := `hiera::moduleprovider::` + modName
+		if f, ok := sc.CachedValue(cacheKey); ok {
 			mp = f.(dgo.Function)
 		} else {
-			mp = loadModuleProvider(sc.Invocation(), mpm, modName)
+			mp = loadModuleProvider(sc.Invocation(), modName)
+			sc.Cache(cacheKey, mp)
 		}
 		iv := sc.Invocation()
 		return iv.WithModule(modName, func() dgo.Value {
@@ -45,20 +46,9 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	return nil
 }
 
-func moduleProviders(sc api.ServerContext) dgo.Map {
-	var mp dgo.Map
-	if c, ok := sc.CachedValue(`hiera::moduleproviders`); ok {
-		mp = c.(dgo.Map)
-	} else {
-		mp = vf.MutableMap()
-		sc.Cache(`hiera::moduleproviders`, mp)
-	}
-	return mp
-}
-
 var notFoundLookupKeyFunc = vf.Value(func(pc hiera.ProviderContext, key string) dgo.Value { return nil }).(dgo.Function)
 
-func loadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.Function {
+func loadModuleProvider(ic api.Invocation, moduleName string) dgo.Function {
 	var mp dgo.Function = notFoundLookupKeyFunc
 	if modulePath, ok := ic.SessionOptions().Get(ModulePath).(dgo.String); ok {
 		for _, path := range filepath.SplitList(modulePath.GoString()) {
@@ -68,7 +58,6 @@ func loadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.F
 			}
 		}
 	}
-	mpm.Put(moduleName, mp)
 	return mp
 }
 
-- 
2.43.0


From 81178ae50c13a148f17dc367c76a342a2d12ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 11/36] fix: unique merge must remove duplicates also when only
 one source has a value

---
 merge/strategy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge/strategy.go b/merge/strategy.go
index 677184b..0ed25b1 100644
--- a/merge/strategy.go
+++ b/merge/strategy.go
@@ -164,7 +164,7 @@ func (d *unique) mergeSingle(rv reflect.Value, vf func(l interface{}) dgo.Value)
 
 func (d *unique) convertValue(v dgo.Value) dgo.Value {
 	if av, ok := v.(dgo.Array); ok {
-		return av.Flatten()
+		return av.Flatten().Unique()
 	}
 	return vf.Values(v)
 }
-- 
2.43.0


From e10c7b69678f9c9d80c82c6ac84ba57784d89ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:18 +0000
Subject: [PATCH 12/36] fix: misspelled mapped_paths in the JSON schema

The schema permitted mapped_paths in combination with other location keys
---
 schema/hiera_v5.yaml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/hiera_v5.yaml b/schema/hiera_v5.yaml
index 6e20887..44daa1a 100644
--- a/schema/hiera_v5.yaml
+++ b/schema/hiera_v5.yaml
@@ -109,7 +109,7 @@ definitions:
       - required:
           - uris
       - required:
-          - mappded_paths
+          - mapped_paths
       - not:
           anyOf:
             - required:
@@ -125,7 +125,7 @@ definitions:
             - required:
                 - uris
             - required:
-                - mappded_paths
+                - mapped_paths
   providerFunction:
     oneOf:
       - not:
-- 
2.43.0


From a0a82a1d9cfa01bf28c5ae9ae4cc446e2b1b67f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 13/36] fix: don't reveal values of Sensitive type in
 explanations

Nothing considered that values found during DoRedacted should be redacted and
parameterized Sensitive types were not considered sensitive.
---
 session/invocation.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index 4b99b96..eddda09 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -21,6 +21,9 @@ import (
 const hieraConfigsPrefix = `HieraConfig:`
 const hieraLockPrefix = `HieraLock:`
 
+// redactedValue replaces values that must not be explained
+var redactedValue = vf.String(`value redacted`)
+
 type invocationMode byte
 
 const (
@@ -197,7 +200,7 @@ func (ic *ivContext) LookupAndConvertData(fn func() dgo.Value) dgo.Value {
 	convertToType, convertToArgs := ic.extractConversion()
 
 	var v dgo.Value
-	if typ.Sensitive.Equals(convertToType) {
+	if convertToType != nil && typ.Sensitive.Assignable(convertToType) {
 		ic.DoRedacted(func() { v = fn() })
 	} else {
 		v = fn()
@@ -332,6 +335,9 @@ func (ic *ivContext) WithInterpolation(expr string, producer dgo.Producer) dgo.V
 	if ic.explainer == nil {
 		return producer()
 	}
+	if ic.redacted {
+		expr = redactedValue.GoString()
+	}
 	defer ic.explainer.Pop()
 	ic.explainer.PushInterpolation(expr)
 	return producer()
@@ -449,12 +455,18 @@ func (ic *ivContext) ReportLocationNotFound() {
 
 func (ic *ivContext) ReportFound(key interface{}, value dgo.Value) {
 	if ic.explainer != nil {
+		if ic.redacted {
+			value = redactedValue
+		}
 		ic.explainer.AcceptFound(key, value)
 	}
 }
 
 func (ic *ivContext) ReportMergeResult(value dgo.Value) {
 	if ic.explainer != nil {
+		if ic.redacted {
+			value = redactedValue
+		}
 		ic.explainer.AcceptMergeResult(value)
 	}
 }
-- 
2.43.0


From e0099d9a157758e5cd2728cb5386b4cdb9d11151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 14/36] fix: values found by environment, scope, and yaml
 lookups are not lookup options

The lookups made to find the lookup options of a key found the value of the key
and used that as the options.
---
 provider/environment.go    | 5 ++++-
 provider/muxlookupkey.go   | 7 +++++++
 provider/scopelookupkey.go | 3 +++
 provider/yamllookupkey.go  | 3 +++
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/provider/environment.go b/provider/environment.go
index 7f02a3a..d9265cd 100644
--- a/provider/environment.go
+++ b/provider/environment.go
@@ -13,7 +13,10 @@ import (
 // "env" in which case all current environment variables will be returned as an OrderedMap, or
 // prefixed with "env::" in which case the rest of the key is interpreted as the environment variable
 // to look for.
-func Environment(_ hiera.ProviderContext, key string) dgo.Value {
+func Environment(pc hiera.ProviderContext, key string) dgo.Value {
+	if isOptionsLookup(pc, key) {
+		return nil
+	}
 	if key == `env` {
 		env := os.Environ()
 		em := vf.MapWithCapacity(len(env))
diff --git a/provider/muxlookupkey.go b/provider/muxlookupkey.go
index 61bf7c3..5a1d904 100644
--- a/provider/muxlookupkey.go
+++ b/provider/muxlookupkey.go
@@ -12,6 +12,13 @@ import (
 // that it delegates to.
 const LookupKeyFunctions = `hiera::lookup::providers`
 
+// isOptionsLookup returns true when a LookupKey function is called to provide the lookup options for the given key. A
+// function that has no lookup options must not provide the value for the key at that time.
+func isOptionsLookup(pc hiera.ProviderContext, key string) bool {
+	sc, ok := pc.(api.ServerContext)
+	return ok && key != `lookup_options` && sc.Invocation().LookupOptionsMode()
+}
+
 // MuxLookupKey performs a lookup using all LookupKey function slice registered under the LookupProviderKey key
 // in the given options map. The lookups are performed in the order the functions appear in the
 // slice. The first found value is returned.
diff --git a/provider/scopelookupkey.go b/provider/scopelookupkey.go
index f910525..b082723 100644
--- a/provider/scopelookupkey.go
+++ b/provider/scopelookupkey.go
@@ -12,5 +12,8 @@ func ScopeLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	if !ok {
 		return nil
 	}
+	if isOptionsLookup(pc, key) {
+		return nil
+	}
 	return sc.Invocation().Scope().Get(key)
 }
diff --git a/provider/yamllookupkey.go b/provider/yamllookupkey.go
index b0e8858..68097b9 100644
--- a/provider/yamllookupkey.go
+++ b/provider/yamllookupkey.go
@@ -18,6 +18,9 @@ func YamlLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	if !ok {
 		return nil
 	}
+	if isOptionsLookup(pc, key) {
+		return nil
+	}
 	data, ok := sc.CachedValue(YamlDataKey)
 	if !ok {
 		iv := sc.Invocation()
-- 
2.43.0


From 6d2ff159547d563ce0b699aa6fea8a9ccdd0db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 15/36] fix: don't leak processes, connections, and go routines
 when using plugins

A plugin that failed to start was never waited for, the connection used when
calling a plugin function was never closed, and the go routines that waited for
a plugin that was slow to start or stop never ended.
---
 session/pluginloader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 72b724e..2ee7441 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -156,6 +156,7 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 	defer func() {
 		if r := recover(); r != nil {
 			_ = cmd.Process.Kill()
+			_, _ = cmd.Process.Wait()
 			panic(r)
 		}
 	}()
@@ -164,7 +165,7 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 	p.wGroup.Add(1)
 	go copyErrToLog(path, cmdErr, &p.wGroup)
 
-	metaCh := make(chan interface{})
+	metaCh := make(chan interface{}, 1)
 	p.wGroup.Add(1)
 	go awaitMetaData(metaCh, cmdOut, &p.wGroup)
 
@@ -223,7 +224,7 @@ func (p *plugin) kill() {
 	}
 
 	if graceful {
-		done := make(chan bool)
+		done := make(chan bool, 1)
 		go func() {
 			_, _ = process.Wait()
 			done <- true
@@ -336,6 +337,7 @@ func (p *plugin) callPlugin(luType, name string, params url.Values) dgo.Value {
 	client := http.Client{
 		Timeout: time.Second * 5,
 		Transport: &http.Transport{
+			DisableKeepAlives: true,
 			Dial: func(_, _ string) (net.Conn, error) {
 				return net.Dial(p.network, p.addr)
 			},
-- 
2.43.0


From f40ee6c7a6af7a946ba78a32079b46e638f5a140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 16/36] fix: files matched by a glob must have a defined order

---
 config/glob.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/glob.go b/config/glob.go
index 7a5ffe3..469a928 100644
--- a/config/glob.go
+++ b/config/glob.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 
 	"github.com/bmatcuk/doublestar"
 	"github.com/lyraproj/dgo/dgo"
@@ -64,6 +65,8 @@ func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	r, _ := ic.InterpolateString(g.Original(), false)
 	rp := filepath.Join(dataDir, r.String())
 	matches, _ := doublestar.Glob(rp)
+	// The order of the matches is the order of the entries in the directories, which is arbitrary
+	sort.Strings(matches)
 	ls := make([]api.Location, len(matches))
 	for i, m := range matches {
 		ls[i] = &path{g.Original(), m, true}
-- 
2.43.0


From fc89b2e205d054056f8e56b9ed43553eb7d61eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 17/36] fix: pass the arguments of convert_to as arguments, not
 as one array

---
 session/invocation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index eddda09..500dd3b 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -208,7 +208,7 @@ func (ic *ivContext) LookupAndConvertData(fn func() dgo.Value) dgo.Value {
 
 	if v != nil && convertToType != nil {
 		if convertToArgs != nil {
-			v = vf.Arguments(vf.Values(v).WithAll(convertToArgs))
+			v = vf.ArgumentsFromArray(vf.Values(v).WithAll(convertToArgs))
 		}
 		v = vf.New(convertToType, v)
 	}
-- 
2.43.0


From 667c3079d8e4939c8155055c5db0e5cb220c2d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:12 +0000
Subject: [PATCH 18/36] fix: don't reveal Sensitive values nested in other
 values in explanations

The yaml and json renderings of an explanation contain the value of a Sensitive
that was found as part of another value, e.g. by means of an alias.
---
 session/invocation.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index 500dd3b..f8147e1 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -294,6 +294,27 @@ func (ic *ivContext) WithKey(key api.Key, actor dgo.Producer) dgo.Value {
 	return actor()
 }
 
+// redact returns what an explanation can reveal of the given value
+func (ic *ivContext) redact(value dgo.Value) dgo.Value {
+	if ic.redacted {
+		return redactedValue
+	}
+	return redactSensitive(value)
+}
+
+// redactSensitive replaces everything that is wrapped by a Sensitive in the given value
+func redactSensitive(value dgo.Value) dgo.Value {
+	switch value := value.(type) {
+	case dgo.Sensitive:
+		return vf.Sensitive(redactedValue)
+	case dgo.Array:
+		return value.Map(func(e dgo.Value) interface{} { return redactSensitive(e) })
+	case dgo.Map:
+		return value.Map(func(e dgo.MapEntry) interface{} { return redactSensitive(e.Value()) })
+	}
+	return value
+}
+
 func (ic *ivContext) DoRedacted(doer dgo.Doer) {
 	if ic.redacted {
 		doer()
@@ -455,19 +476,13 @@ func (ic *ivContext) ReportLocationNotFound() {
 
 func (ic *ivContext) ReportFound(key interface{}, value dgo.Value) {
 	if ic.explainer != nil {
-		if ic.redacted {
-			value = redactedValue
-		}
-		ic.explainer.AcceptFound(key, value)
+		ic.explainer.AcceptFound(key, ic.redact(value))
 	}
 }
 
 func (ic *ivContext) ReportMergeResult(value dgo.Value) {
 	if ic.explainer != nil {
-		if ic.redacted {
-			value = redactedValue
-		}
-		ic.explainer.AcceptMergeResult(value)
+		ic.explainer.AcceptMergeResult(ic.redact(value))
 	}
 }
 
-- 
2.43.0


From 99fd42720ba3beaa9ee6cc7bf1c2d0575edda0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:00 +0000
Subject: [PATCH 19/36] fix: directories matched by a glob are not data files

---
 config/glob.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/config/glob.go b/config/glob.go
index 469a928..a8a6e60 100644
--- a/config/glob.go
+++ b/config/glob.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"fmt"
+	"os"
 	"path/filepath"
 	"reflect"
 	"sort"
@@ -67,9 +68,13 @@ func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	matches, _ := doublestar.Glob(rp)
 	// The order of the matches is the order of the entries in the directories, which is arbitrary
 	sort.Strings(matches)
-	ls := make([]api.Location, len(matches))
-	for i, m := range matches {
-		ls[i] = &path{g.Original(), m, true}
+	ls := make([]api.Location, 0, len(matches))
+	for _, m := range matches {
+		// A directory can be matched too but isn't something that data can be read from
+		if fi, err := os.Stat(m); err == nil && fi.IsDir() {
+			continue
+		}
+		ls = append(ls, &path{g.Original(), m, true})
 	}
 	return ls
 }
-- 
2.43.0


From 31b37b97005b70edb92e2ec126cf06e1989a80b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:03 +0000
Subject: [PATCH 20/36] fix: HIERA_CONFIGFILE can be an absolute path

---
 session/session.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/session/session.go b/session/session.go
index 6c5359e..9ab2f4b 100644
--- a/session/session.go
+++ b/session/session.go
@@ -121,7 +121,10 @@ func addHieraConfig(options dgo.Map) {
 	} else {
 		fileName = config.FileName
 	}
-	options.Put(api.HieraConfig, filepath.Join(hieraRoot, fileName))
+	if !filepath.IsAbs(fileName) {
+		fileName = filepath.Join(hieraRoot, fileName)
+	}
+	options.Put(api.HieraConfig, fileName)
 }
 
 func (s *session) AliasMap() dgo.AliasMap {
-- 
2.43.0


From 472e2a0d9dc94ded094613d47647932df71e921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:58 +0000
Subject: [PATCH 21/36] fix: replacing a cached value must be atomic

---
 session/serverctx.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/session/serverctx.go b/session/serverctx.go
index ab8c1c4..f12af56 100644
--- a/session/serverctx.go
+++ b/session/serverctx.go
@@ -20,10 +20,8 @@ func (c *serverCtx) Explain(messageProducer func() string) {
 }
 
 func (c *serverCtx) Cache(key string, value dgo.Value) dgo.Value {
-	cache := c.invocation.TopProviderCache()
-	if old, loaded := cache.LoadOrStore(key, value); loaded {
-		// Replace old value
-		cache.Store(key, value)
+	// Each replaced value must be returned exactly once, also when several go routines replace the same value
+	if old, loaded := c.invocation.TopProviderCache().Swap(key, value); loaded {
 		return old.(dgo.Value)
 	}
 	return nil
-- 
2.43.0


From 417541ae5e1536efd21c29a268557ee26198483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:06 +0000
Subject: [PATCH 22/36] fix: don't freeze the maps that a caller passes as
 session options

---
 session/session.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/session/session.go b/session/session.go
index 9ab2f4b..306be07 100644
--- a/session/session.go
+++ b/session/session.go
@@ -88,7 +88,9 @@ func New(parent context.Context, topProvider hiera.LookupKey, oif interface{}, l
 	} else {
 		scope = vf.Map()
 	}
-	options.Freeze()
+
+	// The maps that the options contain belong to the caller and must not be frozen
+	options = options.FrozenCopy().(dgo.Map)
 
 	vars := map[string]interface{}{
 		hieraCacheKey:            &sync.Map{},
-- 
2.43.0


From f0333fea2c163e60b4ccade4332b45941607eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:55 +0000
Subject: [PATCH 23/36] fix: commands must write error messages to stderr

---
 hieraserver/rest/rest.go | 2 +-
 lookup/lookup.go         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index 5816ad4..81314e3 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -26,7 +26,7 @@ func main() {
 	cmd := newCommand()
 	err := cmd.Execute()
 	if err != nil {
-		fmt.Println(cmd.OutOrStderr(), err)
+		_, _ = fmt.Fprintln(cmd.OutOrStderr(), err)
 		os.Exit(1)
 	}
 }
diff --git a/lookup/lookup.go b/lookup/lookup.go
index 9994774..8b0671c 100644
--- a/lookup/lookup.go
+++ b/lookup/lookup.go
@@ -11,7 +11,7 @@ func main() {
 	cmd := cli.NewCommand()
 	err := cmd.Execute()
 	if err != nil {
-		fmt.Println(cmd.OutOrStderr(), err)
+		_, _ = fmt.Fprintln(cmd.OutOrStderr(), err)
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From dab3aecb2c6402f9e01d31b791f36868922d96cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 24/36] fix: don't reveal Sensitive keys of maps in
 explanations

---
 session/invocation.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index f8147e1..fe5beb5 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -310,7 +310,9 @@ func redactSensitive(value dgo.Value) dgo.Value {
 	case dgo.Array:
 		return value.Map(func(e dgo.Value) interface{} { return redactSensitive(e) })
 	case dgo.Map:
-		return value.Map(func(e dgo.MapEntry) interface{} { return redactSensitive(e.Value()) })
+		redacted := vf.MapWithCapacity(value.Len())
+		value.EachEntry(func(e dgo.MapEntry) { redacted.Put(redactSensitive(e.Key()), redactSensitive(e.Value())) })
+		return redacted
 	}
 	return value
 }
-- 
2.43.0


From 93ea0aaf9c88315309b3b85d45a86b994252b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 25/36] fix: data after the object in a JSON file is an error

---
 provider/jsondata.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/provider/jsondata.go b/provider/jsondata.go
index 74e1cee..21c4070 100644
--- a/provider/jsondata.go
+++ b/provider/jsondata.go
@@ -1,6 +1,8 @@
 package provider
 
 import (
+	"encoding/json"
+	"fmt"
 	"io/ioutil"
 	"os"
 
@@ -26,6 +28,10 @@ func JSONData(ctx hiera.ProviderContext) dgo.Map {
 		panic(err)
 	}
 	v := streamer.UnmarshalJSON(bs, nil)
+	if !json.Valid(bs) {
+		// UnmarshalJSON doesn't look at what follows after the first value
+		panic(fmt.Errorf("could not unmarshal %s: unexpected data after the first value", path))
+	}
 	if data, ok := v.(dgo.Map); ok {
 		return data
 	}
-- 
2.43.0


From 0597ffcb70742dea07d8e4056505bd77eec7bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:15 +0000
Subject: [PATCH 26/36] fix: give plugin functions a map of options also when
 there are none

---
 session/pluginloader.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 2ee7441..04a23f2 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -309,12 +309,9 @@ func (p *plugin) lookupKeyDispatch(name string) dgo.Function {
 
 func makeOptions(pc hiera.ProviderContext) url.Values {
 	params := make(url.Values)
-	opts := pc.OptionsMap()
-	if opts.Len() > 0 {
-		bld := bytes.Buffer{}
-		streamer.New(nil, streamer.DefaultOptions()).Stream(opts, streamer.JSON(&bld))
-		params.Add(`options`, strings.TrimSpace(bld.String()))
-	}
+	bld := bytes.Buffer{}
+	streamer.New(nil, streamer.DefaultOptions()).Stream(pc.OptionsMap(), streamer.JSON(&bld))
+	params.Add(`options`, strings.TrimSpace(bld.String()))
 	return params
 }
 
-- 
2.43.0


From fef7500043c43961cbe0439cd1b959cec33f68cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:17 +0000
Subject: [PATCH 27/36] fix: close the pipes from a plugin when it has ended,
 also when another process has them open

---
 session/pluginloader.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 04a23f2..7ae3351 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -30,6 +30,8 @@ type plugin struct {
 	lock      sync.Mutex
 	wGroup    sync.WaitGroup
 	process   *os.Process
+	cmdErr    io.Closer
+	cmdOut    io.Closer
 	path      string
 	addr      string
 	network   string
@@ -98,7 +100,7 @@ func ignoreOut(cmdOut io.Reader, wGroup *sync.WaitGroup) {
 	toss := make([]byte, 0x1000)
 	for {
 		_, err := cmdOut.Read(toss)
-		if err == io.EOF {
+		if err != nil {
 			return
 		}
 	}
@@ -152,16 +154,18 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 		panic(fmt.Errorf(`unable to start plugin %s: %s`, path, err.Error()))
 	}
 
+	p := &plugin{path: path, process: cmd.Process, cmdErr: cmdErr, cmdOut: cmdOut}
+
 	// Make sure the plugin process is killed if there is an error
 	defer func() {
 		if r := recover(); r != nil {
 			_ = cmd.Process.Kill()
 			_, _ = cmd.Process.Wait()
+			p.closePipes()
 			panic(r)
 		}
 	}()
 
-	p := &plugin{path: path, process: cmd.Process}
 	p.wGroup.Add(1)
 	go copyErrToLog(path, cmdErr, &p.wGroup)
 
@@ -205,6 +209,24 @@ func initCmd(opts dgo.Map, path string) *exec.Cmd {
 	return cmd
 }
 
+// closePipes closes the pipes that the process has written to. It must be called when the process has ended. Everything
+// that the process wrote is read first, but a process that it started may still have the other ends of the pipes open,
+// so there's a limit to how long that can take.
+func (p *plugin) closePipes() {
+	done := make(chan bool)
+	go func() {
+		p.wGroup.Wait()
+		close(done)
+	}()
+	select {
+	case <-done:
+	case <-time.After(time.Second):
+	}
+	_ = p.cmdErr.Close()
+	_ = p.cmdOut.Close()
+	<-done
+}
+
 func (p *plugin) kill() {
 	p.lock.Lock()
 	process := p.process
@@ -213,7 +235,7 @@ func (p *plugin) kill() {
 	}
 
 	defer func() {
-		p.wGroup.Wait()
+		p.closePipes()
 		p.process = nil
 		p.lock.Unlock()
 	}()
-- 
2.43.0


From ef1c389c606f158efac8051f448ef8617fed3270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:11 +0000
Subject: [PATCH 28/36] fix: accept all keys in REST requests, also those that
 aren't clean paths or contain a newline

---
 hieraserver/rest/rest.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index 81314e3..bdc4c5e 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -70,7 +70,7 @@ func newCommand() *cobra.Command {
 	return cmd
 }
 
-var keyPattern = regexp.MustCompile(`^/lookup/(.*)$`)
+var keyPattern = regexp.MustCompile(`(?s)^/lookup/(.*)$`)
 
 func startServer(_ *cobra.Command, _ []string) {
 	configOptions := map[string]interface{}{
@@ -144,9 +144,8 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}
 	}
 
-	router := http.NewServeMux()
-	router.HandleFunc("/lookup/", doLookup)
-	return router
+	// A http.ServeMux would redirect requests when the key isn't a clean path, such as "a//b"
+	return http.HandlerFunc(doLookup)
 }
 
 func loadCertPool(pemFile string) (*x509.CertPool, error) {
-- 
2.43.0


From af9834fc718dcf75823d4c99680b488b265cf421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:12 +0000
Subject: [PATCH 29/36] fix: a REST request with a malformed query is an error

---
 hieraserver/rest/rest.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index bdc4c5e..749dac3 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"net/http"
+	"net/url"
 	"os"
 	"regexp"
 	"strconv"
@@ -127,7 +128,10 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}()
 
 		opts := cmdOpts
-		params := r.URL.Query()
+		params, err := url.ParseQuery(r.URL.RawQuery)
+		if err != nil {
+			panic(err)
+		}
 		if dflt, ok := params[`default`]; ok && len(dflt) > 0 {
 			opts.Default = &dflt[0]
 		}
-- 
2.43.0


From 82c6cc891fe20c1f62b0ee96131045b476dcb3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:58 +0000
Subject: [PATCH 30/36] fix: keys have a hash code

---
 api/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/key.go b/api/key.go
index a0af29d..c08aec3 100644
--- a/api/key.go
+++ b/api/key.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/tf"
+	"github.com/lyraproj/dgo/util"
 	"github.com/lyraproj/dgo/vf"
 )
 
@@ -128,7 +129,7 @@ func (k *key) Equals(value interface{}) bool {
 }
 
 func (k *key) HashCode() int {
-	panic("implement me")
+	return util.StringHash(k.source)
 }
 
 func (k *key) Parts() []interface{} {
-- 
2.43.0


From 11136973f26ac383ca6b69ff5906eacf83a3a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:10 +0000
Subject: [PATCH 31/36] fix: TLS flags of the REST server that can't be
 honoured are errors

---
 hieraserver/rest/rest.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index 749dac3..bdb9a30 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -168,9 +168,15 @@ func loadCertPool(pemFile string) (*x509.CertPool, error) {
 }
 
 func makeTLSconfig() (*tls.Config, error) {
-	if sslCert == "" || sslKey == "" {
+	if sslCert == "" && sslKey == "" {
+		if clientCertVerify {
+			return nil, errors.New("clientCertVerify requires ssl-cert and ssl-key")
+		}
 		return nil, nil
 	}
+	if sslCert == "" || sslKey == "" {
+		return nil, errors.New("ssl-cert and ssl-key must be given together")
+	}
 	tlsConfig := new(tls.Config)
 
 	cert, err := tls.LoadX509KeyPair(sslCert, sslKey)
-- 
2.43.0


From f086a1bd848c1a8acd4f59974c0b9f204db84401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:06 +0000
Subject: [PATCH 32/36] fix: many files with variables don't exhaust memory

---
 hiera/hiera.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiera/hiera.go b/hiera/hiera.go
index d67129d..ba7a2a1 100644
--- a/hiera/hiera.go
+++ b/hiera/hiera.go
@@ -323,7 +323,8 @@ func addVarPaths(varPaths []string, m dgo.Map) {
 			var yv dgo.Value
 			if yv, err = yaml.Unmarshal(bs); err == nil {
 				if data, ok := yv.(dgo.Map); ok {
-					m.PutAll(data)
+					// PutAll would double the size of the table for each file
+					data.EachEntry(func(e dgo.MapEntry) { m.Put(e.Key(), e.Value()) })
 				} else {
 					err = fmt.Errorf(`file '%s' does not contain a YAML hash`, vars)
 				}
-- 
2.43.0


From 95b306ab66d3a55eda11ab0dd85207cb120a4114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:18 +0000
Subject: [PATCH 33/36] fix: data race when several go routines are told that a
 configuration is invalid

---
 config/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/config.go b/config/config.go
index 8a39784..3102cc7 100644
--- a/config/config.go
+++ b/config/config.go
@@ -70,6 +70,10 @@ var cfgType dgo.Type
 func init() {
 	tf.ParseType(definitions)
 	cfgType = tf.ParseType(hieraTypeString)
+
+	// The hash codes of the strings in a type are computed when they are first needed, which is when the type is made
+	// into a string. That isn't something that several go routines can do at the same time.
+	_ = cfgType.String()
 }
 
 // New creates a new unresolved Config from the given path. If the path does not exist, the
-- 
2.43.0


From 0260f4bb049409d76cde3f69aa82104246178463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:51 +0000
Subject: [PATCH 34/36] fix: don't register a plugin whose function names
 aren't valid

The process of such a plugin is killed. The next lookup that needs it must
start it again instead of failing because of what the dead process said.
---
 session/pluginloader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 7ae3351..345bf4a 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -194,9 +194,11 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 		r.plugins = make(map[string]*plugin)
 	}
 	p.initialize(meta)
-	r.plugins[path] = p
 
-	return p.functionMap()
+	// The process is killed if the functions aren't valid, and must then not be found here
+	fm := p.functionMap()
+	r.plugins[path] = p
+	return fm
 }
 
 func initCmd(opts dgo.Map, path string) *exec.Cmd {
-- 
2.43.0


From 7795011e321e42d7e3fa101352f84e568070441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:15 +0000
Subject: [PATCH 35/36] fix: restore the scope also when a doer given to
 DoWithScope panics

---
 session/invocation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index fe5beb5..2fc5ab2 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -331,9 +331,9 @@ func (ic *ivContext) DoRedacted(doer dgo.Doer) {
 
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
 	sc := ic.scope
+	defer func() { ic.scope = sc }()
 	ic.scope = scope
 	doer()
-	ic.scope = sc
 }
 
 func (ic *ivContext) Scope() dgo.Keyed {
-- 
2.43.0


From 374c8f110ae0b6d902a5df6ba1e1691f435e9997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:16 +0000
Subject: [PATCH 36/36] fix: the source of a root key must denote the same key
 when it is parsed

---
 api/key.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/api/key.go b/api/key.go
index c08aec3..c02f8fd 100644
--- a/api/key.go
+++ b/api/key.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"strings"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/tf"
@@ -52,7 +53,12 @@ func NewKey(str string) Key {
 // NewRootKey returns a Key with one single part which is the given string, regardless of what characters
 // it contains.
 func NewRootKey(root string) Key {
-	return &key{root, []interface{}{root}}
+	source := root
+	if _, err := strconv.ParseInt(root, 10, 32); err == nil || root == `` || strings.ContainsAny(root, `.'"`) {
+		// The source must denote the same key when it is parsed
+		source = `'` + strings.Replace(root, `'`, `'"'"'`, -1) + `'`
+	}
+	return &key{source, []interface{}{root}}
 }
 
 var keyType = tf.NewNamed(`hiera.key`,
-- 
2.43.0

