From c0b2198d133b2ade9f7199668add2f2933e8f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 01/22] fix: route parameters only from the matched route, and
 never under "_"

Captures of a regexp segment were written before the rest of the path
matched, so a failed attempt left its values behind for the route that
matched later; names written "_" were reported for regexp segments.
---
 tree.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index 08f6628..6beab4d 100644
--- a/tree.go
+++ b/tree.go
@@ -246,7 +246,9 @@ func (n *node) matchEndNode(globLevel int, uri string, params Params) *node {
 			}
 
 			for j := 0; j < len(n.endNodes[i].wildcards); j++ {
-				params[n.endNodes[i].wildcards[j]] = results[j+1]
+				if n.endNodes[i].wildcards[j] != "_" {
+					params[n.endNodes[i].wildcards[j]] = results[j+1]
+				}
 			}
 			return n.endNodes[i]
 		case _PATTERN_HOLDER:
@@ -285,10 +287,12 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 				continue
 			}
 
-			for j := 0; j < len(n.subNodes[i].wildcards); j++ {
-				params[n.subNodes[i].wildcards[j]] = results[j+1]
-			}
 			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
+				for j := 0; j < len(n.subNodes[i].wildcards); j++ {
+					if n.subNodes[i].wildcards[j] != "_" {
+						params[n.subNodes[i].wildcards[j]] = results[j+1]
+					}
+				}
 				return end
 			}
 		case _PATTERN_HOLDER:
-- 
2.43.0


From c4f96fd0ed34e4b848a03aa2de0d80014ed38680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 02/22] fix: the first registered match-all route wins for
 multi-segment remainders

The last one was taken, contradicting both the registration order and what
the same routes answer for a single-segment remainder.
---
 tree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 6beab4d..852c528 100644
--- a/tree.go
+++ b/tree.go
@@ -316,8 +316,7 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 		}
 	}
 
-	if len(n.endNodes) > 0 { //for match "/*"
-		end := n.endNodes[len(n.endNodes)-1]
+	for _, end := range n.endNodes { //for match "/*"
 		if end.typ == _PATTERN_MATCH_ALL {
 			if end.parsedPattern != "" {
 				if end.parsedPattern != "_" {
-- 
2.43.0


From 2b6cff2cec50d985f41f7b7ad64f19fbf851e4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 03/22] fix: a named mid-route match-all reports the segment it
 covers

/*name/x reported the segment plus the remainder already matched by the
rest of the route; the unnamed form reports the segment only.
---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 852c528..1145b94 100644
--- a/tree.go
+++ b/tree.go
@@ -306,7 +306,7 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 			if end := n.subNodes[i].matchNextSegment(globLevel+1, uri, params); end != nil {
 				if n.subNodes[i].parsedPattern != "" {
 					if n.subNodes[i].parsedPattern != "_" {
-						params[n.subNodes[i].parsedPattern] = segment + "/" + uri
+						params[n.subNodes[i].parsedPattern] = segment
 					}
 				} else {
 					params["*"+strconv.Itoa(globLevel)] = segment
-- 
2.43.0


From e577f0840f168af084b714523132996f686c52dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 04/22] fix: regexp segments match what their pattern says

The documented form <id ~ 70|80> (no group, one name) could never match;
groups were counted as parentheses, so escaped ones were rejected and
wrong counts without parentheses accepted; a ':' or '>' inside the regexp
cut the name or the expression.
---
 tree.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index 1145b94..f7e4c12 100644
--- a/tree.go
+++ b/tree.go
@@ -78,7 +78,7 @@ func getparsedPattern(pattern string) string {
 		closeIdx = typeStartIdx
 	}
 	regStartIdx := strings.Index(pattern, "~")
-	if typeStartIdx == -1 && regStartIdx > -1 {
+	if regStartIdx > -1 && regStartIdx < closeIdx {
 		closeIdx = regStartIdx
 	}
 
@@ -92,10 +92,18 @@ func partternRegexp(pattern string, want int) (string, error) {
 	}
 
 	startIdx := strings.Index(pattern, "~")
-	closeIdx := strings.Index(pattern, ">")
+	closeIdx := strings.LastIndex(pattern, ">")
 
 	regExp := strings.TrimSpace(pattern[startIdx+1 : closeIdx])
-	if strings.ContainsAny(pattern, "()") && !(strings.Count(regExp, "(") == want && strings.Count(regExp, "(") == strings.Count(regExp, ")")) {
+	reg, err := regexp.Compile(regExp)
+	if err != nil {
+		return "", err
+	}
+
+	if reg.NumSubexp() == 0 && want == 1 { // <id ~ 70|80>
+		return "(" + regExp + ")", nil
+	}
+	if reg.NumSubexp() != want {
 		return "", fmt.Errorf("regexp group count not match want(%d)", want)
 	}
 
-- 
2.43.0


From 4e2e1fa870c19cf1488d30ba98357224f78b81d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 05/22] fix: two spellings of one route are reported instead of
 dropping the second

/a/:id and /a/<id> (or /a//b and /a/b) end in the same tree node: the
second registration lost its handlers silently and FullPath then named
the wrong route. Identical uris already panic in routeStore.add.
---
 engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine.go b/engine.go
index 9466b6b..5897bd9 100644
--- a/engine.go
+++ b/engine.go
@@ -1,6 +1,7 @@
 package water
 
 import (
+	"fmt"
 	"net/http"
 	"sync"
 	"time"
@@ -168,6 +169,10 @@ func (e *Engine) buildTree() {
 			e.routers[MethodIndex(v.method)] = t
 		}
 
+		if endNode.matchNode != nil {
+			panic(fmt.Sprintf("double uri : %s[%s] is already %s", v.method, v.uri, endNode.matchNode.uri))
+		}
+
 		if e.options.EnableStaticRouter && isStaticRoute(endNode) {
 			if e.routersStatic[MethodIndex(v.method)] == nil {
 				e.routersStatic[MethodIndex(v.method)] = map[string]*node{}
-- 
2.43.0


From 093ad8eb906715d9f76e688daa9157afd15ddeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 06/22] fix: clear Params and Environ when a context is reused

A request served by the static fast path kept the URL parameters of the
previous request that used the same pooled context.
---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index 386dc10..02cb078 100644
--- a/context.go
+++ b/context.go
@@ -35,6 +35,9 @@ func newContext() *Context {
 }
 
 func (ctx *Context) reset() {
+	ctx.Environ = nil
+	ctx.Params = nil
+
 	ctx.index = 0
 
 	ctx.written = false
-- 
2.43.0


From 16192c5fc158146ea33ef71e93d0749c51510e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 07/22] fix: middleware given to Group applies to the group
 only

It was appended to the parent, so it ran for every route of the parent.
---
 router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.go b/router.go
index c45789b..969a8c1 100644
--- a/router.go
+++ b/router.go
@@ -137,7 +137,7 @@ func (r *Router) Group(pattern string, is ...interface{}) *Router {
 	for i := range is {
 		switch v := is[i].(type) {
 		case func(*Context):
-			r.befores = append(r.befores, v)
+			rr.befores = append(rr.befores, v)
 		case func(*Router):
 			v(rr)
 		default:
-- 
2.43.0


From 83cfce4cf1b5a442bff7ea4d00e3cc2207b361bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 08/22] fix: a group without routes is no route without
 handlers

dumpRoute treated an empty group (or an empty root) as a route and
panicked for its missing handlers.
---
 router.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router.go b/router.go
index 969a8c1..34b7d51 100644
--- a/router.go
+++ b/router.go
@@ -216,6 +216,10 @@ func (r *Router) HEAD(pattern string, handlers ...interface{}) {
 // add all route to routeStore
 func dumpRoute(r *Router, rs *routeStore) {
 	if r.sub == nil { // end route
+		if r.method == "" { // group without route
+			return
+		}
+
 		rs.add(getRoute(r))
 		return
 	}
-- 
2.43.0


From 0c75bb3ffd4ab05abe7097aaefcfb3b2002f0fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 09/22] fix: set the content type before the header is sent

Header changes after WriteHeader are not sent, so String, Data, HTMLRaw,
JSON, XML and the default renderer lost their content type.
---
 content.go | 10 +++++-----
 render.go  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/content.go b/content.go
index 601c6e6..23a7325 100644
--- a/content.go
+++ b/content.go
@@ -247,27 +247,27 @@ func (ctx *Context) Stream(contentType string, r io.Reader) error {
 }
 
 func (ctx *Context) String(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextPlainCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) Data(code int, contentType string, data []byte) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, contentType)
+	ctx.WriteHeader(code)
 	ctx.Write(data)
 }
 
 // HTMLRaw not use render
 func (ctx *Context) HTMLRaw(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) JSON(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationJSONCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := json.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
@@ -276,8 +276,8 @@ func (ctx *Context) JSON(code int, v interface{}) error {
 }
 
 func (ctx *Context) XML(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationXMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := xml.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
diff --git a/render.go b/render.go
index 395eb2c..c34c846 100644
--- a/render.go
+++ b/render.go
@@ -13,8 +13,8 @@ func SetRender(r Render) {
 type defaultRender struct{}
 
 func (r *defaultRender) HTMLSet(ctx *Context, code int, setName, tplName string, data interface{}) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 }
 
 func init() {
-- 
2.43.0


From bfcddffeaf13d53d22a5a885a6688f8f4ed49d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 10/22] fix: files and static redirects go through the context

They wrote to the underlying ResponseWriter, so Written and Status did not
know about the response: later handlers kept running and Recovery sent a
second status.
---
 content.go  | 2 +-
 m_static.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/content.go b/content.go
index 23a7325..ef681f4 100644
--- a/content.go
+++ b/content.go
@@ -146,7 +146,7 @@ func (ctx *Context) ReadCloser() io.ReadCloser {
 
 // File writes the specified file into the body stream.
 func (ctx *Context) File(filepath string) {
-	http.ServeFile(ctx.ResponseWriter, ctx.Request, filepath)
+	http.ServeFile(ctx, ctx.Request, filepath)
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
diff --git a/m_static.go b/m_static.go
index f88dd62..9afe3aa 100644
--- a/m_static.go
+++ b/m_static.go
@@ -81,7 +81,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 			// Redirect if missing trailing slash.
 			if !strings.HasSuffix(redirPath, "/") {
-				http.Redirect(ctx.ResponseWriter, ctx.Request, redirPath+"/", http.StatusFound)
+				http.Redirect(ctx, ctx.Request, redirPath+"/", http.StatusFound)
 				return
 			}
 
@@ -105,7 +105,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx.ResponseWriter, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
-- 
2.43.0


From ae7c9435f914906e1a10fde4a2ddb82358a7a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 11/22] fix: serve a static directory's index from the
 configured file system

The index (or, without one, a directory listing) was served from the
process's working directory instead of opt.FileSystem.
---
 m_static.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/m_static.go b/m_static.go
index 9afe3aa..e8fda72 100644
--- a/m_static.go
+++ b/m_static.go
@@ -85,7 +85,25 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 				return
 			}
 
-			ctx.File(filepath.Join(ctx.Param("*0"), opt.IndexFile))
+			if !opt.hasIndex {
+				ctx.WriteHeader(http.StatusNotFound)
+				return
+			}
+
+			index, err := opt.FileSystem.Open(path.Join(ctx.Param("*0"), opt.IndexFile))
+			if err != nil {
+				ctx.WriteHeader(http.StatusNotFound)
+				return
+			}
+			defer index.Close()
+
+			fi, err := index.Stat()
+			if err != nil || fi.IsDir() {
+				ctx.WriteHeader(http.StatusNotFound)
+				return
+			}
+
+			http.ServeContent(ctx, ctx.Request, opt.IndexFile, fi.ModTime(), index)
 			return
 		}
 
-- 
2.43.0


From 730213344a580cba8ba56da24b98122897decbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 12/22] fix: keep the 32MB multipart memory default when no
 limit is configured

Handler overwrote the default with the option's zero value.
---
 router.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 34b7d51..c1e464d 100644
--- a/router.go
+++ b/router.go
@@ -287,7 +287,9 @@ func (r *Router) Handler(opts ...Option) *Engine {
 		panic("sub router not allowed: Handler()")
 	}
 
-	o := &options{}
+	o := &options{
+		MaxMultipartMemory: 32 << 20, // 32MB
+	}
 	for _, f := range opts {
 		f(o)
 	}
-- 
2.43.0


From b36d08f620774388c2d776da65d86fcb4da0830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 13/22] fix: bound numbers never truncate and a submitted false
 is bound

Integers were parsed with 64 bits and then stored into narrower fields,
dropping the high bits; "false" left a field that was true unchanged.
---
 binding/map_form.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index eca23cb..5ef1ecb 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -160,7 +160,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		intVal, err := strconv.ParseInt(val, 10, 64)
+		intVal, err := strconv.ParseInt(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
@@ -170,7 +170,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		uintVal, err := strconv.ParseUint(val, 10, 64)
+		uintVal, err := strconv.ParseUint(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
@@ -183,8 +183,8 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		boolVal, err := strconv.ParseBool(val)
 		if err != nil {
 			return setValueError(nameInTag, val)
-		} else if boolVal {
-			structField.SetBool(true)
+		} else {
+			structField.SetBool(boolVal)
 		}
 	case reflect.Float32:
 		if val == "" {
-- 
2.43.0


From 335277e3e926093d080ff9140d4d6ac1087d6157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 14/22] fix: an empty value list does not crash form binding

---
 binding/map_form.go | 11 +++++++++--
 binding/mapping.go  |  8 ++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 5ef1ecb..18311e6 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -99,7 +99,11 @@ func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map
 		var err error
 		num := len(inputValue)
 
-		if value.Kind() == reflect.Slice && num > 0 {
+		if num == 0 {
+			return nil
+		}
+
+		if value.Kind() == reflect.Slice {
 			sliceOf := value.Type().Elem().Kind()
 			slice := reflect.MakeSlice(value.Type(), num, num)
 			for i := 0; i < num; i++ {
@@ -120,9 +124,12 @@ func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map
 		return nil
 	}
 	num := len(inputFile)
+	if num == 0 {
+		return nil
+	}
 
 	// value is []*multipart.FileHeader
-	if value.Kind() == reflect.Slice && num > 0 && value.Type().Elem() == multipartFileType {
+	if value.Kind() == reflect.Slice && value.Type().Elem() == multipartFileType {
 		slice := reflect.MakeSlice(value.Type(), num, num)
 		for i, n := 0, len(inputFile); i < n; i++ {
 			slice.Index(i).Set(reflect.ValueOf(inputFile[i]))
diff --git a/binding/mapping.go b/binding/mapping.go
index 3fc745a..a224703 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -231,7 +231,9 @@ func setFormMap(ptr interface{}, form map[string][]string) error {
 		return errors.New("cannot convert to map of strings")
 	}
 	for k, v := range form {
-		ptrMap[k] = v[len(v)-1] // pick last
+		if len(v) > 0 {
+			ptrMap[k] = v[len(v)-1] // pick last
+		}
 	}
 
 	return nil
@@ -263,7 +265,9 @@ func setFormMap2(obj interface{}, el reflect.Type, form map[string][]string) err
 		*m = make(map[string]string, len(form))
 	}
 	for k, v := range form {
-		(*m)[k] = v[len(v)-1] // pick last
+		if len(v) > 0 {
+			(*m)[k] = v[len(v)-1] // pick last
+		}
 	}
 
 	return nil
-- 
2.43.0


From 29a0edd7bce027ce6e83cdf2453362e1002ea7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 15/22] fix: nil pointers given to form binding or validation
 are errors, not panics

---
 binding/map_form.go  | 4 ++++
 binding/validator.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/binding/map_form.go b/binding/map_form.go
index 18311e6..0803886 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -24,6 +24,10 @@ func MapForm(obj interface{}, form map[string][]string,
 		return fmt.Errorf("need ptr obj")
 	}
 
+	if formStruct.IsNil() {
+		return fmt.Errorf("nil obj")
+	}
+
 	formStruct = formStruct.Elem()
 	typ := formStruct.Type()
 
diff --git a/binding/validator.go b/binding/validator.go
index ad5792d..2af663d 100644
--- a/binding/validator.go
+++ b/binding/validator.go
@@ -68,6 +68,9 @@ func (v *validatorV10) ValidateStruct(obj interface{}) error {
 	value := reflect.ValueOf(obj)
 	switch value.Kind() {
 	case reflect.Ptr:
+		if value.IsNil() {
+			return fmt.Errorf("nil obj")
+		}
 		return v.ValidateStruct(value.Elem().Interface())
 	case reflect.Struct:
 		return v.validate.Struct(obj)
-- 
2.43.0


From 155ef3b164082cd15db5ae7c7248dac441eabc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 16/22] fix: form binding leaves struct fields tagged "-" alone

Their inner fields were still bound.
---
 binding/map_form.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binding/map_form.go b/binding/map_form.go
index 0803886..e9f1f18 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -58,6 +58,10 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 			continue
 		}
 
+		if name, _ := head(typeField.Tag.Get(tag), ","); name == "-" { // just ignoring this field
+			continue
+		}
+
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
 			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
 				structField.Set(reflect.New(typeField.Type.Elem()))
-- 
2.43.0


From 27d076c2a054c89b302976a9fc9380f558b1f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 17/22] fix: form binding copes with embedded non-structs and
 unexported embedded pointers

An embedded string, interface or nil pointer to an unexported struct made
binding panic.
---
 binding/map_form.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index e9f1f18..65548db 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -63,19 +63,27 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		}
 
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
-			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
+			if structField.IsNil() && structField.CanSet() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
 				structField.Set(reflect.New(typeField.Type.Elem()))
 
 				structField = structField.Elem()
 			}
 		}
 
-		if (structField.Kind() == reflect.Struct && structField.Type() != timeType) || typeField.Anonymous { // typeField.Anonymous is an embedded field
-			if err := _mapForm(structField, form, formfile, tag); err != nil {
+		inner := structField
+		if typeField.Anonymous && inner.Kind() == reflect.Ptr { // typeField.Anonymous is an embedded field
+			inner = inner.Elem()
+		}
+		if inner.Kind() == reflect.Struct && inner.Type() != timeType {
+			if err := _mapForm(inner, form, formfile, tag); err != nil {
 				return err
 			}
 		}
 
+		if typeField.PkgPath != "" { // unexported embedded field
+			continue
+		}
+
 		if err := tryToSetValue2(structField, typeField, form, formfile, tag); err != nil {
 			return err
 		}
-- 
2.43.0


From 29a4d5f509c8b943af3b6756d8ddbef681faa909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 18/22] fix: the logger leaves bodies over 1MB complete for
 later handlers

---
 m_logger.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/m_logger.go b/m_logger.go
index a99a714..401ea94 100644
--- a/m_logger.go
+++ b/m_logger.go
@@ -62,10 +62,11 @@ func Logger() HandlerFunc {
 		if LogHttpBody && ctx.Request.Body != nil && strings.Contains(ctx.Request.Header.Get("Content-Type"), "application/json") {
 			safe := &io.LimitedReader{R: ctx.Request.Body, N: 1 << 20}
 			requestbody, _ := ioutil.ReadAll(safe)
-			ctx.Request.Body.Close()
 
-			bf := bytes.NewBuffer(requestbody)
-			ctx.Request.Body = ioutil.NopCloser(bf)
+			ctx.Request.Body = struct {
+				io.Reader
+				io.Closer
+			}{io.MultiReader(bytes.NewReader(requestbody), ctx.Request.Body), ctx.Request.Body}
 
 			body = "\n" + string(requestbody)
 		}
-- 
2.43.0


From ef6baa164bc3d5409dbcf32820ef50452822e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:00 +0000
Subject: [PATCH 19/22] fix: Recovery answers a panic with a nil value with 500
 too

---
 m_recovery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/m_recovery.go b/m_recovery.go
index edbbbdb..dce0151 100644
--- a/m_recovery.go
+++ b/m_recovery.go
@@ -11,8 +11,10 @@ import (
 
 func Recovery() HandlerFunc {
 	return func(ctx *Context) {
+		// panic(nil) makes recover return nil for modules before go 1.21
+		finished := false
 		defer func() {
-			if err := recover(); err != nil {
+			if err := recover(); err != nil || !finished {
 				content := fmt.Sprintf("HandlerFunc crashed with error: %v", err)
 				for skip := 1; ; skip += 1 {
 					//当前goroutine的栈上的函数调用信息，主要有当前的PC值和被调用的文件及其行号.
@@ -43,5 +45,6 @@ func Recovery() HandlerFunc {
 		}()
 
 		ctx.Next()
+		finished = true
 	}
 }
-- 
2.43.0


From 36fc23799cddf47a81c7dba6a45358e93695edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:27 +0000
Subject: [PATCH 20/22] fix: X-Forwarded-For entries may be separated by a bare
 comma

---
 util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 8d895bf..a1c9570 100644
--- a/util.go
+++ b/util.go
@@ -33,7 +33,12 @@ func cleanPath(p string) string {
 
 func requestProxy(req *http.Request) []string {
 	if ips := req.Header.Get(HeaderXForwardedFor); ips != "" {
-		return strings.Split(ips, ", ")
+		list := strings.Split(ips, ",")
+		for i, v := range list {
+			list[i] = strings.TrimSpace(v)
+		}
+
+		return list
 	}
 
 	return nil
-- 
2.43.0


From 4cb6e50782d98b3ab80a87e71677cec26f062094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 21/22] fix: an empty segment inside a route is matched where
 it stands

---
 tree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index f7e4c12..fbd0bc5 100644
--- a/tree.go
+++ b/tree.go
@@ -150,13 +150,12 @@ func getWildcards(pattern string) []string {
 // --- build tree
 // add same type route match order use add order
 func (n *node) add(pattern string, handlers []Handler) *node {
+	pattern = strings.TrimPrefix(pattern, "/")
 	pattern = strings.TrimSuffix(pattern, "/")
 	return n.addNextSegment(pattern, handlers)
 }
 
 func (n *node) addNextSegment(pattern string, handlers []Handler) *node {
-	pattern = strings.TrimPrefix(pattern, "/")
-
 	i := strings.Index(pattern, "/")
 	if i == -1 {
 		return n.addEndNode(pattern, handlers)
-- 
2.43.0


From 885a7ee78fc5f802774ebf86d4d32a5511e5ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:12 +0000
Subject: [PATCH 22/22] fix: Bind2 skips what cannot be set and rejects nil
 targets

---
 binding/mapping.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/binding/mapping.go b/binding/mapping.go
index a224703..7156f1f 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -62,7 +62,7 @@ func tryToSetValue(value reflect.Value, field reflect.StructField, setter setter
 }
 
 func mapping(value reflect.Value, field reflect.StructField, setter setter, tag string) (bool, error) {
-	if field.Tag.Get(tag) == "-" { // just ignoring this field
+	if name, _ := head(field.Tag.Get(tag), ","); name == "-" { // just ignoring this field
 		return false, nil
 	}
 
@@ -72,6 +72,9 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 		var isNew bool
 		vPtr := value
 		if value.IsNil() {
+			if !value.CanSet() { // nil obj or unexported embedded pointer
+				return false, nil
+			}
 			isNew = true
 			vPtr = reflect.New(value.Type().Elem())
 		}
@@ -85,7 +88,7 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 		return isSetted, nil
 	}
 
-	if vKind != reflect.Struct || !field.Anonymous {
+	if value.CanSet() && (vKind != reflect.Struct || !field.Anonymous) {
 		ok, err := tryToSetValue(value, field, setter, tag)
 		if err != nil {
 			return false, err
@@ -194,12 +197,18 @@ func mapFormByTag(ptr interface{}, form map[string][]string, tag string) error {
 	ptrVal := reflect.ValueOf(ptr)
 	var pointed interface{}
 	if ptrVal.Kind() == reflect.Ptr {
+		if ptrVal.IsNil() {
+			return errors.New("nil obj")
+		}
 		ptrVal = ptrVal.Elem()
 		pointed = ptrVal.Interface()
 	}
 
 	if ptrVal.Kind() == reflect.Map &&
 		ptrVal.Type().Key().Kind() == reflect.String { // map[string]xxx
+		if ptrVal.IsNil() {
+			return errors.New("nil obj")
+		}
 		if pointed != nil {
 			ptr = pointed
 		}
-- 
2.43.0

