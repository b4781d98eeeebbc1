package water

# C15: query/form values and cookies
def qhas(ctx: *Context, name: string): bool = len(ctx.Request.Form[name]) > 0
def qval(ctx: *Context, name: string, d: string): string = if qhas(ctx, name) then strings.TrimSpace(ctx.Request.Form[name][0]) else d
def isMultipart(r: *http.Request): bool = (r.Method == "POST" || r.Method == "PUT" || r.Method == "PATCH") && contains(hget($hdr[r.Header], "Content-Type"), "multipart/form-data")
def formOK(ctx: *Context): bool = ctx != nil && ctx.Request != nil && (ctx.parsedParams ==> formFull(ctx.Request))

spec Context.ParseFormOrMultipartForm(ctx)
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] once: old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] calls: ncalls("net/http.Request.ParseMultipartForm") == (if old(!ctx.parsedParams && isMultipart(ctx.Request)) then 1 else 0)
  ens [C15] calls2: ncalls("net/http.Request.ParseForm") == (if old(!ctx.parsedParams && !isMultipart(ctx.Request)) then 1 else 0)
  callassert net/http.Request.ParseMultipartForm :: r == ctx.Request
  callassert [C25] net/http.Request.ParseMultipartForm :: maxMemory == water.defaultMultipartMemory
  callassert net/http.Request.ParseForm :: r == ctx.Request
end
spec Context.queryExist(ctx, name) -> r
  req ctx != nil && ctx.Request != nil
  ens [C15] r == qhas(ctx, name)
end
spec Context.Query(ctx, name) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == qval(ctx, name, "")
end
spec Context.DefaultQuery(ctx, name, d) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == qval(ctx, name, d)
end
spec Context.QueryBool(ctx, name) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == fst(strconv.ParseBool(qval(ctx, name, "")))
end
spec Context.DefaultQueryBool(ctx, name, d) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == fst(strconv.ParseBool(qval(ctx, name, d)))
end
spec Context.CookieBool(ctx, name) -> v
  req ctx != nil && ctx.Request != nil
  ens [C15] v == fst(strconv.ParseBool(ckval(ctx, name)))
end
spec Context.QueryInt(ctx, name) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == fst(strconv.Atoi(qval(ctx, name, "")))
end
spec Context.DefaultQueryInt(ctx, name, d) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == fst(strconv.Atoi(qval(ctx, name, d)))
end
spec Context.CookieInt(ctx, name) -> v
  req ctx != nil && ctx.Request != nil
  ens [C15] v == fst(strconv.Atoi(ckval(ctx, name)))
end
spec Context.QueryInt64(ctx, name) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == fst(strconv.ParseInt(qval(ctx, name, ""), 10, 64))
end
spec Context.DefaultQueryInt64(ctx, name, d) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == fst(strconv.ParseInt(qval(ctx, name, d), 10, 64))
end
spec Context.CookieInt64(ctx, name) -> v
  req ctx != nil && ctx.Request != nil
  ens [C15] v == fst(strconv.ParseInt(ckval(ctx, name), 10, 64))
end
spec Context.QueryUint(ctx, name) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == fst(strconv.ParseUint(qval(ctx, name, ""), 10, 64))
end
spec Context.DefaultQueryUint(ctx, name, d) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == fst(strconv.ParseUint(qval(ctx, name, d), 10, 64))
end
spec Context.CookieUint(ctx, name) -> v
  req ctx != nil && ctx.Request != nil
  ens [C15] v == fst(strconv.ParseUint(ckval(ctx, name), 10, 64))
end
spec Context.QueryUint64(ctx, name) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == fst(strconv.ParseUint(qval(ctx, name, ""), 10, 64))
end
spec Context.DefaultQueryUint64(ctx, name, d) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == fst(strconv.ParseUint(qval(ctx, name, d), 10, 64))
end
spec Context.CookieUint64(ctx, name) -> v
  req ctx != nil && ctx.Request != nil
  ens [C15] v == fst(strconv.ParseUint(ckval(ctx, name), 10, 64))
end
spec Context.QueryFloat64(ctx, name) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == fst(strconv.ParseFloat(qval(ctx, name, ""), 64))
end
spec Context.DefaultQueryFloat64(ctx, name, d) -> v
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] v == fst(strconv.ParseFloat(qval(ctx, name, d), 64))
end
spec Context.CookieFloat64(ctx, name) -> v
  req ctx != nil && ctx.Request != nil
  ens [C15] v == fst(strconv.ParseFloat(ckval(ctx, name), 64))
end
def ckval(ctx: *Context, name: string): string = if snd(net/http.Request.Cookie(ctx.Request, name)) != nil then "" else fst(net/http.Request.Cookie(ctx.Request, name)).Value
spec Context.Cookie(ctx, name) -> v
  req ctx != nil && ctx.Request != nil
  ens [C15] v == ckval(ctx, name)
end
spec Context.CookieEscape(ctx, name) -> v
  req ctx != nil && ctx.Request != nil
  ens [C15] v == html/template.HTMLEscapeString(ckval(ctx, name))
end
def trimmed(q: seq[string], v: seq[string]): bool = len(q) == len(v) && (forall j: int {q[j]} :: 0 <= j && j < len(q) ==> q[j] == strings.TrimSpace(v[j]))
spec Context.QueryArray(ctx, name) -> q
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] !qhas(ctx, name) ==> len(q) == 0
  ens [C15] qhas(ctx, name) ==> trimmed(lst(q), lst(ctx.Request.Form[name]))
  inv any q: []string :: isnew(q)
  inv any q: []string :: len(q) == len(ctx.Request.Form[name])
  inv any q: []string :: (forall j: int {q[j]} :: 0 <= j && j < $k ==> q[j] == strings.TrimSpace(ctx.Request.Form[name][j]))
end
spec Context.DefaultQueryArray(ctx, name, d) -> q
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] !(name in dom(ctx.Request.Form)) ==> q == d
  ens [C15] name in dom(ctx.Request.Form) ==> trimmed(lst(q), lst(ctx.Request.Form[name]))
  inv any q: []string :: isnew(q)
  inv any q: []string :: len(q) == len(ctx.Request.Form[name])
  inv any q: []string :: (forall j: int {q[j]} :: 0 <= j && j < $k ==> q[j] == strings.TrimSpace(ctx.Request.Form[name][j]))
end
property C25 Context.ParseFormOrMultipartForm
property C15 Context.ParseFormOrMultipartForm
  Context.queryExist
  Context.Query
  Context.DefaultQuery
  Context.QueryBool
  Context.DefaultQueryBool
  Context.CookieBool
  Context.QueryInt
  Context.DefaultQueryInt
  Context.CookieInt
  Context.QueryInt64
  Context.DefaultQueryInt64
  Context.CookieInt64
  Context.QueryUint
  Context.DefaultQueryUint
  Context.CookieUint
  Context.QueryUint64
  Context.DefaultQueryUint64
  Context.CookieUint64
  Context.QueryFloat64
  Context.DefaultQueryFloat64
  Context.CookieFloat64
  Context.Cookie
  Context.CookieEscape
  Context.QueryArray
  Context.DefaultQueryArray

# key[sub]: the entry a form key contributes to the map of key ("" when it is none)
def lb(k: string): int = indexof(k, "[")
def sub0(k: string): string = k[lb(k)+1:]
def isEntry(k: string, key: string): bool = lb(k) >= 1 && k[:lb(k)] == key && indexof(sub0(k), "]") >= 1
def subOf(k: string): string = sub0(k)[:indexof(sub0(k), "]")]
def collected(m: map[string]string, f: net/url.Values, key: string): bool =
  (forall k: string {k in dom(f)} :: k in dom(f) && isEntry(k, key) ==> subOf(k) in dom(m))
  && (forall s: string {s in dom(m)} :: s in dom(m) ==> (exists k: string :: k in dom(f) && isEntry(k, key) && subOf(k) == s && m[s] == strings.TrimSpace(f[k][0])))

spec Context.QueryMap(ctx, key) -> m
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] collected(m, ctx.Request.Form, key)
  inv any m: map[string]string :: isnew(m)
  inv any m: map[string]string :: forall k: string {k in $visited} :: k in $visited && isEntry(k, key) ==> subOf(k) in dom(m)
  inv any m: map[string]string :: forall s: string {s in dom(m)} :: s in dom(m) ==> (exists k: string :: k in $visited && isEntry(k, key) && subOf(k) == s && m[s] == strings.TrimSpace(ctx.Request.Form[k][0]))
end
spec Context.DefaultQueryMap(ctx, key, d) -> m
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request]
  maypanic
  ens ctx.parsedParams && formFull(ctx.Request)
  ens [C15] old(ctx.parsedParams) ==> ctx.Request.Form == old(ctx.Request.Form)
  ens [C15] (exists k: string :: k in dom(ctx.Request.Form) && isEntry(k, key)) ==> collected(m, ctx.Request.Form, key)
  ens [C15] !(exists k: string :: k in dom(ctx.Request.Form) && isEntry(k, key)) ==> m == d
  inv any m: map[string]string :: isnew(m)
  inv any m: map[string]string :: forall k: string {k in $visited} :: k in $visited && isEntry(k, key) ==> subOf(k) in dom(m)
  inv any m: map[string]string :: forall s: string {s in dom(m)} :: s in dom(m) ==> (exists k: string :: k in $visited && isEntry(k, key) && subOf(k) == s && m[s] == strings.TrimSpace(ctx.Request.Form[k][0]))
  inv any e: bool :: e ==> (exists k: string :: k in $visited && isEntry(k, key))
  inv any e: bool :: !e ==> (forall k: string {k in $visited} :: k in $visited ==> !isEntry(k, key))
end
property C15 Context.QueryMap Context.DefaultQueryMap
