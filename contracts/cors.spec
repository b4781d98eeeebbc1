package water

# C13
def corsOrigins(c: CORSConfig): []string = if len(c.AllowOrigins) == 0 then DefaultCORSConfig.AllowOrigins else c.AllowOrigins
def corsMethods(c: CORSConfig): []string = if len(c.AllowMethods) == 0 then DefaultCORSConfig.AllowMethods else c.AllowMethods
fun firstAllowed(os: seq[string], origin: string, i: int): string =
  if i < 0 || i >= len(os) then ""
  else if os[i] == "*" || os[i] == origin then os[i]
  else firstAllowed(os, origin, i+1)
def vary(m: mapv[string]seq[string], v: string): mapv[string]seq[string] = put(m, "Vary", hvals(m, "Vary") ++ unit(v))
def hset(m: mapv[string]seq[string], k: string, v: string): mapv[string]seq[string] = put(m, k, unit(v))
def hsetIf(m: mapv[string]seq[string], b: bool, k: string, v: string): mapv[string]seq[string] = if b then put(m, k, unit(v)) else m
def corsSimple(m: mapv[string]seq[string], allow: string, cred: bool, expose: string): mapv[string]seq[string] =
  hsetIf(hsetIf(hset(vary(m, "Origin"), "Access-Control-Allow-Origin", allow), cred, "Access-Control-Allow-Credentials", "true"), expose != "", "Access-Control-Expose-Headers", expose)
def corsPre(m: mapv[string]seq[string], allow: string, cred: bool, methods: string, headers: string, maxAge: int): mapv[string]seq[string] =
  hsetIf(hsetIf(hsetIf(hset(hset(vary(vary(vary(m, "Origin"), "Access-Control-Request-Method"), "Access-Control-Request-Headers"), "Access-Control-Allow-Origin", allow), "Access-Control-Allow-Methods", methods), cred, "Access-Control-Allow-Credentials", "true"), headers != "", "Access-Control-Allow-Headers", headers), maxAge > 0, "Access-Control-Max-Age", strconv.Itoa(maxAge))

spec CORS(config) -> f
  closure (ctx)
    req chainOK(ctx) && ctx.Request != nil && ctx.Request.Header != hdrOf(ctx.ResponseWriter)
    req [C07] running(ctx)
    mod Context.Environ[ctx], Context.Params[ctx], Context.Request[ctx], Context.index[ctx], Context.written[ctx], Context.status[ctx], Context.parsedParams[ctx]
    mod $last[ctx], $wc, $body, $commit, $hdr
    maypanic
    inv firstAllowed(lst(outer(corsOrigins(config))), hget($hdr[ctx.Request.Header], "Origin"), 0) == firstAllowed(lst(outer(corsOrigins(config))), hget($hdr[ctx.Request.Header], "Origin"), $k)
    ens chainOK(ctx)
    ens old(ctx.written) ==> ctx.written && ctx.status == old(ctx.status)
    ens [C07] ctx.index >= old(ctx.index) && $last[ctx] >= old($last[ctx]) && $last[ctx] <= ctx.index + 1
    callassert [C13] water.Context.Next :: $hdr[hdrOf(ctx.ResponseWriter)] == corsSimple(old($hdr[hdrOf(ctx.ResponseWriter)]), firstAllowed(old(lst(outer(corsOrigins(config)))), old(hget($hdr[ctx.Request.Header], "Origin")), 0), config.AllowCredentials, outer(strings.Join(config.ExposeHeaders, ",")))
    callassert [C13] water.Context.Next :: old(ctx.Request.Method) != "OPTIONS"
    ens [C13] forwarded: old(ctx.Request.Method) != "OPTIONS" ==> ncalls("water.Context.Next") == 1
    ens [C13] preflight: old(ctx.Request.Method) == "OPTIONS" ==> ctx.written && (old(ctx.written) || ctx.status == 204)
    ens [C13] prehdr: old(ctx.Request.Method) == "OPTIONS" ==> $hdr[hdrOf(ctx.ResponseWriter)] == corsPre(old($hdr[hdrOf(ctx.ResponseWriter)]), firstAllowed(old(lst(outer(corsOrigins(config)))), old(hget($hdr[ctx.Request.Header], "Origin")), 0), config.AllowCredentials, outer(strings.Join(corsMethods(config), ",")), if outer(strings.Join(config.AllowHeaders, ",")) != "" then outer(strings.Join(config.AllowHeaders, ",")) else old(hget($hdr[ctx.Request.Header], "Access-Control-Request-Headers")), config.MaxAge)
    ens [C13] committed: old(ctx.Request.Method) == "OPTIONS" && !old(ctx.written) ==> $commit[ctx.ResponseWriter] == $hdr[hdrOf(ctx.ResponseWriter)]
end
property C13 CORS Context.WriteHeader
