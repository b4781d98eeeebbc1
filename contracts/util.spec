package water

# ---- C21: what the helpers report about a request ----
def reqHdr(r: *http.Request, k: string): string = hget($hdr[r.Header], k)
def firstEntry(xff: string): string = strings.TrimSpace(if contains(xff, ",") then xff[0:indexof(xff, ",")] else xff)
def noPort(a: string): string = if strings.LastIndex(a, ":") >= 0 then a[0:strings.LastIndex(a, ":")] else a
def realIP(r: *http.Request): string =
  if reqHdr(r, "X-Real-IP") != "" then reqHdr(r, "X-Real-IP")
  else if reqHdr(r, "X-Forwarded-For") != "" && firstEntry(reqHdr(r, "X-Forwarded-For")) != "" then firstEntry(reqHdr(r, "X-Forwarded-For"))
  else noPort(r.RemoteAddr)
# the media type is what precedes the first blank or semicolon
decl mtLen(c: string): int
def mtSep(c: string, i: int): bool = c[i] == 32 || c[i] == 59
def mediaType(c: string): string = c[0:mtLen(c)]
axiom mt_range: forall c: string {mtLen(c)} :: 0 <= mtLen(c) && mtLen(c) <= len(c) && (mtLen(c) < len(c) ==> mtSep(c, mtLen(c)))
axiom mt_first: forall c: string, j: int {mtLen(c), c[j]} :: 0 <= j && j < mtLen(c) ==> !mtSep(c, j)

spec requestProxy(req) -> r
  req req != nil
  ens reqHdr(req, "X-Forwarded-For") == "" ==> r == nil
  ens reqHdr(req, "X-Forwarded-For") != "" ==> freshslice(r) && len(r) > 0 && len(r) == len(splitOf(reqHdr(req, "X-Forwarded-For"), ","))
  ens reqHdr(req, "X-Forwarded-For") != "" ==> forall i: int {r[i]} :: 0 <= i && i < len(r) ==> r[i] == strings.TrimSpace(splitOf(reqHdr(req, "X-Forwarded-For"), ",")[i])
  inv any q: []string :: len(q) == len(splitOf(reqHdr(req, "X-Forwarded-For"), ","))
  inv any q: []string :: freshslice(q)
  inv any q: []string :: (forall j: int {q[j]} :: 0 <= j && j < $k ==> q[j] == strings.TrimSpace(splitOf(reqHdr(req, "X-Forwarded-For"), ",")[j]))
  inv any q: []string :: (forall j: int {q[j]} :: $k <= j && j < len(q) ==> q[j] == splitOf(reqHdr(req, "X-Forwarded-For"), ",")[j])
end
spec requestRealIp(req) -> r
  req req != nil
  ens r == realIP(req)
end
spec filterFlags(content) -> r
  ens r == mediaType(content)
  inv any p: int :: 0 <= p && p <= len(content)
  inv any p: int :: forall j: int {content[j]} :: 0 <= j && j < p ==> content[j] != 32 && content[j] != 59
  inv forall j: int {content[j]} :: 0 <= j && j < $pos ==> content[j] != 32 && content[j] != 59
end
spec Context.GetHeader(ctx, key) -> v
  req ctx != nil && ctx.Request != nil
  ens v == reqHdr(ctx.Request, key)
end
spec Context.SetHeader(ctx, key, value)
  req ctx != nil && ctx.ResponseWriter != nil
  mod $hdr[hdrOf(ctx.ResponseWriter)]
  ens $hdr[hdrOf(ctx.ResponseWriter)] == put(old($hdr[hdrOf(ctx.ResponseWriter)]), canon(key), unit(value))
end
spec Context.Protocol(ctx) -> v
  req ctx != nil && ctx.Request != nil
  ens v == (if reqHdr(ctx.Request, "X-Forwarded-Proto") == "http" || reqHdr(ctx.Request, "X-Forwarded-Proto") == "https" then reqHdr(ctx.Request, "X-Forwarded-Proto") else if ctx.Request.TLS != nil then "https" else "http")
end
spec Context.ContentType(ctx) -> v
  req ctx != nil && ctx.Request != nil
  ens v == mediaType(reqHdr(ctx.Request, "Content-Type"))
end
spec Context.UserAgent(ctx) -> v
  req ctx != nil && ctx.Request != nil
  ens v == reqHdr(ctx.Request, "User-Agent")
end
spec Context.IsAjax(ctx) -> v
  req ctx != nil && ctx.Request != nil
  ens v <==> reqHdr(ctx.Request, "X-Requested-With") == "XMLHttpRequest"
end
spec Context.IsWebsocket(ctx) -> v
  req ctx != nil && ctx.Request != nil
  ens v <==> contains(strings.ToLower(reqHdr(ctx.Request, "Connection")), "upgrade") && strings.ToLower(reqHdr(ctx.Request, "Upgrade")) == "websocket"
end
spec Context.RealIp(ctx) -> v
  req ctx != nil && ctx.Request != nil
  ens v == realIP(ctx.Request)
end
spec Context.Proxy(ctx) -> r
  req ctx != nil && ctx.Request != nil
  ens reqHdr(ctx.Request, "X-Forwarded-For") == "" ==> r == nil
  ens reqHdr(ctx.Request, "X-Forwarded-For") != "" ==> len(r) == len(splitOf(reqHdr(ctx.Request, "X-Forwarded-For"), ","))
  ens reqHdr(ctx.Request, "X-Forwarded-For") != "" ==> forall i: int {r[i]} :: 0 <= i && i < len(r) ==> r[i] == strings.TrimSpace(splitOf(reqHdr(ctx.Request, "X-Forwarded-For"), ",")[i])
end
property C21 requestProxy requestRealIp filterFlags Context.GetHeader Context.SetHeader Context.Protocol Context.ContentType Context.UserAgent Context.IsAjax Context.IsWebsocket Context.RealIp Context.Proxy
