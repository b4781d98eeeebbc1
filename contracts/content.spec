package water

# ---- response helpers ----
def cset(h: mapv[string]seq[string], v: string): mapv[string]seq[string] = put(h, "Content-Type", unit(v))
def H0(ctx: *Context): mapv[string]seq[string] = $hdr[hdrOf(ctx.ResponseWriter)]

# the writer below: a *Context passes bytes on (Context.Write), any other writer takes them itself
def isCtx(w: iface): bool = istype(w, "*Context")
def ctxOf(w: iface): ref = unbox(w, "*Context")

# net/http's helpers write through the writer they are given; through a *Context that means one
# committed status and a body. What they send besides is theirs.
ext net/http.Redirect(w, r, url, code)
  req [C10,C11] through: istype(w, "*Context") && ctxOK(unbox(w, "*Context")) && r != nil
  mod Context.written[unbox(w, "*Context")], Context.status[unbox(w, "*Context")], $wc, $commit, $body, $hdr
  ens ctxOK(unbox(w, "*Context")) && unbox(w, "*Context").written
  ens old(unbox(w, "*Context").written) ==> unbox(w, "*Context").status == old(unbox(w, "*Context").status)
  ens !old(unbox(w, "*Context").written) ==> unbox(w, "*Context").status == code
end
ext net/http.Error(w, error, code)
  req [C10,C11] through: istype(w, "*Context") && ctxOK(unbox(w, "*Context"))
  mod Context.written[unbox(w, "*Context")], Context.status[unbox(w, "*Context")], $wc, $commit, $body, $hdr
  ens ctxOK(unbox(w, "*Context")) && unbox(w, "*Context").written
  ens old(unbox(w, "*Context").written) ==> unbox(w, "*Context").status == old(unbox(w, "*Context").status)
  ens !old(unbox(w, "*Context").written) ==> unbox(w, "*Context").status == code
end
ext net/http.ServeFile(w, r, name)
  req [C10] through: istype(w, "*Context") && ctxOK(unbox(w, "*Context")) && r != nil
  mod Context.written[unbox(w, "*Context")], Context.status[unbox(w, "*Context")], $wc, $commit, $body, $hdr
  ens ctxOK(unbox(w, "*Context"))
  ens old(unbox(w, "*Context").written) ==> unbox(w, "*Context").written && unbox(w, "*Context").status == old(unbox(w, "*Context").status)
end
ext net/http.ServeContent(w, req, name, modtime, content)
  req [C10,C14,C24] through: istype(w, "*Context") && ctxOK(unbox(w, "*Context")) && req != nil && content != nil
  mod Context.written[unbox(w, "*Context")], Context.status[unbox(w, "*Context")], $wc, $commit, $body, $hdr
  ens ctxOK(unbox(w, "*Context"))
  ens old(unbox(w, "*Context").written) ==> unbox(w, "*Context").written && unbox(w, "*Context").status == old(unbox(w, "*Context").status)
end
gvar $copyErr iface
ext io.Copy(cdst, csrc) -> n, err
  req istype(cdst, "*Context") ==> ctxOK(unbox(cdst, "*Context"))
  mod Context.written[unbox(cdst, "*Context")], Context.status[unbox(cdst, "*Context")], $wc, $commit, $body, $hdr, $copyErr
  ens istype(cdst, "*Context") ==> ctxOK(unbox(cdst, "*Context"))
  ens istype(cdst, "*Context") && old(unbox(cdst, "*Context").written) ==> unbox(cdst, "*Context").written && unbox(cdst, "*Context").status == old(unbox(cdst, "*Context").status)
  ens !istype(cdst, "*Context") ==> unbox(cdst, "*Context").written == old(unbox(cdst, "*Context").written) && unbox(cdst, "*Context").status == old(unbox(cdst, "*Context").status) && $wc == old($wc) && $commit == old($commit) && $body == old($body) && $hdr == old($hdr)
  ens $copyErr == err
end

spec Context.Abort(ctx, code)
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter]
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens !old(ctx.written) ==> ctx.status == code
end
spec Context.NotModified(ctx)
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter]
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] !old(ctx.written) ==> ctx.status == 304
end
spec Context.BadRequest(ctx)
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter]
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] !old(ctx.written) ==> ctx.status == 400
end
spec Context.Unauthorized(ctx)
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter]
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] !old(ctx.written) ==> ctx.status == 401
end
spec Context.Forbidden(ctx)
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter]
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] !old(ctx.written) ==> ctx.status == 403
end
spec Context.NotFound(ctx)
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter]
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] !old(ctx.written) ==> ctx.status == 404
end
spec Context.InternalServerError(ctx)
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter]
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] !old(ctx.written) ==> ctx.status == 500
end
spec Context.MovedPermanently(ctx, uri)
  req ctxOK(ctx) && ctx.Request != nil
  mod Context.written[ctx], Context.status[ctx], $wc, $commit, $body, $hdr
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] !old(ctx.written) ==> ctx.status == 301
  callassert [C11] net/http.Redirect :: url == uri && r == ctx.Request && w == box(ctx)
end
spec Context.Found(ctx, uri)
  req ctxOK(ctx) && ctx.Request != nil
  mod Context.written[ctx], Context.status[ctx], $wc, $commit, $body, $hdr
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] !old(ctx.written) ==> ctx.status == 302
  callassert [C11] net/http.Redirect :: url == uri && r == ctx.Request && w == box(ctx)
end
spec Context.String(ctx, code, str)
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter], $body[ctx.ResponseWriter], $hdr[hdrOf(ctx.ResponseWriter)]
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] first: !old(ctx.written) ==> ctx.status == code && $commit[ctx.ResponseWriter] == cset(old(H0(ctx)), "text/plain; charset=utf-8")
  ens [C11] sent: $body[ctx.ResponseWriter] == old($body[ctx.ResponseWriter]) ++ bytes(str)
end
spec Context.Data(ctx, code, contentType, data)
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter], $body[ctx.ResponseWriter], $hdr[hdrOf(ctx.ResponseWriter)]
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] first: !old(ctx.written) ==> ctx.status == code && $commit[ctx.ResponseWriter] == cset(old(H0(ctx)), contentType)
  ens [C11] sent: $body[ctx.ResponseWriter] == old($body[ctx.ResponseWriter]) ++ lst(data)
end
spec Context.HTMLRaw(ctx, code, str)
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter], $body[ctx.ResponseWriter], $hdr[hdrOf(ctx.ResponseWriter)]
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] first: !old(ctx.written) ==> ctx.status == code && $commit[ctx.ResponseWriter] == cset(old(H0(ctx)), "text/html; charset=utf-8")
  ens [C11] sent: $body[ctx.ResponseWriter] == old($body[ctx.ResponseWriter]) ++ bytes(str)
end

# encoders: the text a value encodes to (or that it does not encode) is theirs
decl jsonText(v: any): seq[int]
decl xmlText(v: any): seq[int]
gvar $encW arr[ref]iface
gvar $encErr iface
def sink(w: iface): iface = if istype(w, "*Context") then unbox(w, "*Context").ResponseWriter else w
def sinkReady(w: iface): bool = if istype(w, "*Context") then ctxOK(unbox(w, "*Context")) && unbox(w, "*Context").written else len($wc[w]) > 0
ext github.com/json-iterator/go.API.NewEncoder(a, w) -> enc
  mod $encW
  ens fresh(enc) && enc != nil && $encW == store(old($encW), enc, w)
end
ext github.com/json-iterator/go.Encoder.Encode(enc, v) -> err
  req [C11] first: sinkReady($encW[enc])
  mod $body[sink($encW[enc])], $encErr
  ens err == nil ==> $body[sink($encW[enc])] == old($body[sink($encW[enc])]) ++ jsonText(v)
  ens $encErr == err
end
ext encoding/xml.NewEncoder(w) -> enc
  mod $encW
  ens fresh(enc) && enc != nil && $encW == store(old($encW), enc, w)
end
ext encoding/xml.Encoder.Encode(enc, v) -> err
  req [C11] first: sinkReady($encW[enc])
  mod $body[sink($encW[enc])], $encErr
  ens err == nil ==> $body[sink($encW[enc])] == old($body[sink($encW[enc])]) ++ xmlText(v)
  ens $encErr == err
end
spec Context.JSON(ctx, code, v) -> err
  req ctxOK(ctx) && json != nil
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter], $body[ctx.ResponseWriter], $hdr[hdrOf(ctx.ResponseWriter)], $encErr, $encW
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] first: !old(ctx.written) ==> ctx.status == code && $commit[ctx.ResponseWriter] == cset(old(H0(ctx)), "application/json; charset=utf-8")
  ens [C11] sent: err == nil ==> $body[ctx.ResponseWriter] == old($body[ctx.ResponseWriter]) ++ jsonText(v)
  ens [C11] reported: err == nil ==> $encErr == nil
  ens [C11] encoded: ncalls("github.com/json-iterator/go.Encoder.Encode") == 1
end
spec Context.XML(ctx, code, v) -> err
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter], $body[ctx.ResponseWriter], $hdr[hdrOf(ctx.ResponseWriter)], $encErr, $encW
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] first: !old(ctx.written) ==> ctx.status == code && $commit[ctx.ResponseWriter] == cset(old(H0(ctx)), "application/xml; charset=utf-8")
  ens [C11] sent: err == nil ==> $body[ctx.ResponseWriter] == old($body[ctx.ResponseWriter]) ++ xmlText(v)
  ens [C11] reported: err == nil ==> $encErr == nil
  ens [C11] encoded: ncalls("encoding/xml.Encoder.Encode") == 1
end

ext water.Render.HTMLSet(r, rc, rcode, rset, rtpl, rdata)
  req ctxOK(rc)
  mod Context.Environ[rc], Context.Params[rc], Context.Request[rc], Context.index[rc], Context.written[rc], Context.status[rc], Context.parsedParams[rc]
  mod $last[rc], $wc, $body, $commit, $hdr
  maypanic
  ens ctxOK(rc)
  ens old(rc.written) ==> rc.written && rc.status == old(rc.status)
end
spec defaultRender.HTMLSet(r, ctx, code, setName, tplName, data)
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc[ctx.ResponseWriter], $commit[ctx.ResponseWriter], $hdr[hdrOf(ctx.ResponseWriter)]
  ens ctxOK(ctx) && ctx.written
  ens old(ctx.written) ==> ctx.status == old(ctx.status)
  ens [C11] first: !old(ctx.written) ==> ctx.status == code && $commit[ctx.ResponseWriter] == cset(old(H0(ctx)), "text/html; charset=utf-8")
end
spec Context.renderHTML(ctx, code, setName, tplName, data)
  req ctxOK(ctx) && _render != nil
  mod Context.Environ[ctx], Context.Params[ctx], Context.Request[ctx], Context.index[ctx], Context.written[ctx], Context.status[ctx], Context.parsedParams[ctx]
  mod $last[ctx], $wc, $body, $commit, $hdr
  maypanic
  ens ctxOK(ctx)
  ens old(ctx.written) ==> ctx.written && ctx.status == old(ctx.status)
  callassert [C11] water.Render.HTMLSet :: rc == ctx && rcode == code && rset == setName && rtpl == tplName && rdata == data
  ens [C11] rendered: ncalls("water.Render.HTMLSet") == 1
end
spec Context.HTMLSet(hc, hcode, hset, htpl, hdata)
  req ctxOK(hc) && _render != nil
  mod Context.Environ[hc], Context.Params[hc], Context.Request[hc], Context.index[hc], Context.written[hc], Context.status[hc], Context.parsedParams[hc]
  mod $last[hc], $wc, $body, $commit, $hdr
  maypanic
  ens ctxOK(hc)
  ens old(hc.written) ==> hc.written && hc.status == old(hc.status)
  callassert [C11] water.Context.renderHTML :: ctx == hc && code == hcode && setName == hset && tplName == htpl && data == hdata
  callassert [C11] water.Render.HTMLSet :: rc == hc && rcode == hcode && rset == hset && rtpl == htpl && rdata == hdata
  ens [C11] rendered: ncalls("water.Context.renderHTML") + ncalls("water.Render.HTMLSet") == 1
end
spec Context.HTML(c, cd, tn, dt)
  req ctxOK(c) && _render != nil
  mod Context.Environ[c], Context.Params[c], Context.Request[c], Context.index[c], Context.written[c], Context.status[c], Context.parsedParams[c]
  mod $last[c], $wc, $body, $commit, $hdr
  maypanic
  ens ctxOK(c)
  ens old(c.written) ==> c.written && c.status == old(c.status)
  callassert [C11] water.Context.renderHTML :: ctx == c && code == cd && setName == "" && tplName == tn && data == dt
  callassert [C11] water.Context.HTMLSet :: hc == c && hcode == cd && hset == "" && htpl == tn && hdata == dt
  callassert [C11] water.Render.HTMLSet :: rc == c && rcode == cd && rset == "" && rtpl == tn && rdata == dt
  ens [C11] rendered: ncalls("water.Context.renderHTML") + ncalls("water.Context.HTMLSet") + ncalls("water.Render.HTMLSet") == 1
end
# files and downloads
spec Context.File(ctx, filepath)
  req ctxOK(ctx) && ctx.Request != nil
  mod Context.written[ctx], Context.status[ctx], $wc, $commit, $body, $hdr
  ens ctxOK(ctx)
  callassert [C10] net/http.ServeFile :: w == box(ctx) && r == ctx.Request && name == filepath
  ens [C10] once: ncalls("net/http.ServeFile") == 1
end
spec Context.ServeFile(ctx, filePath)
  req ctxOK(ctx) && ctx.Request != nil
  mod Context.written[ctx], Context.status[ctx], $wc, $commit, $body, $hdr
  ens ctxOK(ctx)
  callassert [C10] net/http.ServeFile :: w == box(ctx) && r == ctx.Request && name == filePath
  ens [C10] once: ncalls("net/http.ServeFile") == 1
end
spec Context.Stream(ctx, contentType, r) -> err
  req ctxOK(ctx)
  mod Context.written[ctx], Context.status[ctx], $wc, $commit, $body, $hdr, $copyErr
  ens ctxOK(ctx)
  callassert [C10] io.Copy :: cdst == box(ctx) && csrc == r
  ens [C10] once: ncalls("io.Copy") == 1
  ens [C10] reported: err == $copyErr
end
property C11 Context.Abort Context.NotModified Context.BadRequest Context.Unauthorized Context.Forbidden Context.NotFound Context.InternalServerError Context.MovedPermanently Context.Found Context.String Context.Data Context.HTMLRaw Context.JSON Context.XML defaultRender.HTMLSet Context.renderHTML Context.HTML Context.HTMLSet Context.WriteHeader Context.Write
property C10 Context.Abort Context.File Context.ServeFile Context.Stream Context.String Context.Data Context.HTMLRaw Context.MovedPermanently Context.Found
