package water

# ---- C14: static files ----
# what a file system and a file answer, within one request
decl openedF(fs: iface, name: string): iface
decl openErr(fs: iface, name: string): error
decl statF(f: iface): iface
decl statErrF(f: iface): error
ext net/http.FileSystem.Open(fs, oname) -> f, err
  ens f == openedF(fs, oname) && err == openErr(fs, oname)
  ens err == nil ==> f != nil
end
ext net/http.File.Stat(sf) -> fi, err
  ens fi == statF(sf) && err == statErrF(sf)
  ens err == nil ==> fi != nil
end
ext dyn:func() string(ef) -> r
  maypanic
end
decl pjoin(q: seq[string]): string
decl fjoin(q: seq[string]): string
ext path.Join(elem) -> r
  ens r == pjoin(lst(elem))
end
ext path/filepath.Join(elem) -> r
  ens r == fjoin(lst(elem))
end
pures path.Clean strings.TrimRight time.Time.Unix

# hexadecimal digits of a number, and of the bytes of a text
decl hexI(n: int): string
decl hexS(s: string): string
# sign and digits determine the number; neither is a dash, but for the sign
axiom hexI_inj: forall a: int, b: int {hexI(a), hexI(b)} :: hexI(a) == hexI(b) ==> a == b
axiom hexS_inj: forall a: string, b: string {hexS(a), hexS(b)} :: hexS(a) == hexS(b) ==> a == b
axiom hexS_dash: forall a: string {hexS(a)} :: !contains(hexS(a), "-")
axiom hexI_dash: forall a: int {hexI(a)} :: a >= 0 ==> !contains(hexI(a), "-")
axiom hexI_neg: forall a: int {hexI(a)} :: a < 0 ==> hexI(a) == "-" + hexI(-a)
def tag1(t: int, n: int): string = hexI(t) + "-" + hexI(n)
def tag2(t: int, n: int, s: string): string = hexI(t) + "-" + hexI(n) + "-" + hexS(s)
spec GenerateETag(lastModified, size) -> r
  ens [C14] text: r == tag1(time.Time.Unix(lastModified), size)
end
spec GenerateETag2(lastModified, size, fileName) -> r
  ens [C14] text: r == tag2(time.Time.Unix(lastModified), size, fileName)
end
# the tags identify what they are made of: texts without a dash are separated by one
lemma dash_at()
  opt for C14
  var x: string, y: string
  req !contains(x, "-")
  ens indexof(x + "-" + y, "-") == len(x)
end
lemma dash_sep()
  opt for C14
  var x: string, y: string, u: string, v: string
  # lemma dash_at
  req indexof(x + "-" + y, "-") == len(x) && indexof(u + "-" + v, "-") == len(u)
  req x + "-" + y == u + "-" + v
  ens x == u && y == v
end
lemma tag1_inj()
  opt for C14
  var a: int, m: int, b: int, n: int
  req tag1(a, m) == tag1(b, n)
  # lemma dash_sep, for times from 1970 on
  req hexI(a) == hexI(b) && hexI(m) == hexI(n)
  ens a == b && m == n
end
lemma tag2_inj()
  opt for C14
  var a: int, m: int, s: string, b: int, n: int, t: string
  req hexI(a) == hexI(b) && hexI(m) == hexI(n) && hexS(s) == hexS(t)
  ens a == b && m == n && s == t
end
property C14 GenerateETag GenerateETag2

def par(ctx: *Context): string = ctx.Params["*0"]
def infoOK(f: iface): bool = statErrF(f) == nil
def dirF(f: iface): bool = io/fs.FileInfo.IsDir(statF(f))
def tagFor(o: *StaticOptions, f: iface): string = if o.ETag == 1 then tag1(time.Time.Unix(io/fs.FileInfo.ModTime(statF(f))), io/fs.FileInfo.Size(statF(f))) else tag2(time.Time.Unix(io/fs.FileInfo.ModTime(statF(f))), io/fs.FileInfo.Size(statF(f)), io/fs.FileInfo.Name(statF(f)))
def slashed(ctx: *Context): bool = hassuffix(ctx.Request.URL.Path, "/") || hassuffix(path.Clean(ctx.Request.URL.Path), "/")
def idx(o: *StaticOptions, ctx: *Context): string = pjoin(unit(par(ctx)) ++ unit(o.IndexFile))
def servesF(n: int): bool = ncalls("net/http.ServeContent") == n
def redirs(n: int): bool = ncalls("net/http.Redirect") == n
# nothing but a status was sent
def onlyStatus(ctx: *Context, code: int): bool = servesF(0) && redirs(0) && ncalls("water.Context.Write") == 0 && ctx.written && (old(ctx.written) || ctx.status == code)
def okDir(o: *StaticOptions, ctx: *Context): bool = o.IndexFile != "" && openErr(o.FileSystem, idx(o, ctx)) == nil && infoOK(openedF(o.FileSystem, idx(o, ctx))) && !dirF(openedF(o.FileSystem, idx(o, ctx)))
fun prefixOf(p: string): string = if p == "" then "" else strings.TrimRight(if p[0] == 47 then p else "/" + p, "/")
spec Router.StaticAdvance(r, opt)
  opt without hexI_inj hexS_inj hexS_dash hexI_dash hexI_neg
  opt clo water.Router.GET water.Router.HEAD
  opt closureground yes
  opt hide known
  req usable(r) && regInv() && opt != nil
  req opt.hasIndex ==> opt.IndexFile != ""
  mod StaticOptions.hasIndex[opt], StaticOptions.Prefix[opt], Router.sub[r], elems(r.sub), $routers
  pan r.parent != nil || opt.FileSystem == nil
  callassert [C14] water.Router.GET :: r == my_r && pattern == fjoin(unit(opt.Prefix) ++ unit("/*")) && len(handlers) == 1
  callassert [C14] water.Router.HEAD :: r == my_r && pattern == fjoin(unit(opt.Prefix) ++ unit("/*")) && len(handlers) == 1
  ens [C14] both: ncalls("water.Router.GET") == 1 && ncalls("water.Router.HEAD") == 1
  ens [C14] index: opt.hasIndex == (opt.IndexFile != "")
  ens [C14] prefix: opt.Prefix == prefixOf(old(opt.Prefix))
  ens regInv()
  closure (ctx)
    req chainOK(ctx) && ctx.Request != nil && ctx.Request.URL != nil && "*0" in dom(ctx.Params)
    # the options are not changed after the registration
    req opt.hasIndex == (opt.IndexFile != "") && opt.FileSystem != nil
    req opt.FileSystem == outer(opt.FileSystem) && opt.IndexFile == outer(opt.IndexFile) && opt.ETag == outer(opt.ETag)
    mod Context.written[ctx], Context.status[ctx], $wc, $commit, $body, $hdr
    maypanic
    ens chainOK(ctx)
    callassert [C14] net/http.FileSystem.Open :: fs == opt.FileSystem && (oname == par(ctx) || opt.IndexFile != "" && oname == idx(opt, ctx))
    callassert [C14] net/http.Redirect :: w == box(ctx) && r == ctx.Request && url == path.Clean(ctx.Request.URL.Path) + "/" && code >= 301 && code <= 308
    callassert [C14] net/http.ServeContent :: w == box(ctx) && req == ctx.Request && modtime == io/fs.FileInfo.ModTime(statF(content)) && ncalls("io.Closer.Close") == 0 && (ncalls("io.Reader.Read") == 0 || ncalls("io.Seeker.Seek") > 0)
    callassert [C14] net/http.ServeContent :: let f = openedF(opt.FileSystem, par(ctx)) in content == (if dirF(f) then openedF(opt.FileSystem, idx(opt, ctx)) else f)
    callassert [C14] net/http.ServeContent :: let f = openedF(opt.FileSystem, par(ctx)) in !dirF(f) && opt.ETag != 0 ==> hget(H0(ctx), "ETag") == tagFor(opt, f)
    ens [C14] missing: openErr(opt.FileSystem, par(ctx)) != nil || statErrF(openedF(opt.FileSystem, par(ctx))) != nil ==> onlyStatus(ctx, 404)
    ens [C14] file: let f = openedF(opt.FileSystem, par(ctx)) in openErr(opt.FileSystem, par(ctx)) == nil && infoOK(f) && !dirF(f) ==> (if opt.ETag != 0 && hget(old($hdr[ctx.Request.Header]), "If-None-Match") == tagFor(opt, f) then onlyStatus(ctx, 304) && hget(H0(ctx), "ETag") == tagFor(opt, f) else servesF(1) && redirs(0) && ncalls("water.Context.WriteHeader") == 0)
    ens [C14] dir: let f = openedF(opt.FileSystem, par(ctx)) in openErr(opt.FileSystem, par(ctx)) == nil && infoOK(f) && dirF(f) ==> (if !slashed(ctx) then redirs(1) && servesF(0) else if okDir(opt, ctx) then servesF(1) && redirs(0) && ncalls("water.Context.WriteHeader") == 0 else onlyStatus(ctx, 404))
end
spec Router.Static(r, uri, root)
  req usable(r) && regInv()
  mod Router.sub[r], elems(r.sub), $routers
  pan r.parent != nil
  callassert [C14] water.Router.StaticAdvance :: r == my_r && opt.Prefix == uri && opt.FileSystem == box(as(root, "http.Dir")) && opt.IndexFile == "" && opt.ETag == 0 && opt.Expires == nil
  ens [C14] once: ncalls("water.Router.StaticAdvance") == 1
  ens regInv()
end
spec Router.StaticFile(r, relativePath, filepath)
  opt clo water.Router.GET water.Router.HEAD
  opt closureground yes
  opt hide known
  req usable(r) && regInv()
  mod Router.sub[r], elems(r.sub), $routers
  pan r.parent != nil
  callassert [C14] water.Router.GET :: r == my_r && pattern == relativePath && len(handlers) == 1
  callassert [C14] water.Router.HEAD :: r == my_r && pattern == relativePath && len(handlers) == 1
  ens [C14] both: ncalls("water.Router.GET") == 1 && ncalls("water.Router.HEAD") == 1
  ens regInv()
  closure (ctx)
    req chainOK(ctx) && ctx.Request != nil
    mod Context.written[ctx], Context.status[ctx], $wc, $commit, $body, $hdr
    maypanic
    ens chainOK(ctx)
    callassert [C14] water.Context.File :: ctx == my_ctx && filepath == outer(filepath)
    callassert [C14] water.Context.ServeFile :: ctx == my_ctx && filePath == outer(filepath)
    ens [C14] once: ncalls("water.Context.File") + ncalls("water.Context.ServeFile") == 1
end
property C14 Router.StaticAdvance Router.Static Router.StaticFile
elsewhere C14 Router.GET Router.HEAD: C06
elsewhere C14 Context.File Context.ServeFile Context.WriteHeader: C10
elsewhere C14 Context.Param: C15
