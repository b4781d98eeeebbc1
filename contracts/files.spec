package water

# ---- C24: the files of the system, seen through what opening them returned ----
pures net/url.PathEscape io/fs.FileInfo.IsDir io/fs.FileInfo.Name io/fs.FileInfo.ModTime io/fs.FileInfo.Size
# what the last opening for reading gave
gvar $opened ref
gvar $openErr iface
gvar $statInfo iface
gvar $statErr iface
# name a file was opened with, and file a description was read from
decl fileName(f: *os.File): string
decl infoOf(i: os.FileInfo): ref

ext os.Open(oname) -> f, err
  mod $opened, $openErr
  ens $opened == f && $openErr == err
  ens err == nil ==> f != nil && fileName(f) == oname
end
ext os.File.Stat(sf) -> i, err
  mod $statInfo, $statErr
  ens $statInfo == i && $statErr == err
  ens err == nil ==> i != nil && infoOf(i) == sf
end

def disposition(name: string, kind: string): string =
  if name == "" then (if kind == "" then "attachment" else kind)
  else (if kind == "" then "attachment" else kind) + "; filename=\"" + net/url.PathEscape(name) + "\"; filename*=UTF-8''" + net/url.PathEscape(name)
def dispKind(inline: []bool): string = if len(inline) > 0 && inline[0] then "inline" else "attachment"
spec contentDisposition(n, kind) -> r
  ens r == disposition(n, kind)
end

spec Context.Download(ctx, fpath, inline) -> err
  req ctxOK(ctx) && ctx.Request != nil
  mod Context.written[ctx], Context.status[ctx], $wc, $commit, $body, $hdr, $opened, $openErr, $statInfo, $statErr
  ens ctxOK(ctx)
  callassert [C24] os.Open :: oname == fpath
  callassert [C24] os.File.Stat :: sf == $opened && $openErr == nil
  callassert [C24] net/http.ServeContent :: $openErr == nil && $statErr == nil && infoOf($statInfo) == $opened && !io/fs.FileInfo.IsDir($statInfo)
  callassert [C24] net/http.ServeContent :: w == box(ctx) && req == ctx.Request && content == box(as($opened, "*os.File"))
  callassert [C24] net/http.ServeContent :: ncalls("os.File.Close") == 0 && (ncalls("os.File.Read") == 0 || ncalls("os.File.Seek") > 0)
  callassert [C24] net/http.ServeContent :: name == io/fs.FileInfo.Name($statInfo) && modtime == io/fs.FileInfo.ModTime($statInfo)
  callassert [C24] net/http.ServeContent :: hget(H0(ctx), "Content-Disposition") == disposition(io/fs.FileInfo.Name($statInfo), dispKind(inline))
  ens [C24] opened: ncalls("os.Open") == 1
  ens [C24] failed: $openErr != nil ==> err != nil
  ens [C24] nostat: $openErr == nil && $statErr != nil ==> err != nil
  ens [C24] dir: $openErr == nil && $statErr == nil && io/fs.FileInfo.IsDir($statInfo) ==> err != nil
  ens [C24] served: ncalls("net/http.ServeContent") == (if err == nil then 1 else 0)
  ens [C24] silent: err != nil ==> $wc == old($wc) && $body == old($body) && $hdr == old($hdr) && ctx.written == old(ctx.written)
end
spec Context.Attachment(ctx, aname, amod, acontent, inline)
  req ctxOK(ctx) && ctx.Request != nil && acontent != nil
  mod Context.written[ctx], Context.status[ctx], $wc, $commit, $body, $hdr
  ens ctxOK(ctx)
  callassert [C24] net/http.ServeContent :: w == box(ctx) && req == ctx.Request && content == acontent && name == aname && modtime == amod
  callassert [C24] net/http.ServeContent :: hget(H0(ctx), "Content-Disposition") == disposition(aname, dispKind(inline))
  callassert [C24] net/http.ServeContent :: ncalls("io.Reader.Read") == 0 || ncalls("io.Seeker.Seek") > 0
  ens [C24] served: ncalls("net/http.ServeContent") == 1
end

# uploads
gvar $up iface
gvar $upErr iface
gvar $dst ref
gvar $dstErr iface
ext mime/multipart.FileHeader.Open(fh) -> f, err
  mod $up, $upErr
  ens $up == f && $upErr == err && (err == nil ==> f != nil)
end
ext os.OpenFile(oname, flag, perm) -> f, err
  mod $dst, $dstErr
  ens $dst == f && $dstErr == err && (err == nil ==> f != nil)
end
ext os.Create(oname) -> f, err
  mod $dst, $dstErr
  ens $dst == f && $dstErr == err && (err == nil ==> f != nil)
end
spec Context.SaveUploadedFile(ctx, file, dst) -> err
  req file != nil
  mod $up, $upErr, $dst, $dstErr, $copyErr, $wc, $commit, $body, $hdr, Context.written[*], Context.status[*]
  ens $wc == old($wc) && $body == old($body) && $hdr == old($hdr)
  callassert [C24] mime/multipart.FileHeader.Open :: fh == file
  # for writing, created when missing, truncated, not appended to (linux flag values)
  callassert [C24] os.OpenFile :: oname == dst && (flag == 577 || flag == 578) && $upErr == nil
  callassert [C24] os.Create :: oname == dst && $upErr == nil
  callassert [C24] io.Copy :: csrc == $up && cdst == box(as($dst, "*os.File")) && $upErr == nil && $dstErr == nil
  callassert [C24] io.Copy :: ncalls("io.Closer.Close") == 0 && ncalls("os.File.Close") == 0 && (ncalls("io.Reader.Read") == 0 || ncalls("io.Seeker.Seek") > 0)
  ens [C24] once: ncalls("mime/multipart.FileHeader.Open") == 1
  ens [C24] noup: $upErr != nil ==> err != nil && ncalls("os.OpenFile") + ncalls("os.Create") == 0
  ens [C24] oneDst: $upErr == nil ==> ncalls("os.OpenFile") + ncalls("os.Create") == 1
  ens [C24] nodst: $upErr == nil && $dstErr != nil ==> err != nil
  ens [C24] copied: $upErr == nil && $dstErr == nil ==> ncalls("io.Copy") == 1 && (err == nil <==> $copyErr == nil)
end
property C24 contentDisposition Context.Download Context.Attachment Context.SaveUploadedFile
