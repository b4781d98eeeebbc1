package water

# ---- trusted contracts of net/http and strconv pieces the repository calls ----
pures net/textproto.CanonicalMIMEHeaderKey
pures strconv.ParseBool strconv.Atoi strconv.ParseInt strconv.ParseUint strconv.ParseFloat
pures strings.TrimSpace strings.ToLower  strings.ToUpper
fun splitOf(s: string, sep: string): seq[string] =
  if sep == "" || !contains(s, sep) then unit(s) else unit(s[0:indexof(s, sep)]) ++ splitOf(s[indexof(s, sep)+len(sep):len(s)], sep)
ext strings.Split(s, sep) -> r
  req [C21,C04,C06] sep != ""
  ens freshslice(r) && len(r) > 0 && lst(r) == splitOf(s, sep)
end

# header contents: ghost map per header object, by canonical key
gvar $hdr arr[ref]mapv[string]seq[string]
def canon(k: string): string = net/textproto.CanonicalMIMEHeaderKey(k)
def hget(m: mapv[string]seq[string], k: string): string = if canon(k) in dom(m) && len(m[canon(k)]) > 0 then m[canon(k)][0] else ""
def hvals(m: mapv[string]seq[string], k: string): seq[string] = if canon(k) in dom(m) then m[canon(k)] else empty("string")

ext net/http.Header.Get(h, k) -> v
  ens v == hget($hdr[h], k)
end
ext net/http.Header.Set(h, k, v)
  mod $hdr[h]
  ens $hdr[h] == put(old($hdr[h]), canon(k), unit(v))
end
ext net/http.Header.Add(h, k, v)
  mod $hdr[h]
  ens $hdr[h] == put(old($hdr[h]), canon(k), hvals(old($hdr[h]), k) ++ unit(v))
end

# ---- option.go ----

# ---- request forms ----
def formFull(r: *http.Request): bool = forall k: string {k in dom(r.Form)} :: k in dom(r.Form) ==> len(r.Form[k]) > 0
ext net/http.Request.ParseForm(r) -> err
  mod http.Request.Form[r], http.Request.PostForm[r]
  ens formFull(r)
end
ext net/http.Request.ParseMultipartForm(r, maxMemory) -> err
  mod http.Request.Form[r], http.Request.PostForm[r], http.Request.MultipartForm[r]
  ens formFull(r)
  ens err == nil ==> r.MultipartForm != nil
end
ext net/url.Values.Get(v, k) -> r
  ens r == (if len(v[k]) == 0 then "" else v[k][0])
end
pures net/http.Request.Cookie html/template.HTMLEscapeString
axiom cookie_nil_iff_err: forall r: *http.Request, n: string {fst(net/http.Request.Cookie(r, n))} :: snd(net/http.Request.Cookie(r, n)) == nil ==> fst(net/http.Request.Cookie(r, n)) != nil

# ---- response writers: the header of a writer is fixed ----
pures net/http.ResponseWriter.Header
def hdrOf(w: ResponseWriter): ref = net/http.ResponseWriter.Header(w)
