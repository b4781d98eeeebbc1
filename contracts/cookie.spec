package water

# C20: the text of a cookie is a function of its fields (http.Cookie.String, trusted)
decl cookieText(name: string, value: string, quoted: bool, path: string, domain: string, expires: time.Time, maxAge: int, secure: bool, httpOnly: bool, sameSite: int, partitioned: bool): string
ext net/http.Cookie.String(c) -> s
  ens s == cookieText(c.Name, c.Value, c.Quoted, c.Path, c.Domain, c.Expires, c.MaxAge, c.Secure, c.HttpOnly, c.SameSite, c.Partitioned)
end
def textOf(c: *http.Cookie): string = cookieText(c.Name, c.Value, c.Quoted, c.Path, c.Domain, c.Expires, c.MaxAge, c.Secure, c.HttpOnly, c.SameSite, c.Partitioned)
def addCookie(h: mapv[string]seq[string], t: string): mapv[string]seq[string] = put(h, "Set-Cookie", hvals(h, "Set-Cookie") ++ unit(t))
ext net/http.SetCookie(w, c)
  mod $hdr[hdrOf(w)]
  ens $hdr[hdrOf(w)] == (if textOf(c) == "" then old($hdr[hdrOf(w)]) else addCookie(old($hdr[hdrOf(w)]), textOf(c)))
end

def ckAge(o: []any): int = if len(o) > 0 && istype(o[0], "int") then unbox(o[0], "int") else if len(o) > 0 && istype(o[0], "int32") then unbox(o[0], "int32") else if len(o) > 0 && istype(o[0], "int64") then unbox(o[0], "int64") else 0
def ckStr(o: []any, i: int, d: string): string = if len(o) > i && istype(o[i], "string") && unbox(o[i], "string") != "" then unbox(o[i], "string") else d
def ckSecure(o: []any): bool = len(o) > 3 && (if istype(o[3], "bool") then unbox(o[3], "bool") else o[3] != nil)
def ckHttp(o: []any): bool = len(o) > 4 && istype(o[4], "bool") && unbox(o[4], "bool")
def ckSame(o: []any): int = if len(o) > 5 && istype(o[5], "http.SameSite") then unbox(o[5], "http.SameSite") else 0
def wanted(name: string, value: string, o: []any): string = cookieText(name, value, false, ckStr(o, 1, "/"), ckStr(o, 2, ""), zero("time.Time"), ckAge(o), ckSecure(o), ckHttp(o), ckSame(o), false)

spec Context.SetCookie(ctx, name, value, others)
  req ctx != nil && ctx.ResponseWriter != nil
  mod $hdr[hdrOf(ctx.ResponseWriter)]
  ens wanted(name, value, others) != "" ==> $hdr[hdrOf(ctx.ResponseWriter)] == addCookie(old($hdr[hdrOf(ctx.ResponseWriter)]), wanted(name, value, others))
end
property C20 Context.SetCookie
