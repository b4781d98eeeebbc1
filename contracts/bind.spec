package water

# ---- C16: Context.Bind ----
gvar $berr error
ext binding.Bindinger.Bind(bb, br, bo) -> err
  mod http.Request.Form[br], http.Request.PostForm[br], http.Request.MultipartForm[br], $berr
  maypanic
  ens err == $berr
end
def usesForm(b: any): bool = b != box(binding.JSON) && b != box(binding.XML)
spec Context.BindWith(ctx, obj, b) -> err
  req formOK(ctx) && b != nil
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request], $berr, $derr, $verr
  maypanic
  callassert [C16] binding.Bindinger.Bind :: bb == b && br == ctx.Request && bo == obj
  callassert [C16] binding.Bindinger.Bind :: usesForm(b) ==> ctx.parsedParams
  ens [C16] once: ncalls("binding.Bindinger.Bind") == 1
  ens [C16] result: err == $berr
end
spec Context.Bind(ctx, obj) -> err
  req formOK(ctx)
  mod Context.parsedParams[ctx], http.Request.Form[ctx.Request], http.Request.PostForm[ctx.Request], http.Request.MultipartForm[ctx.Request], $berr, $derr, $verr
  maypanic
  callassert [C16] water.Context.BindWith :: ctx == my_ctx && obj == my_obj && b == binderOf(ctx.Request.Method, mediaType(reqHdr(ctx.Request, "Content-Type")))
  ens [C16] once: ncalls("water.Context.BindWith") == 1
  ens [C16] result: err == $berr
end
property C16 Context.Bind Context.BindWith
