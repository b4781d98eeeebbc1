package binding

# ---- C25 ----
spec SetMultipartMemory(n)
  mod V binding.defaultMultipartMemory
  ens defaultMultipartMemory == n
end
property C25 SetMultipartMemory formMultipartBinding.Bind formMultipartBinding.Bind2

# ---- C16 ----
# the results of the decoding and of the validation calls made last
gvar $derr error
gvar $verr error
def isMulti(method: string, ct: string): bool = (method == "POST" || method == "PUT" || method == "PATCH") && ct == "multipart/form-data"
fun binderKind(method: string, ct: string): int = if method == "GET" then 0 else if isMulti(method, ct) then 1 else if ct == "application/json" then 2 else if ct == "application/xml" || ct == "text/xml" then 3 else 0
fun binderOf(method: string, ct: string): Bindinger = if binderKind(method, ct) == 0 then box(zero("formBinding")) else if binderKind(method, ct) == 1 then box(zero("formMultipartBinding")) else if binderKind(method, ct) == 2 then box(zero("jsonBinding")) else box(zero("xmlBinding"))
spec NewBindinger(method, contentType) -> b
  ens [C16] chosen: b == binderOf(method, contentType)
end
ext binding.StructValidater.ValidateStruct(v, o) -> err
  mod $verr
  ens $verr == err
end
spec validate(obj) -> err
  mod $verr
  callassert [C16] binding.StructValidater.ValidateStruct :: v == Validator && o == obj
  ens [C16] always: ncalls("binding.StructValidater.ValidateStruct") == (if Validator == nil then 0 else 1)
  ens [C16] result: err == (if Validator == nil then nil else $verr)
  trust err == $verr
end
# decoding into the object: the values of a form by field names, or one JSON or XML document
spec MapForm(obj, form, formfile, tag) -> err
  # what is bound into exists before
  asm rgen(reflect.ValueOf(obj)) < $rtop
  mod $derr, $rset, $rnil, $relem, $rtop
  mod heap P:map[string]string
  mod heap P:map[string][]string
  mod heap M:string:string#d
  mod heap M:string:string#v
  mod heap M:string:[]string#d
  mod heap M:string:[]string#v#b
  mod heap M:string:[]string#v#o
  mod heap M:string:[]string#v#l
  mod heap M:string:[]string#v#c
  trust err == $derr
  ens [C18] target: obj == nil || reflect.Value.Kind(reflect.ValueOf(obj)) != 22 || old($rnil)[reflect.ValueOf(obj)] ==> err != nil && memSame()
  ens [C18] kind: obj != nil && reflect.Value.Kind(reflect.ValueOf(obj)) == 22 && !old($rnil)[reflect.ValueOf(obj)] && reflect.Value.Kind(old($relem)[reflect.ValueOf(obj)]) != 25 && reflect.Value.Kind(old($relem)[reflect.ValueOf(obj)]) != 21 ==> err != nil && memSame()
  callassert [C18] binding._mapForm :: formStruct == $relem[reflect.ValueOf(obj)] && form == my_form && formfile == my_formfile && tag == my_tag
  callassert [C18] binding.setFormMap2 :: obj == my_obj && form == my_form
end
spec mapFormByTag(ptr, form, tag) -> err
  asm rgen(reflect.ValueOf(ptr)) < $rtop
  mod $derr, $rset, $rnil, $relem, $rtop
  mod heap M:string:string#d
  mod heap M:string:string#v
  mod heap M:string:[]string#d
  mod heap M:string:[]string#v#b
  mod heap M:string:[]string#v#o
  mod heap M:string:[]string#v#l
  mod heap M:string:[]string#v#c
  trust err == $derr
  callassert [C17,C18] binding.mapping :: value == reflect.ValueOf(my_ptr) && istype(setter, "formSource") && unbox(setter, "formSource") == my_form && tag == my_tag
  ens [C18] target: ptr != nil && reflect.Value.Kind(reflect.ValueOf(ptr)) == 22 && old($rnil)[reflect.ValueOf(ptr)] ==> err != nil && memSame()
end
ext binding.setter.TrySet(ts, value, field, key, opt) -> set, err
  req ts != nil && settable(value) && rgen(value) < $rtop
  mod $rset, $rnil, $relem, $rtop
  ens $rtop >= old($rtop)
end
property C18 MapForm
property C17 mapFormByTag mapping tryToSetValue
ext github.com/json-iterator/go.Decoder.Decode(d, v) -> err
  mod $derr
  ens err == $derr
end
ext encoding/xml.Decoder.Decode(d, v) -> err
  mod $derr
  ens err == $derr
end
decl jsonSrc(d: ref): iface
decl xmlSrc(d: ref): iface
ext github.com/json-iterator/go.API.NewDecoder(a, r) -> d
  ens jsonSrc(d) == r
end
ext encoding/xml.NewDecoder(r) -> d
  ens xmlSrc(d) == r
end
# success means decoded, then validated
def bound(dec: int, err: error): bool = (err == nil ==> dec == 1 && $derr == nil && $verr == nil) && (dec == 1 && $derr != nil ==> err == $derr) && (dec == 1 && $derr == nil ==> err == $verr) && (dec == 0 ==> err != nil)
spec formBinding.Bind(b, req, obj) -> err
  req req != nil
  mod http.Request.Form[req], http.Request.PostForm[req], $derr, $verr, $rset, $rnil, $relem, $rtop
  mod heap P:map[string]string
  mod heap P:map[string][]string
  mod heap M:string:string#d
  mod heap M:string:string#v
  mod heap M:string:[]string#d
  mod heap M:string:[]string#v#b
  mod heap M:string:[]string#v#o
  mod heap M:string:[]string#v#l
  mod heap M:string:[]string#v#c
  callassert [C16] binding.MapForm :: obj == my_obj && form == req.Form && tag == "form"
  callassert [C16] binding.validate :: obj == my_obj && $derr == nil
  ens [C16] bound(ncalls("binding.MapForm"), err)
end
spec formBinding.Bind2(b, req, obj) -> err
  req req != nil
  mod http.Request.Form[req], http.Request.PostForm[req], $derr, $verr, $rset, $rnil, $relem, $rtop
  mod heap P:map[string]string
  mod heap P:map[string][]string
  mod heap M:string:string#d
  mod heap M:string:string#v
  mod heap M:string:[]string#d
  mod heap M:string:[]string#v#b
  mod heap M:string:[]string#v#o
  mod heap M:string:[]string#v#l
  mod heap M:string:[]string#v#c
  callassert [C16] binding.mapFormByTag :: ptr == my_obj && form == req.Form && tag == "form"
  callassert [C16] binding.validate :: obj == my_obj && $derr == nil
  ens [C16] bound(ncalls("binding.mapFormByTag"), err)
end
spec formMultipartBinding.Bind(b, req, obj) -> err
  req req != nil
  mod http.Request.Form[req], http.Request.PostForm[req], http.Request.MultipartForm[req], $derr, $verr, $rset, $rnil, $relem, $rtop
  mod heap P:map[string]string
  mod heap P:map[string][]string
  mod heap M:string:string#d
  mod heap M:string:string#v
  mod heap M:string:[]string#d
  mod heap M:string:[]string#v#b
  mod heap M:string:[]string#v#o
  mod heap M:string:[]string#v#l
  mod heap M:string:[]string#v#c
  callassert [C25] net/http.Request.ParseMultipartForm :: maxMemory == binding.defaultMultipartMemory
  callassert [C16] binding.MapForm :: obj == my_obj && form == req.MultipartForm.Value && formfile == req.MultipartForm.File && tag == "form"
  callassert [C16] binding.validate :: obj == my_obj && $derr == nil
  ens [C16] bound(ncalls("binding.MapForm"), err)
end
spec formMultipartBinding.Bind2(b, req, obj) -> err
  asm rgen(reflect.ValueOf(obj)) < $rtop
  req req != nil
  mod http.Request.Form[req], http.Request.PostForm[req], http.Request.MultipartForm[req], $derr, $verr, $rset, $rnil, $relem, $rtop
  mod heap P:map[string]string
  mod heap P:map[string][]string
  mod heap M:string:string#d
  mod heap M:string:string#v
  mod heap M:string:[]string#d
  mod heap M:string:[]string#v#b
  mod heap M:string:[]string#v#o
  mod heap M:string:[]string#v#l
  mod heap M:string:[]string#v#c
  callassert [C25] net/http.Request.ParseMultipartForm :: maxMemory == binding.defaultMultipartMemory
  callassert [C16] binding.mapping :: tag == "form"
  callassert [C16] binding.validate :: obj == my_obj && $derr == nil
  ens [C16] bound(ncalls("binding.mapping"), err)
end
spec headerBinding.Bind(b, req, obj) -> err
  req req != nil
  mod $derr, $verr, $rset, $rnil, $relem, $rtop
  mod heap P:map[string]string
  mod heap P:map[string][]string
  mod heap M:string:string#d
  mod heap M:string:string#v
  mod heap M:string:[]string#d
  mod heap M:string:[]string#v#b
  mod heap M:string:[]string#v#o
  mod heap M:string:[]string#v#l
  mod heap M:string:[]string#v#c
  callassert [C16] binding.MapForm :: obj == my_obj && form == req.Header && tag == "header"
  callassert [C16] binding.validate :: obj == my_obj && $derr == nil
  ens [C16] bound(ncalls("binding.MapForm"), err)
end
spec headerBinding.Bind2(b, req, obj) -> err
  asm rgen(reflect.ValueOf(obj)) < $rtop
  req req != nil
  mod $derr, $verr, $rset, $rnil, $relem, $rtop
  mod heap P:map[string]string
  mod heap P:map[string][]string
  mod heap M:string:string#d
  mod heap M:string:string#v
  mod heap M:string:[]string#d
  mod heap M:string:[]string#v#b
  mod heap M:string:[]string#v#o
  mod heap M:string:[]string#v#l
  mod heap M:string:[]string#v#c
  callassert [C16] binding.mapping :: tag == "header"
  callassert [C16] binding.validate :: obj == my_obj && $derr == nil
  ens [C16] bound(ncalls("binding.mapping"), err)
end
spec queryBinding.Bind(b, req, obj) -> err
  req req != nil && req.URL != nil
  mod $derr, $verr, $rset, $rnil, $relem, $rtop
  mod heap P:map[string]string
  mod heap P:map[string][]string
  mod heap M:string:string#d
  mod heap M:string:string#v
  mod heap M:string:[]string#d
  mod heap M:string:[]string#v#b
  mod heap M:string:[]string#v#o
  mod heap M:string:[]string#v#l
  mod heap M:string:[]string#v#c
  callassert [C16] binding.MapForm :: obj == my_obj && form == net/url.URL.Query(req.URL) && tag == "form"
  callassert [C16] binding.validate :: obj == my_obj && $derr == nil
  ens [C16] bound(ncalls("binding.MapForm"), err)
end
spec queryBinding.Bind2(b, req, obj) -> err
  req req != nil && req.URL != nil
  mod $derr, $verr, $rset, $rnil, $relem, $rtop
  mod heap P:map[string]string
  mod heap P:map[string][]string
  mod heap M:string:string#d
  mod heap M:string:string#v
  mod heap M:string:[]string#d
  mod heap M:string:[]string#v#b
  mod heap M:string:[]string#v#o
  mod heap M:string:[]string#v#l
  mod heap M:string:[]string#v#c
  callassert [C16] binding.mapFormByTag :: ptr == my_obj && form == net/url.URL.Query(req.URL) && tag == "form"
  callassert [C16] binding.validate :: obj == my_obj && $derr == nil
  ens [C16] bound(ncalls("binding.mapFormByTag"), err)
end
spec uriBinding.Bind(b, m, obj) -> err
  mod $derr, $verr, $rset, $rnil, $relem, $rtop
  mod heap P:map[string]string
  mod heap P:map[string][]string
  mod heap M:string:string#d
  mod heap M:string:string#v
  mod heap M:string:[]string#d
  mod heap M:string:[]string#v#b
  mod heap M:string:[]string#v#o
  mod heap M:string:[]string#v#l
  mod heap M:string:[]string#v#c
  callassert [C16] binding.MapForm :: obj == my_obj && form == m && tag == "uri"
  callassert [C16] binding.validate :: obj == my_obj && $derr == nil
  ens [C16] bound(ncalls("binding.MapForm"), err)
end
spec uriBinding.Bind2(b, m, obj) -> err
  mod $derr, $verr, $rset, $rnil, $relem, $rtop
  mod heap P:map[string]string
  mod heap P:map[string][]string
  mod heap M:string:string#d
  mod heap M:string:string#v
  mod heap M:string:[]string#d
  mod heap M:string:[]string#v#b
  mod heap M:string:[]string#v#o
  mod heap M:string:[]string#v#l
  mod heap M:string:[]string#v#c
  callassert [C16] binding.mapFormByTag :: ptr == my_obj && form == m && tag == "uri"
  callassert [C16] binding.validate :: obj == my_obj && $derr == nil
  ens [C16] bound(ncalls("binding.mapFormByTag"), err)
end
spec jsonBinding.Bind(b, req, obj) -> err
  asm json != nil
  mod $derr, $verr
  callassert [C16] github.com/json-iterator/go.Decoder.Decode :: v == my_obj && jsonSrc(d) == req.Body
  callassert [C16] binding.validate :: obj == my_obj && $derr == nil
  ens [C16] bound(ncalls("github.com/json-iterator/go.Decoder.Decode"), err)
end
spec xmlBinding.Bind(b, req, obj) -> err
  mod $derr, $verr
  callassert [C16] encoding/xml.Decoder.Decode :: v == my_obj && xmlSrc(d) == req.Body
  callassert [C16] binding.validate :: obj == my_obj && $derr == nil
  ens [C16] bound(ncalls("encoding/xml.Decoder.Decode"), err)
end
pures net/url.URL.Query
# ---- validation ----
decl structErr(v: *validator.Validate, o: any): error
ext github.com/go-playground/validator/v10.Validate.Struct(v, o) -> err
  ens err == structErr(v, o)
end
# reflect.Struct, Ptr, Slice, Array
fun vErr(v: *validator.Validate, o: any): bool = o == nil || (let x = reflect.ValueOf(o) in
  if reflect.Value.Kind(x) == 22 then $rnil[x] || vErr(v, reflect.Value.Interface($relem[x]))
  else if reflect.Value.Kind(x) == 25 then structErr(v, o) != nil
  else if reflect.Value.Kind(x) == 23 || reflect.Value.Kind(x) == 17 then elErr(v, x, reflect.Value.Len(x))
  else false)
# one of the first n elements is not valid
fun elErr(v: *validator.Validate, x: reflect.Value, n: int): bool = n > 0 && (elErr(v, x, n-1) || vErr(v, reflect.Value.Interface(reflect.Value.Index(x, n-1))))
spec validatorV10.ValidateStruct(v, obj) -> err
  req v != nil
  ens [C16,C18] valid: (err != nil) == vErr(v.validate, obj)
  inv any x: reflect.Value, q: sliceValidateError :: (len(q) > 0) == elErr(v.validate, x, i)
  inv any i: int :: 0 <= i
end
property C18 validatorV10.ValidateStruct
property C16 validatorV10.ValidateStruct NewBindinger validate formBinding.Bind formBinding.Bind2 formMultipartBinding.Bind formMultipartBinding.Bind2 headerBinding.Bind headerBinding.Bind2 queryBinding.Bind queryBinding.Bind2 uriBinding.Bind uriBinding.Bind2 jsonBinding.Bind xmlBinding.Bind
elsewhere C16,C25 MapForm: C18
elsewhere C16,C25 mapFormByTag mapping: C17
