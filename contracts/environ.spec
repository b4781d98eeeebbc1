package water

# C23: the request environment is a write-once map
spec Environ.Has(m, name) -> r
  ens [C23] r == (name in dom(m))
end
spec Environ.Get(m, name) -> r
  pan [C23] !(name in dom(m))
  ens [C23] r == m[name]
end
spec Environ.Set(m, name, v)
  req m != nil
  mod map(m)
  pan [C23] name in old(dom(m))
  ens [C23] mapval(m) == put(old(mapval(m)), name, v)
  onpanic [C23] mapval(m) == old(mapval(m))
end
spec Environ.GetBool(m, name) -> r
  pan [C23] !(name in dom(m) && istype(m[name], "bool"))
  ens [C23] r == unbox(m[name], "bool")
end
spec Environ.GetInt(m, name) -> r
  pan [C23] !(name in dom(m) && istype(m[name], "int"))
  ens [C23] r == unbox(m[name], "int")
end
spec Environ.GetInt64(m, name) -> r
  pan [C23] !(name in dom(m) && istype(m[name], "int64"))
  ens [C23] r == unbox(m[name], "int64")
end
spec Environ.GetUint(m, name) -> r
  pan [C23] !(name in dom(m) && istype(m[name], "uint"))
  ens [C23] r == unbox(m[name], "uint")
end
spec Environ.GetUint64(m, name) -> r
  pan [C23] !(name in dom(m) && istype(m[name], "uint64"))
  ens [C23] r == unbox(m[name], "uint64")
end
spec Environ.GetFloat64(m, name) -> r
  pan [C23] !(name in dom(m) && istype(m[name], "float64"))
  ens [C23] r == unbox(m[name], "float64")
end
spec Environ.GetString(m, name) -> r
  pan [C23] !(name in dom(m) && istype(m[name], "string"))
  ens [C23] r == unbox(m[name], "string")
end
spec Context.Set(c, name, value)
  req c != nil && c.Environ != nil
  mod map(c.Environ)
  pan [C23] name in old(dom(c.Environ))
  ens [C23] mapval(c.Environ) == put(old(mapval(c.Environ)), name, value)
  onpanic [C23] mapval(c.Environ) == old(mapval(c.Environ))
end
spec Context.Get(c, name) -> r
  req c != nil
  pan [C23] !(name in dom(c.Environ))
  ens [C23] r == c.Environ[name]
end
spec Context.GetMaybe(c, name) -> r, ok
  req c != nil
  ens [C23] ok == (name in dom(c.Environ))
  ens [C23] ok ==> r == c.Environ[name]
  ens [C23] !ok ==> r == nil
end
property C23 Environ.Has Environ.Get Environ.Set Environ.GetBool Environ.GetInt Environ.GetInt64 Environ.GetUint Environ.GetUint64 Environ.GetFloat64 Environ.GetString Context.Set Context.Get Context.GetMaybe
