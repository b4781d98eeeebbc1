package water

# C15: URL parameters
spec Params.String(p, name) -> r
  pan [C15] !(name in dom(p))
  ens [C15] r == p[name]
end
spec Context.Param(ctx, key) -> r
  req ctx != nil
  pan [C14,C15] !(key in dom(ctx.Params))
  ens [C14,C15] r == ctx.Params[key]
end
spec Params.Bool(p, name) -> v, err
  pan [C15] !(name in dom(p))
  ens [C15] v == fst(strconv.ParseBool(p[name])) && err == snd(strconv.ParseBool(p[name]))
end
spec Params.Int(p, name) -> v, err
  pan [C15] !(name in dom(p))
  ens [C15] v == fst(strconv.Atoi(p[name])) && err == snd(strconv.Atoi(p[name]))
end
spec Params.Int64(p, name) -> v, err
  pan [C15] !(name in dom(p))
  ens [C15] v == fst(strconv.ParseInt(p[name], 10, 64)) && err == snd(strconv.ParseInt(p[name], 10, 64))
end
spec Params.Uint(p, name) -> v, err
  pan [C15] !(name in dom(p))
  ens [C15] v == fst(strconv.ParseUint(p[name], 10, 64)) && err == snd(strconv.ParseUint(p[name], 10, 64))
end
spec Params.Uint64(p, name) -> v, err
  pan [C15] !(name in dom(p))
  ens [C15] v == fst(strconv.ParseUint(p[name], 10, 64)) && err == snd(strconv.ParseUint(p[name], 10, 64))
end
spec Params.Float64(p, name) -> v, err
  pan [C15] !(name in dom(p))
  ens [C15] v == fst(strconv.ParseFloat(p[name], 64)) && err == snd(strconv.ParseFloat(p[name], 64))
end
spec Params.MustBool(p, name) -> v
  pan [C15] !(name in dom(p))
  ens [C15] v == fst(strconv.ParseBool(p[name]))
end
spec Params.MustInt(p, name) -> v
  pan [C15] !(name in dom(p))
  ens [C15] v == fst(strconv.Atoi(p[name]))
end
spec Params.MustInt64(p, name) -> v
  pan [C15] !(name in dom(p))
  ens [C15] v == fst(strconv.ParseInt(p[name], 10, 64))
end
spec Params.MustUint(p, name) -> v
  pan [C15] !(name in dom(p))
  ens [C15] v == fst(strconv.ParseUint(p[name], 10, 64))
end
spec Params.MustUint64(p, name) -> v
  pan [C15] !(name in dom(p))
  ens [C15] v == fst(strconv.ParseUint(p[name], 10, 64))
end
spec Params.MustFloat64(p, name) -> v
  pan [C15] !(name in dom(p))
  ens [C15] v == fst(strconv.ParseFloat(p[name], 64))
end
property C15 Params.String Context.Param Params.Bool Params.Int Params.Int64 Params.Uint Params.Uint64 Params.Float64
  Params.MustBool Params.MustInt Params.MustInt64 Params.MustUint Params.MustUint64 Params.MustFloat64
