package water

# C12: the middleware installed in front of the handlers. It must not panic itself (no maypanic),
# whatever the handlers after it do.
spec Recovery() -> f
  closure (ctx)
    req chainOK(ctx)
    req [C07] running(ctx)
    mod Context.Environ[ctx], Context.Params[ctx], Context.Request[ctx], Context.index[ctx], Context.written[ctx], Context.status[ctx], Context.parsedParams[ctx]
    mod $last[ctx], $wc, $body, $commit, $hdr
    ens chainOK(ctx)
    ens old(ctx.written) ==> ctx.written && ctx.status == old(ctx.status)
    callassert [C12] water.Context.WriteHeader :: code == (if npanics("water.Context.Next") == 1 then 500 else 200)
    ens [C12] once: ncalls("water.Context.Next") == 1
    ens [C12] noother: ncalls("water.Handler.ServeHTTP") == 0
    ens [C12] answered: ctx.written
    ens [C07] ctx.index >= old(ctx.index) && $last[ctx] >= old($last[ctx]) && $last[ctx] <= ctx.index + 1
end
property C12 Recovery Context.WriteHeader
