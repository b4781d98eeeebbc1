package water

# ---- C25: options and the multipart memory limit ----
spec WithStaticRouter(enable) -> f
  closure (o)
    req o != nil
    mod options.EnableStaticRouter[o]
    ens [C25,C08] o.EnableStaticRouter == enable
end
spec WithMaxMultipartMemory(max) -> f
  closure (o)
    req o != nil
    mod options.MaxMultipartMemory[o]
    ens [C25] o.MaxMultipartMemory == max
end
property C25 WithStaticRouter WithMaxMultipartMemory
