SH=["shims/"+x for x in ["sp-std","sp-core","sp-arithmetic","sp-weights","sp-runtime","sp-io","xcm","frame-support"]]
CRATES=["derived/virto-common"]+SH
DEPS='''virto-common = { path = "derived/virto-common", features = ["std", "alloc", "nightly", "runtime"] }
xcm = { path = "shims/xcm" }
sp-runtime = { path = "shims/sp-runtime" }
parity-scale-codec = { version = "=3.6.12", features = ["derive", "max-encoded-len"] }
'''
