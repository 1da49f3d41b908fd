# Toolchains: the analyser is built with go1.26 (x/tools needs it); the
# repository is listed with the toolchain it is built with.
unset GOROOT GOFLAGS
export GOBIN_TOOL=/opt/veriftools/go1.26.10/bin/go
export PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS="-mod=mod"
export ZK_GOROOT=/opt/veriftools/go1.23.12
