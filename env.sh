# the toolchain the checks use; nothing is fetched
[ -d /opt/veriftools/go1.25.14/bin ] && export PATH=/opt/veriftools/go1.25.14/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off
