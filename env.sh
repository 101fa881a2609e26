if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOPROXY=off GOTOOLCHAIN=local
