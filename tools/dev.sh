# dev helper: build and run checks into /tmp/vr
. /verif/tools/env.sh
