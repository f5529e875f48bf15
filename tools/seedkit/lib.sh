# Helpers of the demonstration: run with the repository as current directory.
set -u
shopt -s lastpipe
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
B=$repo/bin
d=$(mktemp -d) || exit 9
trap 'rm -rf "$d"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off HOME="${HOME:-/root}"
fail() { echo "FAIL: $*"; exit 1; }
traces() { cat > "$d/traces"; }
stms() { "$B/rtcg-read-traces" "$d/traces" > "$d/tests.json" && "$B/rtcg-make-stms" "$d/tests.json" > "$d/stms.json"; }
gen() { mkdir -p "$d/in"; printf '<rtcg-gen>%s</rtcg-gen>' "$1" > "$d/in/cfg.xml"; "$B/rtcg-gen" -output "$d/out" "$d/in/cfg.xml" "$d/stms.json"; }
rosbuild() { g++ -std=c++11 -I"$here" -I"$d/out/ros/src/rtcg" -I"$d/out/ros/src/convert" -o "$d/$1.ros" "$d/out/ros/src/$1/src/main.cpp" "$d/out/ros/src/rtcg/rtcg.cpp" ${2:-}; }
# ros TEST: runs the ROS test on the events on standard input; st is its exit status.
ros() { st=0; timeout 60 "$d/$1.ros" > "$d/sent" 2> "$d/log" || st=$?; }
animbuild() { g++ -std=c++11 -I"$d/out/animate/src/rtcg" -I"$d/out/animate/src/convert" -o "$d/$1.anim" "$d/out/animate/src/$1/src/main.cpp" "$d/out/animate/src/rtcg/rtcg.cpp" ${2:-}; }
anim() { st=0; timeout 60 "$d/$1.anim" > "$d/sent" 2> "$d/log" || st=$?; }
outcome() { sed -n '/Final outcomes/,$p' "$d/log" | sed -n "s/^.*  $1 = //p"; }
# goprog: builds and runs the Go program on standard input as a command of the repository's module.
goprog() {
  cat > "$d/main.go"
  printf '{"Replace": {"%s/cmd/zz-demo/main.go": "%s/main.go"}}' "$repo" "$d" > "$d/overlay.json"
  go build -overlay "$d/overlay.json" -o "$d/prog" ./cmd/zz-demo || return 1
  "$d/prog"
}
