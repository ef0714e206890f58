# sourced by demo.sh with cwd = the repository: compiles demo.cc with the sources given in SRCS, runs it
D="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
R="$(pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
FL="-std=gnu++17 -march=native -include cstdint -O1 -w -I$R/src -I$R/secure-computation-library/include -I$D"
tp_sources() { find src/tp secure-computation-library/src -name '*.cc'; }
scl_sources() { find secure-computation-library/src -name '*.cc'; }
build_demo() {  # build_demo SOURCES...
  export FL T R
  { echo "$D/demo.cc"; for s in "$@"; do echo "$R/$s"; done; } | xargs -P 8 -I{} bash -c 'g++ $FL -c "{}" -o "$T/$(echo "{}" | md5sum | cut -c1-12).o"' || { echo "demo does not compile"; exit 99; }
  g++ "$T"/*.o -o "$T/demo" -lpthread || { echo "demo does not link"; exit 99; }
}
run_demo() { timeout "${1:-120}" "$T/demo"; }
