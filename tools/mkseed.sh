#!/bin/bash
# mkseed.sh NAME PROPERTY SRCS NEEDS BREAKS   (development helper; works in the scratch copy /tmp/w/seed)
# Takes the working-tree diff of /tmp/w/seed and /tmp/w/demo.cpp and makes /verif/seeded/NAME, after confirming that the
# demo passes on the clean tree and fails with the change and that the stable tests pass with it; then runs the check on it.
set -u
N=$1 P=$2 SRCS=$3 NEEDS=$4 BREAKS=$5
D=/tmp/w/vw/seeded/$N
S=${SEEDREPO:-/tmp/w/seed}
mkdir -p "$D"
git -C $S diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no diff"; exit 1; }
cp /tmp/w/demo.cpp "$D/demo.cpp"
WIG=""
case " $SRCS " in *WIGNER*) cp /tmp/w/vw/stub/wignerSymbols/wignerSymbols-cpp.h "$D/wignerSymbols-cpp.h"; WIG=1;; esac
SRCS=${SRCS/WIGNER/}
python3 - "$D" "$P" "$NEEDS" "$BREAKS" <<'PY'
import json,sys
d,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
PY
cat > "$D/demo.sh" <<EOF
#!/bin/bash
# Run in the repository after its build: exit 0 if the behaviour is right, nonzero otherwise.
set -e
here=\$(cd "\$(dirname "\$0")" && pwd)
repo=\$PWD
t=\$(mktemp -d)
trap 'rm -rf "\$t"' EXIT
${WIG:+mkdir -p "\$t/inc/wignerSymbols"; cp "\$here/wignerSymbols-cpp.h" "\$t/inc/wignerSymbols/wignerSymbols-cpp.h"}
S="\$repo/pairinteraction"
F="-std=c++17 -O1 -w -fopenmp -DEIGEN_USE_BLAS -DEIGEN_USE_LAPACKE -DFMT_HEADER_ONLY=1 -DWITH_GSL -Dlapack_complex_double=std::complex<double> -Dlapack_complex_float=std::complex<float>"
I="-I\$S -I\$repo/_build/pairinteraction -I\$t/inc -isystem /usr/include/eigen3"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
n=0
for f in "\$here/demo.cpp"$(for s in $SRCS; do printf ' "$S/%s"' $s; done); do
  n=\$((n+1)); g++ \$F \$I -c "\$f" -o "\$t/\$n.o" &
  pids="\$pids \$!"
done
for p in \$pids; do wait \$p; done
g++ -fopenmp "\$t"/*.o -o "\$t/demo" -lopenblas -llapacke -lsqlite3 -lgsl -lgslcblas -lboost_serialization -lboost_program_options -lboost_filesystem -lpthread
cd "\$t"
timeout 250 ./demo
EOF
chmod +x "$D/demo.sh"
(cd $S && bash "$D/demo.sh" >/tmp/w/demo.patched 2>&1); a=$?
git -C $S stash -q
(cd $S && bash "$D/demo.sh" >/tmp/w/demo.clean 2>&1); b=$?
git -C $S stash pop -q
# stable tests in the copy: the scripts name /repo, so use them on copies of the scripts
sed "s#/repo#$S#g" /opt/vp/build.sh > /tmp/w/build_seed.sh; sed "s#/repo#$S#g; s#/opt/vp/build.sh#/tmp/w/build_seed.sh#" /opt/vp/test.sh > /tmp/w/test.sh
bash /tmp/w/test.sh /tmp/w/t.json >/tmp/w/test.log 2>&1
t=$(python3 -c "import json;d=json.load(open('/tmp/w/t.json'));print(len(d['passed']),len(d['failed']))")
echo "demo patched rc=$a ($(tail -1 /tmp/w/demo.patched | cut -c1-150)) clean rc=$b ($(tail -1 /tmp/w/demo.clean | cut -c1-150)) tests passed/failed: $t"
cd /tmp/w/vw; VERIF_REPO=$S VERIF_BUILD=${SEEDBUILD:-/tmp/w/sb} timeout 900 python3 run.py $P 2>/dev/null | grep -v KNOWN | cut -c1-300 | tail -2
