#!/bin/bash
# usage: tool/mkseed.sh ID PROP 'needs' 'breaks'   (takes the uncommitted change of /repo as the patch, then undoes it)
id=$1; S=/verif/seeded/$id; mkdir -p $S
git -C /repo diff > $S/patch.diff; git -C /repo checkout -- .
python3 - "$S" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
[ -f $S/demo.sh ] || cat > $S/demo.sh <<'D'
#!/bin/bash
# run in /repo after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
R=$PWD
g++ -std=c++14 -g -O1 -w -fno-access-control -I$R/_build -I$R/src/Interface -I$R/src/Optimization -I$R/src/LinAlg -I$R/src/Utils -I$R/src/ExecBackends \
  -I$R/src/_Internals -I$R/src/Drivers/Dense -I$R/src/Drivers/MDS -I$R/src/Drivers/PriDec $(mpicxx --showme:compile) "$d/demo.cpp" -o "$t/demo" \
  -L$R/_build/src -lhiop -Wl,-rpath,$R/_build/src $(mpicxx --showme:link) -llapack -lblas || exit 98
cd "$t"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_plm_rsh_agent=/bin/false
timeout 120 "$t/demo"
D
