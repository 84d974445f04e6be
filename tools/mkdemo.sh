# mk ID PKG(dir relative to repo) PROP needs breaks ; demo.go on stdin
id=$1; pkg=$2; prop=$3; needs=$4; breaks=$5; race=$6
d=/verif/seeded/$id; mkdir -p $d; cat > $d/demo.go
mod=.; rel=$pkg; case $pkg in types/uuid) mod=types/uuid; rel=.;; esac
sed -e "s#PKG#$pkg#; s#MOD#$mod#; s#REL#$rel#; s#RACE#$race#" /verif/tools/demo_tmpl.sh > $d/demo.sh
python3 - "$d" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
python3 /verif/tools/mkseed.py $id /tmp/sc
