cd /verif
for d in ${@:-$(ls seeded)}; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  echo "##### $id $p"; tools/try.sh seeded/$id/patch.diff $p 2>&1
done
