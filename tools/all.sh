# allc.sh SEED...
cd /verif
for s in "$@"; do for i in $(seq 1 29); do id=$(printf C%02d $i); VERIF_SEED=$s ./run.sh $id > /tmp/run.$id.$s.log 2>&1; rc=$?; [ $rc = 0 ] || { echo "$s $id rc=$rc"; grep -v "^  " /tmp/run.$id.$s.log | cut -c1-400 | tail -8; }; done; echo "seed $s done"; done
