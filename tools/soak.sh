# usage: SEEDS="1 2 3" [VERIF_SCALE=n] bash tools/soak.sh   all checks on several seeds; prints those not quiet
cd /verif; . /opt/vp/env.sh
for s in $SEEDS; do for p in $(seq -w 1 22); do
 out=$(VERIF_SEED=$s timeout 900 bash run.sh P$p 2>&1); rc=$?
 if [ $rc != 0 ]; then echo "seed $s P$p rc $rc"; echo "$out" | tail -5 | cut -c1-1500; fi
done; echo "seed $s done"; done
