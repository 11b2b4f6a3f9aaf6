# sweep.sh "PROPS" "SEEDS" TIER: runs checks from a copy of /verif
c=/tmp/sweep.$$; cp -r /verif $c; cd $c
for s in $2; do for p in $1; do VERIF_SEED=$s timeout 3000 python3 run/check.py $p --tier ${3:-quick} > /tmp/sw_${p}_$s.txt 2>&1; rc=$?; echo "$p seed $s rc $rc $(tail -1 /tmp/sw_${p}_$s.txt | cut -c1-200)"; [ $rc -ne 0 ] && cp /tmp/sw_${p}_$s.txt /tmp/swfail_${p}_$s.txt && mkdir -p /tmp/swrep && cp $c/replays/$p-$s-* /tmp/swrep/ 2>/dev/null; done; done
rm -rf "$c"
