# development aid: mut.sh SEED MODULE [patterns]: contracts on a scratch copy with the planted bug
d=$(mktemp -d /tmp/mut.XXXX); cp -a /repo/src $d/src; (cd $d && git init -q . && git apply /verif/seeded/$1/patch.diff) || echo PATCH FAILED
s=$1; shift; cd /verif; timeout 900 python3-vt contracts/t.py -s$d/src/razorback "$@" | grep -vE "ok +\{'proved': [0-9]+\} " | grep -v "^ *^" | cut -c1-350 > $d/out; echo "== $s: $(grep -c ' refuted ' $d/out) refuted, $(grep -c ' unknown ' $d/out) unknown, $(grep -cE ' (unsupported|budget|internal|vacuous) ' $d/out) undecided"; head -${HEAD:-5} $d/out
rm -rf "$d"
