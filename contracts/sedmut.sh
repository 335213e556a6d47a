# development aid: sedmut.sh FILE SED-EXPR MODULE [patterns]: contracts on a scratch copy with a one-line change
d=$(mktemp -d /tmp/mut.XXXX); cp -a /repo/src $d/src; sed -i "$2" $d/src/razorback/$1; diff -r /repo/src $d/src | head -6
shift 2; cd /verif; timeout 900 python3-vt contracts/t.py -s$d/src/razorback "$@" | grep -vE "ok +\{'proved': [0-9]+\} " | cut -c1-250 > $d/out; echo "== $(grep -c ' refuted ' $d/out) refuted, $(grep -c ' unknown ' $d/out) unknown, $(grep -cE ' (unsupported|budget|internal|vacuous) ' $d/out) undecided"; head -${HEAD:-5} $d/out
rm -rf "$d"
