#!/bin/bash
# seedtest.sh ID [demo] [check] [tests]: tries one planted bug against /repo's working tree and undoes it again
D=/verif/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
undo() { git -C /repo apply -R $D/patch.diff; }
W=" $* "; [ "$W" = "  " ] && W=" demo check tests "
if [[ $W == *" demo "* ]]; then
  T=$(mktemp -d); cp -a $D/. $T; rm -f $T/*.diff $T/meta.json
  (cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; time timeout 300 bash $T/demo.sh >/tmp/demo.clean 2>&1); echo "demo clean: $?"
fi
git -C /repo apply $D/patch.diff || exit 1
if [[ $W == *" demo "* ]]; then (cd /repo && bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo BUILD FAILED; tail -20 /tmp/seed.build; }; timeout 300 bash $T/demo.sh >/tmp/demo.bug 2>&1; echo "demo with bug: $?"; tail -3 /tmp/demo.bug); rm -r "$T"; fi
if [[ $W == *" tests "* ]]; then bash /opt/vp/test.sh /tmp/seed.test.json >/dev/null 2>&1; python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=json.load(open('/tmp/seed.test.json'))
f=[x for x in b if x not in t['passed']]
print('stable tests not passing:',len(f),f[:3])
P
fi
if [[ $W == *" check "* ]]; then cd /verif; timeout 900 ./check $P quick 2>&1 | cut -c1-400 | tail -6; echo "check exit: ${PIPESTATUS[0]}"; fi
undo
