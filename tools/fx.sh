# usage: fx.sh "message"  -- build, test, commit
cd /repo
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { grep -n "error" /tmp/b.log; exit 1; }
grep -n "warning" /tmp/b.log
bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1
python3 -c "
import json;o=json.load(open('/tmp/o.json'));print(o['failed'][:10]); import sys; sys.exit(1 if o['failed'] or len(o['passed'])!=2156 else 0)" || exit 1
git commit -qam "$1" && git log --oneline | head -1
