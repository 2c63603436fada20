cd /repo && gofmt -l . | sort > /tmp/gf; git diff --stat | tail -1; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json;o=json.load(open('/tmp/o.json'));n=len(o['passed']);print(n);import sys;sys.exit(n!=42)" && git commit -qam "$1"
