#!/bin/bash
# parses all the specifications (nothing needs to be built: the code is imported from /repo)
cd "$(dirname "$0")/spec" || exit 2
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:$(ls /opt/veriftools/tla/*.jar | tr '\n' ':') tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
exit 0
