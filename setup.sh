#!/bin/bash
# Nothing has to be built: checks that the pre-installed tools are there and that every
# specification module parses.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
test -x /opt/venv/bin/python
/opt/venv/bin/python -c "import jax, jaxlie, sksparse"
cd spec
for m in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
        tla2sany.SANY "$m" > /dev/null || { echo "cannot parse $m"; exit 1; }
done
echo "setup ok"
