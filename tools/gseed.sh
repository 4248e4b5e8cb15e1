#!/bin/bash
# gseed.sh ID PROP NEEDS BREAKS <<edits : a seeded bug in the G-code generator, demonstrated by tools/gdemo.go
d=/verif/seeded/$1; mkdir -p $d
{ cat /verif/tools/gdemo.go; echo; echo "const property = \"$2\""; } > $d/demo.go
exec /verif/tools/mkseed.sh "$@"
