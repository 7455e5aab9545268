#!/bin/bash
# hookldb.sh DIR [MODFILE]: makes a copy of the LevelDB library in DIR with a
# hook before each read, a hook that makes operations fail, and DIR/go.mod to
# build the harness with it. Run in mc/.
set -e
src="$(go list -m -modfile="${2:-go.mod}" -f '{{.Dir}}' github.com/syndtr/goleveldb)"
mkdir -p "$1"
cp -r "$src" "$1/goleveldb"
chmod -R u+w "$1/goleveldb"
sed -i -E 's/^func \(db \*DB\) (Get|Has)\(key \[\]byte, .*\{$/&\n\tif ReadHook != nil {\n\t\tReadHook(key)\n\t}\n\tif Fail != nil {\n\t\tif err = Fail("\1"); err != nil {\n\t\t\treturn\n\t\t}\n\t}/' "$1/goleveldb/leveldb/db.go"
sed -i -E 's/^func \(db \*DB\) (Write)\(.*\{$/&\n\tif Fail != nil {\n\t\tif err := Fail("\1"); err != nil {\n\t\t\treturn err\n\t\t}\n\t}/' "$1/goleveldb/leveldb/db_write.go"
cat >"$1/goleveldb/leveldb/hook.go" <<'G'
package leveldb

// ReadHook is called before each read.
var ReadHook func(key []byte)

// Fail is asked before each operation whether it fails.
var Fail func(op string) error
G
cp "${2:-go.mod}" "$1/go.mod"
cp "$(dirname "${2:-go.mod}")/go.sum" "$1/go.sum"
echo "replace github.com/syndtr/goleveldb => $1/goleveldb" >>"$1/go.mod"
