#!/bin/bash
# gen_old.sh COMMIT: freezes the published release that C25 pairs the current
# tree with in mc/old, and copies the simulation for it.
set -e
cd "$(dirname "$0")/../mc"
if [ -n "$1" ]; then
  rm -rf old; mkdir old
  git -C /repo archive "$1" db crypto tree | tar -x -C old
  find old -name '*_test.go' -delete; rm -rf old/tree/transparency/test old/tree/*/testdata
  find old -name '*.go' | xargs sed -i 's#github.com/Bren2010/katie#katiemc/old#g'
fi
for p in sim toy codecs ldb; do
  rm -rf old$p; mkdir old$p; cp $p/*.go old$p
  sed -i "s#github.com/Bren2010/katie#katiemc/old#g; s#katiemc/toy#katiemc/oldtoy#g; s#^package $p#package old$p#; s#\btoy\.#oldtoy.#g" old$p/*.go
done
sed 's#new\([A-Z]\)#old\1#g; s#^\t"katiemc/\(sim\|toy\|ldb\|codecs\)"#\t\1 "katiemc/old\1"#; s#github.com/Bren2010/katie#katiemc/old#' c25/newside.go >c25/oldside.go
gofmt -w c25/oldside.go
gofmt -l old oldsim oldtoy
