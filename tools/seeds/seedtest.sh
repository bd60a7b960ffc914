#!/bin/bash
# development aid: seedtest.sh ID... confirms planted bugs in a scratch copy: builds, demo passes without and fails with, stable tests pass
cd /verif/seeded
for id in "$@"; do
  d=/tmp/seedcopy-$id; git clone -q /repo $d
  ( cd $d
    bash /verif/seeded/$id/demo.sh > /tmp/sd/$id.base 2>&1; a=$?
    git apply /verif/seeded/$id/patch.diff || { echo "$id: DOES NOT APPLY"; exit; }
    go build ./... || { echo "$id: DOES NOT BUILD"; exit; }
    bash /verif/seeded/$id/demo.sh > /tmp/sd/$id.bug 2>&1; b=$?
    unshare -Urn bash -c "ip link set lo up; timeout 600 go test -vet=off -count=1 ." > /tmp/sd/$id.tests 2>&1; t=$?
    echo "$id: demo unchanged=$a changed=$b tests=$t" )
  rm -r -- "/tmp/seedcopy-$id"
done
