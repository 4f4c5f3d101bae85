#!/bin/bash
# trydemo.sh ID...: runs demos against a copy of /repo without and with the patch (headers only; no library rebuild)
[ -d /tmp/laneD ] || cp -a /repo /tmp/laneD
cd /tmp/laneD; git checkout -q -- .; git pull -q --ff-only /repo HEAD
for i in $@; do S=/verif/seeded/$i
 bash $S/demo.sh >/tmp/d0.$i 2>&1; a=$?
 git apply $S/patch.diff; bash $S/demo.sh >/tmp/d1.$i 2>&1; b=$?; git checkout -q -- .
 echo "$i clean=$a patched=$b $( [ $a != 0 ] && tr -d "\033\r" </tmp/d0.$i | sed "s/\[2K//g" | tail -c 400) $(tr -d "\033\r" </tmp/d1.$i | sed "s/\[2K//g" | tail -c 200)"
done
