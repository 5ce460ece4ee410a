#!/bin/bash
# seedtest.sh COPY: build and run the tests of a scratch copy of the repository
W="$1"; T=/tmp/seedvp
mkdir -p $T; cp -a /opt/vp/. $T/
grep -rlI "/repo" $T | xargs sed -i "s#/repo#$W#g; s#/opt/vp/#$T/#g"
sed -i "s#/opt/vp/#$T/#g" $T/*.sh
find "$W/_build" -mindepth 1 -delete 2>/dev/null
bash $T/test.sh /tmp/seedtest.json 2>&1 | tail -3
find $T -mindepth 1 -delete; rmdir $T
