#!/bin/bash
# Builds the pybind11 modules of /repo/cpp as they are now into /verif/.build/lib (never into /repo).
# Incremental: seeded once from the objects of /opt/dt-build when they are there.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
B=$V/.build
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
if [ ! -d "$B/src" ]; then
    mkdir -p "$B/src" "$B/lib"
    if [ -d /opt/dt-build/src ]; then
        cp -a /opt/dt-build/src/. "$B/src/"
        cp -a /opt/dt-build/*.o /opt/dt-build/*.o.d /opt/dt-build/*.so "$B/" 2>/dev/null
    fi
fi
if [ ! -d "$B/dijitso" ]; then
    mkdir -p "$B/dijitso"
    [ -d /opt/dt-build/dijitso ] && cp -a /opt/dt-build/dijitso/. "$B/dijitso/"
fi
mkdir -p "$B/lib" "$B/mpl"
# By content, not by time.
rsync -rc --delete --include='*.cpp' --include='*.h' --exclude='*' /repo/cpp/ "$B/src/" || exit 2
cd "$B" || exit 2
make -k -j8 -f /opt/vp/solibs.mk all >"$B/make.log" 2>&1
rc=$?
suffix=$(/usr/bin/python3-config --extension-suffix)
for m in $(make -pqr -f /opt/vp/solibs.mk all 2>/dev/null | sed -n 's/^MODULES := //p'); do
    dest=$B/lib/$m$suffix
    if [ -f "$m.so" ] && make -q -f /opt/vp/solibs.mk "$m.so"; then
        cmp -s "$m.so" "$dest" || { rm -f "$dest"; cp "$m.so" "$dest"; }
    else
        rm -f "$dest"
        rc=1
    fi
done
[ $rc -eq 0 ] || { tail -n 30 "$B/make.log" >&2; echo "build of /repo/cpp failed" >&2; }
exit $rc
