#!/bin/sh
# Nightly compiler that does not present itself as one to build scripts: an old dependency of /repo
# switches on compiler features that no longer exist when it sees a nightly.
N="$(dirname "$(rustup which rustc --toolchain nightly)")/rustc"
if [ "$#" -eq 1 ] && [ "$1" = "--version" ]; then
    "$N" --version | sed 's/-nightly//'
    exit 0
fi
exec "$N" "$@"
