#!/bin/bash
NR=/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu
export LD_LIBRARY_PATH=$NR/lib
case " $* " in
 *" --version "*|*" -V "*|*" -vV "*) $NR/bin/rustc "$@" | sed 's/-nightly//';;
 *) exec $NR/bin/rustc "$@";;
esac
