#!/bin/sh
# mkseed.sh ID : (re)assembles the shared parts of /verif/seeded/ID
d=/verif/seeded/$1; v=/verif
mkdir -p $d/kit/src
cp -R $v/harness/vendor $v/harness/Cargo.toml $v/harness/Cargo.lock $v/harness/rustc-wrapper.sh $d/kit/
cp $v/harness/src/vm.rs $v/harness/src/model.rs $d/kit/src/
cp $v/tools/kit/kit.rs $d/kit/src/main.rs
cp $v/tools/kit/demo.sh $d/demo.sh; chmod +x $d/demo.sh
