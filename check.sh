#!/bin/bash
# check.sh PROPERTY quick|thorough : exit 0 = held on everything explored, 1 = violation, 2 = no answer
cd /verif || exit 2
(flock 9; bash /verif/build.sh) 9>/verif/.build.lock || exit 2
exec /verif/sim/target/debug/amqpsim check "$1" --tier "$2"
