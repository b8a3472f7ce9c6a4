#!/bin/sh
# Runs a driver in a network of its own in which the machine has the addresses 10.0.0.1..91 and fd00::1..91 (loopback).
# With no argument it only tells whether such a network can be made.
U="unshare -n"
$U true 2>/dev/null || U="unshare -Urn"
exec $U sh -c 'ip link set lo up || exit 97
for k in $(seq 1 91); do echo "address add 10.0.0.$k/32 dev lo"; echo "address add fd00::$k/128 dev lo nodad"; done | ip -batch - || exit 97
[ $# -eq 0 ] || exec "$@"' ownnet "$@"
