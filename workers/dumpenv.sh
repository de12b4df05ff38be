#!/bin/bash
# dumpenv TOKEN [STATUS]: keep the initial environment and the working directory of this very process
d=$HSV_DUMP/$1.$$
cp /proc/$$/environ "$d.env"
readlink /proc/$$/cwd > "$d.cwd"
touch "$d.done"
case $2 in
f*) n=$(ls "$HSV_DUMP"/$1.*.done | wc -l); [ "$n" -gt "${2#f}" ] && exit 0; exit 3;;
esac
exit ${2:-0}
