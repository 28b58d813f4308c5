#!/bin/bash
h=$1; shift; a=(); for x in "$@"; do case $x in *=*) if [[ $x == -* ]]; then a+=("$x"); else a+=(-P "$x"); fi;; *) a+=("$x");; esac; done; /verif/tools/h.sh $h "${a[@]}" --jobs 8 --timeout ${T:-90}
