#!/bin/bash
# Development tool: the event log hashes of RUNS runs of every scenario, in one process, in many
# processes, without address space randomisation and with another allocator fill: must be equal.
cd "$(dirname "$0")/.."; export VERIF_DIR=$PWD; n=${1:-2000}; t=$(mktemp -d); bad=0
for s in $(.build/sim list | cut -d' ' -f1); do
  .build/sim hash $s 0 $n > $t/a & 
  setarch -R env ASAN_OPTIONS=malloc_fill_byte=170 .build/sim hash $s 0 $n > $t/b &
  (for ((i = 0; i < n; i += n / 20)); do echo $i; done | xargs -P 6 -I{} sh -c ".build/sim hash $s {} $((n / 20)) > $t/c.{}") &
  wait
  sort -n $t/c.* > $t/c; rm -f $t/c.*; sort -n $t/a -o $t/a; sort -n $t/b -o $t/b
  if cmp -s $t/a $t/b && cmp -s $t/a $t/c; then echo "$s: $(wc -l < $t/a) runs, equal"; else echo "$s: DIFFERENT"; bad=1; fi
done
rm -rf "${t:?}"; exit $bad
