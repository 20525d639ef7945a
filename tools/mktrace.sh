#!/bin/bash
# mktrace.sh MODULE: the trace specification of MODULE (MODULE defines NewState, Guards, Apply)
cd "$(dirname "$0")/../spec"
for m in "$@"; do
sed -e "s/EosTrace/${m}Trace/; s/against Eos\./against $m./; s/EXTENDS Eos,/EXTENDS $m,/" EosTrace.tla > ${m}Trace.tla
cp EosTrace.cfg ${m}Trace.cfg
done
