#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, jsonschema
AI='abstract interpretation of the Go SSA form and the assembly (affine and byte-provenance domains, inductive loop summaries)'
NOTE=('Every return path and every access of the analysed source is an obligation; nothing is executed and no solver is used. '
      'Trusted: the analyser (its transfer functions, the table of modelled instructions and library functions), the Go toolchain and the CPU.')
C={}
def c(id,tech,note): C[id]=(tech,note)
STREAM='Decides the content of every return value for every count and all integer values, per outcome of the CPU feature tests. Where a rewritten loop has no inductive summary the verdict falls back to every count up to a stated bound plus a search for size-dependent constants beyond it (the evidence says which). '
c('C01',AI,STREAM+NOTE)
c('C02',AI,STREAM+NOTE)
c('C03',AI+'; composition of the encoder and decoder contracts','Decided through a sufficient condition: all six encoders yield the canonical stream and all six decoders invert every well-formed stream. '+STREAM+NOTE)
c('C04',AI,STREAM+NOTE)
c('C05',AI,STREAM+NOTE)
c('C06',AI,'All integer values; byte lengths symbolic or all 4^n combinations, assembly for all 65536. '+NOTE)
c('C07',AI,'All control values and data bytes; assembly for all 65536. '+NOTE)
c('C08',AI,'Counts 0 to 4 and any larger count, exact-size buffers. '+NOTE)
c('C09',AI+'; access footprints of the assembly as obligations at each call site',STREAM+'Slices are exactly as large as the property allows. '+NOTE)
c('C10',AI+'; bounds, panic and termination obligations',STREAM+NOTE)
c('C11','value-flow effect analysis (no store through read-only memory) and write-frame obligations of the abstract interpretation',NOTE)
c('C12','value-flow ownership (escape and provenance) analysis over the SSA form','Flow- and field-insensitive may-analysis: a report may be a path that cannot run, a silence means no path. '+NOTE)
c('C13','effect analysis over the call graph (who may write package-level memory, sources of nondeterminism)','A may-analysis of everything reachable from the exported functions. '+NOTE)
c('C14','constant evaluation of the table initialisers by abstract interpretation, compared row by row with the definition','All rows of all tables and all arguments of the size helpers. '+NOTE)
c('C15','path-condition entailment of CPU feature tests at every reachable assembly call, instruction-to-extension table','Trusts the table that maps instructions to extensions. '+NOTE)
c('C16','type-check of every package for every architecture, exported-API comparison, call-graph and path analysis of the non-amd64 entry points',NOTE)
c('C17','assembly lint with dataflow: frame layout against go/types, register provenance, write effects','All routines and all instructions. '+NOTE)
c('C18','abstract interpretation of the generators; the emitted rows and instructions are compared with the committed artefacts',NOTE)
c('C19','interval analysis of the random ranges, value flow of the difference loop, structural contract of the varint loops',NOTE)
c('C20','path-sensitive dataflow of text (ropes with provenance, backing-array aliasing, symbolic files) from main','Every path of the tool, with a failing outcome for every file operation. Line filters built from something other than prefix tests are not judged. '+NOTE)
c('C21',AI+' of histories: mode function, entry point, mode function; assembly calls counted on every path','Long lists are represented by length 256 for the amount of accelerated work; everything else holds for every count. '+NOTE)
c('C22',AI+' of every allocation site, classified heap or stack by the compiler\'s own escape analysis','Sizes are those asked for; rounding up to an allocator size class is not counted. Allocation behaviour is that of the installed compiler. '+NOTE)
c('C23',AI+' with a symbolic count of elementary steps carried through loop summaries','The assembly routines count as one step each (they are straight-line code, checked by C17). '+NOTE)
c('C24','path-sensitive dataflow of text, paths split by the value of the write flag','Every path of the tool, with a failing outcome for every file operation; failures of standard output are not judged. '+NOTE)
import os,re
src=open('/verif/analyzer/props.go').read()
for f in os.listdir('/verif/analyzer'):
    if f.endswith('.go'): src+=open('/verif/analyzer/'+f).read()
claimed=[i for i in sorted(C) if 'prop("%s"'%i in src]
NA={}
m={'version':1,'setup_cmd':'./run.sh','checks':[],'not_applicable':[{'property':i,'reason':NA.get(i,'Check under construction; not claimed yet.')} for i in sorted(C) if i not in claimed],
   'notes':'No hooks in /repo. Four fix: commits in /repo, listed in known_findings.txt.'}
for i in claimed:
    m['checks'].append({'property':i,'quick_cmd':'./run.sh %s quick'%i,'thorough_cmd':'./run.sh %s thorough'%i,'technique':C[i][0],'level':'other','level_note':C[i][1]})
if not m['not_applicable']: m['not_applicable']=[]
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
open('/verif/MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')
print(len(claimed),'claimed')
