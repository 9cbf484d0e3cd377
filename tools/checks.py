#!/usr/bin/env python3
"""Descriptions of the implemented checks -> tools/checks.json"""
import json, os
C={}
TR="Trusts the harness runtime (cooperative scheduler, interposed libc, reference model); bounds as in the evidence file."
def c(i,t,n): C[i]=(t,"model_checking",n+" "+TR)
SEQ="exhaustive bounded enumeration of operation sequences on the real code under a controlled scheduler, against a reference model"
CR="exhaustive crash-point enumeration: every prefix of the recorded file and table effects is materialised and reopened by the real code"
c("C01",SEQ,"Every sequence of the alphabet up to the depth bound in every configuration class, each result and the final contents compared.")
c("C03",CR,"Every crash point of every bounded program, incl. torn entry writes; recovered contents must be an allowed state and stay usable.")
c("C06",SEQ,"Iteration and every resume cookie checked in every reached state.")
c("C07","exhaustive enumeration of modification sequences at every iteration position on the real code","Every bounded modification sequence at every position of the iteration.")
c("C08",SEQ,"List alphabet incl. compaction, pops and discard.")
c("C04",CR+"; crashes of the recovery included","Every crash point of creations, splits, compactions, merges and clears, and of the recoveries that follow.")
c("C10",CR,"List operations; promoting and list compaction excluded as documented.")
c("C11",SEQ,"Queue alphabet incl. removal by index.")
c("C13",CR,"Queue operations.")
SCH="exhaustive preemption-bounded exploration of all thread schedules of the real code (stateless model checking with state caching), "
c("C02",SCH+"results checked for linearizability","All pairs of the alphabet, all triples and all pairs of two-operation threads of a hot subset, from states at and around the thresholds.")
c("C09",SCH+"results checked for linearizability","As C02 for lists; iteration and list length are not part of the claim.")
c("C12",SCH+"results checked for linearizability","As C02 for queues.")
c("C05","exhaustive enumeration of shard layouts x fill levels x merge parameters on the real code","Every dyadic partition to the depth bound; contents compared before and after reopening.")
c("C17",SCH+"every execution must terminate","Pairs and triples of operations of all kinds from states about to split, compact or merge, all numbers of compaction threads.")
c("C20",SEQ+", plus schedule exploration of small concurrent programs","Counters compared with an independent count derived from the files and the model in every reached quiescent state.")
c("C25",SEQ+", plus schedule exploration of clear against writers and compaction","Clear at every position.")
c("C26","exhaustive enumeration of shard layouts and leftover files opened by the real code","Every dyadic partition to the depth bound crossed with every admissible leftover.")
c("C27",SCH+"with vector-clock happens-before race detection on every instrumented access","Pairs of operations of all kinds.")
c("C14",SEQ,"Sizes at and around every chunk boundary, contents without a period.")
c("C15",SEQ,"Pairs of names that are equal, extend one another or end in the bytes used internally, in every namespace at once.")
c("C16",SEQ,"Real collisions of the 128-bit hash's row and signature bits (found once by tools/collide and verified at start) within and across namespaces, and keys with the signatures 0, 1 and 2^32-1.")
c("C21","exhaustive enumeration of operations x key lengths x value lengths x shard sizes on the real code against a reference model","All lengths at and around every limit.")
c("C29",SEQ,"Every typed operation of every built-in key type; all pairs of types for isolation.")
c("C23","exhaustive fault injection: every file-system call of every bounded history fails in every applicable way, on the real code","Single and persistent failures, short and interrupted transfers; live and after reopening; failures while opening every crash image.")
PF="exhaustive enumeration of power failures: at every point of every bounded history all unsynced file contents are dropped and the rest is reopened by the real code"
c("C18",PF+"; plus preemption-bounded exploration of flush against writers and compactions","Unsynced contents dropped entirely, or of all files but one; power failures of the recovery included. Directory operations are taken as durable in order.")
c("C19",SCH+"every acknowledged operation must survive dropping all unsynced file contents at every point, also with syncs failing","Pairs, triples and two-plus-one threads; compactions and splits due or under way; all sequential histories to the depth bound.")
c("C22",SCH+"with the lock's system calls as scheduling points; plus exhaustive enumeration of command sequences of separate processes, kills included","Two and three users of one directory opening, working, clearing and closing; failing opens; aliases of the directory.")
c("C24","exhaustive enumeration of file alterations, truncations and unrelated files x store images (at rest and interrupted) x options, on the real code","Every alteration of magic, version and length at the boundaries, in every shard file of every image; every truncation of the data; some forty unrelated names.")
c("C28","exhaustive enumeration of cyclic operation patterns on the real code, each repeated until the directory is byte for byte what it was before (which settles all further repetitions); plus preemption-bounded schedule exploration","Cycles of plain operations to the depth bound under ten size settings; cycles of list, queue and big-value operations, whose internal names advance, are repeated a fixed number of times.")
c("C30","exhaustive enumeration of modification sequences at every iteration position on the real code; plus preemption-bounded exploration of all thread schedules","Lists and queues, both directions; one and two modifications by another thread.")
c("C31",CR,"Big values of none to four chunks set, overwritten and removed; whole leading or trailing chunks of the old or new value are permitted, as documented.")
c("C32","exhaustive enumeration of operation sequences, crash images, failing file operations and foreign files, and preemption-bounded exploration of thread schedules, on the real code under a runtime that accounts for every open file, mapping, thread and allocation","Compared with the directory whenever nothing is in progress, with nothing after closing; cycles of one and two operations repeated 120 times for memory.")
json.dump(dict(claimed=C,na={},notes="One harness (mc/): a controlled runtime executes the unmodified store; see DESIGN.md."),open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"checks.json"),"w"),indent=1)
