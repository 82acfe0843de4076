//@ build kokkos=1 def=EKAT_HAS_KOKKOS,EKAT_DEFAULT_BFB,NDEBUG inc=shim/team
//@ case entry=hist p.first=0 p.len=4
//@ case entry=hist p.first=2 p.len=4
//@ case entry=hist p.first=3 p.len=4
//@ case entry=hist p.first=5 p.len=4
//@ case entry=hist p.first=7 p.len=4
//@ case entry=hist tier=thorough p.first=0 p.len=5
//@ case entry=hist tier=thorough p.first=2 p.len=5
//@ case entry=hist tier=thorough p.first=3 p.len=5
//@ case entry=hist tier=thorough p.first=5 p.len=5
//@ case entry=hist tier=thorough p.first=7 p.len=5
//@ case entry=types p.t=0
//@ case entry=types p.t=1
//@ case entry=types p.t=2
//@ case entry=types p.t=3
//@ case entry=other
//@ case entry=team sched=1 p.ts=2 p.conc=2 p.league=1 p.mode=0
//@ case entry=team sched=1 p.ts=2 p.conc=2 p.league=2 p.mode=1
//@ case entry=team sched=1 p.ts=2 p.conc=2 p.league=2 p.mode=2
//@ case entry=team sched=1 p.ts=2 p.conc=2 p.league=2 p.mode=3
//@ case entry=team sched=1 p.ts=2 p.conc=2 p.league=1 p.mode=4
//@ case entry=team sched=1 tier=thorough p.ts=2 p.conc=2 p.league=2 p.mode=4
//@ case entry=team sched=1 tier=thorough p.ts=2 p.conc=2 p.league=2 p.mode=0
//@ case entry=team p.ts=1 p.conc=3 p.league=3 p.mode=0
//@ case entry=team p.ts=2 p.conc=5 p.league=3 p.mode=0
//@ case entry=team p.ts=2 p.conc=4 p.league=3 p.mode=4
#include "ws.inc"
