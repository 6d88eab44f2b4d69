#define _GNU_SOURCE
#include "snap.h"
#include <dlfcn.h>
#include <string.h>
struct q { ElfW(Addr) base; segs *o; int ok; };
static int cb(struct dl_phdr_info *i,size_t z,void *v){ (void)z; struct q *q=v; if(i->dlpi_addr!=q->base) return 0; q->ok=1; uintptr_t rl=0,rh=0;
  for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_GNU_RELRO){ rl=i->dlpi_addr+i->dlpi_phdr[k].p_vaddr; rh=(rl+i->dlpi_phdr[k].p_memsz)&~4095ul; rl&=~4095ul; }
  for(int k=0;k<i->dlpi_phnum;k++){ const ElfW(Phdr)*p=&i->dlpi_phdr[k]; if(p->p_type==PT_TLS){ q->o->tls=1; q->o->tlssz=p->p_memsz; } if(p->p_type!=PT_LOAD||!(p->p_flags&PF_W)) continue; uintptr_t a=i->dlpi_addr+p->p_vaddr,e=a+p->p_memsz; if(rh>a && rl<=a) a=rh; if(a<e){ q->o->s[q->o->n].p=(uint8_t*)a; q->o->s[q->o->n].n=e-a; q->o->n++; } }
  return 1; }
int snap_segs(void *h,segs *o){ struct link_map *m; memset(o,0,sizeof *o); if(dlinfo(h,RTLD_DI_LINKMAP,&m)) return -1; struct q q={m->l_addr,o,0}; dl_iterate_phdr(cb,&q); return q.ok?0:-1; }
