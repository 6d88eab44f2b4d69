/* mct: a small Valgrind tool that records the observable execution trace of
 * client code (instruction addresses, load/store addresses and sizes, operands
 * of divisions) and compares a later execution with it event by event; it also
 * reports which shared locations a region of execution reads and writes. */
#include "pub_tool_basics.h"
#include "pub_tool_tooliface.h"
#include "pub_tool_libcassert.h"
#include "pub_tool_libcbase.h"
#include "pub_tool_libcprint.h"
#include "pub_tool_machine.h"
#include "pub_tool_mallocfree.h"
#include "pub_tool_options.h"
#include "pub_tool_aspacemgr.h"
#include "pub_tool_clreq.h"
#include "mct.h"
static ULong *buf; static SizeT n_, cap; static int mode;      /* 0 off 1 record 2 compare 3 count */
static int paused; static ULong what = ~0ull; static Addr exlo, exhi; static SizeT pos, total;
static MctDiff D; static ULong curpc;
static void grow(void){ SizeT nc=cap?cap*2:(1<<20); ULong*b=VG_(malloc)("mct",nc*8); if(cap){ VG_(memcpy)(b,buf,n_*8); VG_(free)(buf); } buf=b; cap=nc; }
static inline void ev(ULong e){
  if(mode==1){ if(n_==cap) grow(); buf[n_++]=e; }
  else if(mode==2){ if(D.differs) return; if(pos>=n_||buf[pos]!=e){ D.differs=1; D.at=pos; D.want=pos<n_?buf[pos]:0; D.got=e; D.pc=curpc; D.n=pos<8?pos:8; for(int i=0;i<8;i++) D.before[i]=pos>=(SizeT)(i+1)?buf[pos-1-i]:0; return; } pos++; }
}
static VG_REGPARM(1) void on_i(Addr a){ if(mode&&!paused){ total++; curpc=a; if(what&1) ev(MCT_I|a); } }
static VG_REGPARM(2) void on_l(Addr a,SizeT s){ if(mode&&!paused&&(what&2)) ev(MCT_L|(((ULong)s&0xff)<<48)|(a&0xffffffffffffull)); }
static VG_REGPARM(2) void on_s(Addr a,SizeT s){ if(mode&&!paused&&(what&4)) ev(MCT_S|(((ULong)s&0xff)<<48)|(a&0xffffffffffffull)); }
static ULong mix(ULong a,ULong b){ ULong x=a*0x9E3779B97F4A7C15ull^(b+0x7F4A7C159E3779B9ull+(a<<6)+(a>>2)); x^=x>>30; x*=0xBF58476D1CE4E5B9ull; x^=x>>27; x*=0x94D049BB133111EBull; return x^(x>>31); }
static VG_REGPARM(3) void on_d(ULong a,ULong b,ULong op){ if(mode&&!paused&&(what&8)){ D.divs++; ev(MCT_D|(mix(mix(op,a),b)&0x0fffffffffffffffull)); } }
static int isdiv(IROp op){ switch(op){ case Iop_DivU32: case Iop_DivS32: case Iop_DivU64: case Iop_DivS64: case Iop_DivU64E: case Iop_DivS64E: case Iop_DivU32E: case Iop_DivS32E:
  case Iop_DivModU64to32: case Iop_DivModS64to32: case Iop_DivModU128to64: case Iop_DivModS128to64: case Iop_DivModS64to64: case Iop_DivModU64to64: case Iop_DivModS32to32: case Iop_DivModU32to32: return 1; default: return 0; } }
static int isfdiv(IROp op){ switch(op){ case Iop_DivF64: case Iop_DivF32: return 2; case Iop_Div64Fx2: case Iop_Div32Fx4: case Iop_Div64Fx4: case Iop_Div32Fx8: return 3; default: return 0; } }
static IRExpr *flat(IRSB*o,IRType t,IRExpr*e){ IRTemp q=newIRTemp(o->tyenv,t); addStmtToIRSB(o,IRStmt_WrTmp(q,e)); return IRExpr_RdTmp(q); }
static IRExpr *to64(IRSB*o,IRExpr*e,int half){ IRType t=typeOfIRExpr(o->tyenv,e); switch(t){ case Ity_I64: return e; case Ity_I32: return flat(o,Ity_I64,IRExpr_Unop(Iop_32Uto64,e)); case Ity_I128: return flat(o,Ity_I64,IRExpr_Unop(half?Iop_128HIto64:Iop_128to64,e)); case Ity_F64: return flat(o,Ity_I64,IRExpr_Unop(Iop_ReinterpF64asI64,e)); case Ity_F32: return flat(o,Ity_I64,IRExpr_Unop(Iop_32Uto64,flat(o,Ity_I32,IRExpr_Unop(Iop_ReinterpF32asI32,e)))); default: return IRExpr_Const(IRConst_U64(0)); } }
static void call(IRSB*o,const HChar*nm,void*f,IRExpr**args,int rp,IRExpr*guard){ IRDirty*d=unsafeIRDirty_0_N(rp,nm,VG_(fnptr_to_fnentry)(f),args); if(guard) d->guard=guard; addStmtToIRSB(o,IRStmt_Dirty(d)); }
static void mem(IRSB*o,int st,IRExpr*a,int sz,IRExpr*g){ call(o,st?"on_s":"on_l",st?(void*)on_s:(void*)on_l,mkIRExprVec_2(a,mkIRExpr_HWord(sz)),2,g); }
static IRSB *instr(VgCallbackClosure*cl,IRSB*in,const VexGuestLayout*lay,const VexGuestExtents*ex,const VexArchInfo*ai,IRType gw,IRType hw){
  (void)cl;(void)lay;(void)ai;(void)hw;(void)gw;
  IRSB*o=deepCopyIRSBExceptStmts(in); int i=0; while(i<in->stmts_used&&in->stmts[i]->tag!=Ist_IMark) addStmtToIRSB(o,in->stmts[i++]); int on=1;
  for(;i<in->stmts_used;i++){ IRStmt*s=in->stmts[i]; if(!s||s->tag==Ist_NoOp) continue; 
    if(s->tag==Ist_IMark){ Addr a=s->Ist.IMark.addr; on=!(a>=exlo&&a<exhi); addStmtToIRSB(o,s); if(on) call(o,"on_i",on_i,mkIRExprVec_1(mkIRExpr_HWord(a)),1,NULL); continue; }
    if(on) switch(s->tag){
      case Ist_WrTmp: { IRExpr*e=s->Ist.WrTmp.data; if(e->tag==Iex_Load) mem(o,0,e->Iex.Load.addr,sizeofIRType(e->Iex.Load.ty),NULL);
          else if(e->tag==Iex_Binop&&isdiv(e->Iex.Binop.op)){ IRExpr*a=to64(o,e->Iex.Binop.arg1,0),*h=to64(o,e->Iex.Binop.arg1,1),*b=to64(o,e->Iex.Binop.arg2,0); call(o,"on_d",on_d,mkIRExprVec_3(a,b,mkIRExpr_HWord(e->Iex.Binop.op)),3,NULL); if(typeOfIRExpr(o->tyenv,e->Iex.Binop.arg1)==Ity_I128) call(o,"on_d",on_d,mkIRExprVec_3(h,b,mkIRExpr_HWord(1)),3,NULL); }
          else if(e->tag==Iex_Triop&&isfdiv(e->Iex.Triop.details->op)==2){ IRExpr*a=to64(o,e->Iex.Triop.details->arg2,0),*b=to64(o,e->Iex.Triop.details->arg3,0); call(o,"on_d",on_d,mkIRExprVec_3(a,b,mkIRExpr_HWord(e->Iex.Triop.details->op)),3,NULL); }
          else if(e->tag==Iex_Triop&&isfdiv(e->Iex.Triop.details->op)==3){ IRExpr*v=e->Iex.Triop.details->arg2; IRType t=typeOfIRExpr(o->tyenv,v); for(int w=0;w<2;w++){ v=w?e->Iex.Triop.details->arg3:e->Iex.Triop.details->arg2; IRExpr*x[4]; int n=0; if(t==Ity_V128){ x[n++]=flat(o,Ity_I64,IRExpr_Unop(Iop_V128to64,v)); x[n++]=flat(o,Ity_I64,IRExpr_Unop(Iop_V128HIto64,v)); } else if(t==Ity_V256){ x[n++]=flat(o,Ity_I64,IRExpr_Unop(Iop_V256to64_0,v)); x[n++]=flat(o,Ity_I64,IRExpr_Unop(Iop_V256to64_1,v)); x[n++]=flat(o,Ity_I64,IRExpr_Unop(Iop_V256to64_2,v)); x[n++]=flat(o,Ity_I64,IRExpr_Unop(Iop_V256to64_3,v)); } for(int k=0;k<n;k+=2) call(o,"on_d",on_d,mkIRExprVec_3(x[k],x[k+1],mkIRExpr_HWord(e->Iex.Triop.details->op)),3,NULL); } }
          break; }
      case Ist_Store: mem(o,1,s->Ist.Store.addr,sizeofIRType(typeOfIRExpr(o->tyenv,s->Ist.Store.data)),NULL); break;
      case Ist_LoadG: { IRLoadG*g=s->Ist.LoadG.details; IRType t,tw; typeOfIRLoadGOp(g->cvt,&tw,&t); mem(o,0,g->addr,sizeofIRType(t),g->guard); break; }
      case Ist_StoreG: { IRStoreG*g=s->Ist.StoreG.details; mem(o,1,g->addr,sizeofIRType(typeOfIRExpr(o->tyenv,g->data)),g->guard); break; }
      case Ist_Dirty: { IRDirty*d=s->Ist.Dirty.details; if(d->mFx!=Ifx_None){ if(d->mFx!=Ifx_Write) mem(o,0,d->mAddr,d->mSize,d->guard); if(d->mFx!=Ifx_Read) mem(o,1,d->mAddr,d->mSize,d->guard); } break; }
      case Ist_CAS: { IRCAS*c=s->Ist.CAS.details; int z=sizeofIRType(typeOfIRExpr(o->tyenv,c->dataLo))*(c->dataHi?2:1); mem(o,0,c->addr,z,NULL); mem(o,1,c->addr,z,NULL); break; }
      case Ist_LLSC: break;
      default: break; }
    addStmtToIRSB(o,s); }
  return o; }
static Bool creq(ThreadId t,UWord*a,UWord*r){ (void)t; if(!VG_IS_TOOL_USERREQ('M','T',a[0])) return False; *r=1;
  switch(a[0]){
    case MCT_RUNNING: break;
    case MCT_EXCLUDE: exlo=a[1]; exhi=a[2]; VG_(discard_translations)(exlo,exhi-exlo,"mct"); break;
    case MCT_WHAT: what=a[1]; break;
    case MCT_RECORD: n_=0; paused=0; VG_(memset)(&D,0,sizeof D); total=0; mode=1; break;
    case MCT_COMPARE: pos=0; paused=0; VG_(memset)(&D,0,sizeof D); total=0; mode=2; break;
    case MCT_END: if(mode==2&&!D.differs&&pos<n_){ D.differs=1; D.at=pos; D.want=buf[pos]; D.got=0; D.pc=curpc; } mode=0; D.total=total; D.events=n_; if(a[1]) *(MctDiff*)a[1]=D; break;
    case MCT_PAUSE: paused++; break;
    case MCT_RESUME: paused--; break;
    default: *r=0; return False; }
  return True; }
static void fini(Int c){ (void)c; }
static void post(void){}
static void pre(void){ VG_(details_name)("mct"); VG_(details_version)(NULL); VG_(details_description)("trace comparison"); VG_(details_copyright_author)("."); VG_(details_bug_reports_to)("."); VG_(details_avg_translation_sizeB)(300);
  VG_(basic_tool_funcs)(post,instr,fini); VG_(needs_client_requests)(creq); }
VG_DETERMINE_INTERFACE_VERSION(pre)
