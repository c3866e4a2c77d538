// Running the code generator as on an older processor: while its features are detected, the cpuid
// instruction is made to fault (arch_prctl ARCH_SET_CPUID) and answered with some bits cleared.
// HX_CPU is a mask of: 1 CMOV, 2 LZCNT, 4 BMI1/TZCNT, 8 SSE4.1, 16 AVX, 32 AVX2, to be hidden.
// Where the kernel cannot do it, nothing is hidden.
#pragma once
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <stdlib.h>
#include <sys/syscall.h>
namespace hxcpu{
static unsigned hide;static struct sigaction olds;
static inline int prctlCpuid(unsigned long on){return (int)syscall(SYS_arch_prctl,0x1012,on);}
static void onSegv(int,siginfo_t*,void*uc){
  greg_t*g=((ucontext_t*)uc)->uc_mcontext.gregs;const unsigned char*ip=(const unsigned char*)g[REG_RIP];
  if(ip[0]!=0x0f||ip[1]!=0xa2){prctlCpuid(1);signal(SIGSEGV,SIG_DFL);return;}
  unsigned leaf=(unsigned)g[REG_RAX],sub=(unsigned)g[REG_RCX],a,b,c,d;
  prctlCpuid(1);__asm__ volatile("cpuid":"=a"(a),"=b"(b),"=c"(c),"=d"(d):"a"(leaf),"c"(sub));prctlCpuid(0);
  if(leaf==1){if(hide&1)d&=~0x8000u;if(hide&8)c&=~0x80000u;if(hide&16)c&=~0x10000000u;}
  if(leaf==7&&sub==0){if(hide&4)b&=~0x8u;if(hide&(32|16))b&=~0x20u;}
  if(leaf==0x80000001u&&(hide&2))c&=~0x20u;
  g[REG_RAX]=a;g[REG_RBX]=b;g[REG_RCX]=c;g[REG_RDX]=d;g[REG_RIP]+=2;}
// runs detect() with the features hidden; returns whether they were
static inline bool run(void(*detect)()){
  const char*e=getenv("HX_CPU");hide=e?(unsigned)atoi(e):0;
  struct sigaction sa={};sa.sa_sigaction=onSegv;sa.sa_flags=SA_SIGINFO|SA_NODEFER;
  if(!hide){detect();return false;}
  sigaction(SIGSEGV,&sa,&olds);bool ok=prctlCpuid(0)==0;detect();if(ok)prctlCpuid(1);sigaction(SIGSEGV,&olds,nullptr);return ok;}
}
