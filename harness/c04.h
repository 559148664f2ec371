// C04: the world around a library path query: link map, process map, symbol addresses. Everything is a choice of the solver.
#define HX_OWN_PATHS
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "dl.h"
#include "sets.h"
#define NAME(i,n) #n,
const char *const hx_names[]={SYMS(NAME) 0};
#define BUFLEN 8192
#define ADDR 0x7f12a3c04000ul
#ifndef NB
#define NB 2
#endif
static struct link_map hx_lm[HX_L]; static char hx_ln[HX_L][BUFLEN+16],hx_mp[HX_L][3][BUFLEN+16],hx_ad[HX_L][BUFLEN+16]; static char hx_map[3*BUFLEN+600];
static int w_set[HX_L],w_info[HX_L],w_name[HX_L],w_file[HX_L],w_ad[HX_L][HX_S],w_path[HX_L][3],w_ioc[HX_L]; static unsigned long w_st[3],w_en[3];
#ifndef PLAT
#define PLAT 0
#endif
#define NODLINFO (PLAT!=0&&PLAT!=4)
#define LINUX (PLAT==0)
static int hx_fds,hx_streams,hx_infos,hx_addrs,hx_opened_maps;
/* a text of NB symbolic bytes without NUL and line feed, or a long one whose last bytes are symbolic */
static void text(char *p,char first,const char *name,int big){
  size_t i=0,n=NB; if(first) p[i++]=first; 
  if(big){ n=BUFLEN-2+sym_choice(4,"length")-i; memset(p+i,'x',n); p+=i; p[n]=0; sym_bytes(p+n-2,2,name); sym_assume(p[n-2]!=0&&p[n-1]!=0&&p[n-2]!='\n'&&p[n-1]!='\n'); return; }
  sym_bytes(p+i,n,name); for(size_t k=0;k<n;k++) sym_assume(p[i+k]!=0&&p[i+k]!='\n'); if(!first) sym_assume(p[0]!='/'); p[i+n]=0; }
static void hexline(char *o,unsigned long a,unsigned long b,int v,const char *path){ /* the format of the kernel */
  static const char *const perm[]={"r--p","rwxs","---p","r-xp"},*const off[]={"00000000","0000a000","12345000","0abcd000"},*const dev[]={"103:01","fd:00","00:2a","08:05"};
  o+=sprintf(o,"%lx-%lx %s %s %s ",a,b,perm[v],off[v],dev[v]);
  if(path) sprintf(o,"%d                   %s\n",v?2758110:7,path); else sprintf(o,"0 \n"); }
static void world(int l){
  if(w_set[l]) return; w_set[l]=1;
#if RICH
#if NODLINFO
  return;
#endif
  w_info[l]=sym_choice(2,"dlinfo"); if(w_info[l]){ w_name[l]=BIG?4+sym_choice(2,"name"):sym_choice(4,"name");
    switch(w_name[l]){ case 0: hx_lm[l].l_name=0; break; case 1: hx_lm[l].l_name=hx_ln[l]; hx_ln[l][0]=0; break; case 2: text(hx_ln[l],'/',"abs",0); break; case 3: text(hx_ln[l],0,"rel",0); break; case 4: text(hx_ln[l],'/',"absolute",1); break; default: text(hx_ln[l],'r',"relative",1); }
    if(w_name[l]) hx_lm[l].l_name=hx_ln[l]; sym_bytes(&hx_lm[l].l_addr,8,"addr");
    if(LINUX&&(w_name[l]==3||w_name[l]==5)){ w_ioc[l]=0;
#ifdef PROCMAP_QUERY
      w_ioc[l]=sym_choice(4,"ioctl"); if(w_ioc[l]==3) text(hx_mp[l][0],'/',"mapped",BIG&&sym_choice(2,"big")); 
#endif
      if(w_ioc[l]!=3) w_file[l]=sym_choice(2,"maps"); if(w_file[l]){
        unsigned gap=BIG?0:sym_choice(2,"gap"); char *o=hx_map; w_st[0]=ADDR; w_en[0]=ADDR+0x1000; w_st[1]=ADDR+0x1000+(gap?0x1000:0); w_en[1]=ADDR+0x4000; w_st[2]=0xffffffffff600000ul; w_en[2]=0xffffffffff601000ul;
        for(int i=0;i<3;i++){ int v=BIG?0:i<2?sym_choice(i?2:4,"line"):2,pt=i<2?sym_choice(BIG&&i?3:2,"path"):1; w_path[l][i]=pt; if(pt){ if(i<2) text(hx_mp[l][i],'/',"mapped",pt==2); else strcpy(hx_mp[l][i],"[vsyscall]"); } hexline(o,w_st[i],w_en[i],v,pt?hx_mp[l][i]:0); o+=strlen(o); } } } }
#else
  w_info[l]=1; w_name[l]=2; text(hx_ln[l],'/',"abs",0); hx_lm[l].l_name=hx_ln[l]; hx_lm[l].l_addr=ADDR;
#endif
}
/* what dladdr() says about a symbol; chosen when it is first needed */
static int adk(int l,int k){ if(!w_ad[l][k]){
#if RICH
  w_ad[l][k]=1+(BIG?3*sym_choice(2,"dladdr"):sym_choice(4,"dladdr"));
#else
  w_ad[l][k]=1;
#endif
  if(w_ad[l][k]==4&&!hx_ad[l][0]) text(hx_ad[l],'/',"file",BIG&&sym_choice(2,"big")); } return w_ad[l][k]-1; }
static int hx_cur(void){ for(int i=0;i<hx_nlib;i++) if(hx_live[i]) return i; return -1; }
#ifdef __cplusplus
extern "C" {
#endif
int hx_dlinfo(void *h,int req,void *out){ int l=hx_idx(h); hx_infos++; sym_assert(l>=0&&hx_live[l],"path query on something that is no open handle"); sym_assert(req==2,"unexpected request"); world(l); if(!w_info[l]){ hx_pending="info"; return -1; } *(struct link_map**)out=&hx_lm[l]; return 0; }
#ifndef HX_DLADDR
#define HX_DLADDR
int hx_dladdr_(const void *a,const char **name){ int l=hx_cur(); hx_addrs++; sym_assert(l>=0,"address query without a library"); int k=-1; for(int i=0;i<NSYM;i++) if(a==(void*)hx_cell[l][i]) k=i; sym_assert(k>=0,"address query for something that is no symbol"); world(l); switch(adk(l,k)){ case 0: return 0; case 1: *name=0; return 1; case 2: *name=""; return 1; default: *name=hx_ad[l]; return 1; } }
#endif
#ifdef _GNU_SOURCE
int hx_dladdr(const void *a,Dl_info *i){ memset(i,0,sizeof *i); return hx_dladdr_(a,&i->dli_fname); }
#endif
int hx_open(const char *p,int fl,...){ int l=hx_cur(); sym_assert(strcmp(p,"/proc/self/maps")==0,"another file is opened"); if(l<0||w_ioc[l]==0) return -1; hx_fds++; return 77; }
int hx_fclose_fd(int fd){ sym_assert(fd==77&&hx_fds==1,"a descriptor is closed twice"); hx_fds--; return 0; }
#ifdef PROCMAP_QUERY
int hx_ioctl(int fd,unsigned long rq,...){ va_list ap; va_start(ap,rq); struct procmap_query *q=va_arg(ap,struct procmap_query*); va_end(ap); int l=hx_cur(); sym_assert(fd==77&&hx_fds==1,"query on a closed descriptor"); sym_assert(rq==PROCMAP_QUERY,"unexpected request"); sym_assert(q->size==sizeof *q,"wrong size"); 
  sym_assert((q->query_flags&~0x3ful)==0,"unknown flags"); if(w_ioc[l]==1||q->query_addr!=hx_lm[l].l_addr) return -1; if(w_ioc[l]==2){ q->vma_name_size=0; return 0; }
  size_t n=strlen(hx_mp[l][0])+1; if(n>q->vma_name_size) return -1; memcpy((void*)q->vma_name_addr,hx_mp[l][0],n); q->vma_name_size=n; return 0; }
#endif
FILE *hx_fopen(const char *p,const char *m){ int l=hx_cur(); sym_assert(strcmp(p,"/proc/self/maps")==0,"another file is opened"); sym_assert(m[0]=='r',"opened for writing"); if(l<0||!w_file[l]) return 0; hx_streams++; return fmemopen(hx_map,strlen(hx_map),"r"); }
int hx_fclose(FILE *f){ hx_streams--; return fclose(f); }
#ifdef __cplusplus
}
#endif
#define fopen hx_fopen
#define fclose hx_fclose
#define open(...) hx_open(__VA_ARGS__)
#define close(x) hx_fclose_fd(x)
#define ioctl(...) hx_ioctl(__VA_ARGS__)
/* what the answer has to be: candidates in order; limit: longest text the buffer holds */
static int fits(const char *p,size_t limit){ return strlen(p)<limit; }
#if PLAT==3
/* AIX: the list of loaded objects: NE entries with arbitrary sections; the first one that contains a loaded symbol counts, whose file name may be empty, and that of the archive member, too */
#include "plat/sys/ldr.h"
#ifndef NE
#define NE 2
#endif
static unsigned long q_text[NE],q_tlen[NE],q_data[NE],q_dlen[NE]; static char q_file[NE][BUFLEN+16],q_mem[NE][BUFLEN+16],q_both[2*BUFLEN+40]; static int q_set,q_ok,q_n;
static void q_world(void){ if(q_set) return; q_set=1; q_ok=sym_choice(2,"loadquery"); if(!q_ok) return; q_n=1+sym_choice(NE,"entries");
  for(int i=0;i<q_n;i++){ unsigned char v[4]; sym_bytes(v,4,"sections"); unsigned long b0=(unsigned long)(void*)hx_cell[hx_cur()]; q_text[i]=b0-64+v[0]; q_tlen[i]=v[1]; q_data[i]=b0-64+v[2]; q_dlen[i]=v[3]; /* around the symbols */
    if(sym_choice(3,"file")) text(q_file[i],'/',"path",0); else q_file[i][0]=0; if(BIG) { size_t n=BUFLEN-6+sym_choice(8,"length")-strlen(q_file[i]); size_t o=strlen(q_file[i]); memset(q_file[i]+o,'x',n); q_file[i][o+n]=0; }
    if(sym_choice(2,"member")) text(q_mem[i],'s',"member",0); else q_mem[i][0]=0; } }
#ifdef __cplusplus
extern "C"
#endif
int loadquery(int what,void *buf,unsigned n){ sym_assert(what==L_GETINFO,"another query"); sym_assert(hx_cur()>=0,"query without a library"); hx_infos++; q_world(); if(!q_ok) return -1; char *b=(char*)buf; size_t o=0;
  for(int i=0;i<q_n;i++){ struct ld_info *e=(struct ld_info*)(b+o); size_t h=(char*)e->ldinfo_filename-(char*)e,f=strlen(q_file[i])+1,m=strlen(q_mem[i])+1,step=(h+f+m+7)/8*8+8; if(o+step>n) return -1;
    e->ldinfo_next=i+1<q_n?step:0; e->ldinfo_fd=3; e->ldinfo_textorg=(void*)q_text[i]; e->ldinfo_textsize=q_tlen[i]; e->ldinfo_dataorg=(void*)q_data[i]; e->ldinfo_datasize=q_dlen[i]; memcpy(b+o+h,q_file[i],f); memcpy(b+o+h+f,q_mem[i],m); o+=step; }
  return 0; }
static const char *expect(int l,size_t maplimit,size_t limit,int anysym[NSYM]){ (void)maplimit; int any=0; for(int k=0;k<NSYM;k++) any|=anysym[k]; if(!any||!q_set||!q_ok){ sym_cover(any?"unknown":"nosymbol"); return 0; }
  for(int k=0;k<NSYM;k++) if(anysym[k]){ unsigned long a=(unsigned long)(void*)hx_cell[l][k]; int i=0; while(i<q_n&&!(a-q_text[i]<q_tlen[i]||a-q_data[i]<q_dlen[i])) i++; if(i==q_n||!q_file[i][0]) continue;
    if(!q_mem[i][0]) strcpy(q_both,q_file[i]); else sprintf(q_both,"%s(%s)",q_file[i],q_mem[i]); if(fits(q_both,limit)){ sym_cover(q_mem[i][0]?"member":"file"); return q_both; } sym_cover("toolong"); }
  sym_cover("unknown"); return 0; }
#else
static const char *expect(int l,size_t maplimit,size_t limit,int anysym[NSYM]){
  if(w_info[l]&&w_name[l]>=1&&hx_ln[l][0]){ const char *p=hx_ln[l]; if(p[0]!='/'){ const char *q=w_ioc[l]==3?hx_mp[l][0]:0; if(q&&!fits(q,maplimit)) q=0; if(!q&&w_file[l]) for(int i=0;i<3;i++) if(w_path[l][i]&&hx_lm[l].l_addr>=w_st[i]&&hx_lm[l].l_addr<w_en[i]&&fits(hx_mp[l][i],maplimit)) q=hx_mp[l][i]; if(q){ sym_cover("mapped"); return q; } sym_cover("relative"); } else sym_cover("absolute"); if(fits(p,limit)) return p; sym_cover("toolong"); }
  for(int i=0;i<NSYM;i++) if(anysym[i]&&adk(l,i)==3){ if(fits(hx_ad[l],limit)){ sym_cover("address"); return hx_ad[l]; } sym_cover("toolong"); return 0; }
  sym_cover("unknown"); return 0; }
#endif
