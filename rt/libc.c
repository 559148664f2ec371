/* Model of the parts of libc the code under test uses: ctype, stdio over a virtual file system, exit handling. */
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include "sym.h"
#include "vfs.h"
#include "ctype_tab.h"
void *malloc(size_t); void free(void*); size_t strlen(const char*); void *memcpy(void*,const void*,size_t); int strcmp(const char*,const char*); int memcmp(const void*,const void*,size_t); void*memchr(const void*,int,size_t); char*strchr(const char*,int); void *memset(void*,int,size_t); void *realloc(void*,size_t); void *memmove(void*,const void*,size_t);

/* ---- ctype ---- */
static const unsigned short *ctbp=ctb+128; static const int *ctlop=ctlo+128,*ctupp=ctup+128;
const unsigned short **__ctype_b_loc(void){ return &ctbp; }
const int **__ctype_tolower_loc(void){ return &ctlop; }
const int **__ctype_toupper_loc(void){ return &ctupp; }
int tolower(int c){ return c>=-128&&c<256?ctlop[c]:c; }
int toupper(int c){ return c>=-128&&c<256?ctupp[c]:c; }
#define IS(n,b) int n(int c){ return ctbp[c]&(b); }
#define B(i) ((i)<8?((1<<(i))<<8):((1<<(i))>>8))
IS(isupper,B(0)) IS(islower,B(1)) IS(isalpha,B(2)) IS(isdigit,B(3)) IS(isxdigit,B(4)) IS(isspace,B(5)) IS(isprint,B(6)) IS(isgraph,B(7)) IS(isblank,B(8)) IS(iscntrl,B(9)) IS(ispunct,B(10)) IS(isalnum,B(11))
int isascii(int c){ return !(c&~0x7f); }
static int errno_v; int *__errno_location(void){ return &errno_v; }
char __libc_single_threaded=1;
void *__dso_handle=&__dso_handle;
char *program_invocation_short_name=(char*)"gendlopen"; char *program_invocation_name=(char*)"gendlopen";

/* ---- strings (simple loops) ---- */
char *strcpy(char*d,const char*s){ memcpy(d,s,strlen(s)+1); return d; }
char *stpcpy(char*d,const char*s){ size_t n=strlen(s); memcpy(d,s,n+1); return d+n; }
char *strcat(char*d,const char*s){ strcpy(d+strlen(d),s); return d; }
char *strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char *strncat(char*d,const char*s,size_t n){ char*p=d+strlen(d); size_t i=0; for(;i<n&&s[i];i++) p[i]=s[i]; p[i]=0; return d; }
char *strdup(const char*s){ size_t n=strlen(s)+1; char*p=malloc(n); if(p) memcpy(p,s,n); return p; }
char *strndup(const char*s,size_t n){ size_t l=0; while(l<n&&s[l]) l++; char*p=malloc(l+1); if(p){ memcpy(p,s,l); p[l]=0; } return p; }
char *strstr(const char*h,const char*n){ size_t l=strlen(n); if(!l) return (char*)h; for(;*h;h++){ size_t i=0; while(i<l&&h[i]==n[i]) i++; if(i==l) return (char*)h; } return 0; }
size_t strspn(const char*s,const char*a){ size_t i=0; while(s[i]&&strchr(a,s[i])) i++; return i; }
size_t strcspn(const char*s,const char*a){ size_t i=0; while(s[i]&&!strchr(a,s[i])) i++; return i; }
char *strpbrk(const char*s,const char*a){ s+=strcspn(s,a); return *s?(char*)s:0; }
void *memrchr(const void*s,int c,size_t n){ const unsigned char*p=s; while(n--) if(p[n]==(unsigned char)c) return (void*)(p+n); return 0; }
int strcoll(const char*a,const char*b){ return strcmp(a,b); }
int atoi(const char*s){ int v=0,neg=0; while(isspace(*s)) s++; if(*s=='-'||*s=='+') neg=*s++=='-'; while(*s>='0'&&*s<='9') v=v*10+*s++-'0'; return neg?-v:v; }
unsigned long strtoul(const char*s,char**e,int base){ unsigned long v=0; int neg=0; const char*o=s; while(isspace((unsigned char)*s)) s++; if(*s=='-'||*s=='+') neg=*s++=='-'; if((base==0||base==16)&&s[0]=='0'&&(s[1]|32)=='x'){ s+=2; base=16; } else if(base==0) base=*s=='0'?8:10; int any=0; for(;;s++){ int d; if(*s>='0'&&*s<='9') d=*s-'0'; else if((*s|32)>='a'&&(*s|32)<='z') d=(*s|32)-'a'+10; else break; if(d>=base) break; v=v*base+d; any=1; } if(e) *e=(char*)(any?s:o); return neg?-v:v; }
long strtol(const char*s,char**e,int b){ return (long)strtoul(s,e,b); }
unsigned long long strtoull(const char*s,char**e,int b){ return strtoul(s,e,b); }
long long strtoll(const char*s,char**e,int b){ return (long)strtoul(s,e,b); }
unsigned long __isoc23_strtoul(const char*s,char**e,int b){ return strtoul(s,e,b); }
long __isoc23_strtol(const char*s,char**e,int b){ return (long)strtoul(s,e,b); }
unsigned long long __isoc23_strtoull(const char*s,char**e,int b){ return strtoul(s,e,b); }
long long __isoc23_strtoll(const char*s,char**e,int b){ return (long)strtoul(s,e,b); }
unsigned long __isoc23_strtoumax(const char*s,char**e,int b){ return strtoul(s,e,b); }
unsigned long strtoumax(const char*s,char**e,int b){ return strtoul(s,e,b); }

/* ---- virtual file system ---- */
struct vnode vfs_nodes[VFS_MAX]; int vfs_n;
struct vnode vfs_out[2];
const char *vfs_stdin; size_t vfs_stdin_len;
void vfs_norm(const char*in,char*out){ /* lexical normalisation, relative to the working directory "" */
  size_t o=0; const char*p=in; if(*p=='/') out[o++]='/';
  while(*p){ while(*p=='/') p++; const char*q=p; while(*q&&*q!='/') q++; size_t n=q-p; if(n==0) break;
    if(n==1&&p[0]=='.'){ p=q; continue; }
    if(n==2&&p[0]=='.'&&p[1]=='.'&&o>1&&!(o>=2&&out[o-1]=='.'&&out[o-2]=='.'&&(o==2||out[o-3]=='/'))){ while(o>0&&out[o-1]!='/') o--; if(o>1) o--; p=q; continue; }
    if(o&&out[o-1]!='/') out[o++]='/'; if(o+n>=VFS_PATH-1){ out[0]=0; return; } memcpy(out+o,p,n); o+=n; p=q; }
  out[o]=0; }
struct vnode *vfs_get(const char*norm){ for(int i=0;i<vfs_n;i++) if(vfs_nodes[i].kind&&strcmp(vfs_nodes[i].path,norm)==0) return &vfs_nodes[i]; return 0; }
struct vnode *vfs_new(const char*norm,int kind){ struct vnode*v=0; for(int i=0;i<vfs_n;i++) if(!vfs_nodes[i].kind) { v=&vfs_nodes[i]; break; } if(!v){ if(vfs_n>=VFS_MAX) sym_fail("harness: virtual file system full"); v=&vfs_nodes[vfs_n++]; } memset(v,0,sizeof *v); v->kind=kind; strcpy(v->path,norm); return v; }
void vfs_clear(void){ for(int i=0;i<vfs_n;i++){ free(vfs_nodes[i].data); } vfs_n=0; memset(vfs_nodes,0,sizeof vfs_nodes); for(int i=0;i<2;i++){ free(vfs_out[i].data); vfs_out[i].data=0; vfs_out[i].len=vfs_out[i].cap=0; } vfs_stdin=""; vfs_stdin_len=0; }
void vfs_put(struct vnode*v,size_t pos,const char*s,size_t n){ if(pos+n>v->cap){ size_t c=(pos+n)*2+256; v->data=realloc(v->data,c); v->cap=c; } if(pos>v->len) memset(v->data+v->len,0,pos-v->len); memcpy(v->data+pos,s,n); if(pos+n>v->len) v->len=pos+n; }
/* resolve links; returns 0 ok with final normalized path, <0 on loop */
int vfs_resolve(const char*path,char*out){ char a[VFS_PATH]; vfs_norm(path,a);
  for(int d=0;d<8;d++){ struct vnode*v=vfs_get(a); if(!v||v->kind!=VFS_LINK) { strcpy(out,a); return 0; } char b[VFS_PATH]; if(v->data[0]=='/') strcpy(b,v->data); else { strcpy(b,a); char*s=b+strlen(b); while(s>b&&s[-1]!='/') s--; strcpy(s,v->data); } vfs_norm(b,a); }
  return -1; }
int vfs_parent_ok(const char*norm){ /* 0 ok, 1 missing, 2 not a directory */ char b[VFS_PATH]; strcpy(b,norm); char*s=b+strlen(b); while(s>b&&s[-1]!='/') s--; if(s==b) return 0; if(s==b+1) return 0; s[-1]=0; char r[VFS_PATH]; if(vfs_resolve(b,r)) return 1; if(r[0]==0||strcmp(r,"..")==0) return 0; struct vnode*v=vfs_get(r); if(!v) return 1; return v->kind==VFS_DIR?0:2; }

struct rfile { int used, kind; /*1 in,2 out-capture,3 node,4 devfull*/ int node; size_t pos; int rd,wr,app,err,eof,unget,hasun; char path[VFS_PATH]; int mem; size_t lost; };
static struct rfile rf_stdin={1,1,0,0,1,0,0,0,0,0,0,""},rf_stdout={1,2,0,0,0,1,0,0,0,0,0,""},rf_stderr={1,2,1,0,0,1,0,0,0,0,0,""};
struct rfile *stdin=&rf_stdin,*stdout=&rf_stdout,*stderr=&rf_stderr;
#define FILE struct rfile
int vfs_open_files;
/* a device that takes vfs_limit bytes per file; standard output is buffered, so its failures show when it is flushed */
size_t vfs_limit=(size_t)-1; static size_t vfs_done;
static int commit(FILE*f){ if(vfs_out[0].len==vfs_done) return 0; if(vfs_out[0].len>vfs_limit){ vfs_out[0].len=vfs_done; f->err=1; errno_v=28; return -1; } vfs_done=vfs_out[0].len; return 0; }
void vfs_flush_out(void){ commit(stdout); vfs_done=0; }
void vfs_reset_stdio(void){ rf_stdin.pos=0; rf_stdin.eof=rf_stdin.err=rf_stdin.hasun=0; rf_stdout.err=rf_stderr.err=0; vfs_open_files=0; }
FILE *fopen(const char*path,const char*mode){
  int rd=0,wr=0,app=0,trunc=0,create=0,excl=0; if(mode[0]=='r') rd=1; else if(mode[0]=='w'){ wr=trunc=create=1; } else if(mode[0]=='a'){ wr=app=create=1; } else { errno_v=22; return 0; }
  for(const char*m=mode+1;*m;m++){ if(*m=='+') rd=wr=1; if(*m=='x') excl=1; }
  size_t pl=strlen(path); if(pl==0){ errno_v=2; return 0; }
  if(pl>=VFS_PATH-1){ errno_v=36; return 0; }
  if(strcmp(path,"/dev/full")==0||strcmp(path,"/dev/null")==0){ FILE*f=malloc(sizeof*f); memset(f,0,sizeof*f); f->used=1; f->kind=path[6]=='u'&&path[5]=='f'?4:5; f->rd=rd; f->wr=wr; vfs_open_files++; return f; }
  if(strcmp(path,"/dev/stdout")==0){ FILE*f=malloc(sizeof*f); memset(f,0,sizeof*f); f->used=1; f->kind=2; f->wr=wr; vfs_open_files++; return f; }
  char r[VFS_PATH]; if(excl){ char nn[VFS_PATH]; vfs_norm(path,nn); if(vfs_get(nn)){ errno_v=17; return 0; } }
  if(vfs_resolve(path,r)){ errno_v=40; return 0; }
  int po=vfs_parent_ok(r); if(po){ errno_v=po==1?2:20; return 0; }
  if(r[0]==0||(pl&&path[pl-1]=='/')){ struct vnode*q=vfs_get(r); if(wr||(q&&q->kind!=VFS_DIR)){ errno_v=21; return 0; } }
  struct vnode*v=vfs_get(r); if(!v){ if(!create){ errno_v=2; return 0; } v=vfs_new(r,VFS_FILE); v->created=1; }
  if(v->kind==VFS_DIR&&wr){ errno_v=21; return 0; }
  if(trunc){ v->len=0; v->modified=1; }
  FILE*f=malloc(sizeof*f); memset(f,0,sizeof*f); f->used=1; f->kind=3; f->node=v-vfs_nodes; f->rd=rd; f->wr=wr; f->app=app; strcpy(f->path,r); vfs_open_files++; return f; }
FILE *fopen64(const char*p,const char*m){ return fopen(p,m); }
FILE *fdopen(int fd,const char*m){ return 0; }
int fflush(FILE*f){ if(f&&f->kind==4&&f->pos){ f->err=1; f->pos=0; errno_v=28; return -1; } if(f&&f->kind==2&&f!=stderr) return commit(f); if(f&&f->kind==3&&f->lost){ f->err=1; errno_v=28; return -1; } return 0; }
int fclose(FILE*f){ int r=fflush(f); if(f->kind==1||(f->kind==2&&(f==stdout||f==stderr))) return r; if(!f->used) sym_fail("memory: stream closed twice"); f->used=0; vfs_open_files--; if(f->mem){ free(vfs_nodes[f->node].data); vfs_nodes[f->node].kind=0; } free(f); return r; }
/* a stream reading from memory (for stubs of special files) */
FILE *fmemopen(void*b,size_t n,const char*mode){ if(mode[0]!='r') sym_fail("harness: unsupported fmemopen mode"); struct vnode*v=vfs_new("//mem",VFS_FILE); vfs_put(v,0,b,n); FILE*f=malloc(sizeof*f); memset(f,0,sizeof*f); f->used=1; f->kind=3; f->node=v-vfs_nodes; f->rd=1; f->mem=1; strcpy(f->path,"//mem"); vfs_open_files++; return f; }
static int chk(FILE*f){ if(!f->used) sym_fail("memory: use of closed stream"); return 0; }
size_t fread(void*b,size_t s,size_t n,FILE*f){ chk(f); size_t t=s*n,k=0; char*o=b; if(!t) return 0; if(!f->rd){ f->err=1; return 0; } if(f->hasun){ *o++=f->unget; f->hasun=0; k=1; if(k==t) return n; }
  const char*d; size_t len; int bad=0; if(f->kind==1){ d=vfs_stdin; len=vfs_stdin_len; } else if(f->kind==3){ struct vnode*v=&vfs_nodes[f->node]; if(v->kind==VFS_DIR){ f->err=1; errno_v=21; return 0; } d=v->data; len=v->len; if(v->rderr&&f->pos+(t-k)>v->rdlimit&&v->rdlimit<=len){ len=v->rdlimit; bad=1; } } else { f->eof=1; return 0; }
  size_t av=f->pos<len?len-f->pos:0; if(av>t-k) av=t-k; if(av) memcpy(o,d+f->pos,av); f->pos+=av; k+=av; if(k<t){ if(bad){ f->err=1; errno_v=5; } else f->eof=1; } return k/s; }
int fgetc(FILE*f){ unsigned char c; return fread(&c,1,1,f)==1?c:-1; }
int getc(FILE*f){ return fgetc(f); }
int getchar(void){ return fgetc(stdin); }
int ungetc(int c,FILE*f){ if(c==-1) return -1; f->unget=c; f->hasun=1; f->eof=0; return c; }
char *fgets(char*s,int n,FILE*f){ int i=0; while(i<n-1){ int c=fgetc(f); if(c==-1) break; s[i++]=c; if(c=='\n') break; } if(!i) return 0; s[i]=0; return s; }
size_t fwrite(const void*b,size_t s,size_t n,FILE*f){ chk(f); size_t t=s*n; if(!t) return 0; if(!f->wr){ f->err=1; errno_v=9; return 0; }
  if(f->kind==2){ int k=f==stderr; vfs_put(&vfs_out[k],vfs_out[k].len,b,t); if(!k&&vfs_out[0].len-vfs_done>=4096&&commit(f)) return 0; }
  else if(f->kind==3){ struct vnode*v=&vfs_nodes[f->node]; if(f->app) f->pos=v->len; if(f->lost||f->pos+t>vfs_limit){ f->lost+=t; if(f->lost<4096) return n; f->err=1; errno_v=28; return 0; } vfs_put(v,f->pos,b,t); v->modified=1; f->pos+=t; } else if(f->kind==4){ f->pos+=t; }
  return n; }
int fputc(int c,FILE*f){ char ch=c; return fwrite(&ch,1,1,f)==1?(unsigned char)c:-1; }
int putc(int c,FILE*f){ return fputc(c,f); }
int putchar(int c){ return fputc(c,stdout); }
int fputs(const char*s,FILE*f){ size_t n=strlen(s); return fwrite(s,1,n,f)==n?1:-1; }
int puts(const char*s){ fputs(s,stdout); fputc('\n',stdout); return 1; }
int ferror(FILE*f){ chk(f); return f->err; } int feof(FILE*f){ return f->eof; } void clearerr(FILE*f){ f->err=f->eof=0; }
int fileno(FILE*f){ return f==stdin?0:f==stdout?1:f==stderr?2:3; } int isatty(int fd){ return 0; }
int fseek(FILE*f,long o,int w){ size_t len=f->kind==3?vfs_nodes[f->node].len:f->kind==1?vfs_stdin_len:0; long b=w==0?0:w==1?(long)f->pos:(long)len; if(b+o<0) return -1; f->pos=b+o; f->eof=0; f->hasun=0; return 0; }
long ftell(FILE*f){ return f->pos; } void rewind(FILE*f){ fseek(f,0,0); f->err=0; }
void setbuf(FILE*f,char*b){} int setvbuf(FILE*f,char*b,int m,size_t n){ return 0; }
void perror(const char*s){ fputs(s,stderr); fputs(": error\n",stderr); }
char *strerror(int e){ return (char*)"error"; }
int remove(const char*p){ char n[VFS_PATH]; vfs_norm(p,n); struct vnode*v=vfs_get(n); if(!v){ errno_v=2; return -1; } if(v->kind==VFS_DIR){ size_t l=strlen(n); for(int i=0;i<vfs_n;i++) if(vfs_nodes[i].kind&&memcmp(vfs_nodes[i].path,n,l)==0&&vfs_nodes[i].path[l]=='/'){ errno_v=39; return -1; } } free(v->data); v->data=0; v->kind=0; return 0; }
int unlink(const char*p){ char n[VFS_PATH]; vfs_norm(p,n); struct vnode*v=vfs_get(n); if(v&&v->kind==VFS_DIR){ errno_v=21; return -1; } return remove(p); }
int rename(const char*a,const char*b){ char n[VFS_PATH],m[VFS_PATH]; vfs_norm(a,n); vfs_norm(b,m); struct vnode*v=vfs_get(n); if(!v){ errno_v=2; return -1; } struct vnode*w=vfs_get(m); if(w) remove(b); strcpy(v->path,m); return 0; }
int access(const char*p,int m){ char r[VFS_PATH]; if(vfs_resolve(p,r)) return -1; return vfs_get(r)||r[0]==0?0:-1; }
int mkdir(const char*p,unsigned mode){ char n[VFS_PATH]; vfs_norm(p,n); if(vfs_get(n)){ errno_v=17; return -1; } if(vfs_parent_ok(n)){ errno_v=2; return -1; } struct vnode*v=vfs_new(n,VFS_DIR); v->created=1; return 0; }

long getdelim(char**lp,size_t*np,int d,FILE*f){ size_t n=0; if(!*lp||!*np){ *np=120; *lp=realloc(*lp,*np); } for(;;){ int c=fgetc(f); if(c==-1) break; if(n+2>*np){ *np*=2; *lp=realloc(*lp,*np); } (*lp)[n++]=c; if(c==d) break; } if(!n) return -1; (*lp)[n]=0; return n; }
long __getdelim(char**lp,size_t*np,int d,FILE*f){ return getdelim(lp,np,d,f); }
long getline(char**lp,size_t*np,FILE*f){ return getdelim(lp,np,'\n',f); }

/* ---- formatted input ---- */
int vsscanf(const char*s,const char*f,va_list ap){ const char*s0=s; int done=0;
  while(*f){
    if(isspace((unsigned char)*f)){ while(isspace((unsigned char)*f)) f++; while(isspace((unsigned char)*s)) s++; continue; }
    if(*f!='%'){ if(*s!=*f) return !*s&&!done?-1:done; s++; f++; continue; }
    f++; if(*f=='%'){ while(isspace((unsigned char)*s)) s++; if(*s!='%') return done; s++; f++; continue; }
    int sup=0,al=0,width=0,sz=4; if(*f=='*'){ sup=1; f++; } while(*f>='0'&&*f<='9') width=width*10+*f++-'0'; if(!width) width=1<<30;
    for(;;f++){ if(*f=='m') al=1; else if(*f=='l'||*f=='z'||*f=='j'||*f=='t') sz=8; else if(*f=='h') sz/=2; else break; }
    char k=*f++; unsigned char set[256]; int str=0;
    if(k=='['){ int neg=0; memset(set,0,256); if(*f=='^'){ neg=1; f++; } const char*b=f; while(*f&&(*f!=']'||f==b)){ if(f[1]=='-'&&f[2]&&f[2]!=']'){ for(int c=(unsigned char)*f;c<=(unsigned char)f[2];c++) set[c]=1; f+=3; } else set[(unsigned char)*f++]=1; } f++; for(int c=0;c<256;c++) set[c]^=neg; set[0]=0; str=1; }
    else if(k=='s'){ for(int c=1;c<256;c++) set[c]=!isspace(c); str=1; }
    else if(k=='c'){ memset(set,1,256); set[0]=0; if(width==1<<30) width=1; str=2; }
    else if(k=='n'){ if(!sup){ if(sz==8) *va_arg(ap,long*)=s-s0; else *va_arg(ap,int*)=s-s0; } continue; }
    if(k!='['&&k!='c') while(isspace((unsigned char)*s)) s++;
    if(!*s) return done?done:-1;
    if(str){ int n=0; while(n<width&&set[(unsigned char)s[n]]) n++; if(!n||(str==2&&n<width)) return done; if(!sup){ char*o; if(al){ o=malloc(n+1); *va_arg(ap,char**)=o; } else o=va_arg(ap,char*); memcpy(o,s,n); if(str==1) o[n]=0; done++; } s+=n; continue; }
    unsigned base; switch(k){ case 'd': case 'u': base=10; break; case 'x': case 'X': case 'p': base=16; break; case 'o': base=8; break; case 'i': base=0; break; default: sym_fail("harness: unsupported scanf format"); }
    unsigned long v=0; int neg=0,n=0,dig=0; if(k=='p') sz=8; if(n<width&&(*s=='-'||*s=='+')){ neg=*s=='-'; s++; n++; }
    if((base==16||base==0)&&n+1<width&&s[0]=='0'&&(s[1]=='x'||s[1]=='X')){ s+=2; n+=2; base=16; } else if(!base) base=*s=='0'?8:10;
    while(n<width){ int c=(unsigned char)*s,d; if(c>='0'&&c<='9') d=c-'0'; else if((c|32)>='a'&&(c|32)<='f') d=(c|32)-'a'+10; else break; if(d>=(int)base) break; v=v*base+d; s++; n++; dig++; }
    if(!dig) return done; if(neg) v=-v; if(!sup){ void*o=va_arg(ap,void*); if(sz==8) *(unsigned long*)o=v; else if(sz==4) *(unsigned*)o=v; else if(sz==2) *(unsigned short*)o=v; else *(unsigned char*)o=v; done++; } }
  return done; }
int sscanf(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int r=vsscanf(s,f,ap); va_end(ap); return r; }
int __isoc99_sscanf(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int r=vsscanf(s,f,ap); va_end(ap); return r; }
int __isoc23_sscanf(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int r=vsscanf(s,f,ap); va_end(ap); return r; }
int __isoc99_vsscanf(const char*s,const char*f,va_list ap){ return vsscanf(s,f,ap); }
int __isoc23_vsscanf(const char*s,const char*f,va_list ap){ return vsscanf(s,f,ap); }

/* ---- formatted output ---- */
struct sink { char*b; size_t cap,len; FILE*f; };
static void em(struct sink*s,const char*p,size_t n){ if(s->f){ fwrite(p,1,n,s->f); s->len+=n; return; } for(size_t i=0;i<n;i++){ if(s->len+1<s->cap) s->b[s->len]=p[i]; s->len++; } }
static void pad(struct sink*s,int n,char c){ while(n-->0) em(s,&c,1); }
static int vfmt(struct sink*s,const char*f,va_list ap){
  while(*f){ const char*q=f; while(*q&&*q!='%') q++; if(q>f){ em(s,f,q-f); f=q; continue; }
    f++; int left=0,zero=0,plus=0,alt=0,width=0,prec=-1,lng=0; for(;;f++){ if(*f=='-') left=1; else if(*f=='0') zero=1; else if(*f=='+') plus=1; else if(*f=='#') alt=1; else if(*f==' '){} else break; }
    if(*f=='*'){ width=va_arg(ap,int); if(width<0){left=1;width=-width;} f++; } else while(*f>='0'&&*f<='9') width=width*10+*f++-'0';
    if(*f=='.'){ f++; prec=0; if(*f=='*'){ prec=va_arg(ap,int); f++; } else while(*f>='0'&&*f<='9') prec=prec*10+*f++-'0'; }
    for(;;f++){ if(*f=='l'||*f=='z'||*f=='j'||*f=='t') lng=1; else if(*f=='h'){} else break; }
    switch(*f){
    case '%': em(s,"%",1); break;
    case 'c': { char c=va_arg(ap,int); if(!left) pad(s,width-1,' '); em(s,&c,1); if(left) pad(s,width-1,' '); break; }
    case 's': { const char*p=va_arg(ap,const char*); if(!p) p="(null)"; size_t n=0; if(prec>=0){ while(n<(size_t)prec&&p[n]) n++; } else n=strlen(p); if(!left) pad(s,width-(int)n,' '); em(s,p,n); if(left) pad(s,width-(int)n,' '); break; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': { char b[32]; int n=0; unsigned long v; int neg=0; unsigned base=10; if(*f=='p'){ v=(unsigned long)va_arg(ap,void*); base=16; alt=1; } else if(*f=='d'||*f=='i'){ long w=lng?va_arg(ap,long):va_arg(ap,int); if(w<0){neg=1;v=-(unsigned long)w;} else v=w; } else { v=lng?va_arg(ap,unsigned long):va_arg(ap,unsigned); base=*f=='u'?10:*f=='o'?8:16; }
      do { unsigned d=v%base; b[n++]=d<10?'0'+d:(*f=='X'?'A':'a')+d-10; v/=base; } while(v); char pre[3]; int pn=0; if(neg) pre[pn++]='-'; else if(plus) pre[pn++]='+'; if(alt&&base==16){ pre[pn++]='0'; pre[pn++]='x'; }
      int t=n+pn; int z=prec>n?prec-n:0; t+=z; if(!left&&!zero) pad(s,width-t,' '); em(s,pre,pn); if(!left&&zero) pad(s,width-t,'0'); pad(s,z,'0'); while(n) em(s,&b[--n],1); if(left) pad(s,width-t,' '); break; }
    default: sym_fail("harness: unsupported printf format"); }
    f++; }
  if(!s->f&&s->cap) s->b[s->len<s->cap?s->len:s->cap-1]=0; return (int)s->len; }
int vsnprintf(char*b,size_t n,const char*f,va_list ap){ struct sink s={b,n,0,0}; return vfmt(&s,f,ap); }
int snprintf(char*b,size_t n,const char*f,...){ va_list ap; va_start(ap,f); int r=vsnprintf(b,n,f,ap); va_end(ap); return r; }
int sprintf(char*b,const char*f,...){ va_list ap; va_start(ap,f); int r=vsnprintf(b,(size_t)1<<30,f,ap); va_end(ap); return r; }
int vsprintf(char*b,const char*f,va_list ap){ return vsnprintf(b,(size_t)1<<30,f,ap); }
int vfprintf(FILE*fp,const char*f,va_list ap){ struct sink s={0,0,0,fp}; return vfmt(&s,f,ap); }
int fprintf(FILE*fp,const char*f,...){ va_list ap; va_start(ap,f); int r=vfprintf(fp,f,ap); va_end(ap); return r; }
int printf(const char*f,...){ va_list ap; va_start(ap,f); int r=vfprintf(stdout,f,ap); va_end(ap); return r; }
int vprintf(const char*f,va_list ap){ return vfprintf(stdout,f,ap); }

/* ---- process ---- */
static struct { void(*f)(void*); void*a; int k; } ae[256]; static int nae; int vfs_atexit_base;
int __cxa_atexit(void(*f)(void*),void*a,void*d){ if(nae<256){ ae[nae].f=f; ae[nae].a=a; ae[nae].k=0; nae++; } return 0; }
int atexit(void(*f)(void)){ if(nae<256){ ae[nae].f=(void(*)(void*))f; ae[nae].a=0; ae[nae].k=1; nae++; } return 0; }
int vfs_natexit(void){ return nae; } void vfs_set_natexit(int n){ nae=n; }
void rt_run_atexit(int base){ while(nae>base){ nae--; if(ae[nae].k) ((void(*)(void))ae[nae].f)(); else ae[nae].f(ae[nae].a); } }
void exit(int c){ if(!sym_in_marked()) sym_fail("exit called outside of the program"); rt_run_atexit(vfs_atexit_base); sym_exit_marked(c); }
void _exit(int c){ sym_exit_marked(c); } void _Exit(int c){ sym_exit_marked(c); } 
void abort(void){ if(!sym_in_marked()) sym_fail("abort called outside of the program"); sym_exit_marked(134); }
void __assert_fail(const char*e,const char*f,unsigned l,const char*fn){ fputs("assertion failed: ",stderr); fputs(e,stderr); abort(); }
void __stack_chk_fail(void){ abort(); }
char *getenv(const char*n){ return 0; }
long time(long*t){ if(t) *t=1767225600; return 1767225600; }
struct tmm { int s,m,h,d,mo,y,wd,yd,dst; long off; const char*z; };
struct tmm *localtime_r(const long*t,struct tmm*r){ memset(r,0,sizeof*r); r->d=1; r->y=126; r->wd=4; r->z="UTC"; return r; }
struct tmm *gmtime_r(const long*t,struct tmm*r){ return localtime_r(t,r); }
static struct tmm tms; struct tmm *localtime(const long*t){ return localtime_r(t,&tms); } struct tmm *gmtime(const long*t){ return localtime_r(t,&tms); }
size_t strftime(char*b,size_t n,const char*f,const struct tmm*t){ struct sink s={b,n,0,0}; for(;*f;f++){ if(*f!='%'){ em(&s,f,1); continue; } f++; char q[16]; int k=0; switch(*f){ case 'Y': k=snprintf(q,16,"%d",t->y+1900); break; case 'm': k=snprintf(q,16,"%02d",t->mo+1); break; case 'd': k=snprintf(q,16,"%02d",t->d); break; case 'H': k=snprintf(q,16,"%02d",t->h); break; case 'M': k=snprintf(q,16,"%02d",t->m); break; case 'S': k=snprintf(q,16,"%02d",t->s); break; case 'Z': k=snprintf(q,16,"UTC"); break; case 'z': k=snprintf(q,16,"+0000"); break; case '%': q[0]='%'; k=1; break; case 'F': em(&s,"2026-01-01",10); break; case 'T': em(&s,"00:00:00",8); break; case 'c': em(&s,"Thu Jan  1 00:00:00 2026",24); break; case 'B': em(&s,"January",7); break; case 'b': em(&s,"Jan",3); break; case 'A': em(&s,"Thursday",8); break; case 'a': em(&s,"Thu",3); break; case 'e': em(&s," 1",2); break; case 'x': em(&s,"01/01/26",8); break; case 'X': em(&s,"00:00:00",8); break; default: sym_fail("harness: unsupported strftime format"); } em(&s,q,k); } if(s.len>=n) return 0; b[s.len]=0; return s.len; }
void qsort(void*base,size_t n,size_t sz,int(*cmp)(const void*,const void*)){ char*b=base; char tmp[256]; if(sz>256) sym_fail("harness: qsort element size"); for(size_t i=1;i<n;i++) for(size_t j=i;j>0&&cmp(b+(j-1)*sz,b+j*sz)>0;j--){ memcpy(tmp,b+j*sz,sz); memcpy(b+j*sz,b+(j-1)*sz,sz); memcpy(b+(j-1)*sz,tmp,sz); } }

int __cxa_guard_acquire(long long*g){ return !*(char*)g; } void __cxa_guard_release(long long*g){ *(char*)g=1; } void __cxa_guard_abort(long long*g){} void __cxa_deleted_virtual(void){ abort(); } void __cxa_call_unexpected(void*p){ abort(); }
void *__uselocale(void*l){ return 0; }

/* ---- less common functions ---- */
char *strtok_r(char*s,const char*d,char**sv){ if(!s) s=*sv; s+=strspn(s,d); if(!*s){ *sv=s; return 0; } char*e=s+strcspn(s,d); if(*e) *e++=0; *sv=e; return s; }
char *__strtok_r(char*s,const char*d,char**sv){ return strtok_r(s,d,sv); }
char *strtok(char*s,const char*d){ static char*sv; return strtok_r(s,d,&sv); }
char *strsep(char**sp,const char*d){ char*s=*sp; if(!s) return 0; char*e=s+strcspn(s,d); if(*e){ *e++=0; *sp=e; } else *sp=0; return s; }
char *stpncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; char*r=d+i; for(;i<n;i++) d[i]=0; return r; }
char *strchrnul(const char*s,int c){ while(*s&&*s!=(char)c) s++; return (char*)s; }
void *rawmemchr(const void*p,int c){ const unsigned char*s=p; while(*s!=(unsigned char)c) s++; return (void*)s; }
char *strcasestr(const char*h,const char*n){ size_t l=strlen(n); if(!l) return (char*)h; for(;*h;h++){ size_t i=0; while(i<l&&tolower((unsigned char)h[i])==tolower((unsigned char)n[i])) i++; if(i==l) return (char*)h; } return 0; }
void *memmem(const void*h,size_t hn,const void*n,size_t nn){ const char*a=h; if(!nn) return (void*)h; for(size_t i=0;i+nn<=hn;i++) if(memcmp(a+i,n,nn)==0) return (void*)(a+i); return 0; }
size_t strlcpy(char*d,const char*s,size_t n){ size_t l=strlen(s); if(n){ size_t k=l<n-1?l:n-1; memcpy(d,s,k); d[k]=0; } return l; }
size_t strlcat(char*d,const char*s,size_t n){ size_t k=0; while(k<n&&d[k]) k++; if(k==n) return n+strlen(s); return k+strlcpy(d+k,s,n-k); }
int vasprintf(char**o,const char*f,va_list ap){ va_list b; va_copy(b,ap); int n=vsnprintf(0,0,f,b); va_end(b); *o=malloc((size_t)n+1); return vsnprintf(*o,(size_t)n+1,f,ap); }
int asprintf(char**o,const char*f,...){ va_list ap; va_start(ap,f); int r=vasprintf(o,f,ap); va_end(ap); return r; }
int fputs_unlocked(const char*s,FILE*f){ return fputs(s,f); } int getc_unlocked(FILE*f){ return fgetc(f); } int fgetc_unlocked(FILE*f){ return fgetc(f); } int putc_unlocked(int c,FILE*f){ return fputc(c,f); } int putchar_unlocked(int c){ return fputc(c,stdout); }
int fputc_unlocked(int c,FILE*f){ return fputc(c,f); } size_t fread_unlocked(void*b,size_t s,size_t n,FILE*f){ return fread(b,s,n,f); } size_t fwrite_unlocked(const void*b,size_t s,size_t n,FILE*f){ return fwrite(b,s,n,f); } int getchar_unlocked(void){ return fgetc(stdin); }
int fseeko(FILE*f,long o,int w){ return fseek(f,o,w); } long ftello(FILE*f){ return ftell(f); }
struct st { unsigned long dev,ino,nlink; unsigned mode,uid,gid,pad; unsigned long rdev; long size,blksize,blocks,tm[6],res[3]; };
static int vstat(const char*p,struct st*b,int follow){ char r[VFS_PATH]; size_t l=strlen(p); memset(b,0,sizeof*b); if(!l){ errno_v=2; return -1; } if(l>=VFS_PATH-1){ errno_v=36; return -1; }
  if(strcmp(p,"/dev/full")==0||strcmp(p,"/dev/null")==0||strcmp(p,"/dev/stdout")==0){ b->mode=0020666; b->nlink=1; return 0; }
  int sl=p[l-1]=='/'; if(follow||sl){ if(vfs_resolve(p,r)){ errno_v=40; return -1; } } else vfs_norm(p,r);
  b->nlink=1; b->ino=1; if(r[0]==0||strcmp(r,"/")==0||strcmp(r,"..")==0){ b->mode=0040755; return 0; }
  int po=vfs_parent_ok(r); if(po){ errno_v=po==1?2:20; return -1; } struct vnode*v=vfs_get(r); if(!v){ errno_v=2; return -1; } if(sl&&v->kind!=VFS_DIR){ errno_v=20; return -1; }
  b->ino=2+(v-vfs_nodes); b->size=v->len; b->mode=v->kind==VFS_DIR?0040755:v->kind==VFS_LINK?0120777:0100644; return 0; }
int stat(const char*p,struct st*b){ return vstat(p,b,1); } int lstat(const char*p,struct st*b){ return vstat(p,b,0); } int stat64(const char*p,struct st*b){ return vstat(p,b,1); } int lstat64(const char*p,struct st*b){ return vstat(p,b,0); }
int fstat(int fd,struct st*b){ memset(b,0,sizeof*b); b->mode=0100644; return 0; }
int pthread_mutex_lock(void*m){ return 0; } int pthread_mutex_unlock(void*m){ return 0; } int pthread_mutex_init(void*m,const void*a){ return 0; } int pthread_mutex_destroy(void*m){ return 0; } int pthread_mutex_trylock(void*m){ return 0; }
int pthread_once(int*o,void(*f)(void)){ if(!*o){ *o=2; f(); } return 0; }
int __cxa_thread_atexit(void(*f)(void*),void*a,void*d){ return __cxa_atexit(f,a,d); }
/* wide characters */
size_t wcslen(const wchar_t *s){ size_t n=0; while(s[n]) n++; return n; }
wchar_t *wmemset(wchar_t *s,wchar_t c,size_t n){ for(size_t i=0;i<n;i++) s[i]=c; return s; }
wchar_t *wmemchr(const wchar_t *s,wchar_t c,size_t n){ for(size_t i=0;i<n;i++) if(s[i]==c) return (wchar_t*)s+i; return 0; }
int wmemcmp(const wchar_t *a,const wchar_t *b,size_t n){ for(size_t i=0;i<n;i++) if(a[i]!=b[i]) return a[i]<b[i]?-1:1; return 0; }
wchar_t *wmemcpy(wchar_t *d,const wchar_t *s,size_t n){ memcpy(d,s,n*sizeof *d); return d; }
wchar_t *wmemmove(wchar_t *d,const wchar_t *s,size_t n){ memmove(d,s,n*sizeof *d); return d; }
wchar_t *wcschr(const wchar_t *s,wchar_t c){ for(;;s++){ if(*s==c) return (wchar_t*)s; if(!*s) return 0; } }
int wcscmp(const wchar_t *a,const wchar_t *b){ for(;;a++,b++){ if(*a!=*b) return *a<*b?-1:1; if(!*a) return 0; } }
int vswprintf(wchar_t *o,size_t n,const wchar_t *f,va_list ap){ /* numbers and narrow characters only */ char nf[64],t[512]; size_t i=0; do { if(i==64) return -1; nf[i]=(char)f[i]; } while(f[i++]); int r=vsnprintf(t,sizeof t,nf,ap); if(r<0||(size_t)r>=n||r>=(int)sizeof t) return -1; for(int k=0;k<=r;k++) o[k]=(unsigned char)t[k]; return r; }
